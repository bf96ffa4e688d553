#!/usr/bin/env python3
"""rewrites section 8 of DESIGN.md from seeded/*/meta.json (a change planted for a property is run against that property's check)"""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
FIRST_MISSED = {'p54-ee-report': 'missed at first: report of estimated tolerances added', 'p55-sens-restart': 'missed at first: restart with sensitivities added',
                'p58-steps-int': 'missed at first: wide concrete arguments added'}
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
i = s.find('## 8. ')
s = (s if i < 0 else s[:i]).rstrip() + '\n\n## 8. Seeded changes and the check that catches each\n\n| change | check | what it breaks | |\n|---|---|---|---|\n'
for f in sorted(glob.glob(os.path.join(here, 'seeded/*/meta.json'))):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    s += '| %s | %s | %s | %s |\n' % (n, d['property'], d['what_it_breaks'].replace('|', '/'), FIRST_MISSED.get(n, ''))
open(p, 'w').write(s)
