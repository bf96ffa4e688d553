#!/usr/bin/env python3
"""mutate_f.py PROP[,PROP...] FILE [max] [seed] : sensitivity of checks to small edits of the Fortran source.
Works in a scratch copy (/tmp/mutf.<pid>, removed at the end); never touches /repo."""
import os, random, re, shutil, subprocess, sys
PROPS, FILE = sys.argv[1].split(','), sys.argv[2]
MAX = int(sys.argv[3]) if len(sys.argv) > 3 else 40
rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
W = '/tmp/mutf.%d' % os.getpid()
os.makedirs(W)
subprocess.run('mkdir -p %s/repo %s/verif; git -C /repo archive HEAD src | tar -x -C %s/repo; git -C /verif archive HEAD | tar -x -C %s/verif; cp -a /verif/fc /verif/fa %s/verif/' % (W, W, W, W, W), shell=True, check=True)
path = W + '/repo/' + FILE
lines = open(path).read().split('\n')
SUB = [(r'<=', '<'), (r'(?<![<\-/=])<(?![<=])', '<='), (r'>=', '>'), (r'(?<![>\-=])>(?![>=])', '>='), (r'==', '/='), (r'/=', '=='), (r'\.and\.', '.or.'), (r'\.or\.', '.and.'), (r'\.not\.', ''),
       (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=\s)-(?=\s)', '+'), (r'(?<=\s)\*(?=\s)', '/'), (r'(?<=\s)/(?=\s)', '*'),
       (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'(?<![\w.])([1-9]\d*)(?![\w.])', lambda m: str(int(m.group(1)) - 1)), (r'0\.d0', '1.d0'), (r'1\.0\b', '2.0'), (r'\.true\.', '.false.'), (r'\.false\.', '.true.'),
       (r'\b(\w+), (\w+)\b', r'\2, \1'), (r'% ?rtol', '% atol'), (r'% ?atol', '% rtol'), (r'\(i\)', '(j)'), (r'\(j\)', '(i)'), (r'\by\b', 'f'), (r'\bns\b', 'neq'), (r'stop 1', 'stop'), (r'stop 1', 'continue')]
muts = []
depth = 0
inc = False
for i, l in enumerate(lines):
    t = l.strip()
    if re.match(r'(pure |elemental |impure |recursive |type\(\w+\) |integer\S* |logical |real\S* )*(subroutine|function)\b', t):
        inc = True
    if not inc or not t or t.startswith(('!', '#', 'use ', 'implicit', 'print', 'end ', 'type(', 'class(', 'real(', 'integer', 'logical', 'procedure(', 'function', 'subroutine', 'import')) or 'print *' in t:
        continue
    for a, b in SUB:
        for m in re.finditer(a, l):
            muts.append((i, l[:m.start()] + (b(m) if callable(b) else m.expand(b)) + l[m.end():]))
    if re.match(r'^(call .*|[\w%() ,]+ ?=>? ?.*)$', t) and not t.endswith('&'):
        muts.append((i, l[:len(l) - len(l.lstrip())] + 'continue'))
rnd.shuffle(muts)
D = subprocess.run("find /repo/_build -name '*.mod' -printf '-I%h\\n' | sort -u | tr '\\n' ' '", shell=True, capture_output=True, text=True).stdout.strip()
n = k = u = 0
try:
    for i, new in muts:
        if n >= MAX:
            break
        if new == lines[i]:
            continue
        open(path, 'w').write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
        c = subprocess.run('cd %s && gfortran -fsyntax-only -w -ffree-line-length-none -cpp -DUSE_SUNDIALS %s %s' % (W, D, path), shell=True, capture_output=True)
        if c.returncode:
            continue
        n += 1
        by, und = [], ''
        for P in PROPS:
            r = subprocess.run('cd %s/verif && FA_REPO=%s/repo timeout 900 python3-vt check.py %s quick' % (W, W, P), shell=True, capture_output=True, text=True)
            if r.returncode == 1:
                by.append(P)
                break
            x = [y for y in r.stdout.splitlines() if 'undecided' in y][-1:]
            und += '%s rc=%d %s; ' % (P, r.returncode, (x or [''])[0][-14:])
        if by:
            k += 1
        else:
            u += ' 0 undecided' not in und
            print('SURVIVES %s:%d\n    - %s\n    + %s   %s' % (FILE, i + 1, lines[i].strip(), new.strip(), und), flush=True)
finally:
    shutil.rmtree(W)
print('%s: %d mutants, %d caught' % (FILE, n, k))
