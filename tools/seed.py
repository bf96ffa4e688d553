#!/usr/bin/env python3
"""seed.py make FILE...   : create /verif/seeded/<id> from definitions (each FILE defines SEEDS)
   seed.py check ID...    : apply, build, test, demo, run the property's quick check, undo
   seed.py checks ID...   : only run the property's check with the patch applied
Everything happens in a scratch copy of /repo is not possible (the build is tied to /repo), so the
patch is applied to /repo's working tree and always undone."""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, 'seeded')
DEMO = '''#!/bin/bash
# compiles demo.F90 against the library built from /repo and runs it
d=$(cd "$(dirname "$0")" && pwd); B=/repo/_build
t=$(mktemp -d) || exit 2
cd "$t" || exit 2
gfortran-11 -O1 -g -ffree-line-length-none -DUSE_SUNDIALS -I$B/src/libfazang.so.p -I$B/lib/sundials-6.1.1/libsundials.a.p \\
  -cpp "$d/demo.F90" -o demo -L$B/src -lfazang -Wl,-rpath,$B/src >build.log 2>&1 || { cat build.log; cd /; exit 3; }
timeout 60 ./demo
rc=$?
cd /
exit $rc
'''
DEMO_C = '''#!/bin/bash
# compiles demo.c against the solver library built from /repo and runs it
d=$(cd "$(dirname "$0")" && pwd); S=/repo/lib/sundials-6.1.1; B=/repo/_build/lib/sundials-6.1.1
t=$(mktemp -d) || exit 2
cd "$t" || exit 2
gcc -g -w -I$S/include -I$S/src/cvodes -I$S/src/sundials "$d/demo.c" -o demo $B/libsundials.a -lm -lgfortran >build.log 2>&1 \\
 || gcc-11 -g -w -I$S/include -I$S/src/cvodes -I$S/src/sundials "$d/demo.c" -o demo $B/libsundials.a -lm >build.log 2>&1 || { cat build.log; cd /; exit 3; }
timeout 60 ./demo
rc=$?
cd /
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def undo():
    sh('git -C /repo checkout -- .')


def tests():
    r = sh('bash /opt/vp/test.sh /tmp/w/seed_out.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open('/tmp/w/seed_out.json'))['passed'])
    return sorted(base - got), r


def make(defs):
    ns = {}
    exec(open(defs).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(SEED, s['id'])
        os.makedirs(d, exist_ok=True)
        undo()
        try:
            for f, a, b in s['edits']:
                p = os.path.join('/repo', f)
                t = open(p).read()
                if t.count(a) != 1:
                    raise SystemExit('%s: %d matches in %s of %r' % (s['id'], t.count(a), f, a))
                open(p, 'w').write(t.replace(a, b))
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        finally:
            undo()
        if 'cdemo' in s:
            open(os.path.join(d, 'demo.c'), 'w').write(s['cdemo'])
        else:
            open(os.path.join(d, 'demo.F90'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_C if 'cdemo' in s else DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        check(s['id'])


def check(i, full=True):
    d = os.path.join(SEED, i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    line = i + ' ' + prop + ':'
    if full:
        undo()
        r = sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        line += ' clean-demo=%d' % r.returncode
        if r.returncode:
            print(r.stdout[-1500:], r.stderr[-500:])
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'does not apply', r.stderr)
            return
        if full:
            bad, r = tests()
            line += ' tests=%s' % (bad or 'ok')
            r = sh('bash %s/demo.sh' % d, cwd='/repo')
            line += ' bug-demo=%d' % r.returncode
        r = sh('python3-vt check.py %s quick' % prop, cwd=ROOT)
        line += ' check=%d' % r.returncode
        print(line)
        print('   ' + '\n   '.join((r.stdout + r.stderr)[-700:].strip().splitlines()[:6]))
    finally:
        undo()
        if full:
            sh('bash /opt/vp/build.sh')
    sys.stdout.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        for f in sys.argv[2:]:
            make(f)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        for i in ids:
            check(i, sys.argv[1] == 'check')
