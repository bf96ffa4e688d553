#!/usr/bin/env python3
"""mutate_c.py PROP FILE FUNC[,FUNC...] [max] [seed] : sensitivity of a check to small edits of the C source.
Works in a scratch copy (/tmp/mut.<pid>, removed at the end) of the library sources and of /verif; never touches /repo."""
import os, random, re, shutil, subprocess, sys
PROP, FILE, FUNCS = sys.argv[1], sys.argv[2], sys.argv[3].split(',')
MAX = int(sys.argv[4]) if len(sys.argv) > 4 else 40
rnd = random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1)
W = '/tmp/mut.%d' % os.getpid()
os.makedirs(W)
subprocess.run('mkdir -p %s/repo %s/verif; git -C /repo archive HEAD | tar -x -C %s/repo; cp -a /repo/_build %s/repo/ ; git -C /verif archive HEAD | tar -x -C %s/verif; cp -a /verif/fc /verif/fa %s/verif/' % (W, W, W, W, W, W), shell=True, check=True)
S = W + '/repo/lib/sundials-6.1.1'
path = W + '/repo/' + FILE
src = open(path).read()
lines = src.split('\n')


def body(fn):
    for i, l in enumerate(lines):
        if re.match(r'^[A-Za-z].*\b%s\s*\(' % fn, l) and not l.rstrip().endswith(';'):
            j = i
            while not lines[j].startswith('{') and not lines[j].rstrip().endswith('{'):
                if ';' in lines[j]:
                    break
                j += 1
            else:
                e = j
                while not lines[e].startswith('}'):
                    e += 1
                return range(j + 1, e)
    raise SystemExit('no function ' + fn)


SUB = [(r'<=', '<'), (r'(?<![<\-])<(?![<=])', '<='), (r'>=', '>'), (r'(?<![>\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'(?<=\s)\+(?=\s)', '-'), (r'(?<=\s)-(?=\s)', '+'), (r'(?<=\s)\*(?=\s)', '/'), (r'(?<=\s)/(?=\s)', '*'), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='),
       (r'\bONE\b', 'TWO'), (r'\bZERO\b', 'ONE'), (r'\bSUNMAX\b', 'SUNMIN'), (r'\bSUNMIN\b', 'SUNMAX'), (r'\bSUNTRUE\b', 'SUNFALSE'), (r'\bSUNFALSE\b', 'SUNTRUE'),
       (r'(?<![\w.])(\d+)(?![\w.])', lambda m: str(int(m.group(1)) + 1)), (r'\+\+', '--'), (r'(\w)\+1\b', r'\1'), (r'(\w)-1\b', r'\1'), (r'-ONE', 'ONE'), (r'\bcv_tempv\b', 'cv_ftemp'), (r'\bcv_hu\b', 'cv_h'), (r'\bcv_h\b', 'cv_hu'), (r'\[is\]', '[0]'), (r'\[j\]','[j+1]'), (r'\bSUNRabs\b', ''), (r'break;', ';'), (r'continue;', ';')]
muts = []
for fn in FUNCS:
    quad = 0
    for i in body(fn):
        l = lines[i]
        t = l.strip()
        if not t or t.startswith(('/*', '*', '//', 'int ', 'realtype ', 'CVodeMem', 'N_Vector ', 'long ', '#', 'sunindextype ')) or 'cvProcessError' in t or 'MSGCV' in t or 'SUNDIALS_MARK' in t or 'quad' in t or re.search(r'\w+Q\b|QS\b', t):
            continue
        for a, b in SUB:
            for m in re.finditer(a, l):
                n = l[:m.start()] + (b(m) if callable(b) else m.expand(b)) + l[m.end():]
                muts.append((fn, i, n))
        if re.match(r'^[\w>\-.\[\]()* ]+(=|\+=|\*=|-=|\+\+|--)[^=].*;$', t) or re.match(r'^(\(void\) *)?\w+\(.*\);$', t):
            muts.append((fn, i, l[:len(l) - len(l.lstrip())] + ';'))
rnd.shuffle(muts)
inc = '-I%s/include -I%s/src/cvodes -I%s/src/sundials -I%s/repo/_build/lib/sundials-6.1.1/include -I%s/src/nvector -I%s/src' % (S, S, S, W, S, S)
n = k = u = 0


def asm():
    return subprocess.run(r"gcc -O1 -w -S -o - %s %s | grep -v '^\s*\.\(file\|ident\|loc\)'" % (inc, path), shell=True, capture_output=True).stdout


base = asm()
try:
    for fn, i, new in muts:
        if n >= MAX:
            break
        if new == lines[i]:
            continue
        open(path, 'w').write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
        c = subprocess.run('gcc -fsyntax-only -w %s %s' % (inc, path), shell=True, capture_output=True)
        if c.returncode or asm() == base:
            continue
        n += 1
        r = subprocess.run('cd %s/verif && FA_REPO=%s/repo timeout 900 python3-vt check.py %s quick' % (W, W, PROP), shell=True, capture_output=True, text=True)
        if r.returncode == 1:
            k += 1
        else:
            und = [x for x in r.stdout.splitlines() if 'undecided' in x][-1:]
            if und and ' 0 undecided' not in und[0]:
                u += 1
            print('SURVIVES rc=%d %s:%d\n    - %s\n    + %s   %s' % (r.returncode, fn, i + 1, lines[i].strip(), new.strip(), (und or [''])[0][-60:]), flush=True)
finally:
    shutil.rmtree(W)
print('%s: %d mutants, %d caught (%d of the rest undecided)' % (PROP, n, k, u))
