"""P61: nothing hidden: no writable storage shared among solvers, no state that outlives a call besides the recording."""
import os
import re
from .kit import *
from .ir import REPO, SD
from fa import parse

RULE = ('the solver library keeps no writable static storage that any code reads back, and calls nothing outside itself but memory management, mathematics and printing; in the Fortran sources a variable that '
        'outlives a call (module variable or saved local) is read before it is set only where it belongs to the recording (tape, registry, nesting)')
PURE = '''malloc calloc realloc free sqrt pow fabs exp log sin cos fmin fmax floor ceil memset memcpy memmove strlen strcmp strncmp strcpy strncpy sprintf snprintf vsprintf vsnprintf
fprintf printf fopen fclose fflush puts putchar fputc fputs fwrite abort exit __assert_fail assert
fabsf sqrtf powf fma fmod ldexp frexp scalbn logb ilogb cbrt hypot expm1 log1p exp2 log2 log10 tan atan atan2 asin acos sinh cosh tanh round trunc rint nearbyint lround copysign
nextafter isnan isinf isfinite __isnan __isinf __finite __fpclassify __signbit memcmp memchr strcat strncat strchr strrchr strstr strtol strtod atoi atof abs labs div qsort bsearch
posix_memalign aligned_alloc perror vfprintf fputs fwrite fread fgets'''.split()
MACHINE = ('fazang_env_mod', 'fazang_tape_mod', 'fazang_vari_mod', 'fazang_nested_tape_mod')
CLOCKS = ('random_number', 'random_seed', 'random_init', 'system_clock', 'cpu_time', 'date_and_time', 'get_environment_variable', 'get_command_argument')


def tasks(tier, seed):
    out = []
    P_ = prog()
    STREAM = ('stdout', 'stderr', 'stdin')

    def c_file(rel, mod):
        def go(rep):
            mut = {}
            for g, d in mod.globs.items():
                x = ' ' + d
                if ' constant ' in x or g.startswith('llvm.'):
                    continue
                if re.match(r'(dso_local )?external ', d) and g in STREAM:
                    continue
                mut[g] = d
            for fn in mod.fns.values():
                rep.facts += 1
                rep.proved += 1
                rep.analysed.add('%s:%s' % (mod.file, fn.name))
                for g in re.findall(r'@(%s)\(' % r'[-a-zA-Z$._0-9]+', fn.text):
                    if P_.find(g) or g in mod.fns or g.startswith(('llvm.', 'SUN', 'CV', 'N_V', 'Modified', 'Classical', 'QR')):
                        continue
                    if g not in PURE:
                        rep.bad(fn.name, 'calls %s' % g, '', ['%s:%s' % (mod.file, fn.name)])
            wr, rd = {}, {}
            for fn in mod.fns.values():
                if not any('@' + g in fn.text for g in mut):
                    continue
                lines = [x.strip() for x in fn.text.split('\n') if x.strip()]
                for g in mut:
                    pat = re.compile(r'@%s(?![-\w$.])' % re.escape(g))
                    # addresses into the variable (gep results)
                    addr = set()
                    for l in lines:
                        if pat.search(l):
                            m = re.match(r'(%[-\w$.]+) = getelementptr', l)
                            if m:
                                addr.add(m.group(1))

                    def names(l, addr=addr, pat=pat):
                        return bool(pat.search(l)) or any(re.search(re.escape(a) + r'(?![-\w$.])', l) for a in addr)
                    for l in lines:
                        if not names(l) or re.match(r'%[-\w$.]+ = getelementptr', l):
                            continue
                        line = mod.line((re.search(r'!dbg !(\d+)', l) or [None, None])[1])
                        site = '%s:%s:%d' % (mod.file, fn.name, line)
                        m = re.match(r'store \S+ ([^,]+), ptr (.*)', l)
                        if m and names(m.group(2)) and not names(m.group(1)):
                            wr.setdefault(g, site)
                            continue
                        m = re.match(r'(%[-\w$.]+) = load', l)
                        if m:
                            # is the value used for anything but setting the variable itself?
                            seen, todo, used = set(), [m.group(1)], False
                            while todo:
                                v = todo.pop()
                                if v in seen:
                                    continue
                                seen.add(v)
                                for q in lines:
                                    if not re.search(r'(?<![-\w$.])' + re.escape(v) + r'(?![-\w$.])', q.split(' = ', 1)[-1]) or 'dbg.value' in q:
                                        continue
                                    s = re.match(r'store \S+ ([^,]+), ptr (.*)', q)
                                    if s and names(s.group(2)):
                                        continue
                                    d = re.match(r'(%[-\w$.]+) = (add|sub|mul|fadd|fsub|fmul|sext|zext|trunc|xor|and|or) ', q)
                                    if d:
                                        todo.append(d.group(1))
                                    else:
                                        used = True
                            if used:
                                rd.setdefault(g, site)
                            continue
                        # handed elsewhere: may be read and written
                        wr.setdefault(g, site)
                        rd.setdefault(g, site)
            for g in mut:
                rep.facts += 1
                if g in wr and g in rd:
                    rep.bad('static ' + g, 'writable storage shared by all solvers is set and read back', '', ['set at ' + wr[g], 'read at ' + rd[g]])
            rep.points += 1
        return go
    for rel, mod in P_.mods.items():
        out.append((rel, c_file(rel, mod)))

    # ---------------------------------------------------------------- Fortran
    def refs(n, name):
        """statements and expressions that mention a name"""
        if isinstance(n, (list, tuple)):
            return any(refs(x, name) for x in n)
        if isinstance(n, dict):
            return any(refs(x, name) for x in n.values())
        if not isinstance(n, parse.N):
            return False
        if n.k == 'name' and n.n == name:
            return True
        return any(refs(v, name) for k, v in vars(n).items() if k != 'pos')

    def sets(n, name):
        """is the variable (or a part of it) set or handed to a call somewhere?"""
        if isinstance(n, (list, tuple)):
            return any(sets(x, name) for x in n)
        if isinstance(n, dict):
            return any(sets(x, name) for x in n.values())
        if not isinstance(n, parse.N):
            return False
        if n.k in ('assign', 'ptrassign') and refs(n.l, name):
            return True
        if n.k in ('callstmt', 'allocate', 'deallocate', 'read') and refs([v for k, v in vars(n).items() if k not in ('k', 'pos')], name):
            return True
        if n.k == 'do' and getattr(getattr(n, 'var', None), 'n', None) == name:
            return True
        if n.k == 'call' and refs([a for _, a in n.args if getattr(a, 'k', None) in ('name', 'member')], name):
            return True
        return any(sets(v, name) for k, v in vars(n).items() if k != 'pos')

    def set_first(body, name):
        """the first statement that mentions the variable sets all of it without reading it"""
        for s in body:
            if not refs(s, name):
                continue
            if s.k == 'assign' and s.l.k == 'name' and s.l.n == name and not refs(s.r, name):
                return True
            if s.k == 'do' and getattr(getattr(s, 'var', None), 'n', None) == name and not refs([s.lo, s.hi, s.st], name):
                return True
            return False
        return True

    def calls(n, out_):
        if isinstance(n, (list, tuple)):
            for x in n:
                calls(x, out_)
        elif isinstance(n, dict):
            calls(list(n.values()), out_)
        elif isinstance(n, parse.N):
            if n.k == 'call' and getattr(n.f, 'k', None) == 'name':
                out_.append((n.f.n, n.pos))
            for k, v in vars(n).items():
                if k != 'pos':
                    calls(v, out_)

    def f_file(path):
        def go(rep):
            src = os.path.join(REPO, 'src')
            rel = os.path.relpath(path, REPO)
            try:
                units = parse.parse_path(path, inc=[src])
            except parse.ParseError as e:
                rep.undec(rel, str(e)[:200])
                return

            def procs(u):
                for p in u.procs:
                    yield p
                    yield from procs(p)
            for u in units:
                ps = list(procs(u))
                for d in getattr(u, 'decls', []):
                    if 'parameter' in d.attrs or d.k != 'decl':
                        continue
                    rep.facts += 1
                    if u.k == 'module' and u.name in MACHINE:
                        continue
                    if any(sets(p.body, d.name) and refs(p.body, d.name) and not any(a.name == d.name for a in p.decls) for p in ps):
                        rep.bad('%s::%s' % (u.name, d.name), 'module variable outside the recording keeps state between calls', '', ['%s:%d' % (rel, d.pos[1])])
                for p in ps:
                    rep.facts += 1
                    rep.proved += 1
                    rep.analysed.add('%s:%s' % (rel, p.name))
                    for d in p.decls:
                        if d.k != 'decl' or 'parameter' in d.attrs or not ('save' in d.attrs or d.init is not None or d.pinit is not None):
                            continue
                        rep.facts += 1
                        if sets(p.body, d.name) and not set_first(p.body, d.name):
                            rep.bad('%s::%s' % (p.name, d.name), 'keeps its value from one call to the next and is read before it is set', '', ['%s:%d' % (rel, d.pos[1])])
                    cs = []
                    calls(p.body, cs)
                    for nm, pos in cs:
                        if nm in CLOCKS:
                            rep.bad(p.name, 'calls %s' % nm, '', ['%s:%d' % (rel, pos[1] if pos else 0)])
            rep.points += 1
        return go
    for d in ('src', 'src/prob'):
        full = os.path.join(REPO, d)
        for f in sorted(os.listdir(full)):
            if f.endswith('.F90') and f != 'test.F90':
                out.append((os.path.join(d, f), f_file(os.path.join(full, f))))
    return out
