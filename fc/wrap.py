"""P58: the Fortran interface of the solver library hands every argument and result through unchanged."""
import os
import re
import subprocess
from .kit import *
from .ir import REPO, SD, clang_args
from fa import parse

RULE = ('every Fortran interface procedure F<name> calls <name> exactly once on every path with its arguments in order (value, address or function handle as the C prototype demands) and returns what it '
        'returned; mirrored structures have the members of the C structures in order, mirrored constants their values, and the callbacks handed to the solver the signature it calls them with')
INC = [SD + '/include', SD + '/src/sundials', SD]
MODS = '''cvodes/fmod/fcvodes_mod nvector/serial/fmod/fnvector_serial_mod sundials/fmod/fsundials_context_mod sundials/fmod/fsundials_linearsolver_mod
sundials/fmod/fsundials_matrix_mod sundials/fmod/fsundials_nonlinearsolver_mod sundials/fmod/fsundials_nvector_mod sundials/fmod/fsundials_futils_mod
sunlinsol/dense/fmod/fsunlinsol_dense_mod sunmatrix/dense/fmod/fsunmatrix_dense_mod sunnonlinsol/newton/fmod/fsunnonlinsol_newton_mod
sunnonlinsol/fixedpoint/fmod/fsunnonlinsol_fixedpoint_mod'''.split()


# ------------------------------------------------------------------ C types from the debug information
def shape(mod, t, d=0):
    """('void',) | ('f', bits) | ('i', bits) | ('p', shape) | ('fn', [shapes]) | ('s', name) of a type record"""
    if t is None or d > 8:
        return ('void',)
    x = mod.meta[t]
    base = re.search(r'baseType: !(\d+)', x)
    base = base.group(1) if base else None
    if 'DW_TAG_pointer_type' in x:
        return ('p', shape(mod, base, d + 1))
    if 'DW_TAG_typedef' in x or 'DW_TAG_const' in x or 'DW_TAG_volatile' in x or 'DW_TAG_restrict' in x:
        return shape(mod, base, d)
    if 'DIBasicType' in x:
        n = int(re.search(r'size: (\d+)', x).group(1))
        return ('f' if 'DW_ATE_float' in x else 'i', n)
    if 'DW_TAG_enumeration' in x:
        return ('i', 32)
    if 'DISubroutineType' in x:
        return ('fn', types_of(mod, t, d + 1))
    if 'DW_TAG_structure' in x or 'DW_TAG_union' in x:
        m = re.search(r'name: "([^"]*)"', x)
        return ('s', m.group(1) if m else '')
    return ('?', x[:40])


def types_of(mod, sub, d=0):
    m = re.search(r'types: !(\d+)', mod.meta[sub])
    items = re.findall(r'!(\d+)|null', mod.meta[m.group(1)].split('!{', 1)[1])
    return tuple(shape(mod, i or None, d + 1) for i in items) or (('void',),)


def signature(fn):
    """[result, parameters...] of a C function"""
    sp = fn.mod.meta[fn.sub] if getattr(fn, 'sub', None) else ''
    m = re.search(r'type: !(\d+)', sp)
    if not m:
        raise Unsupported('no debug information for ' + fn.name)
    return types_of(fn.mod, m.group(1))


def boxed(ws):
    """character strings and wrapped classes travel in structures of their own; fazang uses none of them"""
    return any(t[0] in ('s', '?') or (t[0] == 'p' and t[1] in (('s', ''), ('s', 'SwigClassWrapper'), ('s', 'SwigArrayWrapper'))) for t in ws)


def isptr(t):
    return t[0] == 'p'


TY = {('f', 64): 'double', ('i', 32): 'i32', ('i', 64): 'i64', ('i', 8): 'i8'}


def macros():
    hs = ['cvodes/cvodes.h', 'cvodes/cvodes_ls.h', 'cvodes/cvodes_diag.h', 'sundials/sundials_linearsolver.h', 'sundials/sundials_matrix.h', 'sundials/sundials_nonlinearsolver.h',
          'sundials/sundials_nvector.h', 'sundials/sundials_iterative.h', 'sunlinsol/sunlinsol_dense.h', 'sunmatrix/sunmatrix_dense.h', 'sunnonlinsol/sunnonlinsol_newton.h',
          'sunnonlinsol/sunnonlinsol_fixedpoint.h']
    src = ''.join('#include <%s>\n' % h for h in hs)
    a = [x for x in clang_args() if x.startswith('-I')]
    r = subprocess.run(['clang-18'] + a + ['-E', '-dM', '-x', 'c', '-'], input=src, capture_output=True, text=True)
    out = {}
    for l in r.stdout.splitlines():
        m = re.match(r'#define (\w+) \(*(-?\d+)\)*$', l)
        if m:
            out[m.group(1).lower()] = int(m.group(2))
    # enumerators: let the type checker say their values
    r = subprocess.run(['clang-18'] + a + ['-E', '-P', '-x', 'c', '-'], input=src, capture_output=True, text=True)
    for body in re.findall(r'enum\s*\w*\s*\{([^}]*)\}', r.stdout):
        last = -1
        for it in body.split(','):
            nm, _, v = it.partition('=')
            nm = nm.strip()
            if not re.match(r'\w+$', nm):
                continue
            try:
                last = int(v, 0) if v.strip() else last + 1
            except ValueError:
                break
            out.setdefault(nm.lower(), last)
    return out


# ------------------------------------------------------------------ Fortran side
class Bad(Exception):
    pass


def fkind(d):
    """C shape class of a Fortran declaration: 'f64', 'i32', 'i64', 'ptr', 'fun', or ('type', name)"""
    ts = d.ts
    if ts.base == 'real':
        k = ts.kind
        return {'c_double': 'f64'}.get(getattr(k, 'n', None), 'real?')
    if ts.base == 'integer':
        n = getattr(ts.kind, 'n', None)
        return {'c_int': 'i32', 'c_long': 'i64', 'c_int64_t': 'i64', 'c_size_t': 'i64', 'c_int32_t': 'i32', None: 'i32'}.get(n, 'i32' if n and n.endswith('_id') else 'int?')
    if ts.base == 'type':
        return {'c_ptr': 'ptr', 'c_funptr': 'fun'}.get(ts.name, ('type', ts.name))
    return '?' + ts.base


CK = {('f', 64): 'f64', ('i', 32): 'i32', ('i', 64): 'i64'}


def flow(proc, decls):
    """values handed to the wrapper by a straight-line interface procedure: (wrapper name, [value], returned)"""
    env = {a: ('val', a) for a in proc.args}
    called = []

    def ev(e):
        k = e.k
        if k == 'name':
            if e.n in env:
                return env[e.n]
            return ('local', e.n)
        if k == 'call' and e.f.k == 'name':
            f = e.f.n
            args = [a for _, a in e.args]
            if f == 'c_loc' and len(args) == 1:
                a = args[0]
                if a.k == 'call' and a.f.k == 'name' and len(a.args) == 1 and getattr(a.args[0][1], 'v', None) == 1:
                    v = ev(a.f)
                elif a.k == 'name':
                    v = ev(a)
                else:
                    raise Unsupported('address of %s' % a.k)
                if v[0] != 'val':
                    raise Unsupported('address of a local')
                return ('addr', v[1])
            if f.startswith('swigc_'):
                vals = [ev(a) for a in args]
                called.append((f, vals))
                return ('result', f)
        raise Unsupported('expression %s' % k)

    def run(body):
        for s in body:
            if s.k == 'assign' and s.l.k == 'name':
                env[s.l.n] = ev(s.r)
            elif s.k == 'callstmt' and s.call.k == 'call' and s.call.f.k == 'name':
                f = s.call.f.n
                if f == 'c_f_pointer':
                    a = [x for _, x in s.call.args]
                    v = ev(a[0])
                    env[a[1].n] = ('deref',) + v
                elif f.startswith('swigc_'):
                    called.append((f, [ev(a) for _, a in s.call.args]))
                else:
                    raise Unsupported('call of ' + f)
            elif s.k in ('continue', 'noop', 'return'):
                pass
            else:
                raise Unsupported('statement %s' % s.k)
    run(proc.body)
    return called, env


def tasks(tier, seed):
    out = []
    P_ = prog()
    PM = {}

    def fmod(rel):
        if rel not in PM:
            PM[rel] = parse.parse_path(os.path.join(SD, 'src', rel + '.f90'), inc=INC)
        return PM[rel]

    # ---------------------------------------------------------------- the C half
    def one(w, name, ws, cs, wide):
        k = K()

        def some(t, j, nm):
            if t[0] == 'f':
                return 1 / 3 + j if wide else k.f(nm)
            if not wide:
                return k.i(nm, -5, 5)
            n = t[1] if t[0] == 'i' else 32
            return -2**(n - 1) + 3 + j if j % 2 else 2**(n - 1) - 5 - j
        args, want = [], []
        for j, (a, b) in enumerate(zip(ws[1:], cs[1:])):
            if isptr(a) and b in TY:
                if a[1] != b:
                    return k, ['reads argument %d as %s, %s takes %s' % (j + 1, a[1], name, b)]
                o = k.buf(8, 'argument %d' % (j + 1))
                v = some(b, j, 'x%d' % j)
                k.st(TY[b], v, o)
                args.append(o)
                want.append(v)
            elif isptr(a):
                o = k.buf(64, 'argument %d' % (j + 1))
                args.append(o)
                want.append(o)
            else:
                v = some(a, j, 'x%d' % j)
                args.append(v)
                want.append(v)
        seen = []
        rt = cs[0]
        res = None if rt == ('void',) else k.buf(8, 'result') if isptr(rt) else some(rt, 1, 'result')

        def h(st, a, ty):
            seen.append((st.pc, list(a)))
            return res
        k.hook(name, h)
        r = k.call(w, *args)
        if len(seen) != 1 or seen[0][0] is not True:
            return k, ['calls %s %d times%s' % (name, len(seen), ' (under a condition)' if seen else '')]
        bad = ['argument %d of %s is not the one given' % (j + 1, name) for j, (x, y) in enumerate(zip(seen[0][1], want)) if not same(x, y)]
        if res is not None and not same(r, res):
            bad.append('does not return what %s returned' % name)
        return k, bad

    def c_half(rel):
        def go(rep):
            mod = P_.mods.get(rel)
            if mod is None:
                raise Unsupported('%s.c is not available' % rel)
            names = sorted(n for n in mod.fns if n.startswith('_wrap_F'))
            for w in names:
                name = w[7:]
                callee = P_.find(name)
                if callee is None:
                    rep.undec(w, 'no C function %s among the analysed files' % name)
                    continue
                where = ['%s.c:%s' % (os.path.join(os.path.relpath(SD, REPO), 'src', rel), w)]
                try:
                    ws, cs = signature(mod.fns[w]), signature(callee)
                except Unsupported as e:
                    rep.undec(w, str(e))
                    continue
                if boxed(ws):
                    continue        # character strings and wrapped classes: not used by fazang
                if len(ws) != len(cs):
                    rep.bad(w, 'takes %d arguments, %s takes %d' % (len(ws) - 1, name, len(cs) - 1), '', where)
                    continue
                rep.analysed.add('%s.c:%s' % (rel, w))
                rep.points += 1
                # once with any values at all, once with the widest ones (a conversion to a narrower type loses something)
                for wide in (False, True):
                    try:
                        k, bad = one(w, name, ws, cs, wide)
                    except Unsupported as e:
                        rep.undec(w, str(e))
                        break
                    rep.facts += 2 + len(ws) - 1
                    rep.proved += 2 + len(ws) - 1
                    for x in bad:
                        rep.bad(w, x, '', where)
                    for e in k.faults():
                        rep.bad(w, e.data[0], '', where)
                    if bad:
                        break
        return go

    # ---------------------------------------------------------------- the Fortran half
    def f_half(rel):
        def go(rep):
            units = fmod(rel)
            f90 = os.path.join(os.path.relpath(SD, REPO), 'src', rel) + '.f90'
            for m in units:
                ifs = {b.name: b for i in m.interfaces for b in i.bodies}
                for nm, b in sorted(ifs.items()):
                    if not nm.startswith('swigc_f'):
                        continue
                    w = re.search(r'name\s*=\s*"([^"]*)"', b.bind or '')
                    w = w.group(1) if w else None
                    where = ['%s:%d' % (f90, b.pos[1] if b.pos else 0)]
                    rep.facts += 1
                    if w is None or w.lower() != '_wrap_' + nm[6:]:
                        rep.bad(nm, 'is bound to %s' % w, '', where)
                        continue
                    fn = P_.find(w)
                    if fn is None:
                        if w[7:].isidentifier() and P_.find(w[7:]):
                            rep.bad(nm, 'is bound to %s, which does not exist' % w, '', where)
                        continue
                    ws = signature(fn)
                    if boxed(ws):
                        continue
                    dd = {d.name: d for d in b.decls}
                    if len(b.args) != len(ws) - 1:
                        rep.bad(nm, 'has %d arguments, %s has %d' % (len(b.args), w, len(ws) - 1), '', where)
                        continue
                    for j, a in enumerate(b.args):
                        rep.facts += 1
                        rep.proved += 1
                        d = dd[a]
                        k = fkind(d)
                        byval = 'value' in d.attrs
                        t = ws[1 + j]
                        if byval:
                            ok = (k in ('ptr', 'fun') and isptr(t)) or CK.get(t) == k
                            if ok and isptr(t):
                                ok = (k == 'fun') == (t[1][0] == 'fn')
                        else:
                            ok = isptr(t) and (CK.get(t[1]) == k)
                        if not ok:
                            rep.bad(nm, 'argument %d is declared %s%s, %s takes %s' % (j + 1, k, ' by value' if byval else '', w, t), '', where)
                    if b.isfunc:
                        d = dd.get(b.result or b.name)
                        k = fkind(d) if d else '?'
                        t = ws[0]
                        rep.facts += 1
                        if not (CK.get(t) == k or (k == 'ptr' and isptr(t)) or (k == 'fun' and isptr(t))):
                            rep.bad(nm, 'result is declared %s, %s returns %s' % (k, w, t), '', where)
                    elif ws[0] != ('void',):
                        rep.bad(nm, 'ignores the result of %s' % w, '', where)
                procs = {p.name: p for p in m.procs}
                for nm, p in sorted(procs.items()):
                    if 'swigc_' + nm not in ifs or not nm.startswith('f'):
                        continue
                    b = ifs['swigc_' + nm]
                    w = re.search(r'name\s*=\s*"([^"]*)"', b.bind or '')
                    callee = P_.find(w.group(1)[7:]) if w else None
                    if callee is None:
                        continue
                    cs = signature(callee)
                    ws = signature(P_.find(w.group(1))) if P_.find(w.group(1)) else []
                    if boxed(ws):
                        continue
                    where = ['%s:%d' % (f90, p.pos[1] if p.pos else 0)]
                    dd = {d.name: d for d in p.decls}
                    try:
                        called, env = flow(p, dd)
                    except Unsupported as e:
                        rep.undec(nm, str(e))
                        continue
                    rep.analysed.add('%s:%s' % (f90, nm))
                    rep.facts += 2 + len(p.args)
                    rep.proved += 2 + len(p.args)
                    rep.points += 1
                    if len(called) != 1 or called[0][0] != 'swigc_' + nm:
                        rep.bad(nm, 'calls %s' % ', '.join(c for c, _ in called), '', where)
                        continue
                    vals = called[0][1]
                    if len(vals) != len(p.args) or len(vals) != len(cs) - 1:
                        rep.bad(nm, 'hands on %d of %d arguments' % (len(vals), len(cs) - 1), '', where)
                        continue
                    for j, (v, a) in enumerate(zip(vals, p.args)):
                        d = dd[a]
                        kd = fkind(d)
                        t = cs[1 + j]
                        if v == ('local', 'c_null_ptr') and a == 'comm' and nm == 'fsuncontext_create':
                            continue        # there is no communicator without MPI
                        if v[1] != a:
                            rep.bad(nm, 'argument %d handed on is %s, not %s' % (j + 1, v[1], a), '', where)
                            continue
                        if t in CK:
                            ok = v[0] == 'val' and kd == CK[t] and d.dims is None
                        elif t[1][0] == 'fn':
                            ok = v[0] == 'val' and kd == 'fun'
                        elif t[1][0] in ('void',) or (isptr(t[1]) and t[1][1] != ('void',) and v[0] == 'val'):
                            # an opaque handle, or an array of handles given by its address
                            ok = (v[0] == 'val' and kd == 'ptr') or (v[0] == 'addr' and d.dims is not None and kd == 'ptr')
                        elif isptr(t[1]):
                            ok = v[0] == 'addr' and kd == ('fun' if t[1][1][0] == 'fn' else 'ptr')
                        elif t[1] in CK:
                            ok = (v[0] == 'addr' and kd == CK[t[1]] and (d.dims is not None or 'target' in d.attrs)) or (v[0] == 'val' and kd == 'ptr')
                        else:
                            ok = v[0] == 'addr' and (isinstance(kd, tuple) or kd in CK.values()) or (v[0] == 'val' and kd == 'ptr')
                        if ok and isinstance(kd, tuple) and isptr(t) and t[1][0] == 's':
                            cname = t[1][1].lower().replace('_generic_', '')
                            fname = kd[1]
                            if fname.startswith(('n_vector', 'sunmatrix', 'sunlinearsolver', 'sunnonlinearsolver')) and cname.strip('_') != fname:
                                ok = False
                        if not ok:
                            rep.bad(nm, 'argument %d (%s, %s) is handed on as %s where %s takes %s' % (j + 1, a, kd, v[0], callee.name, t), '', where)
                    if p.isfunc:
                        r = env.get(p.result or p.name)
                        if r not in (('result', 'swigc_' + nm), ('deref', 'result', 'swigc_' + nm)):
                            rep.bad(nm, 'does not return the result of the call', '', where)
                    elif cs[0] != ('void',):
                        rep.bad(nm, 'drops the result of the call', '', where)
        return go

    # ---------------------------------------------------------------- constants and structures
    MAC = []

    def consts(rel):
        def go(rep):
            if not MAC:
                MAC.append(macros())
            f90 = os.path.join(os.path.relpath(SD, REPO), 'src', rel) + '.f90'
            for m in fmod(rel):
                for d in m.decls:
                    v = getattr(d.init, 'v', None) if d.init is not None else None
                    if d.init is not None and d.init.k == 'un' and getattr(d.init.a, 'v', None) is not None:
                        v = -d.init.a.v
                    if 'parameter' not in d.attrs or not isinstance(v, int) or isinstance(v, bool):
                        continue
                    c = MAC[0].get(d.name)
                    if c is None:
                        continue
                    rep.facts += 1
                    rep.proved += 1
                    if c != v:
                        rep.bad(d.name, 'is %d in Fortran and %d in C' % (v, c), '', ['%s:%d' % (f90, d.pos[1])])
                for t in m.types.values():
                    cn = {'n_vector_ops': '_generic_N_Vector_Ops', 'n_vector': '_generic_N_Vector', 'sunmatrix_ops': '_generic_SUNMatrix_Ops', 'sunmatrix': '_generic_SUNMatrix',
                          'sunlinearsolver_ops': '_generic_SUNLinearSolver_Ops', 'sunlinearsolver': '_generic_SUNLinearSolver', 'sunnonlinearsolver_ops': '_generic_SUNNonlinearSolver_Ops',
                          'sunnonlinearsolver': '_generic_SUNNonlinearSolver'}.get(t.name)
                    if cn is None:
                        continue
                    fs = P_.fields(cn)
                    if fs is None:
                        rep.undec(t.name, 'no C structure %s' % cn)
                        continue
                    cm = [n.lower() for n, (o, _) in sorted(fs.items(), key=lambda x: x[1][0])]
                    fm = [c.name for c in t.comps]
                    rep.facts += len(cm)
                    rep.proved += len(cm)
                    if cm != fm:
                        dif = [a for a, b in zip(cm + [''] * len(fm), fm + [''] * len(cm)) if a != b]
                        rep.bad(t.name, 'members differ from the C structure from %s on' % (dif[0] if dif else '?'), '', ['%s:%d' % (f90, t.pos[1])])
                    for c in t.comps:
                        rep.facts += 1
                        if fkind(c) not in ('ptr', 'fun'):
                            rep.bad(t.name, 'member %s is not a pointer' % c.name, '', ['%s:%d' % (f90, c.pos[1])])
            rep.points += 1
        return go

    # ---------------------------------------------------------------- fazang's own callbacks
    def reads(p):
        """names that occur in the executable part (and internal procedures) of a procedure"""
        out = set()

        def go(n):
            if isinstance(n, (list, tuple)):
                for x in n:
                    go(x)
            elif isinstance(n, dict):
                go(list(n.values()))
            elif isinstance(n, parse.N):
                if n.k == 'name':
                    out.add(n.n)
                go([v for a, v in vars(n).items() if a not in ('pos', 'args') or n.k != 'proc'])
        go(p.body)
        go(getattr(p, 'procs', []))
        for d in p.decls:
            go([v for a, v in vars(d).items() if a != 'name'])
        return out

    def callbacks(rep):
        src = os.path.join(REPO, 'src')
        progs, points = {}, []
        units = []
        for f in sorted(os.listdir(src)):
            if f.endswith('.F90') and f != 'test.F90':
                try:
                    units += [(f, u) for u in parse.parse_path(os.path.join(src, f), inc=[src])]
                except parse.ParseError as e:
                    rep.undec(f, str(e)[:120])
        bound = {}
        ptrs = {}
        uses = []

        def visit(n, f):
            if isinstance(n, (list, tuple)):
                for x in n:
                    visit(x, f)
                return
            if not isinstance(n, parse.N):
                return
            if n.k == 'ptrassign':
                l = getattr(n, 'l', None)
                tgt = getattr(n, 'r', None)
                if getattr(l, 'k', None) == 'member' and getattr(tgt, 'k', None) == 'name':
                    ptrs.setdefault(l.n, set()).add(tgt.n)
            if n.k == 'call' and getattr(n.f, 'k', None) == 'name' and n.f.n.startswith('f'):
                for j, (kw, a) in enumerate(n.args):
                    if getattr(a, 'k', None) == 'call' and getattr(a.f, 'n', None) == 'c_funloc':
                        uses.append((f, n, j, a.args[0][1]))
            for v in vars(n).values():
                if isinstance(v, (list, tuple, dict, parse.N)):
                    visit(list(v.values()) if isinstance(v, dict) else v, f)

        def procs(u, f):
            for p in u.procs:
                if p.bind:
                    bound[p.name] = (f, p)
                procs(p, f)
        for f, u in units:
            procs(u, f)
            visit(u, f)
        names = {n[1:].lower(): n for n in []}
        cfn = {f.name.lower(): f for m in P_.mods.values() for f in m.fns.values()}
        for f, call, j, arg in uses:
            cf = cfn.get(call.f.n[1:])
            if cf is None:
                rep.undec(call.f.n, 'not a C function of the solver')
                continue
            t = signature(cf)[1 + j]
            if not (isptr(t) and t[1][0] == 'fn'):
                rep.bad(call.f.n, 'argument %d is not a function in C' % (j + 1), '', ['src/%s:%d' % (f, call.pos[1])])
                continue
            want = t[1][1]
            tgt = {arg.n} if arg.k == 'name' else ptrs.get(arg.n, set())
            tgt = {x for x in tgt if x in bound}
            if not tgt:
                rep.undec(call.f.n, 'the callback handed over is not resolved')
            for x in sorted(tgt):
                pf, p = bound[x]
                where = ['src/%s:%d (%s)' % (pf, p.pos[1], x)]
                rep.analysed.add('src/%s:%s' % (pf, x))
                dd = {d.name: d for d in p.decls}
                rep.facts += 2 + len(p.args)
                rep.proved += 2 + len(p.args)
                rep.points += 1
                if len(p.args) != len(want) - 1:
                    rep.bad(x, 'has %d arguments, the solver calls it with %d' % (len(p.args), len(want) - 1), '', where)
                    continue
                for a, w in zip(p.args, want[1:]):
                    d = dd[a]
                    kd = fkind(d)
                    byval = 'value' in d.attrs
                    if w in CK:
                        ok = byval and kd == CK[w]
                    elif isptr(w):
                        ok = (byval and kd == 'ptr') or (not byval and (isinstance(kd, tuple) or (d.dims is not None and kd == 'ptr' and isptr(w[1])) or (kd == 'ptr' and isptr(w[1]))))
                    else:
                        ok = False
                    # an integer that the routine never reads arrives in a register of its own whatever its length
                    if not ok and w[0] == 'i' and byval and kd in ('i32', 'i64') and a not in reads(p):
                        ok = True
                    if not ok:
                        rep.bad(x, 'argument %s is declared %s%s, the solver passes %s' % (a, kd, ' by value' if byval else '', w), '', where)
                d = dd.get(p.result or p.name)
                if d is None or fkind(d) != 'i32' and want[0] == ('i', 32):
                    k2 = fkind(d) if d is not None else (fkind(parse.N('d', None, ts=p.ts)) if p.ts is not None else '?')
                    if k2 != 'i32':
                        rep.bad(x, 'result is %s, the solver expects int' % k2, '', where)
    for rel in MODS:
        out.append(('C half of ' + rel.split('/')[-1], c_half(rel)))
        out.append(('Fortran half of ' + rel.split('/')[-1], f_half(rel)))
        out.append(('constants and structures of ' + rel.split('/')[-1], consts(rel)))
    out.append(('callbacks', callbacks))
    return out
