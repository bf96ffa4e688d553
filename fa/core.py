"""Scenarios for the tape, the registry, nesting, sweeps and local gradients (P12-P24)."""
from .scen import *
from .opcheck import nstr, close
from . import ops as OPS

R_ = OPS.Dom(scale=3.0)
TAPE = 'fazang_vari_mod'
VARM = 'fazang_vari_mod fazang_var_mod'


def smallint(lo, hi):
    return lambda val, rng: rng.randint(lo, hi)


def ix1(x):
    return {(i + 1,): v for i, v in enumerate(x)}


def ix2(x, m, n):
    return {(i, j): x[(i, j)] for i in range(1, m + 1) for j in range(1, n + 1)}


# ---------------------------------------------------------------- P15
READ = '''len = callstack%stack%record_len(id)
v = callstack%stack%val(id)
a = callstack%stack%adj(id)
no = callstack%stack%n_operand(id)
nd = callstack%stack%n_data_operand(id)
oi = callstack%stack%operand_index(id)
ov = callstack%stack%operand_val(id)
oa = callstack%stack%operand_adj(id)
dv = callstack%stack%data_operand(id)
info = callstack%stack%operand_info(id, no + 2)
'''
READ_OUT = [('id', 'i', ()), ('len', 'i', ()), ('v', 'd', ()), ('a', 'd', ()), ('no', 'i', ()), ('nd', 'i', ())]


def startmap(val):
    return {s: h for h, s in val.start.items()}


def rec_spec(x, ops_, data):
    def f(val):
        sm = startmap(val)
        o = val.vec(ops_) if ops_ else []
        d = val.vec(data) if data else []
        out = {'id': val.H, 'len': 6 + len(o) + 2 * len(d), 'v': val.a(x) if x else mpf(0), 'a': mpf(0), 'no': len(o), 'nd': len(d)}
        if ops_:
            out['oi'] = ix1(o)
            out['ov'] = ix1([val.v[sm[s]] for s in o])
            out['oa'] = ix1([val.adj0[sm[s]] for s in o])
        if data:
            out['dv'] = ix1(d)
        out['info'] = ix1([len(o)] + o + [len(d)])
        return out
    return f


def grown(dt):
    def post(val, X):
        m = X.unchanged()
        if m:
            return m
        n = dt(val)
        if X.thead != val.H + n:
            return 'the tape head advances by %d cells, the record has %d' % (X.thead - val.H, n)
        if X.head != val.HV:
            return 'the number of recorded variables changes'
        return room(val, X)
    return post


def room(val, X):
    """Storage is as large as it claims, holds the head, and is zero beyond it."""
    if not X.alloc:
        return 'the tape is not allocated' if X.thead > 1 else None
    if X.size != X.extent:
        return 'the recorded storage size %d differs from the allocated %d' % (X.size, X.extent)
    if X.thead - 1 > X.size:
        return 'the head %d is beyond the storage of %d cells' % (X.thead, X.size)
    for y in range(X.thead, min(X.size, X.thead + 40) + 1):
        if X.S.get((y,)) != 0:
            return 'free tape cell %d is not zero' % y
    if X.size > X.thead + 60:
        for y in (X.size, X.size - 1, (X.thead + X.size) // 2):
            if X.S.get((y,)) != 0:
                return 'free tape cell %d is not zero' % y
    return None


def vroom(val, X):
    if not X.valloc:
        return 'the registry is not allocated' if X.head > 1 else None
    if X.nvaris != X.vextent:
        return 'the recorded registry size %d differs from the allocated %d' % (X.nvaris, X.vextent)
    if X.head - 1 > X.nvaris:
        return 'the head %d is beyond the registry of %d slots' % (X.head, X.nvaris)
    return None


def record_scens(mode, pre=''):
    """All forms of writing a record, followed by reading everything back."""
    S = []

    def add(name, push, args, x, o, d, dt, nodim, nddim):
        outs = READ_OUT + [('oi', 'i', (nodim,)), ('ov', 'd', (nodim,)), ('oa', 'd', (nodim,)), ('dv', 'd', (nddim,)), ('info', 'i', ('%s+2' % nodim if nodim != '0' else '2',))]
        S.append(Scen(pre + name, 'id = callstack%%stack%%push(%s)\n' % push + READ, args, outs, rec_spec(x, o, d), grown(dt), use=TAPE, mode=mode))
    vargs = [('x', 'd', (), R_)]
    o = [('o', 's', ('p',), None)]
    d = [('d', 'd', ('q',), R_)]
    add('push_value', 'x', vargs, 'x', None, None, lambda v: 6, '0', '0')
    if mode != 'empty':
        add('push_value_operands', 'x, o', vargs + o, 'x', 'o', None, lambda v: 6 + v.sizes['p'], 'n_p', '0')
        add('push_value_operands_data', 'x, o, d', vargs + o + d, 'x', 'o', 'd', lambda v: 6 + v.sizes['p'] + 2 * v.sizes['q'], 'n_p', 'n_q')
    add('push_value_data', 'x, d', vargs + d, 'x', None, 'd', lambda v: 6 + 2 * v.sizes['q'], '0', 'n_q')
    add('push_1', '', [], None, None, None, lambda v: 6, '0', '0')
    S.append(Scen(pre + 'push_n', 'id = callstack%stack%push(k)', [('k', 'i', (), smallint(0, 4))], [('id', 'i', ())],
                  lambda v: {'id': v.H}, grown(lambda v: 6 * v.a('k')), use=TAPE, mode=mode))
    S.append(Scen(pre + 'push_integers', 'id = callstack%stack%push(b)\nw = callstack%stack%storage(id:id+n_p-1)', [('b', 'i', ('p',), smallint(-9, 9))],
                  [('id', 'i', ()), ('w', 'i', ('p',))], lambda v: {'id': v.H, 'w': ix1(v.vec('b'))}, grown(lambda v: v.sizes['p']), use=TAPE, mode=mode,
                  ok=(lambda v: v.sizes['p'] > 0) if mode == 'empty' else None))
    S.append(Scen(pre + 'push_reals', 'id = callstack%stack%push(d)\nw = callstack%stack%cast_to_real(id, n_q)', d,
                  [('id', 'i', ()), ('w', 'd', ('q',))], lambda v: {'id': v.H, 'w': ix1(v.vec('d'))}, grown(lambda v: 2 * v.sizes['q']), use=TAPE, mode=mode,
                  ok=(lambda v: v.sizes['q'] > 0) if mode == 'empty' else None))
    S.append(Scen(pre + 'push_real_matrix', 'integer j\nid = callstack%stack%push(d)\ndo j = 1, n_n\n w(:,j) = callstack%stack%cast_to_real(id + 2*(j-1)*n_m, n_m)\nend do',
                  [('d', 'd', ('m', 'n'), R_)], [('id', 'i', ()), ('w', 'd', ('m', 'n'))],
                  lambda v: {'id': v.H, 'w': ix2(v.args['d'], v.sizes['m'], v.sizes['n'])}, grown(lambda v: 2 * v.sizes['m'] * v.sizes['n']), use=TAPE, mode=mode,
                  ok=(lambda v: v.sizes['m'] * v.sizes['n'] > 0) if mode == 'empty' else None))
    return S


def p15():
    S = record_scens('roomy')
    # two records in a row: the second leaves the first alone
    two = '''integer j
id = callstack%stack%push(x, o, d)
j = callstack%stack%push(y, b, e)
'''
    args = [('x', 'd', (), R_), ('o', 's', ('p',), None), ('d', 'd', ('q',), R_), ('y', 'd', (), R_), ('b', 's', ('r',), None), ('e', 'd', ('t',), R_)]
    outs = READ_OUT + [('oi', 'i', ('n_p',)), ('ov', 'd', ('n_p',)), ('oa', 'd', ('n_p',)), ('dv', 'd', ('n_q',)), ('info', 'i', ('n_p+2',))]
    S.append(Scen('first_of_two_records', two + READ, args, outs, rec_spec('x', 'o', 'd'),
                  grown(lambda v: 12 + v.sizes['p'] + v.sizes['r'] + 2 * (v.sizes['q'] + v.sizes['t'])), use=TAPE))
    two2 = '''integer j
j = callstack%stack%push(y, b, e)
id = callstack%stack%push(x, o, d)
'''

    def shifted(v):
        out = rec_spec('x', 'o', 'd')(v)
        out['id'] = v.H + 6 + v.sizes['r'] + 2 * v.sizes['t']
        return out
    S.append(Scen('second_of_two_records', two2 + READ, args, outs, shifted,
                  grown(lambda v: 12 + v.sizes['p'] + v.sizes['r'] + 2 * (v.sizes['q'] + v.sizes['t'])), use=TAPE))
    # overwriting value and adjoint of an existing record
    S.append(Scen('set_value_at', 'call callstack%stack%set_val(s, x)\nw = callstack%stack%val(s)', [('s', 's', (), None), ('x', 'd', (), R_)], [('w', 'd', ())],
                  lambda v: {'w': v.a('x')}, lambda v, X: X.unchanged(vals={startmap(v)[v.a('s')]: v.a('x')}) or X.heads(0, 0), use=TAPE))
    S.append(Scen('set_adjoint_at', 'call callstack%stack%set_adj(s, x)\nw = callstack%stack%adj(s)', [('s', 's', (), None), ('x', 'd', (), R_)], [('w', 'd', ())],
                  lambda v: {'w': v.a('x')}, lambda v, X: X.unchanged(adj={startmap(v)[v.a('s')]: v.a('x')}) or X.heads(0, 0), use=TAPE))
    S.append(Scen('current_value_and_adjoint', 'call callstack%stack%set_val(x)\ncall callstack%stack%set_adj(y)\nw = callstack%stack%val()\nz = callstack%stack%adj()',
                  [('x', 'd', (), R_), ('y', 'd', (), R_)], [('w', 'd', ()), ('z', 'd', ())],
                  lambda v: {'w': v.a('x'), 'z': v.a('y')}, lambda v, X: X.unchanged() or X.heads(0, 0), use=TAPE))
    S.append(Scen('reals_at', 'integer id\nid = callstack%stack%push(n_q)\ncall callstack%stack%cast_from_real(id, d)\nw = callstack%stack%cast_to_real(id, n_q)\n'
                  'do id = 1, n_q\n u(id) = callstack%stack%cast_to_real(callstack%stack%head - 6*n_q + 2*(id-1))\nend do',
                  [('d', 'd', ('q',), R_)], [('w', 'd', ('q',)), ('u', 'd', ('q',))], lambda v: {'w': ix1(v.vec('d')), 'u': ix1(v.vec('d'))},
                  lambda v, X: X.unchanged(), use=TAPE))
    # the same through the vari and var accessors
    vread = '''type(vari), pointer :: p
%s
p => vari_at(k)
v = p%%val()
a = p%%adj()
no = p%%n_operand()
oi = p%%operand_index()
ov = p%%operand_val()
dv = p%%data_operand()
gv = get_indexed_val(k)
ga = get_indexed_adj(k)
ix = vari_index(k)
st = p%%i
'''

    def vspec(o, d):
        def f(val):
            sm = startmap(val)
            ol = val.vec('o') if o else []
            dl = val.vec('d') if d else []
            out = {'k': val.HV, 'v': val.a('x'), 'a': mpf(0), 'no': len(ol), 'gv': val.a('x'), 'ga': mpf(0), 'ix': val.H, 'st': val.H}
            out['oi'] = ix1(ol)
            out['ov'] = ix1([val.v[sm[s]] for s in ol])
            out['dv'] = ix1(dl)
            return out
        return f
    vo = [('k', 'i', ()), ('v', 'd', ()), ('a', 'd', ()), ('no', 'i', ()), ('gv', 'd', ()), ('ga', 'd', ()), ('ix', 'i', ()), ('st', 'i', ())]
    xs, os_, ds = [('x', 'd', (), R_)], [('o', 's', ('p',), None)], [('d', 'd', ('q',), R_)]
    for nm, call, args, o, d in (('vari_value', 'vari(x)', xs, 0, 0), ('vari_operands', 'vari(x, o)', xs + os_, 1, 0),
                                 ('vari_data', 'vari(x, d)', xs + ds, 0, 1), ('vari_operands_data', 'vari(x, o, d)', xs + os_ + ds, 1, 1)):
        S.append(Scen(nm, vread % ('k = ' + call), args, vo + [('oi', 'i', ('n_p' if o else '0',)), ('ov', 'd', ('n_p' if o else '0',)), ('dv', 'd', ('n_q' if d else '0',))],
                      vspec(o, d), lambda v, X: X.unchanged() or X.heads(1, None), use=TAPE))
    # variables built from variables keep their operands in order
    S.append(Scen('var_operands_data', 'type(vari), pointer :: p\ntype(var) :: w\nw = var(x, o, d)\nv = w%val()\na = w%adj()\np => vari_at(w%vi)\noi = p%operand_index()\nov = p%operand_val()\ndv = p%data_operand()\nix = w%vi_index()',
                  xs + [('o', 'v', ('p',), R_)] + ds, [('v', 'd', ()), ('a', 'd', ()), ('oi', 'i', ('n_p',)), ('ov', 'd', ('n_p',)), ('dv', 'd', ('n_q',)), ('ix', 'i', ())],
                  lambda v: {'v': v.a('x'), 'a': mpf(0), 'oi': ix1([v.start[h] for h in v.hvec('o')]), 'ov': ix1(v.vec('o')), 'dv': ix1(v.vec('d')), 'ix': v.H},
                  lambda v, X: X.unchanged() or X.heads(1, None), use=VARM))
    S.append(Scen('var_operands', 'type(vari), pointer :: p\ntype(var) :: w\nw = var(x, o)\nv = w%val()\na = w%adj()\np => vari_at(w%vi)\noi = p%operand_index()\nov = p%operand_val()\nno = p%n_operand()',
                  xs + [('o', 'v', ('p',), R_)], [('v', 'd', ()), ('a', 'd', ()), ('oi', 'i', ('n_p',)), ('ov', 'd', ('n_p',)), ('no', 'i', ())],
                  lambda v: {'v': v.a('x'), 'a': mpf(0), 'oi': ix1([v.start[h] for h in v.hvec('o')]), 'ov': ix1(v.vec('o')), 'no': v.sizes['p']},
                  lambda v, X: X.unchanged() or X.heads(1, None), use=VARM))
    S.append(Scen('var_operand_locations', 'type(vari), pointer :: p\ntype(var) :: w\nw = var(x, o)\nv = w%val()\np => vari_at(w%vi)\noi = p%operand_index()',
                  xs + os_, [('v', 'd', ()), ('oi', 'i', ('n_p',))], lambda v: {'v': v.a('x'), 'oi': ix1(v.vec('o'))},
                  lambda v, X: X.unchanged() or X.heads(1, None), use=VARM))
    S.append(Scen('var_data', 'type(vari), pointer :: p\ntype(var) :: w\nw = var(x, d)\nv = w%val()\np => vari_at(w%vi)\ndv = p%data_operand()\nno = p%n_operand()',
                  xs + ds, [('v', 'd', ()), ('dv', 'd', ('n_q',)), ('no', 'i', ())], lambda v: {'v': v.a('x'), 'dv': ix1(v.vec('d')), 'no': 0},
                  lambda v, X: X.unchanged() or X.heads(1, None), use=VARM))
    # values and adjoints of any existing variable
    S.append(Scen('read_variables', 'w = o%val()\nz = o%adj()\nix = o%vi_index()', [('o', 'v', ('p',), R_)], [('w', 'd', ('p',)), ('z', 'd', ('p',)), ('ix', 'i', ('p',))],
                  lambda v: {'w': ix1(v.vec('o')), 'z': ix1([v.adj0[h] for h in v.hvec('o')]), 'ix': ix1([v.start[h] for h in v.hvec('o')])},
                  lambda v, X: X.unchanged() or X.heads(0, 0), use=VARM))
    S.append(Scen('set_indexed', 'call set_indexed_val(o%vi, x)\ncall set_indexed_adj(o%vi, y)', [('o', 'v', (), R_), ('x', 'd', (), R_), ('y', 'd', (), R_)], [], None,
                  lambda v, X: X.unchanged(adj={v.h('o'): v.a('y')}, vals={v.h('o'): v.a('x')}) or X.heads(0, 0), use=VARM))
    S.append(Scen('vari_setters', 'type(vari), pointer :: p\np => vari_at(o%vi)\ncall p%set_val(x)\ncall p%set_adj(y)', [('o', 'v', (), R_), ('x', 'd', (), R_), ('y', 'd', (), R_)], [], None,
                  lambda v, X: X.unchanged(adj={v.h('o'): v.a('y')}, vals={v.h('o'): v.a('x')}) or X.heads(0, 0), use=VARM))
    S.append(Scen('vari_zero_and_seed', 'type(vari), pointer :: p\np => vari_at(o%vi)\ncall p%set_zero_adj()\nz = p%adj()\ncall p%init_dependent()', [('o', 'v', (), R_)], [('z', 'd', ())],
                  lambda v: {'z': mpf(0)}, lambda v, X: X.unchanged(adj={v.h('o'): mpf(1)}) or X.heads(0, 0), use=VARM))
    S.append(Scen('vari_assignment', 'type(vari), pointer :: p\np => vari_at(o%vi)\np = x', [('o', 'v', (), R_), ('x', 'd', (), R_)], [], None,
                  lambda v, X: X.unchanged(vals={v.h('o'): v.a('x')}) or X.heads(0, 0), use='fazang_vari_mod fazang_var_mod,only:var'))
    return S


# ---------------------------------------------------------------- P16 / P17
def roomfor(n):
    def post(val, X):
        m = X.unchanged() or room(val, X) or X.heads(0, 0)
        if m:
            return m
        k = n(val)
        if X.size - X.thead + 1 < k:
            return 'only %d free cells after asking for %d' % (X.size - X.thead + 1, k)
        return None
    return post


def vroomfor(n):
    def post(val, X):
        m = X.unchanged() or vroom(val, X) or X.heads(0, 0)
        if m:
            return m
        k = n(val)
        if X.nvaris - X.head + 1 < k:
            return 'only %d free slots after asking for %d' % (X.nvaris - X.head + 1, k)
        return None
    return post


def p16():
    S = record_scens('tight', 'tight_') + record_scens('empty', 'empty_')
    for mode in ('tight', 'empty'):
        S.append(Scen(mode + '_alloc_storage', 'call callstack%stack%alloc_storage(k)', [('k', 'i', (), smallint(1, 30))], [], None, roomfor(lambda v: v.a('k')), use=TAPE, mode=mode))
        S.append(Scen(mode + '_value_current', 'call callstack%stack%alloc_storage(6)\ncall callstack%stack%set_val(x)\nw = callstack%stack%val()', [('x', 'd', (), R_)], [('w', 'd', ())],
                      lambda v: {'w': v.a('x')}, lambda v, X: X.unchanged(), use=TAPE, mode=mode))
    S += var_scens('tight', 'tight_', room) + var_scens('empty', 'empty_', room)
    S += [Scen('tight_matrix_' + n, b, a, [], None, lambda v, X: X.unchanged() or room(v, X), use='fazang_vari_mod fazang_var_mod fazang_array_in_tape_mod', mode='tight', decl='type(array_in_tape) :: t')
          for n, b, a in (('var', 't = array_in_tape(callstack%stack, x)', [('x', 'v', ('m', 'n'), R_)]),
                          ('data', 't = array_in_tape(callstack%stack, x)', [('x', 'd', ('m', 'n'), R_)]),
                          ('var1', 't = array_in_tape(callstack%stack, x)', [('x', 'v', ('m',), R_)]),
                          ('data1', 't = array_in_tape(callstack%stack, x)', [('x', 'd', ('m',), R_)]))]
    return S


def p17():
    S = var_scens('tight', 'tight_', vroom) + var_scens('empty', 'empty_', vroom) + var_scens('roomy', 'roomy_', vroom)
    for mode in ('tight', 'empty'):
        S.append(Scen(mode + '_alloc_vari_stack', 'call callstack%alloc_vari_stack(k)\nn = callstack%vari_stack_size()', [('k', 'i', (), smallint(1, 12))], [('n', 'i', ())], None, vroomfor(lambda v: v.a('k')), use=TAPE, mode=mode))
        S.append(Scen(mode + '_alloc_vari_stack_1', 'call callstack%alloc_vari_stack()', [], [], None, vroomfor(lambda v: 1), use=TAPE, mode=mode))
    return S


def newvars(k, cells, rm):
    """k new variables at the next handles; everything recorded before is unchanged."""
    def post(val, X):
        n = k(val)
        m = X.unchanged() or X.heads(n, cells(val) if cells else None) or rm(val, X)
        if m:
            return m
        seen = {}
        for h in range(val.HV, val.HV + n):
            p = X.I.get((h,))
            if not (val.H <= p and p + 6 <= X.thead):
                return 'new variable %d has its record at cell %d, outside the cells written for it' % (h, p)
            for q in range(p, p + 6):
                if q in seen:
                    return 'new variables %d and %d share tape cell %d' % (seen[q], h, q)
                seen[q] = h
        return None
    return post


def var_scens(mode, pre, rm):
    """Every constructor of variables: handles, values, adjoints."""
    S = []
    xs, os_, ds = [('x', 'd', (), R_)], [('o', 'v', ('p',), R_)], [('d', 'd', ('q',), R_)]
    O1 = [('h', 'i', ()), ('v', 'd', ()), ('a', 'd', ())]
    get1 = 'h = w%vi\nv = w%val()\na = w%adj()'

    def one(nm, call, args, x, extra):
        S.append(Scen(pre + nm, 'type(var) :: w\nw = %s\n' % call + get1, args, O1,
                      lambda v, x=x: {'h': v.HV, 'v': v.a('x') if x else mpf(0), 'a': mpf(0)},
                      newvars(lambda v: 1, (lambda v, e=extra: 6 + e(v)), rm), use=VARM, mode=mode))
    one('var_default', 'var()', [], False, lambda v: 0)
    one('var_value', 'var(x)', xs, True, lambda v: 0)
    if mode != 'empty':
        one('var_value_operands', 'var(x, o)', xs + os_, True, lambda v: v.sizes['p'])
        one('var_value_operands_data', 'var(x, o, d)', xs + os_ + ds, True, lambda v: v.sizes['p'] + 2 * v.sizes['q'])
    one('var_value_data', 'var(x, d)', xs + ds, True, lambda v: 2 * v.sizes['q'])
    get = 'h = w%vi\nv = w%val()\na = w%adj()'
    S.append(Scen(pre + 'var_elemental_1d', 'type(var) :: w(n_n)\nw = var(x)\n' + get, [('x', 'd', ('n',), R_)], [('h', 'i', ('n',)), ('v', 'd', ('n',)), ('a', 'd', ('n',))],
                  lambda v: {'h': ix1([v.HV + i for i in range(v.sizes['n'])]), 'v': ix1(v.vec('x')), 'a': ix1([mpf(0)] * v.sizes['n'])},
                  newvars(lambda v: v.sizes['n'], lambda v: 6 * v.sizes['n'], rm), use=VARM, mode=mode))
    ORD = lambda v: {(i, j): v.HV + (j - 1) * v.sizes['m'] + i - 1 for i in range(1, v.sizes['m'] + 1) for j in range(1, v.sizes['n'] + 1)}
    S.append(Scen(pre + 'var_elemental_2d', 'type(var) :: w(n_m, n_n)\nw = var(x)\n' + get, [('x', 'd', ('m', 'n'), R_)],
                  [('h', 'i', ('m', 'n')), ('v', 'd', ('m', 'n')), ('a', 'd', ('m', 'n'))],
                  lambda v: {'v': v.args['x'], 'a': {ix: mpf(0) for ix in v.args['x']}},
                  newvars(lambda v: v.sizes['m'] * v.sizes['n'], lambda v: 6 * v.sizes['m'] * v.sizes['n'], rm), use=VARM, mode=mode))
    S.append(Scen(pre + 'var_dimension_1d', 'type(var) :: w(n_n)\nw = var(n_n)\n' + get, [], [('h', 'i', ('n',)), ('v', 'd', ('n',)), ('a', 'd', ('n',))],
                  lambda v: {'h': ix1([v.HV + i for i in range(v.sizes['n'])]), 'v': ix1([mpf(0)] * v.sizes['n']), 'a': ix1([mpf(0)] * v.sizes['n'])},
                  newvars(lambda v: v.sizes['n'], lambda v: 6 * v.sizes['n'], rm), use=VARM, mode=mode, extents=('n',)))
    S.append(Scen(pre + 'var_dimension_2d', 'type(var) :: w(n_m, n_n)\nw = var(n_m, n_n)\n' + get, [],
                  [('h', 'i', ('m', 'n')), ('v', 'd', ('m', 'n')), ('a', 'd', ('m', 'n'))],
                  lambda v: {'h': ORD(v), 'v': {ix: mpf(0) for ix in ORD(v)}, 'a': {ix: mpf(0) for ix in ORD(v)}},
                  newvars(lambda v: v.sizes['m'] * v.sizes['n'], lambda v: 6 * v.sizes['m'] * v.sizes['n'], rm), use=VARM, mode=mode, extents=('m', 'n')))
    return S


# ---------------------------------------------------------------- P12
def add_adj(val, hs, ds, factor=1):
    out = {}
    for h, d in zip(hs, ds):
        out[h] = out.get(h, val.adj0[h]) + factor * d
    return out


def p12():
    S = []
    xs, ov, ds = [('x', 'd', (), R_)], [('o', 'v', ('p',), R_)], [('d', 'd', ('p',), R_)]

    def own(val, X):
        w = val.HV
        if not close(X.value(w), val.a('x'), 1e-15):
            return 'the value of the node itself changes'
        if not close(X.adjoint(w), mpf(0), 1e-15):
            return 'the adjoint of the node itself changes'
        return None
    P = 'type(vari), pointer :: p\ntype(var) :: w\n'
    S.append(Scen('all_operands', P + 'w = var(x, o)\np => vari_at(w%vi)\ncall p%set_operand_adj(d)', xs + ov + ds, [], None,
                  lambda v, X: X.unchanged(adj=add_adj(v, v.hvec('o'), v.vec('d'))) or own(v, X), use=VARM))
    S.append(Scen('all_operands_with_data', P + 'w = var(x, o, e)\np => vari_at(w%vi)\ncall p%set_operand_adj(d)', xs + ov + ds + [('e', 'd', ('q',), R_)], [], None,
                  lambda v, X: X.unchanged(adj=add_adj(v, v.hvec('o'), v.vec('d'))) or own(v, X), use=VARM))
    S.append(Scen('twice', P + 'w = var(x, o)\np => vari_at(w%vi)\ncall p%set_operand_adj(d)\ncall p%set_operand_adj(d)', xs + ov + ds, [], None,
                  lambda v, X: X.unchanged(adj=add_adj(v, v.hvec('o'), v.vec('d'), 2)) or own(v, X), use=VARM))
    S.append(Scen('by_index', 'type(vari), pointer :: p\np => vari_at(o%vi)\ncall p%set_operand_adj(s, d)', [('o', 'v', (), R_), ('s', 's', ('p',), None)] + ds, [], None,
                  lambda v, X: X.unchanged(adj=add_adj(v, [startmap(v)[s] for s in v.vec('s')], v.vec('d'))) or X.heads(0, 0), use=VARM))
    S.append(Scen('by_location_of_variables', 'type(vari), pointer :: p\np => vari_at(o%vi)\ncall p%set_operand_adj(w%vi_index(), d)',
                  [('o', 'v', (), R_), ('w', 'v', ('p',), R_)] + ds, [], None,
                  lambda v, X: X.unchanged(adj=add_adj(v, v.hvec('w'), v.vec('d'))) or X.heads(0, 0), use=VARM))
    # given partial derivatives are delivered through the recorded propagation rule
    S.append(Scen('given_partials', 'type(var) :: w\ninteger :: h0\nh0 = callstack%head\nw = var_with_partials(x, o, d)\ny = w%val()\ncall hz_seed(w, e)\ncall hz_back(h0)',
                  xs + ov + ds + [('e', 'd', (), R_)], [('y', 'd', ())], lambda v: {'y': v.a('x')},
                  lambda v, X: X.unchanged(adj=add_adj(v, v.hvec('o'), [v.a('e') * t for t in v.vec('d')])), use='fazang_vari_mod fazang_var_mod fazang_eager_adj_mod'))
    return S


# ---------------------------------------------------------------- P13
G = [('ghost', ()), ('ghost', ('order',)), ('ghost', ('seed',))]


def ghost_setup(eng, st, sizes):
    st.mem[G[0]] = ZERO
    st.mem[G[1]] = asym('GT', 1, 'i')
    st.mem[G[2]] = asym('GS', 1, 'i')


def ghost_chain(eng, I, t, acts, st, pos):
    """An arbitrary node propagates: remember which one, and the seed word of the swept variable."""
    if t.op != 'sel' or t.args[0] is not eng.M.CH0:
        return NotImplemented
    k = t.args[1]
    a = acts[0]
    if a.des is None:
        raise Undecided('propagation rule called on a copy', pos)
    ref = I.full(a.des, st)
    ix = I.idxs(ref, ())
    if ref.cell != CS or ref.path != ('varis',) or len(ix) != 1:
        raise Undecided('propagation rule called on something else than a node', pos)
    if ix[0] is not k:
        raise Undecided('propagation rule of one node called on another', pos)
    n = st.mem[G[0]]
    st.mem[G[1]] = store(st.mem[G[1]], (n,), k)
    v = mk('s', ('o_vi',), 'i')
    w = sel(st.mem[KEYS['S']], iadd(sel(eng.M.I0, v), ci(3)))
    st.mem[G[2]] = store(st.mem[G[2]], (n,), w)
    st.mem[G[0]] = iadd(n, ONE)
    return None


def swept_to(low):
    def post(val, X):
        n = X.ev(X.an.st1.mem[G[0]])
        tr = X.ev(X.an.st1.mem[G[1]])
        sd = X.ev(X.an.st1.mem[G[2]])
        lo = low(val)
        got = [tr.get((i,)) for i in range(max(0, min(n, 200)))]
        exp = list(range(val.HV - 1, lo - 1, -1))
        if got != exp:
            return 'nodes propagate in the order %s, expected %s' % (got, exp)
        for i in range(n):
            w = sd.get((i,))
            if not (isinstance(w, Word) and w.k == 1 and w.v == 1):
                return 'node %d propagates before the result has adjoint one' % got[i]
        return X.unchanged(adj={val.h('o'): mpf(1)}) or X.heads(0, 0)
    return post


def p13():
    S = []
    use = 'fazang_vari_mod fazang_var_mod fazang_nested_tape_mod'
    o = [('o', 'v', (), R_)]
    kw = dict(use=use, setup=ghost_setup, handler=ghost_chain)
    S.append(Scen('grad', 'call o%grad()', o, [], None, swept_to(lambda v: 1), **kw))
    S.append(Scen('grad_inside_nested', 'call begin_nested()\ncall hz_more(1)\ncall o%grad()', o, [], None, swept_to(lambda v: 1), marks=1, **kw))
    S.append(Scen('grad_nested_without_scope', 'call o%grad_nested()', o, [], None, swept_to(lambda v: 1), **kw))
    S.append(Scen('grad_nested', 'call begin_nested()\ncall hz_more(1)\ncall o%grad_nested()', o, [], None, swept_to(lambda v: v.marks[0][0]), marks=1, **kw))
    S.append(Scen('grad_nested_level_2', 'call begin_nested()\ncall hz_more(1)\ncall begin_nested()\ncall hz_more(2)\ncall o%grad_nested()', o, [], None, swept_to(lambda v: v.marks[1][0]), marks=2, **kw))
    S.append(Scen('grad_nested_after_inner_closed', 'call begin_nested()\ncall hz_more(1)\ncall begin_nested()\ncall hz_more(2)\ncall end_nested()\ncall hz_more(3)\ncall o%grad_nested()', o, [], None, swept_to(lambda v: v.marks[0][0]), marks=3, **kw))
    S.append(Scen('grad_nested_level_3', ''.join('call begin_nested()\ncall hz_more(%d)\n' % j for j in (1, 2, 3)) + 'call o%grad_nested()', o, [], None, swept_to(lambda v: v.marks[2][0]), marks=3, **kw))
    return S
