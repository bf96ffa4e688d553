"""Scenarios for new variables, assignment, nesting, local gradients, zeroing and tape arrays (P18-P24)."""
from .core import *


# ---------------------------------------------------------------- P18
def clean(k):
    """k new variables; running their propagation rules changes nothing."""
    def post(val, X):
        n = k(val)
        m = X.unchanged() or X.heads(n, None)
        if m:
            return m
        for h in range(val.HV, val.HV + n):
            if not close(X.adjoint(h), mpf(0), 1e-15):
                return 'new variable %d starts with adjoint %s' % (h, nstr(X.adjoint(h)))
        return None
    return post


def p18():
    S = []
    xs, os_, ds = [('x', 'd', (), R_)], [('o', 'v', ('p',), R_)], [('d', 'd', ('q',), R_)]
    back = '\ncall hz_back(h0)'
    forms = [('var', '', 'type(var) :: w', 'w = var()', [], lambda v: 1),
             ('var_value', '', 'type(var) :: w', 'w = var(x)', xs, lambda v: 1),
             ('var_value_operands', '', 'type(var) :: w', 'w = var(x, o)', xs + os_, lambda v: 1),
             ('var_value_locations', '', 'type(var) :: w', 'w = var(x, s)', xs + [('s', 's', ('p',), None)], lambda v: 1),
             ('var_value_data', '', 'type(var) :: w', 'w = var(x, d)', xs + ds, lambda v: 1),
             ('var_value_operands_data', '', 'type(var) :: w', 'w = var(x, o, d)', xs + os_ + ds, lambda v: 1),
             ('vari', '', 'integer :: k', 'k = vari()', [], lambda v: 1),
             ('vari_value', '', 'integer :: k', 'k = vari(x)', xs, lambda v: 1),
             ('vari_value_operands', '', 'integer :: k', 'k = vari(x, s)', xs + [('s', 's', ('p',), None)], lambda v: 1),
             ('vari_value_data', '', 'integer :: k', 'k = vari(x, d)', xs + ds, lambda v: 1),
             ('vari_value_operands_data', '', 'integer :: k', 'k = vari(x, s, d)', xs + [('s', 's', ('p',), None)] + ds, lambda v: 1),
             ('var_array', '', 'type(var) :: w(n_n)', 'w = var(y)', [('y', 'd', ('n',), R_)], lambda v: v.sizes['n']),
             ('var_matrix', '', 'type(var) :: w(n_m, n_n)', 'w = var(y)', [('y', 'd', ('m', 'n'), R_)], lambda v: v.sizes['n'] * v.sizes['m']),
             ('var_dimension', 'n', 'type(var) :: w(n_n)', 'w = var(n_n)', [], lambda v: v.sizes['n']),
             ('var_dimensions', 'mn', 'type(var) :: w(n_m, n_n)', 'w = var(n_m, n_n)', [], lambda v: v.sizes['n'] * v.sizes['m'])]
    for nm, ext, dec, call, args, k in forms:
        use = VARM if not nm.startswith('vari') else 'fazang_vari_mod fazang_var_mod,only:var'
        S.append(Scen(nm, 'h0 = callstack%head\n' + call + back, args, [], None, clean(k), use=use, decl=dec + '\ninteger :: h0', extents=tuple(ext)))
        # in space that a closed nested environment has given back
        S.append(Scen('reused_' + nm, 'call begin_nested()\ncall hz_more(1)\ncall end_nested()\nh0 = callstack%head\n' + call + back, args, [], None,
                      at_mark(clean(k), 0), use=use + ' fazang_nested_tape_mod', decl=dec + '\ninteger :: h0', extents=tuple(ext), marks=1, okargs=True))
        S.append(Scen('reused_2_' + nm, 'call begin_nested()\ncall hz_more(1)\ncall begin_nested()\ncall hz_more(2)\ncall end_nested()\ncall end_nested()\nh0 = callstack%head\n' + call + back, args, [], None,
                      at_mark(clean(k), 0), use=use + ' fazang_nested_tape_mod', decl=dec + '\ninteger :: h0', extents=tuple(ext), marks=2, okargs=True))
    return S


class MarkView:
    """The valuation as it is when a mark is reached: only the variables before it exist."""

    def __init__(self, val, j):
        self.__dict__.update(val.__dict__)
        self.base = val
        self.HV, self.H = val.marks[j]
        self.nv = self.HV - 1

    def __getattr__(self, a):
        return getattr(self.base, a)


def at_mark(post, j):
    def f(val, X):
        v = MarkView(val, j)
        return post(v, X.at(v))
    return f


# ---------------------------------------------------------------- P19
def assign_post(ix):
    def post(val, X):
        return X.unchanged(vals=ix(val)) or X.heads(0, 0)
    return post


def p19():
    S = var_scens('roomy', '', lambda v, X: None)
    A = [('set_scalar', [('o', 'v', (), R_), ('x', 'd', (), R_)], lambda v: {v.h('o'): v.a('x')}),
         ('set_vector', [('o', 'v', ('n',), R_), ('x', 'd', ('n',), R_)], lambda v: dict(zip(v.hvec('o'), v.vec('x')))),
         ('set_vector_from_scalar', [('o', 'v', ('n',), R_), ('x', 'd', (), R_)], lambda v: {h: v.a('x') for h in v.hvec('o')}),
         ('set_matrix', [('o', 'v', ('m', 'n'), R_), ('x', 'd', ('m', 'n'), R_)], lambda v: {h: v.args['x'][ix] for ix, h in v.handles['o'].items()}),
         ('set_matrix_from_scalar', [('o', 'v', ('m', 'n'), R_), ('x', 'd', (), R_)], lambda v: {h: v.a('x') for h in v.handles['o'].values()})]
    for nm, args, f in A:
        dims = args[0][2]
        # assignment acts on the caller's variable, so go through a local copy of the handles
        dec = 'type(var) :: w' + ('(%s)' % ','.join('n_' + d for d in dims) if dims else '')
        outs = [('h', 'i', tuple('n_' + d for d in dims)), ('z', 'd', tuple('n_' + d for d in dims))]
        S.append(Scen(nm, 'w%vi = o%vi\nw = x\nh = w%vi\nz = w%val()', args, outs,
                      lambda v, dims=dims: {'h': v.handles['o'] if dims else v.h('o'), 'z': {ix: (v.args['x'][ix] if ix in v.args['x'] else v.args['x'][()]) for ix in v.handles['o']}},
                      assign_post(f), use=VARM, decl=dec, distinct=True))
        if dims:
            S.append(Scen(nm + '_any_lower_bound', 'w%vi = o%vi\nw = x\nh = w%vi', args, outs[:1],
                          lambda v: {'h': v.handles['o']}, assign_post(f), use=VARM,
                          decl='type(var) :: w(%s)' % ','.join('-2:n_%s-3' % d for d in dims), distinct=True))
    S.append(Scen('set_section', 'w%vi = o%vi\nw(1:n_n:2) = x', [('o', 'v', ('n',), R_), ('x', 'd', (), R_)], [], None,
                  assign_post(lambda v: {h: v.a('x') for h in v.hvec('o')[::2]}), use=VARM, decl='type(var) :: w(n_n)', distinct=True))
    S.append(Scen('set_row', 'w%vi = o%vi\nw(k, :) = x', [('o', 'v', ('m', 'n'), R_), ('x', 'd', ('n',), R_), ('k', 'i', (), lambda val, rng: rng.randint(1, max(1, val.sizes['m'])))], [], None,
                  assign_post(lambda v: {v.handles['o'][(v.a('k'), j)]: v.args['x'][(j,)] for j in range(1, v.sizes['n'] + 1)}), use=VARM, decl='type(var) :: w(n_m, n_n)', distinct=True,
                  ok=lambda v: v.sizes['m'] > 0))
    # variables created together are distinct from each other and from everything else: set one, read the others
    S.append(Scen('array_elements_independent', 'w = var(x)\nif (n_n > 1) w(1) = y\nv = w%val()', [('x', 'd', ('n',), R_), ('y', 'd', (), R_)], [('v', 'd', ('n_n',))],
                  lambda v: {'v': ix1([v.a('y') if i == 0 and v.sizes['n'] > 1 else x for i, x in enumerate(v.vec('x'))])}, lambda v, X: X.unchanged(), use=VARM, decl='type(var) :: w(n_n)'))
    S.append(Scen('matrix_elements_independent', 'w = var(n_m, n_n)\nif (n_m > 0 .and. n_n > 0) w(n_m, 1) = y\nv = w%val()', [('y', 'd', (), R_)], [('v', 'd', ('n_m', 'n_n'))],
                  lambda v: {'v': {(i, j): (v.a('y') if (i, j) == (v.sizes['m'], 1) else mpf(0)) for i in range(1, v.sizes['m'] + 1) for j in range(1, v.sizes['n'] + 1)}},
                  lambda v, X: X.unchanged(), use=VARM, decl='type(var) :: w(n_m, n_n)', extents=('m', 'n')))
    return S


# ---------------------------------------------------------------- P20
def restored(j):
    """Heads are those of mark j, everything before is untouched, everything from there on is erased."""
    def post(val, X):
        h, t = val.marks[j] if j < len(val.marks) else (val.HV, val.H)
        if X.head != h:
            return 'after closing there are %d recorded variables instead of %d' % (X.head - 1, h - 1)
        if X.thead != t:
            return 'after closing %d tape cells are in use instead of %d' % (X.thead - 1, t - 1)
        m = X.unchanged(below=(h, t))
        if m:
            return m
        top = X.size if X.alloc else 0
        for y in list(range(t, min(top, val.H + 20) + 1)):
            if X.S.get((y,)) != 0:
                return 'tape cell %d, recorded inside the closed environment, is not erased' % y
        return room(val, X) or vroom(val, X)
    return post


def cur(val, j):
    return val.marks[j][0]


def p20():
    S = []
    use = 'fazang_vari_mod fazang_var_mod fazang_nested_tape_mod'
    lv = [('l', 'i', ())]
    for mode in ('roomy', 'tight'):
        pre = '' if mode == 'roomy' else 'tight_'
        for k in (1, 2, 3, 10):
            if k == 10 and mode == 'tight':
                continue
            body = ''.join('call begin_nested()\ncall hz_more(%d)\n' % j for j in range(1, k + 1))
            for e in sorted({1, 2, k}):
                if e > k:
                    continue
                left = k - e
                S.append(Scen(pre + 'open_%d_close_%d' % (k, e), body + 'call end_nested()\n' * e + 'l = curr_nested_vari_head()', [], lv,
                              lambda v, left=left: {'l': 1 if left == 0 else cur(v, left - 1)}, restored(k - e), use=use, marks=k, mode=mode))
            S.append(Scen(pre + 'open_%d' % k, body + 'l = curr_nested_vari_head()', [], lv, lambda v, k=k: {'l': cur(v, k - 1)}, lambda v, X: X.unchanged() or X.heads(0, 0), use=use, marks=k, mode=mode))
        S.append(Scen(pre + 'close_reopen', 'call begin_nested()\ncall hz_more(1)\ncall end_nested()\ncall begin_nested()\ncall hz_more(2)\ncall end_nested()\nl = curr_nested_vari_head()', [], lv,
                      lambda v: {'l': 1}, restored(0), use=use, marks=2, mode=mode))
        S.append(Scen(pre + 'inner_closed_then_more', 'call begin_nested()\ncall hz_more(1)\ncall begin_nested()\ncall hz_more(2)\ncall end_nested()\ncall hz_more(3)\ncall end_nested()\nl = curr_nested_vari_head()', [], lv,
                      lambda v: {'l': 1}, restored(0), use=use, marks=3, mode=mode))
        S.append(Scen(pre + 'inner_closed_reopened', 'call begin_nested()\ncall hz_more(1)\ncall begin_nested()\ncall hz_more(2)\ncall end_nested()\ncall hz_more(2)\ncall begin_nested()\ncall hz_more(3)\ncall end_nested()\nl = curr_nested_vari_head()', [], lv,
                      lambda v: {'l': cur(v, 0)}, restored(2), use=use, marks=3, mode=mode))
    for mode in ('roomy', 'tight', 'empty'):
        S.append(Scen(mode + '_close_without_open', 'call end_nested()\nl = curr_nested_vari_head()', [], lv, lambda v: {'l': 1}, lambda v, X: X.unchanged() or X.heads(0, 0) or room(v, X), use=use, mode=mode))
        S.append(Scen(mode + '_close_twice', 'call begin_nested()\ncall end_nested()\ncall end_nested()\ncall end_nested()\nl = curr_nested_vari_head()', [], lv, lambda v: {'l': 1}, lambda v, X: X.unchanged() or X.heads(0, 0) or room(v, X), use=use, mode=mode))
        S.append(Scen(mode + '_empty_scope', 'call begin_nested()\nl = curr_nested_vari_head()\ncall end_nested()', [], lv, lambda v: {'l': v.HV}, lambda v, X: X.unchanged() or X.heads(0, 0) or room(v, X), use=use, mode=mode))
        S.append(Scen(mode + '_real_work', 'type(var) :: w, u\ncall begin_nested()\nw = var(x)\nu = var(x, [w], d)\ncall end_nested()', [('x', 'd', (), R_), ('d', 'd', ('q',), R_)], [], None,
                      lambda v, X: X.unchanged() or X.heads(0, 0) or restored(99)(v, X), use=use, mode=mode))
    S.append(Scen('too_deep', 'call begin_nested()\n' * 11, [], [], None, lambda v, X: None, use=use, abort='must'))
    S.append(Scen('deepest', 'call begin_nested()\n' * 10 + 'call end_nested()\n' * 10, [], [], None, lambda v, X: X.unchanged() or X.heads(0, 0), use=use))
    return S


# ---------------------------------------------------------------- P21 / P22
CB = '''
 real(rk), allocatable :: hz_y(:), hz_p(:,:), hz_q(:,:)
contains
 function hz_f(x) result(fx)
   type(var), intent(in) :: x(:)
   type(var) :: fx
   fx = var_with_partials(hz_y(1), x, hz_p(1,:))
 end function
 function hz_f2(x) result(fx)
   type(var), intent(in) :: x(:)
   type(var) :: fx, t(2)
   t(1) = var_with_partials(hz_y(1), x, hz_p(1,:))
   t(2) = var_with_partials(hz_y(2), x, hz_p(2,:))
   fx = var_with_partials(hz_y(3), t, hz_q(1,:))
 end function
 function hz_first(x) result(fx)
   type(var), intent(in) :: x(:)
   type(var) :: fx
   fx = x(1)
 end function
 function hz_const(x) result(fx)
   type(var), intent(in) :: x(:)
   type(var) :: fx
   fx = var(hz_y(1))
 end function
 function hz_deep(x) result(fx)
   type(var), intent(in) :: x(:)
   type(var) :: fx
   real(rk) :: g(1 + size(x))
   g = gradient(hz_f, hz_q(1,:))
   fx = var_with_partials(g(1), x, g(2:))
 end function
 function hz_tape(x) result(fx)
   type(var), intent(in) :: x(:)
   type(var) :: fx
   type(array_in_tape) :: a
   a = array_in_tape(callstack%stack, x)
   fx = var_with_partials(hz_y(1), x, hz_p(1,:))
 end function
 function hz_g(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n)
   integer :: i
   do i = 1, n
     fx(i) = var_with_partials(hz_y(i), x, hz_p(i,:))
   end do
 end function
 function hz_g2(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n), t
   integer :: i
   t = var_with_partials(hz_y(1), x, hz_q(1,:))
   do i = 1, n
     fx(i) = var_with_partials(hz_y(i), [t], hz_p(i,1:1))
   end do
 end function
 function hz_g122(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n)
   fx(1) = var_with_partials(hz_y(1), x, hz_p(1,:))
   fx(2) = var_with_partials(hz_y(2), x, hz_p(2,:))
   fx(3) = fx(2)
 end function
 function hz_g1121(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n)
   fx(1) = var_with_partials(hz_y(1), x, hz_p(1,:))
   fx(3) = var_with_partials(hz_y(2), x, hz_p(2,:))
   fx(2) = fx(1)
   fx(4) = fx(1)
 end function
 function hz_gin(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n)
   fx(1) = x(2)
   fx(2) = var_with_partials(hz_y(1), x, hz_p(1,:))
   fx(3) = x(1)
   fx(4) = var(hz_y(2))
 end function
 function hz_grev(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n)
   integer :: i
   fx(n) = var_with_partials(hz_y(n), x, hz_p(n,:))
   do i = n - 1, 1, -1
     fx(i) = var_with_partials(hz_y(i), [fx(i+1)], hz_q(1,i:i))
   end do
 end function
 function hz_gdeep(x, n) result(fx)
   type(var), intent(in) :: x(:)
   integer, intent(in) :: n
   type(var) :: fx(n)
   real(rk) :: g(1 + size(x))
   integer :: i
   do i = 1, n
     g = gradient(hz_f, hz_q(1,:))
     fx(i) = var_with_partials(hz_y(i), x, hz_p(i,:))
   end do
 end function
'''


def same_state(val, X):
    return X.unchanged() or X.heads(0, 0) or wiped(val, X)


def wiped(val, X):
    top = X.size if X.alloc else 0
    for y in range(val.H, min(top, val.H + 60) + 1):
        if X.S.get((y,)) != 0:
            return 'tape cell %d, used by the local computation, is not erased' % y
    return room(val, X) or vroom(val, X)


def dvec(n):
    return [('x', 'd', (n,), R_)]


def p22(mode='roomy', pre='', n=None):
    S = []
    C = {} if n is None else {'n': n}
    use = 'fazang_vari_mod fazang_var_mod fazang_nested_tape_mod fazang_grad_mod fazang_eager_adj_mod fazang_array_in_tape_mod'
    dn = lambda v: v.sizes['n']
    out = [('g', 'd', ('n_n+1',)), ('l', 'i', ())]
    lvl = '\nl = curr_nested_vari_head()'
    P1 = dvec('n') + [('y', 'd', (), R_), ('p', 'd', ('n',), R_)]
    al = 'allocate(hz_y(1), hz_p(1,n_n))\nhz_y(1) = y\nhz_p(1,:) = p\n'
    e1 = lambda v: {'g': ix1([v.a('y')] + v.vec('p')), 'l': 1}
    kw = dict(use=use, extra=CB, mode=mode)
    kg = dict(kw, const=C)
    S.append(Scen(pre + 'gradient', al + 'g = gradient(hz_f, x)' + lvl, P1, out, e1, same_state, **kg))
    S.append(Scen(pre + 'gradient_with_tape_array', al + 'g = gradient(hz_tape, x)' + lvl, P1, out, e1, same_state, **kg))
    S.append(Scen(pre + 'gradient_twice', al + 'g = gradient(hz_f, x)\ng = gradient(hz_f, x)' + lvl, P1, out, e1, same_state, **kg))
    P2 = dvec('n') + [('y', 'd', ('three',), R_), ('p', 'd', ('two', 'n'), R_), ('q', 'd', ('two',), R_)]
    S.append(Scen(pre + 'gradient_two_levels', 'allocate(hz_y(3), hz_p(2,n_n), hz_q(1,2))\nhz_y = y\nhz_p = p\nhz_q(1,:) = q\ng = gradient(hz_f2, x)' + lvl, P2, out,
                  lambda v: {'g': ix1([v.vec('y')[2]] + [v.a('q', 1) * v.a('p', 1, j) + v.a('q', 2) * v.a('p', 2, j) for j in range(1, dn(v) + 1)]), 'l': 1},
                  same_state, const=dict(C, two=2, three=3), **kw))
    S.append(Scen(pre + 'gradient_of_input', 'g = gradient(hz_first, x)' + lvl, dvec('n'), out,
                  lambda v: {'g': ix1([v.a('x', 1), mpf(1)] + [mpf(0)] * (dn(v) - 1)), 'l': 1}, same_state, ok=lambda v: dn(v) > 0, **kg))
    S.append(Scen(pre + 'gradient_of_constant', 'allocate(hz_y(1))\nhz_y(1) = y\ng = gradient(hz_const, x)' + lvl, dvec('n') + [('y', 'd', (), R_)], out,
                  lambda v: {'g': ix1([v.a('y')] + [mpf(0)] * dn(v)), 'l': 1}, same_state, **kg))
    S.append(Scen(pre + 'gradient_inside_gradient', 'allocate(hz_y(1), hz_p(1,n_n), hz_q(1,n_n))\nhz_y(1) = y\nhz_p(1,:) = p\nhz_q(1,:) = x\ng = gradient(hz_deep, x)' + lvl, P1, out, e1, same_state, **kg))
    S.append(Scen(pre + 'gradient_inside_scope', 'call begin_nested()\n' + al + 'g = gradient(hz_f, x)' + lvl, P1, out,
                  lambda v: {'g': ix1([v.a('y')] + v.vec('p')), 'l': v.HV}, same_state, **kg))
    S.append(Scen(pre + 'gradient_inside_scope_closed', 'call begin_nested()\n' + al + 'g = gradient(hz_f, x)\ncall end_nested()' + lvl, P1, out, e1, same_state, **kg))
    if n is not None:
        return S
    jo = [('g', 'd', ('n_k', 'n_n+1')), ('l', 'i', ())]
    PJ = dvec('n') + [('y', 'd', ('k',), R_), ('p', 'd', ('k', 'n'), R_)]
    aj = 'allocate(hz_y(n_k), hz_p(n_k,n_n))\nhz_y = y\nhz_p = p\n'

    def ej(v):
        g = {}
        for i in range(1, v.sizes['k'] + 1):
            g[(i, 1)] = v.a('y', i)
            for j in range(1, dn(v) + 1):
                g[(i, j + 1)] = v.a('p', i, j)
        return {'g': g, 'l': 1}
    for k in (1, 2, 3):
        S.append(Scen(pre + 'jacobian_%d_outputs' % k, aj + 'g = jacobian(hz_g, n_k, x)' + lvl, PJ, jo, ej, same_state, const={'k': k}, **kw))
        for n in (1, 2, 3):
            S.append(Scen(pre + 'jacobian_%d_by_%d' % (k, n), aj + 'g = jacobian(hz_g, n_k, x)' + lvl, PJ, jo, ej, same_state, const={'k': k, 'n': n}, **kw))
    PK = PJ + [('q', 'd', ('n',), R_)]

    def ej2(v):
        g = {}
        for i in range(1, v.sizes['k'] + 1):
            g[(i, 1)] = v.a('y', i)
            for j in range(1, dn(v) + 1):
                g[(i, j + 1)] = v.a('p', i, 1) * v.a('q', j)
        return {'g': g, 'l': 1}
    for k, n in ((1, 1), (2, 1), (2, 3), (3, 2)):
        S.append(Scen(pre + 'jacobian_shared_%d_by_%d' % (k, n), 'allocate(hz_y(n_k), hz_p(n_k,n_n), hz_q(1,n_n))\nhz_y = y\nhz_p = p\nhz_q(1,:) = q\ng = jacobian(hz_g2, n_k, x)' + lvl, PK, jo, ej2, same_state, const={'k': k, 'n': n}, **kw))
    rows = {'122': (1, 2, 2), '1121': (1, 1, 2, 1)}
    for nm, rr in sorted(rows.items()):
        def er(v, rr=rr):
            g = {}
            for i, r in enumerate(rr, 1):
                g[(i, 1)] = v.a('y', r)
                for j in range(1, dn(v) + 1):
                    g[(i, j + 1)] = v.a('p', r, j)
            return {'g': g, 'l': 1}
        k = len(rr)
        for n in (1, 2, 3):
            S.append(Scen(pre + 'jacobian_repeated_%s_by_%d' % (nm, n), 'allocate(hz_y(2), hz_p(2,n_n))\nhz_y = y\nhz_p = p\ng = jacobian(hz_g%s, n_k, x)' % nm + lvl,
                          dvec('n') + [('y', 'd', ('two',), R_), ('p', 'd', ('two', 'n'), R_)], jo, er, same_state, const={'k': k, 'n': n, 'two': 2}, extents=('k',), **kw))

    def ein(v):
        n = dn(v)
        unit = lambda i: [mpf(1) if j == i else mpf(0) for j in range(1, n + 1)]
        rws = [[v.a('x', 2)] + unit(2), [v.a('y', 1)] + [v.a('p', 1, j) for j in range(1, n + 1)], [v.a('x', 1)] + unit(1), [v.a('y', 2)] + [mpf(0)] * n]
        return {'g': {(i + 1, j + 1): x for i, r in enumerate(rws) for j, x in enumerate(r)}, 'l': 1}
    for n in (2, 3):
        S.append(Scen(pre + 'jacobian_of_inputs_4_by_%d' % n, 'allocate(hz_y(2), hz_p(1,n_n))\nhz_y = y\nhz_p = p\ng = jacobian(hz_gin, n_k, x)' + lvl,
                      dvec('n') + [('y', 'd', ('two',), R_), ('p', 'd', ('one', 'n'), R_)], jo, ein, same_state, const={'k': 4, 'n': n, 'two': 2, 'one': 1}, extents=('k',), **kw))

    def erev(v):
        g, k = {}, v.sizes['k']
        for i in range(1, k + 1):
            w = mpf(1)
            for q in range(i, k):
                w *= v.a('q', q)
            g[(i, 1)] = v.a('y', i)
            for j in range(1, dn(v) + 1):
                g[(i, j + 1)] = w * v.a('p', k, j)
        return {'g': g, 'l': 1}
    for k, n in ((2, 1), (2, 2), (3, 2)):
        S.append(Scen(pre + 'jacobian_chained_%d_by_%d' % (k, n), 'allocate(hz_y(n_k), hz_p(n_k,n_n), hz_q(1,n_k))\nhz_y = y\nhz_p = p\nhz_q(1,:) = q\ng = jacobian(hz_grev, n_k, x)' + lvl,
                      PJ + [('q', 'd', ('k',), R_)], jo, erev, same_state, const={'k': k, 'n': n}, **kw))
    for k, n in ((2, 1), (2, 2)):
        S.append(Scen(pre + 'jacobian_with_gradients_%d_by_%d' % (k, n), 'allocate(hz_y(n_k), hz_p(n_k,n_n), hz_q(1,n_n))\nhz_y = y\nhz_p = p\nhz_q(1,:) = x\ng = jacobian(hz_gdeep, n_k, x)' + lvl,
                      PJ, jo, ej, same_state, const={'k': k, 'n': n}, **kw))
    return S


def p21():
    return p22() + [s for s in p22('empty', 'empty_') if '_by_' in s.name] + [s for n in (1, 2, 3) for s in p22('empty', 'empty_%d_' % n, n)]


# ---------------------------------------------------------------- P23
def zeroed(j):
    def post(val, X):
        lo = 1 if j is None else val.marks[j][0]
        return X.unchanged(adj={h: mpf(0) for h in range(lo, val.HV)}) or X.heads(0, 0)
    return post


def p23():
    S = []
    use = 'fazang_vari_mod fazang_var_mod fazang_nested_tape_mod fazang_grad_mod'
    S.append(Scen('zero_all', 'call set_zero_all_adj()', [], [], None, zeroed(None), use=use))
    S.append(Scen('zero_all_bound', 'call callstack%set_zero_all_adj()', [], [], None, zeroed(None), use=use))
    S.append(Scen('zero_all_with_variables', 'call set_zero_all_adj()\nz = o%adj()\nv = o%val()', [('o', 'v', ('n',), R_)], [('z', 'd', ('n_n',)), ('v', 'd', ('n_n',))],
                  lambda v: {'z': ix1([mpf(0)] * v.sizes['n']), 'v': ix1(v.vec('o'))}, zeroed(None), use=use))
    S.append(Scen('zero_nested_without_scope', 'call set_zero_nested_adj()', [], [], None, zeroed(None), use=use))
    for k in (1, 2, 3, 10):
        body = ''.join('call begin_nested()\ncall hz_more(%d)\n' % j for j in range(1, k + 1))
        S.append(Scen('zero_nested_level_%d' % k, body + 'call set_zero_nested_adj()', [], [], None, zeroed(k - 1), use=use, marks=k))
        S.append(Scen('zero_all_level_%d' % k, body + 'call set_zero_all_adj()', [], [], None, zeroed(None), use=use, marks=k))
    S.append(Scen('zero_nested_after_inner_closed', 'call begin_nested()\ncall hz_more(1)\ncall begin_nested()\ncall hz_more(2)\ncall end_nested()\ncall hz_more(3)\ncall set_zero_nested_adj()', [], [], None, zeroed(0), use=use, marks=3))
    S.append(Scen('zero_nested_after_all_closed', 'call begin_nested()\ncall hz_more(1)\ncall end_nested()\ncall hz_more(2)\ncall set_zero_nested_adj()', [], [], None, zeroed(None), use=use, marks=2))
    S.append(Scen('zero_everything_empty', 'call set_zero_nested_adj()\ncall set_zero_all_adj()', [], [], None, lambda v, X: X.heads(0, 0), use=use, mode='empty'))
    S.append(Scen('zero_one', 'type(vari), pointer :: p\np => vari_at(o%vi)\ncall p%set_zero_adj()', [('o', 'v', (), R_)], [], None, lambda v, X: X.unchanged(adj={v.h('o'): mpf(0)}) or X.heads(0, 0), use=use))
    return S


# ---------------------------------------------------------------- P24
def p24():
    S = []
    use = 'fazang_vari_mod fazang_var_mod fazang_array_in_tape_mod'
    ij = [('i', 'i', (), lambda val, rng: rng.randint(1, max(1, val.sizes['m']))), ('j', 'i', (), lambda val, rng: rng.randint(1, max(1, val.sizes['n'])))]
    okk = lambda v: v.sizes['m'] > 0 and v.sizes['n'] > 0
    dec = 'type(array_in_tape) :: t'
    keep = lambda n: (lambda v, X: X.unchanged() or X.heads(0, n(v)))

    def rows(v, f):
        m, n, i, j = v.sizes['m'], v.sizes['n'], v.a('i'), v.a('j')
        return {'nr': m, 'nc': n, 'r': ix1([f(v, i, q) for q in range(1, n + 1)]), 'c': ix1([f(v, q, j) for q in range(1, m + 1)])}
    loc = lambda v, i, j: v.start[v.handles['x'][(i, j)]]
    dat = lambda v, i, j: v.args['x'][(i, j)]
    vm, dm = [('x', 'v', ('m', 'n'), R_)], [('x', 'd', ('m', 'n'), R_)]
    oi = [('nr', 'i', ()), ('nc', 'i', ()), ('r', 'i', ('n_n',)), ('c', 'i', ('n_m',))]
    od = [('nr', 'i', ()), ('nc', 'i', ()), ('r', 'd', ('n_n',)), ('c', 'd', ('n_m',))]
    S.append(Scen('view_of_variables', 't = array_in_tape(callstack%stack, x)\nnr = t%nrow()\nnc = t%ncol()\nr = t%row(i)\nc = t%col(j)', vm + ij, oi,
                  lambda v: rows(v, loc), keep(lambda v: 2 + v.sizes['m'] * v.sizes['n']), use=use, decl=dec, ok=okk))
    S.append(Scen('view_of_reals', 't = array_in_tape(callstack%stack, x)\nnr = t%nrow()\nnc = t%ncol()\nr = t%data_row(i)\nc = t%data_col(j)', dm + ij, od,
                  lambda v: rows(v, dat), keep(lambda v: 2 + 2 * v.sizes['m'] * v.sizes['n']), use=use, decl=dec, ok=okk))
    S.append(Scen('view_by_location', 't = array_in_tape(callstack%stack, x)\nu = array_in_tape(callstack%stack, t%loc, 2)\nnr = u%nrow()\nnc = u%ncol()\nr = u%row(i)\nc = u%col(j)', vm + ij, oi,
                  lambda v: rows(v, loc), None, use=use, decl=dec + ', u', ok=okk))
    S.append(Scen('tape_of_variables', 't = array_in_tape(callstack%stack, x)\nnr = callstack%stack%matrix_nrow(t%loc)\nnc = callstack%stack%matrix_ncol(t%loc)\nr = callstack%stack%matrix_row_index(t%loc, i)\nc = callstack%stack%matrix_col_index(t%loc, j)',
                  vm + ij, oi, lambda v: rows(v, loc), None, use=use, decl=dec, ok=okk))
    S.append(Scen('tape_of_reals', 't = array_in_tape(callstack%stack, x)\nnr = callstack%stack%matrix_nrow(t%loc)\nnc = callstack%stack%matrix_ncol(t%loc)\nr = callstack%stack%matrix_row_data(t%loc, i)\nc = callstack%stack%matrix_col_data(t%loc, j)',
                  dm + ij, od, lambda v: rows(v, dat), None, use=use, decl=dec, ok=okk))
    S.append(Scen('vector_of_variables', 't = array_in_tape(callstack%stack, x)\nnr = t%nrow()\nr = callstack%stack%storage(t%loc+1:t%loc+n_m)\nl = t%loc', [('x', 'v', ('m',), R_)], [('nr', 'i', ()), ('r', 'i', ('n_m',)), ('l', 'i', ())],
                  lambda v: {'nr': v.sizes['m'], 'r': ix1([v.start[h] for h in v.hvec('x')]), 'l': v.H}, keep(lambda v: 1 + v.sizes['m']), use=use, decl=dec))
    S.append(Scen('vector_of_reals', 't = array_in_tape(callstack%stack, x)\nnr = t%nrow()\nr = callstack%stack%cast_to_real(t%loc+1, n_m)\nl = t%loc', [('x', 'd', ('m',), R_)], [('nr', 'i', ()), ('r', 'd', ('n_m',)), ('l', 'i', ())],
                  lambda v: {'nr': v.sizes['m'], 'r': ix1(v.vec('x')), 'l': v.H}, keep(lambda v: 1 + 2 * v.sizes['m']), use=use, decl=dec))
    S.append(Scen('two_views', 't = array_in_tape(callstack%stack, x)\nu = array_in_tape(callstack%stack, z)\nr = t%row(i)\nc = t%col(j)\nnr = u%nrow()\nnc = t%ncol()', vm + ij + [('z', 'd', ('p', 'q'), R_)],
                  [('r', 'i', ('n_n',)), ('c', 'i', ('n_m',)), ('nr', 'i', ()), ('nc', 'i', ())],
                  lambda v: dict(rows(v, loc), nr=v.sizes['p']), None, use=use, decl=dec + ', u', ok=okk))
    return S
