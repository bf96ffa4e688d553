"""Gated value-flow over the IR: one forward pass per procedure, both arms of a
branch are analysed once and joined at the branch's immediate postdominator
(values become `ite` gates).  No path is enumerated, nothing is executed."""
import re
import struct as _struct
from .val import *
from . import val as V
from .ir import Unsupported, Prog


class Stop(Exception):
    pass


class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'fill', 'freed', 'name', 'site', 'own', 'live', 'mod')

    def copy(self, own):
        o = Obj()
        o.id, o.kind, o.size, o.fill, o.freed, o.name, o.site, o.live, o.mod = \
            self.id, self.kind, self.size, self.fill, self.freed, self.name, self.site, self.live, self.mod
        o.cells = dict(self.cells)
        o.own = own
        return o


_sid = [0]


class State:
    __slots__ = ('mem', 'id', 'pc', 'known', 'events', 'dead', 'vars')

    def __init__(self):
        _sid[0] += 1
        self.id = _sid[0]
        self.mem, self.pc, self.known, self.events, self.dead, self.vars = {}, True, {}, [], False, {}

    def fork(self):
        s = State()
        s.mem, s.pc, s.known, s.events, s.vars = dict(self.mem), self.pc, dict(self.known), list(self.events), dict(self.vars)
        _sid[0] += 1
        self.id = _sid[0]
        return s

    def w(self, oid):
        o = self.mem[oid]
        if o.own != self.id:
            o = self.mem[oid] = o.copy(self.id)
        return o

    def become(self, s):
        self.mem, self.pc, self.known, self.events, self.dead, self.vars = s.mem, s.pc, s.known, s.events, s.dead, s.vars
        _sid[0] += 1
        self.id = _sid[0]


class Event:
    __slots__ = ('kind', 'data', 'pc', 'site')

    def __init__(self, kind, data, pc, site):
        self.kind, self.data, self.pc, self.site = kind, data, pc, site

    def __repr__(self):
        return 'Event(%s, %r)' % (self.kind, self.data)


ZERO_OF = {'f': 0.0, 'i': 0, 'b': False, 'p': NULL}


def irty(ty):
    if ty == 'ptr':
        return 'p'
    if ty in ('double', 'float'):
        return 'f'
    if ty == 'i1':
        return 'b'
    if ty[0] == 'i':
        return 'i'
    raise Unsupported('value of type ' + ty)


def pfloat(s):
    if s.startswith('0x'):
        if s[2] in 'KLMHR':
            raise Unsupported('float constant ' + s)
        return _struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)


def undefined(t):
    return isn(t) and (t.op == 'undef' or t.op in ('add', 'sub', 'mul', 'shl', 'sext', 'zext', 'trunc') and any(undefined(a) for a in t.args))


class Diverges(Unsupported):
    """a loop with decided conditions does not end"""


DEFINITE = []       # memory faults of the scenario in hand that happen whatever the inputs


class Eng:
    def __init__(self, prog, maxiter=10, fuel=20000000):
        self.prog = prog
        self.hooks = {}
        self.nobj = 0
        self.maxiter = maxiter
        self.fuel = fuel
        self.seen = set()
        self.stack = []
        self.pyf = {}
        for k in dir(self):
            if k.startswith('x_'):
                self.hooks[k[2:].replace('__', '.')] = getattr(self, k)
        self.glob0 = {}
        self.base = True        # the condition the scenario as a whole is under
        self.nofail = True

    # ------------------------------------------------------------ objects
    def new(self, st, kind, size, name='', fill=None):
        self.nobj += 1
        o = Obj()
        o.id, o.kind, o.size, o.fill, o.freed, o.name, o.site, o.own = self.nobj, kind, size, fill, False, name, V.SITE[0], st.id
        o.cells, o.live, o.mod = {}, st.pc, None
        st.mem[o.id] = o
        return P(o.id, 0)

    def event(self, st, kind, *data):
        st.events.append(Event(kind, data, st.pc, V.SITE[0]))

    def fault(self, st, what):
        if st.pc is True or st.pc is self.base:
            DEFINITE.append((what, V.SITE[0]))
        st.events.append(Event('fault', (what, tuple(f.name for f in self.stack)), st.pc, V.SITE[0]))

    def obj(self, st, oid):
        if isinstance(oid, str):
            if oid not in st.mem:
                self.global_obj(st, oid)
        return st.mem[oid]

    def global_obj(self, st, key):
        modrel, _, name = key[1:].partition('|')
        o = Obj()
        o.id, o.kind, o.fill, o.freed, o.name, o.site, o.own, o.live, o.mod = key, 'global', None, False, name, None, st.id, True, None
        o.cells, o.size = {}, None
        st.mem[key] = o
        m = self.prog.mods.get(modrel)
        txt = m.globs.get(name) if m else None
        if txt:
            k = re.match(r'.*?\b(?:global|constant) (.*)$', txt)
            if k:
                from .ir import take_type, split_top
                ty, r = take_type(k.group(1))
                try:
                    o.size = m.lay(ty)[0]
                except Unsupported:
                    return
                init = split_top(r)[0] if r and not r.startswith(',') else None
                if 'external' not in txt.split(' = ')[0].split('global')[0]:
                    self.init_cells(m, o, 0, ty, init)
        return o

    def init_cells(self, m, o, off, ty, init):
        from .ir import take_type, split_top
        if init is None:
            return
        if init in ('zeroinitializer', 'undef'):
            o.fill = 0
            return
        if init.startswith('c"'):
            s = init[2:-1]
            i = k = 0
            while i < len(s):
                if s[i] == '\\':
                    b = int(s[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(s[i])
                    i += 1
                o.cells[off + k] = b
                k += 1
            return
        if init[0] in '[{':
            for k, x in enumerate(split_top(init[1:-1].strip())):
                t, v = take_type(x)
                d, t2 = m.elem(ty, k)
                self.init_cells(m, o, off + d, t2, v)
            return
        v = self.const(m, ty, init)
        if v is not None:
            o.cells[off] = v

    # ------------------------------------------------------------ constants and operands
    def const(self, m, ty, s):
        if s[0] == '@':
            n = s[1:].strip('"')
            if n in m.fns or n in m.decls or self.prog.fn(n):
                return P('@' + n, 0) if n not in m.fns or not m.fns[n].internal else P('@' + n + '|' + self.rel(m), 0)
            return P('$' + self.rel(m) + '|' + n, 0) if 'external' not in m.globs.get(n, '') else P('$ext|' + n, 0)
        if s == 'null':
            return NULL
        if s == 'true':
            return True
        if s == 'false':
            return False
        if s in ('undef', 'poison'):
            return undef('undef', irty(ty) if ty[0] not in '[{%' else 'f')
        if s == 'zeroinitializer':
            return ZERO_OF[irty(ty)]
        if ty in ('double', 'float'):
            return pfloat(s)
        if ty == 'i1':
            return s in ('1', '-1')
        if s.startswith('getelementptr') or s.startswith('ptrtoint') or s.startswith('inttoptr'):
            raise Unsupported('constant expression')
        return int(s)

    def rel(self, m):
        for k, v in self.prog.mods.items():
            if v is m:
                return k

    def val(self, fr, ty, s):
        if s[0] == '%':
            v = fr.env.get(s)
            if v is None:
                raise Unsupported('no value for ' + s + ' in ' + fr.fn.name)
            return v
        return self.const(fr.fn.mod, ty, s)

    # ------------------------------------------------------------ memory
    def load(self, st, ty, p):
        if isn(p):
            if p.op == 'ite':
                c = assume(p.args[0], st.known)
                if not isn(c):
                    return self.load(st, ty, p.args[1] if c else p.args[2])
                nf = len(st.events)
                pc = st.pc
                st.pc = and_(pc, p.args[0])
                a = self.load(st, ty, p.args[1])
                st.pc = and_(pc, not_(p.args[0]))
                b = self.load(st, ty, p.args[2])
                st.pc = pc
                return ite(p.args[0], a, b)
            if p.op == 'undef':
                self.fault(st, 'read through an undefined pointer')
                return undef('undefined pointer', irty(ty))
            raise Unsupported('load through ' + show(p))
        k = irty(ty)
        if p.o == 0:
            self.fault(st, 'null pointer dereference (read)')
            return undef('null', k)
        o = self.obj(st, p.o)
        if o.freed is not False:
            self.fault_if(st, o.freed, 'read of freed memory (%s)' % o.name)
        if not isn(o.size) and o.size is not None and not (0 <= p.off < o.size):
            self.fault(st, 'read outside %s (offset %d of %s bytes)' % (o.name or o.kind, p.off, o.size))
            return undef('outside', k)
        v = o.cells.get(p.off)
        if v is None:
            return self.default(st, o, p.off, k)
        if isn(v) and v.op == 'ite' and st.known:
            v = assume(v, st.known)
        if tyof(v) != k:
            if isn(v) and v.op == 'undef':
                return undef(v.args[0], k)
            if not isn(v) and (v == NULL if tyof(v) == 'p' else v == 0):
                return ZERO_OF[k]
            return undef('type', k)
        return v

    def fault_if(self, st, c, what):
        pc = st.pc
        st.pc = and_(pc, c)
        if st.pc is not False:
            self.fault(st, what)
        st.pc = pc

    def default(self, st, o, off, k):
        if o.fill == 0:
            return ZERO_OF[k]
        if callable(o.fill):
            return o.fill(o, off, k)
        return mk('undef', k, 'uninitialised %s+%s' % (o.name or o.id, off))

    def store(self, st, ty, v, p):
        if isn(p):
            if p.op == 'ite':
                c = assume(p.args[0], st.known)
                if not isn(c):
                    return self.store(st, ty, v, p.args[1] if c else p.args[2])
                for q, g in self.targets(p, True):
                    pc = st.pc
                    st.pc = and_(pc, g)
                    old = self.load_raw(st, ty, q)
                    if old is not None:
                        self.store(st, ty, ite(g, v, old), q)
                    else:
                        self.store(st, ty, v, q)
                    st.pc = pc
                return
            if p.op == 'undef':
                return self.fault(st, 'write through an undefined pointer')
            raise Unsupported('store through ' + show(p))
        if p.o == 0:
            self.fault(st, 'null pointer dereference (write)')
            return
        o = self.obj(st, p.o)
        if o.freed is not False:
            self.fault_if(st, o.freed, 'write to freed memory (%s)' % o.name)
        if not isn(o.size) and o.size is not None and not (0 <= p.off < o.size):
            self.fault(st, 'write outside %s (offset %d of %s bytes)' % (o.name or o.kind, p.off, o.size))
            return
        st.w(p.o).cells[p.off] = v

    def load_raw(self, st, ty, p):
        if isn(p) or p.o == 0:
            return None
        o = self.obj(st, p.o)
        v = o.cells.get(p.off)
        return self.default(st, o, p.off, irty(ty)) if v is None else v

    def targets(self, p, g):
        if isn(p) and p.op == 'ite':
            yield from self.targets(p.args[1], and_(g, p.args[0]))
            yield from self.targets(p.args[2], and_(g, not_(p.args[0])))
        else:
            yield p, g

    def padd(self, p, d):
        if isn(p):
            if p.op == 'ite':
                return ite(p.args[0], self.padd(p.args[1], d), self.padd(p.args[2], d))
            return p
        if isn(d):
            if d.op == 'ite' and d.w < 400:
                return lift1(lambda x: self.padd(p, x), d)
            c = consts(d)
            if c:
                r = self.padd(p, c[0])
                for x in c[1:]:
                    r = ite(icmp('eq', d, x), self.padd(p, x), r)
                return r
            raise Unsupported('symbolic address %s' % show(d))
        if p.o == 0 and d:
            return P(0, p.off + d)
        return P(p.o, p.off + d)

    # ------------------------------------------------------------ calls
    def call(self, st, name, *args):
        """analyse a call of a named C function in state st"""
        f = self.prog.find(name)
        if f is None:
            raise Unsupported('function %s not found' % name)
        if len(f.params) != len(args) or any(ty != 'metadata' and a is not None and irty(ty) != tyof(a) for (ty, _), a in zip(f.params, args)):
            raise Unsupported('function %s takes other arguments' % name)
        return self.run(f, list(args), st)

    def run(self, f, args, st):
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        fr = Frame(f)
        for (ty, nm), a in zip(f.params, args):
            fr.env[nm] = a
        self.seen.add((f.mod.file, f.name))
        site = V.SITE[0]
        self.stack.append(f)
        try:
            # unnamed parameters are numbered
            f.blocks
            r = self.exec(fr, f.entry, None, st, None)
        finally:
            self.stack.pop()
            V.SITE[0] = site
        for oid in fr.allocas:
            if oid in st.mem:
                del st.mem[oid]
        return r

    def enter(self, fr, lbl, prev):
        b = fr.fn.blocks[lbl]
        if b.phis:
            vals = [(p.res, self.val(fr, p.a[0], p.a[1][prev])) for p in b.phis]
            for k, v in vals:
                fr.env[k] = v

    def exec(self, fr, lbl, prev, st, stop, entered=False):
        """run from block lbl until block `stop` is entered (None: return); returns the returned value"""
        while True:
            if not entered:
                self.enter(fr, lbl, prev)
                if lbl == stop:
                    return None
            entered = False
            b = fr.fn.blocks[lbl]
            for ins in b.ins[:-1]:
                self.fuel -= 1
                if self.fuel < 0:
                    raise Unsupported('analysis budget')
                V.SITE[0] = ins.site or self.mksite(fr, ins)
                self.step(fr, ins, st)
                if st.dead:
                    return None
            t = b.ins[-1]
            V.SITE[0] = t.site or self.mksite(fr, t)
            if t.op == 'ret':
                return self.val(fr, *t.a) if t.a else None
            if t.op == 'unreachable':
                st.dead = True
                return None
            if t.op == 'br':
                if len(t.a) == 1:
                    prev, lbl = lbl, t.a[0]
                    continue
                c = assume(self.val(fr, 'i1', t.a[0]), st.known)
                arms = [(c, t.a[1]), (not_(c), t.a[2])]
            elif t.op == 'switch':
                x = self.val(fr, t.a[0], t.a[1])
                arms, rest = [], True
                for k, l in t.a[3]:
                    c = and_(rest, assume(icmp('eq', x, k), st.known))
                    arms.append((c, l))
                    rest = and_(rest, not_(assume(icmp('eq', x, k), st.known)))
                arms.append((rest, t.a[2]))
            else:
                raise Unsupported(t.op)
            live = [(c, l) for c, l in arms if c is not False]
            sure = [x for x in live if x[0] is True]
            if sure or len(live) == 1:
                prev, lbl = lbl, (sure or live)[0][1]
                fr.count += 1
                if fr.count > 200000:
                    raise Diverges('%s:%s:%s' % V.SITE[0] if V.SITE[0] else '?')
                continue
            # a real branch: analyse each arm up to the join, then merge
            J = fr.fn.ipdom(lbl)
            key = lbl
            d = fr.depth.get(key, 0)
            if d >= self.maxiter:
                self.event(st, 'cut', fr.fn.name, lbl)
                st.dead = True
                return None
            fr.depth[key] = d + 1
            res = []
            base = st.fork()
            base_env = fr.env
            for c, l in live:
                s2 = base.fork()
                s2.pc = and_(base.pc, c)
                learn(s2.known, c)
                fr.env = dict(base_env)
                r = self.exec(fr, l, lbl, s2, J)
                res.append((c, s2, fr.env, r))
            fr.depth[key] = d
            m = res[-1]
            for x in res[-2::-1]:
                m = (x[0],) + self.merge(x[0], x[1:], m[1:], base)
            _, s2, env, r = m
            st.become(s2)
            st.known = dict(base.known)
            for k in [k for k in (not_(c) for c, _ in live)]:
                pass
            fr.env = env
            if st.dead:
                return None
            # conditions known after the join: those of the arms that did not end
            alive = [x for x in res if not x[1].dead]
            if len(alive) == 1:
                st.known = alive[0][1].known
                st.pc = alive[0][1].pc
            else:
                st.pc = base.pc if all(not x[1].dead for x in res) else self.orpc(alive)
            if J is None:
                return r
            if J == stop:
                return None
            prev, lbl, entered = None, J, True

    def mksite(self, fr, ins):
        ins.site = (fr.fn.mod.file, fr.fn.name, ins.dbg and fr.fn.line(ins.dbg))
        return ins.site

    def orpc(self, alive):
        r = False
        for x in alive:
            r = or_(r, x[1].pc)
        return r

    def merge(self, c, A, B, base):
        s1, e1, r1 = A
        s2, e2, r2 = B
        nb = len(base.events)
        if s1.dead and s2.dead:
            s1.events = s1.events + s2.events[nb:]
            return s1, e1, r1
        if s1.dead or s2.dead:
            live, dead = (B, A) if s1.dead else (A, B)
            live[0].events = live[0].events[:nb] + dead[0].events[nb:] + live[0].events[nb:]
            # objects made on the ended side stay known (they are referenced by its events only)
            return live
        s = s1
        if s1.mem is not s2.mem:
            for oid, o2 in s2.mem.items():
                o1 = s1.mem.get(oid)
                if o1 is o2:
                    continue
                if o1 is None:
                    s1.mem[oid] = o2
                    continue
                o = s.w(oid)
                o.freed = ite(c, o1.freed, o2.freed)
                if not same(o1.size, o2.size):
                    o.size = ite(c, o1.size, o2.size)
                for off in set(o1.cells) | set(o2.cells):
                    v1, v2 = o1.cells.get(off), o2.cells.get(off)
                    if v1 is v2:
                        continue
                    if v1 is None:
                        v1 = self.default(s, o1, off, tyof(v2))
                    if v2 is None:
                        v2 = self.default(s, o2, off, tyof(v1))
                    o.cells[off] = self.join(c, v1, v2)
        for k in set(s1.vars) | set(s2.vars):
            a, b = s1.vars.get(k), s2.vars.get(k)
            if a is not b:
                s.vars[k] = self.join(c, a, b) if a is not None and b is not None else (a if b is None else b)
        s.events = s1.events + s2.events[nb:]
        env = e1
        for k, v2 in e2.items():
            v1 = e1.get(k)
            if v1 is None:
                env[k] = v2
            elif v1 is not v2:
                env[k] = self.join(c, v1, v2)
        r = None
        if r1 is not None and r2 is not None:
            r = self.join(c, r1, r2)
        elif r1 is not None or r2 is not None:
            r = r1 if r1 is not None else r2
        return s, env, r

    def join(self, c, a, b):
        if same(a, b):
            return a
        ta, tb = tyof(a), tyof(b)
        if ta != tb:
            if isn(a) and a.op == 'undef':
                return ite(c, undef(a.args[0], tb), b)
            if isn(b) and b.op == 'undef':
                return ite(c, a, undef(b.args[0], ta))
            for x, y in ((a, b), (b, a)):
                if not isn(x) and tyof(x) == 'i' and x == 0:        # zeroed memory
                    z = ZERO_OF[tyof(y)]
                    return ite(c, z, b) if x is a else ite(c, a, z)
            return undef('types differ', ta)
        return ite(c, a, b)

    # ------------------------------------------------------------ instructions
    def step(self, fr, ins, st):
        op, a, env = ins.op, ins.a, fr.env
        if op == 'getelementptr':
            p = self.val(fr, 'ptr', a[1])
            ty, off = a[0], 0
            m = fr.fn.mod
            for n, (ity, s) in enumerate(a[2]):
                k = self.val(fr, ity, s)
                if n == 0:
                    d = iop('mul', k, m.lay(ty)[0])
                elif ty[0] == '[':
                    inner = re.match(r'\[\d+ x (.*)\]$', ty).group(1)
                    d = iop('mul', k, m.lay(inner)[0])
                    ty = inner
                else:
                    d, ty = m.elem(ty, k)
                off = iop('add', off, d)
            if isn(off) and undefined(off):
                self.fault(st, 'an address computed from an undefined value')
            env[ins.res] = self.padd(p, off)
        elif op == 'load':
            env[ins.res] = self.load(st, a[0], self.val(fr, 'ptr', a[1]))
        elif op == 'store':
            self.store(st, a[0], self.val(fr, a[0], a[1]), self.val(fr, 'ptr', a[2]))
        elif op == 'call':
            r = self.docall(fr, ins, st)
            if ins.res:
                env[ins.res] = r if r is not None else undef('no value', irty(a[0]) if a[0][0] not in '{[%' else 'f')
        elif op in ('add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor'):
            x, y = self.val(fr, a[0], a[1]), self.val(fr, a[0], a[2])
            if a[0] == 'i1':
                env[ins.res] = {'and': and_, 'or': or_, 'xor': lambda p, q: ite(p, not_(q), q)}[op](x, y)
            else:
                r = iop(op, x, y, int(a[0][1:]))
                if isn(r) and r.op == 'and':
                    r = mk('and_', 'i', *r.args)
                env[ins.res] = r
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            env[ins.res] = fop(op, self.val(fr, a[0], a[1]), self.val(fr, a[0], a[2]))
        elif op == 'fneg':
            env[ins.res] = fneg(self.val(fr, a[0], a[1]))
        elif op == 'icmp':
            pr, x, y = a[0], self.val(fr, a[1], a[2]), self.val(fr, a[1], a[3])
            neg = False
            if pr == 'ne':
                pr, neg = 'eq', True
            elif pr[1:] in ('gt', 'ge'):
                pr = pr[0] + {'gt': 'le', 'ge': 'lt'}[pr[1:]]
                neg = True
            r = icmp(pr, x, y)
            env[ins.res] = not_(r) if neg else r
        elif op == 'fcmp':
            pr, x, y = a[0], self.val(fr, a[1], a[2]), self.val(fr, a[1], a[3])
            if pr in ('uno', 'ord'):
                r = or_(self.nan(x), self.nan(y))
                env[ins.res] = r if pr == 'uno' else not_(r)
            else:
                k = pr[1:]
                if k == 'lt':
                    r = fcmp('flt', x, y)
                elif k == 'le':
                    r = fcmp('fle', x, y)
                elif k == 'gt':
                    r = fcmp('flt', y, x)
                elif k == 'ge':
                    r = fcmp('fle', y, x)
                elif k == 'eq':
                    r = fcmp('feq', x, y)
                else:
                    r = not_(fcmp('feq', x, y))
                env[ins.res] = r
        elif op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze'):
            x = self.val(fr, a[0], a[1])
            to = a[2] if op != 'freeze' else a[0]
            if a[0] == 'i1' and to != 'i1':
                x = b2i(x) if op != 'sext' else iop('sub', 0, b2i(x))
            elif to == 'i1' and a[0] != 'i1':
                x = not_(icmp('eq', iop('and', x, 1) if not isn(x) else x, 0))
            elif op == 'trunc' and not isn(x):
                w = int(to[1:])
                x %= 2**w
                x = x - 2**w if x >= 2**(w - 1) else x
            elif op == 'zext' and not isn(x) and x < 0:
                x %= 2**int(a[0][1:])
            env[ins.res] = x
        elif op in ('sitofp', 'uitofp'):
            x = self.val(fr, a[0], a[1])
            env[ins.res] = i2f(x)
        elif op in ('fptosi', 'fptoui'):
            env[ins.res] = f2i(self.val(fr, a[0], a[1]))
        elif op in ('fpext', 'fptrunc'):
            x = self.val(fr, a[0], a[1])
            env[ins.res] = fn('single', x) if op == 'fptrunc' and a[2] == 'float' else x
        elif op == 'select':
            c = assume(self.val(fr, 'i1', a[0]), st.known)
            env[ins.res] = self.join(c, self.val(fr, a[1], a[2]), self.val(fr, a[1], a[3])) if isn(c) else \
                self.val(fr, a[1], a[2] if c else a[3])
        elif op == 'alloca':
            n = 1 if a[1] is None else self.val(fr, *a[1])
            p = self.new(st, 'stack', fr.fn.mod.lay(a[0])[0] * n, '%s%s' % (fr.fn.name, ins.res))
            fr.allocas.append(p.o)
            env[ins.res] = p
        elif op in ('ptrtoint', 'inttoptr'):
            x = self.val(fr, a[0], a[1])
            env[ins.res] = x if op == 'ptrtoint' else (NULL if x == 0 else x)
        else:
            raise Unsupported('instruction ' + ins.text[:80])

    def nan(self, x):
        if not isn(x):
            return x != x
        return mk('fisnan', 'b', x)

    def docall(self, fr, ins, st):
        ty, callee, args = ins.a
        if callee is None:
            raise Unsupported('call ' + ins.text[:60])
        m = fr.fn.mod
        if callee[0] == '@':
            n = callee[1:].strip('"')
            return self.invoke(st, P('@' + n + ('|' + self.rel(m) if n in m.fns and m.fns[n].internal else ''), 0),
                               [self.arg(fr, t, v) for t, v in args], ty)
        f = self.val(fr, 'ptr', callee)
        return self.invoke(st, f, [self.arg(fr, t, v) for t, v in args], ty)

    def arg(self, fr, t, v):
        if t == 'metadata':
            return None
        return self.val(fr, t, v)

    def invoke(self, st, f, args, ty='i32'):
        if isn(f):
            if f.op == 'ite':
                c = assume(f.args[0], st.known)
                if not isn(c):
                    return self.invoke(st, f.args[1] if c else f.args[2], args, ty)
                base = st.fork()
                s1, s2 = base.fork(), base.fork()
                s1.pc, s2.pc = and_(base.pc, c), and_(base.pc, not_(c))
                learn(s1.known, c)
                learn(s2.known, not_(c))
                r1 = self.invoke(s1, f.args[1], args, ty)
                r2 = self.invoke(s2, f.args[2], args, ty)
                s, _, r = self.merge(c, (s1, {}, r1), (s2, {}, r2), base)
                kn = base.known if not (s1.dead or s2.dead) else s.known
                pc = base.pc if not (s1.dead or s2.dead) else s.pc
                st.become(s)
                st.known, st.pc = dict(kn), pc
                return r
            self.fault(st, 'call through an undefined pointer')
            st.dead = True
            return None
        if not isinstance(f, P) or not isinstance(f.o, str) or f.o[0] != '@':
            self.fault(st, 'call through a null pointer' if f == NULL else 'call of a non-function')
            st.dead = True
            return None
        key = f.o[1:]
        name, _, rel = key.partition('|')
        if name in self.hooks:
            return self.hooks[name](st, args, ty)
        g = self.prog.mods[rel].fns[name] if rel else self.prog.fn(name)
        if g is None:
            return self.external(st, name, args, ty)
        return self.run(g, args, st)

    def external(self, st, name, args, ty):
        raise Unsupported('external function ' + name)

    # ------------------------------------------------------------ library functions
    def x_malloc(self, st, a, ty):
        self.event(st, 'malloc')
        k = sum(1 for e in st.events if e.kind == 'malloc')
        if self.fail_at is not None and k == self.fail_at:
            return NULL
        size = a[0]
        f = self.stack[-1].name if self.stack else ''
        if not isn(size) and size == 0:
            return self.new(st, 'heap', 0, 'block of ' + f)
        return self.new(st, 'heap', size, 'block of ' + f)

    fail_at = None

    def x_calloc(self, st, a, ty):
        p = self.x_malloc(st, [iop('mul', a[0], a[1])], ty)
        if p != NULL:
            st.w(p.o).fill = 0
        return p

    def x_free(self, st, a, ty):
        p = a[0]
        for q, g in self.targets(p, True):
            g = assume(g, st.known)
            if g is False or isn(q) and q.op == 'undef':
                if g is not False:
                    pc, st.pc = st.pc, and_(st.pc, g)
                    self.fault(st, 'release of an undefined pointer')
                    st.pc = pc
                continue
            if q.o == 0:
                continue
            pc = st.pc
            st.pc = and_(pc, g)
            o = self.obj(st, q.o)
            if q.off != 0 or o.kind != 'heap':
                self.fault(st, 'release of something that was not allocated (%s)' % (o.name or o.kind))
            elif o.freed is not False:
                self.fault_if(st, o.freed, 'second release of %s' % o.name)
            if o.kind == 'heap':
                st.w(q.o).freed = ite(g, True, o.freed)
            st.pc = pc
        return None

    def region(self, st, p, n, what):
        """may the bytes p .. p+n be accessed; faults otherwise"""
        if isn(p):
            if p.op == 'undef':
                self.fault(st, '%s through an undefined pointer' % what)
                return False
            raise Unsupported(what + ' through ' + show(p))
        if isn(n):
            raise Unsupported('%s of %s bytes' % (what, show(n)))
        if n <= 0:
            if n < 0:
                self.fault(st, '%s of a negative number of bytes' % what)
            return False
        if p.o == 0:
            self.fault(st, 'null pointer dereference (%s)' % what)
            return False
        o = self.obj(st, p.o)
        if o.freed is not False:
            self.fault_if(st, o.freed, '%s of freed memory (%s)' % (what, o.name))
        if not isn(o.size) and o.size is not None and not (0 <= p.off and p.off + n <= o.size):
            self.fault(st, '%s outside %s (offset %d, %d bytes, of %s bytes)' % (what, o.name or o.kind, p.off, n, o.size))
            return False
        return True

    def cases(self, st, *vs):
        """the combinations of leaves of gated values, each with its condition"""
        g = [(True, ())]
        for v in vs:
            g = [(and_(c, e), t + (x,)) for c, t in g for x, e in self.targets(v, True)]
        out = []
        for c, t in g:
            c = assume(c, st.known)
            if c is not False:
                out.append((c, t))
        return out

    def put(self, st, o, off, v, g):
        """cell := v where g holds"""
        o = st.w(o)
        if g is not True:
            old = o.cells.get(off)
            if old is None:
                old = self.default(st, o, off, tyof(v))
            v = self.join(g, v, old)
        o.cells[off] = v

    def x_llvm__memset__p0__i64(self, st, a, ty):
        for g, (p, v, n) in self.cases(st, a[0], a[1], a[2]):
            pc, st.pc = st.pc, and_(st.pc, g)
            if self.region(st, p, n, 'memset'):
                self.zero(st, p, v, n, g)
            st.pc = pc
        return a[0]

    def zero(self, st, p, v, n, g):
        if v != 0:
            raise Unsupported('memset to %s' % show(v))
        o = st.w(self.obj(st, p.o).id)
        if g is True and p.off == 0 and not isn(o.size) and o.size is not None and n >= o.size:
            o.cells.clear()
            o.fill = 0
            return
        k = p.off
        while k < p.off + n:
            old = o.cells.get(k)
            t = tyof(old) if old is not None else None
            if t in ('f', 'p') and k + 8 <= p.off + n:
                self.put(st, p.o, k, ZERO_OF[t], g)
                k += 8
            else:
                self.put(st, p.o, k, 0 if t != 'b' else False, g)       # read back as any zero
                k += 4

    def x_llvm__memcpy__p0__p0__i64(self, st, a, ty, what='memcpy'):
        todo = []
        for g, (d, s, n) in self.cases(st, a[0], a[1], a[2]):
            pc, st.pc = st.pc, and_(st.pc, g)
            if self.region(st, s, n, what) and self.region(st, d, n, what):
                so = self.obj(st, s.o)
                cells = {k - s.off + d.off: assume(v, st.known) if isn(v) else v for k, v in so.cells.items() if s.off <= k < s.off + n}
                if what == 'memcpy' and s.o == d.o and s.off != d.off and abs(s.off - d.off) < n:
                    self.fault(st, 'memcpy of overlapping regions of %s' % (so.name or so.kind))
                todo.append((g, d, s, n, cells, so.fill, so.size))
            st.pc = pc
        for g, d, s, n, cells, fill, size in todo:
            o = st.w(self.obj(st, d.o).id)
            if g is True:
                for k in [k for k in o.cells if d.off <= k < d.off + n and k not in cells]:
                    if fill == 0:
                        o.cells[k] = ZERO_OF[tyof(o.cells[k])]
                    else:
                        del o.cells[k]
            for k, v in cells.items():
                self.put(st, d.o, k, v, g)
            if fill == 0 and o.fill is None and g is True:
                if d.off == 0 and n == o.size:
                    o.fill = 0
                else:
                    for k in range(d.off, d.off + n, 4):
                        if k not in o.cells and not (k - 4 in o.cells and tyof(o.cells[k - 4]) in 'fp'):
                            o.cells[k] = 0
        return a[0]

    def x_llvm__memmove__p0__p0__i64(self, st, a, ty):
        return self.x_llvm__memcpy__p0__p0__i64(st, a, ty, 'memmove')

    def x_memmove(self, st, a, ty):
        return self.x_llvm__memcpy__p0__p0__i64(st, a, ty, 'memmove')

    def x_memset(self, st, a, ty):
        return self.x_llvm__memset__p0__i64(st, a, ty)

    def x_llvm__fmuladd__f64(self, st, a, ty):
        return fop('fadd', fop('fmul', a[0], a[1]), a[2])

    def x_fmax(self, st, a, ty):
        return ite(fcmp('flt', a[0], a[1]), a[1], a[0])

    def x_fmin(self, st, a, ty):
        return ite(fcmp('flt', a[1], a[0]), a[1], a[0])

    x_llvm__maxnum__f64 = x_fmax
    x_llvm__minnum__f64 = x_fmin

    def x_llvm__smax__i32(self, st, a, ty):
        return ite(icmp('slt', a[0], a[1]), a[1], a[0])

    def x_llvm__smin__i32(self, st, a, ty):
        return ite(icmp('slt', a[1], a[0]), a[1], a[0])

    x_llvm__smax__i64 = x_llvm__smax__i32
    x_llvm__smin__i64 = x_llvm__smin__i32

    def x_memcpy(self, st, a, ty):
        return self.x_llvm__memcpy__p0__p0__i64(st, a, ty)

    def x_llvm__fabs__f64(self, st, a, ty):
        return fn('fabs', a[0])

    def x_sqrt(self, st, a, ty):
        return fn('sqrt', a[0])

    def x_pow(self, st, a, ty):
        return fn('pow', a[0], a[1])

    def x_llvm__abs__i32(self, st, a, ty):
        x = a[0]
        return abs(x) if not isn(x) else ite(icmp('slt', x, 0), iop('sub', 0, x), x)

    def x_llvm__is__fpclass__f64(self, st, a, ty):
        x, m = a
        if m == 3:
            return self.nan(x)
        if m == 516:
            return mk('fisinf', 'b', x) if isn(x) else x in (float('inf'), float('-inf'))
        raise Unsupported('is.fpclass')

    def noop(self, st, a, ty):
        return 0 if ty == 'i32' else None

    x_printf = x_fprintf = x_sprintf = x_puts = x_fflush = x_vsprintf = x_strcpy = x_snprintf = noop
    x_putchar = x_fputs = x_fputc = x_putc = noop

    def x_cvProcessError(self, st, a, ty):
        self.event(st, 'msg', a[1])
        return None

    def x___assert_fail(self, st, a, ty):
        self.event(st, 'abort', 'assertion')
        st.dead = True

    def x_abort(self, st, a, ty):
        self.event(st, 'abort', 'abort')
        st.dead = True

    def x_exit(self, st, a, ty):
        self.event(st, 'abort', 'exit')
        st.dead = True


def learn(known, c):
    if not isn(c):
        return
    if c.op == 'and':
        learn(known, c.args[0])
        learn(known, c.args[1])
        known[c] = True
        return
    if c.op == 'not':
        x = c.args[0]
        known[x] = False
        if x.op == 'and':       # one of them false: nothing more
            a, b = x.args
            ka, kb = assume(a, known), assume(b, known)
            if ka is True:
                learn(known, not_(b))
            elif kb is True:
                learn(known, not_(a))
        elif x.op in ('fle', 'flt'):        # over the numbers: the other side is smaller (or equal)
            a, b = x.args
            o = fcmp('flt' if x.op == 'fle' else 'fle', b, a)
            if isn(o):
                known.setdefault(o, True)
        return
    known[c] = True
    if c.op in ('flt', 'fle'):      # (no comparison with a NaN holds)
        a, b = c.args
        for op, x, y, v in (('flt', b, a, False), ('fle', b, a, False), ('feq', a, b, False), ('feq', b, a, False), ('fle', a, b, True)):
            if c.op == 'fle' and op != 'flt':
                continue
            o = fcmp(op, x, y)
            if isn(o):
                known.setdefault(o, v)


class Frame:
    __slots__ = ('fn', 'env', 'allocas', 'depth', 'count')

    def __init__(self, f):
        self.fn, self.env, self.allocas, self.depth, self.count = f, {}, [], {}, 0
