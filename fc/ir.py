"""LLVM IR of the bundled C sources.

The C files that fazang links (lib/sundials-6.1.1) are compiled to IR by clang
without optimisation (only mem2reg, so the control flow is the source's own),
then parsed here.  Nothing is executed.
"""
import os, re, subprocess, tempfile, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('FA_REPO', '/repo')
SD = os.path.join(REPO, 'lib', 'sundials-6.1.1')
SCOPE = '''cvodes/cvodes cvodes/cvodes_io cvodes/cvodes_ls cvodes/cvodes_nls cvodes/cvodes_nls_sim
cvodes/cvodes_nls_stg cvodes/cvodes_nls_stg1 cvodes/cvodea cvodes/cvodea_io cvodes/cvodes_diag cvodes/cvodes_direct
cvodes/fmod/fcvodes_mod nvector/serial/nvector_serial nvector/serial/fmod/fnvector_serial_mod
sundials/sundials_nvector sundials/sundials_nvector_senswrapper sundials/sundials_context
sundials/sundials_dense sundials/sundials_direct sundials/sundials_math sundials/sundials_matrix
sundials/sundials_linearsolver sundials/sundials_nonlinearsolver sundials/sundials_memory sundials/sundials_futils
sundials/fmod/fsundials_context_mod sundials/fmod/fsundials_nvector_mod sundials/fmod/fsundials_matrix_mod
sundials/fmod/fsundials_linearsolver_mod sundials/fmod/fsundials_nonlinearsolver_mod sundials/fmod/fsundials_futils_mod
sunmatrix/dense/sunmatrix_dense sunmatrix/dense/fmod/fsunmatrix_dense_mod
sunlinsol/dense/sunlinsol_dense sunlinsol/dense/fmod/fsunlinsol_dense_mod
sunnonlinsol/newton/sunnonlinsol_newton sunnonlinsol/newton/fmod/fsunnonlinsol_newton_mod
sunnonlinsol/fixedpoint/sunnonlinsol_fixedpoint sunnonlinsol/fixedpoint/fmod/fsunnonlinsol_fixedpoint_mod'''.split()


class IRError(Exception):
    pass


class Unsupported(Exception):
    pass


_ident = r'(?:"[^"]*"|[-a-zA-Z$._0-9]+)'
RX_DEF = re.compile(r'^define .*?@(%s)\((.*)\)[^)]*\{$' % _ident)


def split_top(s):
    out, d, cur, q = [], 0, [], False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(''.join(cur).strip())
                cur = []
                continue
        cur.append(ch)
    t = ''.join(cur).strip()
    if t:
        out.append(t)
    return out


ATTRS = re.compile(r'\b(noundef|nonnull|nocapture|readonly|writeonly|signext|zeroext|noalias|immarg|inreg|'
                   r'align \d+|dereferenceable(?:_or_null)?\(\d+\)|sret\([^)]*\)|byval\([^)]*\)|returned)\b ?')


def take_type(s):
    """(type text, rest) of a string starting with a type"""
    s = s.lstrip()
    if s[0] in '[{<':
        d = 0
        for i, ch in enumerate(s):
            if ch in '[{<(':
                d += 1
            elif ch in ']}>)':
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].lstrip()
    m = re.match(r'(%"[^"]*"|[%\w.]+)', s)
    return m.group(1), s[m.end():].lstrip()


class Ins:
    __slots__ = ('op', 'res', 'a', 'dbg', 'text', 'site')

    def __init__(self, op, res, a, dbg, text):
        self.site = None
        self.op, self.res, self.a, self.dbg, self.text = op, res, a, dbg, text


class Block:
    __slots__ = ('name', 'phis', 'ins', 'succ', 'preds')

    def __init__(self, name):
        self.name, self.phis, self.ins, self.succ, self.preds = name, [], [], [], []


class Fn:
    def __init__(self, mod, name, params, text, sub):
        self.mod, self.name, self.params, self.text, self.sub = mod, name, params, text, sub
        self._b = None

    @property
    def blocks(self):
        if self._b is None:
            self._parse()
        return self._b

    def line(self, dbg):
        return self.mod.line(dbg)

    @property
    def where(self):
        d = self.mod.meta.get(self.sub, '')
        m = re.search(r'line: (\d+)', d)
        return self.mod.file, self.name, int(m.group(1)) if m else 0

    def _parse(self):
        self._b = bl = {}
        cur = None
        lines = self.text.split('\n')
        i = 0
        n = len(self.params)
        first = str(n)
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s:
                continue
            m = re.match(r'^(%s):' % _ident, ln)
            if m:
                cur = bl[m.group(1).strip('"')] = Block(m.group(1).strip('"'))
                continue
            if cur is None:
                cur = bl[first] = Block(first)
                self.entry = first
            if 'call void @llvm.dbg.' in s or '#dbg_' in s:
                continue
            if s.startswith('switch '):
                while not re.search(r'\]', s):
                    s += ' ' + lines[i].strip()
                    i += 1
            ins = parse_ins(s)
            if ins.op == 'phi':
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        if not hasattr(self, 'entry'):
            self.entry = first
        e = next(iter(bl))
        self.entry = e
        for b in bl.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = [t.a[1], t.a[2]] if len(t.a) == 3 else [t.a[0]]
            elif t.op == 'switch':
                b.succ = [t.a[2]] + [x for _, x in t.a[3]]
        for b in bl.values():
            for x in dict.fromkeys(b.succ):
                bl[x].preds.append(b.name)

    _pd = None

    def ipdom(self, b):
        if self._pd is None:
            self._pd = postdoms(self.blocks)
        return self._pd.get(b)


def postdoms(bl):
    """immediate postdominators; None stands for the function's end"""
    EX = None
    succ = {b: (list(dict.fromkeys(x.succ)) or [EX]) for b, x in bl.items()}
    # reverse postorder on the reversed graph
    pred = {b: [] for b in bl}
    pred[EX] = []
    for b, ss in succ.items():
        for s in ss:
            pred[s].append(b)
    order, seen = [], set()
    stack = [(EX, iter(pred[EX]))]
    seen.add(EX)
    while stack:
        b, it = stack[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(pred[x])))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {EX: EX}

    def inter(a, b):
        while a != b:
            while num[a] > num[b]:
                a = idom[a]
            while num[b] > num[a]:
                b = idom[b]
        return a
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = -1
            for s in succ[b]:
                if s in idom:
                    new = s if new == -1 else inter(new, s)
            if new != -1 and idom.get(b, -1) != new:
                idom[b] = new
                ch = True
    idom.pop(EX)
    return idom


RX_DBG = re.compile(r', !dbg !(\d+)')
RX_META = re.compile(r', ![a-z._A-Z]+ ![0-9]+')
BIN = {'add', 'sub', 'mul', 'sdiv', 'srem', 'udiv', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'inttoptr',
        'ptrtoint'}


def parse_ins(s):
    m = RX_DBG.search(s)
    dbg = m.group(1) if m else None
    t = RX_META.sub('', RX_DBG.sub('', s))
    res = None
    m = re.match(r'(%%%s) = (.*)$' % _ident, t)
    if m:
        res, t = m.group(1), m.group(2)
    op, _, r = t.partition(' ')
    if op in ('tail', 'musttail', 'notail'):
        op, _, r = r.partition(' ')
    if op in BIN:
        r = re.sub(r'^((nuw|nsw|exact|disjoint|fast|nnan|ninf|nsz|arcp|contract|reassoc|afn) )+', '', r)
        ty, r = take_type(r)
        a, b = split_top(r)
        return Ins(op, res, (ty, a, b), dbg, s)
    if op == 'fneg':
        ty, r = take_type(r)
        return Ins(op, res, (ty, r), dbg, s)
    if op in ('icmp', 'fcmp'):
        pred, _, r = r.partition(' ')
        ty, r = take_type(r)
        a, b = split_top(r)
        return Ins(op, res, (pred, ty, a, b), dbg, s)
    if op in CAST:
        r = re.sub(r'^(nneg|nuw|nsw) ', '', r)
        ty, r = take_type(r)
        v, _, to = r.rpartition(' to ')
        return Ins(op, res, (ty, v, to), dbg, s)
    if op == 'load':
        ty, r = take_type(r.replace('volatile ', ''))
        p = split_top(r.lstrip(', '))[0]
        _, v = take_type(p)
        return Ins(op, res, (ty, v), dbg, s)
    if op == 'store':
        p = split_top(r.replace('volatile ', ''))
        ty, v = take_type(p[0])
        _, q = take_type(p[1])
        return Ins(op, res, (ty, v, q), dbg, s)
    if op == 'getelementptr':
        r = re.sub(r'^(inbounds |nuw |nusw )+', '', r)
        p = split_top(r)
        return Ins(op, res, (p[0], take_type(p[1])[1], [take_type(x) for x in p[2:]]), dbg, s)
    if op == 'alloca':
        p = split_top(r)
        n = None
        for x in p[1:]:
            if not x.startswith('align'):
                n = take_type(x)
        return Ins(op, res, (p[0], n), dbg, s)
    if op == 'br':
        p = split_top(r)
        if len(p) == 1:
            return Ins(op, res, (p[0].split('%')[1],), dbg, s)
        return Ins(op, res, (take_type(p[0])[1], p[1].split('%')[1], p[2].split('%')[1]), dbg, s)
    if op == 'switch':
        m = re.match(r'(\S+) (\S+), label %(\S+) \[(.*)\]', r)
        cs = re.findall(r'i\d+ (-?\d+), label %(' + _ident + r')', m.group(4))
        return Ins(op, res, (m.group(1), m.group(2), m.group(3), [(int(a), b) for a, b in cs]), dbg, s)
    if op == 'ret':
        if r.strip() == 'void':
            return Ins(op, res, (), dbg, s)
        return Ins(op, res, take_type(r), dbg, s)
    if op == 'unreachable':
        return Ins(op, res, (), dbg, s)
    if op == 'call':
        r = ATTRS.sub('', r)
        ty, r = take_type(r)
        if r.startswith('('):
            d = 0
            for i, ch in enumerate(r):
                d += ch == '('
                d -= ch == ')'
                if d == 0:
                    r = r[i + 1:].lstrip()
                    break
        m = re.match(r'([@%%]%s)\(' % _ident, r)
        if not m:
            return Ins('call', res, (ty, None, []), dbg, s)
        d = 0
        for i in range(m.end() - 1, len(r)):
            d += r[i] == '('
            d -= r[i] == ')'
            if d == 0:
                break
        args = [take_type(x) for x in split_top(r[m.end():i])]
        return Ins(op, res, (ty, m.group(1), args), dbg, s)
    if op == 'select':
        p = split_top(r)
        return Ins(op, res, (take_type(p[0])[1], *take_type(p[1]), take_type(p[2])[1]), dbg, s)
    if op == 'phi':
        ty, r = take_type(r)
        inc = re.findall(r'\[ (.*?), %(' + _ident + r') \]', r)
        return Ins(op, res, (ty, {b.strip('"'): v for v, b in inc}), dbg, s)
    if op == 'freeze':
        ty, v = take_type(r)
        return Ins(op, res, (ty, v), dbg, s)
    return Ins('?' + op, res, (r,), dbg, s)


class Mod:
    def __init__(self, path, text):
        self.path = path
        self.file = os.path.relpath(path, REPO)
        self.fns, self.types, self.globs, self.meta, self.decls = {}, {}, {}, {}, set()
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define '):
                m = RX_DEF.match(re.sub(r' !dbg !\d+ \{$', ' {', ln))
                sub = re.search(r'!dbg !(\d+) \{$', ln)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                head = ATTRS.sub('', ln)
                m = re.match(r'^define .*?@(%s)\(' % _ident, head)
                k = m.end()
                d = 1
                while d:
                    d += head[k] == '('
                    d -= head[k] == ')'
                    k += 1
                params = [x for x in split_top(head[m.end():k - 1])]
                ps = []
                for x in params:
                    if x == '...':
                        continue
                    ty, r = take_type(x)
                    ps.append((ty, r.strip()))
                rt = take_type(re.sub(r'^define ((dso_local|internal|hidden|linkonce_odr|weak) )*', '', head))[0]
                f = Fn(self, m.group(1).strip('"'), ps, '\n'.join(lines[i + 1:j]), sub.group(1) if sub else None)
                f.ret = rt
                f.internal = ' internal ' in ln.split('@')[0]
                self.fns[f.name] = f
                i = j + 1
                continue
            if ln.startswith('declare '):
                m = re.search(r'@(%s)\(' % _ident, ln)
                self.decls.add(m.group(1))
            elif ln.startswith('%') and ' = type ' in ln:
                a, b = ln.split(' = type ', 1)
                self.types[a] = b
            elif ln.startswith('@'):
                m = re.match(r'@(%s) = (.*)$' % _ident, ln)
                self.globs[m.group(1)] = RX_META.sub('', RX_DBG.sub('', m.group(2)))
            elif ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            i += 1
        self._sz = {}
        self._fields = None

    def line(self, dbg):
        d = self.meta.get(dbg or '', '')
        m = re.search(r'line: (\d+)', d)
        return int(m.group(1)) if m else 0

    # ---------------------------------------------------------- layout
    def lay(self, ty):
        """(size, align, [(offset, type)] or None)"""
        r = self._sz.get(ty)
        if r is None:
            r = self._sz[ty] = self._lay(ty)
        return r

    def _lay(self, ty):
        if ty == 'ptr' or ty == 'double' or ty == 'i64':
            return 8, 8, None
        if ty in ('i32', 'float'):
            return 4, 4, None
        if ty in ('i8', 'i1'):
            return 1, 1, None
        if ty == 'i16':
            return 2, 2, None
        if ty == 'x86_fp80':
            return 16, 16, None
        if ty[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', ty)
            s, a, _ = self.lay(m.group(2))
            return s * int(m.group(1)), a, None
        if ty[0] == '%':
            b = self.types[ty]
            if b == 'opaque':
                return 0, 1, []
            return self.lay(b)
        if ty[0] == '{':
            off, al, fs = 0, 1, []
            for x in split_top(ty[1:-1].strip()):
                s, a, _ = self.lay(x)
                off = (off + a - 1) // a * a
                fs.append((off, x))
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, fs
        raise Unsupported('type ' + ty)

    def elem(self, ty, k):
        """offset and type of member k of an aggregate type"""
        while ty[0] == '%':
            ty = self.types[ty]
        if ty[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', ty)
            return k * self.lay(m.group(2))[0], m.group(2)
        return self.lay(ty)[2][k]

    # ------------------------------------------------- member names
    def fields(self, struct):
        """{member name: (byte offset, type metadata id)} of a C structure"""
        if self._fields is None:
            self._fields = {}
            for k, v in self.meta.items():
                if 'DW_TAG_structure_type' in v and 'elements:' in v:
                    m = re.search(r'name: "([^"]*)"', v)
                    if m:
                        self._fields[m.group(1)] = re.search(r'elements: !(\d+)', v).group(1)
        if struct not in self._fields:
            return None
        out = {}
        for k in re.findall(r'!(\d+)', self.meta[self._fields[struct]]):
            d = self.meta[k]
            nm = re.search(r'name: "([^"]*)"', d)
            o = re.search(r'offset: (\d+)', d)
            if nm:
                out[nm.group(1)] = (int(o.group(1)) // 8 if o else 0, re.search(r'baseType: !(\d+)', d).group(1))
        return out


def clang_args():
    inc = ['-I' + SD, '-I' + SD + '/include', '-I' + SD + '/src/sundials', '-I' + SD + '/src/cvodes']
    return ['clang-18'] + inc + ['-O0', '-ffp-contract=off', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-S',
                                 '-emit-llvm']


def build(rel):
    src = os.path.join(SD, 'src', rel + '.c')
    if not os.path.exists(src):
        return None
    p = subprocess.run(clang_args() + [src, '-o', '-'], capture_output=True, text=True)
    if p.returncode:
        raise IRError('%s: %s' % (rel, p.stderr[-400:]))
    q = subprocess.run(['opt', '-S', '-passes=mem2reg', '-o', '-'], input=p.stdout, capture_output=True, text=True)
    if q.returncode:
        raise IRError('%s: %s' % (rel, q.stderr[-400:]))
    return Mod(src, q.stdout)


class Prog:
    """all analysed modules; functions by name"""

    def __init__(self, scope=SCOPE):
        self.mods, self.errors = {}, []

        def one(r):
            try:
                return r, build(r)
            except IRError as e:
                return r, e
        with ThreadPoolExecutor(8) as ex:
            for r, m in ex.map(one, scope):
                if isinstance(m, Exception):
                    self.errors.append(str(m))
                elif m is None:
                    self.errors.append('%s.c: not found' % r)
                else:
                    self.mods[r] = m
        self.ext = {}
        for m in self.mods.values():
            for f in m.fns.values():
                if not f.internal:
                    self.ext.setdefault(f.name, f)

    def fn(self, name, mod=None):
        if mod is not None and name in mod.fns:
            return mod.fns[name]
        return self.ext.get(name)

    def find(self, name):
        f = self.ext.get(name)
        if f:
            return f
        for m in self.mods.values():
            if name in m.fns:
                return m.fns[name]
        return None

    def fields(self, struct):
        for m in self.mods.values():
            r = m.fields(struct)
            if r:
                return r
        return None

    def scalars(self, struct):
        """{member name: (byte offset, 'double' | 'i32' | 'i64' | 'ptr')} of the scalar members of a C structure"""
        for m in self.mods.values():
            r = m.fields(struct)
            if r:
                out = {}
                for n, (o, t) in r.items():
                    while t is not None:
                        d = m.meta[t]
                        if 'DW_TAG_pointer_type' in d:
                            out[n] = (o, 'ptr')
                            break
                        if 'DIBasicType' in d:
                            sz = int(re.search(r'size: (\d+)', d).group(1))
                            if 'DW_ATE_float' in d and sz == 64:
                                out[n] = (o, 'double')
                            elif 'DW_ATE_float' not in d and sz in (32, 64):
                                out[n] = (o, 'i%d' % sz)
                            break
                        if not any(x in d for x in ('DW_TAG_typedef', 'DW_TAG_const', 'DW_TAG_volatile')):
                            break
                        b = re.search(r'baseType: !(\d+)', d)
                        t = b.group(1) if b else None
                return out
        return None


if __name__ == '__main__':
    import time
    t = time.time()
    P = Prog()
    print(time.time() - t, P.errors, sum(len(m.fns) for m in P.mods.values()))
    bad = {}
    for m in P.mods.values():
        for f in m.fns.values():
            f.blocks
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op[0] == '?':
                        bad.setdefault(i.op, []).append((f.name, i.text))
            f.ipdom(f.entry)
    print(time.time() - t, {k: (len(v), v[:2]) for k, v in bad.items()})
    print(list(P.fields('CVodeMemRec').items())[:8])
