"""Free-form Fortran front end: preprocess, tokenise, parse to a small syntax tree.

Every node carries the source file and line, so findings can be reported against
a construct.  Nothing here depends on the particular library.
"""
import re, subprocess, os
from fractions import Fraction


class ParseError(Exception):
    pass


# ----------------------------------------------------------------- AST nodes
class N:
    """Generic syntax node: N('kind', pos, field=value...)."""
    __slots__ = ('k', 'pos', '__dict__')

    def __init__(self, k, pos, **kw):
        self.k = k
        self.pos = pos
        self.__dict__.update(kw)

    def __repr__(self):
        return 'N(%s %s)' % (self.k, ' '.join('%s=%r' % (a, b) for a, b in self.__dict__.items() if a != 'pos'))


# ----------------------------------------------------------------- lexing
NUM = r'\d+\.(?![a-z]+\.)\d*(?:[ed][+-]?\d+)?(?:_\w+)?|\.\d+(?:[ed][+-]?\d+)?(?:_\w+)?|\d+(?:[ed][+-]?\d+)(?:_\w+)?|\d+(?:_\w+)?'
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<num>%s)
 | (?P<name>[a-z_$][\w$]*)
 | (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
 | (?P<dot>\.[a-z]+\.)
 | (?P<op>\*\*|==|/=|<=|>=|=>|::|//|\(/(?!=)|/\)|[-+*/=<>(),:%%\[\];&|!@~^?{}.])
''' % NUM, re.X)


class Tok:
    __slots__ = ('k', 'v', 'pos')

    def __init__(self, k, v, pos):
        self.k, self.v, self.pos = k, v, pos

    def __repr__(self):
        return self.v


def lower_outside_strings(s):
    out = []
    q = None
    for ch in s:
        if q:
            out.append(ch)
            if ch == q:
                q = None
        else:
            if ch in '\'"':
                q = ch
            out.append(ch.lower())
    return ''.join(out)


def strip_comment(s):
    q = None
    for i, ch in enumerate(s):
        if q:
            if ch == q:
                q = None
        elif ch in '\'"':
            q = ch
        elif ch == '!':
            return s[:i]
    return s


def preprocess(path, defines=(), fc=None, inc=()):
    fc = fc or os.environ.get('FA_FC', 'gfortran-11')
    cmd = [fc, '-E', '-cpp'] + ['-I' + d for d in inc] + ['-D' + d for d in defines] + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ParseError('preprocessing %s failed: %s' % (path, r.stderr[:400]))
    return r.stdout


def logical_lines(text, path):
    """Yield (pos, statement text) after joining continuations and splitting on ';'."""
    cur = ''
    start = None
    line = 0
    fname = path
    cont = False
    out = []
    for raw in text.split('\n'):
        m = re.match(r'#\s*(?:line\s+)?(\d+)\s+"([^"]*)"', raw)
        if m:
            line = int(m.group(1)) - 1
            fname = m.group(2)
            continue
        if raw.startswith('#'):
            line += 1
            continue
        line += 1
        s = strip_comment(raw)
        if not s.strip():
            continue
        if cont:
            t = s.lstrip()
            if t.startswith('&'):
                t = t[1:]
            s = t
        t = s.rstrip()
        if not cont:
            start = (fname, line)
            cur = ''
        if t.endswith('&'):
            cur += t[:-1]
            cont = True
            continue
        cur += t if cont else s
        cont = False
        cur = lower_outside_strings(cur)
        # split on ';' outside strings
        part = ''
        q = None
        for ch in cur:
            if q:
                part += ch
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
                part += ch
            elif ch == ';':
                if part.strip():
                    out.append((start, part.strip()))
                part = ''
            else:
                part += ch
        if part.strip():
            out.append((start, part.strip()))
    return out


def tokenize(pos, s):
    toks = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ParseError('%s:%d: cannot tokenise %r' % (pos[0], pos[1], s[i:i + 20]))
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        toks.append(Tok(k, m.group(), pos))
    return toks


# ----------------------------------------------------------------- expressions
class Ex:
    def __init__(self, toks, pos):
        self.t = toks
        self.i = 0
        self.pos = pos

    def peek(self, o=0):
        j = self.i + o
        return self.t[j].v if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j].k if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i].v == v and self.t[self.i].k != 'str':
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise ParseError('%s:%d: expected %r at %s' % (self.pos[0], self.pos[1], v, ' '.join(t.v for t in self.t[self.i:self.i + 6])))

    def end(self):
        return self.i >= len(self.t)

    # precedence climbing, lowest first
    def expr(self):
        a = self.eqv()
        while self.kind() == 'dot' and self.peek() not in DOTOPS:
            op = self.next().v
            b = self.eqv()
            a = N('bin', self.pos, op=op, a=a, b=b)
        return a

    def eqv(self):
        a = self.or_()
        while self.peek() in ('.eqv.', '.neqv.'):
            op = self.next().v
            a = N('bin', self.pos, op=op, a=a, b=self.or_())
        return a

    def or_(self):
        a = self.and_()
        while self.peek() == '.or.':
            self.next()
            a = N('bin', self.pos, op='.or.', a=a, b=self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.peek() == '.and.':
            self.next()
            a = N('bin', self.pos, op='.and.', a=a, b=self.not_())
        return a

    def not_(self):
        if self.peek() == '.not.':
            self.next()
            return N('un', self.pos, op='.not.', a=self.not_())
        return self.rel()

    def rel(self):
        a = self.concat()
        while self.peek() in RELOPS and self.kind() != 'str':
            op = RELOPS[self.next().v]
            a = N('bin', self.pos, op=op, a=a, b=self.concat())
        return a

    def concat(self):
        a = self.add()
        while self.peek() == '//':
            self.next()
            a = N('bin', self.pos, op='//', a=a, b=self.add())
        return a

    def add(self):
        if self.peek() in ('+', '-'):
            op = self.next().v
            a = N('un', self.pos, op=op, a=self.mul())
        else:
            a = self.mul()
        while self.peek() in ('+', '-') and self.kind() == 'op':
            op = self.next().v
            a = N('bin', self.pos, op=op, a=a, b=self.mul())
        return a

    def mul(self):
        a = self.pow()
        while self.peek() in ('*', '/') and self.kind() == 'op':
            op = self.next().v
            a = N('bin', self.pos, op=op, a=a, b=self.pow())
        return a

    def pow(self):
        a = self.unary_def()
        if self.peek() == '**':
            self.next()
            # right associative; allow signed exponent
            if self.peek() in ('+', '-'):
                op = self.next().v
                b = N('un', self.pos, op=op, a=self.pow())
            else:
                b = self.pow()
            return N('bin', self.pos, op='**', a=a, b=b)
        return a

    def unary_def(self):
        if self.kind() == 'dot' and self.peek() not in DOTOPS and self.peek() not in ('.true.', '.false.'):
            op = self.next().v
            return N('un', self.pos, op=op, a=self.primary())
        return self.primary()

    def primary(self):
        if self.end():
            raise ParseError('%s:%d: unexpected end of expression' % self.pos)
        t = self.t[self.i]
        if t.k == 'num':
            self.i += 1
            return parse_num(t)
        if t.k == 'str':
            self.i += 1
            return N('str', t.pos, v=t.v[1:-1])
        if t.k == 'dot' and t.v in ('.true.', '.false.'):
            self.i += 1
            return N('log', t.pos, v=(t.v == '.true.'))
        if t.v == '(':
            self.i += 1
            e = self.expr()
            if self.acc(','):
                b = self.expr()
                self.exp(')')
                return N('complex', t.pos, a=e, b=b)
            self.exp(')')
            return N('paren', t.pos, a=e)
        if t.v in ('[', '(/'):
            close = ']' if t.v == '[' else '/)'
            self.i += 1
            return self.arraycons(close, t.pos)
        if t.k == 'name':
            return self.designator()
        raise ParseError('%s:%d: unexpected token %r' % (self.pos[0], self.pos[1], t.v))

    def arraycons(self, close, pos):
        ts = None
        # optional type-spec ::
        depth = 0
        for j in range(self.i, len(self.t)):
            v = self.t[j].v
            if v in ('(', '[', '(/'):
                depth += 1
            elif v in (')', ']', '/)'):
                if depth == 0:
                    break
                depth -= 1
            elif v == '::' and depth == 0:
                ts = self.t[self.i:j]
                self.i = j + 1
                break
        items = []
        if not self.acc(close):
            while True:
                items.append(self.acitem())
                if self.acc(close):
                    break
                self.exp(',')
        return N('array', pos, items=items, ts=ts)

    def acitem(self):
        # implied do: ( expr, ..., i = a, b [, c] )
        if self.peek() == '(':
            save = self.i
            try:
                self.i += 1
                exprs = []
                while True:
                    if self.kind() == 'name' and self.peek(1) == '=':
                        var = self.next().v
                        self.exp('=')
                        lo = self.expr()
                        self.exp(',')
                        hi = self.expr()
                        st = self.expr() if self.acc(',') else None
                        self.exp(')')
                        if not exprs:
                            raise ParseError('no items')
                        return N('impdo', self.pos, items=exprs, var=var, lo=lo, hi=hi, st=st)
                    if (self.kind() == 'name' and self.kind(1) == 'op' and self.peek(1) == '::'):
                        raise ParseError('typed implied do')
                    exprs.append(self.acitem())
                    if not self.acc(','):
                        raise ParseError('not implied do')
            except ParseError:
                self.i = save
        return self.expr()

    def designator(self):
        t = self.next()
        e = N('name', t.pos, n=t.v)
        while True:
            if self.peek() == '(':
                self.i += 1
                e = N('call', t.pos, f=e, args=self.args(')'))
            elif self.peek() == '%':
                self.i += 1
                m = self.next()
                e = N('member', t.pos, b=e, n=m.v)
            else:
                return e

    def args(self, close):
        out = []
        if self.acc(close):
            return out
        while True:
            kw = None
            if self.kind() == 'name' and self.peek(1) == '=':
                kw = self.next().v
                self.i += 1
            out.append((kw, self.arg()))
            if self.acc(close):
                return out
            self.exp(',')

    def arg(self):
        pos = self.pos
        lo = hi = st = None
        if self.peek() in (':', '::'):
            pass
        else:
            if self.peek() == '*' and self.peek(1) in (',', ')'):
                self.next()
                return N('star', pos)
            lo = self.expr()
            if self.peek() not in (':', '::'):
                return lo
        if self.acc('::'):
            st = self.expr()
            return N('section', pos, lo=lo, hi=None, st=st)
        self.exp(':')
        if self.peek() == '*':
            self.next()
            return N('section', pos, lo=lo, hi=N('star', pos), st=None)
        if self.peek() not in (',', ')', ':', ']'):
            hi = self.expr()
        if self.acc(':'):
            st = self.expr()
        return N('section', pos, lo=lo, hi=hi, st=st)


RELOPS = {'==': '==', '/=': '/=', '<': '<', '>': '>', '<=': '<=', '>=': '>=',
          '.eq.': '==', '.ne.': '/=', '.lt.': '<', '.gt.': '>', '.le.': '<=', '.ge.': '>='}
DOTOPS = {'.and.', '.or.', '.not.', '.eqv.', '.neqv.', '.true.', '.false.'} | {k for k in RELOPS if k[0] == '.'}


def parse_num(t):
    s = t.v
    kind = None
    if '_' in s:
        s, kind = s.split('_', 1)
    if re.fullmatch(r'\d+', s):
        return N('int', t.pos, v=int(s), kind=kind)
    dbl = 'd' in s
    v = Fraction(s.replace('d', 'e'))
    return N('real', t.pos, v=v, kind=('d' if dbl else kind))


# ----------------------------------------------------------------- statements
TYPESPEC = re.compile(r'(integer|real|logical|character|complex|double\s*precision|type\s*\(|class\s*\(|procedure\s*\()')


class Parser:
    def __init__(self, lines, path):
        self.lines = lines
        self.i = 0
        self.path = path

    def cur(self):
        return self.lines[self.i] if self.i < len(self.lines) else (None, None)

    def adv(self):
        r = self.lines[self.i]
        self.i += 1
        return r

    def err(self, msg, pos):
        raise ParseError('%s:%s: %s' % (pos[0], pos[1], msg))

    # ---- file level
    def parse_file(self):
        units = []
        while self.i < len(self.lines):
            pos, s = self.cur()
            if re.match(r'module\s+(?!procedure\b)\w+$', s):
                units.append(self.module())
            elif re.match(r'submodule\b', s):
                units.append(self.module())
            elif re.match(r'program\b', s):
                units.append(self.proc(main=True))
            elif self.is_proc_header(s):
                units.append(self.proc())
            else:
                units.append(self.proc(main=True, implicit=True))
        return units

    def is_proc_header(self, s):
        return re.match(r'((pure|elemental|impure|recursive|non_recursive|module|integer|real|logical|character|complex|double\s*precision|type|class)\b\s*(\([^()]*(\([^()]*\))?[^()]*\))?\s*)*(function|subroutine)\s+\w+', s) and not re.match(r'\w+\s*=', s)

    def module(self):
        pos, s = self.adv()
        m = re.match(r'module\s+(\w+)', s) or re.match(r'submodule\s*\([^)]*\)\s*(\w+)', s)
        mod = N('module', pos, name=m.group(1), uses=[], decls=[], types={}, interfaces=[], procs=[],
                default_private=False, access={}, parent=None)
        mm = re.match(r'submodule\s*\(\s*(\w+)', s)
        if mm:
            mod.parent = mm.group(1)
            mod.uses.append(N('use', pos, mod=mm.group(1), only=None, renames={}))
        self.spec(mod)
        pos, s = self.cur()
        if s == 'contains':
            self.adv()
            while not re.match(r'end\s*(sub)?module\b|end$', self.cur()[1] or 'end'):
                mod.procs.append(self.proc())
        self.adv()
        return mod

    def spec(self, sc):
        """Specification part of a module or procedure, stops at the first other statement."""
        while self.i < len(self.lines):
            pos, s = self.cur()
            if re.match(r'use\b(?!\s*=|\s*\(|\s*%)', s):
                self.adv()
                sc.uses.append(self.use(pos, s))
            elif re.match(r'implicit\b', s) or re.match(r'(save)\s*$', s) or re.match(r'import\b', s):
                self.adv()
            elif re.match(r'(private|public)\b', s) and not re.match(r'\w+\s*[=%(]', s):
                self.adv()
                self.accstmt(sc, s)
            elif re.match(r'enum\s*,\s*bind', s):
                self.adv()
                last = -1
                while not re.match(r'end\s*enum\b', self.cur()[1]):
                    pos, s = self.adv()
                    m = re.match(r'enumerator\s*(?:::)?\s*(.*)', s)
                    for it in m.group(1).split(','):
                        a, _, v = it.partition('=')
                        last = int(v) if v.strip() else last + 1
                        sc.decls.append(N('decl', pos, name=a.strip(), ts=N('ts', pos, base='integer', kind=None), attrs={'parameter'}, dims=None,
                                          init=N('int', pos, v=last, kind=None), pinit=None, intent=None, extra={}))
                self.adv()
            elif re.match(r'type\s*(,|::|\s+\w)', s) and not re.match(r'type\s*\(', s) and not re.match(r'type\s+is\b', s) and not re.match(r'type\s*=', s):
                t = self.typedef()
                sc.types[t.name] = t
            elif re.match(r'(abstract\s+)?interface\b', s) and not re.match(r'interface\s*[=%(]', s):
                sc.interfaces.append(self.interface())
            elif TYPESPEC.match(s) and self.is_decl(s):
                self.adv()
                sc.decls += self.decl(pos, s)
            elif re.match(r'(dimension|parameter|external|intrinsic|save|target|pointer|allocatable|optional|intent|data|common|equivalence|value|volatile|contiguous|enum|enumerator)\b\s*(::|\(|\w)', s) and not re.match(r'\w+\s*(\([^=]*\))?\s*=', s) and not re.match(r'\w+\s*%', s):
                self.adv()
                m = re.match(r'(save|external|intrinsic|target|volatile|contiguous|pointer|allocatable|optional|value)\b\s*(?:::)?\s*(.*)', s)
                if m:
                    for nm in re.findall(r'\w+', m.group(2)):
                        for d in sc.decls:
                            if d.name == nm:
                                d.attrs.add(m.group(1))
                elif s.startswith('parameter'):
                    e = Ex(tokenize(pos, s), pos)
                    e.next()
                    for kw, v in e.args_named() if False else self.paramlist(e):
                        for d in sc.decls:
                            if d.name == kw:
                                d.attrs.add('parameter')
                                d.init = v
                else:
                    sc.decls.append(N('unsupported', pos, name='', text=s, attrs=set()))
            else:
                return

    def paramlist(self, e):
        e.exp('(')
        out = []
        while True:
            nm = e.next().v
            e.exp('=')
            out.append((nm, e.expr()))
            if e.acc(')'):
                return out
            e.exp(',')

    def is_decl(self, s):
        if '::' in s:
            return True
        if self.is_proc_header(s):
            return False
        if re.match(r'procedure\s*\(', s):
            return False
        if re.match(r'(type|class)\s*\(\s*\w+\s*\)\s*\w', s):
            return True
        m = re.match(r'(integer|real|logical|character|complex|double\s*precision)\s*(\*\s*\d+\s*)?(\((?:[^()]|\([^()]*\))*\))?\s*(\w+)', s)
        if not m:
            return False
        rest = s[m.end():].lstrip()
        if rest.startswith('=') and not m.group(3):
            # "real x = 1" is not legal; "integer = 3" has no group 4 split
            return False
        return True

    def use(self, pos, s):
        m = re.match(r'use\s*(?:,\s*(?:non_)?intrinsic\s*)?(?:::)?\s*(\w+)\s*(.*)', s)
        mod, rest = m.group(1), m.group(2).lstrip(',').strip()
        only = None
        ren = {}
        if rest.startswith('only'):
            only = []
            rest = rest.split(':', 1)[1]
        for it in split_top(rest):
            it = it.strip()
            if not it:
                continue
            if '=>' in it:
                a, b = [x.strip() for x in it.split('=>')]
                ren[norm_gen(a)] = norm_gen(b)
                if only is not None:
                    only.append(norm_gen(a))
            elif only is not None:
                only.append(norm_gen(it))
        return N('use', pos, mod=mod, only=only, renames=ren)

    def accstmt(self, sc, s):
        m = re.match(r'(private|public)\s*(?:::)?\s*(.*)', s)
        acc, rest = m.group(1), m.group(2)
        if not rest.strip():
            if hasattr(sc, 'default_private'):
                sc.default_private = (acc == 'private')
            return
        for it in split_top(rest):
            if hasattr(sc, 'access'):
                sc.access[norm_gen(it.strip())] = acc

    def typedef(self):
        pos, s = self.adv()
        m = re.match(r'type\s*(.*?)(?:::)?\s*(\w+)\s*(\([^)]*\))?$', s)
        attrs = m.group(1)
        ext = re.search(r'extends\s*\(\s*(\w+)\s*\)', attrs)
        t = N('type', pos, name=m.group(2), extends=ext.group(1) if ext else None, comps=[], bindings={}, generics={},
              finals=[], deferred=set(), abstract='abstract' in attrs, private='private' in attrs)
        inb = False
        while True:
            pos, s = self.adv()
            if re.match(r'end\s*type\b', s):
                return t
            if s == 'contains':
                inb = True
                continue
            if s in ('private', 'sequence', 'public'):
                continue
            if not inb:
                t.comps += self.decl(pos, s)
            else:
                m = re.match(r'generic\s*(?:,\s*\w+\s*)?::\s*(.+?)\s*=>\s*(.*)', s)
                if m:
                    t.generics.setdefault(norm_gen(m.group(1)), []).extend(x.strip() for x in m.group(2).split(','))
                    continue
                m = re.match(r'final\s*(?:::)?\s*(.*)', s)
                if m:
                    t.finals += [x.strip() for x in m.group(1).split(',')]
                    continue
                m = re.match(r'procedure\s*(\(\s*\w+\s*\))?\s*(,[^:]*)?(?:::)?\s*(.*)', s)
                if m:
                    at = (m.group(2) or '')
                    nopass = 'nopass' in at
                    pm = re.search(r'pass\s*\(\s*(\w+)\s*\)', at)
                    for it in m.group(3).split(','):
                        if '=>' in it:
                            a, b = [x.strip() for x in it.split('=>')]
                        else:
                            a = b = it.strip()
                        t.bindings[a] = N('binding', pos, name=a, target=b, nopass=nopass, passarg=pm.group(1) if pm else None,
                                          deferred='deferred' in at)
                    continue
                self.err('type-bound statement %r' % s, pos)

    def interface(self):
        pos, s = self.adv()
        ab = s.startswith('abstract')
        m = re.match(r'(?:abstract\s+)?interface\s*(.*)', s)
        name = norm_gen(m.group(1)) if m.group(1) else None
        it = N('interface', pos, name=name, abstract=ab, specifics=[], bodies=[])
        while True:
            pos, s = self.cur()
            if re.match(r'end\s*interface\b', s):
                self.adv()
                return it
            m = re.match(r'(?:module\s+)?procedure\s*(?:::)?\s*(.*)', s)
            if m and not self.is_proc_header(s):
                self.adv()
                it.specifics += [x.strip() for x in m.group(1).split(',') if x.strip()]
                continue
            p = self.proc(iface=True)
            it.bodies.append(p)
            it.specifics.append(p.name)

    # ---- declarations
    def decl(self, pos, s):
        e = Ex(tokenize(pos, s), pos)
        ts = self.typespec(e)
        attrs = set()
        dims = None
        intent = None
        extra = {}
        while e.acc(','):
            a = e.next().v
            if a == 'dimension':
                e.exp('(')
                dims = e.args(')')
            elif a == 'intent':
                e.exp('(')
                intent = ''
                while not e.acc(')'):
                    intent += e.next().v
            elif a in ('pass', 'bind', 'codimension'):
                if e.acc('('):
                    extra[a] = [t for t in iter(lambda: e.next().v, ')')]
                attrs.add(a)
            else:
                attrs.add(a)
        e.acc('::')
        out = []
        while not e.end():
            nm = e.next().v
            d = dims
            init = None
            pinit = None
            if e.acc('('):
                d = e.args(')')
            if e.acc('*'):
                if e.acc('('):
                    e.args(')')
                else:
                    e.next()
            if e.acc('=>'):
                pinit = e.expr()
            elif e.acc('='):
                init = e.expr()
            elif e.peek() == '/':
                self.err('old-style initialiser', pos)
            out.append(N('decl', pos, name=nm, ts=ts, attrs=set(attrs), dims=d, init=init, pinit=pinit, intent=intent, extra=extra))
            if not e.acc(','):
                break
        if not e.end():
            self.err('cannot parse declaration %r' % s, pos)
        return out

    def typespec(self, e):
        t = e.next().v
        pos = e.pos
        if t == 'double':
            e.acc('precision')
            return N('ts', pos, base='real', kind=N('int', pos, v=8, kind=None))
        if t == 'doubleprecision':
            return N('ts', pos, base='real', kind=N('int', pos, v=8, kind=None))
        if t in ('type', 'class'):
            e.exp('(')
            if e.acc('*'):
                nm = '*'
            else:
                nm = e.next().v
                if nm in ('integer', 'real', 'logical', 'character'):
                    k = None
                    if e.acc('('):
                        if e.kind() == 'name' and e.peek() == 'kind' and e.peek(1) == '=':
                            e.next(); e.next()
                        k = e.expr()
                        e.exp(')')
                    e.exp(')')
                    return N('ts', pos, base=nm, kind=k)
                if e.acc('('):
                    e.args(')')
            e.exp(')')
            return N('ts', pos, base=t, name=nm, kind=None)
        if t == 'procedure':
            nm = None
            e.exp('(')
            if not e.acc(')'):
                nm = e.next().v
                e.exp(')')
            return N('ts', pos, base='procedure', name=nm, kind=None)
        kind = None
        if e.acc('*'):
            kind = N('int', pos, v=int(e.next().v), kind=None)
        elif e.peek() == '(':
            e.next()
            if t == 'character':
                depth = 1
                while depth:
                    v = e.next().v
                    depth += (v == '(') - (v == ')')
            else:
                if e.peek() == 'kind' and e.peek(1) == '=':
                    e.next(); e.next()
                kind = e.expr()
                e.exp(')')
        return N('ts', pos, base=t, kind=kind)

    # ---- procedures
    def proc(self, main=False, iface=False, implicit=False):
        pos, s = self.cur()
        p = N('proc', pos, name='?', args=[], result=None, prefix=set(), uses=[], decls=[], types={}, interfaces=[], body=[],
              procs=[], isfunc=False, iface=iface, bind=None, ts=None, access={}, modproc=False)
        if main:
            if not implicit:
                self.adv()
                p.name = s.split()[1]
            else:
                p.name = '_main'
        else:
            self.adv()
            if re.match(r'module\s+procedure\s+\w+$', s):
                p.name = s.split()[2]
                p.modproc = True
            else:
                m = re.match(r'(.*?)\b(function|subroutine)\s+(\w+)\s*(?:\(([^)]*)\))?\s*(.*)$', s)
                if not m:
                    self.err('expected a procedure, got %r' % s, pos)
                pre, kind, p.name, args, tail = m.groups()
                p.isfunc = kind == 'function'
                p.args = [a.strip() for a in (args or '').split(',') if a.strip()]
                mt = TYPESPEC.search(pre)
                if mt:
                    e = Ex(tokenize(pos, pre[mt.start():]), pos)
                    p.ts = self.typespec(e)
                    rest = ' '.join(t.v for t in e.t[e.i:])
                    pre = pre[:mt.start()] + ' ' + rest
                p.prefix = set(pre.split())
                mr = re.search(r'result\s*\(\s*(\w+)\s*\)', tail)
                if p.isfunc:
                    p.result = mr.group(1) if mr else p.name
                mb = re.search(r'bind\s*\((.*)\)', tail)
                if mb:
                    p.bind = mb.group(1)
        self.spec(p)
        p.body = self.block(lambda s: re.match(r'end\s*(function|subroutine|program|procedure)?(\s+\w+)?$', s) or s == 'contains')
        pos, s = self.adv()
        if s == 'contains':
            while not re.match(r'end\s*(function|subroutine|program|procedure)?(\s+\w+)?$', self.cur()[1]):
                p.procs.append(self.proc())
            pos, s = self.adv()
        p.endpos = pos
        if p.isfunc and p.ts is not None and not any(d.name == p.result for d in p.decls):
            p.decls.append(N('decl', p.pos, name=p.result, ts=p.ts, attrs=set(), dims=None, init=None, pinit=None, intent=None, extra={}))
        return p

    # ---- executable statements
    def block(self, stop):
        out = []
        while True:
            if self.i >= len(self.lines):
                self.err('unexpected end of file', self.lines[-1][0])
            pos, s = self.cur()
            if stop(s):
                return out
            st = self.stmt()
            if st is not None:
                out.append(st)

    def stmt(self):
        pos, s = self.adv()
        label = None
        m = re.match(r'(\d+)\s+(.*)', s)
        if m:
            label, s = m.group(1), m.group(2)
        st = self.stmt1(pos, s)
        if st is not None:
            st.label = label
        elif label:
            st = N('continue', pos, label=label)
        return st

    def stmt1(self, pos, s):
        cname = None
        m = re.match(r'(\w+)\s*:(?!:)\s*(.*)', s)
        if m and re.match(r'(do|if|select|block|associate|where|forall|critical)\b', m.group(2)):
            cname, s = m.group(1), m.group(2)
        w = re.match(r'[a-z_]\w*', s)
        w = w.group() if w else ''
        # assignment test first: keywords are not reserved
        kind = self.assign_kind(s)
        if kind:
            return self.assignment(pos, s, kind)
        if w == 'if':
            return self.ifstmt(pos, s, cname)
        if w in ('do', 'doconcurrent', 'dowhile'):
            return self.dostmt(pos, s, cname)
        if w in ('select', 'selectcase', 'selecttype'):
            return self.selectstmt(pos, s, cname)
        if w == 'associate':
            e = Ex(tokenize(pos, s), pos)
            e.next()
            e.exp('(')
            assoc = []
            while True:
                nm = e.next().v
                e.exp('=>')
                assoc.append((nm, e.expr()))
                if e.acc(')'):
                    break
                e.exp(',')
            body = self.block(lambda t: re.match(r'end\s*associate\b', t))
            self.adv()
            return N('associate', pos, assoc=assoc, body=body)
        if w == 'block':
            b = N('blockc', pos, uses=[], decls=[], types={}, interfaces=[], name=cname)
            self.spec(b)
            b.body = self.block(lambda t: re.match(r'end\s*block\b', t))
            self.adv()
            return b
        if w == 'where' or w == 'forall':
            return self.whereforall(pos, s, w)
        if w == 'call':
            e = Ex(tokenize(pos, s), pos)
            e.next()
            d = e.designator()
            if not e.end():
                self.err('cannot parse %r' % s, pos)
            if d.k != 'call':
                d = N('call', pos, f=d, args=[])
            return N('callstmt', pos, call=d)
        if w in ('return', 'exit', 'cycle', 'continue'):
            nm = s[len(w):].strip() or None
            return N(w, pos, name=nm)
        if w == 'stop' or re.match(r'error\s*stop', s):
            return N('stop', pos, error=(w != 'stop'), text=s)
        if w in ('goto', 'go'):
            m = re.match(r'go\s*to\s*(\d+)$', s)
            if not m:
                self.err('computed goto', pos)
            return N('goto', pos, target=m.group(1))
        if w in ('allocate', 'deallocate'):
            e = Ex(tokenize(pos, s), pos)
            e.next()
            e.exp('(')
            # optional typespec ::
            for j in range(e.i, len(e.t)):
                if e.t[j].v == '::':
                    e.i = j + 1
                    break
            return N(w, pos, args=e.args(')'))
        if w == 'nullify':
            e = Ex(tokenize(pos, s), pos)
            e.next()
            e.exp('(')
            return N('nullify', pos, args=e.args(')'))
        if w in ('print', 'write', 'read', 'open', 'close', 'flush', 'format', 'rewind', 'inquire', 'backspace'):
            return N('io', pos, what=w, text=s)
        if w in ('entry', 'data', 'namelist', 'sync', 'critical', 'change', 'pause', 'assign'):
            self.err('unsupported statement %r' % s, pos)
        if re.match(r'end\s*$', s):
            self.err('stray end', pos)
        self.err('cannot parse statement %r' % s, pos)

    def assign_kind(self, s):
        """'=' or '=>' if s is an assignment at paren depth 0 with a designator left side."""
        depth = 0
        q = None
        i = 0
        while i < len(s):
            ch = s[i]
            if q:
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
            elif ch in '([':
                depth += 1
            elif ch in ')]':
                depth -= 1
            elif ch == '=' and depth == 0:
                if s[i + 1:i + 2] == '=':
                    return None
                if s[i - 1:i] in ('/', '<', '>'):
                    return None
                left = s[:i].strip()
                kind = '=>' if s[i + 1:i + 2] == '>' else '='
                if re.fullmatch(r'[a-z_]\w*(\s*%\s*\w+|\s*\((?:[^()\'"]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*\))*', left) or self.balanced_designator(left):
                    # "do i = 1, n" and "if (c) x = y" must not match
                    if re.match(r'do\s+\w+$', left) or re.match(r'(if|where|forall)\s*\(.*\)\s*[a-z_]', left):
                        return None
                    return kind
                return None
            i += 1
        return None

    def balanced_designator(self, left):
        try:
            e = Ex(tokenize(('', 0), left), ('', 0))
            if e.kind() != 'name':
                return False
            e.designator()
            return e.end()
        except (ParseError, IndexError):
            return False

    def assignment(self, pos, s, kind):
        e = Ex(tokenize(pos, s), pos)
        l = e.designator()
        e.exp(kind)
        r = e.expr()
        if not e.end():
            self.err('cannot parse %r' % s, pos)
        return N('assign' if kind == '=' else 'ptrassign', pos, l=l, r=r)

    def ifstmt(self, pos, s, cname):
        e = Ex(tokenize(pos, s), pos)
        e.next()
        e.exp('(')
        c = e.expr()
        e.exp(')')
        if e.peek() == 'then' and e.i == len(e.t) - 1:
            arms = []
            els = None
            stop = lambda t: re.match(r'else\b|elseif\b|end\s*if\b', t)
            body = self.block(stop)
            arms.append((c, body, pos))
            while True:
                p2, t = self.adv()
                if re.match(r'end\s*if\b', t):
                    break
                m = re.match(r'else\s*if\s*(.*)', t)
                if m:
                    e = Ex(tokenize(p2, m.group(1)), p2)
                    e.exp('(')
                    c = e.expr()
                    e.exp(')')
                    arms.append((c, self.block(stop), p2))
                else:
                    els = self.block(stop)
            return N('if', pos, arms=arms, els=els, name=cname)
        # one-line if: re-split text after the closing paren
        depth = 0
        q = None
        k = s.index('(')
        for i in range(k, len(s)):
            ch = s[i]
            if q:
                if ch == q:
                    q = None
            elif ch in '\'"':
                q = ch
            elif ch == '(':
                depth += 1
            elif ch == ')':
                depth -= 1
                if depth == 0:
                    break
        rest = s[i + 1:].strip()
        st = self.stmt1(pos, rest)
        st.label = None
        return N('if', pos, arms=[(c, [st], pos)], els=None, name=None)

    def dostmt(self, pos, s, cname):
        e = Ex(tokenize(pos, s), pos)
        first = e.next().v
        lab = None
        if e.kind() == 'num' and re.fullmatch(r'\d+', e.peek()):
            lab = e.next().v
        e.acc(',')
        if lab:
            stop = lambda t: re.match(lab + r'\b', t)
        else:
            stop = lambda t: re.match(r'end\s*do\b', t)

        def body():
            b = self.block(stop)
            p2, t = self.adv()
            if lab:
                m = re.match(r'\d+\s+(.*)', t)
                if not re.match(r'continue|end\s*do', m.group(1)):
                    st = self.stmt1(p2, m.group(1))
                    b.append(st)
            return b
        if e.end():
            return N('doinf', pos, body=body(), name=cname)
        if (e.peek() == 'while' and e.peek(1) == '(') or first == 'dowhile':
            if first == 'do':
                e.next()
            e.exp('(')
            c = e.expr()
            e.exp(')')
            return N('dowhile', pos, cond=c, body=body(), name=cname)
        if e.peek() == 'concurrent' or first == 'doconcurrent':
            if first == 'do':
                e.next()
            idx, mask = self.foralltriplets(e)
            return N('doconcurrent', pos, idx=idx, mask=mask, body=body(), name=cname)
        var = e.designator()
        e.exp('=')
        lo = e.expr()
        e.exp(',')
        hi = e.expr()
        st = e.expr() if e.acc(',') else None
        if not e.end():
            self.err('cannot parse %r' % s, pos)
        return N('do', pos, var=var, lo=lo, hi=hi, st=st, body=body(), name=cname)

    def foralltriplets(self, e):
        e.exp('(')
        # optional typespec
        for j in range(e.i, len(e.t)):
            if e.t[j].v == '::':
                e.i = j + 1
                break
        idx = []
        mask = None
        while True:
            if e.kind() == 'name' and e.peek(1) == '=':
                nm = e.next().v
                e.exp('=')
                lo = e.expr()
                e.exp(':')
                hi = e.expr()
                st = e.expr() if e.acc(':') else None
                idx.append((nm, lo, hi, st))
            else:
                mask = e.expr()
            if e.acc(')'):
                break
            e.exp(',')
        while not e.end() and e.peek() in ('local', 'shared', 'default', 'local_init', 'reduce'):
            e.next()
            e.exp('(')
            while not e.acc(')'):
                e.next()
        return idx, mask

    def whereforall(self, pos, s, w):
        e = Ex(tokenize(pos, s), pos)
        e.next()
        if w == 'where':
            e.exp('(')
            c = e.expr()
            e.exp(')')
            if e.end():
                arms = []
                els = None
                stop = lambda t: re.match(r'else\s*where\b|end\s*where\b', t)
                arms.append((c, self.block(stop)))
                while True:
                    p2, t = self.adv()
                    if re.match(r'end\s*where\b', t):
                        break
                    m = re.match(r'else\s*where\s*(\(.*\))', t)
                    if m:
                        arms.append((Ex(tokenize(p2, m.group(1)), p2).expr(), self.block(stop)))
                    else:
                        els = self.block(stop)
                return N('where', pos, arms=arms, els=els)
            l = e.designator()
            e.exp('=')
            r = e.expr()
            return N('where', pos, arms=[(c, [N('assign', pos, l=l, r=r, label=None)])], els=None)
        idx, mask = self.foralltriplets(e)
        if e.end():
            b = self.block(lambda t: re.match(r'end\s*forall\b', t))
            self.adv()
            return N('doconcurrent', pos, idx=idx, mask=mask, body=b, name=None)
        l = e.designator()
        e.exp('=')
        r = e.expr()
        return N('doconcurrent', pos, idx=idx, mask=mask, body=[N('assign', pos, l=l, r=r, label=None)], name=None)

    def selectstmt(self, pos, s, cname):
        m = re.match(r'select\s*(case|type)\s*(.*)', s)
        e = Ex(tokenize(pos, m.group(2)), pos)
        e.exp('(')
        if m.group(1) == 'case':
            sel = e.expr()
            e.exp(')')
            arms = []
            default = None
            stop = lambda t: re.match(r'case\b\s*(\(|default)', t) or re.match(r'end\s*select\b', t)
            pre = self.block(stop)
            while True:
                p2, t = self.adv()
                if re.match(r'end\s*select\b', t):
                    break
                if re.match(r'case\s+default', t) or t.replace(' ', '') == 'casedefault':
                    default = self.block(stop)
                    continue
                ee = Ex(tokenize(p2, t), p2)
                ee.next()
                ee.exp('(')
                vals = [a for _, a in ee.args(')')]
                arms.append((vals, self.block(stop), p2))
            return N('selcase', pos, sel=sel, arms=arms, default=default, name=cname)
        nm = None
        if e.kind() == 'name' and e.peek(1) == '=>':
            nm = e.next().v
            e.next()
        sel = e.expr()
        e.exp(')')
        arms = []
        default = None
        stop = lambda t: re.match(r'(type\s*is|class\s*is|class\s*default)\b', t) or re.match(r'end\s*select\b', t)
        self.block(stop)
        while True:
            p2, t = self.adv()
            if re.match(r'end\s*select\b', t):
                break
            if re.match(r'class\s*default', t):
                default = self.block(stop)
                continue
            m = re.match(r'(type|class)\s*is\s*\(\s*(\w+).*\)', t)
            arms.append((m.group(1), m.group(2), self.block(stop), p2))
        return N('seltype', pos, sel=sel, nm=nm, arms=arms, default=default, name=cname)


def norm_gen(s):
    s = s.strip().lower()
    m = re.match(r'operator\s*\(\s*(\S+?)\s*\)$', s)
    if m:
        op = RELOPS.get(m.group(1), m.group(1))
        return 'operator(%s)' % op
    if re.match(r'assignment\s*\(\s*=\s*\)$', s):
        return 'assignment(=)'
    return s


def split_top(s):
    out = []
    d = 0
    cur = ''
    for ch in s:
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def parse_source(text, path):
    lines = logical_lines(text, path)
    return Parser(lines, path).parse_file()


def parse_path(path, defines=(), inc=()):
    return parse_source(preprocess(path, defines, inc=inc), path)
