"""Whole-program symbol tables: modules, use association, generics, type-bound procedures."""
import glob, os
from .parse import parse_path, parse_source, norm_gen, ParseError, N


class Proc:
    def __init__(self, ast, module, host=None):
        self.ast = ast
        self.module = module
        self.host = host
        self.name = ast.name
        self.key = (host.key + '/' if host else module.name + '::') + ast.name
        self.decls = {}
        for d in ast.decls:
            self.decls.setdefault(d.name, d)
        # procedure dummies described by interface bodies
        self.ifaces = {}
        for it in ast.interfaces:
            for b in it.bodies:
                self.ifaces[b.name] = b
        self.procs = {p.name: Proc(p, module, self) for p in ast.procs}
        self.elemental = 'elemental' in ast.prefix
        self.pure = 'pure' in ast.prefix or (self.elemental and 'impure' not in ast.prefix)
        self.isfunc = ast.isfunc
        self.args = ast.args
        self.result = ast.result

    def __repr__(self):
        return 'Proc(%s)' % self.key

    @property
    def where(self):
        return '%s:%d' % (self.ast.pos[0], self.ast.pos[1])


class Ent:
    """What a name means in a scope."""
    __slots__ = ('proc', 'var', 'typ', 'gens', 'absint')

    def __init__(self):
        self.proc = None
        self.var = None       # (Module, decl)
        self.typ = None       # (Module, typedef)
        self.gens = []
        self.absint = None

    def merge(self, o):
        self.proc = self.proc or o.proc
        self.var = self.var or o.var
        self.typ = self.typ or o.typ
        self.absint = self.absint or o.absint
        for g in o.gens:
            if g not in self.gens:
                self.gens.append(g)

    def __bool__(self):
        return bool(self.proc or self.var or self.typ or self.gens or self.absint)


class Module:
    def __init__(self, ast, prog):
        self.ast = ast
        self.prog = prog
        self.name = ast.name
        self.uses = ast.uses
        self.vars = {d.name: d for d in ast.decls if d.name}
        self.types = ast.types
        self.procs = {}
        for p in ast.procs:
            self.procs[p.name] = Proc(p, self)
        self.absints = {}
        self.gens = {}
        for it in ast.interfaces:
            for b in it.bodies:
                self.absints[b.name] = b
            if it.name and not it.abstract:
                self.gens.setdefault(it.name, []).extend(it.specifics)
        self._cache = {}

    def public(self, name):
        a = self.ast.access.get(name)
        if a:
            return a == 'public'
        d = self.vars.get(name)
        if d is not None:
            if 'public' in d.attrs:
                return True
            if 'private' in d.attrs:
                return False
        t = self.types.get(name)
        if t is not None and getattr(t, 'private', False):
            return False
        return not self.ast.default_private

    def own(self, name):
        e = Ent()
        if name in self.procs:
            e.proc = self.procs[name]
        if name in self.vars:
            e.var = (self, self.vars[name])
        if name in self.types:
            e.typ = (self, self.types[name])
        if name in self.absints and name not in self.procs:
            e.absint = self.absints[name]
        for s in self.gens.get(name, ()):
            p = self.lookup(s)
            if p and p.proc:
                e.gens.append(p.proc)
        return e

    def lookup(self, name):
        if name in self._cache:
            return self._cache[name]
        self._cache[name] = Ent()      # cycle guard
        e = self.own(name)
        for u in self.uses:
            e.merge(self.prog.via_use(u, name))
        self._cache[name] = e
        return e

    def export(self, name):
        if not self.public(name):
            return Ent()
        return self.lookup(name)

    def exported_names(self):
        """All names visible to a module that uses this one."""
        names = set(self.procs) | set(self.vars) | set(self.types) | set(self.gens)
        for u in self.uses:
            m = self.prog.modules.get(u.mod)
            if m is None:
                continue
            if u.only is not None:
                names |= set(u.only)
            else:
                inner = m.exported_names()
                ren = {b: a for a, b in u.renames.items()}
                names |= {ren.get(x, x) for x in inner}
        return {n for n in names if self.public(n)}


class Program:
    def __init__(self):
        self.modules = {}
        self.mains = []
        self.files = []
        self.errors = []
        self.nlines = 0

    def add_units(self, units):
        for u in units:
            if u.k == 'module':
                m = Module(u, self)
                if u.parent:
                    # submodule: procedures implement the parent's interfaces
                    par = self.modules.get(u.parent)
                    self.modules[u.name] = m
                    if par:
                        for n, p in m.procs.items():
                            par.procs.setdefault(n, p)
                else:
                    self.modules[u.name] = m
            else:
                self.mains.append(u)

    def load(self, paths, defines=()):
        for p in paths:
            self.files.append(p)
            try:
                self.add_units(parse_path(p, defines))
            except (ParseError, IndexError, AttributeError) as e:
                self.errors.append((p, str(e)))

    def load_text(self, text, name):
        self.add_units(parse_source(text, name))

    def via_use(self, u, name):
        m = self.modules.get(u.mod)
        if m is None:
            return Ent()
        if u.only is not None:
            if name not in u.only:
                return Ent()
            return m.export(u.renames.get(name, name))
        if name in u.renames:
            return m.export(u.renames[name])
        if name in u.renames.values():
            return Ent()
        return m.export(name)

    def find_type(self, name):
        for m in self.modules.values():
            if name in m.types:
                return m, m.types[name]
        return None

    def binding(self, tname, name):
        """Resolve a type-bound name; returns ('proc', Proc, binding) or ('generic', [..]) or None."""
        seen = set()
        order = []
        while tname and tname not in seen:
            seen.add(tname)
            mt = self.find_type(tname)
            if not mt:
                break
            order.append(mt)
            tname = mt[1].extends
        gens = []
        for m, t in order:
            b = t.bindings.get(name)
            if b is not None:
                p = m.lookup(b.target).proc
                if p is not None and not gens:
                    return ('proc', p, b)
                if b.deferred:
                    return ('deferred', None, b)
            for s in t.generics.get(name, ()):
                r = None
                # a specific may be overridden in an extension
                for m2, t2 in order:
                    bb = t2.bindings.get(s)
                    if bb is not None and not bb.deferred:
                        p = m2.lookup(bb.target).proc
                        if p is not None:
                            r = (p, bb)
                            break
                if r and r not in gens:
                    gens.append(r)
        if gens:
            return ('generic', gens, None)
        return None

    def extends(self, tname, base):
        seen = set()
        while tname and tname not in seen:
            if tname == base:
                return True
            seen.add(tname)
            mt = self.find_type(tname)
            tname = mt[1].extends if mt else None
        return False

    def components(self, tname):
        mt = self.find_type(tname)
        if not mt:
            return None
        m, t = mt
        out = []
        if t.extends:
            out += self.components(t.extends) or []
        out += [(m, d) for d in t.comps]
        return out


def repo_sources(repo):
    return sorted(glob.glob(os.path.join(repo, 'src', '**', '*.F90'), recursive=True) +
                  glob.glob(os.path.join(repo, 'src', '**', '*.f90'), recursive=True))
