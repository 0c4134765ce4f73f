"""E2: name resolution, data flow and effects over the syntax trees of the whole package (Python and lowered Cython)."""
import ast
import builtins
import os

from .absint import load_tree

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'intvalpy'
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Fn:
    """a function, method, lambda, comprehension or module body"""

    def __init__(self, node, mod, qual, cls=None, parent=None, kind='function'):
        self.node, self.mod, self.qual, self.cls, self.parent, self.kind = node, mod, qual, cls, parent, kind
        self.children = []
        self.params = []            # names in order (without * and **)
        self.defaults = {}          # name -> default node
        self.kwonly = []
        self.vararg = self.kwarg = None
        self.bound = set()
        self.globals, self.nonlocals = set(), set()
        self.decor = []

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]

    def __repr__(self):
        return '%s:%s' % (self.mod.name, self.qual)

    @property
    def body(self):
        if self.kind == 'lambda':
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    def static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in self.decor)

    def has_self(self):
        return self.cls is not None and self.parent is self.cls.fn and not self.static()


class Cl:
    def __init__(self, node, mod, fn):
        self.node, self.mod, self.fn = node, mod, fn     # fn: pseudo function for the class body
        self.methods = {}
        self.attrs = set()
        self.self_attrs = set()
        self.bases = []
        self.open = False           # has a base outside the package or dynamic attributes


class Mod:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.is_pkg = path.endswith('__init__.py')
        self.is_cy = path.endswith('.pyx')
        self.ns = {}
        self.fn = None
        self.stars = []


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.fns = []
        self.classes = []
        for root, ds, fs in sorted(os.walk(os.path.join(self.repo, PKG))):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(('.py', '.pyx')):
                    continue
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.repo)
                name = rel.rsplit('.', 1)[0].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                self.mods[name] = Mod(name, p, load_tree(p))
        for m in self.mods.values():
            self.collect(m)
        for m in self.mods.values():
            self.imports(m)
        for c in self.classes:
            for b in c.node.bases:
                t = self.resolve_expr(b, c.fn.parent)
                if t and t[0] == 'class':
                    c.bases.append(t[1])
                elif not (isinstance(b, ast.Name) and b.id == 'object'):
                    c.open = True
            if any(k in c.methods for k in ('__getattr__', '__getattribute__')):
                c.open = True

    # ------------------------------------------------------------ scopes
    def collect(self, m):
        fn = Fn(m.tree, m, '<module>', kind='module')
        m.fn = fn
        self.fns.append(fn)
        self.scope(fn, m.tree.body)

    def newfn(self, node, parent, kind, name, cls=None):
        q = name if parent.kind == 'module' else parent.qual + '.' + name
        f = Fn(node, parent.mod, q, cls, parent, kind)
        parent.children.append(f)
        self.fns.append(f)
        return f

    def args(self, f, a):
        ps = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        f.params = ps
        for n, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            f.defaults[n] = d
        f.kwonly = [x.arg for x in a.kwonlyargs]
        for n, d in zip(f.kwonly, a.kw_defaults):
            if d is not None:
                f.defaults[n] = d
        f.vararg = a.vararg.arg if a.vararg else None
        f.kwarg = a.kwarg.arg if a.kwarg else None
        f.bound |= set(ps) | set(f.kwonly) | {x for x in (f.vararg, f.kwarg) if x}

    def scope(self, f, body):
        for st in body:
            self.visit(st, f)

    def visit(self, n, f):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            f.bound.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, f)
            cls = f.owner if f.kind == 'class' else None
            g = self.newfn(n, f, 'function', n.name, cls)
            g.decor = n.decorator_list
            n._fn = g
            if cls is not None:
                # several defs of one name: property setters and the like
                cls.methods.setdefault(n.name, g)
                cls.attrs.add(n.name)
            self.args(g, n.args)
            self.scope(g, n.body)
            return
        if isinstance(n, ast.Lambda):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.visit(d, f)
            g = self.newfn(n, f, 'lambda', '<lambda>')
            n._fn = g
            self.args(g, n.args)
            self.visit(n.body, g)
            return
        if isinstance(n, COMPS):
            self.visit(n.generators[0].iter, f)
            g = self.newfn(n, f, 'comp', '<comp>')
            n._fn = g
            for i, c in enumerate(n.generators):
                self.visit(c.target, g)
                if i:
                    self.visit(c.iter, g)
                for t in c.ifs:
                    self.visit(t, g)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(x, g)
            return
        if isinstance(n, ast.ClassDef):
            f.bound.add(n.name)
            for d in n.bases + n.decorator_list:
                self.visit(d, f)
            g = self.newfn(n, f, 'class', n.name)
            c = Cl(n, f.mod, g)
            g.owner = c
            n._cl = c
            self.classes.append(c)
            self.scope(g, n.body)
            for st in n.body:
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []):
                    if isinstance(t, ast.Name):
                        c.attrs.add(t.id)
            for x in getattr(n, 'cdef_attrs', ()):
                c.attrs.add(x)
            return
        if isinstance(n, ast.Global):
            f.globals |= set(n.names)
            f.mod.fn.bound |= set(n.names)
            return
        if isinstance(n, ast.Nonlocal):
            f.nonlocals |= set(n.names)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in f.globals and n.id not in f.nonlocals:
                f.bound.add(n.id)
            n._scope = f
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            f.bound.add(n.name)
        if isinstance(n, ast.NamedExpr):
            g = f
            while g.kind == 'comp':
                g = g.parent
            g.bound.add(n.target.id)
            n.target._scope = g
            self.visit(n.value, f)
            return
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            n._scope = f
            for al in n.names:
                if al.name != '*':
                    f.bound.add(al.asname or al.name.split('.')[0])
        if isinstance(n, (ast.Attribute, ast.Call)):
            n._scope = f
        if isinstance(n, ast.AnnAssign):
            # annotations are not evaluated inside functions, and carry C types in the lowered Cython code
            self.visit(n.target, f)
            if n.value is not None:
                self.visit(n.value, f)
            return
        for c in ast.iter_child_nodes(n):
            self.visit(c, f)

    # ------------------------------------------------------------ modules and names
    def absname(self, m, st):
        base = st.module or ''
        if st.level:
            pk = m.name.split('.')
            if not m.is_pkg:
                pk = pk[:-1]
            pk = pk[:len(pk) - (st.level - 1)]
            base = '.'.join(pk + ([st.module] if st.module else []))
        return base

    def imports(self, m):
        """bindings of the module scope: name -> entity"""
        for st in self.walk_scope(m.fn):
            for nm, ent in self.bindings(st, m):
                m.ns[nm] = ent

    def bindings(self, st, m):
        out = []
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            out.append((st.name, ('func', st._fn)))
        elif isinstance(st, ast.ClassDef):
            out.append((st.name, ('class', st._cl)))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out.append((x.id, ('var', st.value if x is t else None)))
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            out.append((st.target.id, ('var', st.value)))
        elif isinstance(st, ast.Import):
            for al in st.names:
                if al.asname:
                    out.append((al.asname, ('mod', al.name)))
                else:
                    out.append((al.name.split('.')[0], ('mod', al.name.split('.')[0])))
        elif isinstance(st, ast.ImportFrom):
            base = self.absname(m, st)
            for al in st.names:
                if al.name == '*':
                    m.stars.append(base)
                else:
                    out.append((al.asname or al.name, ('from', base, al.name)))
        return out

    def walk_scope(self, f):
        """statements of a scope, nested blocks included, nested scopes excluded"""
        stack = list(reversed(f.body if f.kind in ('function', 'module', 'class', 'lambda') else []))
        while stack:
            st = stack.pop()
            yield st
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            for fld in ('finalbody', 'orelse', 'handlers', 'body'):
                xs = getattr(st, fld, None)
                if isinstance(xs, list):
                    stack.extend(reversed(xs))

    def member(self, modname, name, seen=()):
        """entity bound to a name of a module; None when the module has no such name; ('?',) when unknown"""
        if modname.split('.')[0] != PKG:
            return ('ext', modname + '.' + name)
        m = self.mods.get(modname)
        if m is None or (modname, name) in seen:
            return None
        if name in m.ns:
            return self.follow(m.ns[name], seen + ((modname, name),))
        if modname + '.' + name in self.mods:
            return ('mod', modname + '.' + name)
        for b in m.stars:
            r = self.member(b, name, seen + ((modname, name),)) if not name.startswith('_') else None
            if r is not None and (b.split('.')[0] == PKG):
                return r
        if name in m.fn.bound:
            return ('var', None)
        return None

    def follow(self, ent, seen=()):
        if ent[0] == 'from':
            return self.member(ent[1], ent[2], seen)
        if ent[0] == 'mod' and ent[1].split('.')[0] == PKG and ent[1] not in self.mods:
            return None
        return ent

    def lookup(self, name, f):
        """(scope kind, entity): where a name read in scope f is bound"""
        g, first = f, True
        while g is not None:
            if g.kind == 'module':
                break
            if g.kind != 'class' or first:
                if name in g.globals:
                    break
                if name in g.bound and name not in g.nonlocals:
                    return ('local' if g is f else 'free', g)
            g, first = g.parent, False
        m = f.mod
        e = self.member(m.name, name)
        if e is not None:
            return ('global', e)
        if hasattr(builtins, name) or name in ('__file__', '__name__', '__doc__'):
            return ('builtin', name)
        if m.is_cy and name in ('NULL', 'True', 'False', 'None'):
            return ('builtin', name)
        return (None, None)

    def local_value(self, name, g):
        """single definition of a local name: the function or value node, else None"""
        out = []
        for st in self.walk_scope(g):
            for nm, ent in self.bindings(st, g.mod):
                if nm == name:
                    out.append(ent)
            if isinstance(st, (ast.For, ast.With, ast.AugAssign)):
                for x in ast.walk(st.target) if isinstance(st, (ast.For, ast.AugAssign)) else ():
                    if isinstance(x, ast.Name) and x.id == name:
                        out.append(None)
        if name in g.params or name in g.kwonly or name in (g.vararg, g.kwarg):
            return None
        return out[0] if len(out) == 1 else None

    def resolve_expr(self, e, f, depth=0):
        """static entity of an expression: ('func', Fn) ('class', Cl) ('mod', name) ('ext', path) ('method', Fn, Cl) or None"""
        if depth > 8:
            return None
        if isinstance(e, ast.Name):
            kind, x = self.lookup(e.id, f)
            if kind == 'global':
                if x[0] == 'var':
                    v = x[1]
                    if isinstance(v, ast.Lambda):
                        return ('func', v._fn)
                    if isinstance(v, ast.Name) and v.id != e.id:
                        return self.resolve_expr(v, f.mod.fn, depth + 1)
                    return None
                return x
            if kind == 'builtin':
                return ('ext', 'builtins.' + x)
            if kind in ('local', 'free'):
                v = self.local_value(e.id, x)
                if v is None:
                    return None
                if v[0] == 'var':
                    if isinstance(v[1], ast.Lambda):
                        return ('func', v[1]._fn)
                    if isinstance(v[1], (ast.Name, ast.Attribute)):
                        return self.resolve_expr(v[1], x, depth + 1)
                    return None
                return self.follow(v)
            return None
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, f, depth + 1)
            if b is None:
                # self.method / cls.method
                if isinstance(e.value, ast.Name):
                    kind, g = self.lookup(e.value.id, f)
                    if kind in ('local', 'free') and g.has_self() and g.params and g.params[0] == e.value.id:
                        r = self.find_method(g.cls, e.attr)
                        if r is not None:
                            return ('method', r, g.cls)
                return None
            if b[0] == 'mod':
                if b[1].split('.')[0] != PKG:
                    return ('ext', b[1] + '.' + e.attr)
                return self.member(b[1], e.attr)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'class':
                r = self.find_method(b[1], e.attr)
                return ('unbound', r, b[1]) if r is not None else None
        return None

    def find_method(self, c, name, seen=()):
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            if b not in seen:
                r = self.find_method(b, name, seen + (c,))
                if r is not None:
                    return r
        return None

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x not in out:
                out.append(x)
                todo += x.bases
        return out

    def nodes(self, f):
        """all nodes evaluated in scope f (nested scopes excluded, their default values included)"""
        def walk(n):
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                    yield from walk(d)
                return
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults:
                    yield from walk(d)
                return
            if isinstance(n, COMPS):
                yield from walk(n.generators[0].iter)
                return
            if isinstance(n, ast.ClassDef):
                for d in n.bases + n.decorator_list:
                    yield from walk(d)
                return
            if isinstance(n, ast.AnnAssign):
                yield from walk(n.target)
                if n.value is not None:
                    yield from walk(n.value)
                return
            for c in ast.iter_child_nodes(n):
                yield from walk(c)
        if f.kind == 'comp':
            n = f.node
            for i, c in enumerate(n.generators):
                yield from walk(c.target)
                if i:
                    yield from walk(c.iter)
                for t in c.ifs:
                    yield from walk(t)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                yield from walk(x)
            return
        if f.kind == 'lambda':
            yield from walk(f.node.body)
            return
        for st in f.body:
            yield from walk(st)

    def deep(self, f):
        """nodes of f and of the scopes nested in it"""
        yield from self.nodes(f)
        for c in f.children:
            yield from self.deep(c)


def bind_call(call, g, skip):
    """match the arguments of a call with the parameters of g; returns (error or None, {param: node}, complete)"""
    pos = g.params[skip:]
    out, complete = {}, True
    i = 0
    for a in call.args:
        if isinstance(a, ast.Starred):
            complete = False
            i = len(pos)
            continue
        if i < len(pos):
            out[pos[i]] = a
        elif g.vararg is None and complete:
            return '%d positional arguments for %s' % (len(call.args), g), out, complete
        i += 1
    for k in call.keywords:
        if k.arg is None:
            complete = False
            continue
        if k.arg in pos or k.arg in g.kwonly:
            if k.arg in out:
                return 'argument %s given twice' % k.arg, out, complete
            out[k.arg] = k.value
        elif g.kwarg is None:
            return 'no parameter %s in %s' % (k.arg, g), out, complete
    if complete:
        miss = [p for p in pos + g.kwonly if p not in out and p not in g.defaults]
        if miss:
            return 'missing argument %s of %s' % (miss[0], g), out, complete
    return None, out, complete
