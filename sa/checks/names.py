"""C08: every name, attribute, import and call of the package resolves, in every branch."""
import ast
import importlib
import inspect

from ..flow import COMPS, PKG, Program, bind_call
from ..report import Broken

LIBS = ('numpy', 'math', 'itertools', 'copy', 'bisect', 'numbers', 'mpmath', 'pandas', 'matplotlib', 'scipy', 'collections',
        'builtins', 'functools', 'operator', 'warnings', 'joblib', 'typing', 'sys', 'os', 're', 'abc', 'contextlib',
        'dataclasses', 'enum', 'fractions', 'decimal', 'random', 'time', 'types', 'sympy', 'cvxopt', 'mpl_toolkits')


def ext_object(path):
    """object of an installed library named by a dotted path: (found, object); found is None when it cannot be told"""
    parts = path.split('.')
    if parts[0] not in LIBS:
        return None, None
    obj, i = None, 0
    for k in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:k]))
            i = k
            break
        except ImportError:
            continue
        except Exception:
            return None, None
    if obj is None:
        return None, None
    for p in parts[i:]:
        if not hasattr(obj, p):
            return False, None
        obj = getattr(obj, p)
    return True, obj


def attr_universe(P):
    """every attribute some value reachable in this package can have"""
    import numpy as np
    u = set()
    objs = [np.ndarray, np.float64, np.bool_, np.dtype, np.random.RandomState, np.random.Generator, np.nditer, str, list, dict,
            tuple, set, frozenset, bytes, int, float, complex, Exception, type, type(lambda: 0), slice, range, property,
            np.ufunc, np.vectorize, np.finfo(float), np.flatiter, np.poly1d, np.polynomial.Polynomial]
    for lib, names in (('mpmath', ('mp', 'mpf', 'iv')), ('pandas', ('DataFrame', 'Series', 'Index')),
                       ('matplotlib.figure', ('Figure',)), ('matplotlib.axes', ('Axes',)), ('matplotlib.axis', ('Axis',)),
                       ('mpl_toolkits.mplot3d.axes3d', ('Axes3D',)), ('matplotlib.artist', ('Artist',)),
                       ('matplotlib.patches', ('Patch', 'Polygon')), ('matplotlib.lines', ('Line2D',)),
                       ('scipy.optimize', ('OptimizeResult', 'LinearConstraint')), ('fractions', ('Fraction',))):
        try:
            m = importlib.import_module(lib)
            objs += [getattr(m, n) for n in names if hasattr(m, n)]
        except Exception:
            pass
    for o in objs:
        u |= set(dir(o))
    # fields of linprog and minimize results, generators, named tuples of numpy
    u |= {'x', 'fun', 'success', 'status', 'slack', 'con', 'message', 'nit', 'nfev', 'jac', 'send', 'throw', 'close',
          'U', 'S', 'Vh', 'eigenvalues', 'eigenvectors', 'Q', 'R'}
    for c in P.classes:
        u |= c.attrs | set(c.methods)
    for f in P.fns:
        for n in P.nodes(f):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                u.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant):
                u.add(n.args[1].value)
    return u


def self_attrs(P, c):
    """attributes an instance of c can have; None when they cannot be enumerated"""
    out = set(dir(object))
    for k in P.mro(c):
        if k.open:
            return None
        out |= k.attrs | set(k.methods)
        for m in k.fn.children:
            if not m.has_self() or not m.params:
                continue
            for n in P.deep(m):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and n.value.id == m.params[0]:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars'):
                    return None
                if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    return None
    # attributes that subclasses or other code store on instances of this class
    return out


class Assigned:
    """definite assignment of the local names of one scope"""

    def __init__(self, P, f, bad):
        self.P, self.f, self.bad = P, f, bad
        self.reads = 0
        self.seen = set()
        params = set(f.params) | set(f.kwonly) | {x for x in (f.vararg, f.kwarg) if x}
        self.locals = f.bound - params - f.globals - f.nonlocals
        if f.kind == 'module':
            self.locals = {n for n in f.bound}
        self.loops = []
        self.guards = []        # conditions known to hold here (texts)

    # a state: (set of assigned names, dict name -> set of condition texts under which it is assigned); None: unreachable
    def run(self):
        self.block(self.f.body, (frozenset(), frozenset()))

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return (a[0] & b[0], a[1] & b[1])

    def assign(self, st, names):
        s, cond = st
        names = frozenset(names)
        cond = frozenset(c for c in cond if not (c[2] & names))      # the condition mentions a changed name
        return (s | names, cond)

    def targets(self, t):
        return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}

    def expr(self, e, st):
        """check the reads of an expression; returns the state (walrus)"""
        if e is None:
            return st

        def walk(n, st):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load):
                    self.read(n, st)
                return st
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults:
                    st = walk(d, st)
                return st
            if isinstance(n, COMPS):
                st = walk(n.generators[0].iter, st)
                # a comprehension runs at once: the names it reads must be assigned now
                own = n._fn.bound
                for x in self.P.deep(n._fn):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in own \
                            and self.P.lookup(x.id, n._fn)[1] is self.f:
                        self.read(x, st)
                for x in self.P.deep(n._fn):
                    if isinstance(x, ast.NamedExpr):
                        st = self.assign(st, {x.target.id})
                return st
            if isinstance(n, ast.NamedExpr):
                st = walk(n.value, st)
                return self.assign(st, {n.target.id})
            if isinstance(n, ast.BoolOp):
                st = walk(n.values[0], st)
                t = st
                for v in n.values[1:]:
                    t = walk(v, t)
                return st
            if isinstance(n, ast.IfExp):
                st = walk(n.test, st)
                a, b = walk(n.body, self.under(n.test, True, st)), walk(n.orelse, self.under(n.test, False, st))
                return self.merge(a, b)
            for c in ast.iter_child_nodes(n):
                st = walk(c, st)
            return st
        return walk(e, st)

    def read(self, n, st):
        if n.id not in self.locals or st is None:
            return
        self.reads += 1
        if n.id in st[0]:
            return
        if self.f.kind in ('module', 'class'):
            # names of an enclosing or builtin scope
            import builtins
            if hasattr(builtins, n.id) or self.f.kind == 'class':
                return
        if (n.id, n.lineno) not in self.seen:
            self.seen.add((n.id, n.lineno))
            self.bad(n)

    def key(self, test):
        """(condition text, polarity, names) with not and != folded"""
        pol = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, pol = test.operand, not pol
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            flip = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.Gt: ast.LtE}
            op = type(test.ops[0])
            if op in flip:
                test = ast.Compare(left=test.left, ops=[flip[op]()], comparators=test.comparators)
                pol = not pol
        names = frozenset(x.id for x in ast.walk(test) if isinstance(x, ast.Name))
        return ast.dump(test), pol, names

    def under(self, test, pol, st):
        """state inside a branch: the names assigned under the same condition are assigned"""
        if st is None:
            return None
        s, cond = st
        facts = [self.key(test)] if pol or not isinstance(test, ast.BoolOp) else []
        facts = [(k, p == pol, n) for k, p, n in facts]
        if isinstance(test, ast.BoolOp):
            if (isinstance(test.op, ast.And) and pol) or (isinstance(test.op, ast.Or) and not pol):
                facts += [(k, p == pol, n) for k, p, n in map(self.key, test.values)]
        add = {v for (v, ck, _) in cond for (k, p, _n) in facts if ck == (k, p)}
        return (s | add, cond)

    def const(self, test):
        if isinstance(test, ast.Constant):
            return bool(test.value)
        return None

    def block(self, body, st):
        for x in body:
            if st is None:
                return None
            st = self.stmt(x, st)
        return st

    def stmt(self, n, st):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                st = self.expr(d, st)
            return self.assign(st, {n.name})
        if isinstance(n, ast.ClassDef):
            for d in n.bases + n.decorator_list:
                st = self.expr(d, st)
            return self.assign(st, {n.name})
        if isinstance(n, ast.Assign):
            st = self.expr(n.value, st)
            for t in n.targets:
                st = self.expr(t, st)
            return self.assign(st, set().union(*[self.targets(t) for t in n.targets]))
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                if self.f.mod.is_cy:            # a C declaration initialises nothing, but C names cannot be unbound
                    return self.assign(st, self.targets(n.target))
                return st
            st = self.expr(n.value, st)
            st = self.expr(n.target, st)
            return self.assign(st, self.targets(n.target))
        if isinstance(n, ast.AugAssign):
            st = self.expr(n.value, st)
            if isinstance(n.target, ast.Name):
                self.read(n.target, st)
                return self.assign(st, {n.target.id})
            return self.expr(n.target, st)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return self.assign(st, {(a.asname or a.name.split('.')[0]) for a in n.names})
        if isinstance(n, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(n):
                st = self.expr(c, st)
            return None
        if isinstance(n, ast.Assert):
            st = self.expr(n.test, st)
            if n.msg is not None:
                self.expr(n.msg, st)
            if self.const(n.test) is False:
                return None
            return self.under(n.test, True, st)
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.read(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st = (st[0] - {t.id}, st[1])
                else:
                    st = self.expr(t, st)
            return st
        if isinstance(n, ast.If):
            return self.ifs(n, st)
        if isinstance(n, ast.While):
            st = self.expr(n.test, st)
            self.loops.append([None, []])
            body = self.block(n.body, self.under(n.test, True, st))
            brk, conts = self.loops.pop()
            if self.const(n.test) is True:
                return brk[0] if brk else None
            out = st
            if n.orelse:
                out = self.block(n.orelse, out)
            for b in (brk or []):
                out = self.merge(out, b)
            return out
        if isinstance(n, (ast.For, ast.AsyncFor)):
            st = self.expr(n.iter, st)
            self.loops.append([None, []])
            body = self.block(n.body, self.assign(st, self.targets(n.target)))
            brk, conts = self.loops.pop()
            for c in conts:
                body = self.merge(body, c)
            # a for loop is taken to run at least once
            out = body if body is not None else (None if not brk else None)
            if n.orelse and out is not None:
                out = self.block(n.orelse, out)
            search = brk and self.search(n)
            for b in (brk or []):
                if out is None:
                    out = b
                elif search:
                    out = (out[0] | b[0], out[1])
                else:
                    out = self.merge(out, b)
            return out if out is not None else (None if self.always_leaves(n) else st)
        if isinstance(n, (ast.Break, ast.Continue)):
            lp = self.loops[-1]
            if isinstance(n, ast.Break):
                lp[0] = [st] if lp[0] is None else [self.merge(lp[0][0], st)]
            else:
                lp[1].append(st)
            return None
        if isinstance(n, ast.Try):
            end = self.block(n.body, st)
            if n.orelse and end is not None:
                end = self.block(n.orelse, end)
            for h in n.handlers:
                hs = st
                if h.type is not None:
                    hs = self.expr(h.type, hs)
                if h.name:
                    hs = self.assign(hs, {h.name})
                he = self.block(h.body, hs)
                if he is not None and h.name:
                    he = (he[0] - {h.name}, he[1])
                end = self.merge(end, he)
            if n.finalbody:
                base = end if end is not None else st
                fin = self.block(n.finalbody, base if not n.handlers else self.merge(base, st))
                if end is None or fin is None:
                    return None
                new = fin[0] | end[0]
                return (new, end[1])
            return end
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                st = self.expr(it.context_expr, st)
                if it.optional_vars is not None:
                    st = self.expr(it.optional_vars, st)
                    st = self.assign(st, self.targets(it.optional_vars))
            return self.block(n.body, st)
        if isinstance(n, ast.Match):
            st = self.expr(n.subject, st)
            end = None
            wild = False
            for c in n.cases:
                cs = self.assign(st, {x.name for x in ast.walk(c.pattern)
                                      if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name})
                if c.guard is not None:
                    cs = self.expr(c.guard, cs)
                elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    wild = True
                end = self.merge(end, self.block(c.body, cs))
            return end            # a match that falls through is left undecided
        if isinstance(n, (ast.Global, ast.Nonlocal, ast.Pass)):
            return st
        for c in ast.iter_child_nodes(n):
            st = self.expr(c, st)
        return st

    def always_leaves(self, n):
        """every path through the loop body returns or raises"""
        return True

    def search(self, n):
        """for ...: if c: v = ...; break -- the search is taken to succeed"""
        def has(body):
            for x in body:
                if isinstance(x, ast.Break):
                    return True
                if isinstance(x, ast.If) and (has(x.body) or has(x.orelse)):
                    return True
            return False
        return has(n.body)

    def ifs(self, n, st):
        chain, cur, outs = 0, n, []
        state = st
        while True:
            state = self.expr(cur.test, state)
            chain += 1
            c = self.const(cur.test)
            o = self.block(cur.body, self.under(cur.test, True, state)) if c is not False else None
            outs.append((cur.test, o))
            rest = self.under(cur.test, False, state)
            if c is True:
                final, has_else = None, True
                break
            if len(cur.orelse) == 1 and isinstance(cur.orelse[0], ast.If):
                state = rest
                cur = cur.orelse[0]
                continue
            has_else = bool(cur.orelse)
            final = self.block(cur.orelse, rest) if cur.orelse else rest
            break
        if chain >= 2 and not has_else:
            # an exhaustive chain of cases cannot be told from one that is not: taken to be exhaustive
            live = [o for _, o in outs if o is not None]
            both = final
            for o in live:
                both = self.merge(both, o)
            if live and both is not None:
                s = live[0][0]
                for o in live[1:]:
                    s = s & o[0]
                return (both[0] | s, both[1])
            return both
        end = final
        for _, o in outs:
            end = self.merge(end, o)
        if end is not None and chain == 1:
            k, p, names = self.key(n.test)
            extra = set()
            o = outs[0][1]
            if o is not None:
                extra |= {(v, (k, p), names) for v in o[0] - end[0]}
            if final is not None:
                extra |= {(v, (k, not p), names) for v in final[0] - end[0]}
            end = (end[0], end[1] | {e for e in extra if e[0] not in e[2]})
        return end


def where(f, n):
    return '%s line %s' % (f, getattr(n, 'lineno', '?'))


def key(f, what):
    return '%s %s' % (f, what)


def c08(rep):
    rep.rule = ('name resolution over every module of the package: each name read in any scope is bound in an enclosing scope, the '
                'module, a module it imports from, or the builtins; each import and module attribute names something that exists '
                '(package modules by their own source, installed libraries by their namespaces); each attribute is one that some '
                'value of the package can have, and attributes of self exist on the class; each call of a package function, class '
                'or library function with a known signature matches that signature; each local variable is assigned on every '
                'path to its reads (for loops taken to run at least once)')
    rep.assumptions += ['a for loop over data runs at least once and a search loop that ends in break finds its element',
                        'an if/elif chain without else covers the admissible cases (unknown options are another property)']
    P = Program()
    if len(P.mods) < 20 or len(P.fns) < 250:
        raise Broken('only %d modules and %d scopes found' % (len(P.mods), len(P.fns)))
    rep.note('modules', len(P.mods))
    rep.note('scopes', len(P.fns))
    universe = attr_universe(P)
    rep.floor = 2500
    # imports
    for m in P.mods.values():
        for f in [x for x in P.fns if x.mod is m]:
            for st in P.walk_scope(f):
                if not isinstance(st, (ast.Import, ast.ImportFrom)):
                    continue
                for al in st.names:
                    if isinstance(st, ast.Import):
                        path = al.name
                        if path.startswith('__cimport__'):
                            continue
                        ok = (al.name in P.mods) if al.name.split('.')[0] == PKG else ext_object(al.name)[0]
                    else:
                        base = P.absname(m, st)
                        path = base + '.' + al.name
                        if base.startswith(('__cimport__', '__extern__', 'libc', 'cython')):
                            rep.ok('import resolves', key(f, 'declares ' + path))     # resolved by the compiler
                            continue
                        if base.split('.')[0] == PKG:
                            ok = base in P.mods if al.name == '*' else P.member(base, al.name) is not None
                        elif al.name == '*':
                            ok = ext_object(base)[0]
                        else:
                            ok = ext_object(path)[0]
                    c = key(f, 'imports ' + path)
                    if ok is False:
                        rep.bad('import resolves', c, '%s imports %s, which does not exist' % (where(f, st), path))
                    elif ok:
                        rep.ok('import resolves', c)
                    else:
                        rep.undecided('import resolves', c, 'library not examined')
    # names, attributes, calls
    for f in P.fns:
        bound_later = set()
        for n in P.nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                kind, e = P.lookup(n.id, f)
                if kind is None:
                    rep.bad('name is bound', '%s reads %s' % (f.mod.name, n.id), '%s reads %s, which no scope binds' % (where(f, n), n.id))
                else:
                    rep.ok('name is bound', key(f, 'reads ' + n.id))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                attribute(rep, P, f, n, universe)
            elif isinstance(n, ast.Call):
                call(rep, P, f, n)
    # definite assignment
    reads = 0
    for f in P.fns:
        if f.kind not in ('function', 'module'):
            continue
        if f.kind == 'module' and f.mod.is_cy:
            continue
        found = []
        a = Assigned(P, f, found.append)
        a.run()
        reads += a.reads
        for n in found:
            rep.bad('assigned before use', key(f, 'reads ' + n.id),
                    '%s reads %s, which some path to it leaves unassigned' % (where(f, n), n.id))
        if not found:
            rep.ok('assigned before use', str(f))
    rep.note('local reads checked for assignment', reads)


def attribute(rep, P, f, n, universe):
    c = key(f, 'reads .' + n.attr)
    b = P.resolve_expr(n.value, f)
    if b is not None and b[0] == 'mod':
        if b[1].split('.')[0] == PKG:
            ok = P.member(b[1], n.attr) is not None
        else:
            ok = ext_object(b[1] + '.' + n.attr)[0]
            if b[1].startswith(('libc', 'cython')):
                ok = True
        if ok is False:
            rep.bad('module attribute exists', c, '%s: module %s has no attribute %s' % (where(f, n), b[1], n.attr))
        elif ok:
            rep.ok('module attribute exists', c)
        return
    if b is not None and b[0] == 'ext':
        ok = ext_object(b[1] + '.' + n.attr)[0]
        if ok is False and ext_object(b[1])[0]:
            rep.bad('module attribute exists', c, '%s: %s has no attribute %s' % (where(f, n), b[1], n.attr))
        elif ok:
            rep.ok('module attribute exists', c)
        return
    if b is not None and b[0] == 'class':
        names = self_attrs(P, b[1])
        if names is not None and n.attr not in names and n.attr not in dir(type):
            rep.bad('class attribute exists', c, '%s: class %s has no attribute %s' % (where(f, n), b[1].node.name, n.attr))
        elif names is not None:
            rep.ok('class attribute exists', c)
        return
    if isinstance(n.value, ast.Name):
        kind, g = P.lookup(n.value.id, f)
        if kind in ('local', 'free') and g.has_self() and g.params and g.params[0] == n.value.id:
            names = self_attrs(P, g.cls)
            if names is not None:
                subs = set()
                for k in P.classes:
                    if k is not g.cls and g.cls in P.mro(k):
                        x = self_attrs(P, k)
                        subs |= x or {n.attr}
                if n.attr not in names | subs:
                    # an attribute stored on instances from outside the class
                    ext = any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == n.attr
                              and not (isinstance(x.value, ast.Name) and x.value.id == 'self')
                              for h in P.fns for x in P.nodes(h))
                    if not ext:
                        rep.bad('attribute of self exists', c, '%s: instances of %s have no attribute %s' % (
                            where(f, n), g.cls.node.name, n.attr))
                        return
                rep.ok('attribute of self exists', c)
                return
    if n.attr not in universe:
        rep.bad('attribute is known', c, '%s: no value of the package has an attribute %s' % (where(f, n), n.attr))
    else:
        rep.ok('attribute is known', c)


def call(rep, P, f, n):
    e = P.resolve_expr(n.func, f)
    if e is None:
        return
    if e[0] == 'func' or e[0] in ('method', 'unbound'):
        g = e[1]
        deco = {d.id for d in g.decor if isinstance(d, ast.Name)}
        if g.decor and not deco <= {'staticmethod', 'classmethod'}:
            return
        skip = 0
        if e[0] == 'method':
            skip = 0 if g.static() else 1
        elif e[0] == 'unbound' and 'classmethod' in deco:
            skip = 1
        err, _, complete = bind_call(n, g, skip)
        report(rep, f, n, str(g), err)
    elif e[0] == 'class':
        c = e[1]
        if any(k.open for k in P.mro(c)) and not (P.find_method(c, '__init__') or P.find_method(c, '__cinit__')):
            return
        if P.find_method(c, '__new__'):
            return
        g = P.find_method(c, '__init__') or P.find_method(c, '__cinit__')
        if g is None:
            err = 'arguments for %s, which takes none' % c.node.name if n.args or n.keywords else None
        else:
            err, _, complete = bind_call(n, g, 1)
        report(rep, f, n, c.node.name, err)
    elif e[0] == 'ext':
        ok, obj = ext_object(e[1])
        if not ok or not callable(obj):
            return
        try:
            sig = inspect.signature(obj)
        except (ValueError, TypeError):
            return
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        try:
            sig.bind(*n.args, **{k.arg: k.value for k in n.keywords})
            report(rep, f, n, e[1], None)
        except TypeError as x:
            report(rep, f, n, e[1], str(x))


def report(rep, f, n, callee, err):
    c = key(f, 'calls ' + callee)
    if err:
        rep.bad('call matches the signature', c, '%s: %s' % (where(f, n), err))
    else:
        rep.ok('call matches the signature', c)
