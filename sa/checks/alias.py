"""C09: functions leave the arrays, intervals and lists handed to them as they were."""
import ast

from ..cfg import CFG, parts, stores
from ..flow import COMPS, PKG, Program, bind_call
from ..report import Broken
from .names import where

SURE, MAYBE = 2, 1
ALIAS_FUN = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel',
             'reshape', 'squeeze', 'transpose', 'swapaxes', 'moveaxis', 'expand_dims', 'broadcast_to', 'diagonal', 'flipud',
             'fliplr', 'flip', 'rollaxis', 'real', 'imag'}
ALIAS_MAYBE = {'reshape', 'ravel', 'diagonal'}
ALIAS_METH = {'reshape', 'ravel', 'view', 'transpose', 'squeeze', 'swapaxes', 'diagonal', '__iter__'}
ALIAS_ATTR = {'T', '_data', 'data', 'flat', 'real', 'base', 'values'}
MUT_METH = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'fill', 'resize', 'put', 'itemset', 'update',
            'clear', 'setdefault', 'partition', 'popitem', 'add', 'discard', 'setflags', 'itemset', '__setitem__', '__delitem__'}
MUT_FUN = {'numpy.copyto': 0, 'numpy.put': 0, 'numpy.place': 0, 'numpy.putmask': 0, 'numpy.fill_diagonal': 0,
           'numpy.random.shuffle': 0, 'numpy.put_along_axis': 0, 'bisect.insort': 0, 'bisect.insort_left': 0,
           'bisect.insort_right': 0, 'random.shuffle': 0, 'builtins.setattr': 0, 'builtins.delattr': 0}
INTERVAL_ATTR = {'mid', 'rad', 'wid', 'a', 'b', 'mag', 'mig', 'inf', 'sup', 'dual', 'pro', 'opp', 'inv', 'khi', 'vertex', '_data'}
ARRAY_ATTR = {'shape', 'T', 'copy', 'ndim', 'dtype', 'flatten', 'size', 'reshape', 'astype', 'dot', 'sum', 'min', 'max'}


def join(a, b):
    out = dict(a)
    for k, v in b.items():
        if out.get(k, 0) < v:
            out[k] = v
    return out


def weaken(o):
    return {k: MAYBE for k in o}


class Summary:
    def __init__(self):
        self.mut = {}           # origin -> (strength, site)
        self.ret = {}           # origin -> strength
        self.attrs = {}         # self attribute -> {origin: strength}


class Analysis:
    def __init__(self, P):
        self.P = P
        self.sum = {f: Summary() for f in P.fns}
        self.cfgs = {}
        self.props = {}
        self.free_env = {}      # fn -> {name: origins}, flow-insensitive, for the closures
        self.cls_attrs = {}     # class -> attr -> {(method, param): strength}
        for c in P.classes:
            for nm, m in c.methods.items():
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in m.decor):
                    self.props.setdefault(nm, []).append(m)
        self.sites = 0

    def run(self):
        fns = [f for f in self.P.fns if f.kind in ('function', 'lambda')]
        for rnd in range(8):
            before = self.snapshot()
            for f in fns:
                self.function(f)
            if self.snapshot() == before:
                break
        self.rounds = rnd + 1

    def snapshot(self):
        return {f: (dict((k, v[0]) for k, v in s.mut.items()), dict(s.ret)) for f, s in self.sum.items()}, \
            {f: {k: dict(v) for k, v in e.items()} for f, e in self.free_env.items()}

    # ------------------------------------------------------------ one function
    def function(self, f):
        self.f = f
        self.s = self.sum[f]
        if f not in self.cfgs:
            self.cfgs[f] = CFG(f.body, str(f))
        cfg = self.cfgs[f]
        env0 = {}
        for p in f.params + f.kwonly:
            env0[p] = {('p', f, p): SURE}
        if f.vararg:
            env0[f.vararg] = {}
        if f.kwarg:
            env0[f.kwarg] = {}
        self.fenv = self.free_env.setdefault(f, {})
        for k, v in env0.items():
            self.fenv[k] = join(self.fenv.get(k, {}), v)
        state = {cfg.entry: env0}
        work = [cfg.entry]
        seen = 0
        while work:
            n = work.pop(0)
            seen += 1
            if seen > 20000:
                return
            env = self.node(n, dict(state[n]))
            for s in n.succ:
                if s not in state:
                    state[s] = dict(env)
                    work.append(s)
                else:
                    new = dict(state[s])
                    ch = False
                    for k, v in env.items():
                        j = join(new.get(k, {}), v)
                        if j != new.get(k):
                            new[k] = j
                            ch = True
                    if ch:
                        state[s] = new
                        if s not in work:
                            work.append(s)

    def bind(self, env, name, o):
        env[name] = o
        if o and '.' not in name:
            self.fenv[name] = join(self.fenv.get(name, {}), o)
        g = self.f
        if name in g.nonlocals:
            h = g.parent
            while h is not None and name not in h.bound:
                h = h.parent
            if h is not None and h in self.free_env and o:
                e = self.free_env[h]
                e[name] = join(e.get(name, {}), o)

    def node(self, n, env):
        a = n.ast
        if a is None:
            return env
        if n.kind == 'iter':
            o = weaken(self.ev(a.iter, env))
            self.store(a.target, o, env, None)
            return env
        if n.kind == 'with':
            for it in a.items:
                o = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.store(it.optional_vars, weaken(o), env, None)
            return env
        if n.kind in ('handler', 'case', 'break', 'continue'):
            return env
        if n.kind in ('test', 'expr'):
            self.ev(a, env)
            return env
        if n.kind == 'return':
            if a.value is not None:
                o = self.ev(a.value, env)
                self.s.ret = join(self.s.ret, o)
            return env
        if n.kind == 'raisestmt':
            return env
        if isinstance(a, ast.Assign):
            o = self.ev(a.value, env)
            for t in a.targets:
                self.store(t, o, env, a.value)
            return env
        if isinstance(a, ast.AnnAssign):
            if a.value is not None:
                self.store(a.target, self.ev(a.value, env), env, a.value)
            return env
        if isinstance(a, ast.AugAssign):
            self.ev(a.value, env)
            t = a.target
            if isinstance(t, ast.Name):
                o = self.name(t.id, env)
                if o:
                    self.mutate(self.inplace(o), a)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                base = self.ev(t.value, env)
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and self.is_self(t.value.id):
                    o = env.get('self.' + t.attr)
                    if o is None:
                        o = self.attr_origins(t.attr)
                    if o:
                        self.mutate(self.inplace(o), a)
                    self.mutate(base, a, attr=t.attr)
                else:
                    self.mutate(base, a)
            return env
        if isinstance(a, ast.Delete):
            for t in a.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value, env), a)
            return env
        if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            env.pop(a.name, None)
            return env
        if isinstance(a, ast.Expr):
            self.ev(a.value, env)
            return env
        for e in ast.iter_child_nodes(a):
            if isinstance(e, ast.expr):
                self.ev(e, env)
        return env

    def is_self(self, name):
        k, g = self.P.lookup(name, self.f)
        return k in ('local', 'free') and g.has_self() and bool(g.params) and g.params[0] == name

    def store(self, t, o, env, value):
        if isinstance(t, ast.Name):
            self.bind(env, t.id, o)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) \
                    and not any(isinstance(x, ast.Starred) for x in t.elts + value.elts):
                os = [self.ev(v, env, quiet=True) for v in value.elts]
                for x, y in zip(t.elts, os):
                    self.store(x, y, env, None)
            else:
                for x in t.elts:
                    self.store(x, weaken(o), env, None)
        elif isinstance(t, ast.Starred):
            self.store(t.value, weaken(o), env, None)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            self.mutate(self.ev(t.value, env), t)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and self.is_self(t.value.id):
                env['self.' + t.attr] = o
                if o:
                    self.s.attrs[t.attr] = join(self.s.attrs.get(t.attr, {}), o)
                self.mutate(self.ev(t.value, env), t, attr=t.attr)
            else:
                self.mutate(self.ev(t.value, env), t)

    def inplace(self, o):
        """x op= y changes the object only when it is an array or a list, not a number or an interval"""
        out = {}
        for k, s in o.items():
            kind = self.kind_of(k)
            if kind == 'array':
                out[k] = s
            elif kind is None:
                out[k] = MAYBE
        return out

    def kind_of(self, origin):
        """what the uses of a parameter say about its type: 'array', 'interval', 'number' or None"""
        _, f, p = origin[:3]
        cache = self.__dict__.setdefault('_kinds', {})
        if (f, p) in cache:
            return cache[(f, p)]
        arr = itv = numb = False
        for n in self.P.deep(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p:
                itv |= n.attr in INTERVAL_ATTR
                arr |= n.attr in ARRAY_ATTR
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == p:
                arr = True
            if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == p for a in n.args):
                e = self.P.resolve_expr(n.func, f)
                if e == ('ext', 'builtins.len') or e and e[0] == 'ext' and e[1].startswith('numpy.') \
                        and e[1].split('.')[-1] in ('dot', 'copy', 'asarray', 'array', 'linalg', 'diag', 'ravel', 'amax', 'amin', 'sum'):
                    arr = True
                if e == ('ext', 'builtins.range'):
                    numb = True
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
                for x in (n.left, n.right):
                    if isinstance(x, ast.Name) and x.id == p:
                        arr = True
        d = f.defaults.get(p)
        if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)) and d.value is not None:
            numb = True
        r = 'number' if numb else 'interval' if itv else 'array' if arr else None
        cache[(f, p)] = r
        return r

    def mutate(self, o, site, attr=None):
        for k, s in o.items():
            kk = k
            if attr is not None:
                kk = k + (attr,)
            old = self.s.mut.get(kk)
            if old is None or old[0] < s:
                self.s.mut[kk] = (s, '%s line %s: %s' % (self.f, getattr(site, 'lineno', '?'), self.text(site)))
        self.sites += 1

    def text(self, n):
        try:
            return ast.unparse(n).split('\n')[0][:90]
        except Exception:
            return type(n).__name__

    def name(self, v, env):
        if v in env:
            return env[v]
        k, g = self.P.lookup(v, self.f)
        if k == 'free' and g is not self.f:
            out = {}
            for o, s in self.free_env.get(g, {}).items():
                if o == v:
                    out = join(out, s)
            return out
        return {}

    def attr_origins(self, attr):
        """what another method of the class stored in an attribute of self"""
        c = None
        g = self.f
        while g is not None and c is None:
            if g.has_self():
                c = g.cls
            g = g.parent
        out = {}
        if c is None:
            return out
        for k in self.P.mro(c):
            for m in k.fn.children:
                if m in self.sum and m is not self.f and attr in self.sum[m].attrs:
                    out = join(out, {o: s for o, s in self.sum[m].attrs[attr].items()})
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, quiet=False):
        """origins an expression may share memory with; effects of the calls in it are recorded"""
        if isinstance(e, ast.Name):
            k, x = self.P.lookup(e.id, self.f)
            # a nested function handed on or called: what it does to its free variables happens here
            fe = self.P.resolve_expr(e, self.f) if e.id not in env else None
            if fe and fe[0] == 'func' and fe[1].parent is not None and fe[1].parent.kind != 'module' and isinstance(e.ctx, ast.Load):
                self.closure_effects(fe[1], env, e)
            return self.name(e.id, env)
        if isinstance(e, ast.Lambda):
            self.closure_effects(e._fn, env, e)
            return {}
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if isinstance(e.value, ast.Name) and self.is_self(e.value.id):
                if 'self.' + e.attr in env:
                    return env['self.' + e.attr]
                o = self.attr_origins(e.attr)
                if o:
                    return o
                return {} if e.attr not in ALIAS_ATTR else b
            if e.attr in ALIAS_ATTR:
                return b
            if e.attr in self.props or e.attr in ('shape', 'ndim', 'size', 'dtype', 'imag'):
                return {}
            return weaken(b) if b else {}
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            self.ev(e.slice, env)
            if not b:
                return {}
            s = e.slice
            els = s.elts if isinstance(s, ast.Tuple) else [s]
            plain = [isinstance(x, ast.Slice) or isinstance(x, ast.Constant) and x.value in (None, Ellipsis) for x in els]
            if all(plain):
                return b
            if any(plain) and all(p or isinstance(x, ast.Constant) for p, x in zip(plain, els)):
                return b
            return weaken(b)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            return join(self.ev(e.body, env), self.ev(e.orelse, env))
        if isinstance(e, ast.BoolOp):
            out = {}
            for v in e.values:
                out = join(out, self.ev(v, env))
            return out
        if isinstance(e, ast.NamedExpr):
            o = self.ev(e.value, env)
            self.bind(env, e.target.id, o)
            return o
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = {}
            for v in e.elts:
                out = join(out, weaken(self.ev(v, env)))
            return out
        if isinstance(e, ast.Starred):
            return weaken(self.ev(e.value, env))
        if isinstance(e, COMPS):
            g = e._fn
            inner = dict(env)
            out = {}
            for c in e.generators:
                o = weaken(self.ev(c.iter, inner))
                for x in ast.walk(c.target):
                    if isinstance(x, ast.Name):
                        inner[x.id] = o
                for t in c.ifs:
                    self.ev(t, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                out = join(out, weaken(self.ev(x, inner)))
            return out
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                if x is not None:
                    self.ev(x, env)
            return {}
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return {}

    def closure_effects(self, g, env, site):
        """apply the mutations a nested function makes to variables of the enclosing ones"""
        s = self.sum.get(g)
        if s is None:
            return
        for k, (strength, at) in list(s.mut.items()):
            if k[1] is not g and k[0] == 'p':
                # an origin of an enclosing function: seen through the closure
                self.note(k, strength, at)

    def note(self, k, strength, at):
        old = self.s.mut.get(k)
        if old is None or old[0] < strength:
            self.s.mut[k] = (strength, at)

    def args_of(self, e, g, skip, recv=None):
        err, m, complete = bind_call(e, g, skip)
        return m

    def call(self, e, env):
        fn = e.func
        argo = [(a, self.ev(a, env)) for a in e.args]
        kwo = [(k.arg, k.value, self.ev(k.value, env)) for k in e.keywords]
        byid = {id(a): o for a, o in argo}
        byid.update({id(v): o for _, v, o in kwo})
        ent = self.P.resolve_expr(fn, self.f)
        recv = self.ev(fn.value, env) if isinstance(fn, ast.Attribute) else {}
        for k, v, o in kwo:
            if k == 'out':
                self.mutate(o, e)
        if ent is not None and ent[0] in ('func', 'method', 'unbound'):
            g = ent[1]
            skip = 0
            if ent[0] == 'method' and not g.static():
                skip = 1
            if isinstance(fn, ast.Name) and ent[0] == 'func':
                self.closure_effects(g, env, e)
            m = self.args_of(e, g, skip)
            s = self.sum.get(g)
            out = {}
            if s is None:
                return out

            def given(p):
                if p in m:
                    return byid.get(id(m[p]), {})
                if skip and g.params and p == g.params[0]:
                    return recv
                return {}
            for k, (strength, at) in list(s.mut.items()):
                if k[1] is g and len(k) == 3:
                    for o, st in given(k[2]).items():
                        self.note(o, min(st, strength), '%s, called from %s line %s' % (at, self.f, e.lineno))
                elif k[1] is g and skip and k[2] == g.params[0]:
                    for o, st in recv.items():
                        self.note(o + (k[3],) if len(o) == 3 else o, min(st, strength), at)
            for k, st in s.ret.items():
                if k[1] is g:
                    out = join(out, {o: min(x, st) for o, x in given(k[2]).items()})
                elif k[1] is self.f or self.encloses(k[1]):
                    out = join(out, {k: st})
            return out
        if ent is not None and ent[0] == 'class':
            g = self.P.find_method(ent[1], '__init__')
            s = self.sum.get(g) if g is not None else None
            if s is not None:
                m = self.args_of(e, g, 1)
                for k, (strength, at) in list(s.mut.items()):
                    if k[1] is g and k[2] in m and len(k) == 3:
                        for o, st in byid.get(id(m[k[2]]), {}).items():
                            self.note(o, min(st, strength), '%s, called from %s line %s' % (at, self.f, e.lineno))
                # an interval array built around the data of another one
                out = {}
                for attr, os in s.attrs.items():
                    if attr in ALIAS_ATTR:
                        for k, st in os.items():
                            if k[1] is g and k[2] in m:
                                out = join(out, {o: min(st, x) for o, x in byid.get(id(m[k[2]]), {}).items()})
                return out
            return {}
        if ent is not None and ent[0] == 'ext':
            path = ent[1]
            last = path.rsplit('.', 1)[-1]
            if path in MUT_FUN and argo:
                self.mutate(argo[MUT_FUN[path]][1], e)
                return {}
            if path.startswith('numpy.') and last == 'at' and argo:
                self.mutate(argo[0][1], e)
                return {}
            if path == 'numpy.array':
                for k, v, o in kwo:
                    if k == 'copy' and isinstance(v, ast.Constant) and v.value in (False, None) and argo:
                        return argo[0][1]
                return {}
            if path.startswith('numpy.') and last in ALIAS_FUN and argo:
                return weaken(argo[0][1]) if last in ALIAS_MAYBE else argo[0][1]
            if path.startswith('builtins.') and last in ('zip', 'enumerate', 'reversed', 'iter', 'next', 'max', 'min', 'list', 'tuple',
                                                         'sorted', 'map', 'filter', 'getattr'):
                out = {}
                for a, o in argo:
                    out = join(out, weaken(o))
                return out
            return {}
        if isinstance(fn, ast.Attribute):
            if fn.attr in MUT_METH and recv:
                # pop(k) of a kwargs dictionary and the like are not origins; sort of an ndarray is in place
                self.mutate(recv, e)
                return weaken(recv) if fn.attr in ('pop', 'setdefault') else {}
            if fn.attr in ALIAS_METH:
                return weaken(recv) if fn.attr in ALIAS_MAYBE else recv
            if fn.attr == 'astype':
                if any(k == 'copy' and isinstance(v, ast.Constant) and not v.value for k, v, _ in kwo):
                    return recv
                return {}
            if fn.attr in ('get', 'items', 'values', 'keys', '__getitem__'):
                return weaken(recv)
        return {}

    def encloses(self, g):
        h = self.f
        while h is not None:
            if h is g:
                return True
            h = h.parent
        return False


def exported(P, modname=PKG, seen=None):
    """names a user of the package sees: {name: entity}"""
    seen = set() if seen is None else seen
    if modname in seen or modname not in P.mods:
        return {}
    seen.add(modname)
    m = P.mods[modname]
    out = {}
    for b in m.stars:
        for k, v in exported(P, b, seen).items():
            out.setdefault(k, v)
    for k in m.ns:
        if not k.startswith('_'):
            e = P.member(modname, k)
            if e is not None and e[0] in ('func', 'class'):
                out[k] = e
    return out


MUTATORS = {'__init__', '__cinit__', '__setitem__', '__delitem__', '__setattr__', '__setstate__', '__enter__', '__exit__',
            '__iadd__', '__isub__', '__imul__', '__itruediv__'}


def interval_class(P, c):
    ks = P.mro(c)
    return any('__add__' in k.methods for k in ks)


def c09(rep):
    rep.rule = ('flow-sensitive alias analysis of every function, with interprocedural summaries and closures: the objects that share '
                'memory with a parameter (names bound to it, slices, transposes, asarray and reshape results, results of package '
                'functions that may return their argument) are tracked along the control-flow graph; an element or attribute '
                'store, deletion, in-place operator on an array, mutating method, out= argument or mutating library call '
                'applied to one of them in an exported function or method changes the argument of the caller')
    rep.assumptions += ['library functions other than the listed mutating ones leave their arguments alone',
                        'results of arithmetic, of np.array and of copy methods are new objects']
    P = Program()
    A = Analysis(P)
    A.run()
    rep.note('functions summarised', len(A.cfgs))
    rep.note('mutation sites', A.sites)
    rep.note('rounds to the fixpoint', A.rounds)
    ex = exported(P)
    if len(ex) < 40:
        raise Broken('only %d exported names found' % len(ex))
    rep.floor = 200
    judged = set()

    def judge(f, label, skip_self):
        if f in judged:
            return
        judged.add(f)
        s = A.sum[f]
        ps = f.params[1:] if skip_self else f.params
        for p in ps + f.kwonly:
            hits = [(st, at) for k, (st, at) in s.mut.items() if k[1] is f and k[2] == p and len(k) == 3 and k[0] == 'p']
            # an attribute of self filled from the parameter
            c = '%s argument %s' % (label, p)
            sure = [at for st, at in hits if st == SURE]
            if sure:
                rep.bad('argument is left alone', c, 'changed by ' + sure[0])
            elif hits:
                rep.undecided('argument is left alone', c, 'may be changed by ' + hits[0][1])
            else:
                rep.ok('argument is left alone', c)
        # parameters other methods change through self
        for g in f.cls.fn.children if f.cls is not None and f.cls.fn is f.parent else ():
            for k, (st, at) in A.sum[g].mut.items():
                if g is not f and k[1] is f and k[2] in ps and len(k) == 3:
                    rep.add('argument is left alone', '%s argument %s' % (label, k[2]), 'violated' if st == SURE else 'undecided',
                            'kept on the object and changed later by ' + at)

    nf = 0
    for nm, e in sorted(ex.items()):
        if e[0] == 'func':
            nf += 1
            judge(e[1], nm, False)
        else:
            c = e[1]
            for k in P.mro(c):
                for m in k.fn.children:
                    if m.kind != 'function':
                        continue
                    nf += 1
                    judge(m, '%s.%s' % (k.node.name, m.name), m.has_self())
                    if m.has_self() and m.params and m.name not in MUTATORS and interval_class(P, c) \
                            and not any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in m.decor):
                        hits = [(st, at) for kk, (st, at) in A.sum[m].mut.items() if kk[1] is m and kk[2] == m.params[0] and kk[0] == 'p']
                        c2 = '%s.%s operand' % (k.node.name, m.name)
                        sure = [at for st, at in hits if st == SURE]
                        if sure:
                            rep.bad('operand is left alone', c2, 'changed by ' + sure[0])
                        elif hits:
                            rep.undecided('operand is left alone', c2, 'may be changed by ' + hits[0][1])
                        else:
                            rep.ok('operand is left alone', c2)
    rep.note('exported functions and methods', nf)
