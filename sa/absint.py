"""Abstract interpreter for the library's sources (Python, and Cython through cyfront).

It never imports or runs the code under analysis: it walks the syntax trees and evaluates them in
an abstract domain -- numbers are terms over the parameters of a case cell (terms.py), intervals
and other instances are abstract objects whose methods are resolved and interpreted from source,
arrays hold abstract elements, the floating-point rounding mode is part of the abstract state, and
a branch the domain cannot decide is split (trace partitioning, bounded).  Whatever is not modelled
raises `Abort`, which makes the partition *undecided*, never a verdict.
"""
import ast
import builtins
import itertools
import os
from fractions import Fraction as F

import numpy as np

from . import terms as tm
from .terms import T, lf, const

REPO = os.environ.get('VERIF_REPO', '/repo')


class Abort(Exception):
    """construct outside the model: this partition stays undecided"""


class RaiseEx(Exception):
    def __init__(self, exc, site=None):
        self.exc, self.site = exc, site


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# --------------------------------------------------------------------------- values
class Num:
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty='float'):
        self.t, self.ty = t, ty

    def __repr__(self):
        return '%r:%s' % (self.t, self.ty)


class Inst:
    def __init__(self, cls):
        self.cls, self.f = cls, {}

    def __repr__(self):
        if '_a_int' in self.f or '_a_double' in self.f:
            return '%s(%s)' % (self.cls.name, ', '.join('%s=%r' % kv for kv in sorted(self.f.items()) if kv[0][-1] != 'Q'))
        return '<%s>' % self.cls.name


class Cls:
    def __init__(self, name, bases, module, is_cdef=False):
        self.name, self.bases, self.module, self.is_cdef = name, bases, module, is_cdef
        self.ns, self.ann = {}, {}

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, n):
        for c in self.mro():
            if n in c.ns:
                return c.ns[n]
        return None

    def issub(self, o):
        return o in self.mro()

    def __repr__(self):
        return 'class ' + self.name


class Func:
    def __init__(self, node, env, module, cls=None, defaults=(), kwdefaults=None):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.name = getattr(node, 'name', '<lambda>')
        self.is_c = getattr(node, 'is_cfunc', False)
        self.attrs = {}

    def __repr__(self):
        return '%s.%s' % (self.module.name if self.module else '', self.name)


class Bound:
    def __init__(self, f, s):
        self.f, self.s = f, s


class Prop:
    def __init__(self, f, setter=None):
        self.f, self.setter = f, setter


class Static:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Ext:
    """a name of the outside world (numpy.vectorize, numbers.Number ...)"""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return 'ext:' + self.path


class Native:
    """function supplied by the model or by a check: called with (interp, args, kwargs)"""

    def __init__(self, fn, name='native'):
        self.fn, self.name = fn, name


class Vec:
    def __init__(self, f):
        self.f = f


class ExcV:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    @property
    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else str(self.cls)

    def __repr__(self):
        return '%s%r' % (self.name, tuple(self.args))


class Opaque:
    """a concrete foreign value of a known type (used as 'unsupported operand')"""

    def __init__(self, tyname):
        self.ty = tyname

    def __repr__(self):
        return '<%s>' % self.ty


class Arr:
    """ndarray of abstract elements; dt in object/float/int/bool"""
    __slots__ = ('a', 'dt', 'kind')

    def __init__(self, a, dt, kind='ndarray'):
        self.a, self.dt, self.kind = a, dt, kind

    @property
    def shape(self):
        return self.a.shape

    def __repr__(self):
        return 'array%s%s:%s' % (self.a.shape, [repr(x) for x in self.a.flat], self.dt)


class ModV:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree, self.ns = name, path, tree, {}
        self.is_cy = path.endswith('.pyx')


class Env:
    __slots__ = ('vars', 'parent', 'fn', 'globals_', 'nonlocals', 'ctypes', 'locals_')

    def __init__(self, parent=None, fn=None):
        self.vars, self.parent, self.fn = {}, parent, fn
        self.globals_, self.nonlocals, self.ctypes = set(), set(), {}
        self.locals_ = set()


NOTIMPL = object()


def mkarr(elems, shape, dt):
    a = np.empty(len(elems), dtype=object)
    for i, e in enumerate(elems):
        a[i] = e
    return Arr(a.reshape(shape), dt)


def is_num(v):
    return isinstance(v, Num) or (isinstance(v, (int, float, F)) and not isinstance(v, bool)) or isinstance(v, bool)


def term(v):
    if isinstance(v, Num):
        return v.t
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, F):
        return lf(v)
    return const(v)


def numty(v):
    if isinstance(v, Num):
        return v.ty
    if isinstance(v, bool):
        return 'int'
    if isinstance(v, int):
        return 'int'
    return 'float'


_loaded = {}


def load_tree(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _loaded:
        src = open(path, encoding='utf-8-sig').read()
        if path.endswith('.pyx'):
            from .cyfront import parse_pyx
            tree = parse_pyx(src)
        else:
            tree = ast.parse(src, path)
        _loaded[key] = tree
    return _loaded[key]


_OPN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.Pow: 'pow', ast.MatMult: 'matmul',
        ast.Mod: 'mod', ast.FloorDiv: 'floordiv', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
        ast.LShift: 'lshift', ast.RShift: 'rshift'}
_UFUNC = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply', 'truediv': 'divide', 'pow': 'power', 'matmul': 'matmul',
          'lt': 'less', 'le': 'less_equal', 'gt': 'greater', 'ge': 'greater_equal', 'eq': 'equal', 'ne': 'not_equal'}
_CMPN = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}
_REFL = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
_SYM = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}


class Stats:
    def __init__(self):
        self.funcs = set()
        self.calls = 0
        self.partitions = 0


class Interp:
    MAXSTEP = 400000

    def __init__(self, repo=None, real=False, stubs=None, stats=None):
        self.repo = repo or REPO
        self.real = real                    # exact arithmetic instead of directed rounding
        self.mods = {}
        self.stubs = stubs or {}            # dotted external or internal function name -> Native
        self.mode = 'N'
        self.decisions, self.pos = [], 0
        self.facts = []
        self.stats = stats or Stats()
        self.depth = 0
        self.steps = 0
        self.fork_overflow = False
        self.underflow = False              # products of tiny factors may round to zero
        self.hooks = {}                     # 'construct' -> fn(interp, cls, args, inst)
        self.stack = []
        self.cur = None
        self.mstack = []                    # modules of the active frames
        self.attrhook = None                # fn(interp, object, attribute) -> value or None
        self.max_forks = 14
        self.max_loop = 200
        self.extattrs = {}
        self.inject, self.injpos, self.entry, self.injected = None, 0, 'N', False

    def may_raise(self):
        """an operation that can fail for some value of the cell (int too large for a double, overflow of a
        power, division): with `inject` = k the k-th such operation under a changed rounding mode raises"""
        if self.inject is not None and self.mode != self.entry:
            self.injpos += 1
            if self.injpos == self.inject:
                self.injected = True
                self.throw(OverflowError, 'injected')

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        if name.startswith('sa_models.'):
            base = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'models', name[len('sa_models.'):])
        for c in (base + '.py', base + '.pyx', os.path.join(base, '__init__.py')):
            if os.path.isfile(c):
                return c
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.find_module(name)
        if path is None:
            raise Abort('module %s not found' % name)
        tree = load_tree(path)
        m = ModV(name, path, tree)
        m.is_pkg = path.endswith('__init__.py')
        self.mods[name] = m
        m.ns['__name__'] = name
        # cdef classes exist before the module body runs
        if m.is_cy:
            for st in tree.body:
                if isinstance(st, ast.ClassDef) and getattr(st, 'is_cdef', False):
                    self.classdef(st, self.menv(m))
        for st in tree.body:
            if m.is_cy and isinstance(st, ast.ClassDef) and getattr(st, 'is_cdef', False):
                continue
            self.stmt(st, self.menv(m))
        return m

    def menv(self, m):
        e = Env(None, None)
        e.vars = m.ns
        e.fn = m
        return e

    def get(self, dotted):
        """abstract value of 'pkg.module:attr.attr'"""
        mod, _, attr = dotted.partition(':')
        v = self.module(mod)
        for a in attr.split('.'):
            if isinstance(v, ModV):
                if a not in v.ns:
                    raise LookupError('%s has no %s' % (v.name, a))
                v = v.ns[a]
            elif isinstance(v, Cls):
                w = v.find(a)
                if w is None:
                    raise LookupError('%s has no %s' % (v.name, a))
                v = w
            else:
                raise LookupError(dotted)
        return v

    def importstmt(self, st, env):
        mod = env_module(env)
        if isinstance(st, ast.Import):
            for al in st.names:
                nm = al.name
                target = self.find_module(nm) if nm.startswith('intvalpy') else None
                if target:
                    self.module(nm)
                    v = self.module(nm if al.asname else nm.split('.')[0])
                else:
                    v = Ext(ext_name(nm) if al.asname else ext_name(nm.split('.')[0]) if not nm.startswith('__') else ext_name(nm))
                self.assign_name(al.asname or nm.split('.')[0], v, env)
            return
        base = st.module or ''
        if st.level:
            pk = mod.name.split('.')
            if not getattr(mod, 'is_pkg', False):
                pk = pk[:-1]
            pk = pk[:len(pk) - (st.level - 1)]
            base = '.'.join(pk + ([st.module] if st.module else []))
        if base.startswith('__extern__') or base.startswith('__cimport__'):
            from . import ext
            for al in st.names:
                self.assign_name(al.asname or al.name, ext.attr(self, ext_name(base), al.name), env)
            return
        if base.split('.')[0] == 'intvalpy':
            try:
                m = self.module(base)
            except Abort:
                for al in st.names:
                    if al.name != '*':
                        self.assign_name(al.asname or al.name, Ext('missing.' + base + '.' + al.name), env)
                return
            for al in st.names:
                if al.name == '*':
                    for k, v in list(m.ns.items()):
                        if not k.startswith('_'):
                            self.assign_name(k, v, env)
                    continue
                if al.name in m.ns:
                    v = m.ns[al.name]
                elif self.find_module(base + '.' + al.name):
                    v = self.module(base + '.' + al.name)
                else:
                    raise Abort('cannot import %s from %s' % (al.name, base))
                self.assign_name(al.asname or al.name, v, env)
            return
        from . import ext
        for al in st.names:
            self.assign_name(al.asname or al.name, ext.attr(self, ext_name(base), al.name), env)

    # ------------------------------------------------------------ partitions
    def choose(self, label):
        if self.pos < len(self.decisions):
            v = self.decisions[self.pos]
        else:
            if len(self.decisions) >= self.max_forks:
                raise Abort('too many undecided branches')
            v = True
            self.decisions.append(True)
        self.pos += 1
        return v

    def run(self, thunk, limit=512):
        """run thunk(interp) over all partitions; yields (kind, value, facts, final_mode)"""
        prefix = []
        n = 0
        while True:
            self.decisions, self.pos, self.facts = list(prefix), 0, []
            self.mode, self.depth, self.steps, self.stack = 'N', 0, 0, []
            self.mstack = []
            self.stats.partitions += 1
            try:
                v = thunk(self)
                res = ('value', v)
            except RaiseEx as e:
                res = ('raise', e.exc)
            except Abort as e:
                res = ('abort', '%s%s' % (e, ' [in %s]' % ' < '.join(reversed(self.stack[-3:])) if self.stack else ''))
            except (tm.Undef, RecursionError) as e:
                res = ('abort', repr(e))
            except (ReturnEx, BreakEx, ContinueEx):
                raise
            except Exception as e:                      # a gap in the model, never a verdict
                if os.environ.get('SA_DEBUG'):
                    raise
                res = ('abort', 'model gap: %s: %s' % (type(e).__name__, e))
            yield res + (list(self.facts), self.mode)
            n += 1
            d = self.decisions[:self.pos]
            while d and d[-1] is False:
                d.pop()
            if not d:
                return
            d[-1] = False
            prefix = d
            if n >= limit:
                yield ('abort', 'partition limit', [], None)
                return

    def decide(self, op, s, t):
        """truth of  s op t  over the cell; splits when undecided"""
        c = tm.cmp_terms(s, t)
        if self.underflow and c in (-1, 1):
            for u, z in ((s, t), (t, s)):
                if z == tm.ZERO and tm.may_underflow(u):
                    v = next((w for o, a, b, w in self.facts if o == 'underflows' and a == u), None)
                    if v is None:
                        v = self.choose('%r underflows' % (u,))
                        self.facts.append(('underflows', u, z, v))
                    if v:
                        c = 0
                    break
        if c is None:
            # a monotone rounding cannot invert an order that holds exactly
            if tm.prove_le(s, t):
                c = 'le'
            elif tm.prove_le(t, s):
                c = 'ge'
        if c == 'nan':
            return op == 'ne'
        if c in (-1, 0, 1):
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        if c == 'le' and op in ('le', 'gt'):
            return op == 'le'
        if c == 'ge' and op in ('ge', 'lt'):
            return op == 'ge'
        for (o, a, b, v) in self.facts:
            if o == op and a == s and b == t:
                return v
            if o == _REFL.get(op) and a == t and b == s:
                return v
            neg = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}
            if o == neg.get(op) and a == s and b == t:
                return not v
            if o == neg.get(_REFL.get(op)) and a == t and b == s:
                return not v
        v = self.implied(op, s, t)
        if v is not None:
            return v
        v = self.choose('%r %s %r' % (s, op, t))
        self.facts.append((op, s, t, v))
        return v

    def implied(self, op, s, t):
        """truth of a comparison with a constant when the remembered comparisons of the same term with constants settle it"""
        cv = lambda x: x.x.cval() if x.k == 'lf' and x.x.is_const() else None
        c = cv(t)
        if c is None:
            s, t, op = t, s, _REFL.get(op, op)
            c = cv(t)
            if c is None:
                return None
        lo = hi = None                      # (value, strict)
        if s.k == 'op' and s.x == 'abs':
            lo = (0, False)
        for o, a, b, v in self.facts:
            k = cv(b) if a == s else None
            if k is None and b == s:
                k, o = cv(a), _REFL.get(o, o)
            if k is None or o not in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
                continue
            if not v:
                o = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[o]
            if o in ('gt', 'ge', 'eq') and (lo is None or (k, o == 'gt') > lo):
                lo = (k, o == 'gt')
            if o in ('lt', 'le', 'eq') and (hi is None or (-k, o == 'lt') > (-hi[0], hi[1])):
                hi = (k, o == 'lt')
        above = lo is not None and (lo[0] > c or lo[0] == c and lo[1])
        below = hi is not None and (hi[0] < c or hi[0] == c and hi[1])
        if above:
            return op in ('gt', 'ge', 'ne')
        if below:
            return op in ('lt', 'le', 'ne')
        if lo is not None and lo[0] == c and op in ('lt', 'ge'):
            return op == 'ge'
        if hi is not None and hi[0] == c and op in ('gt', 'le'):
            return op == 'le'
        return None

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and name not in e.globals_:
                v = e.vars[name]
                return v
            if name in e.locals_ and name not in e.globals_ and name not in e.nonlocals:
                self.throw(UnboundLocalError, name)
            if e.parent is None:
                break
            e = e.parent
        m = env_module(env)
        if m is not None and name in m.ns:
            return m.ns[name]
        if name == 'NotImplemented':
            return NOTIMPL
        if name == 'Ellipsis':
            return Ellipsis
        if hasattr(builtins, name):
            return Ext('builtins.' + name)
        if name in ('__c__', '__cast__'):
            return Ext('builtins.' + name)
        self.throw(NameError, name)

    def assign_name(self, name, v, env):
        if isinstance(env.fn, Cls) and name.startswith('__') and not name.endswith('__'):
            name = self.mangle(name, env)
        if name in env.globals_:
            env_module(env).ns[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            if e is not None:
                e.vars[name] = v
                return
        if name in env.ctypes:
            v = self.coerce(v, env.ctypes[name])
        env.vars[name] = v

    def coerce(self, v, ct):
        if ct in ('double', 'float', 'long double'):
            if isinstance(v, Num):
                if v.ty == 'int':
                    self.may_raise()
                return Num(v.t, 'c')
            if is_num(v):
                return float(v)
            if isinstance(v, (Inst, Arr, str)) or v is None:
                self.throw(TypeError, 'must be real number')
        return v

    def throw(self, cls, *args):
        raise RaiseEx(ExcV(cls, args))

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > self.MAXSTEP:
            raise Abort('step limit')
        self.cur = st
        getattr(self, 's_' + type(st).__name__, self.s_bad)(st, env)

    def s_bad(self, st, env):
        raise Abort('statement ' + type(st).__name__)

    def s_Pass(self, st, env): pass

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env)

    def s_Import(self, st, env): self.importstmt(st, env)
    s_ImportFrom = s_Import

    def s_Global(self, st, env): env.globals_.update(st.names)
    def s_Nonlocal(self, st, env): env.nonlocals.update(st.names)

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        ct = ctype_of(st.annotation)
        if ct and isinstance(st.target, ast.Name):
            env.ctypes[st.target.id] = ct
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = _OPN[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            env_v = self.iop(op, cur, self.ev(st.value, env))
            self.assign_name(t.id, env_v, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, self.mangle(t.attr, env))
            self.setattr(o, self.mangle(t.attr, env), self.iop(op, cur, self.ev(st.value, env)))
        else:
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.iop(op, cur, self.ev(st.value, env)))

    def iop(self, op, cur, v):
        if isinstance(cur, Inst):
            f = cur.cls.find('__i%s__' % op)
            if f is not None:
                r = self.call(Bound(f, cur), [v], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(cur, list) and op == 'add':
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, Arr):
            if isinstance(v, Inst) and v.cls.find('__array_ufunc__'):
                raise Abort('in-place ufunc on ndarray')
            r = self.binop(op, cur, v)
            if isinstance(r, Arr) and r.shape == cur.shape:
                cur.a[...] = r.a
                return cur
            self.throw(ValueError, 'non-broadcastable output operand')
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                mid = vs[i:len(vs) - k]
                vs = vs[:i] + [mid] + vs[len(vs) - k:]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts
            if len(vs) != len(elts):
                self.throw(ValueError, 'unpack')
            for x, y in zip(elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else:
            raise Abort('assignment target')

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst):
                    o.f.pop(t.attr, None)

    def delitem(self, o, k):
        if isinstance(o, Inst):
            f = o.cls.find('__delitem__')
            if f is None:
                self.throw(TypeError, 'no __delitem__')
            self.call(Bound(f, o), [k], {})
        elif isinstance(o, list):
            del o[self.pykey(k)]
        elif isinstance(o, dict):
            del o[k]
        else:
            raise Abort('del')

    def s_Return(self, st, env):
        raise ReturnEx(self.ev(st.value, env) if st.value is not None else None)

    def s_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while self.truth(self.ev(st.test, env)):
            n += 1
            if n > self.max_loop:
                raise Abort('loop bound')
            try:
                self.block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(st.orelse, env)

    def s_For(self, st, env):
        for v in self.iterate(self.ev(st.iter, env)):
            self.assign(st.target, v, env)
            try:
                self.block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.block(st.orelse, env)

    def s_Break(self, st, env): raise BreakEx()
    def s_Continue(self, st, env): raise ContinueEx()

    def s_Raise(self, st, env):
        if st.exc is None:
            raise RaiseEx(getattr(self, 'handling', None) or ExcV(RuntimeError))
        v = self.ev(st.exc, env)
        if isinstance(v, Ext):
            v = self.call(v, [], {})
        if not isinstance(v, ExcV):
            self.throw(TypeError, 'exceptions must derive from BaseException')
        raise RaiseEx(v)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            self.throw(AssertionError, self.ev(st.msg, env) if st.msg is not None else '')

    def s_With(self, st, env):
        self.with_(st.items, st.body, env)

    def with_(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        mgr = self.ev(it.context_expr, env)
        if not isinstance(mgr, Inst):
            raise Abort('context manager')
        en, ex = mgr.cls.find('__enter__'), mgr.cls.find('__exit__')
        if en is None or ex is None:
            self.throw(TypeError, 'context manager protocol')
        v = self.call(Bound(en, mgr), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self.with_(items[1:], body, env)
        except RaiseEx as e:
            if self.truth(self.call(Bound(ex, mgr), [Ext('builtins.Exception'), e.exc, None], {})):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(Bound(ex, mgr), [None, None, None], {})
            raise
        else:
            self.call(Bound(ex, mgr), [None, None, None], {})

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except RaiseEx as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e.exc, self.ev(h.type, env)):
                        if h.name:
                            self.assign_name(h.name, e.exc, env)
                        old = getattr(self, 'handling', None)
                        self.handling = e.exc
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except Abort:
            raise
        except (RaiseEx, ReturnEx, BreakEx, ContinueEx):
            if st.finalbody:
                self.block(st.finalbody, env)
            raise
        else:
            if st.finalbody:
                self.block(st.finalbody, env)

    def exc_match(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_match(exc, s) for s in spec)
        c = exc_class(spec)
        if c is None or not isinstance(exc.cls, type):
            raise Abort('exception class')
        return issubclass(exc.cls, c)

    def s_FunctionDef(self, st, env):
        f = self.mkfunc(st, env)
        v = f
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
                v = {'property': Prop, 'staticmethod': Static, 'classmethod': ClassM}[d.id](v)
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                v = Prop(self.ev(d.value, env).f, v)
            elif isinstance(d, ast.Attribute) and isinstance(d.value, ast.Name) and d.value.id == 'cython':
                pass
            elif isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and isinstance(d.func.value, ast.Name) \
                    and d.func.value.id == 'cython':
                pass
            else:
                v = self.call(self.ev(d, env), [v], {})
        self.assign_name(st.name, v, env)

    def mkfunc(self, node, env):
        a = node.args
        f = Func(node, env, env_module(env), getattr(env, 'fn', None) if isinstance(getattr(env, 'fn', None), Cls) else None)
        f.defaults = [self.ev(d, env) for d in a.defaults]
        f.kwdefaults = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if f.cls is None:
            e = env
            while e is not None and not isinstance(e.fn, Cls):
                if isinstance(e.fn, Func) and e.fn.cls is not None:
                    f.cls_ctx = e.fn.cls
                    break
                e = e.parent
        return f

    def s_ClassDef(self, st, env): self.classdef(st, env)

    def classdef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        c = Cls(st.name, bases, env_module(env), getattr(st, 'is_cdef', False))
        c.node = st
        ce = Env(env, c)
        ce.vars = c.ns
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and ctype_of(s.annotation):
                c.ann[s.target.id] = ctype_of(s.annotation)
                continue
            self.stmt(s, ce)
        for d in st.decorator_list:
            raise Abort('class decorator')
        self.assign_name(st.name, c, env)

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Abort('expression ' + type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env): return n.value
    def e_Name(self, n, env): return self.lookup(n.id, env)

    def mangle(self, attr, env):
        if attr.startswith('__') and not attr.endswith('__'):
            e = env
            while e is not None:
                c = e.fn if isinstance(e.fn, Cls) else getattr(e.fn, 'cls', None) or getattr(e.fn, 'cls_ctx', None)
                if c is not None:
                    return '_%s%s' % (c.name.lstrip('_'), attr)
                e = e.parent
        return attr

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), self.mangle(n.attr, env))

    def e_Tuple(self, n, env): return tuple(self.elts(n.elts, env))
    def e_List(self, n, env): return list(self.elts(n.elts, env))

    def e_Set(self, n, env):
        raise Abort('set display')

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                out.append(x if isinstance(x, str) else '{}')
        return ''.join(out)

    def e_FormattedValue(self, n, env): return '{}'

    def e_Lambda(self, n, env): return self.mkfunc(n, env)

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(n.op, ast.And) and not t or isinstance(n.op, ast.Or) and t:
                return v
        return v

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        return self.unary({ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}[type(n.op)], v)

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        if isinstance(n.op, ast.Mod) and isinstance(a, str):
            return a
        return self.binop(_OPN[type(n.op)], a, b)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env)
            res = self.compare(op, left, right)
            if len(n.ops) > 1 and not self.truth(res):
                return res
            left = right
        return res

    def e_Subscript(self, n, env): return self.getitem(self.ev(n.value, env), self.ev(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else self.pyint(self.ev(x, env))
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Starred(self, n, env):
        raise Abort('starred')

    def comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for v in self.iterate(self.ev(g.iter, e)):
                self.assign(g.target, v, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    rec(i + 1, e)
        ce = Env(env, None)
        rec(0, ce)

    def e_ListComp(self, n, env):
        out = []
        self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, env):
        d = {}
        self.comp(n.generators, env, lambda e: d.__setitem__(self.ev(n.key, e), self.ev(n.value, e)))
        return d

    def e_Call(self, n, env):
        f = self.ev(n.func, env)
        args = self.elts(n.args, env)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        if isinstance(f, Ext) and f.path in ('builtins.locals', 'builtins.globals', 'builtins.eval', 'builtins.exec'):
            raise Abort(f.path)
        return self.call(f, args, kw)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            key = '%s:%s' % (f.module.name if f.module else '', f.name)
            if key in self.stubs:
                return self.stubs[key].fn(self, args, kw)
            return self.callfunc(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.f, Func):
                key = '%s:%s.%s' % (f.f.module.name, f.f.cls.name if f.f.cls else '', f.f.name)
                if key in self.stubs:
                    return self.stubs[key].fn(self, [f.s] + list(args), kw)
                return self.callfunc(f.f, [f.s] + list(args), kw)
            return self.call(f.f, [f.s] + list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Vec):
            return self.vectorized(f.f, args)
        if isinstance(f, Static):
            return self.call(f.f, args, kw)
        if isinstance(f, Ext):
            if f.path in self.stubs:
                return self.stubs[f.path].fn(self, args, kw)
            from . import ext
            return ext.call(self, f.path, args, kw)
        if isinstance(f, Inst):
            c = f.cls.find('__call__')
            if c is not None:
                return self.call(Bound(c, f), args, kw)
        raise Abort('call of %r' % (f,))

    def callfunc(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Abort('recursion')
        self.stats.calls += 1
        if f.module is not None:
            self.stats.funcs.add('%s:%s%s' % (f.module.name, (f.cls.name + '.') if f.cls else '', f.name))
        env = Env(f.env if not isinstance(getattr(f.env, 'fn', None), Cls) else f.env.parent, f)
        a = f.node.args
        self.mstack.append(f.module.name if f.module is not None else '')
        try:
            self.bind(f, a, list(args), dict(kw), env)
            if isinstance(f.node, ast.Lambda):
                return self.unc(self.ev(f.node.body, env), f)
            env.locals_ = local_names(f.node)
            for st in f.node.body:
                if isinstance(st, (ast.AnnAssign,)) and isinstance(st.target, ast.Name) and ctype_of(st.annotation):
                    env.ctypes[st.target.id] = ctype_of(st.annotation)
            self.stack.append(f.name)
            if len(self.stack) > 80:
                raise Abort('stack')
            if is_generator(f.node):
                raise Abort('generator function')
            try:
                self.block(f.node.body, env)
            except ReturnEx as r:
                self.stack.pop()
                return self.unc(r.v, f)
            except RaiseEx:
                self.stack.pop()
                raise
            self.stack.pop()
            return None
        finally:
            self.depth -= 1
            self.mstack.pop()

    def unc(self, v, f):
        """C doubles become Python floats when they leave a Python-level function"""
        if isinstance(v, Num) and v.ty == 'c' and not f.is_c:
            return Num(v.t, 'float')
        if isinstance(v, tuple):
            return tuple(self.unc(x, f) for x in v)
        return v

    def bind(self, f, a, args, kw, env):
        params = list(a.posonlyargs) + list(a.args)
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if i < len(args):
                v = args[i]
                if p.arg in kw:
                    self.throw(TypeError, 'multiple values for ' + p.arg)
            elif p.arg in kw:
                v = kw.pop(p.arg)
            elif i >= len(params) - nd:
                v = f.defaults[i - (len(params) - nd)]
            else:
                self.throw(TypeError, 'missing argument ' + p.arg)
            ct = ctype_of(p.annotation) if p.annotation is not None else None
            if ct:
                env.ctypes[p.arg] = ct
                v = self.coerce(v, ct)
            elif isinstance(v, Num) and v.ty == 'c' and not f.is_c:
                v = Num(v.t, 'float')
            env.vars[p.arg] = v
        extra = args[len(params):]
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(extra)
        elif extra:
            self.throw(TypeError, 'too many arguments for ' + f.name)
        for p in a.kwonlyargs:
            if p.arg in kw:
                env.vars[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env.vars[p.arg] = f.kwdefaults[p.arg]
            else:
                self.throw(TypeError, 'missing keyword ' + p.arg)
        if a.kwarg:
            env.vars[a.kwarg.arg] = kw
        elif kw:
            self.throw(TypeError, 'unexpected keyword %s for %s' % (sorted(kw), f.name))

    def instantiate(self, cls, args, kw):
        args = [Num(v.t, 'float') if isinstance(v, Num) and v.ty == 'c' else v for v in args]
        o = Inst(cls)
        for c in reversed(cls.mro()):
            for k, ct in c.ann.items():
                o.f[k] = 0.0 if ct in ('double', 'float') else (0 if ct != 'object' else None)
        h = self.hooks.get('construct')
        ci = cls.find('__cinit__')
        if ci is not None:
            self.callfunc(ci, [o] + list(args), kw)
        ini = cls.find('__init__')
        if ini is not None:
            self.call(Bound(ini, o), args, kw)
        elif ci is None and (args or kw):
            self.throw(TypeError, '%s takes no arguments' % cls.name)
        if h is not None:
            h(self, cls, args, o)
        return o

    def vectorized(self, f, args):
        arrs = [self.toarr(x) if not isinstance(x, Arr) else x for x in args]
        shapes = [x.shape for x in arrs]
        try:
            shp = np.broadcast_shapes(*shapes)
        except ValueError:
            self.throw(ValueError, 'shape mismatch')
        bs = [np.broadcast_to(x.a, shp) for x in arrs]
        n = int(np.prod(shp, dtype=int))
        if n == 0:
            self.throw(ValueError, 'cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        out = []
        for idx in np.ndindex(*shp):
            xs = []
            for b, x in zip(bs, arrs):
                e = b[idx]
                if x.dt == 'float' and isinstance(e, Num):
                    e = Num(e.t, 'np')
                xs.append(e)
            out.append(self.call(f, xs, {}))
        r = self.pack(out, shp)
        first = out[0]                 # numpy takes the type of the first value for the whole result
        if is_num(first) and r.dt == 'float' and numty(first) in ('int', 'npint') and not isinstance(first, bool):
            for x in out:
                if is_num(x) and term(x).k == 'sp':
                    self.throw(ValueError, 'cannot convert %r to integer' % (x,))
            return mkarr([self.trunc(x) for x in out], shp, 'int')
        return r

    def pack(self, out, shp):
        """array from results, with numpy's dtype inference"""
        if all(isinstance(x, bool) for x in out):
            return mkarr(out, shp, 'bool')
        if all(is_num(x) for x in out):
            dt = 'int' if all(numty(x) in ('int', 'npint') for x in out) else 'float'
            return mkarr([self.tonp(x, dt) for x in out], shp, dt)
        return mkarr(out, shp, 'object')

    def tonp(self, x, dt):
        if dt == 'float':
            return Num(term(x), 'np')
        return x

    def toarr(self, x, dtype=None):
        if isinstance(x, Arr):
            return x
        if isinstance(x, Inst):
            f = x.cls.find('__array__')
            if f is not None:
                r = self.call(Bound(f, x), [], {})
                if isinstance(r, Arr):
                    return r
                raise Abort('__array__')
            return mkarr([x], (), 'object')
        if is_num(x):
            dt = 'bool' if isinstance(x, bool) else 'int' if numty(x) == 'int' else 'float'
            return mkarr([x], (), dt)
        if isinstance(x, range):
            x = list(x)
        if isinstance(x, (list, tuple)):
            if not x:
                return mkarr([], (0,), 'float')
            subs = []
            for y in x:
                if isinstance(y, Inst) and y.cls.find('__array__') is not None:
                    # numpy looks for a sequence first: length and items
                    subs.append(self.toarr(y))
                elif isinstance(y, (list, tuple, Arr, range)) or is_num(y) or isinstance(y, Inst):
                    subs.append(self.toarr(y))
                else:
                    subs.append(mkarr([y], (), 'object'))
            if len({s.shape for s in subs}) != 1:
                self.throw(ValueError, 'inhomogeneous shape')
            a = np.stack([s.a for s in subs]) if subs[0].a.ndim else None
            if a is None:
                a = np.empty(len(subs), dtype=object)
                for i, s in enumerate(subs):
                    a[i] = s.a[()]
            dts = {s.dt for s in subs}
            dt = 'object' if 'object' in dts else 'float' if 'float' in dts else 'int' if 'int' in dts else 'bool'
            return Arr(a, dt)
        return mkarr([x], (), 'object')

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if self.attrhook is not None:
            r = self.attrhook(self, o, name)
            if r is not None:
                return r
        if isinstance(o, Inst):
            d = o.cls.find(name)
            if isinstance(d, Prop):
                return self.call(d.f, [o], {})
            if name in o.f:
                v = o.f[name]
                if o.cls.is_cdef:
                    for c in o.cls.mro():
                        if c.ann.get(name) == 'double' and isinstance(v, Num):
                            return Num(v.t, 'c')
                return v
            if o.cls.is_cdef and d is None:
                # fields of a compiled class are zero (objects: None) until assigned
                ct = next((c.ann[name] for c in o.cls.mro() if name in c.ann), None)
                if ct is not None:
                    return 0 if ct in ('int', 'bint', 'long', 'Py_ssize_t') else Num(tm.ZERO, 'c') if ct in ('double', 'double_t', 'float') else None
            if d is not None:
                if isinstance(d, Func):
                    return Bound(d, o)
                if isinstance(d, Static):
                    return d.f
                if isinstance(d, ClassM):
                    return Bound(d.f, o.cls)
                return d
            if name == '__class__':
                return o.cls
            if name == '__dict__' and not o.cls.is_cdef:
                return o.f
            g = o.cls.find('__getattr__')
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            self.throw(AttributeError, '%s.%s' % (o.cls.name, name))
        if isinstance(o, Cls):
            d = o.find(name)
            if isinstance(d, ClassM):
                return Bound(d.f, o)
            if isinstance(d, Static):
                return d.f
            if d is None:
                if name == '__name__':
                    return o.name
                if name == '__new__' and not any(c.is_cdef for c in o.mro()):
                    return Native(lambda I, a, k: Inst(a[0]), '__new__')
                if name == '__new__':
                    return Native(lambda I, a, k: I.instantiate(a[0], list(a[1:]), k), '__new__')
                self.throw(AttributeError, '%s.%s' % (o.name, name))
            return d
        if isinstance(o, ModV):
            if name in o.ns:
                return o.ns[name]
            self.throw(AttributeError, name)
        if isinstance(o, Ext):
            from . import ext
            return ext.attr(self, o.path, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
        from . import ext
        return ext.method(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            d = o.cls.find(name)
            if isinstance(d, Prop):
                if d.setter is None:
                    self.throw(AttributeError, 'property %s of %s has no setter' % (name, o.cls.name))
                self.call(d.setter, [o, v], {})
                return
            if o.cls.is_cdef:
                for c in o.cls.mro():
                    if name in c.ann:
                        o.f[name] = self.coerce(v, c.ann[name])
                        return
                self.throw(AttributeError, '%s.%s' % (o.cls.name, name))
            sa = o.cls.find('__setattr__')
            if sa is not None:
                self.call(Bound(sa, o), [name, v], {})
                return
            o.f[name] = v
            return
        if isinstance(o, Cls):
            o.ns[name] = v
            return
        if isinstance(o, ModV):
            o.ns[name] = v
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            self.extattrs[o.path + '.' + name] = v
            return
        raise Abort('setattr on %r' % (o,))

    # ------------------------------------------------------------ items
    def pyint(self, v):
        if v is None or isinstance(v, int):
            return v
        if isinstance(v, Num) and v.t.k == 'lf' and v.t.x.is_const() and v.t.x.cval().denominator == 1 \
                and v.ty in ('int', 'npint'):
            return int(v.t.x.cval())
        if isinstance(v, (np.integer,)):
            return int(v)
        if isinstance(v, (float, Num)):
            self.throw(TypeError, 'integer expected')
        raise Abort('index %r' % (v,))

    def pykey(self, k):
        if isinstance(k, slice) or k is None or k is Ellipsis or isinstance(k, (bool,)):
            return k
        if isinstance(k, tuple):
            return tuple(self.pykey(x) for x in k)
        if isinstance(k, range):
            return np.array(list(k), dtype=int)
        if isinstance(k, list):
            if k and all(isinstance(x, bool) for x in k):
                return np.array(k, dtype=bool)
            return np.array([self.pykey(x) for x in k], dtype=int)
        if isinstance(k, Arr):
            if k.dt == 'bool':
                return k.a.astype(bool) if k.a.ndim else bool(k.a[()])
            out = np.empty(k.a.shape, dtype=int)
            for i in np.ndindex(*k.a.shape):
                out[i] = self.pyint(k.a[i])
            return out
        if k == Ext('numpy.newaxis'):
            return None
        return self.pyint(k)

    def getitem(self, o, k):
        if isinstance(o, Inst):
            f = o.cls.find('__getitem__')
            if f is None:
                self.throw(TypeError, '%s is not subscriptable' % o.cls.name)
            return self.call(Bound(f, o), [k], {})
        if isinstance(o, Arr):
            kk = self.pykey(k)
            try:
                r = o.a[kk]
            except IndexError:
                self.throw(IndexError, 'index')
            if isinstance(r, np.ndarray):
                return Arr(r, o.dt)
            if o.dt == 'float' and is_num(r):
                return Num(term(r), 'np')
            return r
        if isinstance(o, (list, tuple, str, range)):
            kk = self.pykey(k)
            try:
                return o[kk]
            except IndexError:
                self.throw(IndexError, 'index')
        if isinstance(o, dict):
            if k in o:
                return o[k]
            self.throw(KeyError, k)
        if is_num(o):
            self.throw(TypeError, 'number is not subscriptable')
        raise Abort('getitem on %r' % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, Inst):
            f = o.cls.find('__setitem__')
            if f is None:
                self.throw(TypeError, '%s does not support item assignment' % o.cls.name)
            self.call(Bound(f, o), [k, v], {})
            return
        if isinstance(o, Arr):
            kk = self.pykey(k)
            if isinstance(v, Inst) and v.cls.find('__array__') is not None and v.cls.find('__len__') is not None:
                v = self.toarr(v)
            if isinstance(v, (list, tuple, range)):
                v = self.toarr(v)
            try:
                if isinstance(v, Arr):
                    src = v.a
                    if o.dt in ('float', 'int'):
                        src = self.castarr(v, o.dt).a
                    o.a[kk] = src if src.ndim else src[()]
                else:
                    if o.dt == 'float' and is_num(v):
                        v = Num(term(v), 'np')
                    elif o.dt == 'int' and is_num(v):
                        v = self.trunc(v)
                    elif o.dt in ('float', 'int') and isinstance(v, Inst):
                        self.throw(TypeError, 'float() argument must be a real number')
                    tmp = np.empty((), dtype=object)
                    tmp[()] = v
                    sub = o.a[kk]
                    if isinstance(sub, np.ndarray):
                        o.a[kk] = np.broadcast_to(tmp, sub.shape)
                    else:
                        o.a[kk] = v
            except IndexError:
                self.throw(IndexError, 'index')
            except ValueError:
                self.throw(ValueError, 'shape')
            return
        if isinstance(o, list):
            try:
                o[self.pykey(k)] = v
            except IndexError:
                self.throw(IndexError, 'index')
            return
        if isinstance(o, dict):
            o[k] = v
            return
        if isinstance(o, (tuple, str)) or is_num(o):
            self.throw(TypeError, 'item assignment')
        if isinstance(o, Ext):
            return               # settings of a foreign library
        raise Abort('setitem on %r' % (o,))

    def trunc(self, e):
        """value stored in an integer array"""
        if isinstance(e, (bool, int)) or not is_num(e) or isinstance(e, Num) and e.ty in ('int', 'npint'):
            return e
        t = term(e)
        if t.k == 'lf' and not t.x.vars():
            return int(t.x.at({}))
        return Num(tm.fn('trunc', (t,)), 'npint')

    def castarr(self, x, dt):
        if x.dt == dt:
            return x
        out = []
        for e in x.a.flat:
            if dt == 'float':
                if isinstance(e, Inst):
                    self.throw(TypeError, 'float() argument must be a real number')
                out.append(Num(term(e), 'np'))
            elif dt == 'bool':
                out.append(self.truth(e))
            elif dt == 'int':
                out.append(self.trunc(e))
            else:
                out.append(Num(e.t, 'float') if isinstance(e, Num) and e.ty == 'np' else e)
        return mkarr(out, x.a.shape, dt)

    def iterate(self, v):
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if not v.a.ndim:
                self.throw(TypeError, 'iteration over a 0-d array')
            return [self.getitem(v, i) for i in range(v.a.shape[0])]
        if isinstance(v, Inst):
            f = v.cls.find('__iter__')
            if f is not None:
                return self.iterate(self.call(Bound(f, v), [], {}))
            f = v.cls.find('__getitem__')
            if f is None:
                self.throw(TypeError, '%s is not iterable' % v.cls.name)
            out = []
            i = 0
            while True:
                try:
                    out.append(self.call(Bound(f, v), [i], {}))
                except RaiseEx as e:
                    if e.exc.cls is IndexError:
                        return out
                    raise
                i += 1
                if i > 64:
                    raise Abort('iteration')
        if is_num(v) or v is None:
            self.throw(TypeError, 'not iterable')
        raise Abort('iterate %r' % (v,))

    # ------------------------------------------------------------ truth / comparison
    def truth(self, v):
        if isinstance(v, bool) or v is None:
            return bool(v)
        if isinstance(v, (int, float, str, list, tuple, dict, range)):
            return bool(v)
        if isinstance(v, Num):
            return self.decide('ne', v.t, tm.ZERO)
        if isinstance(v, Arr):
            if v.a.size == 1:
                return self.truth(v.a.reshape(-1)[0])
            self.throw(ValueError, 'truth value of an array is ambiguous')
        if isinstance(v, Inst):
            f = v.cls.find('__bool__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            f = v.cls.find('__len__')
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Func, Cls, Bound, Ext, Native, Vec, ModV, ExcV, slice)):
            return True
        raise Abort('truth of %r' % (v,))

    def compare(self, op, a, b):
        k = type(op)
        if k in (ast.Is, ast.IsNot):
            r = self.same(a, b)
            return r if k is ast.Is else not r
        if k in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if k is ast.In else not r
        return self.cmp(_CMPN[k], a, b)

    def same(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, Num) or isinstance(b, Num):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        return a is b

    def contains(self, seq, x):
        if isinstance(seq, Inst):
            f = seq.cls.find('__contains__')
            if f is not None:
                return self.truth(self.call(Bound(f, seq), [x], {}))
        if isinstance(seq, dict):
            return x in seq
        if isinstance(seq, str):
            return x in seq
        for y in self.iterate(seq):
            if y is x:
                return True
            if self.truth(self.cmp('eq', x, y)):
                return True
        return False

    def cmp(self, op, a, b):
        if is_num(a) and is_num(b):
            if not isinstance(a, Num) and not isinstance(b, Num):
                return getattr(__import__('operator'), op)(a, b)
            return self.decide(op, term(a), term(b))
        if isinstance(a, (Arr,)) or isinstance(b, Arr):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst) and isinstance(y, Arr) and x.cls.find('__array_ufunc__') is not None \
                        and isinstance(a, Arr):
                    return self.call(Bound(x.cls.find('__array_ufunc__'), x),
                                     [Ext('numpy.' + _UFUNC[op]), '__call__', a, b], {})
            if isinstance(a, Arr) and not isinstance(b, Inst) or isinstance(a, Arr) and isinstance(b, Arr) or \
                    (isinstance(b, Arr) and not isinstance(a, Inst)):
                return self.elementwise(lambda x, y: self.cmp(op, x, y), a, b)
            if isinstance(a, Arr):
                return self.elementwise(lambda x, y: self.cmp(op, x, y), a, b)
        if isinstance(a, Num) and a.ty in ('np', 'npint') and isinstance(b, Inst) and b.cls.find('__array_ufunc__'):
            return self.call(Bound(b.cls.find('__array_ufunc__'), b), [Ext('numpy.' + _UFUNC[op]), '__call__', a, b], {})
        for x, y, o in ((a, b, op), (b, a, _REFL[op])):
            if isinstance(x, Inst):
                f = x.cls.find('__%s__' % o)
                if f is not None:
                    r = self.call(Bound(f, x), [y], {})
                    if r is not NOTIMPL:
                        return r
                elif o == 'ne' and x.cls.find('__eq__') is not None:
                    r = self.call(Bound(x.cls.find('__eq__'), x), [y], {})
                    if r is not NOTIMPL:
                        return not self.truth(r)
        if isinstance(a, (list, tuple)) and type(a) is type(b):
            if op in ('eq', 'ne'):
                r = len(a) == len(b) and all(self.truth(self.cmp('eq', x, y)) for x, y in zip(a, b))
                return r if op == 'eq' else not r
            raise Abort('sequence order')
        if isinstance(a, str) and isinstance(b, str):
            return getattr(__import__('operator'), op)(a, b)
        if op in ('eq', 'ne') and (isinstance(a, Ext) or isinstance(b, Ext)):
            from . import ext
            u, v = ext.rmode(a), ext.rmode(b)           # rounding modes: a constant of fenv.h or a remembered one
            if u is not None and v is not None and 'M0' not in (u, v):
                return (u == v) == (op == 'eq')
        if op in ('eq', 'ne'):
            r = a is b
            if isinstance(a, Ext) and isinstance(b, Ext):
                r = a == b
            return r if op == 'eq' else not r
        self.throw(TypeError, "'%s' not supported" % _SYM[op])

    # ------------------------------------------------------------ arithmetic
    def elementwise(self, f, a, b):
        A, B = self.toarr(a), self.toarr(b)
        if A.dt == 'object' and B.dt != 'object':
            B = self.castarr(B, 'object')
        elif B.dt == 'object' and A.dt != 'object':
            A = self.castarr(A, 'object')
        try:
            shp = np.broadcast_shapes(A.shape, B.shape)
        except ValueError:
            self.throw(ValueError, 'operands could not be broadcast')
        X, Y = np.broadcast_to(A.a, shp), np.broadcast_to(B.a, shp)
        out = []
        for i in np.ndindex(*shp):
            out.append(f(X[i], Y[i]))
        dt = None
        if A.dt == 'object' or B.dt == 'object':
            if all(isinstance(x, bool) for x in out) and out:
                dt = 'bool'
            else:
                dt = 'object'
        if not out:
            return mkarr([], shp, A.dt)
        r = self.pack(out, shp)
        if dt == 'object' and r.dt != 'object':
            r = Arr(r.a, 'object')
        if not shp:
            return r.a[()] if r.dt != 'float' else Num(term(r.a[()]), 'np')
        return r

    def num_mode(self, a, b):
        if self.real:
            return 'R'
        ta, tb = numty(a), numty(b)
        ca = ta == 'c' or not isinstance(a, Num)
        cb = tb == 'c' or not isinstance(b, Num)
        if ca and cb and 'c' in (ta, tb) and self.mode != 'N':
            return '?'
        return self.mode

    def arith(self, op, a, b):
        if not isinstance(a, Num) and not isinstance(b, Num):
            if self.mode == 'N' or self.real or (isinstance(a, int) and isinstance(b, int)):
                try:
                    if isinstance(a, F) or isinstance(b, F):
                        raise TypeError
                    if self.real and isinstance(a, (int, float)) and isinstance(b, (int, float)) and op == 'truediv' \
                            and b != 0 and not (a != a or a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf'))):
                        return Num(lf(F(a) / F(b)), 'float')
                    return getattr(__import__('operator'), {'and': 'and_', 'or': 'or_'}.get(op, op))(a, b)
                except ZeroDivisionError:
                    self.throw(ZeroDivisionError, 'division by zero')
                except (TypeError, OverflowError):
                    pass
            a = Num(term(a), numty(a))
        ta, tb = numty(a), numty(b)
        s, t = term(a), term(b)
        mode = self.num_mode(a, b)
        if op in ('pow', 'truediv') or 'int' in (ta, tb) and ta != tb:
            self.may_raise()
        ints = ta in ('int', 'npint') and tb in ('int', 'npint')
        if 'np' in (ta, tb) or 'npint' in (ta, tb):
            ty = 'np' if 'np' in (ta, tb) or 'float' in (ta, tb) or 'c' in (ta, tb) or op == 'truediv' else 'npint'
        elif ta == 'c' and (tb == 'c' or not isinstance(b, Num)) or tb == 'c' and not isinstance(a, Num):
            ty = 'c'
        elif ints and op != 'truediv':
            ty = 'int'
        else:
            ty = 'float'
        if op == 'add':
            return Num(tm.add(s, t, mode, exact=ints), ty)
        if op == 'sub':
            return Num(tm.sub(s, t, mode, exact=ints), ty)
        if op == 'mul':
            return Num(tm.mul(s, t, mode, exact=ints), ty)
        if op == 'truediv':
            z = tm.cmp_terms(t, tm.ZERO)
            if z is None and not (t.k == 'sp'):
                if self.decide('eq', t, tm.ZERO):
                    z = 0
            if z == 0:
                if 'np' in (ta, tb) or 'npint' in (ta, tb):
                    sg = tm.sign(s)
                    if sg is None:
                        raise Abort('numpy division by zero')
                    return Num({1: tm.T_INF, -1: tm.T_NINF, 0: tm.T_NAN}[sg], 'np')
                self.throw(ZeroDivisionError, 'float division by zero')
            return Num(tm.div(s, t, mode), ty)
        if op == 'pow':
            return self.power(a, b, s, t, ty, ints, mode)
        if op in ('mod', 'floordiv'):
            if t.k == 'lf' and not t.x.d:
                self.throw(ZeroDivisionError, 'modulo by zero')
            if s.k == 'lf' and t.k == 'lf' and s.x.is_const() and t.x.is_const():
                x, y = s.x.cval(), t.x.cval()
                return Num(lf(x % y if op == 'mod' else F(x // y)), ty)
            if op == 'mod' and s.k == 'lf' and t == lf(2):
                par = self.parity(s.x)
                if par is not None:
                    return Num(lf(par), ty)
            return Num(tm.fn(op, (s, t)), ty)
        raise Abort('numeric operator ' + op)

    parities = {}

    def parity(self, p):
        r = 0
        for m, c in p.d.items():
            if c.denominator != 1:
                return None
            q = int(c) % 2
            for v, k in m:
                pv = self.parities.get(v)
                if pv is None or k < 0:
                    if q == 0:
                        q = 0
                        break
                    return None
                q = q * pv
            r = (r + q) % 2
        return r

    def power(self, a, b, s, t, ty, ints, mode):
        if t.k == 'lf' and t.x.is_const():
            k = t.x.cval()
            if k == 0:
                return Num(tm.ONE, ty) if numty(a) not in ('int',) else 1
            if k == 1:
                return Num(s, ty)
            if k == 2 and mode == 'R':
                return Num(tm.mul(s, s), ty)
            if k.denominator == 1 and 0 < k <= 12:
                if s.k == 'lf':
                    r = s.x
                    for _ in range(int(k) - 1):
                        r = r * s.x
                    e = lf(r)
                    if s.x.is_const() and s.x.cval() in (0, 1, -1):
                        return Num(e, ty)
                else:
                    if mode == 'R':
                        r = s
                        for _ in range(int(k) - 1):
                            r = tm.mul(r, s)
                        return Num(r, ty)
                    e = tm.fn('**', (s, t))
                return Num(e if ints or mode == 'R' else tm.rnd('L', e), ty)
            if k.denominator == 1 and k < 0 and mode == 'R':
                inv = self.arith('truediv', 1, a)
                return self.power(inv, -int(k), term(inv), lf(-k), ty, ints, mode)
        if s.k == 'lf' and s.x.is_const() and s.x.cval() == 1:
            return Num(tm.ONE, ty)
        return Num(tm.fn('**', (s, t)) if mode == 'R' else tm.rnd('L', tm.fn('**', (s, t))), ty)

    def binop(self, op, a, b):
        if is_num(a) and is_num(b):
            if isinstance(a, bool) and isinstance(b, bool) and op in ('and', 'or', 'xor'):
                return {'and': a and b, 'or': a or b, 'xor': a != b}[op]
            return self.arith(op, a, b)
        if isinstance(a, Inst):
            f = a.cls.find('__%s__' % op)
            if f is not None:
                r = self.call(Bound(f, a), [b], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Inst) and (isinstance(a, Arr) or isinstance(a, Num) and a.ty in ('np', 'npint')):
            f = b.cls.find('__array_ufunc__')
            if f is not None and op in _UFUNC:
                r = self.call(Bound(f, b), [Ext('numpy.' + _UFUNC[op]), '__call__', a, b], {})
                if r is NOTIMPL:
                    self.throw(TypeError, 'ufunc')
                return r
        if isinstance(a, Arr) or isinstance(b, Arr):
            if not isinstance(a, Inst) or isinstance(b, Arr):
                if op == 'matmul':
                    return self.matmul(a, b)
                if op == 'mul' and isinstance(a, (list, tuple)) and False:
                    pass
                if isinstance(a, Arr) and (isinstance(b, (Arr, list, tuple, Inst)) or is_num(b)) or \
                        isinstance(b, Arr) and (isinstance(a, (list, tuple)) or is_num(a)):
                    return self.elementwise(lambda x, y: self.binop(op, x, y), a, b)
        if isinstance(b, Inst):
            f = b.cls.find('__r%s__' % op)
            if f is not None:
                r = self.call(Bound(f, b), [a], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(a, (list, tuple)) and op == 'add' and type(a) is type(b):
            return a + b
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (list, tuple, str)) and (isinstance(y, int) or isinstance(y, Num) and y.ty == 'int'):
                    return x * self.pyint(y)
        if isinstance(a, str) and op == 'add' and isinstance(b, str):
            return a + b
        for v in (a, b):
            if isinstance(v, Native) or not isinstance(v, (Inst, Arr, str, list, tuple, dict, Opaque, Func, Cls, type(None))) \
                    and not is_num(v):
                raise Abort('operator %s on %r, %r' % (op, a, b))
        self.throw(TypeError, 'unsupported operand types for %s' % op)

    def matmul(self, a, b):
        A, B = self.toarr(a), self.toarr(b)
        if A.a.ndim == 0 or B.a.ndim == 0:
            self.throw(ValueError, 'matmul: scalar operand')
        if 'object' in (A.dt, B.dt):
            A, B = self.castarr(A, 'object'), self.castarr(B, 'object')
        X = A.a if A.a.ndim > 1 else A.a.reshape(1, -1)
        Y = B.a if B.a.ndim > 1 else B.a.reshape(-1, 1)
        if X.ndim != 2 or Y.ndim != 2:
            raise Abort('matmul of higher rank')
        if X.shape[1] != Y.shape[0]:
            self.throw(ValueError, 'matmul: dimension mismatch')
        out = np.empty((X.shape[0], Y.shape[1]), dtype=object)
        for i in range(X.shape[0]):
            for j in range(Y.shape[1]):
                acc = None
                for k in range(X.shape[1]):
                    p = self.binop('mul', X[i, k], Y[k, j])
                    acc = p if acc is None else self.binop('add', acc, p)
                out[i, j] = acc if acc is not None else 0.0
        dt = 'object' if A.dt == 'object' else 'float' if 'float' in (A.dt, B.dt) else 'int'
        if A.a.ndim == 1:
            out = out[0]
        if B.a.ndim == 1:
            out = out[..., 0]
            if isinstance(out, np.ndarray) and out.ndim == 0:
                out = out[()]
        if not isinstance(out, np.ndarray):
            return Num(term(out), 'np') if is_num(out) and dt == 'float' else out
        return Arr(out, dt)

    def unary(self, op, v):
        if is_num(v):
            if op == 'neg':
                return Num(tm.neg(v.t), v.ty) if isinstance(v, Num) else -v
            if op == 'pos':
                return v
            if op == 'invert' and isinstance(v, (bool, int)):
                return ~v
            self.throw(TypeError, 'bad operand for unary')
        if isinstance(v, Inst):
            f = v.cls.find('__%s__' % op)
            if f is not None:
                return self.call(Bound(f, v), [], {})
            self.throw(TypeError, 'bad operand for unary ' + op)
        if isinstance(v, Arr):
            if op == 'invert':
                if v.dt != 'bool':
                    raise Abort('~ on ' + v.dt)
                return mkarr([not self.truth(x) for x in v.a.flat], v.shape, 'bool')
            return mkarr([self.unary(op, x) for x in v.a.flat], v.shape, v.dt)
        if isinstance(v, Opaque) or isinstance(v, (str, list, tuple, dict)) or v is None:
            self.throw(TypeError, 'bad operand for unary')
        raise Abort('unary on %r' % (v,))

    def abs_(self, v):
        if is_num(v):
            return Num(tm.absval(v.t), v.ty) if isinstance(v, Num) else abs(v)
        if isinstance(v, Inst):
            f = v.cls.find('__abs__')
            if f is None:
                self.throw(TypeError, 'abs')
            return self.call(Bound(f, v), [], {})
        if isinstance(v, Arr):
            return mkarr([self.abs_(x) for x in v.a.flat], v.shape, v.dt)
        self.throw(TypeError, 'bad operand type for abs()')


# --------------------------------------------------------------------------- helpers
def ext_name(n):
    n = n.replace('__cimport__.', '').replace('__extern__.', '')
    return {'np': 'numpy'}.get(n, n)


def env_module(env):
    e = env
    while e.parent is not None:
        e = e.parent
    return e.fn if isinstance(e.fn, ModV) else None


def ctype_of(ann):
    if isinstance(ann, ast.Call) and isinstance(ann.func, ast.Name) and ann.func.id == '__c__':
        return ann.args[0].value
    return None


_ln = {}


def local_names(node):
    k = id(node)
    if k not in _ln:
        out = set()

        class V(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, ast.Store):
                    out.add(n.id)

            def visit_FunctionDef(self, n):
                out.add(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass
            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

            def visit_ClassDef(self, n):
                out.add(n.name)

            def visit_ExceptHandler(self, n):
                if n.name:
                    out.add(n.name)
                self.generic_visit(n)
        v = V()
        for st in node.body:
            v.visit(st)
        g = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                g |= set(n.names)
        _ln[k] = (node, out - g)
    return _ln[k][1]


_gen = {}


def is_generator(node):
    k = id(node)
    if k not in _gen:
        found = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                found = True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(n))
        _gen[k] = (node, found)
    return _gen[k][1]


def exc_class(v):
    if isinstance(v, Ext) and v.path.startswith('builtins.'):
        c = getattr(builtins, v.path[9:], None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return c
    if isinstance(v, Ext) and v.path == 'numpy.linalg.LinAlgError':
        return ValueError
    return None
