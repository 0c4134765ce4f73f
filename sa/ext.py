"""Model of the outside world used by the abstract interpreter: Python builtins, math/libm,
fenv, and the parts of numpy / itertools the library relies on."""
import builtins
import itertools
import math
from fractions import Fraction as F

import numpy as np

from . import terms as tm
from .terms import lf, const
from .absint import (Abort, Arr, Bound, Cls, ClassM, ExcV, Ext, Func, Inst, ModV, Native, Num, Opaque, Prop, RaiseEx, Static,
                     Vec, exc_class, is_num, mkarr, numty, term)

ROUND = {'FE_DOWNWARD': 'D', 'FE_UPWARD': 'U', 'FE_TONEAREST': 'N', 'FE_TOWARDZERO': 'Z'}
CONST = {
    'math.pi': math.pi, 'numpy.pi': math.pi, 'math.inf': math.inf, 'numpy.inf': math.inf, 'numpy.nan': math.nan,
    'math.nan': math.nan, 'libc.math.INFINITY': math.inf, 'libc.math.NAN': math.nan, 'numpy.newaxis': None,
    'libc.float.DBL_MAX': 1.7976931348623157e308, 'libc.float.DBL_MIN': 2.2250738585072014e-308,
    'libc.math.M_PI': math.pi, 'math.e': math.e, 'numpy.e': math.e,
}
TYPES = {'builtins.int', 'builtins.float', 'builtins.bool', 'builtins.str', 'builtins.list', 'builtins.tuple',
         'builtins.dict', 'builtins.set', 'builtins.object', 'builtins.complex', 'builtins.slice', 'builtins.range',
         'numbers.Number', 'numbers.Real', 'numbers.Integral', 'numpy.ndarray', 'numpy.int_', 'numpy.int64',
         'numpy.int32', 'numpy.float64', 'numpy.float_', 'numpy.floating', 'numpy.integer', 'numpy.number',
         'numpy.bool', 'numpy.bool_', 'numpy.generic', 'mpmath.mpf', 'collections.abc.Sequence', 'collections.abc.Iterable',
         'builtins.bytes', 'pandas.DataFrame', 'cvxopt.matrix', 'fractions.Fraction'}

_MISSING = object()


def attr(I, path, name):
    from .absint import NOTIMPL
    if name == '__name__':
        return path.split('.')[-1]
    full = path + '.' + name
    if full in I.stubs:
        return I.stubs[full]
    if full in CONST:
        return CONST[full]
    return Ext(full)


def rmode(v):
    if isinstance(v, Ext):
        n = v.path.split('.')[-1]
        if n in ROUND:
            return ROUND[n]
    if isinstance(v, str) and v in ('D', 'U', 'N', 'Z', 'M0'):
        return v
    if isinstance(v, int):
        return {0: 'N', 0x400: 'D', 0x800: 'U', 0xc00: 'Z'}.get(v)
    return None


# ------------------------------------------------------------------ isinstance
def isinst(I, v, c):
    if isinstance(c, tuple):
        return any(isinst(I, v, x) for x in c)
    if isinstance(c, Cls):
        if isinstance(v, Inst):
            return v.cls.issub(c)
        return False
    if isinstance(c, Native):                # a modelled external class: its values are plain arrays here
        return False
    if not isinstance(c, Ext):
        raise Abort('isinstance with %r' % (c,))
    p = c.path
    if p == 'builtins.object':
        return True
    ec = exc_class(c)
    if ec is not None:
        return isinstance(v, ExcV) and issubclass(v.cls, ec)
    if isinstance(v, bool):
        return p in ('builtins.bool', 'builtins.int', 'numbers.Number', 'numbers.Integral', 'numbers.Real', 'numpy.bool_', 'numpy.bool')
    if is_num(v):
        ty = numty(v)
        tab = {'int': ('builtins.int', 'numbers.Number', 'numbers.Real', 'numbers.Integral'),
               'npint': ('numpy.int_', 'numpy.int64', 'numpy.integer', 'numpy.number', 'numpy.generic', 'numbers.Number',
                         'numbers.Real', 'numbers.Integral'),
               'float': ('builtins.float', 'numbers.Number', 'numbers.Real'),
               'c': ('builtins.float', 'numbers.Number', 'numbers.Real'),
               'np': ('builtins.float', 'numpy.float64', 'numpy.float_', 'numpy.floating', 'numpy.number', 'numpy.generic',
                      'numbers.Number', 'numbers.Real')}
        if p not in TYPES:
            raise Abort('isinstance %s' % p)
        return p in tab[ty]
    if isinstance(v, Opaque):
        return p.split('.')[-1] == v.ty or p in getattr(v, 'also', ())
    if isinstance(v, Arr):
        return p == 'numpy.ndarray'
    table = {str: ('builtins.str', 'collections.abc.Sequence', 'collections.abc.Iterable'),
             list: ('builtins.list', 'collections.abc.Sequence', 'collections.abc.Iterable'),
             tuple: ('builtins.tuple', 'collections.abc.Sequence', 'collections.abc.Iterable'),
             range: ('builtins.range', 'collections.abc.Sequence', 'collections.abc.Iterable'),
             dict: ('builtins.dict', 'collections.abc.Iterable'), slice: ('builtins.slice',), type(None): ()}
    for t, ps in table.items():
        if isinstance(v, t):
            return p in ps
    if isinstance(v, Inst):
        if p in ('collections.abc.Iterable',):
            return v.cls.find('__iter__') is not None
        return False
    if isinstance(v, (Func, Bound, Vec, Native, Cls, ModV, ExcV, Ext)):
        return False
    raise Abort('isinstance of %r' % (v,))


def type_of(I, v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, bool):
        return Ext('builtins.bool')
    if is_num(v):
        return Ext({'int': 'builtins.int', 'float': 'builtins.float', 'c': 'builtins.float', 'np': 'numpy.float64',
                    'npint': 'numpy.int64'}[numty(v)])
    if isinstance(v, Arr):
        return Ext('numpy.ndarray')
    for t in (str, list, tuple, dict, slice, range):
        if isinstance(v, t):
            return Ext('builtins.' + t.__name__)
    raise Abort('type of %r' % (v,))


# ------------------------------------------------------------------ numeric helpers
def libm(I, name, v, ty):
    t = term(v)
    if t.k == 'lf' and not t.x.d:
        if name == 'exp' or name == 'cos':
            return Num(tm.ONE, ty)
        if name in ('sin', 'sqrt'):
            return Num(tm.ZERO, ty)
    if name == 'log' and t == tm.ONE:
        return Num(tm.ZERO, ty)
    if t.k == 'sp':
        if t.x == 'nan':
            return Num(t, ty)
        if name == 'exp':
            return Num(tm.T_INF if t.x == 'inf' else tm.ZERO, ty)
        if name == 'log' and t.x == 'inf':
            return Num(tm.T_INF, ty)
        if name == 'sqrt' and t.x == 'inf':
            return Num(tm.T_INF, ty)
        I.throw(ValueError, 'math domain error')
    e = tm.fn(name, (t,))
    return Num(e if I.real else tm.rnd('N' if name == 'sqrt' and I.mode == 'N' else 'L', e), ty)


def mathfn(I, name, v, ty='float'):
    if isinstance(v, (Inst,)):
        f = v.cls.find('__float__')
        if f is None:
            I.throw(TypeError, 'must be real number')
        v = I.call(Bound(f, v), [], {})
    if not is_num(v):
        I.throw(TypeError, 'must be real number')
    t = term(v)
    I.may_raise()
    if name == 'log':
        s = tm.cmp_terms(t, tm.ZERO)
        if s is None:
            s = 1 if I.decide('gt', t, tm.ZERO) else 0
        if s in (-1, 0):
            I.throw(ValueError, 'math domain error')
    if name == 'sqrt':
        if tm.sign(t) == -1:
            I.throw(ValueError, 'math domain error')
    if name == 'exp' and ('exp_over', t, None, True) in I.facts:
        I.throw(OverflowError, 'math range error')
    if name == 'exp' and I.fork_overflow:
        if ('exp_over', t, None, False) not in I.facts:
            over = I.choose('exp(%r) overflows' % (t,))
            I.facts.append(('exp_over', t, None, over))
            if over:
                I.throw(OverflowError, 'math range error')
    return libm(I, name, v, ty)


def tofloat(I, v):
    if isinstance(v, Num):
        return Num(v.t, 'float')
    if is_num(v):
        return float(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            I.throw(ValueError, 'could not convert string to float')
    if isinstance(v, Inst):
        f = v.cls.find('__float__')
        if f is not None:
            return I.call(Bound(f, v), [], {})
    if isinstance(v, Arr):
        if v.a.size == 1:
            return tofloat(I, v.a.reshape(-1)[0])
    I.throw(TypeError, 'float() argument must be a string or a real number')


def pymin(I, kind, args, kw):
    if kw and set(kw) - {'default'}:
        raise Abort('min/max key')
    xs = I.iterate(args[0]) if len(args) == 1 else list(args)
    if not xs:
        if 'default' in kw:
            return kw['default']
        I.throw(ValueError, 'empty sequence')
    if all(is_num(x) for x in xs):
        if not any(isinstance(x, Num) for x in xs):
            return (min if kind == 'min' else max)(xs)
        if any(term(x).k == 'sp' and term(x).x == 'nan' for x in xs):
            if term(xs[0]).k == 'sp' and term(xs[0]).x == 'nan':
                return xs[0]
            xs = [x for x in xs if not (term(x).k == 'sp' and term(x).x == 'nan')]
        t = tm.minmax(kind, [term(x) for x in xs])
        tys = {numty(x) for x in xs}
        ty = tys.pop() if len(tys) == 1 else 'float'
        for x in xs:
            if term(x) == t:
                ty = numty(x)
        return Num(t, ty)
    best = xs[0]
    for x in xs[1:]:
        r = I.truth(I.cmp('lt' if kind == 'min' else 'gt', x, best))
        if r:
            best = x
    return best


def pysum(I, args, kw):
    xs = I.iterate(args[0])
    acc = args[1] if len(args) > 1 else kw.get('start', 0)
    for x in xs:
        acc = I.binop('add', acc, x)
    return acc


# ------------------------------------------------------------------ arrays
def shape_arg(I, s):
    if isinstance(s, Arr):
        s = [s.a[i] for i in range(s.a.shape[0])]
    if isinstance(s, (tuple, list)):
        return tuple(I.pyint(x) for x in s)
    return (I.pyint(s),)


def filled(I, shp, v, dt):
    n = int(np.prod(shp, dtype=int)) if shp else 1
    if n > 4096:
        raise Abort('array too large')
    return mkarr([v] * n, shp, dt)


def dtname(I, d):
    if d is None:
        return None
    if isinstance(d, str):
        if d in ('float32', 'float16'):
            raise Abort('reduced precision')
        return 'int' if d.startswith('int') else 'float' if d.startswith('float') or d in ('d', 'f8', 'double') else 'bool' if d.startswith('bool') else 'object'
    if isinstance(d, Ext):
        n = d.path.split('.')[-1]
        n = n[6:] if n.startswith('dtype_') else n
        if n.startswith('int'):
            return 'int'
        if n in ('float', 'float64', 'float_', 'double'):
            return 'float'
        if n.startswith('bool'):
            return 'bool'
        if n == 'object':
            return 'object'
    raise Abort('dtype %r' % (d,))


def toint_checked(I, a):
    return a


def reduce(I, kind, a, axis, keepdims=False):
    A = I.toarr(a)
    if A.a.ndim == 0:
        return A.a[()]

    def one(xs):
        xs = list(xs)
        if kind == 'sum':
            if A.dt == 'bool':
                return sum(1 for x in xs if I.truth(x))
            acc = None
            for x in xs:
                acc = x if acc is None else I.binop('add', acc, x)
            return acc if acc is not None else 0.0
        if kind in ('min', 'max'):
            if not xs:
                I.throw(ValueError, 'zero-size array to reduction operation')
            return pymin(I, kind, [xs], {})
        if kind in ('all', 'any'):
            rs = [I.truth(x) for x in xs]
            return all(rs) if kind == 'all' else any(rs)
        if kind == 'mean':
            return I.binop('truediv', one_sum(xs), len(xs))
        if kind == 'prod':
            acc = 1
            for x in xs:
                acc = I.binop('mul', acc, x)
            return acc
        if kind in ('argmin', 'argmax'):
            if not xs:
                I.throw(ValueError, 'attempt to get argmin of an empty sequence')
            b = 0
            for i in range(1, len(xs)):
                if I.truth(I.cmp('lt' if kind == 'argmin' else 'gt', xs[i], xs[b])):
                    b = i
            return b
        raise Abort(kind)

    def one_sum(xs):
        acc = None
        for x in xs:
            acc = x if acc is None else I.binop('add', acc, x)
        return acc
    dt = {'all': 'bool', 'any': 'bool', 'argmin': 'int', 'argmax': 'int'}.get(kind, 'int' if A.dt == 'bool' else A.dt)
    if axis is None:
        return one(A.a.flat)
    axis = I.pyint(axis)
    B = np.moveaxis(A.a, axis, -1)
    shp = B.shape[:-1]
    out = [one(B[i]) for i in np.ndindex(*shp)]
    if not shp:
        return out[0]
    r = mkarr(out, shp, dt)
    if keepdims:
        r = Arr(np.expand_dims(r.a, axis), r.dt)
    return r


def ufunc_override(I, name, args):
    for x in args:
        if isinstance(x, Inst):
            f = x.cls.find('__array_ufunc__')
            if f is not None:
                return I.call(Bound(f, x), [Ext('numpy.' + name), '__call__'] + list(args), {})
    return _MISSING


UN = {'exp', 'log', 'sin', 'cos', 'sqrt'}


def np_unary(I, name, v):
    r = ufunc_override(I, name, [v])
    if r is not _MISSING:
        return r
    if is_num(v):
        t = term(v)
        if name == 'log' and tm.sign(t) == 0:
            return Num(tm.T_NINF, 'np')
        if name in ('log', 'sqrt') and tm.sign(t) == -1:
            return Num(tm.T('sp', 'nan'), 'np')
        return libm(I, name, v, 'np')
    if isinstance(v, (Arr, list, tuple)):
        A = I.toarr(v)
        out = []
        for x in A.a.flat:
            if isinstance(x, Inst):
                # object arrays: the method of that name
                f = x.cls.find(name)
                if f is None:
                    I.throw(TypeError, 'loop of ufunc does not support argument')
                out.append(I.call(Bound(f, x), [], {}))
            else:
                out.append(np_unary(I, name, x))
        return mkarr(out, A.shape, 'object' if A.dt == 'object' else 'float')
    I.throw(TypeError, 'ufunc not supported for the input types')


def absminmax(I, kind, a, b):
    r = ufunc_override(I, 'maximum' if kind == 'max' else 'minimum', [a, b])
    if r is not _MISSING:
        return r
    if is_num(a) and is_num(b):
        r = pymin(I, kind, [a, b], {})
        return Num(term(r), 'np')
    return I.elementwise(lambda x, y: pymin(I, kind, [x, y], {}), a, b)


def argn(args, kw, i, name, default=_MISSING):
    if i < len(args):
        return args[i]
    if name in kw:
        return kw[name]
    if default is _MISSING:
        raise Abort('missing argument ' + name)
    return default


def nparray(I, args, kw):
    v = args[0]
    dt = dtname(I, argn(args, kw, 1, 'dtype', None))
    A = I.toarr(v)
    if A is v or isinstance(v, Inst):
        A = Arr(A.a.copy(), A.dt)
    if dt and dt != A.dt:
        A = I.castarr(A, dt)
    return A


def asarray(I, args, kw):
    v = args[0]
    dt = dtname(I, argn(args, kw, 1, 'dtype', None))
    A = I.toarr(v)
    if dt and dt != A.dt:
        A = I.castarr(A, dt)
    return A


def npint_range(I, args):
    return range(*[I.pyint(x) for x in args])


NP = {}


def npf(*names):
    def deco(fn):
        for n in names:
            NP['numpy.' + n] = fn
        return fn
    return deco


NP['numpy.array'] = nparray
NP['numpy.asarray'] = asarray
NP['numpy.asanyarray'] = asarray


@npf('ascontiguousarray', 'atleast_1d')
def _asc(I, args, kw):
    A = asarray(I, args[:1], {})
    return A if A.a.ndim else Arr(A.a.reshape(1), A.dt)


@npf('copy')
def _npcopy(I, args, kw):
    A = I.toarr(args[0])
    return Arr(A.a.copy(), A.dt)


@npf('zeros', 'empty')
def _zeros(I, args, kw):
    dt = dtname(I, argn(args, kw, 1, 'dtype', None)) or 'float'
    z = Num(tm.ZERO, 'np') if dt == 'float' else 0 if dt in ('int', 'object') else False
    return filled(I, shape_arg(I, argn(args, kw, 0, 'shape')), z, dt)


@npf('ones')
def _ones(I, args, kw):
    dt = dtname(I, argn(args, kw, 1, 'dtype', None)) or 'float'
    return filled(I, shape_arg(I, argn(args, kw, 0, 'shape')), Num(tm.ONE, 'np') if dt == 'float' else 1, dt)


@npf('full')
def _full(I, args, kw):
    v = argn(args, kw, 1, 'fill_value')
    dt = dtname(I, argn(args, kw, 2, 'dtype', None))
    if dt is None:
        dt = I.toarr(v).dt if is_num(v) else 'object'
    if dt == 'float' and is_num(v):
        v = Num(term(v), 'np')
    return filled(I, shape_arg(I, argn(args, kw, 0, 'shape')), v, dt)


def _zl(I, args, kw):
    A = I.toarr(args[0])
    dt = dtname(I, argn(args, kw, 1, 'dtype', None)) or A.dt
    return filled(I, A.shape, Num(tm.ZERO, 'np') if dt == 'float' else 0, dt)


def _ol(I, args, kw):
    A = I.toarr(args[0])
    dt = dtname(I, argn(args, kw, 1, 'dtype', None)) or A.dt
    return filled(I, A.shape, Num(tm.ONE, 'np') if dt == 'float' else 1, dt)


NP['numpy.zeros_like'] = _zl
NP['numpy.ones_like'] = _ol


@npf('eye', 'identity')
def _eye(I, args, kw):
    n = I.pyint(argn(args, kw, 0, 'N'))
    m = argn(args, kw, 1, 'M', None)
    m = n if m is None else I.pyint(m)
    k = I.pyint(argn(args, kw, 2, 'k', 0))
    dt = dtname(I, argn(args, kw, 3, 'dtype', None)) or 'float'
    one, z = (Num(tm.ONE, 'np'), Num(tm.ZERO, 'np')) if dt == 'float' else (1, 0)
    return mkarr([one if j - i == k else z for i in range(n) for j in range(m)], (n, m), dt)


@npf('diag')
def _diag(I, args, kw):
    A = I.toarr(args[0])
    k = I.pyint(argn(args, kw, 1, 'k', 0))
    if A.a.ndim == 1:
        n = A.a.shape[0] + abs(k)
        z = Num(tm.ZERO, 'np') if A.dt == 'float' else 0
        R = filled(I, (n, n), z, A.dt)
        for i in range(A.a.shape[0]):
            R.a[i + max(-k, 0), i + max(k, 0)] = A.a[i]
        return R
    return Arr(np.diagonal(A.a, offset=k).copy(), A.dt)


@npf('stack')
def _stack(I, args, kw):
    xs = [I.toarr(x) for x in I.iterate(args[0])]
    ax = I.pyint(argn(args, kw, 1, 'axis', 0))
    try:
        a = np.stack([x.a for x in xs], axis=ax)
    except ValueError:
        I.throw(ValueError, 'all input arrays must have the same shape')
    dts = {x.dt for x in xs}
    dt = 'object' if 'object' in dts else 'float' if 'float' in dts else 'int' if 'int' in dts else 'bool'
    R = Arr(a, dt)
    if dt == 'float':
        R = I.castarr(Arr(a, 'mixed'), 'float')
    return R


@npf('append')
def _append(I, args, kw):
    A, B = I.toarr(args[0]), I.toarr(args[1])
    ax = argn(args, kw, 2, 'axis', None)
    if ax is None:
        a = np.concatenate([A.a.reshape(-1), B.a.reshape(-1)])
    else:
        a = np.concatenate([A.a, B.a], axis=I.pyint(ax))
    return Arr(a, A.dt if A.a.size else B.dt)


@npf('concatenate', 'vstack', 'hstack')
def _concat(I, args, kw):
    xs = [I.toarr(x) for x in I.iterate(args[0])]
    try:
        a = np.concatenate([x.a for x in xs], axis=I.pyint(argn(args, kw, 1, 'axis', 0)))
    except ValueError:
        I.throw(ValueError, 'concatenate')
    return Arr(a, xs[0].dt)


def _vst(I, args, kw):
    xs = [I.toarr(x) for x in I.iterate(args[0])]
    return Arr(np.vstack([x.a for x in xs]), xs[0].dt)


def _hst(I, args, kw):
    xs = [I.toarr(x) for x in I.iterate(args[0])]
    return Arr(np.hstack([x.a for x in xs]), xs[0].dt)


NP['numpy.vstack'] = _vst
NP['numpy.hstack'] = _hst


@npf('delete')
def _delete(I, args, kw):
    A = I.toarr(args[0])
    k = I.pykey(args[1])
    ax = argn(args, kw, 2, 'axis', None)
    try:
        return Arr(np.delete(A.a, k, axis=None if ax is None else I.pyint(ax)), A.dt)
    except IndexError:
        I.throw(IndexError, 'delete')


@npf('insert')
def _insert(I, args, kw):
    A = I.toarr(args[0])
    k = I.pyint(args[1])
    xs = list(A.a.reshape(-1))
    v = args[2]
    xs.insert(k, Num(term(v), 'np') if A.dt == 'float' and is_num(v) else v)
    return mkarr(xs, (len(xs),), A.dt)


@npf('roll')
def _roll(I, args, kw):
    A = I.toarr(args[0])
    ax = argn(args, kw, 2, 'axis', None)
    return Arr(np.roll(A.a, I.pyint(argn(args, kw, 1, 'shift')), None if ax is None else I.pyint(ax)), A.dt)


@npf('arange')
def _arange(I, args, kw):
    r = npint_range(I, args)
    return mkarr(list(r), (len(r),), 'int')


@npf('vectorize')
def _vectorize(I, args, kw):
    return Vec(args[0])


@npf('sum')
def _sum(I, args, kw):
    return reduce(I, 'sum', args[0], argn(args, kw, 1, 'axis', None), kw.get('keepdims', False))


for _k, _n in (('min', ('min', 'amin')), ('max', ('max', 'amax')), ('all', ('all',)), ('any', ('any',)), ('mean', ('mean',)),
               ('prod', ('prod',)), ('argmin', ('argmin',)), ('argmax', ('argmax',))):
    def _mk(k):
        return lambda I, args, kw: reduce(I, k, args[0], argn(args, kw, 1, 'axis', None), kw.get('keepdims', False))
    npf(*_n)(_mk(_k))


@npf('linalg.norm')
def _norm(I, args, kw):
    A = I.toarr(args[0])
    o = argn(args, kw, 1, 'ord', None)
    axis = argn(args, kw, 2, 'axis', None)
    if isinstance(o, Num):
        o = I.pyint(o) if o.ty in ('int', 'npint') else float(o.t.x.cval()) if o.t.k == 'lf' and o.t.x.is_const() else o
    if axis is not None or kw.get('keepdims') or A.dt == 'object':
        raise Abort('norm along an axis')
    if o is not None and A.a.ndim not in (1, 2):
        I.throw(ValueError, 'Improper number of dimensions to norm.')
    f = lambda n, x, **k: I.call(Ext('numpy.' + n), [x], k)
    absA = f('abs', A)
    if o is None or A.a.ndim == 1 and o == 2 or o == 'fro' and A.a.ndim == 2:
        return f('sqrt', f('sum', I.binop('mul', A, A)))
    inf = o == float('inf')
    if A.a.ndim == 1:
        if inf or o == float('-inf'):
            return f('max' if inf else 'min', absA)
        if o == 1:
            return f('sum', absA)
        if isinstance(o, int) and o > 2:
            return I.binop('pow', f('sum', I.binop('pow', absA, o)), F(1, o))
    elif o in (1, float('inf')):
        return f('max', f('sum', absA, axis=1 if inf else 0))
    raise Abort('norm of order %r' % (o,))


@npf('swapaxes')
def _swapaxes(I, args, kw):
    A = I.toarr(args[0])
    try:
        return Arr(np.swapaxes(A.a, I.pyint(args[1]), I.pyint(args[2])), A.dt)
    except ValueError:
        I.throw(ValueError, 'axis out of bounds')


@npf('moveaxis')
def _moveaxis(I, args, kw):
    A = I.toarr(args[0])
    try:
        return Arr(np.moveaxis(A.a, I.pyint(args[1]), I.pyint(args[2])), A.dt)
    except ValueError:
        I.throw(ValueError, 'axis out of bounds')


def _nanred(k):
    def f(I, args, kw):
        if argn(args, kw, 1, 'axis', None) is not None:
            raise Abort('nan reduction along an axis')
        A = I.toarr(args[0])
        vs = [v for v in A.a.flat if not (is_num(v) and term(v).k == 'sp' and term(v).x == 'nan')]
        if not vs and A.a.size:
            return Num(tm.T('sp', 'nan'), 'np')
        return reduce(I, k, mkarr(vs, (len(vs),), A.dt), None, False)
    return f


NP['numpy.nanmin'], NP['numpy.nanmax'] = _nanred('min'), _nanred('max')


@npf('maximum', 'fmax')
def _maximum(I, args, kw): return absminmax(I, 'max', args[0], args[1])


@npf('minimum', 'fmin')
def _minimum(I, args, kw): return absminmax(I, 'min', args[0], args[1])


@npf('abs', 'absolute', 'fabs')
def _npabs(I, args, kw):
    v = args[0]
    r = ufunc_override(I, 'absolute', [v])
    if r is not _MISSING:
        return r
    if isinstance(v, (list, tuple)):
        v = I.toarr(v)
    return I.abs_(v)


@npf('sign')
def _npsign(I, args, kw):
    def s(x):
        if not is_num(x):
            raise Abort('np.sign of object')
        t = term(x)
        g = tm.cmp_terms(t, tm.ZERO)
        if g is None:
            g = 1 if I.decide('gt', t, tm.ZERO) else (-1 if I.decide('lt', t, tm.ZERO) else 0)
        if g == 'nan':
            return Num(tm.T('sp', 'nan'), 'np')
        return Num(lf(g), 'np')
    v = args[0]
    if is_num(v):
        return s(v)
    A = I.toarr(v)
    return mkarr([s(x) for x in A.a.flat], A.shape, 'float')


@npf('isnan')
def _npisnan(I, args, kw):
    def f(x):
        if not is_num(x):
            I.throw(TypeError, 'isnan')
        t = term(x)
        return t.k == 'sp' and t.x == 'nan'
    v = args[0]
    if is_num(v):
        return f(v)
    A = I.toarr(v)
    if A.dt == 'object':
        I.throw(TypeError, 'ufunc isnan not supported for the input types')
    return mkarr([f(x) for x in A.a.flat], A.shape, 'bool')


@npf('where')
def _where(I, args, kw):
    if len(args) == 1:
        A = I.toarr(args[0])
        m = np.array([I.truth(x) for x in A.a.flat], dtype=bool).reshape(A.shape)
        return tuple(mkarr([int(i) for i in ix], (len(ix),), 'int') for ix in np.where(m))
    C, X, Y = (I.toarr(a) for a in args)
    shp = np.broadcast_shapes(C.shape, X.shape, Y.shape)
    c, x, y = (np.broadcast_to(a.a, shp) for a in (C, X, Y))
    return I.pack([x[i] if I.truth(c[i]) else y[i] for i in np.ndindex(*shp)], shp)


@npf('unravel_index')
def _unravel(I, args, kw):
    if set(kw) - {'shape'}:
        raise Abort('numpy.unravel_index in this form')
    k, shp = args[0], args[1] if len(args) > 1 else kw['shape']
    if isinstance(k, Num):
        k = k.t.c if k.t.k == 'c' else k
    if not isinstance(k, (int, F)) or isinstance(k, bool):
        raise Abort('numpy.unravel_index of an unknown position')
    shp = tuple(int(v) for v in (shp if isinstance(shp, (tuple, list)) else (shp,)))
    return tuple(int(v) for v in np.unravel_index(int(k), shp))


@npf('outer')
def _outer(I, args, kw):
    A, B = I.toarr(args[0]), I.toarr(args[1])
    a, b = A.a.reshape(-1), B.a.reshape(-1)
    return mkarr([I.binop('mul', x, y) for x in a for y in b], (len(a), len(b)), 'object' if 'object' in (A.dt, B.dt) else 'float')


@npf('dot', 'matmul')
def _dot(I, args, kw): return I.binop('matmul', args[0], args[1])


@npf('nonzero')
def _nz(I, args, kw): return _where(I, args, kw)


@npf('ravel', 'transpose', 'reshape', 'squeeze')
def _npmisc(I, args, kw):
    raise Abort('numpy function outside the model')


def _method(name):
    return lambda I, a, k: I.call(I.getattr(I.toarr(a[0]), name), list(a[1:]), dict(k))


for _n in ('ravel', 'transpose', 'reshape', 'squeeze'):
    NP['numpy.' + _n] = _method(_n)


@npf('around', 'round')
def _around(I, args, kw):
    d = argn(args, kw, 1, 'decimals', 0)
    d = I.pyint(d)

    def f(v):
        if isinstance(v, int):
            return v
        if not is_num(v):
            I.throw(TypeError, 'loop of ufunc does not support argument')
        t = term(v)
        if t.k == 'sp':
            return v
        if t.k != 'lf' or t.x.vars():
            raise Abort('rounding of a symbolic number')
        q = F(t.x.at({})) * 10 ** d
        n = round(q)
        return Num(tm.lf(tm.Poly.const(F(n) / 10 ** d)), 'np')
    if is_num(args[0]):
        return f(args[0])
    A = I.toarr(args[0])
    return mkarr([f(x) for x in A.a.flat], A.shape, A.dt)


NP['numpy.shape'] = lambda I, a, k: I.toarr(a[0]).shape
NP['numpy.ndim'] = lambda I, a, k: I.toarr(a[0]).a.ndim
NP['numpy.size'] = lambda I, a, k: I.toarr(a[0]).a.size
NP['numpy.ravel'] = lambda I, a, k: Arr(I.toarr(a[0]).a.reshape(-1), I.toarr(a[0]).dt)
NP['numpy.reshape'] = lambda I, a, k: method(I, I.toarr(a[0]), 'reshape').fn(I, a[1:], k)
NP['numpy.transpose'] = lambda I, a, k: Arr(I.toarr(a[0]).a.T, I.toarr(a[0]).dt)

_OPUF = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'truediv', 'true_divide': 'truediv', 'power': 'pow', 'mod': 'mod', 'remainder': 'mod',
         'floor_divide': 'floordiv', 'matmul': 'matmul'}
for _u, _o in _OPUF.items():
    def _mk2(u, o):
        def f(I, args, kw):
            r = ufunc_override(I, u, args)
            return I.binop(o, args[0], args[1]) if r is _MISSING else r
        return f
    NP['numpy.' + _u] = _mk2(_u, _o)
for _u, _o in {'less': 'lt', 'less_equal': 'le', 'greater': 'gt', 'greater_equal': 'ge', 'equal': 'eq', 'not_equal': 'ne'}.items():
    def _mk3(u, o):
        def f(I, args, kw):
            r = ufunc_override(I, u, args)
            return I.cmp(o, args[0], args[1]) if r is _MISSING else r
        return f
    NP['numpy.' + _u] = _mk3(_u, _o)

NP['numpy.negative'] = lambda I, a, k: I.unary('neg', a[0])
NP['numpy.logical_and'] = lambda I, a, k: I.elementwise(lambda x, y: I.truth(x) and I.truth(y), a[0], a[1])
NP['numpy.logical_or'] = lambda I, a, k: I.elementwise(lambda x, y: I.truth(x) or I.truth(y), a[0], a[1])
NP['numpy.logical_not'] = lambda I, a, k: I.unary('invert', I.toarr(a[0])) if not isinstance(a[0], bool) else not a[0]


# ------------------------------------------------------------------ calls
def call(I, p, args, kw):
    if p.startswith('builtins.'):
        return bcall(I, p[9:], args, kw)
    if p in NP:
        return NP[p](I, args, kw)
    last = p.split('.')[-1]
    if p.startswith('numpy.') and last in UN:
        return np_unary(I, last, args[0])
    if p in ('numpy.float64', 'numpy.float_'):
        v = tofloat(I, args[0])
        return Num(term(v), 'np')
    if p in ('numpy.int_', 'numpy.int64'):
        return args[0]
    if p == 'numpy.nextafter':
        r = nextafter(I, args)
        return Num(r.t, 'np')
    if p.startswith('math.') and last in UN:
        return mathfn(I, last, args[0])
    if p.startswith('libc.math.'):
        if last in UN:
            v = args[0]
            if not is_num(v):
                I.throw(TypeError, 'must be real number')
            t = term(v)
            if last == 'log':
                sg = tm.cmp_terms(t, tm.ZERO)
                if sg == 0:
                    return Num(tm.T_NINF, 'c')
                if sg == -1:
                    return Num(tm.T_NAN, 'c')
            return libm(I, last, v, 'c')
        if last == 'fabs':
            if not is_num(args[0]):
                I.throw(TypeError, 'must be real number')
            return Num(tm.absval(term(args[0])), 'c')
        if last in ('ceil', 'floor'):
            return ceilfloor(I, last, args[0], 'c')
        if last == 'nextafter':
            return nextafter(I, args)
        if last in ('fmin', 'fmax'):
            return Num(tm.minmax(last[1:], [term(x) for x in args]), 'c')
        if last == 'pow':
            a, b = args
            return I.power(a, b, term(a), term(b), 'c', False, 'R' if I.real else I.mode)
    if p.startswith('math.'):
        if last == 'fabs':
            return Num(tm.absval(term(args[0])), 'float')
        if last in ('ceil', 'floor'):
            return ceilfloor(I, last, args[0], 'int')
        if last == 'nextafter':
            return nextafter(I, args)
        if last == 'isnan':
            t = term(args[0])
            return t.k == 'sp' and t.x == 'nan'
        if last == 'isinf':
            t = term(args[0])
            return t.k == 'sp' and t.x != 'nan'
        if last == 'isfinite':
            return term(args[0]).k != 'sp'
    if last == 'fegetround':
        return I.mode
    if last == 'fesetround':
        m = rmode(args[0])
        if m is None:
            raise Abort('fesetround(%r)' % (args[0],))
        I.mode = m
        return 0
    if p == 'itertools.product':
        rep = I.pyint(kw.get('repeat', 1))
        pools = [list(I.iterate(a)) for a in args] * rep
        if np.prod([len(x) for x in pools]) > 4096:
            raise Abort('product too large')
        return [tuple(x) for x in itertools.product(*pools)]
    if p == 'itertools.chain':
        return [x for a in args for x in I.iterate(a)]
    if p in ('itertools.permutations', 'itertools.combinations'):
        f = getattr(itertools, last)
        return [tuple(x) for x in f(I.iterate(args[0]), *[I.pyint(x) for x in args[1:]])]
    if p in ('copy.copy', 'copy.deepcopy'):
        return pycopy(I, args[0], last == 'deepcopy')
    if p == 'functools.reduce':
        xs = list(I.iterate(args[1]))
        acc = args[2] if len(args) > 2 else xs.pop(0)
        for x in xs:
            acc = I.call(args[0], [acc, x], {})
        return acc
    if p.startswith('operator.'):
        return opcall(I, last, args)
    if p.startswith('bisect.'):
        return bisection(I, last, args, kw)
    if p in ('warnings.warn',):
        return None
    raise Abort('external call ' + p)


def bisection(I, name, args, kw):
    seq, x = args[0], args[1]
    n = I.pyint(I.call(Ext('builtins.len'), [seq], {}))
    lo = I.pyint(args[2]) if len(args) > 2 else I.pyint(kw.get('lo', 0))
    hi = args[3] if len(args) > 3 else kw.get('hi')
    hi = n if hi is None else I.pyint(hi)
    key = kw.get('key')
    ins = name.startswith('insort')
    v = I.call(key, [x], {}) if ins and key is not None else x
    left = name.endswith('left')
    while lo < hi:
        mid = (lo + hi) // 2
        y = I.getitem(seq, mid)
        if key is not None:
            y = I.call(key, [y], {})
        if left:
            if I.truth(I.cmp('lt', y, v)):
                lo = mid + 1
            else:
                hi = mid
        elif I.truth(I.cmp('lt', v, y)):
            hi = mid
        else:
            lo = mid + 1
    if ins:
        if not isinstance(seq, list):
            raise Abort('insort into %r' % (seq,))
        seq.insert(lo, x)
        return None
    return lo


def pycopy(I, v, deep):
    if isinstance(v, Inst):
        f = v.cls.find('__deepcopy__' if deep else '__copy__')
        if f is not None:
            return I.call(Bound(f, v), [{}] if deep else [], {})
        if v.cls.is_cdef:
            raise Abort('copy of a cdef instance')
        o = Inst(v.cls)
        o.f = dict(v.f) if not deep else {k: pycopy(I, x, True) for k, x in v.f.items()}
        return o
    if isinstance(v, Arr):
        return Arr(v.a.copy(), v.dt)
    if isinstance(v, list):
        return [pycopy(I, x, True) for x in v] if deep else list(v)
    if isinstance(v, dict):
        return {k: pycopy(I, x, True) for k, x in v.items()} if deep else dict(v)
    return v


def opcall(I, last, args):
    m = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'truediv': 'truediv', 'pow': 'pow', 'matmul': 'matmul'}
    if last in m:
        return I.binop(m[last], *args)
    if last in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return I.cmp(last, *args)
    if last == 'neg':
        return I.unary('neg', args[0])
    if last == 'contains':
        return I.contains(args[0], args[1])
    raise Abort('operator.' + last)


def nextafter(I, args):
    x, d = args
    if not is_num(x) or not is_num(d):
        I.throw(TypeError, 'must be real number')
    t = term(x)
    if t.k == 'sp':
        if t.x == 'inf' and term(d) == tm.T_NINF:
            return 1.7976931348623157e308
        return Num(t, 'c')
    return Num(tm.fn('nextafter', (t, term(d))), 'c')


def ceilfloor(I, name, v, ty):
    t = term(v)
    if t.k == 'lf' and t.x.is_const():
        c = t.x.cval()
        return Num(lf(F(math.ceil(c) if name == 'ceil' else math.floor(c))), ty)
    return Num(tm.fn(name, (t,)), ty)


def bcall(I, n, args, kw):
    if n == 'isinstance':
        return isinst(I, args[0], args[1])
    if n == 'issubclass':
        a, b = args
        bs = b if isinstance(b, tuple) else (b,)
        if isinstance(a, Cls):
            return any(isinstance(x, Cls) and a.issub(x) for x in bs)
        raise Abort('issubclass')
    if n == 'type':
        if len(args) == 1:
            return type_of(I, args[0])
        raise Abort('type()')
    if n in ('min', 'max'):
        return pymin(I, n, args, kw)
    if n == 'abs':
        return I.abs_(args[0])
    if n == 'sum':
        return pysum(I, args, kw)
    if n == 'len':
        v = args[0]
        if isinstance(v, Inst):
            f = v.cls.find('__len__')
            if f is None:
                I.throw(TypeError, 'object of type %s has no len()' % v.cls.name)
            return I.call(Bound(f, v), [], {})
        if isinstance(v, Arr):
            if not v.a.ndim:
                I.throw(TypeError, 'len() of unsized object')
            return v.a.shape[0]
        if isinstance(v, (list, tuple, str, dict, range)):
            return len(v)
        if is_num(v) or v is None or isinstance(v, Opaque):
            I.throw(TypeError, 'object has no len()')
        raise Abort('len')
    if n == 'range':
        return npint_range(I, args)
    if n == 'float':
        return tofloat(I, args[0]) if args else 0.0
    if n == 'int':
        v = args[0]
        if isinstance(v, Num):
            if v.ty in ('int', 'npint'):
                return v
            if v.t.k == 'lf' and v.t.x.is_const():
                return int(v.t.x.cval())
            raise Abort('int()')
        if is_num(v):
            return int(v)
        if isinstance(v, str):
            return int(v)
        raise Abort('int()')
    if n == 'bool':
        return I.truth(args[0]) if args else False
    if n == 'str' or n == 'repr':
        return str(args[0]) if args and isinstance(args[0], (str, int)) else '<str>'
    if n in ('list', 'tuple'):
        xs = list(I.iterate(args[0])) if args else []
        return xs if n == 'list' else tuple(xs)
    if n == 'dict':
        d = dict(kw)
        if args:
            if isinstance(args[0], dict):
                d = {**args[0], **kw}
            else:
                d = {**dict((tuple(I.iterate(x)) for x in I.iterate(args[0]))), **kw}
        return d
    if n == 'zip':
        return [tuple(x) for x in zip(*[I.iterate(a) for a in args])]
    if n == 'enumerate':
        return [(i + (I.pyint(args[1]) if len(args) > 1 else 0), x) for i, x in enumerate(I.iterate(args[0]))]
    if n == 'reversed':
        v = args[0]
        if isinstance(v, Inst) and v.cls.find('__reversed__') is not None:
            return I.call(Bound(v.cls.find('__reversed__'), v), [], {})
        return list(reversed(I.iterate(v)))
    if n == 'iter':
        return list(I.iterate(args[0]))
    if n == 'next':
        raise Abort('next')
    if n == 'map':
        return [I.call(args[0], list(xs), {}) for xs in zip(*[I.iterate(a) for a in args[1:]])]
    if n == 'filter':
        return [x for x in I.iterate(args[1]) if I.truth(x if args[0] is None else I.call(args[0], [x], {}))]
    if n == 'sorted':
        if kw:
            raise Abort('sorted key')
        xs = list(I.iterate(args[0]))
        if all(is_num(x) for x in xs):
            out = []
            for x in xs:
                i = 0
                while i < len(out) and not I.truth(I.cmp('lt', x, out[i])):
                    i += 1
                out.insert(i, x)
            return out
        raise Abort('sorted')
    if n == 'all':
        return all(I.truth(x) for x in I.iterate(args[0]))
    if n == 'any':
        return any(I.truth(x) for x in I.iterate(args[0]))
    if n == 'pow':
        return I.binop('pow', args[0], args[1])
    if n == 'print':
        return None
    if n == 'hasattr':
        try:
            I.getattr(args[0], args[1])
            return True
        except RaiseEx as e:
            if e.exc.cls is AttributeError:
                return False
            raise
    if n == 'getattr':
        try:
            return I.getattr(args[0], args[1])
        except RaiseEx as e:
            if e.exc.cls is AttributeError and len(args) > 2:
                return args[2]
            raise
    if n == 'setattr':
        I.setattr(args[0], args[1], args[2])
        return None
    if n == 'callable':
        return isinstance(args[0], (Func, Bound, Cls, Native, Ext, Vec))
    if n == 'round':
        raise Abort('round')
    if n == '__c__':
        return None
    if n == '__cast__':
        return I.coerce(args[1], args[0])
    if n == 'divmod':
        return (I.binop('floordiv', *args), I.binop('mod', *args))
    c = getattr(builtins, n, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return ExcV(c, tuple(args))
    if n == 'super':
        raise Abort('super')
    if n == 'object':
        return Opaque('object')
    raise Abort('builtin ' + n)


# ------------------------------------------------------------------ attributes / methods of model values
def method(I, o, name):
    if isinstance(o, Arr):
        return arr_attr(I, o, name)
    if isinstance(o, list):
        return list_attr(I, o, name)
    if isinstance(o, dict):
        if name in ('items', 'values', 'keys'):
            return Native(lambda I, a, k: [x if name != 'items' else tuple(x) for x in getattr(o, name)()])
        if name == 'get':
            return Native(lambda I, a, k: o.get(a[0], a[1] if len(a) > 1 else None))
        if name == 'pop':
            return Native(lambda I, a, k: o.pop(*a))
        if name == 'update':
            return Native(lambda I, a, k: o.update(*a, **k))
        if name == 'setdefault':
            return Native(lambda I, a, k: o.setdefault(*a))
    if isinstance(o, str):
        if name in ('format',):
            return Native(lambda I, a, k: o)
        if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'join'):
            return Native(lambda I, a, k: getattr(o, name)(*a))
    if is_num(o):
        if name == 'real':
            return o
        if name == 'imag':
            return 0.0
        np_like = numty(o) in ('np', 'npint')
        if np_like and name in ('shape',):
            return ()
        if np_like and name in ('ndim',):
            return 0
        if name in ('all', 'any') and (np_like or isinstance(o, bool)):
            return Native(lambda I, a, k: I.truth(o))
        if np_like and name in ('copy', 'item'):
            return Native(lambda I, a, k: o)
        if name == 'is_integer':
            raise Abort('is_integer')
        if name == '__float__':
            return Native(lambda I, a, k: tofloat(I, o))
        if name in ('__add__', '__sub__', '__mul__', '__truediv__', '__pow__'):
            return Native(lambda I, a, k: I.binop(name.strip('_'), o, a[0]))
        I.throw(AttributeError, name)
    if isinstance(o, tuple):
        if name == 'index':
            return Native(lambda I, a, k: o.index(a[0]))
        if name == 'count':
            return Native(lambda I, a, k: o.count(a[0]))
        I.throw(AttributeError, name)
    if o is None:
        I.throw(AttributeError, name)
    if isinstance(o, ExcV):
        if name == 'args':
            return tuple(o.args)
    if isinstance(o, Opaque):
        I.throw(AttributeError, name)
    if isinstance(o, slice):
        return getattr(o, name)
    if isinstance(o, (list, range)):
        I.throw(AttributeError, name)
    if isinstance(o, (Func, Vec, Native)):
        I.throw(AttributeError, name)
    raise Abort('attribute %s of %r' % (name, o))


def list_attr(I, o, name):
    N = Native
    if name == 'append':
        return N(lambda I, a, k: o.append(a[0]))
    if name == 'extend':
        return N(lambda I, a, k: o.extend(I.iterate(a[0])))
    if name == 'insert':
        return N(lambda I, a, k: o.insert(I.pyint(a[0]), a[1]))
    if name == 'pop':
        return N(lambda I, a, k: o.pop(*[I.pyint(x) for x in a]))
    if name == 'clear':
        return N(lambda I, a, k: o.clear())
    if name == 'copy':
        return N(lambda I, a, k: list(o))
    if name == 'reverse':
        return N(lambda I, a, k: o.reverse())
    if name == 'index':
        return N(lambda I, a, k: o.index(a[0]))
    if name in ('__iter__', '__len__'):
        return N(lambda I, a, k: list(o) if name == '__iter__' else len(o))
    if name == 'sort':
        raise Abort('list.sort')
    I.throw(AttributeError, name)


def arr_attr(I, o, name):
    N = Native
    if name == 'shape':
        return o.a.shape
    if name == 'ndim':
        return o.a.ndim
    if name == 'size':
        return o.a.size
    if name == 'real' and o.dt != 'object':
        return o
    if name == 'T':
        return Arr(o.a.T, o.dt)
    if name == 'dtype':
        return Ext('numpy.dtype_' + o.dt)
    if name == 'copy':
        return N(lambda I, a, k: Arr(o.a.copy(), o.dt))
    if name in ('reshape',):
        def f(I, a, k):
            s = a[0] if len(a) == 1 else tuple(a)
            try:
                return Arr(o.a.reshape(shape_arg(I, s)), o.dt)
            except ValueError:
                I.throw(ValueError, 'cannot reshape')
        return N(f)
    if name == 'flat':
        return Arr(o.a.reshape(-1), o.dt)
    if name in ('flatten', 'ravel'):
        return N(lambda I, a, k: Arr(o.a.reshape(-1).copy(), o.dt))
    if name in ('all', 'any', 'sum', 'min', 'max', 'mean', 'argmin', 'argmax', 'prod'):
        return N(lambda I, a, k: reduce(I, name, o, argn(a, k, 0, 'axis', None)))
    if name == 'astype':
        return N(lambda I, a, k: Arr(I.castarr(o, dtname(I, a[0])).a.copy(), dtname(I, a[0])))
    if name == 'tolist':
        def tl(x):
            if isinstance(x, np.ndarray):
                return [tl(y) for y in x]
            return Num(x.t, 'float') if isinstance(x, Num) and x.ty == 'np' else x
        return N(lambda I, a, k: tl(o.a))
    if name == '__iter__':
        return N(lambda I, a, k: I.iterate(o))
    if name == '__len__':
        return N(lambda I, a, k: bcall(I, 'len', [o], {}))
    if name == '__getitem__':
        return N(lambda I, a, k: I.getitem(o, a[0]))
    if name == 'transpose':
        return N(lambda I, a, k: Arr(o.a.transpose(*[I.pyint(x) for x in a]), o.dt))
    if name == 'dot':
        return N(lambda I, a, k: I.matmul(o, a[0]))
    if name == 'fill':
        def fl(I, a, k):
            I.setitem(o, slice(None), a[0])
        return N(fl)
    if name == 'item':
        return N(lambda I, a, k: o.a.reshape(-1)[0] if not a else I.getitem(o, tuple(a) if len(a) > 1 else a[0]))
    if name == '__array__':
        return N(lambda I, a, k: o)
    if name == '__repr__':
        return N(lambda I, a, k: '<array>')
    I_attrs = set(dir(np.ndarray))
    if name in I_attrs:
        raise Abort('ndarray.' + name)
    I.throw(AttributeError, name)
