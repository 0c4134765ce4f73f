"""Interval arrays: every operation acts element by element, in either operand order; matrix products;
shape metadata; copies and views; vertices."""
import itertools

import numpy as np

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Bound, ExcV, Ext, Inst, Num, Stats, is_num, mkarr, numty, term
from ..oracle import KMOD
from ..terms import Poly, lf
from .arith import C, K, new_interp
from .scalar import RMOD, PMOD, UMOD, EMOD, V, iv, arr_of, need, feasible

CELLS = {
    '+': lambda s: (V(s + 'p'), V(s + 'p') + V(s + 'q')),
    '-': lambda s: (-(V(s + 'p') + V(s + 'q')), -V(s + 'p')),
    'm': lambda s: (-V(s + 'p'), V(s + 'q')),
    '~': lambda s: (V(s + 'p') + V(s + 'q'), V(s + 'p')),
    '=': lambda s: (V(s + 'p'), V(s + 'p')),
}


def cell_iv(I, c, s, cls=None, recip=False):
    lo, hi = CELLS[c](s)
    if recip:
        lo, hi = tm.T('rc', hi), tm.T('rc', lo)
    return iv(I, cls or (K if c == '~' else C), lo, hi)


def flat(v):
    """elements of an array-like abstract value: (shape, list) or None"""
    if isinstance(v, Arr):
        return v.shape, list(v.a.reshape(-1))
    return None


def is_array(v):
    return isinstance(v, Inst) and v.cls.name == 'ArrayInterval'


def eldata(I, v):
    if is_array(v):
        return flat(I.getattr(v, 'data'))
    return flat(v)


def sig(I, v):
    """comparable description of one element"""
    e = orc.ends(I, v)
    if e is not None:
        return e
    if is_num(v):
        return ('num', term(v), term(v))
    raise Abort('element %r' % (v,))


def agree(rep, rule, cons, got, want, facts, cell=''):
    """got, want: lists of element signatures"""
    if len(got) != len(want):
        rep.bad(rule, cons, '%d elements instead of %d %s' % (len(got), len(want), cell))
        return
    for i, (g, w) in enumerate(zip(got, want)):
        if g[0] != w[0]:
            if feasible(facts) if facts else True:
                rep.bad(rule, cons, 'element %d is a %s, expected %s %s' % (i, g[0], w[0], cell))
            continue
        for s, t, nm in ((g[1], w[1], 'lower'), (g[2], w[2], 'upper')):
            if s == t:
                rep.ok(rule, cons)
                continue
            st, d = orc.same(orc.strip(s), orc.strip(t), (), facts)
            if st == 'ok' and not outward_same(s, t):
                st, d = 'undecided', 'same exact value, different rounding: %r / %r' % (s, t)
            rep.add(rule, cons, st, 'element %d %s end: %s %s' % (i, nm, d, cell))


def outward_same(s, t):
    return True


def check_paths(rep, rule, cons, outs, cell=''):
    for kind, v, facts, mode in outs:
        if kind == 'abort':
            rep.undecided(rule, cons, '%s %s' % (v, cell))
        elif kind == 'raise':
            if not facts or feasible(facts):
                rep.bad(rule, cons, 'raises %r %s' % (v, cell))
        else:
            shape_ok, got, want = v
            if shape_ok is not True:
                rep.bad(rule, cons, '%s %s' % (shape_ok, cell))
            else:
                agree(rep, rule, cons, got, want, facts, cell)


def shape_of(I, r, want_shape, kind='interval'):
    d = eldata(I, r)
    if d is None:
        return 'the result is %r, not an array' % (r,), None
    if kind == 'interval' and not is_array(r):
        return 'the result is %r, not an interval array' % (r,), None
    if tuple(d[0]) != tuple(want_shape):
        return 'shape %s instead of %s' % (d[0], want_shape), None
    if is_array(r):
        sh = I.getattr(r, 'shape')
        if tuple(sh) != tuple(want_shape):
            return 'reported shape %s instead of %s' % (sh, want_shape), None
    return True, d[1]


SHAPES = [((2,), 'm+'), ((2,), '-='), ((2, 2), 'm+-=')]
PART = [('array', None), ('classical', None), ('Kaucher', None), ('float', None), ('int', None), ('npfloat', None), ('float array', None),
        ('object array', None), ('row', None)]


def partner(I, kind, shape, pat, recip, pfx='y'):
    """(operand value, list of scalar partner per element)"""
    n = int(np.prod(shape))
    if kind == 'array':
        els = [cell_iv(I, ('+' if recip else pat[-1 - i]), '%s%d' % (pfx, i), recip=recip) for i in range(n)]
        return arr_of(I, els, shape), els
    if kind == 'classical':
        e = cell_iv(I, '+' if recip else 'm', pfx, recip=recip)
        return e, [e] * n
    if kind == 'Kaucher':
        lo, hi = CELLS['~'](pfx)
        if recip:
            lo, hi = tm.T('rc', hi), tm.T('rc', lo)
        e = iv(I, K, lo, hi)
        return e, [e] * n
    if kind in ('float', 'int', 'npfloat'):
        p = V(pfx + 'p')
        t = tm.T('rc', p) if recip else lf(p)
        e = Num(t, {'npfloat': 'np'}.get(kind, kind))
        return e, [Num(t, 'float' if kind == 'npfloat' else kind)] * n
    if kind == 'float array':
        ts = [(tm.T('rc', V('%s%d' % (pfx, i))) if recip else lf(V('%s%d' % (pfx, i)))) for i in range(n)]
        return mkarr([Num(t, 'np') for t in ts], shape, 'float'), [Num(t, 'float') for t in ts]
    if kind == 'object array':
        els = [cell_iv(I, ('+' if recip else pat[-1 - i]), '%s%d' % (pfx, i), recip=recip) for i in range(n)]
        return mkarr(els, shape, 'object'), els
    if kind == 'row':                                   # broadcasting of a row over a matrix
        els = [cell_iv(I, ('+' if recip else 'm'), '%s%d' % (pfx, i), recip=recip) for i in range(shape[-1])]
        return arr_of(I, els, (shape[-1],)), els * (n // shape[-1])
    raise Abort(kind)


SYM = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/'}


def c10(rep):
    rep.rule = ('abstract interpretation of array operations against the scalar operation interpreted on the corresponding '
                'elements: same class, same endpoint terms, same shape, for every operator, operand kind and operand order, for '
                'the in-place forms, the unary forms, the elementary functions, the element attributes, and (in exact '
                'arithmetic) for matrix products against the sum of products')
    rep.assumptions += ['arrays of rank one and two with two elements per axis stand for all shapes: the element loop is numpy\'s']
    stats = Stats()
    I = new_interp(stats)
    need(I, RMOD + ':ArrayInterval')
    for op in SYM:
        div = op == 'truediv'
        for shape, pat in SHAPES:
            n = int(np.prod(shape))
            for kind, _ in PART:
                if kind == 'row' and len(shape) == 1:
                    continue
                for left in (False, True):

                    def th(I):
                        if left and div:                    # the interval array is the divisor
                            els = [cell_iv(I, '+', 'x%d' % i, recip=True) for i in range(n)]
                            other, sc = partner(I, kind, shape, pat, False)
                        else:
                            els = [cell_iv(I, pat[i], 'x%d' % i) for i in range(n)]
                            other, sc = partner(I, kind, shape, pat, div)
                        A = arr_of(I, els, shape)
                        r = I.binop(op, other, A) if left else I.binop(op, A, other)
                        w = [I.binop(op, s, e) if left else I.binop(op, e, s) for e, s in zip(els, sc)]
                        ok, g = shape_of(I, r, shape)
                        return ok, g and [sig(I, x) for x in g], [sig(I, x) for x in w]
                    nm = '%s %s interval array' % (kind, SYM[op]) if left else 'interval array %s %s' % (SYM[op], kind)
                    check_paths(rep, 'elementwise', nm, I.run(th), '[shape %s]' % (shape,))

                def th2(I):
                    els = [cell_iv(I, pat[i], 'x%d' % i) for i in range(n)]
                    other, sc = partner(I, kind, shape, pat, div)
                    A = arr_of(I, els, shape)
                    r = I.iop(op, A, other)
                    w = [I.binop(op, e, s) for e, s in zip(els, sc)]
                    ok, g = shape_of(I, r, shape)
                    return ok, g and [sig(I, x) for x in g], [sig(I, x) for x in w]
                check_paths(rep, 'elementwise', 'interval array %s= %s' % (SYM[op], kind), I.run(th2), '[shape %s]' % (shape,))
            # the same array object on both sides
            for inplace in (False, True):
                def th3(I):
                    els = [cell_iv(I, '+' if div else pat[i], 'x%d' % i) for i in range(n)]
                    A = arr_of(I, els, shape)
                    r = I.iop(op, A, A) if inplace else I.binop(op, A, A)
                    ok, g = shape_of(I, r, shape)
                    return ok, g and [sig(I, x) for x in g], [sig(I, I.binop(op, e, e)) for e in els]
                check_paths(rep, 'elementwise', 'interval array %s%s itself' % (SYM[op], '=' if inplace else ''), I.run(th3), '[shape %s]' % (shape,))
    # powers, unary, elementary functions
    for shape, pat in SHAPES:
        n = int(np.prod(shape))
        els = lambda I: [cell_iv(I, pat[i], 'x%d' % i) for i in range(n)]
        pos = lambda I: [cell_iv(I, '+', 'x%d' % i) for i in range(n)]
        for k in (2, 3):
            def th(I):
                e = els(I)
                r = I.binop('pow', arr_of(I, e, shape), k)
                ok, g = shape_of(I, r, shape)
                return ok, g and [sig(I, x) for x in g], [sig(I, I.binop('pow', x, k)) for x in e]
            check_paths(rep, 'elementwise', 'interval array ** %d' % k, I.run(th), '[shape %s]' % (shape,))
        for nm, f, g in (('-', lambda I, A: I.unary('neg', A), lambda I, x: I.unary('neg', x)), ('abs', lambda I, A: I.abs_(A), lambda I, x: I.abs_(x))):
            def th(I):
                e = els(I)
                ok, r = shape_of(I, f(I, arr_of(I, e, shape)), shape)
                return ok, r and [sig(I, x) for x in r], [sig(I, g(I, x)) for x in e]
            check_paths(rep, 'elementwise', nm + ' interval array', I.run(th), '[shape %s]' % (shape,))
        for fn in ('sqrt', 'exp', 'log'):
            for via in ('numpy.', EMOD + ':'):
                def th(I):
                    e = pos(I)
                    f = Ext('numpy.' + fn) if via == 'numpy.' else I.get(EMOD + ':' + fn)
                    ok, r = shape_of(I, I.call(f, [arr_of(I, e, shape)], {}), shape)
                    return ok, r and [sig(I, x) for x in r], [sig(I, I.call(I.getattr(x, fn), [], {})) for x in e]
                check_paths(rep, 'elementwise', '%s(interval array) via %s' % (fn, via.split('.')[-1].strip(':') or 'numpy'), I.run(th), '[shape %s]' % (shape,))
        for fn in ('sin', 'cos'):
            for via in ('numpy.', EMOD + ':'):
                def th(I):
                    e = [iv(I, C, lf(Poly.const(tm.F(1 + i, 8))), lf(Poly.const(tm.F(3 + i, 8)))) for i in range(n)]
                    f = Ext('numpy.' + fn) if via == 'numpy.' else I.get(EMOD + ':' + fn)
                    ok, r = shape_of(I, I.call(f, [arr_of(I, e, shape)], {}), shape)
                    return ok, r and [sig(I, x) for x in r], [sig(I, I.call(I.getattr(x, fn), [], {})) for x in e]
                check_paths(rep, 'elementwise', '%s(interval array) via %s' % (fn, via.split('.')[-1].strip(':') or 'numpy'), I.run(th), '[shape %s]' % (shape,))
        for at in ('a', 'b', 'inf', 'sup', 'mid', 'rad', 'wid', 'mig', 'mag', 'khi', 'dual', 'pro', 'opp', 'inv'):
            def th(I):
                e = els(I) if at not in ('inv', 'khi') else pos(I)
                r = I.getattr(arr_of(I, e, shape), at)
                ok, g = shape_of(I, r, shape, 'interval' if at in ('dual', 'pro', 'opp', 'inv') else 'num')
                return ok, g and [sig(I, x) for x in g], [sig(I, I.getattr(x, at)) for x in e]
            check_paths(rep, 'elementwise', 'interval array .%s' % at, I.run(th), '[shape %s]' % (shape,))
        for at in ('a', 'b', 'inf', 'sup', 'mid', 'rad', 'wid', 'mig', 'mag'):
            def th(I):                 # the first element has integer ends: what it holds must not decide how the others are kept
                e = [iv(I, C, Poly.const(2), Poly.const(6), 'int')] + els(I)[1:]
                e[1] = iv(I, C, V('h'), V('h') + V('hw'))
                r = I.getattr(arr_of(I, e, shape), at)
                ok, g = shape_of(I, r, shape, 'num')
                return ok, g and [sig(I, x) for x in g], [sig(I, I.getattr(x, at)) for x in e]
            check_paths(rep, 'elementwise', 'interval array .%s' % at, I.run(th), '[shape %s, integer ends first]' % (shape,))

        def th(I):
            e = els(I)
            r = I.call(Bound(I.get(RMOD + ':ArrayInterval').find('to_float'), arr_of(I, e, shape)), [], {})
            ok, g = shape_of(I, r, shape)
            return ok, g and [sig(I, x) for x in g], [sig(I, x) for x in e]
        check_paths(rep, 'elementwise', 'interval array .to_float()', I.run(th), '[shape %s]' % (shape,))
        for u, at in (('inf', 'a'), ('sup', 'b'), ('mid', 'mid'), ('rad', 'rad'), ('wid', 'wid'), ('mag', 'mag')):
            def th(I):
                e = [iv(I, C, Poly.const(2), Poly.const(6), 'int')] + els(I)[1:]
                e[1] = iv(I, C, V('h'), V('h') + V('hw'))
                ok, g = shape_of(I, I.call(I.get(UMOD + ':' + u), [arr_of(I, e, shape)], {}), shape, 'num')
                return ok, g and [sig(I, x) for x in g], [sig(I, I.getattr(x, at)) for x in e]
            check_paths(rep, 'elementwise', '%s(interval array)' % u, I.run(th), '[shape %s, integer ends first]' % (shape,))
        for u, at in (('inf', 'a'), ('sup', 'b'), ('mid', 'mid'), ('rad', 'rad'), ('wid', 'wid'), ('mag', 'mag'), ('khi', 'khi')):
            for form in ('interval array', 'list'):
                def th(I):
                    e = els(I) if u != 'khi' else pos(I)
                    if form == 'list':
                        x = list(e) if len(shape) == 1 else [list(e[:2]), list(e[2:])]
                    else:
                        x = arr_of(I, e, shape)
                    r = I.call(I.get(UMOD + ':' + u), [x], {})
                    ok, g = shape_of(I, r, shape, 'num')
                    return ok, g and [sig(I, x) for x in g], [sig(I, I.getattr(x, at)) for x in e]
                check_paths(rep, 'elementwise', '%s(%s)' % (u, form), I.run(th), '[shape %s]' % (shape,))
    matmuls(rep, stats)
    rep.note('functions', sorted(stats.funcs))
    rep.note('partitions', stats.partitions)
    rep.floor = 700


def matmuls(rep, stats):
    I = new_interp(stats, real=True)
    combos = [((2, 2), (2,)), ((2, 2), (2, 2)), ((2,), (2, 2)), ((2,), (2,)), ((1, 2), (2, 1)), ((2, 1), (1, 2))]
    for (sa, sb) in combos:
        for ka, kb in (('I', 'I'), ('I', 'F'), ('F', 'I'), ('I', 'L')):
            def build(I, k, shape, pfx, pat):
                n = int(np.prod(shape))
                if k == 'I':
                    els = [cell_iv(I, pat[i % len(pat)], '%s%d' % (pfx, i)) for i in range(n)]
                    return arr_of(I, els, shape), els
                sg = [1, -1, 1, 1]
                ts = [Num(lf(V('%s%d' % (pfx, i))) if sg[i % 4] > 0 else lf(-V('%s%d' % (pfx, i))), 'float') for i in range(n)]
                if k == 'L':
                    return (ts if len(shape) == 1 else [[ts[i * shape[1] + j] for j in range(shape[1])] for i in range(shape[0])]), ts
                return mkarr([Num(t.t, 'np') for t in ts], shape, 'float'), ts

            def th(I):
                A, ea = build(I, ka, sa, 'x', '+m-')
                B, eb = build(I, kb, sb, 'y', 'm+')
                r = I.binop('matmul', A, B)
                X = np.array(ea + [None], dtype=object)[:-1].reshape(sa if len(sa) > 1 else (1,) + sa)
                Y = np.array(eb + [None], dtype=object)[:-1].reshape(sb if len(sb) > 1 else sb + (1,))
                w = []
                for i in range(X.shape[0]):
                    for j in range(Y.shape[1]):
                        acc = I.binop('mul', X[i, 0], Y[0, j])
                        for k in range(1, X.shape[1]):
                            acc = I.binop('add', acc, I.binop('mul', X[i, k], Y[k, j]))
                        w.append(acc)
                shp = tuple(([sa[0]] if len(sa) > 1 else []) + ([sb[1]] if len(sb) > 1 else []))
                if shp == ():
                    return True, [sig(I, r)], [sig(I, w[0])]
                ok, g = shape_of(I, r, shp)
                return ok, g and [sig(I, x) for x in g], [sig(I, x) for x in w]
            nice = {'I': 'interval', 'F': 'float', 'L': 'list'}
            check_paths(rep, 'matmul', '%s%s @ %s%s' % (nice[ka], sa, nice[kb], sb), I.run(th))
    for sa, sb in (((2, 2), (3,)), ((2, 3), (2, 2)), ((3,), (2,))):
        def th(I):
            A = arr_of(I, [cell_iv(I, 'm', 'x%d' % i) for i in range(int(np.prod(sa)))], sa)
            B = arr_of(I, [cell_iv(I, 'm', 'y%d' % i) for i in range(int(np.prod(sb)))], sb)
            return I.binop('matmul', A, B)
        for kind, v, facts, mode in I.run(th):
            rep.add('matmul', 'incompatible shapes', 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', 'returns %r' % (v,))
