"""Characteristics, constructors, closure of the classical class, copies, shape metadata, vertices, generators."""
import itertools
from fractions import Fraction as F

import numpy as np

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Bound, ExcV, Ext, Inst, Num, Opaque, Stats, is_num, mkarr, numty, term
from ..oracle import KMOD
from ..report import Broken
from ..terms import Poly, lf
from .arith import C, K, NICE, cells_for, new_interp, operand
from .lift import cell_iv, check_paths, eldata, is_array, shape_of, sig, CELLS
from .scalar import RMOD, PMOD, UMOD, EMOD, V, iv, arr_of, need, feasible, boolval, order_name, weak_orders, rank_poly

NMOD = 'intvalpy.kernel.new_objects'


def value_is(rep, rule, cons, outs, want, cell='', cls=None):
    """want: a term (number) or (lower, upper) terms; cls: expected class name or None"""
    for kind, v, facts, mode in outs:
        if kind == 'abort':
            rep.undecided(rule, cons, '%s %s' % (v, cell))
            continue
        if facts and not feasible(facts):
            continue
        if kind == 'raise':
            rep.bad(rule, cons, 'raises %r %s' % (v, cell))
            continue
        if isinstance(want, tuple):
            if v is None or not isinstance(v, tuple):
                rep.bad(rule, cons, 'the result is not an interval %s' % cell)
                continue
            if cls is not None and v[0] != cls:
                rep.bad(rule, cons, 'the result is a %s, expected %s %s' % (v[0], cls, cell))
            pairs = list(zip(v[1:], want, ('lower', 'upper')))
        else:
            if not is_num(v):
                rep.bad(rule, cons, 'the result is %r, not a number %s' % (v, cell))
                continue
            pairs = [(term(v), want, 'value')]
        for t, w, nm in pairs:
            st, d = orc.same(orc.strip(t), w, (), facts)
            rep.add(rule, cons, st, '%s: %s %s' % (nm, d, cell))


def amax(a, b):
    return tm.minmax('max', [tm.absval(a), tm.absval(b)])


def amin(a, b):
    return tm.minmax('min', [tm.absval(a), tm.absval(b)])


def c14(rep):
    rep.rule = ('abstract interpretation of the characteristics of scalar intervals over all sign/order cells: width, radius, '
                'midpoint, magnitude, mignitude, dual, projection, opposite, negation, inverse (rounded outward), absolute value, '
                'sign and the helper functions on intervals and plain numbers agree with their definitions, and a result with '
                'lower end below its upper end is a classical interval')
    stats = Stats()
    I = new_interp(stats)
    I.underflow = True
    need(I, *[UMOD + ':' + n for n in ('wid', 'mid', 'rad', 'inf', 'sup', 'mag', 'khi', 'isnan')])
    half = lf(F(1, 2))
    for kk in ('C', 'K', 'Ci', 'Ki'):
        for cn, a, b in cells_for(kk, 'x'):
            improper = cn[0] == '~'
            zero_in = cn in ('-0', '-+', '00', '0+')
            x = lambda I: operand(I, kk, a, b)
            nm = NICE[kk]
            cell = 'cell %s' % cn

            def prop(p):
                return lambda I: I.getattr(x(I), p)

            def ipr(p):
                return lambda I: orc.ends(I, I.getattr(x(I), p))
            for p, w in (('a', a), ('b', b), ('inf', a), ('sup', b), ('wid', tm.sub(b, a)), ('rad', tm.mul(half, tm.sub(b, a))),
                         ('mid', tm.mul(half, tm.add(a, b))), ('mag', amax(a, b))):
                value_is(rep, 'characteristic', '%s.%s' % (nm, p), I.run(prop(p)), w, cell)
            if not improper:
                mig = tm.ZERO if zero_in else amin(a, b)
                value_is(rep, 'characteristic', '%s.mig' % nm, I.run(prop('mig')), mig, cell)
                value_is(rep, 'characteristic', 'abs(%s)' % nm, I.run(lambda I: orc.ends(I, I.abs_(x(I)))), (mig, amax(a, b)), cell)
            if cn != '00':
                ka = tm.cmp_terms(tm.absval(a), tm.absval(b))
                if ka in (-1, 0):
                    value_is(rep, 'characteristic', '%s.khi' % nm, I.run(prop('khi')), tm.div(a, b), cell)
                elif ka == 1:
                    value_is(rep, 'characteristic', '%s.khi' % nm, I.run(prop('khi')), tm.div(b, a), cell)
            value_is(rep, 'characteristic', '%s.dual' % nm, I.run(ipr('dual')), (b, a), cell)
            value_is(rep, 'characteristic', '%s.opp' % nm, I.run(ipr('opp')), (tm.neg(a), tm.neg(b)), cell)
            value_is(rep, 'characteristic', '-%s' % nm, I.run(lambda I: orc.ends(I, I.unary('neg', x(I)))), (tm.neg(b), tm.neg(a)), cell)
            value_is(rep, 'characteristic', '%s.pro' % nm, I.run(ipr('pro')),
                     (tm.minmax('min', [a, b]), tm.minmax('max', [a, b])), cell, cls=C)
            for p in ('dual', 'opp'):
                for kind, v, facts, mode in I.run(ipr(p)):
                    if kind == 'value' and v and not (facts and not feasible(facts)):
                        c = tm.cmp_terms(v[1], v[2])
                        w = C if c in (-1, 0) else K if c == 1 else v[0]
                        if c == 0:
                            w = v[0]
                        rep.add('class', '%s.%s' % (nm, p), 'ok' if v[0] == w else 'violated', '%s is a %s for [%r, %r], expected %s' % (p, v[0], v[1], v[2], w))
        # inverse: zero-free cells, parametrised by reciprocals
        for cn, a, b in cells_for(kk, 'x', recip=True):
            for kind, v, facts, mode in I.run(lambda I: orc.ends(I, I.getattr(operand(I, kk, a, b), 'inv'))):
                cons = '%s.inv' % NICE[kk]
                if kind == 'abort':
                    rep.undecided('characteristic', cons, v)
                elif facts and not feasible(facts):
                    continue
                elif kind == 'raise' or v is None:
                    rep.bad('characteristic', cons, 'cell %s: %s %r' % (cn, kind, v))
                else:
                    for side, t, i in (('lo', v[1], tm.div(tm.ONE, a)), ('hi', v[2], tm.div(tm.ONE, b))):
                        st, d = orc.endpoint(side, t, i, facts)
                        if st != 'vacuous':
                            rep.add('characteristic', cons, st, 'cell %s: %s' % (cn, d))
        # zero-free cells for khi/mig with reciprocals are covered by the sign cells above
    # helper functions
    p, q = V('p'), V('q')
    for cls in (C, K):
        for cn, a, b in cells_for('C' if cls == C else 'K', 'x'):
            x = lambda I: iv(I, cls, a, b)
            for u, w in (('inf', a), ('sup', b), ('mid', tm.mul(half, tm.add(a, b))), ('rad', tm.mul(half, tm.sub(b, a))),
                         ('wid', tm.sub(b, a)), ('mag', amax(a, b))):
                value_is(rep, 'helper', '%s(%s)' % (u, NICE[cls[0]]), I.run(lambda I: I.call(I.get(UMOD + ':' + u), [x(I)], {})), w, 'cell ' + cn)
            if cls == C:
                s = lambda t: {1: 1, 0: 0, -1: -1}[tm.sign(t)]
                value_is(rep, 'helper', 'sign(classical)', I.run(lambda I: orc.ends(I, I.call(I.get(EMOD + ':sign'), [x(I)], {}))),
                         (lf(s(a)), lf(s(b))), 'cell ' + cn)
    for sgn in (1, -1):
        t = lf(p) if sgn > 0 else lf(-p)
        for u, w in (('inf', t), ('sup', t), ('mid', t), ('rad', tm.ZERO), ('wid', tm.ZERO), ('mag', lf(p)), ('khi', tm.ONE)):
            for form in ('number', 'list'):
                def th(I):
                    n = Num(t, 'float')
                    r = I.call(I.get(UMOD + ':' + u), [n if form == 'number' else [n, iv(I, C, p, p + q)]], {})
                    return r if form == 'number' else eldata(I, r)[1][0]
                value_is(rep, 'helper', '%s(%s)' % (u, form), I.run(th), w, 'sign %d' % sgn)
    nan = lambda I: I.call(I.get(KMOD + ':' + C), [float('nan'), float('nan')], {})
    for nm, mk, want in (('nan', nan, True), ('[p,q]', lambda I: iv(I, C, p, p + q), False),
                         ('[p,nan]', lambda I: I.call(I.get(KMOD + ':' + C), [Num(lf(p), 'float'), float('nan')], {}), True)):
        for form in ('scalar', 'array'):
            def th(I):
                r = I.call(I.get(UMOD + ':isnan'), [mk(I) if form == 'scalar' else arr_of(I, [mk(I), iv(I, C, p, q + p)])], {})
                return r if form == 'scalar' else eldata(I, r)[1][0]
            for kind, v, facts, mode in I.run(th):
                st = 'undecided' if kind == 'abort' or kind == 'value' and not isinstance(v, bool) else 'ok' if kind == 'value' and v == want else 'violated'
                rep.add('helper', 'isnan(%s)' % form, st, '%s: %r' % (nm, v))
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 800


# --------------------------------------------------------------------------- constructors
def c13(rep):
    rep.rule = ('abstract interpretation of the constructors over the order cells of their arguments and over every documented '
                'form of argument: sorting, keeping an inverted pair as a Kaucher interval, midpoint-radius form, nested lists, '
                'pairs of arrays, conversion of numbers, lists, arrays and intervals, and refusal of everything else')
    stats = Stats()
    I = new_interp(stats)
    need(I, RMOD + ':Interval', RMOD + ':SingleInterval', PMOD + ':asinterval')
    Iv = lambda I: I.get(RMOD + ':Interval')
    s, d, p, q = -V('s'), V('d'), V('p'), V('q')
    zero = Poly.const(0)
    cases = [(o + t, a, b) for t, z in ((', negative base', s), (', positive base', V('s')), (', zero base', zero))
             for o, a, b in (('a<b', z, z + d), ('a=b', z, z), ('a>b', z + d, z), ('b<a', z, z - d), ('b>a', z - d, z))]
    for order, a, b in cases:
        order = {'b<a': 'a>b', 'b>a': 'a<b'}.get(order[:3], order[:3]) + order[3:]
        lo, hi = (b, a) if order[:3] == 'a>b' else (a, b)
        for ty in ('float', 'int', 'npfloat', 'mixed'):
            A = Num(lf(a), {'npfloat': 'np', 'mixed': 'int'}.get(ty, ty))
            B = Num(lf(b), {'npfloat': 'np', 'mixed': 'float'}.get(ty, ty))
            forms = {
                'Interval(a, b)': lambda I, kw: orc.ends(I, I.call(Iv(I), [A, B], kw)),
                'Interval([a, b])': lambda I, kw: orc.ends(I, I.call(Iv(I), [[A, B]], kw)),
                'Interval((a, b))': lambda I, kw: orc.ends(I, I.call(Iv(I), [(A, B)], kw)),
                'SingleInterval(a, b)': lambda I, kw: orc.ends(I, I.call(I.get(RMOD + ':SingleInterval'), [A, B], kw)),
            }

            def elem(i, mk):
                def f(I, kw):
                    dd = eldata(I, mk(I, kw))
                    if dd is None or dd[0] != (2,):
                        return None
                    return orc.ends(I, dd[1][i])
                return f
            z = Num(lf(p), 'float')
            w = Num(lf(p + q), 'float')
            forms['Interval([a, a2], [b, b2])'] = elem(0, lambda I, kw: I.call(Iv(I), [[A, z], [B, w]], kw))
            forms['Interval([[a, b], [a2, b2]])'] = elem(0, lambda I, kw: I.call(Iv(I), [[[A, B], [z, w]]], kw))
            forms['Interval(array, array)'] = elem(1, lambda I, kw: I.call(Iv(I), [mkarr([Num(z.t, 'np'), Num(A.t, 'np')], (2,), 'float'),
                                                                                   mkarr([Num(w.t, 'np'), Num(B.t, 'np')], (2,), 'float')], kw))
            for nm, f in forms.items():
                if ty == 'mixed' and '[[' in nm:
                    continue
                cell = '%s, %s' % (order, ty)
                for kw in ({}, {'sortQ': True}):
                    value_is(rep, 'constructor', nm + (' sorted' if kw else ''), I.run(lambda I: f(I, dict(kw))), (lf(lo), lf(hi)), cell, cls=C)
                value_is(rep, 'constructor', nm + ' sortQ=False', I.run(lambda I: f(I, {'sortQ': False})), (lf(a), lf(b)), cell,
                         cls=K if order[:3] == 'a>b' else C)
    for sg in (1, -1, 0):
        m = (zero, p, -p)[sg]
        for rn, r in (('', q), (', radius above |m|', (p if sg else zero) + q), (', radius |m|', p), (', radius zero', zero)):
            m0 = m if rn != ', radius |m|' else (zero, p, -p)[sg]
            M, R = lf(m0), lf(r)
            if rn == '' and sg:
                m0 = m + (q if sg > 0 else -q)
                M = lf(m0)
            for kw in ({}, {'sortQ': True}, {'sortQ': False}):
                kw = dict(kw, midRadQ=True)
                for nm, f in (('Interval(m, r)', lambda I: orc.ends(I, I.call(Iv(I), [Num(M), Num(R)], dict(kw)))),
                              ('Interval([m, r])', lambda I: orc.ends(I, I.call(Iv(I), [[Num(M), Num(R)]], dict(kw)))),
                              ('Interval([m..], [r..])', lambda I: orc.ends(I, eldata(I, I.call(Iv(I), [[Num(M), Num(M)], [Num(R), Num(R)]], dict(kw)))[1][1])),
                              ('Interval([[m, r]..])', lambda I: orc.ends(I, eldata(I, I.call(Iv(I), [[[Num(M), Num(R)]] * 3], dict(kw)))[1][2]))):
                    value_is(rep, 'mid-rad', nm, I.run(f), (tm.sub(M, R), tm.add(M, R)), 'midpoint sign %d%s, %s' % (sg, rn, kw), cls=C)
        m = lf(m)
        for nm, f in (('Interval(m, -r)', lambda I: I.call(Iv(I), [Num(m), Num(lf(-q))], {'midRadQ': True})),
                      ('Interval([m..], [-r..])', lambda I: I.call(Iv(I), [[Num(m), Num(m)], [Num(lf(q)), Num(lf(-q))]], {'midRadQ': True}))):
            for kind, v, facts, mode in I.run(f):
                rep.add('mid-rad', nm + ' refused', 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', 'negative radius gives %r' % (v,))
        value_is(rep, 'constructor', 'Interval(number)', I.run(lambda I: orc.ends(I, I.call(Iv(I), [Num(m)], {}))), (m, m), cls=C)
    # matrices: every element in its place
    L = [[-p, q], [p, p + q]]
    U = [[q, -p], [p, p + q + d]]
    want = [(L[i][j], U[i][j]) for i in range(2) for j in range(2)]
    nums = lambda M: [[Num(lf(x)) for x in row] for row in M]
    for kw in ({}, {'sortQ': False}):
        for nm, mk in (('Interval(matrix, matrix)', lambda I: I.call(Iv(I), [nums(L), nums(U)], dict(kw))),
                       ('Interval(nested list)', lambda I: I.call(Iv(I), [[[[Num(lf(L[i][j])), Num(lf(U[i][j]))] for j in range(2)] for i in range(2)]], dict(kw)))):
            for k in range(4):
                lo, hi = want[k]
                inv = k == 1
                cl = K if inv and kw else C
                if inv and not kw:
                    lo, hi = hi, lo

                def el(I):
                    dd = eldata(I, mk(I))
                    return orc.ends(I, dd[1][k]) if dd is not None and tuple(dd[0]) == (2, 2) else None
                value_is(rep, 'constructor', nm, I.run(el), (lf(lo), lf(hi)), 'element %d, %s' % (k, kw), cls=cl)
    # more shapes: the element built at a position is the one given there
    for shape in ((2, 3), (3, 1), (2, 3, 2), (1, 2, 3), (2, 2, 2)):
        def ends_at(k, up):
            return V('x%d' % k) + V('w') if up else V('x%d' % k)

        def nest(sh, k0, f):
            if not sh:
                return f(k0)
            step = int(np.prod(sh[1:])) if len(sh) > 1 else 1
            return [nest(sh[1:], k0 + i * step, f) for i in range(sh[0])]
        nn = int(np.prod(shape))
        number = lambda k, up: Num(lf(ends_at(k, up)))
        lower, upper = (lambda: nest(shape, 0, lambda k: number(k, False))), (lambda: nest(shape, 0, lambda k: number(k, True)))
        arr = lambda up: mkarr([Num(lf(ends_at(k, up)), 'np') for k in range(nn)], shape, 'float')
        for nm, mk in (('Interval(lists, lists)', lambda I: I.call(Iv(I), [lower(), upper()], {})),
                       ('Interval(array, array)', lambda I: I.call(Iv(I), [arr(False), arr(True)], {})),
                       ('Interval(nested pairs)', lambda I: I.call(Iv(I), [nest(shape, 0, lambda k: [number(k, False), number(k, True)])], {})),
                       ('asinterval(nested list)', lambda I: I.call(I.get(PMOD + ':asinterval'), [lower()], {})),
                       ('asinterval(array)', lambda I: I.call(I.get(PMOD + ':asinterval'), [arr(False)], {}))):
            if nm == 'Interval(nested pairs)' and shape[0] == 2 and len(shape) == 1:
                continue
            for k in range(nn):
                def el(I):
                    dd = eldata(I, mk(I))
                    return orc.ends(I, dd[1][k]) if dd is not None and tuple(dd[0]) == shape else None
                value_is(rep, 'constructor', '%s, %d axes' % (nm, len(shape)), I.run(el),
                         (lf(ends_at(k, False)), lf(ends_at(k, nm.startswith('Interval')))), 'shape %s, element %d' % (shape, k), cls=C)
    # an interval is returned as it is
    for cls, lo, hi in ((C, -p, q), (K, q, -p)):
        value_is(rep, 'constructor', 'Interval(interval)', I.run(lambda I: orc.ends(I, I.call(Iv(I), [iv(I, cls, lo, hi)], {}))), (lf(lo), lf(hi)), cls=cls)
        value_is(rep, 'conversion', 'asinterval(interval)', I.run(lambda I: orc.ends(I, I.call(I.get(PMOD + ':asinterval'), [iv(I, cls, lo, hi)], {}))), (lf(lo), lf(hi)), cls=cls)
    asi = lambda I: I.get(PMOD + ':asinterval')
    for ty in ('float', 'int', 'npfloat'):
        n = Num(lf(-p), {'npfloat': 'np'}.get(ty, ty))
        value_is(rep, 'conversion', 'asinterval(%s)' % ty, I.run(lambda I: orc.ends(I, I.call(asi(I), [n], {}))), (lf(-p), lf(-p)), cls=C)
    for nm, mk, shape, idx, want in (
            ('list', lambda I: [Num(lf(-p)), Num(lf(q))], (2,), 0, (lf(-p), lf(-p))),
            ('list of numbers and intervals', lambda I: [Num(lf(-p)), iv(I, C, -p, q)], (2,), 1, (lf(-p), lf(q))),
            ('list with a Kaucher interval', lambda I: [iv(I, K, q, -p), Num(lf(p))], (2,), 0, (lf(q), lf(-p))),
            ('float array', lambda I: mkarr([Num(lf(-p), 'np'), Num(lf(q), 'np')], (2,), 'float'), (2,), 1, (lf(q), lf(q))),
            ('object array', lambda I: mkarr([iv(I, C, -p, q), iv(I, C, p, p + q)], (2,), 'object'), (2,), 0, (lf(-p), lf(q))),
            ('nested list', lambda I: [[Num(lf(-p)), Num(lf(q))], [Num(lf(q)), iv(I, C, -p, q)]], (2, 2), 3, (lf(-p), lf(q)))):
        def th(I):
            r = I.call(asi(I), [mk(I)], {})
            dd = eldata(I, r)
            if not is_array(r) or dd[0] != shape:
                return None
            return orc.ends(I, dd[1][idx])
        value_is(rep, 'conversion', 'asinterval(%s)' % nm, I.run(th), want)
    # refusals
    for nm, f in (('Interval(a, b, c)', lambda I: I.call(Iv(I), [1.0, 2.0, 3.0], {})),
                  ("SingleInterval('1', 2)", lambda I: I.call(I.get(RMOD + ':SingleInterval'), ['1', 2.0], {})),
                  ("SingleInterval(1, '2')", lambda I: I.call(I.get(RMOD + ':SingleInterval'), [1.0, '2'], {})),
                  ('SingleInterval(1, None)', lambda I: I.call(I.get(RMOD + ':SingleInterval'), [1.0, None], {})),
                  ("asinterval('12')", lambda I: I.call(asi(I), ['12'], {})),
                  ('asinterval(None)', lambda I: I.call(asi(I), [None], {})),
                  ('asinterval(object)', lambda I: I.call(asi(I), [Opaque('object')], {})),
                  ("asinterval(['1', 2])", lambda I: I.call(asi(I), [['1', 2.0]], {})),
                  ("asinterval([None, 2])", lambda I: I.call(asi(I), [[None, 2.0]], {}))):
        for kind, v, facts, mode in I.run(f):
            rep.add('refusal', nm, 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', '%r' % (v,))
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 300
