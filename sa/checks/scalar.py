"""Scalar intervals: rounding-mode restoration, division by zero, order, containment, intersection,
elementary functions, closure of the classical class, constructors, characteristics."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Bound, ExcV, Inst, Num, Opaque, Stats, is_num, mkarr, term
from ..oracle import KMOD
from ..report import Broken
from ..terms import Poly, lf
from .arith import (C, K, NICE, SYM, cells_for, chain, new_interp, operand, unwrap, ARRAY_PAIRS, SCALAR_PAIRS)

RMOD = 'intvalpy.kernel.real_intervals'
PMOD = 'intvalpy.kernel.preprocessing'
UMOD = 'intvalpy.kernel.utils'
EMOD = 'intvalpy.kernel.elementary_functions'


def V(n):
    return Poly.var(n)


def need(I, *names):
    for n in names:
        try:
            I.get(n)
        except LookupError as e:
            raise Broken('anchor lost: %s' % e)
        except Abort as e:
            raise Broken('anchor lost: %s' % e)


def iv(I, cls, lo, hi, ty='float'):
    return I.call(I.get(KMOD + ':' + cls), [Num(lf(lo) if isinstance(lo, Poly) else lo, ty),
                                            Num(lf(hi) if isinstance(hi, Poly) else hi, ty)], {})


def arr_of(I, elems, shape=None):
    ai = I.get(RMOD + ':ArrayInterval')
    return I.call(ai, [mkarr(list(elems), shape or (len(elems),), 'object')], {})


# --------------------------------------------------------------------------- order cells
def weak_orders(names):
    """all weak orderings of the names as {name: rank}"""
    n = len(names)
    seen = []
    for ranks in itertools.product(range(n), repeat=n):
        used = sorted(set(ranks))
        if used == list(range(len(used))):
            seen.append(dict(zip(names, ranks)))
    return seen


def rank_poly(r):
    p = -V('s')
    for i in range(1, r + 1):
        p = p + V('d%d' % i)
    return p


# position and spread of the ends on the line
MAGNITUDES = ((0, 1), (2 ** 60, 1), (-2 ** 60, 1), (0, F(1, 2 ** 40)), (0, 2 ** 60))


def order_name(o):
    inv = {}
    for k, r in o.items():
        inv.setdefault(r, []).append(k)
    return '<'.join('='.join(sorted(inv[r])) for r in sorted(inv))


CMP = {'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y, 'ge': lambda x, y: x >= y,
       'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}
MIR = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
SY = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}


def want_cmp(op, a, b, c, d):
    if op == 'ne':
        return not (a == c and b == d)
    f = CMP[op]
    return f(a, c) and f(b, d)


def boolval(v):
    """python truth value of a predicate result, None when it is not one"""
    if isinstance(v, bool):
        return v
    if isinstance(v, Arr) and v.a.size == 1 and isinstance(v.a.reshape(-1)[0], bool):
        return v.a.reshape(-1)[0]
    return None


def record_pred(rep, rule, construct, cell, outs, want):
    """outs: partitions of a predicate; every feasible one must return `want`"""
    for kind, v, facts, mode in outs:
        if kind == 'abort':
            rep.undecided(rule, construct, '%s: %s' % (cell, v))
        elif kind == 'raise':
            rep.bad(rule, construct, 'raises %r for %s, expected %s' % (v, cell, want))
        else:
            b = v if isinstance(v, (bool, list, tuple)) else boolval(v)
            if b is None:
                rep.undecided(rule, construct, '%s: result %r' % (cell, v))
            elif b == want:
                rep.ok(rule, construct)
            elif facts and not feasible(facts):
                continue
            else:
                rep.bad(rule, construct, 'gives %s for %s, expected %s' % (b, cell, want))


def feasible(facts):
    vs = set()
    for f in facts:
        if f[0] in orc.OPS:
            vs |= orc.tvars(f[1]) | orc.tvars(f[2])
    for pt in orc.points(vs, 40, facts=facts if any(f[0] == 'eq' and f[3] or f[0] == 'ne' and not f[3] for f in facts) else ()):
        try:
            if orc.facts_hold(facts, tm.Eval(pt)) is True:
                return True
        except tm.Undef:
            return True
    return False


def c04(rep):
    rep.rule = ('abstract interpretation of the comparison operators over every weak order of the four endpoints (74 order '
                'cells for generalised operands): the answer must be the endpoint-wise one, != the negation of ==, a number '
                'behaves as the degenerate interval on either side, arrays compare element by element, and an operand of a '
                'foreign type raises TypeError')
    rep.assumptions += ['endpoints are not nan']
    stats = Stats()
    I = new_interp(stats)
    I.underflow = True
    need(I, KMOD + ':BaseTools')
    orders4 = weak_orders('abcd')
    orders3 = weak_orders('abc')
    for op in CMP:
        for ka, kb in (('C', 'C'), ('C', 'K'), ('K', 'C'), ('K', 'K'), ('Ci', 'C'), ('C', 'Ci')):
            for o in orders4:
                if ka[0] == 'C' and o['a'] > o['b'] or kb[0] == 'C' and o['c'] > o['d']:
                    continue
                pol = {k: rank_poly(r) for k, r in o.items()}

                def th(I):
                    x = operand(I, ka, lf(pol['a']), lf(pol['b']))
                    y = operand(I, kb, lf(pol['c']), lf(pol['d']))
                    return I.cmp(op, x, y)
                record_pred(rep, 'order', '%s %s %s' % (NICE[ka], SY[op], NICE[kb]), '[a,b] %s [c,d] with %s' % (SY[op], order_name(o)),
                            I.run(th), want_cmp(op, o['a'], o['b'], o['c'], o['d']))
        for ka in 'CK':
            for kn in ('float', 'int', 'npfloat'):
                for left in (False, True):
                    if left and kn == 'npfloat':
                        continue            # numpy hands it to its own comparison ufunc: refused, see below
                    for o in orders3:
                        if ka == 'C' and o['a'] > o['b']:
                            continue
                        pol = {k: rank_poly(r) for k, r in o.items()}

                        def th(I):
                            x = operand(I, ka, lf(pol['a']), lf(pol['b']))
                            y = operand(I, kn, lf(pol['c']), None)
                            return I.cmp(op, y, x) if left else I.cmp(op, x, y)
                        w = want_cmp(MIR[op] if left else op, o['a'], o['b'], o['c'], o['c'])
                        nm = '%s %s %s' % ((NICE[kn], SY[op], NICE[ka]) if left else (NICE[ka], SY[op], NICE[kn]))
                        record_pred(rep, 'order', nm, 'interval [a,b], number c with %s' % order_name(o), I.run(th), w)
        # arrays: two elements with independent orders
        some = [dict(a=0, b=1, c=2, d=3), dict(a=2, b=3, c=0, d=1), dict(a=0, b=1, c=0, d=1), dict(a=0, b=2, c=1, d=1)]
        for o1, o2 in itertools.product(some, repeat=2):
            for ka, kb in (('AI', 'AI'), ('AI', 'float')):
                def mkp(o, s):
                    p = {}
                    for k, r in o.items():
                        q = -V('s')
                        for i in range(1, r + 1):
                            q = q + V('d%d' % i)
                        p[k] = lf(q)
                    return p
                p1, p2 = mkp(o1, ''), mkp(o2, '')

                def th(I):
                    A = arr_of(I, [iv(I, C, p1['a'], p1['b']), iv(I, C, p2['a'], p2['b'])])
                    if kb == 'AI' and ka == 'AI':
                        B = arr_of(I, [iv(I, C, p1['c'], p1['d']), iv(I, C, p2['c'], p2['d'])])
                    else:
                        B = Num(lf(rank_poly(1)), 'float')
                    r = I.cmp(op, A, B)
                    if not isinstance(r, Arr):
                        raise Abort('result %r' % (r,))
                    return tuple(bool(x) for x in r.a.reshape(-1))
                if kb == 'AI':
                    w = tuple(want_cmp(op, o['a'], o['b'], o['c'], o['d']) for o in (o1, o2))
                else:
                    w = tuple(want_cmp(op, o['a'], o['b'], 1, 1) for o in (o1, o2))
                record_pred(rep, 'order-array', '%s %s %s' % (NICE[ka], SY[op], NICE[kb]), '%s | %s' % (order_name(o1), order_name(o2)), I.run(th), w)
        foreign(rep, I, op)
    rep.note('functions', sorted(stats.funcs))
    rep.note('partitions', stats.partitions)
    rep.floor = 2000


FOREIGN = [('str', 'abc'), ('NoneType', None), ('list', 'LIST'), ('dict', 'DICT'), ('object', Opaque('object'))]


def foreign_value(v):
    return [1.0, 2.0] if isinstance(v, str) and v == 'LIST' else {} if isinstance(v, str) and v == 'DICT' else v


def foreign(rep, I, op):
    p, q = V('p'), V('q')
    for cls in (C, K):
        for nm, fv in FOREIGN:
            def th(I):
                x = iv(I, cls, -p, q)
                y = foreign_value(fv)
                if op == 'in':
                    return I.contains(x, y)
                return I.cmp(op, x, y)
            cons = '%s %s %s' % (NICE[cls[0]], SY.get(op, op), nm)
            for kind, v, facts, mode in I.run(th):
                if kind == 'abort':
                    rep.undecided('foreign-operand', cons, v)
                elif kind == 'raise' and isinstance(v, ExcV) and v.name == 'TypeError':
                    rep.ok('foreign-operand', cons)
                elif kind == 'raise':
                    rep.bad('foreign-operand', cons, 'raises %r instead of TypeError' % (v,))
                else:
                    rep.bad('foreign-operand', cons, 'answers %r instead of raising TypeError' % (v,))


def c06(rep):
    rep.rule = ('abstract interpretation of membership and of the subset family over every weak order of the endpoints, for '
                'scalars and two-element arrays: inclusion is decided endpoint by endpoint, the proper variants are strict at '
                'both ends, superset/proper_superset/supercontain are the mirror of subset/proper_subset/contain, and array '
                'answers are the conjunction (subset family) or the element-wise mask (contain family)')
    stats = Stats()
    I = new_interp(stats)
    I.underflow = True
    need(I, *[UMOD + ':' + n for n in ('subset', 'superset', 'proper_subset', 'proper_superset', 'contain', 'supercontain')])
    orders4, orders3 = weak_orders('abcd'), weak_orders('abc')
    inc = lambda a, b, c, d: c <= a and b <= d            # [a,b] inside [c,d]
    pin = lambda a, b, c, d: c < a and b < d
    for o in orders4:
        pol = {k: lf(rank_poly(r)) for k, r in o.items()}
        A, B, Cc, D = (o[k] for k in 'abcd')
        for ka, kb in (('C', 'C'), ('K', 'K'), ('C', 'K'), ('K', 'C')):
            if ka == 'C' and A > B or kb == 'C' and Cc > D:
                continue

            def x(I):
                return operand(I, ka, pol['a'], pol['b'])

            def y(I):
                return operand(I, kb, pol['c'], pol['d'])
            cell = '[a,b],[c,d] with %s' % order_name(o)
            record_pred(rep, 'membership', '%s in %s' % (NICE[ka], NICE[kb]), cell, I.run(lambda I: I.contains(y(I), x(I))), inc(A, B, Cc, D))
            for fnm, w in (('subset', inc(A, B, Cc, D)), ('superset', inc(Cc, D, A, B)), ('proper_subset', pin(A, B, Cc, D)),
                           ('proper_superset', pin(Cc, D, A, B)), ('contain', inc(A, B, Cc, D)), ('supercontain', inc(Cc, D, A, B))):
                if (ka, kb) in (('C', 'C'), ('K', 'K')):
                    record_pred(rep, 'subset-family', '%s(%s, %s)' % (fnm, NICE[ka], NICE[kb]), cell,
                                I.run(lambda I: I.call(I.get(UMOD + ':' + fnm), [x(I), y(I)], {})), w)
    for o in orders3:
        for ka in 'CK':
            if ka == 'C' and o['a'] > o['b']:
                continue
            pol = {k: lf(rank_poly(r)) for k, r in o.items()}
            for kn in ('float', 'int', 'npfloat'):
                record_pred(rep, 'membership', '%s in %s' % (NICE[kn], NICE[ka]), 'c in [a,b] with %s' % order_name(o),
                            I.run(lambda I: I.contains(operand(I, ka, pol['a'], pol['b']), operand(I, kn, pol['c'], None))),
                            o['a'] <= o['c'] <= o['b'])
    # arrays
    some = [dict(a=1, b=2, c=0, d=3), dict(a=0, b=3, c=1, d=2), dict(a=0, b=1, c=0, d=1), dict(a=0, b=2, c=1, d=3),
            dict(a=0, b=1, c=0, d=2), dict(a=1, b=2, c=0, d=2), dict(a=1, b=3, c=0, d=2), dict(a=0, b=1, c=2, d=3)]
    for o1, o2 in itertools.product(some, repeat=2):
        P = [{k: lf(rank_poly(r)) for k, r in o.items()} for o in (o1, o2)]

        def xs(I):
            return arr_of(I, [iv(I, C, p['a'], p['b']) for p in P])

        def ys(I):
            return arr_of(I, [iv(I, C, p['c'], p['d']) for p in P])
        t = [tuple(o[k] for k in 'abcd') for o in (o1, o2)]
        sw = [(c, d, a, b) for a, b, c, d in t]
        cell = '%s | %s' % (order_name(o1), order_name(o2))
        for fnm, w in (('subset', all(inc(*u) for u in t)), ('superset', all(inc(*u) for u in sw)),
                       ('proper_subset', all(pin(*u) for u in t)), ('proper_superset', all(pin(*u) for u in sw)),
                       ('contain', tuple(inc(*u) for u in t)), ('supercontain', tuple(inc(*u) for u in sw))):
            def th(I):
                r = I.call(I.get(UMOD + ':' + fnm), [xs(I), ys(I)], {})
                if isinstance(w, tuple):
                    if not isinstance(r, Arr):
                        raise Abort('result %r' % (r,))
                    return tuple(bool(e) for e in r.a.reshape(-1))
                return r
            record_pred(rep, 'subset-family', '%s(array, array)' % fnm, cell, I.run(th), w)
        # a number / interval / box in an interval array: some element contains it
        for what in ('number', 'interval', 'array'):
            def th(I):
                A = xs(I)
                if what == 'number':
                    return I.contains(A, Num(lf(rank_poly(1)), 'float'))
                if what == 'interval':
                    return I.contains(A, iv(I, C, rank_poly(1), rank_poly(2)))
                return I.contains(ys(I), A)
            if what == 'number':
                w = any(a <= 1 <= b for a, b, _, _ in t)
            elif what == 'interval':
                w = any(a <= 1 and 2 <= b for a, b, _, _ in t)
            else:
                w = any(inc(*u) for u in t)
            record_pred(rep, 'membership', '%s in array' % what, cell, I.run(th), w)
    foreign(rep, I, 'in')
    rep.note('functions', sorted(stats.funcs))
    rep.note('partitions', stats.partitions)
    rep.floor = 1000


def c07(rep):
    rep.rule = ('abstract interpretation of the intersection over every weak order of the endpoints, for scalars, numbers and '
                'arrays: operands that meet give exactly [largest lower end, smallest upper end] in either operand order; '
                'operands separated by more than the documented 1e-15 give the [nan, nan] interval')
    rep.assumptions += ['gaps of at most 1e-15 are treated as touching by the library and are not judged']
    stats = Stats()
    I = new_interp(stats)
    need(I, PMOD + ':intersection')
    f = lambda I: I.get(PMOD + ':intersection')

    def judge(cons, cell, outs, lo, hi, disjoint, pick=lambda I, v: v):
        for kind, v, facts, mode in outs:
            if kind == 'abort':
                rep.undecided('intersection', cons, '%s: %s' % (cell, v))
                continue
            if facts and not feasible(facts):
                continue
            if kind == 'raise':
                rep.bad('intersection', cons, 'raises %r for %s' % (v, cell))
                continue
            if v is None:
                rep.bad('intersection', cons, 'no interval for %s' % cell)
                continue
            _, a, b = v
            if disjoint:
                good = all(t.k == 'sp' and t.x == tm.NAN for t in (a, b))
                rep.add('intersection', cons, 'ok' if good else 'bad' if False else ('ok' if good else 'violated'),
                        'disjoint operands (%s) give [%r, %r] instead of nan' % (cell, a, b))
            else:
                for t, w, nm in ((a, lo, 'lower'), (b, hi, 'upper')):
                    st, d = orc.same(t, w, (), facts)
                    rep.add('intersection', cons, st, '%s end for %s: %s' % (nm, cell, d))
    for o, (shift, scale) in itertools.product(list(weak_orders('abcd')), MAGNITUDES):
        if o['a'] > o['b'] or o['c'] > o['d']:
            continue
        at = lambda r: lf(Poly.const(shift) + rank_poly(r) * Poly.const(scale))
        pol = {k: at(r) for k, r in o.items()}
        lo, hi = max(o['a'], o['c']), min(o['b'], o['d'])
        LO, HI = at(lo), at(hi)
        cell = '[a,b],[c,d] with %s%s' % (order_name(o), '' if not shift and scale == 1 else ', about %s, gaps of the size %s' % (float(shift), float(scale)))

        def sc(I, v):
            return orc.ends(I, v)
        for ka, kb in (('C', 'C'), ('Ci', 'C'), ('K', 'C'), ('C', 'K')):
            def th(I):
                return orc.ends(I, I.call(f(I), [operand(I, ka, pol['a'], pol['b']), operand(I, kb, pol['c'], pol['d'])], {}))
            judge('intersection(%s, %s)' % (NICE[ka], NICE[kb]), cell, I.run(th), LO, HI, lo > hi)

        for form in ('array,array', 'array,scalar', 'scalar,array'):
            def th(I):
                x, y = iv(I, C, pol['a'], pol['b']), iv(I, C, pol['c'], pol['d'])
                z = iv(I, C, pol['c'], pol['d'])
                if form == 'array,array':
                    r = I.call(f(I), [arr_of(I, [z, x]), arr_of(I, [iv(I, C, pol['c'], pol['d']), y])], {})
                elif form == 'array,scalar':
                    r = I.call(f(I), [arr_of(I, [z, x]), y], {})
                else:
                    r = I.call(f(I), [y, arr_of(I, [z, x])], {})
                d = I.getattr(r, 'data')
                if not isinstance(d, Arr) or d.a.size != 2:
                    raise Abort('result %r' % (r,))
                e0, e1 = orc.ends(I, d.a.reshape(-1)[0]), orc.ends(I, d.a.reshape(-1)[1])
                return e0, e1
            outs = list(I.run(th))
            judge('intersection(%s)[0]' % form, cell, [(k, v[0] if k == 'value' else v, fa, m) for k, v, fa, m in outs],
                  pol['c'], pol['d'], False)
            judge('intersection(%s)[1]' % form, cell, [(k, v[1] if k == 'value' else v, fa, m) for k, v, fa, m in outs],
                  LO, HI, lo > hi)
    for o in weak_orders('abc'):
        if o['a'] > o['b']:
            continue
        pol = {k: lf(rank_poly(r)) for k, r in o.items()}
        inside = o['a'] <= o['c'] <= o['b']
        for left in (0, 1):
            def th(I):
                a = [iv(I, C, pol['a'], pol['b']), Num(pol['c'], 'float')]
                return orc.ends(I, I.call(f(I), a[::-1] if left else a, {}))
            judge('intersection(number)' if left else 'intersection(., number)', 'c vs [a,b], %s' % order_name(o), I.run(th), pol['c'], pol['c'], not inside)
    # arrays of different shapes are refused
    def th(I):
        z = lambda: iv(I, C, -V('p'), V('q'))
        return I.call(f(I), [arr_of(I, [z(), z()]), arr_of(I, [z(), z(), z()])], {})
    for kind, v, facts, mode in I.run(th):
        st = 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated'
        rep.add('shape', 'intersection of arrays of different shape', st, 'returns %r' % (v,))
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 300


# --------------------------------------------------------------------------- division by zero
def c03(rep):
    rep.rule = ('abstract interpretation of every division dispatch path with a divisor from the cells that contain zero '
                '(touching, straddling, degenerate, improper): no path may return')
    stats = Stats()
    I = new_interp(stats)
    pairs = [(p, False) for p in SCALAR_PAIRS + ARRAY_PAIRS] + [(p, True) for p in SCALAR_PAIRS]
    for (ka, kb), I.underflow in pairs:
        cons = '%s / %s' % (NICE[ka], NICE[kb])
        if kb in ('ndarray', 'npfloat', 'npint', 'float', 'int', 'list'):
            pass
        cas = [c for c in cells_for(ka, 'x') if c[0].strip('~') in ('--', '-+', '++', '00', '+', '-', '0', '+-')]
        stats.funcs = set()
        for ca, cb in itertools.product(cas, cells_for(kb, 'y', 'zero')):
            def th(I):
                return I.binop('truediv', operand(I, ka, ca[1], ca[2]), operand(I, kb, cb[1], cb[2]))
            for kind, v, facts, mode in I.run(th):
                cell = 'dividend %s, divisor %s' % (ca[0], cb[0])
                if kind == 'abort':
                    rep.undecided('division-by-zero', cons, '%s: %s' % (cell, v))
                elif kind == 'raise':
                    if isinstance(v, ExcV) and v.name in ('ValueError', 'ZeroDivisionError'):
                        rep.ok('division-by-zero', cons)
                    else:
                        rep.bad('division-by-zero', cons, '%s: raises %r, not the division error' % (cell, v))
                else:
                    rep.bad('division-by-zero', cons, '%s: returns %r [through %s]' % (cell, v, chain(stats)))
    # one zero-containing element among regular ones
    p, q = V('p'), V('q')
    for cls in (C, K):
        for pos in (0, 1):
            for num in ('float', 'AI', 'npfloat', 'ndarray', 'C'):
                def th(I):
                    els = [iv(I, cls, p, p + q), iv(I, cls, p, p + q)]
                    els[pos] = iv(I, cls, -p, q)
                    d = arr_of(I, els)
                    if num == 'AI':
                        n = arr_of(I, [iv(I, C, p, q + p), iv(I, C, p, q + p)])
                    elif num == 'ndarray':
                        n = mkarr([Num(lf(p), 'np'), Num(lf(q), 'np')], (2,), 'float')
                    else:
                        n = operand(I, num, lf(p), lf(p + q))
                    return I.binop('truediv', n, d)
                cons = '%s / interval array with one zero-containing element' % NICE[num]
                for kind, v, facts, mode in I.run(th):
                    st = 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated'
                    rep.add('division-by-zero', cons, st, 'element %d contains zero: %s %r' % (pos, kind, v))
    rep.note('partitions', stats.partitions)
    rep.floor = 600
