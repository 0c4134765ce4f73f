"""Elementary functions and powers of scalar intervals."""
import math
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Num, Stats, term
from ..oracle import KMOD
from ..terms import Poly, lf
from .arith import C, K, NICE, cells_for, new_interp
from .scalar import EMOD, V, iv, need

DBLMAX = F(1.7976931348623157e308)


def two(rep, cons, cell, v, facts, ideal, tight=True, outward=True):
    """value rule and outward rule, keyed apart"""
    if v is None:
        rep.bad('range', cons, '%s: not an interval' % cell)
        return
    for side, t, i in (('lo', v[1], ideal[0]), ('hi', v[2], ideal[1])):
        st, d = orc.endpoint(side, t, i, facts, tight=tight, safe=False)
        if st == 'vacuous':
            continue
        rep.add('range', cons, st, '%s: %s' % (cell, d))
        if st != 'ok' or not outward:
            continue
        st, d = orc.endpoint(side, t, i, facts, tight=False, safe=True)
        if st != 'vacuous':
            rep.add('outward', cons, st, '%s: %s' % (cell, d))


def fnt(n):
    return lambda t: tm.fn(n, (t,))


def expo(t):
    if t.k == 'sp':
        return {'inf': tm.T_INF, '-inf': tm.ZERO}.get(t.x, t)
    if t == tm.ZERO:
        return tm.ONE
    return tm.fn('exp', (t,))


def logt(t):
    if t == tm.ZERO:
        return tm.T_NINF
    return tm.fn('log', (t,))


def c11(rep):
    rep.rule = ('abstract interpretation of exp, log, sqrt, sin, cos and powers of scalar intervals; each path\'s end terms are '
                'compared with the exact range of the function over the operand: by sign cell for the monotone functions and the '
                'powers, by pair of segments between consecutive multiples of a quarter turn for sine and cosine; a result of the '
                'C mathematical library is one unit in the last place wide on both sides, and the ends must lie outside it')
    rep.assumptions += ['libm results of exp, sin, cos, log are within one unit in the last place',
                        'sine and cosine: arguments within twelve quarter turns of zero, not within rounding of a multiple of a quarter turn']
    stats = Stats()
    I = new_interp(stats)
    need(I, *[EMOD + ':' + n for n in ('sqrt', 'exp', 'log', 'sin', 'cos')])
    f = lambda n: (lambda I, x: orc.ends(I, I.call(I.get(EMOD + ':' + n), [x], {})))

    for cls in (C, K):
        nm = NICE[cls[0]]
        for cn, a, b in cells_for('C' if cls == C else 'K', 'x'):
            improper = cn[0] == '~'
            lo, hi = (b, a) if improper else (a, b)
            mk = lambda I: iv(I, cls, a, b)
            # exp
            for fork in (False, True):
                I.fork_overflow = fork
                for kind, v, facts, mode in I.run(lambda I: f('exp')(I, mk(I))):
                    cons = 'exp(%s)' % nm
                    ov = {x[1]: x[3] for x in facts if x[0] == 'exp_over'}
                    fx = tuple(x for x in facts if x[0] in orc.OPS)
                    if kind == 'abort':
                        rep.undecided('range', cons, '%s %s' % (cn, v))
                        continue
                    if kind == 'raise':
                        rep.bad('range', cons, 'cell %s: raises %r' % (cn, v))
                        continue
                    if ov.get(lo) and not ov.get(hi):
                        continue            # the larger end overflows whenever the smaller does
                    if any(ov.values()) and v is not None:
                        for side, t, x in (('lower', v[1], a), ('upper', v[2], b)):
                            if ov.get(x):
                                c = {'sp': lambda: t.x, 'lf': lambda: t.x.cval() if t.x.is_const() else None}.get(t.k, lambda: None)()
                                good = c == DBLMAX if side == 'lower' else c == 'inf'
                                rep.add('overflow', cons, 'ok' if good else 'violated',
                                        'cell %s: the %s end is %r when the exponential of it overflows' % (cn, side, t))
                        for side, t, x in (('lo', v[1], a), ('hi', v[2], b)):
                            if not ov.get(x):
                                st, d = orc.endpoint(side, t, expo(x), fx)
                                if st != 'vacuous':
                                    rep.add('range', cons, st, 'cell %s, overflow at the other end: %s' % (cn, d))
                        continue
                    two(rep, cons, 'cell ' + cn, v, fx, (expo(a), expo(b)))
            I.fork_overflow = False
            # log and sqrt: the part of the operand below zero is outside the domain
            clo = tm.ZERO if tm.sign(lo) == -1 else lo
            for n in ('log', 'sqrt'):
                cons = '%s(%s)' % (n, nm)
                for kind, v, facts, mode in I.run(lambda I: f(n)(I, mk(I))):
                    if kind == 'abort':
                        rep.undecided('range', cons, '%s %s' % (cn, v))
                        continue
                    if kind == 'raise':
                        rep.bad('range', cons, 'cell %s: raises %r' % (cn, v))
                        continue
                    if tm.sign(hi) == -1:
                        good = v is not None and v[1] == tm.T_NAN == v[2]
                        rep.add('range', cons, 'ok' if good else 'violated', 'cell %s: result %r for an operand below the domain' % (cn, v))
                        continue
                    g = logt if n == 'log' else (lambda t: tm.ZERO if t == tm.ZERO else tm.fn('sqrt', (t,)))
                    w = (g(clo), g(hi))
                    if improper:
                        w = (w[1], w[0])
                    tight = not (n == 'sqrt' and clo == tm.ZERO)
                    if not tight:
                        # the tiny negative lower end next to zero is allowed
                        z, y = (v[1], v[2]) if not improper else (v[2], v[1])
                        side = 'hi' if not improper else 'lo'
                        st, d = ('ok', '') if hi == tm.ZERO else orc.endpoint(side, y, g(hi), facts, safe=False)
                        rep.add('range', cons, st, 'cell %s: %s' % (cn, d))
                        ok = tm.sign(orc.strip(z)) in (0, -1)
                        if not improper:
                            rep.add('range', cons, 'ok' if ok else 'violated', 'cell %s: lower end %r, the square root of zero is zero' % (cn, z))
                        continue
                    two(rep, cons, 'cell ' + cn, v, facts, w, outward=n != 'sqrt')
            # natural powers
            for n in range(0, 7):
                if improper and n % 2 == 0 and cn in ('~--', '~0-'):
                    continue            # the library's convention for these is pinned by its tests, not by a definition
                cons = '%s ** natural' % nm
                pw = lambda t: tm.ONE if n == 0 else tm.ZERO if t == tm.ZERO else tm.fn('**', (t, lf(n))) if n > 1 else t
                for kind, v, facts, mode in I.run(lambda I: orc.ends(I, I.binop('pow', mk(I), n))):
                    if kind == 'abort':
                        rep.undecided('range', cons, '%s**%d %s' % (cn, n, v))
                        continue
                    if kind == 'raise':
                        rep.bad('range', cons, 'cell %s, exponent %d: raises %r' % (cn, n, v))
                        continue
                    A, B = pw(lo), pw(hi)
                    if n == 0:
                        w = (tm.ONE, tm.ONE)
                        if tm.sign(lo) != 1 and tm.sign(hi) != -1:
                            continue        # the value of 0**0 is a convention
                    elif n % 2 or tm.sign(lo) in (0, 1):
                        w = (A, B)
                    elif tm.sign(hi) in (0, -1):
                        w = (B, A)
                    else:
                        w = (tm.ZERO, tm.minmax('max', [A, B]))
                    if improper:
                        w = (w[1], w[0])
                    two(rep, cons, 'cell %s, exponent %d' % (cn, n), v, facts, w, outward=cn != '~+-')
            # other exponents need a base that is not negative
            for en, e in (('real', Num(lf(V('e')), 'float')), ('negative real', Num(lf(-V('e')), 'float')), ('negative integer', -2)):
                cons = '%s ** %s' % (nm, en)
                neg = tm.sign(lo) == -1
                zero = tm.sign(lo) == 0
                if neg and improper and tm.sign(hi) == 1:
                    pass
                for kind, v, facts, mode in I.run(lambda I: orc.ends(I, I.binop('pow', mk(I), e))):
                    if kind == 'abort':
                        rep.undecided('range', cons, '%s %s' % (cn, v))
                        continue
                    if neg:
                        rep.add('domain', cons, 'ok' if kind == 'raise' and v.name == 'ValueError' else 'violated',
                                'cell %s: %s %r for a base containing negative numbers' % (cn, kind, v))
                        continue
                    if zero:
                        continue
                    if kind == 'raise':
                        rep.bad('range', cons, 'cell %s: raises %r' % (cn, v))
                        continue
                    te = term(e)
                    g = lambda t: tm.fn('**', (t, te))
                    w = (g(a), g(b)) if tm.sign(te) == 1 else (g(b), g(a))
                    for side, t, i in (('lo', v[1], w[0]), ('hi', v[2], w[1])):
                        st, d = orc.endpoint(side, t, i, facts, safe=False)
                        if st != 'vacuous':
                            rep.add('range', cons, st, 'cell %s: %s' % (cn, d))
    trig(rep, I)
    rep.note('abstract_states', stats.states if hasattr(stats, 'states') else None)
    rep.floor = 300


def trig(rep, I):
    u, w = V('u'), V('w')
    base = 20
    q = F(math.pi) / 2
    a, b = lf(u - Poly.const(base)), lf(u - Poly.const(base) + w)
    segs = range(-7, 7)
    for fn in ('sin', 'cos'):
        for cls in (C, K):
            lo, hi = (a, b) if cls == C else (b, a)
            cons = '%s(%s)' % (fn, NICE[cls[0]])
            outs = []
            for kind, v, facts, mode in I.run(lambda I: orc.ends(I, I.call(I.get(EMOD + ':' + fn), [iv(I, cls, lo, hi)], {}))):
                if kind == 'abort':
                    rep.undecided('range', cons, v)
                    continue
                outs.append((kind, v, facts))
            for i in segs:
                for j in range(i, min(i + 7, 8)):
                    for o1, o2 in ((F(3, 10), F(7, 10)), (F(6, 10), F(4, 10)), (F(1, 50), F(49, 50)), (F(48, 50), F(1, 50))):
                        x, y = (i + o1) * q, (j + o2) * q
                        if x >= y:
                            continue
                        pt = {'u': x + base, 'w': y - x}
                        ev = tm.Eval(pt)
                        hit = 0
                        cell = 'from %.4g to %.4g' % (x, y)
                        for kind, v, facts in outs:
                            try:
                                h = orc.facts_hold([f for f in facts if f[0] in orc.OPS], ev)
                            except tm.Undef as e:
                                rep.undecided('range', cons, '%s: %s' % (cell, e))
                                continue
                            if h is False:
                                continue
                            hit += 1
                            if kind == 'raise' or v is None:
                                rep.bad('range', cons, '%s: %s %r' % (cell, kind, v))
                                continue
                            # critical points are the segment borders with odd (sine) or even (cosine) index
                            r = 1 if fn == 'sin' else 2
                            crit = [k for k in range(i + 1, j + 1)]
                            mn = any((k - (3 if fn == 'sin' else 2)) % 4 == 0 for k in crit)
                            mx = any((k - (1 if fn == 'sin' else 0)) % 4 == 0 for k in crit)
                            fx, fy = tm.transc(fn, x), tm.transc(fn, y)
                            m = F(-1) if mn else min(fx, fy)
                            M = F(1) if mx else max(fx, fy)
                            ends = (m, M) if cls == C else (M, m)
                            try:
                                L, U = ev(v[1]), ev(v[2])
                            except tm.Undef as e:
                                rep.undecided('range', cons, '%s: %s' % (cell, e))
                                continue
                            for side, g, e in (('lower', L, ends[0]), ('upper', U, ends[1])):
                                if isinstance(g.c, str) or abs(g.c - e) > F(1, 10 ** 12):
                                    rep.bad('range', cons, '%s: the %s end is %s, the range of the function gives %s (%r)' % (
                                        cell, side, tm.show(g.c), tm.show(e), v[1] if side == 'lower' else v[2]))
                                    continue
                                rep.ok('range', cons)
                                crit_end = e in (F(1), F(-1))
                                inside = g.c + g.hi > e if side == 'lower' else g.c + g.lo < e
                                rep.add('outward', cons, 'violated' if inside else 'ok',
                                        '%s: the %s end %r can fall inside the range end' % (cell, side, v[1] if side == 'lower' else v[2]))
                        if not hit:
                            rep.undecided('range', cons, '%s: no path' % cell)
