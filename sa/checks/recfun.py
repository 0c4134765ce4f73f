"""Recognizing functionals: values, subgradients, optimisation wiring, linear constraints."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Ext, Inst, Native, Num, Opaque, Stats, is_num, mkarr, term
from ..oracle import KMOD
from ..terms import Poly, lf
from .arith import C, K, new_interp
from .lift import eldata, is_array
from .scalar import RMOD, PMOD, UMOD, V, arr_of, feasible, iv, need

LIN = 'intvalpy.linear.'
AMOD = 'intvalpy.kernel.abstract'
R5 = 'intvalpy.kernel.ralgb5'
FUNCS = ('Tol', 'Uni', 'Uss')


def num(t, ty='np'):
    return Num(t if not isinstance(t, (Poly, int, F)) else lf(t), ty)


def vec(ts, dt='float'):
    return mkarr([num(t) for t in ts], (len(ts),), dt)


def xcells(m):
    """sign cells of a point: list of polynomials"""
    for pat in itertools.product('+-0', repeat=m):
        yield ''.join(pat), [{'+': V('x%d' % j), '-': -V('x%d' % j), '0': Poly.const(0)}[c] for j, c in enumerate(pat)]


def system(n, m, point=()):
    """interval system with ends of unrestricted sign: polynomials ((lo, hi) matrix, (lo, hi) vector)"""
    A = [[(V('a%d%d' % (i, j)) - V('A%d%d' % (i, j)), V('a%d%d' % (i, j)) - V('A%d%d' % (i, j)) + (Poly.const(0) if (i, j) in point else V('w%d%d' % (i, j))))
          for j in range(m)] for i in range(n)]
    b = [(V('b%d' % i) - V('B%d' % i), V('b%d' % i) - V('B%d' % i) + V('v%d' % i)) for i in range(n)]
    return A, b


def mkA(I, A, ty='float'):
    return arr_of(I, [iv(I, C, lo, hi, ty) for row in A for lo, hi in row], (len(A), len(A[0])))


def mkb(I, b, ty='float'):
    return arr_of(I, [iv(I, C, lo, hi, ty) for lo, hi in b])


def half(p):
    return tm.mul(lf(F(1, 2)), lf(p))


def ideal(name, A, b, x, w):
    """terms of the constituents; x: polynomials whose signs follow the cell given by their first occurrence"""
    out = []
    for i, row in enumerate(A):
        # product of the row and the point as an interval, from the signs of x
        L = U = tm.ZERO
        for (lo, hi), xj in zip(row, x):
            p, q = tm.mul(lf(lo), lf(xj)), tm.mul(lf(hi), lf(xj))
            L = tm.add(L, tm.minmax('min', [p, q]))
            U = tm.add(U, tm.minmax('max', [p, q]))
        lo, hi = b[i]
        rad, mid = half(hi - lo), half(hi + lo)
        P, Q = tm.sub(mid, U), tm.sub(mid, L)
        if name == 'Tol':
            v = tm.sub(rad, tm.minmax('max', [tm.absval(P), tm.absval(Q)]))
        elif name == 'Cheb':
            v = tm.add(rad, tm.minmax('max', [tm.absval(P), tm.absval(Q)]))
        elif name == 'Uni':
            v = tm.sub(rad, tm.minmax('max', [tm.ZERO, P, tm.neg(Q)]))
        else:
            r, m = rad, mid
            for (lo, hi), xj in zip(row, x):
                r = tm.add(r, tm.mul(half(hi - lo), tm.absval(lf(xj))))
                m = tm.sub(m, tm.mul(half(hi + lo), lf(xj)))
            v = tm.sub(r, tm.absval(m))
        out.append(tm.mul(w[i], v))
    return out


def overall(name, A, b, x, w):
    return tm.minmax('max' if name == 'Cheb' else 'min', ideal(name, A, b, x, w))


def mig_gap(A, b, x, w):
    """negative where the functional is below all the weighted radii, that is, no residual of the attaining component contains zero"""
    return tm.sub(overall('Uni', A, b, x, w), tm.minmax('min', [tm.mul(w[i], half(hi - lo)) for i, (lo, hi) in enumerate(b)]))


STEP = F(1, 10 ** 9)


def judge_grad(rep, rule, cons, grad, f, x, facts, sign, cell):
    """grad: terms; f(x) -> term of the exact function; sign: the routine returns sign * gradient"""
    zero = Poly.const(0)
    base = f(x)
    side = []
    for j in range(len(x)):
        d = []
        for s in (1, -1):
            y = list(x)
            y[j] = x[j] + Poly.const(STEP * s)
            d.append((f(y), s))
        side.append(d)
    vs = set()
    for t in grad + [base] + [u for d in side for u, _ in d]:
        vs |= orc.tvars(t)
    for fct in facts:
        if fct[0] in orc.OPS:
            vs |= orc.tvars(fct[1]) | orc.tvars(fct[2])
    n = 0
    for pt in orc.points(vs, 24):
        ev = tm.Eval(pt)
        try:
            if orc.facts_hold([q for q in facts if q[0] in orc.OPS], ev) is not True:
                continue
            n += 1
            b0 = ev(base).c
            for j, g in enumerate(grad):
                g = ev(g).c
                ds = [(ev(t).c - b0) / (STEP * s) * sign for t, s in side[j]]
                if not min(ds) - F(1, 10 ** 6) <= g <= max(ds) + F(1, 10 ** 6):
                    rep.bad(rule, cons, 'component %d is %s, the one-sided slopes are %s (%s, at %s)' % (
                        j, float(g), [float(d) for d in ds], cell, {k: float(v) for k, v in pt.items()}))
                    return
        except tm.Huge:
            continue
        except tm.Undef as e:
            rep.undecided(rule, cons, '%s %s' % (e, cell))
            return
    if n:
        rep.ok(rule, cons)


def lp_stub(I):
    """cvxopt.solvers.lp on a box: the exact minimiser, read off the signs of the objective"""
    def lp(I, args, kw):
        c, G, h = (I.toarr(a) for a in args[:3])
        c = [term(v) for v in c.a.reshape(-1)]
        h = [term(v) for v in h.a.reshape(-1)]
        m = len(c)
        G = [[v if isinstance(v, int) else (lambda p: None if p.vars() else p.at({}))(term(v).x) for v in row] for row in G.a]
        lo, hi = [None] * m, [None] * m
        for row, r in zip(G, h):
            nz = [j for j, g in enumerate(row) if g]
            if len(nz) != 1 or row[nz[0]] not in (1, -1):
                raise Abort('linear programme that is not a box')
            j = nz[0]
            if row[j] == 1:
                hi[j] = r
            else:
                lo[j] = tm.neg(r)
        if None in lo or None in hi:
            raise Abort('linear programme without a full box')
        out = []
        for j in range(m):
            s = tm.sign(c[j])
            if s is None:
                raise Abort('objective of unknown sign')
            out.append(num(lo[j] if s >= 0 else hi[j]))
        return {'x': mkarr(out, (m, 1), 'float'), 'status': 'optimal'}
    return {'cvxopt.solvers.lp': Native(lp), 'cvxopt.matrix': Native(lambda I, a, k: I.toarr(a[0]))}


def one(rep, I, rule, cons, th, want, cell):
    """th gives a number or an array of numbers; want: term or list of terms"""
    for kind, v, facts, mode in I.run(th):
        if kind == 'abort':
            rep.undecided(rule, cons, '%s %s' % (v, cell))
            continue
        if facts and not feasible(facts):
            continue
        if kind == 'raise':
            rep.bad(rule, cons, 'raises %r %s' % (v, cell))
            continue
        if isinstance(want, list):
            a = I.toarr(v)
            got = [term(t) if is_num(t) else None for t in a.a.reshape(-1)]
            if len(got) != len(want) or None in got:
                rep.bad(rule, cons, 'result %r %s' % (v, cell))
                continue
        elif not is_num(v):
            rep.bad(rule, cons, 'result %r is no number %s' % (v, cell))
            continue
        else:
            got, want_ = [term(v)], [want]
        for g, w in zip(got, want if isinstance(want, list) else want_):
            st, d = orc.same(orc.strip(g), w, (), facts)
            rep.add(rule, cons, st, '%s %s' % (d, cell))


def c15(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the recognizing functionals over the sign cells of the point, with interval ends of '
                'unrestricted sign: constituents, values and the values given to the optimiser equal the definitions, and every component of '
                'the subgradient lies between the one-sided slopes of the defined functional')
    stats = Stats()
    I = new_interp(stats, real=True)
    for f in FUNCS:
        need(I, LIN + f + ':' + f)
    I2 = new_interp(stats, real=True, stubs=lp_stub(None))
    need(I2, LIN + 'ChebNorm:ChebNorm')
    for name in FUNCS + ('Cheb',):
        J = I2 if name == 'Cheb' else I
        cname = 'ChebNorm' if name == 'Cheb' else name
        cls = lambda J: J.get(LIN + cname + ':' + cname)
        sgn = 1 if name == 'Cheb' else -1
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
            for pat, x in xcells(m):
                if n * m > 2 and '0' in pat and pat.count('0') != 1:
                    continue
                A, b = system(n, m, point={(0, 0)} if n > 1 else ())
                for wn in ('weights', 'no weights')[:2 if n * m <= 2 else 1]:
                    w = [lf(V('m%d' % i)) for i in range(n)] if wn == 'weights' else [tm.ONE] * n
                    cell = '%dx%d, x signs %s, %s' % (n, m, pat, wn)
                    kw = lambda: {'weight': vec(w)} if wn == 'weights' else {}
                    args = lambda J, ty='float': [mkA(J, A, ty), mkb(J, b, ty), vec(x)]
                    want = ideal(name, A, b, x, w)
                    tot = overall(name, A, b, x, w)
                    for ty in ('float', 'int')[:2 if n * m <= 2 else 1]:
                        one(rep, J, 'functional', cname + '.constituent', lambda J: J.call(J.getattr(cls(J), 'constituent'), args(J, ty), kw()), want, cell + ', ' + ty)
                        one(rep, J, 'functional', cname + '.value', lambda J: J.call(J.getattr(cls(J), 'value'), args(J, ty), kw()), tot, cell + ', ' + ty)
                    if name == 'Cheb' and wn == 'no weights':
                        continue

                    def fg(J):
                        inf = mkarr([num(lo) for row in A for lo, hi in row], (n, m), 'float')
                        sup = mkarr([num(hi) for row in A for lo, hi in row], (n, m), 'float')
                        Am = mkarr([num(half(lo + hi)) for row in A for lo, hi in row], (n, m), 'float')
                        Ar = mkarr([num(half(hi - lo)) for row in A for lo, hi in row], (n, m), 'float')
                        bm, br = vec([half(lo + hi) for lo, hi in b]), vec([half(hi - lo) for lo, hi in b])
                        r = J.call(J.getattr(cls(J), 'calcfg'), [vec(x), inf, sup, Am, Ar, bm, br, vec(w)], {})
                        if not isinstance(r, tuple) or len(r) != 2 or not is_num(r[0]):
                            return None
                        g = J.toarr(r[1])
                        return term(r[0]), [term(t) for t in g.a.reshape(-1)]
                    for kind, v, facts, mode in J.run(fg):
                        cons = cname + '.calcfg'
                        if kind == 'abort':
                            rep.undecided('subgradient', cons, '%s %s' % (v, cell))
                            continue
                        if facts and not feasible(facts):
                            continue
                        if kind == 'raise' or v is None or len(v[1]) != m:
                            rep.bad('subgradient', cons, '%s %r %s' % (kind, v, cell))
                            continue
                        fv, g = v
                        st, d = orc.same(orc.strip(fv), tot if sgn > 0 else tm.neg(tot), (), facts)
                        rep.add('value for the optimiser', cons, st, '%s %s' % (d, cell))
                        if name == 'Uni':
                            # on the plateau where the residual contains zero the functional has no slope to report
                            facts = tuple(facts) + (('lt', mig_gap(A, b, x, w), tm.ZERO, True),)
                        judge_grad(rep, 'subgradient', cons, [orc.strip(t) for t in g], lambda y: overall(name, A, b, y, w), x, tuple(facts), sgn, cell)
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 400


# --------------------------------------------------------------------------- linear constraints
INF = float('inf')


def c24(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the constraint object: for every pattern of finite, infinite and missing bounds and of '
                'zero rows the stored rows are the negated rows with negated lower bounds followed by the rows with the upper bounds, each '
                'finite bound once; the violation test, the penalty with its gradient, and the penalty weight equal their definitions')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, AMOD + ':LinearConstraint', AMOD + ':BaseRecFun')
    LC = lambda I: I.get(AMOD + ':LinearConstraint')
    M = [[V('c0'), -V('c1')], [-V('c2'), V('c3')], [V('c4'), Poly.const(0)]]
    Z = [Poly.const(0), Poly.const(0)]

    def mat(rows):
        return mkarr([num(p) for r in rows for p in r], (len(rows), len(rows[0])), 'float')

    def bound(pfx, pat):
        return None if pat is None else mkarr([num(V('%s%d' % (pfx, i)) - V('h')) if c == 'f' else num(tm.T_NINF if c == '-' else tm.T_INF)
                                               for i, c in enumerate(pat)], (len(pat),), 'float')
    for n in (1, 2, 3):
        for zero in (None,) + tuple(range(n)):
            rows = [Z if i == zero else M[i] for i in range(n)]
            pats = [None] + [''.join(p) for p in itertools.product('fi', repeat=n)]
            for lp, up in itertools.product(pats, pats):
                lpat = None if lp is None else lp.replace('i', '-')
                upat = None if up is None else up.replace('i', '+')
                want = []
                for k in range(n):
                    if lpat and lpat[k] == 'f' and k != zero:
                        want.append(([tm.neg(lf(p)) for p in rows[k]], tm.neg(lf(V('l%d' % k) - V('h')))))
                for k in range(n):
                    if upat and upat[k] == 'f' and k != zero:
                        want.append(([lf(p) for p in rows[k]], lf(V('u%d' % k) - V('h'))))

                def th(I):
                    kw = {}
                    if lpat is not None:
                        kw['lb'] = bound('l', lpat)
                    if upat is not None:
                        kw['ub'] = bound('u', upat)
                    o = I.call(LC(I), [mat(rows)], kw)
                    Cm, bm = I.toarr(I.getattr(o, 'C')), I.toarr(I.getattr(o, 'b'))
                    if I.getattr(o, 'mu') is not None:
                        return 'a weight %r nobody asked for' % (I.getattr(o, 'mu'),)
                    if Cm.a.ndim != 2 or bm.a.ndim != 1 or Cm.shape[0] != bm.shape[0] or Cm.shape[1] != 2:
                        return 'stored matrix of shape %s with bounds of shape %s' % (Cm.shape, bm.shape)
                    return [([term(v) for v in r], term(t)) for r, t in zip(Cm.a, bm.a)]
                cell = 'lower %s, upper %s, zero row %s' % (lpat, upat, zero)
                for kind, v, facts, mode in I.run(th):
                    cons = 'LinearConstraint'
                    if kind == 'abort':
                        rep.undecided('rows', cons, '%s %s' % (v, cell))
                        continue
                    if kind == 'raise' or isinstance(v, str):
                        rep.bad('rows', cons, '%s %r %s' % (kind, v, cell))
                        continue
                    if not want:
                        rep.add('rows', cons, 'ok' if all(t == tm.T_INF for _, t in v) else 'violated', 'no finite bound, but %r is stored (%s)' % (v, cell))
                        continue
                    left = [(tuple(r), t) for r, t in v if t != tm.T_INF]
                    bad = None
                    for r, t in want:
                        if (tuple(r), t) in left:
                            left.remove((tuple(r), t))
                        else:
                            bad = 'row %r <= %r is missing from %r' % (r, t, v)
                    if left and bad is None:
                        bad = 'unexpected rows %r' % (left,)
                    rep.add('rows', cons, 'ok' if bad is None else 'violated', '%s (%s)' % (bad, cell))
    # shapes are checked
    for nm, kw in (('lb', {'lb': vec([V('l0')])}), ('ub', {'ub': vec([V('l0'), V('l1'), V('l2')])})):
        for kind, v, facts, mode in I.run(lambda I: I.call(LC(I), [mat(M[:2])], dict(kw))):
            rep.add('refusal', 'LinearConstraint with %s of another length' % nm, 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', 'accepted')
    # violation test and penalty
    for n in (1, 2, 3):
        for pat, x in xcells(2):
            rows = M[:n]
            bs = [V('u%d' % i) - V('h%d' % i) for i in range(n)]
            cx = lambda y, i: tm.add(tm.mul(lf(rows[i][0]), lf(y[0])), tm.mul(lf(rows[i][1]), lf(y[1])))

            def obj(I):
                return I.call(LC(I), [mat(rows)], {'ub': vec(bs), 'mu': num(V('mu'))})
            cell = '%d rows, x signs %s' % (n, pat)
            for i in range(n):
                for kind, v, facts, mode in I.run(lambda I: (lambda r: (r[0], I.truth(r[1])))(I.call(I.getattr(obj(I), 'largeCondQ'), [vec(x), i], {}))):
                    if kind == 'abort':
                        rep.undecided('violation test', 'largeCondQ', v)
                    elif facts and not feasible(facts):
                        continue
                    elif kind == 'raise':
                        rep.bad('violation test', 'largeCondQ', 'raises %r' % (v,))
                    else:
                        st, d = orc.same(orc.strip(term(v[0])), cx(x, i), (), facts)
                        rep.add('violation test', 'largeCondQ', st, d)
                        flag = tm.minmax('max', [tm.ZERO, tm.sub(cx(x, i), lf(bs[i]))])
                        # the flag is a path constant; the exact excess must be positive on the path iff it is set
                        st, d = orc.same(tm.mul(flag, lf(0 if v[1] else 1)), tm.ZERO, (), facts)
                        if v[1]:
                            st, d = orc.same(tm.sub(flag, tm.sub(cx(x, i), lf(bs[i]))), tm.ZERO, (), facts)
                        rep.add('violation test', 'largeCondQ', st, 'violated=%s: %s (%s)' % (v[1], d, cell))

            def pen(y):
                s = tm.ZERO
                for i in range(n):
                    s = tm.add(s, tm.minmax('max', [tm.ZERO, tm.sub(cx(y, i), lf(bs[i]))]))
                return tm.mul(lf(V('mu')), s)

            def th(I):
                r = I.call(I.getattr(I.get(AMOD + ':BaseRecFun'), 'linear_penalty'), [vec(x), obj(I)], {})
                return term(r[0]), [term(t) for t in I.toarr(r[1]).a.reshape(-1)]
            for kind, v, facts, mode in I.run(th):
                cons = 'linear_penalty'
                if kind == 'abort':
                    rep.undecided('penalty', cons, '%s %s' % (v, cell))
                elif facts and not feasible(facts):
                    continue
                elif kind == 'raise':
                    rep.bad('penalty', cons, 'raises %r %s' % (v, cell))
                else:
                    st, d = orc.same(orc.strip(v[0]), pen(x), (), facts)
                    rep.add('penalty', cons, st, '%s %s' % (d, cell))
                    judge_grad(rep, 'penalty gradient', cons, [orc.strip(t) for t in v[1]], pen, x, tuple(facts), 1, cell)
    # penalty weight: numerator over the smallest absolute sum of a non-empty subset of the non-zero column entries
    p, q, r = V('p'), V('q'), V('r')
    mats = {'one row': [[p, -(p + q)]], 'same signs': [[p, q], [q, p]], 'with zeros': [[p, Poly.const(0)], [Poly.const(0), q], [q, Poly.const(0)]],
            'opposite signs': [[p + q + r, q], [-p, r], [p, Poly.const(0)]], 'three rows': [[p, r], [q, p], [r, q]]}
    for nm, rows in mats.items():
        best = []
        for j in range(2):
            col = [row[j] for row in rows if row[j].vars()]
            for k in range(1, len(col) + 1):
                for sub in itertools.combinations(col, k):
                    s = Poly.const(0)
                    for t in sub:
                        s = s + t
                    if s.vars():
                        best.append(tm.absval(lf(s)))
                    else:
                        best.append(None)
        if None in best:
            continue
        want = tm.div(lf(V('num')), tm.minmax('min', best))

        def mu(I):
            o = I.call(LC(I), [mat(rows)], {'ub': vec([V('u%d' % i) for i in range(len(rows))])})
            v = I.call(I.getattr(o, 'find_mu'), [num(V('num'))], {})
            m = I.getattr(o, 'mu')
            if term(m) != term(v):
                return None
            return v
        one(rep, I, 'penalty weight', 'find_mu', mu, want, nm)
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 300
