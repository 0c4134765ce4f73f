"""Solvers given by closed formulas (Hansen-Bliek-Rohn, Neumaier, Rohn), the subdifferential Newton method and global
minimisation: what is handed to the numerical kernels and what is returned."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Inst, Native, Num, Stats, is_num, mkarr, term
from ..oracle import KMOD
from ..terms import Poly, lf
from .arith import C, K, new_interp
from .recfun import LIN, R5, half, num, vec
from .scalar import V, arr_of, feasible, iv, need

ZERO = Poly.const(0)
ONE = Poly.const(1)
NUMS = [[F(3, 7), F(2, 5), F(11, 4)], [F(1, 3), F(7, 5), F(5, 6)], [F(2, 11), F(9, 8), F(1, 9)]]


def mat(rows, dt='float'):
    return mkarr([num(p) for r in rows for p in r], (len(rows), len(rows[0])), dt)


def ivec(I, xs, cls=C, shape=None):
    return arr_of(I, [iv(I, cls, lo, hi) for lo, hi in xs], shape)


def imat(I, rows, cls=C):
    return arr_of(I, [iv(I, cls, lo, hi) for r in rows for lo, hi in r], (len(rows), len(rows[0])))


def fn(name):
    return LIN + name + ':' + name


def judge(rep, I, rule, cons, th, want, cell, refuse=None, limit=512):
    """th returns an interval array; want(facts) or list of (lo, hi) terms. refuse: exception allowed when callable(facts)"""
    n = 0
    for kind, v, facts, mode in I.run(th, limit=limit):
        if facts and not feasible(facts):
            continue
        if kind == 'abort':
            rep.undecided(rule, cons, '%s (%s)' % (v, cell))
            continue
        if kind == 'raise':
            if refuse is not None and refuse(facts):
                rep.ok(rule, cons)
            else:
                rep.bad(rule, cons, 'raises %r (%s)' % (v, cell))
            continue
        els = [v] if isinstance(v, Inst) and v.cls.name in (C, K) else list(I.toarr(v).a.reshape(-1))
        ws = want(facts) if callable(want) else want
        if len(els) != len(ws):
            rep.bad(rule, cons, '%d components instead of %d (%s)' % (len(els), len(ws), cell))
            continue
        for j, (e, w) in enumerate(zip(els, ws)):
            x = orc.ends(I, e)
            if x is None:
                rep.bad(rule, cons, 'component %d is %r (%s)' % (j, e, cell))
                continue
            for k, nm in ((1, 'lower'), (2, 'upper')):
                st, d = orc.same(orc.strip(x[k]), w[k - 1], (), facts)
                rep.add(rule, cons, st, '%s end of component %d: %s (%s)' % (nm, j, d, cell))
        n += 1
    return n


# --------------------------------------------------------------------------- HBR
def hbr(rep, I):
    """the preconditioned matrix is arbitrary with a given comparison matrix M whose inverse is known exactly"""
    s, t = V('s'), V('t')
    M = [[ONE + s * t, -s], [-t, ONE]]
    B = [[ONE, s], [t, ONE + s * t]]
    one1 = ([[V('m')]], [[tm.T('rc', V('m'))]])

    def run(n, M, Binv, diag, off, bs, cols, cell):
        """diag: sign of the diagonal entries with excess, off: form of the off-diagonal entries"""
        A = []
        for i in range(n):
            row = []
            for j in range(n):
                m = M[i][j]
                if i == j:
                    e = V('e%d' % i)
                    row.append((m, m + e) if diag[i] == '+' else (-m - e, -m))
                else:
                    g = -m
                    z = {'+': (ZERO, g), '-': (-g, ZERO), '=': (-g, g), '.': (g, g), ':': (-g, -g)}[off[i * n + j]]
                    row.append(z)
            A.append(row)
        stage = []

        def inv(J, args, kw):
            a = J.toarr(args[0])
            stage.append(1)
            if len(stage) == 1:
                return mkarr([num(1 if i == j else 0) for i in range(n) for j in range(n)], (n, n), 'float')
            if len(stage) == 2:
                got = [term(v) for v in a.a.reshape(-1)]
                if got == [lf(p) for r in M for p in r]:
                    return mkarr([num(p) if isinstance(p, Poly) else num(p) for r in Binv for p in r], (n, n), 'float')
                # another matrix: exact inverse by the adjugate
                if n == 1:
                    return mkarr([num(tm.div(tm.ONE, got[0]))], (1, 1), 'float')
                det = tm.sub(tm.mul(got[0], got[3]), tm.mul(got[1], got[2]))
                return mkarr([num(tm.div(x, det)) for x in (got[3], tm.neg(got[1]), tm.neg(got[2]), got[0])], (2, 2), 'float')
            raise Abort('more than two inverses')
        I.stubs['numpy.linalg.inv'] = Native(inv)

        def th(J):
            del stage[:]
            b = ivec(J, bs) if cols is None else arr_of(J, [iv(J, C, *bs[i * cols + k]) for i in range(n) for k in range(cols)], (n, cols))
            return J.call(J.get(fn('HBR')), [imat(J, A), b], {})
        Bt = [[p if isinstance(p, tm.T) else lf(p) for p in r] for r in Binv]
        want = []
        ncol = cols or 1
        for i in range(n):
            for k in range(ncol):
                mags = [tm.minmax('max', [tm.absval(lf(bs[r * ncol + k][0])), tm.absval(lf(bs[r * ncol + k][1]))]) for r in range(n)]
                u = tm.ZERO
                for r in range(n):
                    u = tm.add(u, tm.mul(Bt[i][r], mags[r]))
                d = Bt[i][i]
                al = tm.sub(lf(M[i][i]), tm.div(tm.ONE, d))
                be = tm.sub(tm.div(u, d), mags[i])
                lo, hi = bs[i * ncol + k]
                x = (tm.sub(lf(lo), be), tm.add(lf(hi), be))
                alo, ahi = A[i][i]
                y = (tm.sub(lf(alo), al), tm.add(lf(ahi), al))
                q = [tm.div(p, r) for p in x for r in y]
                want.append((tm.minmax('min', q), tm.minmax('max', q)))
        judge(rep, I, 'hull formula', 'HBR' if cols is None else 'HBR with a matrix right-hand side', th, want, cell)

    def rhs(k, form):
        v, w = V('b%d' % k), V('w%d' % k)
        return {'+': (v, v + w), '-': (-v - w, -v), '=': (-v, w), '.': (v, v), '0': (ZERO, ZERO)}[form]
    for dg in '+-':
        for f in '+-=.':
            run(1, [[V('m')]], [[tm.T('rc', V('m'))]], dg, '.', [rhs(0, f)], None, '1x1 %s%s' % (dg, f))
    for dg in ('++', '+-', '--'):
        for off in ('.=+.', '..:.', '.-=.', '.=:.'):
            for f in ('++', '-=', '=+', '--', '+0', '.-'):
                run(2, M, B, dg, off, [rhs(0, f[0]), rhs(1, f[1])], None, '2x2 diagonal %s, off-diagonal %s, right side %s' % (dg, off, f))
    for cols, fs in ((1, '+-'), (2, '+-=+'), (2, '=--+'), (3, '+-==+-')):
        run(2, M, B, '++', '.=+.', [rhs(k, f) for k, f in enumerate(fs)], cols, '2x2, %d columns %s' % (cols, fs))
    # not an H-matrix: refusal
    TWO = Poly.const(2)
    def inverse(g, n):
        """exact inverse by cofactors"""
        M = [g[i * n:i * n + n] for i in range(n)]
        if n == 2:
            cof = [[M[1][1], tm.neg(M[1][0])], [tm.neg(M[0][1]), M[0][0]]]
        else:
            # constants: Gauss-Jordan over the rationals
            X = rational_inverse([[x.x.cval() for x in r] for r in M])
            return [num(Poly.const(x)) for r in X for x in r]
        det = tm.ZERO
        for j in range(n):
            det = tm.add(det, tm.mul(M[0][j], cof[0][j]))
        return [num(tm.div(cof[j][i], det)) for i in range(n) for j in range(n)]
    for nm, mm in (('zero diagonal', [[ZERO, -s], [-t, V('m')]]), ('dominant off-diagonal', [[ONE, -(ONE + s)], [-(ONE + t), ONE]]),
                   ('one good block', [[Poly.const(1 if i == j else F(-1, 5) if i < 10 and j < 10 else 0) for j in range(11)] for i in range(11)]),
                   ('one good block first', [[Poly.const(1 if i == j else F(-1, 5) if i and j else 0) for j in range(11)] for i in range(11)])):
        k = len(mm)
        bs = [rhs(0, '+'), rhs(1, '=')] if k == 2 else [(ONE, TWO)] * k
        for who in ('HBR', 'Gauss_Seidel'):
            A = [[(mm[i][j], mm[i][j]) if i == j else (mm[i][j], -mm[i][j]) for j in range(k)] for i in range(k)]
            stage = []

            def inv(J, args, kw):
                stage.append(1)
                if len(stage) == 1:
                    return mkarr([num(1 if i == j else 0) for i in range(k) for j in range(k)], (k, k), 'float')
                return mkarr(inverse([term(v) for v in J.toarr(args[0]).a.reshape(-1)], k), (k, k), 'float')
            I.stubs['numpy.linalg.inv'] = Native(inv)

            def th(J):
                del stage[:]
                return J.call(J.get(fn(who)), [imat(J, A), ivec(J, bs)], {'maxiter': 0} if who != 'HBR' else {})
            for kind, v, facts, mode in I.run(th):
                if facts and not feasible(facts):
                    continue
                elif kind == 'abort':
                    rep.undecided('refusal', who, v)
                else:
                    rep.add('refusal', who, 'ok' if kind == 'raise' else 'violated', 'returns a box for a matrix that is not an H-matrix (%s)' % nm)
    del I.stubs['numpy.linalg.inv']


# --------------------------------------------------------------------------- Neumaier
def rational_inverse(M):
    n = len(M)
    X = [list(r) + [F(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        k = next(r for r in range(i, n) if X[r][i])
        X[i], X[k] = X[k], X[i]
        X[i] = [x / X[i][i] for x in X[i]]
        for r in range(n):
            if r != i and X[r][i]:
                X[r] = [x - X[r][i] * y for x, y in zip(X[r], X[i])]
    return [r[n:] for r in X]


def cellpoly(ch, a, w):
    return {'+': (a, a + w), '-': (-a - w, -a), '=': (-a, w), '.': (a, a), '0': (ZERO, ZERO)}[ch]


def neumaier(rep, I):
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2)):
        forms = ['+-=+-=', '==.+-+', '-+.=+.'] if n * m > 1 else ['+', '-', '=']
        for fi, form in enumerate(forms):
            for ys in itertools.product('+-0' if m == 1 else '+-', repeat=m):
                for w in ((None, 1) if n * m < 6 else (1,)):
                    A = [[cellpoly(form[i * m + j], V('a%d%d' % (i, j)), V('e%d%d' % (i, j))) for j in range(m)] for i in range(n)]
                    b = [(V('b%d' % i) - V('B%d' % i), V('b%d' % i) - V('B%d' % i) + V('v%d' % i)) for i in range(n)]
                    y = [{'+': V('y%d' % j), '-': -V('y%d' % j), '0': ZERO}[c] for j, c in enumerate(ys)]
                    W = [V('w%d' % j) if w else ONE for j in range(m)]
                    rs = []
                    for i in range(n):
                        L = U = tm.ZERO
                        S = tm.ZERO
                        for j in range(m):
                            p, q = tm.mul(lf(A[i][j][0]), lf(y[j])), tm.mul(lf(A[i][j][1]), lf(y[j]))
                            L, U = tm.add(L, tm.minmax('min', [p, q])), tm.add(U, tm.minmax('max', [p, q]))
                            S = tm.add(S, tm.mul(tm.minmax('max', [tm.absval(lf(t)) for t in A[i][j]]), lf(W[j])))
                        mid, rad = half(b[i][0] + b[i][1]), half(b[i][1] - b[i][0])
                        mag = tm.minmax('max', [tm.absval(tm.sub(mid, U)), tm.absval(tm.sub(mid, L))])
                        if S != tm.ZERO:
                            rs.append(tm.div(tm.sub(rad, mag), S))
                    r = tm.minmax('min', rs)
                    # the centre is required to be in the tolerable solution set, so r >= 0
                    want = [(tm.sub(lf(y[j]), tm.mul(r, lf(W[j]))), tm.add(lf(y[j]), tm.mul(r, lf(W[j])))) for j in range(m)]

                    def th(J):
                        args = [imat(J, A), ivec(J, b), vec(y)] + ([vec(W)] if w else [])
                        return J.call(J.get(fn('Neumaier')), args, {})
                    cell = '%dx%d matrix %s, centre %s, %s' % (n, m, form[:n * m], ''.join(ys), 'weights' if w else 'no weights')
                    tight(rep, I, 'Neumaier', th, want, r, cell)


def tight(rep, I, cons, th, want, r, cell):
    for kind, v, facts, mode in I.run(th):
        if facts and not feasible(facts):
            continue
        if kind == 'abort':
            rep.undecided('tolerance box', cons, '%s (%s)' % (v, cell))
            continue
        if kind == 'raise':
            rep.bad('tolerance box', cons, 'raises %r (%s)' % (v, cell))
            continue
        els = [v] if isinstance(v, Inst) and v.cls.name in (C, K) else list(I.toarr(v).a.reshape(-1))
        if len(els) != len(want):
            rep.bad('tolerance box', cons, '%d components instead of %d (%s)' % (len(els), len(want), cell))
            continue
        facts = list(facts) + [('ge', r, tm.ZERO, True)]
        for j, (e, w) in enumerate(zip(els, want)):
            x = orc.ends(I, e)
            if x is None:
                rep.bad('tolerance box', cons, 'component %d is %r (%s)' % (j, e, cell))
                continue
            for k in (1, 2):
                st, d = orc.same(orc.strip(x[k]), w[k - 1], (), facts)
                rep.add('tolerance box', cons, st, '%s end of component %d: %s (%s)' % (('lower', 'upper')[k - 1], j, d, cell))


# --------------------------------------------------------------------------- Rohn
def points_of(ps, n=24):
    vs = set()
    for p in ps:
        vs |= p.vars() if isinstance(p, Poly) else orc.tvars(p)
    for pt in orc.points(vs, n):
        yield tm.Eval(pt)


def rohn_tol(rep, I):
    """the linear programmes describe the tolerable solution set, the answers are used as its extreme coordinates"""
    for n, m, forms in ((1, 1, '+'), (1, 1, '='), (2, 1, '+-'), (1, 2, '=+'), (2, 2, '+-=.'), (1, 3, '+-=')):
        A = [[cellpoly(forms[i * m + j], V('a%d%d' % (i, j)), V('e%d%d' % (i, j))) for j in range(m)] for i in range(n)]
        b = [(V('b%d' % i) - V('B%d' % i), V('b%d' % i) - V('B%d' % i) + V('v%d' % i)) for i in range(n)]
        cell = '%dx%d %s' % (n, m, forms)
        calls = []

        def lp(J, args, kw):
            if len(args) != 3:
                raise Abort('linear programme with %d arguments' % len(args))
            c, G, h = (J.toarr(a) for a in args)
            k = len(calls)
            x = [num(V('s%d_%d' % (k, j))) for j in range(c.a.size)]
            calls.append(([term(v) for v in c.a.reshape(-1)], [[term(v) for v in r] for r in G.a], [term(v) for v in h.a.reshape(-1)]))
            return {'x': mkarr(x, (len(x), 1), 'float'), 'status': status[0]}
        status = ['optimal']
        I.stubs['cvxopt.solvers.lp'] = Native(lp)
        I.stubs['cvxopt.matrix'] = Native(lambda J, a, k: J.toarr(a[0]))
        tv = [V('t')]

        I.stubs[R5 + ':ralgb5'] = Native(lambda J, a, k: (vec([V('z%d' % j) for j in range(m)]), num(-tv[0]), 1, 1, 1))
        I.stubs['numpy.linalg.svd'] = Native(lambda J, a, k: vec([V('sv')]))
        I.stubs['numpy.linalg.lstsq'] = Native(lambda J, a, k: (vec([V('q%d' % j) for j in range(m)]), None, None, None))

        def th(J):
            del calls[:]
            r = J.call(J.get(fn('Rohn')), [imat(J, A), ivec(J, b)], {'consistency': 'tol'})
            return r, list(calls)
        for stat, sign in (('optimal', '+'), ('optimal', '0'), ('optimal', '-'), ('primal infeasible', '+'), ('unknown', '+')):
            status[0] = stat
            tv[0] = {'+': V('t'), '0': ZERO, '-': -V('t')}[sign]
            for kind, v, facts, mode in I.run(th):
                if facts and not feasible(facts):
                    continue
                if kind == 'abort':
                    rep.undecided('tolerable hull', 'Rohn tol', '%s (%s)' % (v, cell))
                    continue
                if sign == '-' or stat != 'optimal':
                    rep.add('refusal', 'Rohn tol with %s' % ('an empty set' if sign == '-' else 'an unsolved programme'), 'ok' if kind == 'raise' else 'violated', 'returns a box (%s)' % cell)
                    continue
                if kind == 'raise':
                    rep.bad('tolerable hull', 'Rohn tol', 'raises %r (%s)' % (v, cell))
                    continue
                lp_verdict(rep, I, 'Rohn tol', v[0], v[1], A, b, n, m, cell)
    for k in ('cvxopt.solvers.lp', 'cvxopt.matrix', R5 + ':ralgb5', 'numpy.linalg.svd', 'numpy.linalg.lstsq'):
        del I.stubs[k]


def in_tol(A, b, x, ev):
    for row, (lo, hi) in zip(A, b):
        L = U = F(0)
        for (p, q), t in zip(row, x):
            u, w = ev(lf(p)).c * t, ev(lf(q)).c * t
            L, U = L + min(u, w), U + max(u, w)
        if L < ev(lf(lo)).c or U > ev(lf(hi)).c:
            return False
    return True


def lp_verdict(rep, I, cons, res, calls, A, b, n, m, cell):
    """each end of each component is the optimum of a programme over (u, v) >= 0, x = u - v"""
    els = [res] if isinstance(res, Inst) and res.cls.name in (C, K) else list(I.toarr(res).a.reshape(-1))
    if len(els) != m:
        rep.bad('tolerable hull', cons, '%d components (%s)' % (len(els), cell))
        return
    for i, e in enumerate(els):
        x = orc.ends(I, e)
        if x is None:
            rep.bad('tolerable hull', cons, 'component %d is %r (%s)' % (i, e, cell))
            continue
        for side, t in ((0, x[1]), (1, x[2])):
            t = orc.strip(t)
            used = sorted({int(s[1:].split('_')[0]) for s in orc.tvars(t) if s.startswith('s')})
            if len(used) != 1:
                rep.add('tolerable hull', cons, 'violated' if not used else 'undecided', 'the %s end of component %d does not come from one programme: %r (%s)' % (('lower', 'upper')[side], i, t, cell))
                continue
            k = used[0]
            c, G, h = calls[k]
            if len(c) != 2 * m:
                rep.undecided('tolerable hull', cons, 'programme with %d variables' % len(c))
                continue
            want = tm.sub(lf(V('s%d_%d' % (k, i))), lf(V('s%d_%d' % (k, i + m))))
            st, d = orc.same(t, want)
            rep.add('tolerable hull', cons, st, 'value of component %d: %s (%s)' % (i, d, cell))
            obj = [tm.ZERO] * (2 * m)
            obj[i], obj[i + m] = (tm.ONE, lf(-1)) if side == 0 else (lf(-1), tm.ONE)
            bad = None
            sc = None
            for ev in points_of([V('one')], 1):
                for p, q in zip(c, obj):
                    p, q = ev(p).c, ev(q).c
                    if (p == 0) != (q == 0) or q and (p / q <= 0 or sc is not None and p / q != sc):
                        bad = c
                    elif q:
                        sc = p / q
            rep.add('objective', cons, 'ok' if bad is None else 'violated', 'objective %r for the %s end of component %d (%s)' % (c, ('lower', 'upper')[side], i, cell))
            # the constraints describe the tolerable solution set
            ps = [q for row in A for p in row for q in p] + [q for p in b for q in p]
            bad = None
            cnt = 0
            grid = [F(v) for v in (0, F(1, 7), F(5, 3))]
            for ev in points_of(ps, 8):
                Gn = [[ev(v).c for v in r] for r in G]
                hn = [ev(v).c for v in h]
                # candidates on the boundary of the rows as well
                us = list(itertools.product(grid, repeat=2 * m)) if m < 3 else [tuple(grid[(a * 7 + j * 5 + a // 3) % 3] for j in range(2 * m)) for a in range(60)]
                for u in us:
                    for scale in (F(1), F(1, 50), F(40)):
                        y = [t * scale for t in u]
                        feas = all(sum(g * t for g, t in zip(r, y)) <= hh for r, hh in zip(Gn, hn))
                        xx = [y[j] - y[j + m] for j in range(m)]
                        tol = in_tol(A, b, xx, ev)
                        reduced = all(not (y[j] and y[j + m]) for j in range(m))
                        cnt += 1
                        if feas and not tol or reduced and tol and not feas:
                            bad = bad or 'the point %s is %s the set but the programme %s it' % ([float(v) for v in xx], 'in' if tol else 'outside', 'admits' if feas else 'excludes')
                # negative coordinates must be excluded
                for j in range(2 * m):
                    y = [F(0)] * (2 * m)
                    y[j] = F(-1, 10 ** 6)
                    if not any(sum(g * t for g, t in zip(r, y)) > hh for r, hh in zip(Gn, hn)) and all(hh >= 0 for hh in hn):
                        bad = bad or 'a negative auxiliary variable is admitted'
            rep.add('constraints', cons, 'ok' if bad is None else 'violated', '%s (%s)' % (bad, cell))


def rohn_uni(rep, I):
    """x0 +- d with d from the iteration d -> G d + g + tol; the inverses are unknown symmetric-free matrices"""
    for n, m, forms, rhs in ((1, 1, '+', '='), (1, 1, '-', '+'), (1, 1, '=', '-'), (2, 1, '++', '+='), (2, 1, '+-', '-+'), (3, 1, '++.', '+=-'), (2, 2, '++++', '+=')):
        # narrow: small widths and a nearly exact second inverse, so that the iteration settles at the second step
        for stops, narrow in ((0, False), (1, False), (1, True)) if "=" not in forms else ((0, False), (1, False)):
            big = n * m > 2
            sc = F(1, 1024) if narrow else F(1)
            A = [[cellpoly(forms[i * m + j], V('a%d%d' % (i, j)), V('e%d%d' % (i, j)) * Poly.const(sc)) for j in range(m)] for i in range(n)]
            b = [cellpoly(rhs[i], V('b%d' % i), V('v%d' % i) * Poly.const(sc)) for i in range(n)]
            if big:                # few unknowns: numbers for the positions, symbols for the widths
                A = [[cellpoly(forms[i * m + j], Poly.const(NUMS[i][j]), Poly.const(sc) if narrow else V('e%d%d' % (i, j)) if (i + j) % 2 == 0 else ONE) for j in range(m)] for i in range(n)]
                b = [cellpoly(rhs[i], Poly.const(NUMS[i][2]), V('v%d' % i) * Poly.const(sc) if i == 0 else Poly.const(sc)) for i in range(n)]
            calls = []

            def inv(J, args, kw):
                a = J.toarr(args[0])
                k = len(calls)
                calls.append([term(v) for v in a.a.reshape(-1)])
                if big and narrow and k == 1:
                    q = int(len(calls[1]) ** 0.5)
                    M = [[t.cval() if isinstance(t, Poly) else t.x.cval() for t in calls[1][i * q:i * q + q]] for i in range(q)]
                    return mkarr([num(x) for r in rational_inverse(M) for x in r], a.shape, 'float')
                if big:
                    return mkarr([num(NUMS[k + i][j]) for i in range(a.shape[0]) for j in range(a.shape[0])], a.shape, 'float')
                if k == 0:         # the first factor is a positive matrix: a preconditioner of known signs
                    return mkarr([num(V('p%d%d' % (i, j))) for i in range(a.shape[0]) for j in range(a.shape[0])], a.shape, 'float')
                if narrow:
                    return mkarr([num(tm.mul(tm.div(tm.ONE, calls[k][0]), lf(ONE + (V("n1_00") - V("N1_00")) * Poly.const(sc))))], (1, 1), "float")
                return mkarr([num(V('n%d_%d%d' % (k, i, j)) - V('N%d_%d%d' % (k, i, j))) for i in range(a.shape[0]) for j in range(a.shape[0])], a.shape, 'float')
            I.stubs['numpy.linalg.inv'] = Native(inv)
            cell = '%dx%d, %d further iterations%s' % (n, m, stops, ', narrow' if narrow else '')

            def th(J):
                del calls[:]
                r = J.call(J.get(fn('Rohn')), [imat(J, A), ivec(J, b)], {'tol': num(V('tol')), 'maxiter': stops})
                return r, list(calls)
            for kind, v, facts, mode in I.run(th):
                if facts and not feasible(facts):
                    continue
                if kind == 'abort':
                    rep.undecided('united estimate', 'Rohn uni', '%s (%s)' % (v, cell))
                    continue
                res, cl = (None, list(calls)) if kind == 'raise' else v
                if len(cl) != 2:
                    rep.undecided('united estimate', 'Rohn uni', '%d inverses' % len(cl))
                    continue
                uni_verdict(rep, I, res, cl, A, b, n, m, stops, facts, cell, sc if narrow else None)
    del I.stubs['numpy.linalg.inv']


def tmat(f, r, c):
    return [[f(i, j) for j in range(c)] for i in range(r)]


def tmul(X, Y):
    out = []
    for r in X:
        row = []
        for j in range(len(Y[0])):
            s = tm.ZERO
            for k in range(len(Y)):
                s = tm.add(s, tm.mul(r[k], Y[k][j]))
            row.append(s)
        out.append(row)
    return out


def tr(X):
    return [list(r) for r in zip(*X)]


def uni_verdict(rep, I, res, calls, A, b, n, m, stops, facts, cell, sc=None):
    """evaluated at representatives: exact rational arithmetic on the recorded inverses"""
    els = [] if res is None else [res] if isinstance(res, Inst) and res.cls.name in (C, K) else list(I.toarr(res).a.reshape(-1))
    if res is not None and len(els) != m:
        rep.bad('united estimate', 'Rohn uni', '%d components (%s)' % (len(els), cell))
        return
    es = [orc.ends(I, e) for e in els]
    got = [(orc.strip(x[1]), orc.strip(x[2])) for x in es]
    vs = set()
    for t in [t for g in got for t in g] + [t for c in calls for t in c] + [t for f in facts for t in f[1:] if hasattr(t, 'k')]:
        vs |= orc.tvars(t)
    vs |= {'tol'} | {'%s1_%d%d' % (q, i, j) for q in 'nN' for i in range(m) for j in range(m)} | {'p%d%d' % (i, j) for i in range(m) for j in range(m)}
    for p in [q for row in A for p in row for q in p] + [q for p in b for q in p]:
        vs |= p.vars()
    bad, cnt, steps_seen = None, 0, set()
    for pt in orc.points(vs, 60):
        ev = tm.Eval(pt)
        try:
            if orc.facts_hold(facts, ev) is not True:
                continue
            val = lambda p: ev(lf(p)).c
            mid = lambda x: (val(x[0]) + val(x[1])) / 2
            rad = lambda x: (val(x[1]) - val(x[0])) / 2
            mm = lambda X, Y: [[sum(X[i][k] * Y[k][j] for k in range(len(Y))) for j in range(len(Y[0]))] for i in range(len(X))]
            tp = lambda X: [list(r) for r in zip(*X)]
            Am = [[mid(x) for x in r] for r in A]
            N0 = [[NUMS[i][j] if n * m > 2 else pt['p%d%d' % (i, j)] for j in range(m)] for i in range(m)]
            if [ev(t).c for t in calls[0]] != [x for r in mm(tp(Am), Am) for x in r]:
                bad = bad or 'the first inverse is not that of the normal matrix'
                continue
            P = mm(N0, tp(Am))
            # interval product with the preconditioner
            pre = lambda rows: [[(sum(min(P[i][k] * val(rows[k][j][0]), P[i][k] * val(rows[k][j][1])) for k in range(n)),
                                  sum(max(P[i][k] * val(rows[k][j][0]), P[i][k] * val(rows[k][j][1])) for k in range(n))) for j in range(len(rows[0]))] for i in range(m)]
            A2, b2 = pre(A), [r[0] for r in pre([[x] for x in b])]
            M = [[(x[0] + x[1]) / 2 for x in r] for r in A2]
            Rr = [[(x[1] - x[0]) / 2 for x in r] for r in A2]
            bm, br = [(x[0] + x[1]) / 2 for x in b2], [(x[1] - x[0]) / 2 for x in b2]
            if [ev(t).c for t in calls[1]] != [x for r in mm(tp(M), M) for x in r]:
                bad = bad or 'the second inverse is not that of the preconditioned normal matrix'
                continue
            N1 = [[NUMS[1 + i][j] if n * m > 2 else pt['n1_%d%d' % (i, j)] - pt['N1_%d%d' % (i, j)] for j in range(m)] for i in range(m)]
            if sc and n * m > 2:
                N1 = rational_inverse(mm(tp(M), M))
            elif sc:
                N1 = [[(1 + N1[0][0] * sc) / ev(calls[1][0]).c]]
            R = mm(N1, tp(M))
            x0 = [sum(R[i][k] * bm[k] for k in range(m)) for i in range(m)]
            RM = mm(R, M)
            aR = [[abs(x) for x in r] for r in R]
            aRr = mm(aR, Rr)
            G = [[abs((1 if i == j else 0) - RM[i][j]) + aRr[i][j] for j in range(m)] for i in range(m)]
            rsd = [sum(M[k][j] * x0[j] for j in range(m)) - bm[k] for k in range(m)]
            rr = [sum(Rr[k][j] * abs(x0[j]) for j in range(m)) + br[k] for k in range(m)]
            g = [abs(sum(R[i][k] * rsd[k] for k in range(m))) + sum(aR[i][k] * rr[k] for k in range(m)) for i in range(m)]
            d, err, nit, hist = [F(0)] * m, None, 0, []
            tol = pt['tol']
            while (err is None or err >= tol) and nit <= stops:
                e = [sum(G[i][k] * d[k] for k in range(m)) + g[i] + tol for i in range(m)]
                err = max(abs(x - y) for x, y in zip(d, e))
                d = e
                nit += 1
            steps_seen.add(nit)
            cnt += 1
            if (res is None) != (err >= tol):
                bad = bad or ('refuses although the iteration has settled' if res is None else 'returns a box although the iteration has not settled')
            if res is None:
                continue
            for i in range(m):
                for k, w in ((0, x0[i] - d[i]), (1, x0[i] + d[i])):
                    u = ev(got[i][k]).c
                    if u != w and abs(u - w) > 64 * tm.ulp(w):
                        bad = bad or '%s end of component %d is %s, expected %s' % (('lower', 'upper')[k], i, tm.show(u), tm.show(w))
        except (tm.Undef, tm.Huge):
            continue
    if bad:
        rep.bad('united estimate', 'Rohn uni', '%s (%s)' % (bad, cell))
    elif cnt:
        rep.ok('united estimate', 'Rohn uni' if res is not None else 'Rohn uni without convergence')


def c32(rep):
    rep.rule = ('abstract interpretation of the solver with exact arithmetic and exact inverses; the ends of the box returned are compared, as terms over sign cells, with the published formula')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, *[fn(x) for x in ('HBR', 'Neumaier', 'Gauss_Seidel', 'Rohn')])
    I.stubs = dict(I.stubs)
    hbr(rep, I)
    neumaier(rep, I)
    rohn_tol(rep, I)
    rohn_uni(rep, I)
    rep.note('functions', sorted(f for f in stats.funcs if 'linear' in f))
    rep.floor = 100


# --------------------------------------------------------------------------- Subdiff
KCELLS = None


def kcells(pfx, zero=True):
    return [(n, a, b) for n, a, b in orc.interval_cells(pfx, True) if zero or '0' not in n]


def subdiff(rep, I):
    name = fn('Subdiff')
    st = {}

    def solve(J, args, kw):
        k = len(st['calls'])
        Fm, v = J.toarr(args[0]), J.toarr(args[1])
        st['calls'].append(([[term(t) for t in r] for r in Fm.a], [term(t) for t in v.a.reshape(-1)]))
        if k == 0:
            return mkarr([num(t) for t in st['x']], (len(st['x']),), 'float')
        return mkarr([num(V('d%d_%d' % (k, j)) - V('D%d_%d' % (k, j))) for j in range(len(st['x']))], (len(st['x']),), 'float')
    I.stubs['numpy.linalg.solve'] = Native(solve)

    def norm(J, args, kw):
        a = [term(t) for t in J.toarr(args[0]).a.reshape(-1)]
        o = args[1] if len(args) > 1 else kw.get('ord')
        if o != 1:
            raise Abort('norm of order %r' % (o,))
        s = tm.ZERO
        for t in a:
            s = tm.add(s, tm.absval(t))
        return num(s)
    I.stubs['numpy.linalg.norm'] = Native(norm)

    def run(A, b, x, cell, maxiter, n, opts):
        st['x'] = [t[0] for t in x] + [t[1] for t in x]

        def th(J):
            st['calls'] = []
            Am = arr_of(J, [iv(J, K, *[term_poly(t) for t in e]) for r in A for e in r], (n, n))
            bm = arr_of(J, [iv(J, K, *e) for e in b])
            r = J.call(J.get(name), [Am, bm], dict({'maxiter': maxiter, 'tol': num(V('tol')), 'tau': num(V('tau')), 'norm_min_val': num(V('nmv'))}, **opts))
            return r, list(st['calls'])
        for kind, v, facts, mode in I.run(th):
            if facts and not feasible(facts):
                continue
            if kind == 'abort':
                rep.undecided('Newton step', 'Subdiff', '%s (%s)' % (v, cell))
                continue
            if kind == 'raise':
                rep.bad('Newton step', 'Subdiff', 'raises %r (%s)' % (v, cell))
                continue
            res, calls = v
            cur = [(lf_(t[0]), lf_(t[1])) for t in x]
            ratio = []
            for k, (Fm, rhs) in enumerate(calls[1:], 1):
                if len(Fm) != 2 * n or len(rhs) != 2 * n:
                    rep.bad('Newton step', 'Subdiff', 'system of order %d (%s)' % (len(Fm), cell))
                    break
                r = tm.ZERO
                for i in range(n):
                    S = (tm.ZERO, tm.ZERO)
                    for j in range(n):
                        S = orc.i_add(S, orc.i_mul(tuple(lf_(t) for t in A[i][j]), cur[j]))
                    d = (tm.sub(S[0], lf(b[i][0])), tm.sub(S[1], lf(b[i][1])))
                    for side in (0, 1):
                        s2, det = orc.same(orc.strip(rhs[i + side * n]), d[side], (), facts)
                        rep.add('residual', 'Subdiff', s2, 'row %d: %s (%s)' % (i + side * n, det, cell))
                    r = tm.add(r, tm.minmax('max', [tm.absval(d[0]), tm.absval(d[1])]))
                if k == 1:
                    jacobian(rep, Fm, A, x, n, facts, cell)
                new = []
                for j in range(n):
                    new.append(tuple(tm.sub(cur[j][s], tm.mul(lf(V('tau')), lf(V('d%d_%d' % (k, j + s * n)) - V('D%d_%d' % (k, j + s * n))))) for s in (0, 1)))
                cur = new
                q = tm.ZERO
                for p in cur:
                    q = tm.add(q, tm.add(tm.absval(p[0]), tm.absval(p[1])))
                ratio.append((r, q))
            else:
                els = list(I.toarr(res).a.reshape(-1))
                for j, e in enumerate(els):
                    xx = orc.ends(I, e)
                    for side in (0, 1):
                        s2, det = ('violated', 'no interval') if xx is None else orc.same(orc.strip(xx[1 + side]), cur[j][side], (), facts)
                        rep.add('Newton step', 'Subdiff', s2, '%s end of component %d: %s (%s)' % (('lower', 'upper')[side], j, det, cell))
                # stopping: another step is taken exactly while the relative residual exceeds tol (and maxiter allows it)
                for k, (r, q) in enumerate(ratio):
                    more = k + 1 < len(ratio)
                    if not more and len(ratio) > maxiter:
                        continue
                    verdict = None
                    for pt in orc.points(set().union(*[orc.tvars(t) for t in (r, q)], {'tol', 'nmv'}, *[orc.tvars(f[1]) | orc.tvars(f[2]) for f in facts if f[0] in orc.OPS]), 80):
                        ev = tm.Eval(pt)
                        try:
                            if orc.facts_hold(facts, ev) is not True:
                                continue
                            a, c = ev(r).c, ev(q).c
                        except tm.Undef:
                            continue
                        if c <= pt['nmv']:
                            c = 1
                        if (a / c > pt['tol']) != more:
                            verdict = 'relative residual %s against tol %s, %s' % (float(a / c), float(pt['tol']), 'another step' if more else 'stops')
                            break
                        verdict = True
                    if verdict is True:
                        rep.ok('stopping', 'Subdiff')
                    elif verdict:
                        rep.bad('stopping', 'Subdiff', '%s (%s)' % (verdict, cell))
    bb = (V('b0') - V('B0'), V('b0') - V('B0') + V('v0') - V('V0'))
    for an, alo, ahi in kcells('a'):
        for xn, xlo, xhi in kcells('x'):
            run([[(alo, ahi)]], [bb], [(xlo, xhi)], '1x1, matrix %s, point %s' % (an, xn), 0, 1, {})
    pick = lambda pfx, nm: next((a, b) for n, a, b in kcells(pfx) if n == nm)
    for names, xs in ((('++', '~--', '-+', '+='), ('++', '~+-')), (('~+-', '-+', '--', '~++'), ('~+-', '-+')), (('-+', '++', '~++', '~+-'), ('--', '~++'))):
        A = [[pick('a%d%d' % (i, j), names[2 * i + j]) for j in range(2)] for i in range(2)]
        x = [pick('x%d' % j, xs[j]) for j in range(2)]
        b = [(V('b%d' % i), V('b%d' % i) + V('v%d' % i)) for i in range(2)]
        run(A, b, x, '2x2, matrix %s, point %s' % (names, xs), 0, 2, {})
    for an, xn in (('++', '++'), ('-+', '++'), ('~--', '--')):
        run([[pick('a', an)]], [bb], [pick('x', xn)], '1x1, matrix %s, point %s, two steps' % (an, xn), 1, 1, {})
    del I.stubs['numpy.linalg.solve'], I.stubs['numpy.linalg.norm']


def lf_(t):
    return t if isinstance(t, tm.T) else lf(t)


def term_poly(t):
    if isinstance(t, tm.T) and t.k == 'lf':
        return t.x
    return t


def jacobian(rep, Fm, A, x, n, facts, cell):
    from .recfun import judge_grad
    flat = [p[0].x if isinstance(p[0], tm.T) else p[0] for p in x] + [p[1].x if isinstance(p[1], tm.T) else p[1] for p in x]
    for i in range(n):
        for side in (0, 1):
            def f(y):
                S = (tm.ZERO, tm.ZERO)
                for j in range(n):
                    S = orc.i_add(S, orc.i_mul(tuple(lf_(t) for t in A[i][j]), (lf(y[j]), lf(y[j + n]))))
                return S[side]
            judge_grad(rep, 'Newton matrix', 'Subdiff', [orc.strip(t) for t in Fm[i + side * n]], f, flat, tuple(facts), 1, '%s, row %d' % (cell, i + side * n))


# --------------------------------------------------------------------------- global minimisation
GOPT = 'intvalpy.nonlinear.globopt'


def with_ties(pts, n):
    """valuations, and the same with two equal lower bounds"""
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for k, pt in enumerate(pts):
        yield pt
        if pairs:
            i, j = pairs[k % len(pairs)]
            pt = dict(pt)
            pt['f%d' % i] = pt['f%d' % j]
            yield pt


def globopt(rep, I):
    for m, iters in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 1)):
        box = []
        X0 = [(V('x%d' % j) - V('X%d' % j), V('x%d' % j) - V('X%d' % j) + V('w%d' % j)) for j in range(m)]
        seen = {}

        def key(J, v):
            els = [v] if isinstance(v, Inst) and v.cls.name in (C, K) else list(J.toarr(v).a.reshape(-1))
            ks = []
            for e in els:
                x = orc.ends(J, e)
                if x is None:
                    raise Abort('box component %r' % (e,))
                ks.append((orc.strip(x[1]), orc.strip(x[2])))
            return tuple(ks)

        def func(J, args, kw):
            k = key(J, args[0])
            if k not in seen:
                seen[k] = len(seen)
            i = seen[k]
            return iv(J, C, V('f%d' % i) - V('F'), V('f%d' % i) - V('F') + V('h%d' % i))

        def th(J):
            seen.clear()
            r = J.call(J.get(GOPT + ':globopt'), [Native(func), ivec(J, X0)], {'tol': num(V('tol')), 'maxiter': iters})
            if not isinstance(r, tuple) or len(r) != 2:
                return 'the result is %r' % (r,)
            e = orc.ends(J, r[1])
            return key(J, r[0]), (orc.strip(e[1]), orc.strip(e[2])), dict(seen)
        cell = '%d dimensions, maxiter %d' % (m, iters)
        rep.count('cells')
        for kind, v, facts, mode in I.run(th, limit=3000):
            if facts and not feasible(facts):
                continue
            if kind == 'abort':
                rep.undecided('branch and bound', 'globopt', '%s (%s)' % (v, cell))
                continue
            if kind == 'raise' or isinstance(v, str):
                rep.bad('branch and bound', 'globopt', '%s (%s)' % (v, cell))
                continue
            got, val, tab = v
            vs = set()
            for f in facts:
                if f[0] in orc.OPS:
                    vs |= orc.tvars(f[1]) | orc.tvars(f[2])
            for k in tab:
                for a, b in k:
                    vs |= orc.tvars(a) | orc.tvars(b)
            vs |= {'f%d' % i for i in range(len(tab))} | {'h%d' % i for i in range(len(tab))} | {'F', 'tol'}
            bad, cnt = None, 0
            for pt in with_ties(orc.points(vs, 200, facts=facts), len(tab)):
                ev = tm.Eval(pt)
                try:
                    if orc.facts_hold(facts, ev) is not True:
                        continue
                    val_ = lambda k: pt['f%d' % tab[k]]
                    wid_ = lambda k: pt['h%d' % tab[k]]
                    boxes = {tuple((ev(a).c, ev(b).c) for a, b in k): k for k in tab}
                    start = tuple((ev(lf(a)).c, ev(lf(b)).c) for a, b in X0)
                    g = tuple((ev(a).c, ev(b).c) for a, b in got)
                    cnt += 1

                    def walk(leaves, it):
                        """None when the outcome is that of some order of equal bounds, else what is wrong"""
                        for l in leaves:
                            if l not in boxes:
                                return 'the box %s of the subdivision is never evaluated' % (l,)
                        low = min(val_(boxes[l]) for l in leaves)
                        first = None
                        for best in leaves:
                            if val_(boxes[best]) != low:
                                continue
                            if it > iters or wid_(boxes[best]) < pt['tol']:
                                w = None
                                if g != best:
                                    w = 'the box returned is not the one with the least lower bound'
                                elif (ev(val[0]).c, ev(val[1]).c) != (low - pt['F'], low - pt['F'] + wid_(boxes[best])):
                                    w = 'the range returned is not that of the box returned'
                            else:
                                ws = [best[j][1] - best[j][0] for j in range(m)]
                                w = None
                                for j in range(m):
                                    if ws[j] != max(ws):
                                        continue
                                    mid = (best[j][0] + best[j][1]) / 2
                                    kids = [tuple((p if i != j else (p[0], mid)) for i, p in enumerate(best)), tuple((p if i != j else (mid, p[1])) for i, p in enumerate(best))]
                                    w = walk([l for l in leaves if l != best] + kids, it + 1)
                                    if w is None:
                                        break
                            if w is None:
                                return None
                            first = first or w
                        return first
                    bad = walk([start], 0)
                except (tm.Undef, tm.Huge):
                    continue
                if bad:
                    break
                if cnt > 12:
                    break
            if bad:
                rep.bad('branch and bound', 'globopt', '%s (%s)' % (bad, cell))
            elif cnt:
                rep.ok('branch and bound', 'globopt')


def c35(rep):
    rep.rule = ('abstract interpretation of the Newton iteration with the linear solver replaced by a recorder; the matrix handed to it is compared with the one-sided slopes of Kaucher\'s product, '
                'the right-hand side with the residual, and the result with the damped step')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, fn('Subdiff'))
    I.stubs = dict(I.stubs)
    subdiff(rep, I)
    rep.note('functions', sorted(f for f in stats.funcs if 'linear' in f))
    rep.floor = 300


def c34(rep):
    rep.rule = ('abstract interpretation of the subdivision with an objective that answers every box with fresh symbols; on every path the boxes evaluated and the box returned are compared with '
                'bisection of the widest side of the box with the least lower bound')
    stats = Stats()
    I = new_interp(stats, real=True)
    I.max_forks = 30
    need(I, GOPT + ':globopt')
    I.stubs = dict(I.stubs)
    globopt(rep, I)
    rep.note('functions', sorted(f for f in stats.funcs if 'globopt' in f))
    rep.floor = 10
