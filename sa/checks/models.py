"""The regression models: smoothing of the weights, objectives, subgradients, ranges of polynomials, results."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Inst, Native, Num, Stats, is_num, mkarr, term
from ..terms import Poly, lf
from .arith import C, new_interp
from .recfun import AMOD, R5, half, ideal, judge_grad, mkA, mkb, num, system, vec, xcells
from .scalar import V, arr_of, feasible, iv, need
from .solvers import points_of

WI = 'intvalpy.models.WILS:WILS'
ISP = 'intvalpy.models.ISPAE:ISPAE'
FR = 'sa_models.frames:'
Q = Poly.const

FAMILIES = {'polynomial.Polynomial': ([1], [0, 1], [0, 0, 1], [0, 0, 0, 1]),
            'chebyshev.Chebyshev': ([1], [0, 1], [-1, 0, 2], [0, -3, 0, 4]),
            'hermite.Hermite': ([1], [0, 2], [-2, 0, 4], [0, -12, 0, 8]),
            'laguerre.Laguerre': ([1], [1, -1], [1, -2, F(1, 2)], [1, -3, F(3, 2), F(-1, 6)]),
            'legendre.Legendre': ([1], [0, 1], [F(-1, 2), 0, F(3, 2)], [0, F(-3, 2), 0, F(5, 2)])}
NAMES = {'monom': 'polynomial.Polynomial', 'chebyshev': 'chebyshev.Chebyshev', 'hermite': 'hermite.Hermite', 'laguerre': 'laguerre.Laguerre', 'legendre': 'legendre.Legendre'}


def ispae_interp(stats, stubs=None):
    st = dict(stubs or {})
    st['pandas.DataFrame'] = Native(lambda I, args, kw: I.call(I.get(FR + 'DataFrame'), args, kw))
    for fam, coefs in FAMILIES.items():
        def basis(I, args, kw, coefs=coefs):
            k = I.pyint(args[0])
            if k >= len(coefs):
                raise Abort('degree %d' % k)
            return I.call(I.get(FR + 'Polynomial'), [[num(Q(F(c))) for c in coefs[k]]], {})
        st['numpy.polynomial.%s.basis' % fam] = Native(basis)
    return new_interp(stats, real=True, stubs=st)


def smooth(w, al, be):
    """weights after smoothing, terms"""
    out = []
    for k, t in enumerate(w):
        v = tm.mul(t, lf(1 - al))
        if k:
            v = tm.add(v, tm.mul(out[-1], lf(al)))
        out.append(tm.mul(lf(be), v))
    return out


def fsum(ts):
    s = tm.ZERO
    for t in ts:
        s = tm.add(s, t)
    return s


def goal(ob, norm, A, b, x, w):
    """the term to be maximised"""
    r = ideal(ob, A, b, x, w)
    return tm.minmax('min', r) if norm == 'inf' else fsum(r)


def touch(A, b, x):
    """for every residual a term that is negative where the residual contains zero in its interior"""
    out = []
    for i, (lo, hi) in enumerate(b):
        bx = [tm.ZERO, tm.ZERO]
        for (l, u), xj in zip(A[i], x):
            p, q = tm.mul(lf(l), lf(xj)), tm.mul(lf(u), lf(xj))
            bx = [tm.add(bx[0], tm.minmax('min', [p, q])), tm.add(bx[1], tm.minmax('max', [p, q]))]
        mid = half(hi + lo)
        a, c = tm.sub(mid, bx[1]), tm.sub(mid, bx[0])
        out.append(tm.mul(a, c))
    return out


class Opt:
    """the optimiser replaced by a recorder that asks for the objective once"""

    def __init__(self, x):
        self.x, self.calls = x, []

    def __call__(self, I, args, kw):
        names = [a.arg for a in I.get(R5 + ':ralgb5').node.args.args]
        got = dict(zip(names, args))
        got.update(kw)
        f, x0 = got.pop(names[0]), got.pop(names[1])
        r = I.call(f, [vec(self.x)], {})
        if not isinstance(r, tuple) or len(r) != 2 or not is_num(r[0]):
            raise Abort('objective %r' % (r,))
        self.calls.append(dict(obj=term(r[0]), grad=[term(v) for v in I.toarr(r[1]).a.reshape(-1)],
                               start=[term(v) for v in I.toarr(x0).a.reshape(-1)], opts=got))
        return (vec([V('X%d' % j) for j in range(len(self.x))]), num(V('FR')), 71, 72, 3)


SVD = {'given': (3, 1), 'regular': (3, 1), 'singular': (2, 0), 'badly conditioned': (10 ** 17, 1)}


def kernels(log, start, m):
    sv = SVD[start][:m]
    if m == 1 and start in ('singular', 'badly conditioned'):
        sv = (0,)

    def svd(I, args, kw):
        log.append([term(v) for v in I.toarr(args[0]).a.reshape(-1)])
        return vec([Q(s) for s in sv])

    def lstsq(I, args, kw):
        log.append([term(v) for v in I.toarr(args[0]).a.reshape(-1)] + [term(v) for v in I.toarr(args[1]).a.reshape(-1)])
        return (vec([V('y%d' % j) for j in range(m)]), None, None, None)
    return {'numpy.linalg.svd': Native(svd), 'numpy.linalg.lstsq': Native(lstsq)}


OPTS = dict(tolx=num(V('tolx')), tolf=num(V('tolf')), maxiter=17, nsims=4, alpha=num(V('al')))


def fit_case(rep, stats, name, build, A, b, x, ob, norm, wt, al, be, start, cell, fit_args, extra=None, pen=None, grad=True, mk=None, preds=None):
    """build(I) -> model object; fit_args(I) -> (X, y); extra(I) -> keyword arguments"""
    m = len(x)
    log, opt = [], Opt(x)
    st = kernels(log, start, m)
    st[R5 + ':ralgb5'] = Native(lambda I, a, k: opt(I, a, k))
    I = (mk or (lambda s, st: new_interp(s, real=True, stubs=st)))(stats, st)
    n = len(b)
    w0 = [lf(V('m%d' % i)) for i in range(n)] if wt else [tm.ONE] * n
    w = smooth(w0, al, be)
    state = {}

    def th(I):
        del opt.calls[:], log[:]
        o = build(I)
        X, y = fit_args(I)
        kw = dict(OPTS)
        kw.update(objective=ob, norm=norm)
        if wt:
            state['w'] = kw['weight'] = vec(w0)
        if start == 'given':
            state['x0'] = kw['x0'] = vec([V('o%d' % j) for j in range(m)])
        if extra:
            kw.update(extra(I))
        I.call(I.getattr(o, 'fit'), [X, y], kw)
        e = I.getattr(o, 'estimator')
        if not isinstance(e, dict):
            raise Abort('estimator %r' % (e,))
        if wt and [term(v) for v in state['w'].a.reshape(-1)] != w0:
            return 'the weights of the caller are changed'
        if start == 'given' and [term(v) for v in state['x0'].a.reshape(-1)] != [lf(V('o%d' % j)) for j in range(m)]:
            return 'the starting point of the caller is changed'
        if len(opt.calls) != 1:
            return 'the optimiser is called %d times' % len(opt.calls)
        try:
            xr, fr = [term(v) for v in I.toarr(e['xr']).a.reshape(-1)], term(e['fr'])
        except KeyError as k:
            return 'the estimator has no %s' % k
        if xr != [lf(V('X%d' % j)) for j in range(m)]:
            return 'the coefficients %r are not those of the optimiser' % (xr,)
        if fr != tm.neg(lf(V('FR'))):
            return 'the value %r for the optimum FR of the objective' % (fr,)
        if (e.get('nit'), e.get('ncalls'), e.get('ccode')) != (71, 72, 3):
            return 'the counters and the code are %r' % ([e.get(k) for k in ('nit', 'ncalls', 'ccode')],)
        return dict(opt.calls[0]), list(log), preds(I, o) if preds else None
    cons = name
    for kind, v, facts, mode in I.run(th, limit=256):
        if facts and not feasible(facts):
            continue
        if kind == 'abort':
            rep.undecided('fit', cons, '%s (%s)' % (v, cell))
            continue
        if kind == 'raise' or isinstance(v, str):
            rep.bad('fit', cons, '%s %r (%s)' % (kind, v, cell))
            continue
        rep.ok('fit', cons)
        got, lg, pr = v
        bad = [k for k in sorted(set(got['opts']) | set(OPTS)) if k not in got['opts'] or k not in OPTS or not (
            got['opts'][k] is OPTS[k] or is_num(got['opts'][k]) and term(got['opts'][k]) == term(OPTS[k]))]
        rep.add('options', cons, 'violated' if bad else 'ok', 'options %s (%s)' % (bad, cell))
        want = [lf(V('o%d' % j)) for j in range(m)] if start == 'given' else [lf(V('y%d' % j)) for j in range(m)] if start == 'regular' else [tm.ZERO] * m
        rep.add('starting point', cons, 'ok' if got['start'] == want else 'violated', 'starts from %r (%s)' % (got['start'], cell))
        if start in ('regular',):
            mids = [half(lo + hi) for row in A for lo, hi in row]
            yb = [half(lo + hi) for lo, hi in b]
            for c in lg:
                rep.add('starting point', cons, 'ok' if c in (mids, mids + yb) else 'violated', 'computed from %r, not from the midpoints (%s)' % (c, cell))
        tot = tm.neg(goal(ob, norm, A, b, x, w))
        p = pen(x) if pen else tm.ZERO
        st_, d = orc.same(orc.strip(got['obj']), tm.add(tot, p), (), facts)
        rep.add('objective %s, norm %s' % (ob, norm), cons, st_, '%s (%s)' % (d, cell))
        if grad:
            fx = tuple(facts)
            if ob == 'Uni':
                ts = touch(A, b, x)
                if norm == 'inf':
                    # where the attaining residual contains zero the minimum is on its plateau
                    fx += (('lt', tm.sub(goal(ob, norm, A, b, x, w), tm.minmax('min', [tm.mul(w[i], half(hi - lo)) for i, (lo, hi) in enumerate(b)])), tm.ZERO, True),)
                elif len(ts) > 0:
                    for t in ts:
                        fx += (('eq', t, tm.ZERO, False),)
            judge_grad(rep, 'subgradient', '%s (%s, %s)' % (cons, ob, norm), [orc.strip(t) for t in got['grad']],
                       lambda y: tm.add(goal(ob, norm, A, b, y, w), tm.neg(pen(y)) if pen else tm.ZERO), x, fx, -1, cell)
        for q, t, u in pr or ():
            st_, d = orc.same(orc.strip(t), u, (), facts)
            rep.add('prediction', cons, st_, '%s: %s (%s)' % (q, d, cell))


def c23(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the linear regression over sign cells of the coefficients: the objective handed to the optimiser is the negated '
                'minimum (or sum) of the constituents with the smoothed weights plus the penalty, its gradient lies between the one-sided slopes, options, starting point, '
                'results and predictions are those of the model')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, WI)
    half_ = F(1, 3)
    for ob in ('Tol', 'Uni', 'Uss'):
        for norm in ('inf', 'l1'):
            for n, m in ((1, 1), (2, 1), (1, 2), (3, 1), (2, 2)):
                for pat, x in xcells(m):
                    if n * m > 2 and '0' in pat:
                        continue
                    A, b = system(n, m, point={(0, 0)} if n > 1 else ())
                    for wt, al, be in ((False, None, None), (True, None, None), (True, half_, F(5, 2)), (False, half_, None), (True, F(1), F(1)), (True, F(0), F(2))):
                        if n * m > 2 and (wt, al) not in ((True, half_), (False, None)):
                            continue
                        if n == 3 and pat == '-':
                            continue
                        if ob != 'Tol' and n * m > 2 and (not wt or norm == 'inf' and n == 2):
                            continue
                        kw = {k: (num(Q(v))) for k, v in (('alpha', al), ('beta', be)) if v is not None}
                        cell = '%dx%d, coefficients %s, weights %s, alpha %s, beta %s' % (n, m, pat, wt, al, be)

                        def preds(I, o):
                            T = [[(V('s%d%d' % (i, j)) - V('S%d%d' % (i, j)), V('s%d%d' % (i, j)) - V('S%d%d' % (i, j)) + V('z%d%d' % (i, j))) for j in range(m)] for i in range(2)]
                            r = I.call(I.getattr(o, 'predict'), [mkA(I, T)], {})
                            out = []
                            for e, row in zip(I.toarr(r).a.reshape(-1), T):
                                en = orc.ends(I, e)
                                if en is None:
                                    raise Abort('prediction %r' % (e,))
                                lo = hi = tm.ZERO
                                for j, (l, u) in enumerate(row):
                                    lo, hi = tm.add(lo, tm.mul(lf(l), lf(V('X%d' % j)))), tm.add(hi, tm.mul(lf(u), lf(V('X%d' % j))))
                                out += [('lower end', en[1], lo), ('upper end', en[2], hi)]
                            return out
                        fit_case(rep, stats, 'WILS', lambda I: I.call(I.get(WI), [], kw), A, b, x, ob, norm, wt, al or F(0), F(1) if be is None else be, 'given', cell,
                                 lambda I: (mkA(I, A), mkb(I, b)), grad=True, preds=preds if (n, m) in ((1, 1), (1, 2)) and not wt else None)
            # starting points, constraints
            for n, m, pat in ((2, 1, '+'), (1, 2, '+-')):
                x = [V('x%d' % j) if c == '+' else -V('x%d' % j) for j, c in enumerate(pat)]
                A, b = system(n, m)
                for start in ('regular', 'singular', 'badly conditioned'):
                    fit_case(rep, stats, 'WILS', lambda I: I.call(I.get(WI), [], {}), A, b, x, ob, norm, False, F(0), F(1), start, '%dx%d, start %s' % (n, m, start),
                             lambda I: (mkA(I, A), mkb(I, b)), grad=False)
                for lc in ('weight given', 'weight open'):
                    crow = [V('c%d' % j) for j in range(m)]
                    box = []

                    def extra(I):
                        kw = {'ub': vec([V('u') - V('h')])}
                        if lc == 'weight given':
                            kw['mu'] = num(V('mu'))
                        return {'constraint': I.call(I.get(AMOD + ':LinearConstraint'), [mkarr([num(p) for p in crow], (1, m), 'float')], kw)}

                    def pen(y):
                        cx = tm.ZERO
                        for c, yj in zip(crow, y):
                            cx = tm.add(cx, tm.mul(lf(c), lf(yj)))
                        mu = lf(V('mu'))
                        if lc == 'weight open':
                            ends = [tm.absval(lf(p)) for row in A for e in row for p in e]
                            mu = tm.div(tm.minmax('max', ends), tm.minmax('min', [lf(c) for c in crow]))
                        return tm.mul(mu, tm.minmax('max', [tm.ZERO, tm.sub(cx, lf(V('u') - V('h')))]))
                    fit_case(rep, stats, 'WILS', lambda I: I.call(I.get(WI), [], {}), A, b, x, ob, norm, False, F(0), F(1), 'given', '%dx%d, constraint with %s' % (n, m, lc),
                             lambda I: (mkA(I, A), mkb(I, b)), extra=extra, pen=pen, grad=False)
    rep.note('functions', sorted(f for f in stats.funcs if 'models' in f or 'abstract' in f))
    rep.floor = 400


# --------------------------------------------------------------------------- polynomials
def peval(coefs, t):
    r = F(0)
    for c in reversed(coefs):
        r = r * t + c
    return r


def prange(coefs, lo, hi):
    """exact range of a polynomial of degree two at most"""
    c = list(coefs) + [F(0)] * (3 - len(coefs))
    pts = [lo, hi]
    if c[2] != 0:
        v = -c[1] / (2 * c[2])
        if lo <= v <= hi:
            pts.append(v)
    vs = [peval(c, p) for p in pts]
    return min(vs), max(vs)


def combine(beta, rows):
    """coefficients of sum beta_k * row_k"""
    n = max(len(r) for r in rows)
    return [sum((b * F(r[k]) for b, r in zip(beta, rows) if k < len(r)), F(0)) for k in range(n)]


def xcell(ch, a, w):
    a, w = V(a), V(w)
    return {'+': (a, a + w), '-': (-a - w, -a), '=': (-a, w), '.': (a, a)}[ch]


def numeric(rep, rule, cons, paths_points, cell):
    """paths_points: iterable of (path exists, failure text or None)"""
    n = 0
    for bad in paths_points:
        if bad:
            rep.bad(rule, cons, '%s (%s)' % (bad, cell))
            return
        n += 1
    if n:
        rep.ok(rule, cons)


def at_points(facts, polys, k=24):
    vs = [p for p in polys]
    for f in facts:
        if f[0] in orc.OPS:
            vs += [f[1], f[2]]
    for ev in points_of(vs, k):
        try:
            if orc.facts_hold([q for q in facts if q[0] in orc.OPS], ev) is True:
                yield ev
        except (tm.Undef, tm.Huge):
            continue


def near(a, b):
    return abs(a - b) <= F(1, 10 ** 9) * max(1, abs(a), abs(b))


def ev_(ev, p):
    return F(ev(p if isinstance(p, tm.T) else lf(p)).c)


def c36(rep):
    rep.rule = ('abstract interpretation (exact arithmetic, data frames and polynomial bases modelled) of the polynomial regression over sign cells: the value of a column is the exact range of '
                'the polynomial for degrees up to two in every basis; the objective handed to the optimiser is the negated minimum (or sum) of the constituents with those values and '
                'the smoothed weights; for first-degree models its gradient lies between the one-sided slopes; predictions contain the values of the fitted polynomial')
    stats = Stats()
    I = ispae_interp(stats)
    need(I, ISP)
    model = lambda I, **kw: I.call(I.get(ISP), [], kw)
    sg = lambda ch, p: {'+': p, '-': -p, '0': Q(0)}[ch]
    for nm, fam in NAMES.items():
        fc = FAMILIES[fam]
        cases = [((1,), None), ((1, 2), None)]
        cases += [((d,), (d,)) for d in (1, 2)] + [((2, 1), (2, 1))]
        for degs, deg in cases:
            for pat in itertools.product('+-0' if len(degs) > 1 and nm in ('monom', 'chebyshev') else '+-', repeat=len(degs)):
                beta = [sg(c, V('p%d' % k)) for k, c in enumerate(pat)]
                for xc in '+-=.':
                    x = [xcell(xc, 'l', 'w'), (Q(F(-1, 2)), Q(F(3, 4)))]
                    cell = '%s, coefficients %s, degrees %s, argument %s' % (nm, ''.join(pat), degs, xc)

                    def th(I):
                        o = model(I, basis=nm)
                        a = [vec(beta), arr_of(I, [iv(I, C, lo, hi) for lo, hi in x])]
                        if len(beta) == 1 and deg is not None:
                            a[0] = num(beta[0])
                        kw = {} if deg is None else {'deg': deg[0] if len(deg) == 1 else mkarr(list(deg), (len(deg),), 'int')}
                        r = I.call(I.getattr(o, 'value_of_one_col'), a, kw)
                        return [orc.ends(I, e) for e in I.toarr(r).a.reshape(-1)]
                    for kind, v, facts, mode in I.run(th, limit=256):
                        if facts and not feasible(facts):
                            continue
                        if kind == 'abort':
                            rep.undecided('range of a polynomial', nm, '%s (%s)' % (v, cell))
                            continue
                        if kind == 'raise' or len(v) != 2 or None in v:
                            rep.bad('range of a polynomial', nm, '%s %r (%s)' % (kind, v, cell))
                            continue

                        def pts():
                            for ev in at_points(facts, beta + list(x[0]), 40):
                                try:
                                    c = combine([ev_(ev, p) for p in beta], [fc[d] for d in degs])
                                    bad = None
                                    for (lo, hi), e in zip(x, v):
                                        lo, hi = prange(c, ev_(ev, lo), ev_(ev, hi))
                                        a, b = ev_(ev, orc.strip(e[1])), ev_(ev, orc.strip(e[2]))
                                        if not near(lo, a) or not near(hi, b):
                                            bad = '[%s, %s] instead of [%s, %s] at %s' % (float(a), float(b), float(lo), float(hi), {k: float(t) for k, t in ev.pt.items()})
                                    yield bad
                                except (tm.Undef, tm.Huge):
                                    continue
                        numeric(rep, 'range of a polynomial', nm, pts(), cell)
    # the wrong number of degrees
    for k in (1, 3):
        for kind, v, facts, mode in I.run(lambda I: I.call(I.getattr(model(I), 'value_of_one_col'), [vec([V('p'), V('q')]), arr_of(I, [iv(I, C, V('l'), V('l') + V('w'))])],
                                                            {'deg': mkarr([1] * k, (k,), 'int')})):
            rep.add('sizes', 'degrees', 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', '%d degrees for 2 coefficients are accepted' % k)

    # first-degree models: the whole fit
    h = F(1, 3)
    for ob in ('Tol', 'Uni'):
        for norm in ('inf', 'l1'):
            for n, m, bias in ((1, 1, False), (2, 1, False), (1, 2, False), (1, 1, True), (2, 1, True)):
                k = m + int(bias)
                for pat, x in xcells(k):
                    if k > 1 and '0' in pat:
                        continue
                    A, b = system(n, m)
                    full = [([(Q(1), Q(1))] if bias else []) + row for row in A]
                    for wt, al, be in ((False, None, None), (True, h, F(5, 2)), (True, None, None)):
                        if n * k > 2 and not wt:
                            continue
                        if n * k > 2 and (al is None or pat in ('--', '-+')):
                            continue
                        kw = {q: num(Q(v)) for q, v in (('alpha', al), ('beta', be)) if v is not None}
                        cell = '%dx%d, coefficients %s, weights %s, alpha %s, beta %s, bias %s' % (n, m, pat, wt, al, be, bias)
                        fit_case(rep, stats, 'ISPAE', lambda I: model(I, **kw), full, b, x, ob, norm, wt, al or F(0), F(1) if be is None else be, 'given', cell,
                                 lambda I: (mkA(I, A), mkb(I, b)), extra=lambda I: {'order': 1, 'bias': bias}, mk=ispae_interp)
            A, b = system(2, 1)
            for bias in (False, True):
                x = [V('x0'), -V('x1')][:1 + int(bias)]
                full = [([(Q(1), Q(1))] if bias else []) + row for row in A]
                for start in ('regular', 'singular', 'badly conditioned'):
                    if start == 'singular' and not bias:
                        continue
                    fit_case(rep, stats, 'ISPAE', lambda I: model(I), full, b, x, ob, norm, False, F(0), F(1), start, 'bias %s, start %s' % (bias, start),
                             lambda I: (mkA(I, A), mkb(I, b)), extra=lambda I: {'order': 1, 'bias': bias}, mk=ispae_interp, grad=False)

    # second degree: objective and predictions
    for ob, norm, orders, bias in (('Tol', 'inf', 2, False), ('Uni', 'l1', 2, True), ('Tol', 'l1', [2, 1], False), ('Uni', 'inf', [1, 2], False), ('Tol', 'inf', [1, 1], True), ('Tol', 'inf', [2, 1], True)):
        os_ = orders if isinstance(orders, list) else [orders]
        m = len(os_)
        k = sum(os_) + int(bias)
        for pat in itertools.product('+-', repeat=k):
            if k > 2 and pat[0] != pat[-1] or k > 3 and pat not in (('+', '-', '+', '+'), ('-', '+', '+', '-')):
                continue
            x = [sg(c, V('x%d' % j)) for j, c in enumerate(pat)]
            for n, xc in ((1, '+'), (1, '='), (2, '-')):
                if n == 2 and m == 2:
                    continue
                A = [[xcell(xc if i == 0 else '.', 'a%d%d' % (i, j), 'w%d%d' % (i, j)) for j in range(m)] for i in range(n)]
                b = [(V('b%d' % i) - V('B%d' % i), V('b%d' % i) - V('B%d' % i) + V('v%d' % i)) for i in range(n)]
                opt = Opt(x)
                st = kernels([], 'given', k)
                st[R5 + ':ralgb5'] = Native(lambda I, a, q: opt(I, a, q))
                I2 = ispae_interp(stats, st)
                cell = '%s, %s, orders %s, bias %s, coefficients %s, data %s' % (ob, norm, os_, bias, ''.join(pat), xc)

                def th(I):
                    del opt.calls[:]
                    o = model(I)
                    order = orders if not isinstance(orders, list) else list(orders)
                    I.call(I.getattr(o, 'fit'), [mkA(I, A), mkb(I, b)], {'order': order, 'bias': bias, 'x0': vec([V('o%d' % j) for j in range(k)]), 'objective': ob, 'norm': norm})
                    T = [[xcell(xc, 's%d' % j, 'z%d' % j) for j in range(m)]]
                    I.getattr(o, 'estimator')['xr'] = vec(x)
                    r = I.call(I.getattr(o, 'predict'), [mkA(I, T)], {})
                    return dict(opt.calls[0]), [orc.ends(I, e) for e in I.toarr(r).a.reshape(-1)], T
                for kind, v, facts, mode in I2.run(th, limit=256):
                    if facts and not feasible(facts):
                        continue
                    if kind == 'abort':
                        rep.undecided('objective', 'ISPAE', '%s (%s)' % (v, cell))
                        continue
                    if kind == 'raise':
                        rep.bad('objective', 'ISPAE', 'raises %r (%s)' % (v, cell))
                        continue
                    got, pr, T = v

                    def split(bv):
                        """constant part, then the coefficients of each column"""
                        c0, rest = (bv[0], bv[1:]) if bias else (F(0), bv)
                        cols = []
                        for o in os_:
                            cols.append([F(0)] + list(rest[:o]))
                            rest = rest[o:]
                        return c0, cols

                    def objective():
                        for ev in at_points(facts, [p for r in A for e in r for p in e] + [p for e in b for p in e] + x, 40):
                            try:
                                c0, cols = split([ev_(ev, p) for p in x])
                                res = []
                                for row, (lo, hi) in zip(A, b):
                                    L = U = c0
                                    for c, (l, u) in zip(cols, row):
                                        p, q = prange(c, ev_(ev, l), ev_(ev, u))
                                        L, U = L + p, U + q
                                    lo, hi = ev_(ev, lo), ev_(ev, hi)
                                    md, rd = (lo + hi) / 2, (hi - lo) / 2
                                    s, t = md - U, md - L
                                    res.append(rd - max(abs(s), abs(t)) if ob == 'Tol' else rd - (0 if s * t <= 0 else min(abs(s), abs(t))))
                                want = -(min(res) if norm == 'inf' else sum(res))
                                g = ev_(ev, orc.strip(got['obj']))
                                yield None if near(g, want) else 'the objective is %s instead of %s at %s' % (float(g), float(want), {q: float(t) for q, t in ev.pt.items()})
                            except (tm.Undef, tm.Huge):
                                continue
                    numeric(rep, 'objective', 'ISPAE', objective(), cell)

                    def prediction():
                        if len(pr) != 1 or pr[0] is None:
                            yield 'the prediction is %r' % (pr,)
                            return
                        for ev in at_points(facts, [p for r in T for e in r for p in e] + x, 40):
                            try:
                                c0, cols = split([ev_(ev, p) for p in x])
                                lo, hi = ev_(ev, orc.strip(pr[0][1])), ev_(ev, orc.strip(pr[0][2]))
                                bl = bu = c0
                                vals = [(c0, c0)]
                                for c, (l, u) in zip(cols, T[0]):
                                    l, u = ev_(ev, l), ev_(ev, u)
                                    for d in range(1, len(c)):
                                        p, q = prange([F(0)] * d + [c[d]], l, u)
                                        bl, bu = bl + p, bu + q
                                    p, q = prange(c, l, u)
                                    vals.append((p, q))
                                tol = F(1, 10 ** 9) * max(1, abs(bl), abs(bu))
                                if lo > sum(p for p, _ in vals) + tol or hi < sum(q for _, q in vals) - tol:
                                    yield 'the prediction [%s, %s] misses values of the polynomial at %s' % (float(lo), float(hi), {q: float(t) for q, t in ev.pt.items()})
                                elif lo < bl - tol or hi > bu + tol:
                                    yield 'the prediction [%s, %s] is wider than the sum of the monomials at %s' % (float(lo), float(hi), {q: float(t) for q, t in ev.pt.items()})
                                else:
                                    yield None
                            except (tm.Undef, tm.Huge):
                                continue
                    numeric(rep, 'prediction', 'ISPAE', prediction(), cell)
    rep.note('functions', sorted(f for f in stats.funcs if 'models' in f))
    rep.floor = 300
