"""The subgradient optimiser and the way the functionals call it."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Ext, Inst, Native, Num, Stats, is_num, mkarr, term
from ..terms import Poly, lf
from .arith import new_interp
from .recfun import AMOD, LIN, R5, half, lp_stub, mkA, mkb, num, overall, system, vec
from .scalar import V, feasible, need


def where(facts, terms):
    """representative evaluations of the path"""
    vs = set()
    for t in terms:
        vs |= orc.tvars(t)
    for f in facts:
        if f[0] in orc.OPS:
            vs |= orc.tvars(f[1]) | orc.tvars(f[2])
    n = 0
    for pt in orc.points(vs, 160):
        ev = tm.Eval(pt)
        try:
            if orc.facts_hold(facts, ev) is True:
                n += 1
                yield ev
        except tm.Undef:
            continue
        if n >= 12:
            return


def holds(facts, op, s, t):
    """True, False (with a point of the path where it fails) or None when no point follows the path"""
    seen = None
    for ev in where(facts, [s, t]):
        try:
            if not orc.OPS[op](ev(s).c, ev(t).c):
                return False
            seen = True
        except tm.Undef:
            continue
    return seen


def absdiff(s, t):
    return tm.absval(tm.sub(s, t))


def norm1(I, args, kw):
    """Euclidean norm; in one dimension the absolute value"""
    a = I.toarr(args[0])
    ts = [term(v) for v in a.a.reshape(-1)]
    if len(ts) == 1:
        return num(tm.absval(ts[0]))
    s = tm.ZERO
    for t in ts:
        s = tm.add(s, tm.mul(t, t))
    return num(tm.fn('sqrt', [s]))


OFF = lf(-1)


class Run:
    """one interpreted run of the optimiser on an objective given by symbols"""

    def __init__(self, signs, opts, cut, m=1, falling=False):
        self.signs, self.opts, self.cut, self.m, self.falling = signs, opts, cut, m, falling

    def g(self, k):
        if self.falling:
            return [V('g')]
        if self.m == 1:
            return [V('g%d' % k) if self.signs[k] == '+' else -V('g%d' % k)]
        return [V('g%d%d' % (k, j)) if c == '+' else -V('g%d%d' % (k, j)) for j, c in enumerate(self.signs[k])]

    def f(self, k):
        if self.falling:
            return V('f') - V('F') * Poly.const(k)
        return V('f%d' % k) - V('F')

    def __call__(self, I):
        calls = []

        def calcfg(I, args, kw):
            k = len(calls)
            if k >= self.cut:
                raise Abort('cut')
            x = I.toarr(args[0])
            if x.shape != (self.m,):
                raise Abort('point of shape %s' % (x.shape,))
            calls.append([term(v) for v in x.a.reshape(-1)])
            return num(self.f(k)), vec(self.g(k))
        self.x0 = [V('s%d' % j) - V('S') for j in range(self.m)]
        arr = vec(self.x0)
        kw = {k: (v if isinstance(v, int) else num(v)) for k, v in self.opts.items()}
        r = I.call(I.get(R5 + ':ralgb5'), [Native(calcfg), arr], kw)
        if not isinstance(r, tuple) or len(r) != 5:
            return 'the result is %r' % (r,)
        xr, fr, nit, nc, cc = r
        if not isinstance(xr, Arr) or not is_num(fr):
            return 'the result is %r' % (r,)
        if [term(v) for v in arr.a.reshape(-1)] != [lf(p) for p in self.x0]:
            return 'the starting point of the caller is changed'
        if xr.a is arr.a or xr.a.base is arr.a:
            return 'the result is the array of the caller'
        return [term(v) for v in xr.a.reshape(-1)], term(fr), nit, nc, cc, list(calls)


def reference(run, n, opts):
    """points visited in one dimension and the line searches, from the description of the method"""
    h, q1, q2, al, nh = (opts[k] for k in ('h0', 'q1', 'q2', 'alpha', 'nh'))
    sg = lambda k: 1 if run.falling or run.signs[k] == '+' else -1
    x, h = lf(run.x0[0]), lf(h) if not isinstance(h, tm.T) else h
    xs, B, start, k = [x], tm.ONE, 0, 0
    searches = []
    while k + 1 < n:
        d, cal, first = sg(k), 0, len(xs)
        go = True
        while go and k + 1 < n:
            x = tm.sub(x, tm.mul(h, tm.mul(B, lf(d))))
            xs.append(x)
            k += 1
            if cal % nh == 0:
                h = tm.mul(h, q2)
            cal += 1
            go = sg(k) == d
        searches.append((first - 1, k, not go))
        if go:
            break
        if cal == 1:
            h = tm.mul(h, q1)
        B = tm.div(B, al) if al.k != 'rc' else tm.mul(B, lf(al.x))
    return xs, searches


def c16(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the optimiser over the sign patterns of the subgradients and the orders of the objective '
                'values, with symbolic tolerances, steps and dilation: returned pair, counters, stopping code and visited points; and of the entry '
                'points of the functionals with the optimiser replaced by a recorder')
    stats = Stats()
    I = new_interp(stats, real=True, stubs={'numpy.linalg.norm': Native(norm1)})
    I.max_forks = 60
    need(I, R5 + ':ralgb5')
    base = dict(tolx=OFF, tolg=OFF, tolf=OFF, alpha=tm.T('rc', V('al')), h0=lf(V('h')), q1=lf(V('q')), q2=lf(V('r')), nsims=1, nh=3, maxiter=50)
    cases = []
    quick = rep.tier == 'quick'
    for s in ['+' + ''.join(p) for p in itertools.product('+-', repeat=3)] + ['-++-', '-+--', '+-+-+', '+--+-'] + ([] if quick else ['+' + ''.join(p) for p in itertools.product('+-', repeat=4)]):
        cuts = len(s)
        cases.append(('one dimension', Run(s, dict(base, maxiter=1), cuts)))
        cases.append(('maxiter', Run(s, dict(base, maxiter=0), cuts)))
        cases.append(('tolg', Run(s, dict(base, tolg=lf(V('t'))), cuts)))
        cases.append(('tolx', Run(s, dict(base, tolx=lf(V('t')), nh=2), cuts)))
        for ns in (1, 2):
            cases.append(('tolf', Run(s, dict(base, tolf=lf(V('t')), nsims=ns, maxiter=2), cuts)))
        for nh in (1, 2):
            cases.append(('step', Run(s, dict(base, nh=nh, maxiter=2), cuts)))
    cases.append(('long line search', Run('', dict(base, tolg=OFF), 600, falling=True)))
    npath = 0
    for label, run in cases:
        if run.falling:
            o = dict(run.opts, q2=tm.ONE, q1=tm.ONE)
            run.opts = o
        I.max_loop = 700 if run.falling else 60
        for kind, v, facts, mode in I.run(run, limit=600):
            cell = '%s, signs of the slopes %s, maxiter %s, nsims %s, nh %s' % (label, run.signs, run.opts['maxiter'], run.opts['nsims'], run.opts['nh'])
            cons = 'ralgb5'
            if kind == 'abort' and v.startswith('cut') or facts and not feasible(facts):
                continue
            if kind == 'abort':
                rep.undecided(label, cons, '%s %s' % (v, cell))
                continue
            npath += 1
            if kind == 'raise':
                rep.bad(label, cons, 'raises %r %s' % (v, cell))
                continue
            if isinstance(v, str):
                rep.bad(label, cons, '%s %s' % (v, cell))
                continue
            xr, fr, nit, nc, cc, calls = v
            n = len(calls)
            fs = [lf(run.f(k)) for k in range(n)]
            if not (is_num(nit) and is_num(nc) and is_num(cc)):
                rep.bad('counters', cons, '%r' % (v,))
                continue
            nit, nc, cc = (I.pyint(t) for t in (nit, nc, cc))
            rep.add('number of evaluations', cons, 'ok' if nc == n else 'violated', '%d reported, %d made (%s)' % (nc, n, cell))
            if n <= 12:
                st, d = orc.same(orc.strip(fr), tm.minmax('min', fs), (), facts)
                rep.add('best value', cons, st, '%s %s' % (d, cell))
            else:
                rep.add('best value', cons, 'ok' if fr == fs[-1] else 'violated', cell)
            ks = [k for k in range(n) if fs[k] == fr]
            if not ks:
                rep.bad('best point', cons, 'the value %r is none of the values of the objective (%s)' % (fr, cell))
            elif not any(orc.strip(a) == orc.strip(b) for k in ks for a, b in zip(xr, calls[k])):
                res = [orc.same(orc.strip(xr[0]), orc.strip(calls[k][0]), (), facts) for k in ks]
                rep.add('best point', cons, 'ok' if any(r[0] in ('ok', 'vacuous') for r in res) else res[0][0],
                        'the point is not the one with the value returned: %s (%s)' % (res[0][1], cell))
            else:
                rep.ok('best point', cons)
            if run.m != 1:
                continue
            xs, searches = reference(run, n, run.opts)
            if len(xs) != n:
                rep.bad('visited points', cons, '%d evaluations (%s)' % (n, cell))
                continue
            for k in range(n) if n <= 12 else (0, 1, 2, n - 1):
                st, d = orc.same(orc.strip(calls[k][0]), xs[k], (), facts)
                rep.add('visited points', cons, st, 'evaluation %d: %s (%s)' % (k, d, cell))
            done = sum(1 for s in searches if s[2])
            tg, tx, tf = run.opts['tolg'], run.opts['tolx'], run.opts['tolf']
            gn = lambda k: tm.absval(lf(run.g(k)[0]))
            ln = lambda s: absdiff(xs[s[1]], xs[s[0]])
            best = lambda k: tm.minmax('min', fs[:k + 1])

            def change(i):
                """the change of the best value over the last searches, relative where the value exceeds one"""
                if i + 1 < run.opts['nsims']:
                    return None
                t = tm.ZERO
                for s in searches[i + 1 - run.opts['nsims']:i + 1]:
                    t = tm.add(t, absdiff(best(s[1]), best(s[0])))
                fv = best(searches[i][1])
                return t, tm.mul(tf, tm.minmax('max', [tm.ONE, tm.absval(fv)]))
            full = [i for i, s in enumerate(searches) if s[2]]
            # the criterion named by the code holds
            checks = []
            if cc == 1:
                c = change(full[-1]) if full else None
                checks.append(('stopping code 1', 'lt') + c if c else ('stopping code 1', None, None, None))
            elif cc == 2:
                checks.append(('stopping code 2', 'lt', gn(n - 1), tg))
            elif cc == 3:
                checks.append(('stopping code 3', 'lt', ln(searches[-1]), tx) if searches else ('stopping code 3', None, None, None))
            elif cc == 4:
                rep.add('stopping code 4', cons, 'ok' if done in (run.opts['maxiter'], run.opts['maxiter'] + 1) else 'violated', '%d iterations done (%s)' % (done, cell))
            elif cc == 5:
                rep.add('stopping code 5', cons, 'ok' if n > 400 and not searches[-1][2] else 'violated', '%d evaluations (%s)' % (n, cell))
            else:
                rep.bad('stopping code', cons, 'unknown code %r (%s)' % (cc, cell))
            # no criterion was passed over before
            for k in range(n - (cc == 2)):
                if tg != OFF:
                    checks.append(('small slope ignored', 'ge', gn(k), tg))
            for i in full:
                last = i == full[-1]
                if tx != OFF and not (last and cc in (2, 3)):
                    checks.append(('short step ignored', 'ge', ln(searches[i]), tx))
                if tf != OFF and not (last and cc in (1, 2, 3)) and change(i):
                    checks.append(('small change ignored', 'ge') + change(i))
            for r, op, s, t in checks:
                if op is None:
                    rep.bad(r, cons, 'before a line search is complete (%s)' % cell)
                    continue
                h = holds(facts, op, s, t)
                if h is not None:
                    rep.add(r, cons, 'ok' if h else 'violated', 'not %r %s %r on the path %r (%s)' % (s, op, t, facts, cell))
            rep.add('iterations', cons, 'ok' if nit in (done, done - 1) and nit <= run.opts['maxiter'] + 1 else 'violated', '%d reported, %d line searches complete (%s)' % (nit, done, cell))
    rep.note('paths', npath)
    wiring(rep, stats)
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 2000


def wiring(rep, stats):
    J = new_interp(stats, real=True)
    for name, meth in (('Tol', 'maximize'), ('Uni', 'maximize'), ('Uss', 'maximize'), ('ChebNorm', 'minimize')):
        need(J, LIN + name + ':' + name)
        for n, m, pat in ((1, 1, '+'), (2, 1, '-'), (1, 2, '+-')):
            for wt in (False, True):
                for start in ('given', 'regular', 'regular large', 'singular', 'badly conditioned', 'badly conditioned small'):
                    for lc in (None, 'weight given', 'weight open'):
                        if start != 'given' and (wt or lc == 'weight given'):
                            continue
                        wire(rep, stats, name, meth, n, m, pat, wt, start, lc)


def wire(rep, stats, name, meth, n, m, pat, wt, start, lc):
    A, b = system(n, m)
    w = [lf(V('m%d' % i)) for i in range(n)] if wt else [tm.ONE] * n
    x = [V('x%d' % j) if c == '+' else -V('x%d' % j) for j, c in enumerate(pat)]
    calls, lsq = [], []
    cons = '%s.%s' % (name, meth)
    cell = '%dx%d, weights %s, start %s, constraint %s' % (n, m, wt, start, lc)
    sgn = 1 if meth == 'minimize' else -1

    def optimiser(I, args, kw):
        f = I.get(R5 + ':ralgb5')
        names = [a.arg for a in f.node.args.args]
        got = dict(zip(names, args))
        got.update(kw)
        calls.append(got)
        r = I.call(got.pop(names[0]), [vec(x)], {})
        got['objective'] = term(r[0]), [term(v) for v in I.toarr(r[1]).a.reshape(-1)]
        got['start'] = [term(v) for v in I.toarr(got.pop(names[1])).a.reshape(-1)]
        return (vec([V('X%d' % j) for j in range(m)]), num(V('FR')), 71, 72, 3)

    sv = {'regular': (3, 1), 'singular': (2, 0), 'badly conditioned': (10 ** 17, 1), 'given': (3, 1), 'regular large': (10 ** 18, 10 ** 17),
          'badly conditioned small': (F(1), F(1, 10 ** 17))}[start][:m]
    if m == 1 and (start == 'singular' or start.startswith('bad')):
        sv = (0,)

    def svd(I, args, kw):
        lsq.append(('svd', [term(v) for v in I.toarr(args[0]).a.reshape(-1)]))
        return vec([Poly.const(s) for s in sv])

    def lstsq(I, args, kw):
        lsq.append(('lstsq', [term(v) for v in I.toarr(args[0]).a.reshape(-1)], [term(v) for v in I.toarr(args[1]).a.reshape(-1)]))
        return (vec([V('y%d' % j) for j in range(m)]), None, None, None)
    stubs = {R5 + ':ralgb5': Native(optimiser), 'numpy.linalg.svd': Native(svd), 'numpy.linalg.lstsq': Native(lstsq)}
    stubs.update(lp_stub(None))
    I = new_interp(stats, real=True, stubs=stubs)
    opts = dict(tolx=num(V('tolx')), tolf=num(V('tolf')), maxiter=17, nsims=4, alpha=num(V('alpha')))
    crow = [[V('c%d' % j) for j in range(m)]]
    state = {}

    def th(I):
        del calls[:], lsq[:]
        args = [mkA(I, A), mkb(I, b)]
        kw = dict(opts)
        if wt:
            kw['weight'] = vec(w)
        if start == 'given':
            state['x0'] = kw['x0'] = vec([V('o%d' % j) for j in range(m)])
        if lc:
            k2 = {'ub': vec([V('u') - V('h')])}
            if lc == 'weight given':
                k2['mu'] = num(V('mu'))
            state['lc'] = kw['linear_constraint'] = I.call(I.get(AMOD + ':LinearConstraint'), [mkarr([num(p) for r in crow for p in r], (1, m), 'float')], k2)
        r = I.call(I.getattr(I.get(LIN + name + ':' + name), meth), args, kw)
        if not isinstance(r, tuple) or len(r) != 5:
            return 'the result is %r' % (r,)
        if lc:
            mu = I.getattr(state['lc'], 'mu')
            if (mu is None) != (lc == 'weight open') or mu is not None and term(mu) != lf(V('mu')):
                return 'the constraint of the caller is changed: weight %r' % (mu,)
        if [term(v) for v in I.toarr(r[0]).a.reshape(-1)] != [lf(V('X%d' % j)) for j in range(m)]:
            return 'the point %r is not the one the optimiser found' % (r[0],)
        if not is_num(r[1]) or tm.mul(lf(sgn), term(r[1])) != lf(V('FR')):
            return 'the value is %r for the optimum FR of the objective' % (r[1],)
        if tuple(r[2:]) != (71, 72, 3):
            return 'the counters and the code are %r' % (r[2:],)
        if len(calls) != 1:
            return 'the optimiser is called %d times' % len(calls)
        return dict(calls[0]), list(lsq)
    for kind, v, facts, mode in I.run(th):
        if facts and not feasible(facts):
            continue
        if kind == 'abort':
            rep.undecided('call of the optimiser', cons, '%s %s' % (v, cell))
            continue
        if kind == 'raise' or isinstance(v, str):
            rep.bad('call of the optimiser', cons, '%s %s (%s)' % (kind, v, cell))
            continue
        rep.ok('call of the optimiser', cons)
        got, ls = v
        extra = {k: o for k, o in got.items() if k not in ('objective', 'start')}
        bad = [k for k in sorted(set(extra) | set(opts)) if k not in extra or k not in opts or not (
            extra[k] is opts[k] or is_num(extra[k]) and term(extra[k]) == term(opts[k]))]
        rep.add('options', cons, 'violated' if bad else 'ok', 'options %s reach the optimiser as %s (%s)' % (bad, [extra.get(k, 'missing') for k in bad], cell))
        # starting point
        mid = [half(lo + hi) for row in A for lo, hi in row], [half(lo + hi) for lo, hi in b]
        if start == 'given':
            want = [lf(V('o%d' % j)) for j in range(m)]
        elif start.startswith('regular'):
            want = [lf(V('y%d' % j)) for j in range(m)]
            for c in ls:
                ok = c[1] == mid[0] and (len(c) < 3 or c[2] == mid[1])
                rep.add('starting point', cons, 'ok' if ok else 'violated', '%s of %r, not of the midpoint system (%s)' % (c[0], c[1:], cell))
        else:
            want = [tm.ZERO] * m
        rep.add('starting point', cons, 'ok' if got['start'] == want else 'violated', 'starts from %r (%s)' % (got['start'], cell))
        # objective
        fun = {'ChebNorm': 'Cheb'}.get(name, name)
        tot = overall(fun, A, b, x, w)
        tot = tot if sgn > 0 else tm.neg(tot)

        pen = tm.ZERO
        if lc:
            cx = tm.ZERO
            for c, xj in zip(crow[0], x):
                cx = tm.add(cx, tm.mul(lf(c), lf(xj)))
            mu = lf(V('mu'))
            if lc == 'weight open':
                ends = [tm.absval(lf(p)) for row in A for lo, hi in row for p in (lo, hi)]
                mu = tm.div(tm.minmax('max', ends), tm.minmax('min', [lf(c) for c in crow[0]]))
            pen = tm.mul(mu, tm.minmax('max', [tm.ZERO, tm.sub(cx, lf(V('u') - V('h')))]))
        st, d = orc.same(orc.strip(got['objective'][0]), tm.add(tot, pen), (), facts)
        rep.add('objective', cons, st, '%s (%s)' % (d, cell))
