"""Recognising functionals of nonlinear data fitting and the existence test on the faces of a box."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Native, Stats, is_num, mkarr, term
from ..terms import Poly, lf
from .arith import C, new_interp
from .recfun import AMOD, LIN, R5, half, judge_grad, mkA, mkb, num, one, vec
from .scalar import V, arr_of, feasible, iv, need

NL = 'intvalpy.nonlinear.recognizing_functional'
SE = 'intvalpy.nonlinear.solution_existence'
ZERO = Poly.const(0)


class Data:
    """interval inputs, outputs, the range of the model at a point and its slopes, all by symbols"""

    def __init__(self, n, m, thin):
        self.n, self.m = n, m
        u = lambda p, *k: V(p + '_'.join(map(str, k))) - V(p + p + '_'.join(map(str, k)))
        self.a = [(u('a', i), u('a', i) + V('d%d' % i)) for i in range(n)]
        self.b = [(u('b', i), u('b', i) + V('v%d' % i)) for i in range(n)]
        self.f = [(u('f', i), u('f', i) + (ZERO if i in thin else V('w%d' % i))) for i in range(n)]
        self.g = [[u('g', i, j) for j in range(m)] for i in range(n)]
        self.x = [u('x', j) for j in range(m)]
        self.w = None

    def model(self, J, args, kw):
        if len(args) != 2 or kw:
            raise Abort('model called in another form')
        a = [orc.ends(J, v) for v in J.toarr(args[0]).a.reshape(-1)]
        if [(e[1], e[2]) for e in a if e] != [(lf(p), lf(q)) for p, q in self.a]:
            self.wrong = 'the model is given %r for the inputs' % (args[0],)
        self.point(J, args[1])
        return arr_of(J, [iv(J, C, lo, hi) for lo, hi in self.f])

    def point(self, J, v):
        if [term(t) for t in J.toarr(v).a.reshape(-1)] != [lf(p) for p in self.x]:
            self.wrong = 'the model is evaluated at %r' % (v,)

    def grad(self, j):
        def g(J, args, kw):
            if len(args) != 2 or kw:
                raise Abort('gradient called in another form')
            e = orc.ends(J, args[0])
            i = [k for k, (p, q) in enumerate(self.a) if e and (e[1], e[2]) == (lf(p), lf(q))]
            if not i:
                raise Abort('gradient of something that is no input')
            self.point(J, args[1])
            return iv(J, C, self.g[i[0]][j], self.g[i[0]][j])
        return Native(g)

    def constituents(self, name, y):
        out = []
        for i in range(self.n):
            s = tm.ZERO
            for g, p, q in zip(self.g[i], y, self.x):
                s = tm.add(s, lf(g * (p - q)))
            L, U = tm.add(lf(self.f[i][0]), s), tm.add(lf(self.f[i][1]), s)
            lo, hi = self.b[i]
            P, Q = tm.sub(half(lo + hi), U), tm.sub(half(lo + hi), L)
            gap = tm.minmax('max', [tm.absval(P), tm.absval(Q)]) if name == 'Tol' else tm.minmax('max', [tm.ZERO, P, tm.neg(Q)])
            out.append(tm.mul(self.w[i], tm.sub(half(hi - lo), gap)))
        return out

    def value(self, name, y):
        return tm.minmax('min', self.constituents(name, y))


def c38(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the nonlinear functionals with a model known by the ends of its values and its slopes at a '
                'symbolic point: constituents and value equal the definitions, the optimiser is given the negated value with its penalty and a '
                'vector between the one-sided slopes, and its answer is handed back with the value negated')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, NL + ':Tol', NL + ':Uni')
    opts = {'tolx': num(V('tolx')), 'maxiter': 17, 'nsims': 4}
    for name in ('Tol', 'Uni'):
        cls = lambda J: J.get(NL + ':' + name)
        for n, m, thin in ((1, 1, ()), (1, 1, (0,)), (2, 1, ()), (1, 2, ()), (2, 2, (0,)), (3, 1, (1,))):
            for wn in ('weights', 'no weights'):
                D = Data(n, m, thin)
                D.wrong = None
                D.w = [lf(V('m%d' % i)) for i in range(n)] if wn == 'weights' else [tm.ONE] * n
                cell = '%d values, %d parameters, thin %s, %s' % (n, m, thin, wn)
                kw = lambda: {'weight': vec(D.w)} if wn == 'weights' else {}
                ab = lambda J: [arr_of(J, [iv(J, C, p, q) for p, q in D.a]), arr_of(J, [iv(J, C, p, q) for p, q in D.b])]
                for meth, want in (('constituent', D.constituents(name, D.x)), ('value', D.value(name, D.x))):
                    one(rep, I, 'functional', '%s.%s' % (name, meth),
                        lambda J: J.call(J.getattr(cls(J), meth), [Native(D.model)] + ab(J) + [vec(D.x)], kw()), want, cell)
                    if D.wrong:
                        rep.bad('functional', '%s.%s' % (name, meth), '%s (%s)' % (D.wrong, cell))
                        D.wrong = None
                for lc in (False, True):
                    fit(rep, I, D, name, cls, ab, kw, lc, dict(opts), cell + (', constraint' if lc else ''))
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 100


def fit(rep, I, D, name, cls, ab, kw, lc, opts, cell):
    cons = name + '.maximize'
    state = {}
    row, up = [V('c%d' % j) - V('C%d' % j) for j in range(D.m)], V('u') - V('U')

    def optimiser(J, args, kws):
        f = J.get(R5 + ':ralgb5')
        names = [a.arg for a in f.node.args.args]
        got = dict(zip(names, args))
        got.update(kws)
        r = J.call(got.pop(names[0]), [vec(D.x)], {})
        if not isinstance(r, tuple) or len(r) != 2 or not is_num(r[0]):
            raise Abort('objective gives %r' % (r,))
        state['f'], state['g'] = term(r[0]), [term(v) for v in J.toarr(r[1]).a.reshape(-1)]
        state['start'] = got.pop(names[1])
        state['opts'] = got
        return (vec([V('X%d' % j) for j in range(D.m)]), num(V('FR')), 71, 72, 3)

    def th(J):
        state.clear()
        D.wrong = None
        k = dict(kw(), **opts)
        if lc:
            k['linear_constraint'] = J.call(J.get(AMOD + ':LinearConstraint'), [mkarr([num(p) for p in row], (1, D.m), 'float')],
                                            {'ub': vec([up]), 'mu': num(V('mu'))})
        x0 = vec([V('o%d' % j) for j in range(D.m)])
        r = J.call(J.getattr(cls(J), 'maximize'), [Native(D.model), [D.grad(j) for j in range(D.m)]] + ab(J) + [x0], k)
        if not isinstance(r, tuple) or len(r) != 5:
            return 'the result is %r' % (r,)
        if 'f' not in state:
            return 'the optimiser is not called'
        if D.wrong:
            return D.wrong
        if [term(v) for v in J.toarr(r[0]).a.reshape(-1)] != [lf(V('X%d' % j)) for j in range(D.m)]:
            return 'the point %r is not the one the optimiser found' % (r[0],)
        if not is_num(r[1]) or tm.neg(term(r[1])) != lf(V('FR')):
            return 'the value is %r for the optimum FR of the objective' % (r[1],)
        if tuple(r[2:]) != (71, 72, 3):
            return 'the counters and the code are %r' % (r[2:],)
        if [term(v) for v in J.toarr(state['start']).a.reshape(-1)] != [lf(V('o%d' % j)) for j in range(D.m)]:
            return 'the search starts at %r' % (state['start'],)
        if set(state['opts']) != set(opts) or any((term(v) if is_num(v) else v) != (term(opts[q]) if is_num(opts[q]) else opts[q])
                                                  for q, v in state['opts'].items()):
            return 'the options handed on are %r' % (state['opts'],)
        return state['f'], state['g']

    def objective(y):
        v = D.value(name, y)
        if lc:
            s = tm.neg(lf(up))
            for c, p in zip(row, y):
                s = tm.add(s, lf(c * p))
            v = tm.sub(v, tm.mul(lf(V('mu')), tm.minmax('max', [tm.ZERO, s])))
        return v
    I.stubs = dict(I.stubs)
    I.stubs[R5 + ':ralgb5'] = Native(optimiser)
    for kind, v, facts, mode in I.run(th):
        if facts and not feasible(facts):
            continue
        if kind == 'abort':
            rep.undecided('call of the optimiser', cons, '%s %s' % (v, cell))
            continue
        if kind == 'raise' or isinstance(v, str):
            rep.bad('call of the optimiser', cons, '%s %s (%s)' % (kind, v, cell))
            continue
        rep.ok('call of the optimiser', cons)
        fv, g = v
        if len(g) != D.m:
            rep.bad('subgradient', cons, '%d components (%s)' % (len(g), cell))
            continue
        st, d = orc.same(orc.strip(fv), tm.neg(objective(D.x)), (), facts)
        rep.add('value for the optimiser', cons, st, '%s %s' % (d, cell))
        fs = tuple(facts)
        if name == 'Uni':
            # on the plateau where the residual contains zero the functional has no slope to report
            fs += (('lt', tm.sub(D.value('Uni', D.x), tm.minmax('min', [tm.mul(D.w[i], half(hi - lo)) for i, (lo, hi) in enumerate(D.b)])), tm.ZERO, True),)
        judge_grad(rep, 'subgradient', cons, [orc.strip(t) for t in g], objective, D.x, fs, -1, cell)
    del I.stubs[R5 + ':ralgb5']


SIGNS = {'+': lambda p: (V(p), V(p) + V(p + 'w')), '-': lambda p: (-V(p) - V(p + 'w'), -V(p)), '=': lambda p: (-V(p), V(p + 'w')),
         '0': lambda p: (ZERO, ZERO), '>': lambda p: (ZERO, V(p)), '<': lambda p: (-V(p), ZERO), 'p': lambda p: (V(p), V(p)), 'n': lambda p: (-V(p), -V(p))}


def c39(rep):
    rep.rule = ('abstract interpretation of the existence test with a map known by the signs of its values on the faces of the box: the verdict is True '
                'exactly when every component has opposite signs (zero allowed) on its two faces; the map is only asked on the faces')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, SE + ':miranda')

    def run(n, pats, degenerate):
        X = [(V('x%d' % k) - V('y%d' % k), V('x%d' % k) - V('y%d' % k) + (ZERO if k in degenerate else V('z%d' % k))) for k in range(n)]
        wrong = []

        def func(J, args, kw):
            xs = [orc.ends(J, v) or (None, term(v), term(v)) for v in J.toarr(args[0]).a.reshape(-1)]
            es = [(e[1], e[2]) for e in xs]
            if len(es) != n:
                wrong.append('the map is given %d components' % len(es))
                raise Abort('map')
            full = [(lf(p), lf(q)) for p, q in X]
            at = [k for k in range(n) if es[k] != full[k]]
            if len(at) > 1:
                wrong.append('the map is asked at %r' % (es,))
                raise Abort('map')
            k = at[0] if at else None
            if k is None:
                sides = None
            else:
                sides = [s for s in (0, 1) if es[k] == (full[k][s],) * 2]
                if not sides:
                    wrong.append('the map is asked at %r' % (es,))
                    raise Abort('map')
            out = []
            for i in range(n):
                if sides is not None and i == k:
                    lo, hi = SIGNS[pats[i][sides[0]]]('%s%d' % ('lu'[sides[0]], i))
                else:
                    lo, hi = -V('o%d' % i), V('O%d' % i)
                out.append(iv(J, C, lo, hi))
            return arr_of(J, out)
        cell = 'signs on the faces %s' % (' '.join(pats),)
        sgn = lambda c: {'+': {1}, 'p': {1}, '>': {1}, '-': {-1}, 'n': {-1}, '<': {-1}, '0': {1, -1}, '=': set()}[c]
        want = all(any(s in sgn(l) and -s in sgn(u) for s in (1, -1)) for l, u in pats)
        for kind, v, facts, mode in I.run(lambda J: J.call(J.get(SE + ':miranda'), [Native(func), arr_of(J, [iv(J, C, p, q) for p, q in X])], {})):
            if wrong:
                rep.bad('existence', 'miranda', '%s (%s)' % (wrong[0], cell))
                return
            if kind == 'abort':
                rep.undecided('existence', 'miranda', '%s (%s)' % (v, cell))
                continue
            if facts and not feasible(facts):
                continue
            if kind == 'raise' or v not in (True, False):
                rep.bad('existence', 'miranda', '%s %r (%s)' % (kind, v, cell))
                continue
            rep.add('existence', 'miranda', 'ok' if v == want else 'violated', '%s instead of %s (%s)' % (v, want, cell))
    two = [l + u for l in SIGNS for u in SIGNS]
    for p in two:
        run(1, [p], ())
    few = ['+-', '-+', '<>', '00', '=+', '-=', '--', '++', '0-']
    for p, q in itertools.product(few, few):
        run(2, [p, q], ())
    for p in itertools.product(['+-', '-+', '++', '<='], repeat=3):
        run(3, list(p), ())
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 150


IVE = 'intvalpy.linear.system_properties'


def c40(rep):
    rep.rule = ('abstract interpretation of the variability estimate with the optimiser, the random draws and the condition numbers replaced by recorders: '
                'every matrix whose condition number is taken consists of ends of the entries in their places, as many as asked for are taken, '
                'and the value returned is the product of the definition')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, IVE + ':ive', LIN + 'Tol:Tol')
    I.stubs = dict(I.stubs)
    draw = [0]
    pattern = [0]

    def bit():
        draw[0] += 1
        return (draw[0] * (5 + 2 * pattern[0]) // 3 + draw[0] // 2) % 2

    def size(J, args, kw, k):
        s = kw.get('size', args[k] if len(args) > k else None)
        return s if s is None or isinstance(s, tuple) else tuple(s) if isinstance(s, list) else (s,)

    def fill(s, f, dt='float'):
        if s is None:
            return f()
        n = 1
        for k in s:
            n *= k
        return mkarr([f() for _ in range(n)], s, dt)

    def choice(J, args, kw):
        vs = list(J.toarr(args[0]).a.reshape(-1)) if not isinstance(args[0], int) else list(range(args[0]))
        return fill(size(J, args, kw, 1), lambda: vs[bit() % len(vs)])

    def randint(J, args, kw):
        if args[:2] not in ([2], [0, 2]):
            raise Abort('draws from another range')
        return fill(size(J, args, kw, len(args[:2])), bit, 'int')

    def rand(J, args, kw):
        s = tuple(args) or None
        return fill(s, lambda: num(Poly.const(F(1 + 2 * bit(), 4))))
    I.stubs.update({'numpy.random.choice': Native(choice), 'numpy.random.randint': Native(randint), 'numpy.random.rand': Native(rand),
                    'numpy.random.random': Native(lambda J, a, k: rand(J, list(size(J, a, k, 0) or ()), {}))})
    I.stubs['numpy.linalg.svd'] = Native(lambda J, a, k: vec([Poly.const(s) for s in (3, 1)[:J.toarr(a[0]).shape[1]]]))
    for n, m, N in ((1, 1, 1), (2, 1, 3), (2, 2, 2), (3, 2, 4), (1, 2, 3)):
        for pattern[0] in (0, 1):
            for code in (1, 5):
                A = [[(V('a%d%d' % (i, j)) - V('A%d%d' % (i, j)), V('a%d%d' % (i, j)) - V('A%d%d' % (i, j)) + V('w%d%d' % (i, j))) for j in range(m)] for i in range(n)]
                b = [(V('b%d' % i) - V('B%d' % i), V('b%d' % i) - V('B%d' % i) + V('v%d' % i)) for i in range(n)]
                cell = '%dx%d, %d matrices, exit code %d' % (n, m, N, code)
                seen = []
                wrong = []

                def cond(J, args, kw):
                    M = J.toarr(args[0])
                    if M.shape != (n, m):
                        wrong.append('condition of an array of shape %s' % (M.shape,))
                    else:
                        for i, j in itertools.product(range(n), range(m)):
                            if term(M.a[i, j]) not in (lf(A[i][j][0]), lf(A[i][j][1])):
                                wrong.append('entry %d %d of the matrix is %r' % (i, j, M.a[i, j]))
                    seen.append(1)
                    return num(V('k%d' % len(seen)))

                def norm(J, args, kw):
                    t = [term(v) for v in J.toarr(args[0]).a.reshape(-1)]
                    o = kw.get('ord', args[1] if len(args) > 1 else None)
                    if o not in (None, 2):
                        wrong.append('norm of order %r' % (o,))
                    s = tm.ZERO
                    for q in t:
                        s = tm.add(s, tm.mul(q, q))
                    return num(tm.fn('sqrt', [s]))
                I.stubs['numpy.linalg.cond'] = Native(cond)
                I.stubs['numpy.linalg.norm'] = Native(norm)
                I.stubs['numpy.linalg.lstsq'] = Native(lambda J, a, k: (vec([V('y%d' % j) for j in range(m)]), None, None, None))
                I.stubs[R5 + ':ralgb5'] = Native(lambda J, a, k: (vec([V('X%d' % j) - V('Y%d' % j) for j in range(m)]), num(V('FR') - V('FS')), 71, 72, code))

                def th(J):
                    del seen[:], wrong[:]
                    draw[0] = 0
                    r = J.call(J.get(IVE + ':ive'), [mkA(J, A), mkb(J, b), N], {})
                    if wrong:
                        return wrong[0]
                    if len(seen) != N:
                        return '%d condition numbers instead of %d' % (len(seen), N)
                    return r
                x2 = tm.ZERO
                for j in range(m):
                    t = lf(V('X%d' % j) - V('Y%d' % j))
                    x2 = tm.add(x2, tm.mul(t, t))
                b2 = tm.ZERO
                for lo, hi in b:
                    t = tm.minmax('max', [tm.absval(lf(lo)), tm.absval(lf(hi))])
                    b2 = tm.add(b2, tm.mul(t, t))
                # the value with its sign, squared: the roots are left out
                rest = tm.mul(tm.minmax('min', [lf(V('k%d' % (i + 1))) for i in range(N)]), lf(V('FS') - V('FR')))
                want = tm.mul(tm.mul(rest, rest), tm.mul(lf(m), tm.div(x2, b2)))
                for kind, v, facts, mode in I.run(th):
                    if facts and not feasible(facts):
                        continue
                    if kind == 'abort':
                        rep.undecided('variability', 'ive', '%s (%s)' % (v, cell))
                        continue
                    if kind == 'raise' or isinstance(v, str) or not is_num(v):
                        rep.bad('variability', 'ive', '%s %r (%s)' % (kind, v, cell))
                        continue
                    bad, cnt = None, 0
                    vs = orc.tvars(term(v)) | orc.tvars(want) | orc.tvars(rest)
                    for f in facts:
                        if f[0] in orc.OPS:
                            vs |= orc.tvars(f[1]) | orc.tvars(f[2])
                    for pt in orc.points(vs, 30):
                        ev = tm.Eval(pt)
                        try:
                            if orc.facts_hold([f for f in facts if f[0] in orc.OPS], ev) is not True:
                                continue
                            g, w, s = float(ev(orc.strip(term(v))).c), float(ev(want).c), float(ev(rest).c)
                        except (tm.Undef, tm.Huge):
                            continue
                        cnt += 1
                        if abs(g * abs(g) - (w if s >= 0 else -w)) > 1e-9 * (1 + abs(w)):
                            bad = 'the estimate is %g, the definition gives %g' % (g, (1 if s >= 0 else -1) * w ** 0.5)
                    if bad:
                        rep.bad('variability', 'ive', '%s (%s)' % (bad, cell))
                    elif cnt:
                        rep.ok('variability', 'ive')
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 20
