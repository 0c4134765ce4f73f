"""Parameter subdivision (PSS): one end of the estimate never crosses the solution set, the other is no worse than the
interval evaluation of the system over the starting box."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Native, Stats, mkarr, term
from ..terms import Poly
from .arith import C, new_interp
from .recfun import LIN, num
from .scalar import V, need
from .solvers import fn, imat, ivec

ZERO = Poly.const(0)
TINY, BIG = Poly.const(F(1, 2 ** 30)), Poly.const(F(2) ** 37)


def form(ch, a, w):
    """interval of the class ch from two positive numbers"""
    return {'+': (a, a + w), '-': (-a - w, -a), '=': (-a, w), '.': (a, a), '0': (ZERO, ZERO), '>': (ZERO, w), '<': (-w, ZERO), 's': (-w, w),
            't': (-a, w * TINY), 'T': (-a * TINY, w), 'L': (-a * BIG, w * BIG), 'p': (a * TINY, w + a), 'n': (-w - a, -a * TINY)}[ch]


def value(lo, hi, k):
    return lo if k == 0 else hi


def lp_min(c, G, h):
    """least value of c.y subject to G y <= h over the rationals, by vertices (two unknowns, bounded below by its rows)"""
    m = len(c)
    best = None
    for rows in itertools.combinations(range(len(G)), m):
        y = solve([G[i] for i in rows], [h[i] for i in rows])
        if y is None:
            continue
        if all(sum(g * v for g, v in zip(r, y)) <= t for r, t in zip(G, h)):
            q = sum(a * b for a, b in zip(c, y))
            if best is None or q < best[0]:
                best = (q, y)
    return best


def solve(M, r):
    n = len(M)
    X = [list(map(F, row)) + [F(v)] for row, v in zip(M, r)]
    for i in range(n):
        k = next((j for j in range(i, n) if X[j][i]), None)
        if k is None:
            return None
        X[i], X[k] = X[k], X[i]
        X[i] = [x / X[i][i] for x in X[i]]
        for j in range(n):
            if j != i and X[j][i]:
                X[j] = [x - X[j][i] * y for x, y in zip(X[j], X[i])]
    return [row[n] for row in X]


def hull(A, b, box, nu):
    """exact range of unknown nu over the united solution set within the box; None when the set is empty there"""
    m = len(box)
    lo = hi = None
    for s in itertools.product((1, -1), repeat=m):
        G, h = [], []
        for row, (bl, bu) in zip(A, b):
            low = [x[0] if t > 0 else x[1] for x, t in zip(row, s)]
            upp = [x[1] if t > 0 else x[0] for x, t in zip(row, s)]
            G += [low, [-x for x in upp]]
            h += [bu, -bl]
        for j in range(m):
            e = [F(int(i == j)) for i in range(m)]
            l, u = box[j]
            l, u = (max(l, F(0)), u) if s[j] > 0 else (l, min(u, F(0)))
            G += [e, [-x for x in e]]
            h += [u, -l]
        c = [F(int(i == nu)) for i in range(m)]
        a, z = lp_min(c, G, h), lp_min([-x for x in c], G, h)
        if a is not None:
            lo = a[0] if lo is None or a[0] < lo else lo
            hi = -z[0] if hi is None or -z[0] > hi else hi
    return None if lo is None else (lo, hi)


def imul(x, y):
    p = [a * b for a in x for b in y]
    return min(p), max(p)


def natural(A, b, box, nu):
    """bounds of unknown nu from every row by (extended) interval division over the box, intersected with the box; None: empty"""
    lo, hi = box[nu]
    parts = [(lo, hi)]
    for row, (bl, bu) in zip(A, b):
        for j, x in enumerate(box):
            if j != nu:
                p, q = imul(row[j], x)
                bl, bu = bl - q, bu - p
        d0, d1 = row[nu]
        if d0 > 0 or d1 < 0:
            new = [(min(bl / d0, bl / d1, bu / d0, bu / d1), max(bl / d0, bl / d1, bu / d0, bu / d1))]
        elif bl <= 0 <= bu:
            continue
        elif d0 == 0 and d1 == 0:
            return None
        else:
            s = (bu, 1) if bu < 0 else (bl, -1)
            new = []
            # bu < 0: x <= bu/d1 or x >= bu/d0; bl > 0: x <= bl/d0 or x >= bl/d1
            left = (s[0] / d1 if d1 else None) if s[1] == 1 else (s[0] / d0 if d0 else None)
            right = (s[0] / d0 if d0 else None) if s[1] == 1 else (s[0] / d1 if d1 else None)
            if left is not None:
                new.append((None, left))
            if right is not None:
                new.append((right, None))
        out = []
        for a, z in parts:
            for l, u in new:
                x, y = a if l is None else max(a, l), z if u is None else min(z, u)
                if x <= y:
                    out.append((x, y))
        parts = out
        if not parts:
            return None
    return min(p[0] for p in parts), max(p[1] for p in parts)


class Witnesses:
    """representative valuations of a cell that follow the current path; branches none of them takes are left out"""

    def __init__(self, I, vs, n):
        self.I, self.all = I, orc.points(vs, n)
        self.reset()

    def reset(self):
        self.pts = [dict(p) for p in self.all]

    def decide(self, op, s, t):
        c = tm.cmp_terms(s, t)
        if c in (-1, 0, 1):
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        if c == 'nan':
            return op == 'ne'
        yes, no = [], []
        for p in self.pts:
            ev = tm.Eval(p)
            (yes if orc.OPS[op](ev(s).c, ev(t).c) else no).append(p)
        if yes and no:
            v = self.I.choose('%r %s %r' % (s, op, t))
            self.I.facts.append((op, s, t, v))
        else:
            v = bool(yes)
        self.pts = yes if v else no
        return v

    def status(self, fits):
        """which of the points have a solvable programme"""
        yes, no = [p for p in self.pts if fits(p)], [p for p in self.pts if not fits(p)]
        v = self.I.choose('programme solvable') if yes and no else bool(yes)
        self.pts = yes if v else no
        return v


def case(rep, I, forms, bform, box, nu, maxiter, npts, start='x0', tol=F(1, 2 ** 40)):
    n, m = len(forms), len(forms[0])
    A = [[form(c, V('a%d%d' % (i, j)), V('e%d%d' % (i, j))) for j, c in enumerate(r)] for i, r in enumerate(forms)]
    b = [form(c, V('b%d' % i), V('v%d' % i)) for i, c in enumerate(bform)]
    X = [form(c, V('x%d' % j) * Poly.const(2), V('y%d' % j) * Poly.const(3)) for j, c in enumerate(box)]
    vs = set()
    for p in [q for r in A for x in r for q in x] + [q for x in b for q in x] + [q for x in X for q in x]:
        vs |= p.vars()
    W = Witnesses(I, vs, npts)
    count = [0]

    def lp(J, args, kw):
        c, G, h = (J.toarr(a) for a in args[:3])
        c, G, h = [term(v) for v in c.a.reshape(-1)], [[term(v) for v in r] for r in G.a], [term(v) for v in h.a.reshape(-1)]
        k = count[0]
        count[0] += 1
        sols = {}
        for i, p in enumerate(W.pts):
            ev = tm.Eval(p)
            sols[id(p)] = lp_min([ev(t).c for t in c], [[ev(t).c for t in r] for r in G], [ev(t).c for t in h])
        if not W.status(lambda p: sols[id(p)] is not None):
            return {'status': 'primal infeasible', 'x': None}
        for p in W.pts:
            for j, y in enumerate(sols[id(p)][1]):
                p['s%d_%d' % (k, j)], p['S%d_%d' % (k, j)] = (y + 1, F(1)) if y >= 0 else (F(1), 1 - y)
        return {'status': 'optimal', 'x': mkarr([num(V('s%d_%d' % (k, j)) - V('S%d_%d' % (k, j))) for j in range(len(c))], (len(c), 1), 'float')}
    I.stubs['cvxopt.solvers.lp'] = Native(lp)
    I.stubs['cvxopt.matrix'] = Native(lambda J, a, k: J.toarr(a[0]))
    I.decide = W.decide

    def first(J, args, kw):
        """the solver called for a starting box: encloses the solutions of the system it is given, or gives up"""
        if start == 'refusal':
            J.throw(Exception, 'no estimate')
        W.begun.append(1)
        up = len(W.begun) % 2 == 0
        return ivec(J, [(-q[1], -q[0]) for q in X] if up else X)
    for f in ('Gauss', 'Rohn'):
        I.stubs[fn(f)] = Native(first)
    cell = 'rows %s = %s, box %s%s, unknown %d, maxiter %d' % (' '.join(forms), bform, box, {'x0': '', 'solver': ' from a solver', 'refusal': ' default'}[start], nu, maxiter)

    def th(J):
        W.reset()
        W.begun = []
        count[0] = 0
        kw = {'nu': nu, 'maxiter': maxiter, 'tol': num(Poly.const(tol))}
        if start == 'x0':
            kw['x0'] = ivec(J, X)
        return J.call(J.get(fn('PSS')), [imat(J, A), ivec(J, b)], kw)
    paths = 0
    for kind, v, facts, mode in I.run(th):
        paths += 1
        if kind == 'abort':
            rep.undecided('outer estimate', 'PSS', '%s (%s)' % (v, cell))
            continue
        if kind == 'value':
            e = orc.ends(I, v if not hasattr(v, 'a') else v.a.reshape(-1)[0])
            els = list(I.toarr(v).a.reshape(-1))
            if len(els) != 1:
                rep.bad('outer estimate', 'PSS', '%d components for one unknown (%s)' % (len(els), cell))
                continue
            e = orc.ends(I, els[0])
            if e is None:
                rep.bad('outer estimate', 'PSS', 'result %r (%s)' % (els[0], cell))
                continue
        bad, cnt = None, 0
        for p in W.pts:
            ev = tm.Eval(p)
            try:
                val = lambda q: ev(tm.lf(q)).c
                Ac, bc = [[(val(x[0]), val(x[1])) for x in r] for r in A], [(val(x[0]), val(x[1])) for x in b]
                Xc = [(val(x[0]), val(x[1])) for x in X] if start != 'refusal' else [(-F(10) ** 14, F(10) ** 14)] * m
                h = hull(Ac, bc, Xc, nu)
                if h is None:
                    continue
                cnt += 1
                at = 'A=%s b=%s x0=%s' % tuple(repr([[str(tm.show(u)) for u in q] for q in z]) for z in ([x for r in Ac for x in r], bc, Xc))
                if kind == 'raise':
                    bad = bad or 'raises %r although there are solutions in the box, e.g. %s' % (v, at)
                    continue
                lo, hi = (ev(orc.strip(e[k])).c for k in (1, 2))
                if lo > h[0] or hi < h[1]:
                    bad = bad or 'the set reaches from %s to %s, the estimate from %s to %s, e.g. %s' % (tm.show(h[0]), tm.show(h[1]), tm.show(lo), tm.show(hi), at)
                nb = natural(Ac, bc, [(-10 ** 15, 10 ** 15) if j == nu else x for j, x in enumerate(Xc)], nu)
                if maxiter >= 0 and any(x[1] - x[0] >= tol for j, x in enumerate(Xc) if j != nu) and nb is not None and (lo < nb[0] or hi > nb[1]):
                    bad = bad or 'evaluation over the box gives %s to %s, the estimate is %s to %s, e.g. %s' % (tm.show(nb[0]), tm.show(nb[1]), tm.show(lo), tm.show(hi), at)
            except (tm.Undef, tm.Huge):
                continue
        if bad:
            rep.bad('outer estimate', 'PSS', '%s (%s)' % (bad, cell))
        elif cnt:
            rep.ok('outer estimate', 'PSS')
    del I.decide
    for k in (fn('Gauss'), fn('Rohn')):
        del I.stubs[k]
    return paths


def cases():
    """(rows, right-hand sides, box, unknown, maxiter, points, start)"""
    k = 0
    for f in '+-=><0.':
        for g in '+=-':
            for b in '+=-':
                for x in ('==', 's=', '=+', '+s'):
                    k += 1
                    if k % 2 == 0:
                        continue
                    nu = k // 2 % 2
                    yield [f + g if nu == 0 else g + f], b, x if nu == 0 else x[::-1], nu, (0, 1, 2)[k // 4 % 3], 12, 'x0'
    # ends close to zero are not zero
    for f in 'tTpn':
        for b in '+-':
            yield [f + '0'], b, 'L=', 0, 0, 12, 'x0'
            yield [f + '+'], b, '==', 0, 0, 12, 'x0'
            yield ['+' + f], b, 's=', 1, 0, 12, 'x0'
    # the set touches an end of the box
    for f, b, x in (('+0', '0', '<+'), ('+0', '0', '>='), ('=0', '0', '<s'), ('+.', '0', '.='), ('0+', '0', '=<'), ('00', '0', '==')):
        for nu in (0, 1):
            yield [f], b, x, nu, 1, 12, 'x0'
    for r, b in ((['+=', '=+'], '=+'), (['=+', '0-'], '0='), (['==', '+-'], '+='), (['>=', '<+'], '=='), (['.=', '=.'], '+='), (['-=', '=>'], '=='), (['+=', '+-', '=+'], '==+')):
        for nu, x in ((0, '=='), (1, 's='), (0, '=+')):
            yield r, b, x, nu, 1, 24, 'x0'
        yield r, b, '==', 0, 1, 24, 'solver'
        yield r, b, '==', 1, 0, 24, 'refusal'
    for r, b in ((['+=-'], '='), (['=+='], '+'), (['=-0', '+=='], '==')):
        for nu, x in ((0, '==='), (1, '=s+'), (2, '+==')):
            yield r, b, x, nu, 1, 8, 'x0'


def c33(rep):
    rep.rule = ('abstract interpretation of PSS on systems and starting boxes with symbolic ends per sign class, traces partitioned by the order of '
                'the terms compared; linear programmes are recorded and answered exactly; at representatives of every trace the returned ends are '
                'compared with the exact hull of the united solution set in the box and with interval evaluation of the rows')
    rep.assumptions += ['exact arithmetic and exact linear programming']
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, fn('PSS'))
    I.stubs = dict(I.stubs)
    paths = n = 0
    for c in cases():
        paths += case(rep, I, *c)
        n += 1
    rep.note('cells', n)
    rep.note('paths', paths)
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 600
