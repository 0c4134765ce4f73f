"""Parameter partitioning (PPS): the estimate of an unknown encloses the solution set of a regular square system and never
exceeds the box the method starts from; when the method stops by itself the estimate is exact."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Native, Stats, mkarr, term
from ..terms import Poly
from .arith import new_interp
from .pss import Witnesses, form, solve
from .recfun import num
from .scalar import V, need
from .solvers import fn, imat, ivec


def regular(A):
    return all(x[0] > 0 or x[1] < 0 for i, x in ((i, r[i]) for i, r in enumerate(A))) and all(
        min(abs(r[i][0]), abs(r[i][1])) > sum(max(abs(x[0]), abs(x[1])) for j, x in enumerate(r) if j != i) for i, r in enumerate(A))


def hull(A, b):
    """exact hull of the united solution set of a regular system: its extreme points solve (mid A - D_y rad A D_z) x = mid b + D_y rad b"""
    n = len(A)
    lo = hi = None
    for y in itertools.product((0, 1), repeat=n):
        r = [x[k] for x, k in zip(b, y)]
        for z in itertools.product((0, 1), repeat=n):
            x = solve([[e[k ^ l ^ 1] for e, l in zip(row, z)] for row, k in zip(A, y)], r)
            if x is None:
                return None
            lo = x if lo is None else [min(p, q) for p, q in zip(lo, x)]
            hi = x if hi is None else [max(p, q) for p, q in zip(hi, x)]
    return list(zip(lo, hi))


def widen(h, A, share):
    """an outer box that is exact for matrices without width and shrinks with the system"""
    if all(x[0] == x[1] for r in A for x in r):
        return h
    return [(l - share * (u - l), u + share * (u - l)) for l, u in h]


def case(rep, I, forms, bform, nu, maxiter, npts, share, scale=64, tol=F(1, 2 ** 40)):
    n = len(forms)
    big = Poly.const(scale)
    A = [[form(c, V('a%d%d' % (i, j)) * (big if i == j else Poly.const(1)), V('e%d%d' % (i, j))) for j, c in enumerate(r)] for i, r in enumerate(forms)]
    b = [form(c, V('b%d' % i), V('v%d' % i)) for i, c in enumerate(bform)]
    vs = set()
    for p in [q for r in A for x in r for q in x] + [q for x in b for q in x]:
        vs |= p.vars()
    W = Witnesses(I, vs, npts * (1 if scale > 32 else 6))

    def at(p):
        ev = tm.Eval(p)
        val = lambda q: ev(tm.lf(q)).c
        return [[(val(x[0]), val(x[1])) for x in r] for r in A], [(val(x[0]), val(x[1])) for x in b]
    W.all = [p for p in W.all if regular(at(p)[0])][:npts]
    cell = 'rows %s = %s, unknown %s, maxiter %d, start %s' % (' '.join(forms), bform, nu, maxiter, 'exact' if not share else 'widened')
    if not W.all:
        rep.undecided('solution set', 'PPS', 'no representative (%s)' % cell)
        return 0
    count = [0]

    def put(p, name, v):
        p[name], p[name + '_'] = (v + 1, F(1)) if v >= 0 else (F(1), 1 - v)

    def sym(name):
        return V(name) - V(name + '_')

    def iends(J, v, ev):
        def one(x):
            e = orc.ends(J, x)
            return tuple(ev(orc.strip(t)).c for t in e[1:3]) if e else (ev(orc.strip(term(x))).c,) * 2
        return [[one(x) for x in r] for r in v]

    def outer(J, args, kw):
        Q, r = J.toarr(args[0]), J.toarr(args[1])
        k = count[0]
        count[0] += 1
        rows, rhs = [list(x) for x in Q.a.reshape(n, n)], list(r.a.reshape(-1))
        for p in W.pts:
            ev = tm.Eval(p)
            Qc = iends(J, rows, ev)
            rc = iends(J, [rhs], ev)[0]
            for j, (l, u) in enumerate(widen(hull(Qc, rc), Qc, share)):
                put(p, 'h%d_%d' % (k, j), l)
                put(p, 'H%d_%d' % (k, j), u)
        return ivec(J, [(sym('h%d_%d' % (k, j)), sym('H%d_%d' % (k, j))) for j in range(n)])

    def reals(J, a):
        return [term(v) for v in J.toarr(a).a.reshape(-1)]

    def linsolve(J, args, kw):
        M, r = reals(J, args[0]), reals(J, args[1])
        k = count[0]
        count[0] += 1
        for p in W.pts:
            ev = tm.Eval(p)
            Mc, rc = [ev(t).c for t in M], [ev(t).c for t in r]
            for j, v in enumerate(solve([Mc[i * n:i * n + n] for i in range(n)], rc)):
                put(p, 'm%d_%d' % (k, j), v)
        return mkarr([num(sym('m%d_%d' % (k, j))) for j in range(n)], (n,), 'float')

    def det(J, args, kw):
        return num(V('det'))                # diagonally dominant: not zero
    for f in ('HBR', 'Gauss'):
        I.stubs[fn(f)] = Native(outer)
    I.stubs['numpy.linalg.solve'] = Native(linsolve)
    I.stubs['numpy.linalg.det'] = Native(det)
    I.decide = W.decide

    def th(J):
        W.reset()
        for p in W.pts:
            p['det'] = F(1)
        count[0] = 0
        kw = {'maxiter': maxiter, 'tol': num(Poly.const(tol))}
        if nu is not None:
            kw['nu'] = nu
        return J.call(J.get(fn('PPS')), [imat(J, A), ivec(J, b)], kw)
    paths = 0
    want = list(range(n)) if nu is None else [nu]
    for kind, v, facts, mode in I.run(th):
        paths += 1
        if kind == 'abort':
            rep.undecided('solution set', 'PPS', '%s (%s)' % (v, cell))
            continue
        es = None
        if kind == 'value':
            els = list(I.toarr(v).a.reshape(-1)) if hasattr(v, 'a') or hasattr(v, 'cls') else []
            es = [orc.ends(I, x) for x in els]
            if len(es) != len(want) or None in es:
                rep.bad('solution set', 'PPS', 'result %r for %d unknowns (%s)' % (v, len(want), cell))
                continue
        bad, cnt = None, 0
        for p in W.pts:
            ev = tm.Eval(p)
            try:
                Ac, bc = at(p)
                h = hull(Ac, bc)
                st = widen(h, Ac, share)
                cnt += 1
                show = 'A=%s b=%s' % tuple(repr([[str(tm.show(u)) for u in q] for q in z]) for z in ([x for r in Ac for x in r], bc))
                if kind == 'raise':
                    bad = bad or 'raises %r for a regular system, e.g. %s' % (v, show)
                    continue
                for i, e in zip(want, es):
                    lo, hi = (ev(orc.strip(e[k])).c for k in (1, 2))
                    if lo > h[i][0] or hi < h[i][1]:
                        bad = bad or 'unknown %d of the solution set reaches from %s to %s, the estimate from %s to %s, e.g. %s' % (
                            i, tm.show(h[i][0]), tm.show(h[i][1]), tm.show(lo), tm.show(hi), show)
                    elif lo < st[i][0] or hi > st[i][1]:
                        bad = bad or 'the starting box gives %s to %s for unknown %d, the estimate is %s to %s, e.g. %s' % (
                            tm.show(st[i][0]), tm.show(st[i][1]), i, tm.show(lo), tm.show(hi), show)
                    elif maxiter >= 100 and (h[i][0] - lo > tol or hi - h[i][1] > tol):
                        bad = bad or 'stopped by itself at %s to %s, unknown %d reaches from %s to %s, e.g. %s' % (
                            tm.show(lo), tm.show(hi), i, tm.show(h[i][0]), tm.show(h[i][1]), show)
            except (tm.Undef, tm.Huge):
                continue
        if bad:
            rep.bad('solution set', 'PPS', '%s (%s)' % (bad, cell))
        elif cnt:
            rep.ok('solution set', 'PPS')
    del I.decide
    for k in (fn('HBR'), fn('Gauss'), 'numpy.linalg.solve', 'numpy.linalg.det'):
        del I.stubs[k]
    return paths


def cases():
    """(rows, right-hand sides, unknown, maxiter, points, share by which the starting box is wider than the set, weight of the diagonal)"""
    k = 0
    for off in ('00', '0=', '=0', '+-', '-+', '==', '0+', '.0', '..', '.-', '>=', '-<'):
        for d in ('++', '-+', '+-'):
            for b in ('++', '+-', '==', '0=', '..', '=-'):
                k += 1
                if (k + k // 6) % 3:
                    continue
                nu = (0, 1, None)[k // 3 % 3]
                yield [d[0] + off[0], off[1] + d[1]], b, nu, (0, 2, 100, 100)[k // 3 % 4], 10, (F(0), F(1, 2))[k // 7 % 2], (64, 16, 4)[k // 5 % 3]
    # three unknowns: few entries with width
    for r, b in ((('+.0', '=.0', '0.-'), '=..'), (('-00', '=+0', '..+'), '=+.'), (('.=.', '.+.', '=.-'), '.=0'), (('+=0', '0.=', '.0-'), '..+'),
                 (('..=', '=.0', '0=.'), '.-.'), (('+00', '0-0', '=..'), '==0')):
        for k, nu in enumerate((0, 1, 2)):
            yield list(r), b, nu, (3, 100, 100)[k], 6, (F(0), F(1, 2))[k % 2], (16, 64, 8)[k]


def c37(rep):
    rep.rule = ('abstract interpretation of PPS on regular systems with symbolic ends per sign class, traces partitioned by the order of the terms '
                'compared; the interval solvers it starts from and the point solver are recorded and answered by exact or proportionally widened '
                'hulls; at representatives of every trace the returned ends are compared with the exact hull and the starting box')
    rep.assumptions += ['exact arithmetic', 'HBR and Gauss enclose the solution sets of the systems they are given and shrink with them']
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, fn('PPS'))
    I.stubs = dict(I.stubs)
    paths = n = 0
    for c in cases():
        paths += case(rep, I, *c)
        n += 1
    rep.note('cells', n)
    rep.note('paths', paths)
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 100
