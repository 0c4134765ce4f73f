"""Solution sets of systems with two and three unknowns: the orthant pieces handed to the vertex enumeration."""
import itertools
from fractions import Fraction as F

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Inst, Native, Num, Stats, is_num, mkarr, term
from ..terms import Poly, lf
from .arith import C, new_interp
from .recfun import LIN, num
from .scalar import V, arr_of, feasible, iv, need
from .solvers import points_of

BI = LIN + 'boundary_intervals'
TINY = F(1, 10 ** 9)


def wide(k):
    """window of the k-th piece: neither growing nor falling with k"""
    return 10 + 5 * k % 7


def entry(ch, a, w):
    a, w = V(a), V(w)
    return {'+': (a, a + w), '-': (-a - w, -a), '=': (-a, w), '.': (a, a), ':': (-a, -a), '0': (Poly.const(0), Poly.const(0)), '>': (Poly.const(0), a), '<': (-a, Poly.const(0))}[ch]


def rows_want(A, b, s, kind):
    """the piece of the solution set in the orthant s as inequalities  p . x >= q"""
    m = len(s)
    out = []
    for row, (lo, hi) in zip(A, b):
        L = [row[k][0] if s[k] > 0 else row[k][1] for k in range(m)]
        U = [row[k][1] if s[k] > 0 else row[k][0] for k in range(m)]
        if kind == 'uni':
            out.append(([-p for p in L], -hi))
            out.append((U, lo))
        else:
            out.append((L, lo))
            out.append(([-p for p in U], -hi))
    for k in range(m):
        out.append(([Poly.const(s[k] if j == k else 0) for j in range(m)], Poly.const(0)))
    return out


def val(p, ev):
    return ev(p if isinstance(p, tm.T) else lf(p)).c


def member(rows, x, ev):
    """smallest slack"""
    return min(sum(val(c, ev) * t for c, t in zip(p, x)) - val(q, ev) for p, q in rows)


def same_rows(got, want, ev):
    """each wanted inequality is there, each one there is wanted (up to a tiny shift and a positive factor)"""
    def norm(r):
        p, q = [val(c, ev) for c in r[0]], val(r[1], ev)
        k = max([abs(c) for c in p] + [0])
        if k == 0:
            return tuple(p) + ((-1 if q < -TINY else 1 if q > TINY else 0),)
        return tuple(c / k for c in p) + (q / k,)
    g, w = [norm(r) for r in got], [norm(r) for r in want]
    near = lambda r, t: all(abs(a - c) <= TINY for a, c in zip(r, t))
    trivial = lambda r: not any(r[:-1]) and r[-1] <= 0
    return all(any(near(r, t) for t in g) or trivial(r) for r in w) and all(any(near(r, t) for t in w) or trivial(r) for r in g)


def grid(m):
    vals = [F(-5), F(-7, 4), F(-1, 3), F(-1, 50), F(1, 40), F(2, 5), F(3, 2), F(6)]
    if m == 3:
        vals = vals[::2] + vals[-1:]
    return list(itertools.product(vals, repeat=m))


def c22(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the two drawing routines with the vertex enumeration replaced by a recorder: over the sign cells of the matrix and of the '
                'right-hand side the inequalities handed over, one system for each orthant, are the inequalities of the united or tolerable solution set in that orthant together with the orthant itself; '
                'a second pass with a common window covers all the orthants again; the pieces of the last pass are returned')
    stats = Stats()
    for name, kernel, m, orts in (('IntLinIncR2', 'lineqs', 2, 4), ('IntLinIncR3', 'lineqs3D', 3, 8)):
        calls = []
        grow = [0]
        state = {}

        def enum(I, args, kw):
            f = I.module(BI).ns.get(kernel)
            got = dict(zip(state['names'], args))
            got.update(kw)
            Am, bm = I.toarr(got[state['names'][0]]), I.toarr(got[state['names'][1]])
            if Am.a.ndim != 2 or bm.a.ndim != 1 or Am.shape[0] != bm.shape[0] or Am.shape[1] != m:
                raise Abort('shapes %s, %s' % (Am.shape, bm.shape))
            k = len(calls)
            pts = mkarr([num(Poly.const(F(7 * k + 3 * i + j + 1))) for i in range(3) for j in range(m)], (3, m), 'float')
            res = pts if m == 2 else [pts]
            bd = got.get('bounds')
            calls.append(([([term(v) for v in r], term(t)) for r, t in zip(Am.a, bm.a)], None if bd is None else bd, res, got.get('show')))
            if grow[0] and bd is None and k in grow[1]:
                lst = I.module(BI).ns.get('__center_rm')
                if not isinstance(lst, list):
                    raise Abort('the list of windows is not found')
                lst.append([num(Poly.const(F(wide(k))))])
            return res
        I = new_interp(stats, real=True, stubs={BI + ':' + kernel: Native(enum)})
        need(I, BI + ':' + name, BI + ':' + kernel)
        I0 = new_interp(stats, real=True)
        state['names'] = [a.arg for a in I0.get(BI + ':' + kernel).node.args.args]
        if 'bounds' not in state['names']:
            raise LookupError('%s takes no bounds' % kernel)

        def bounds_of(I, bd):
            if bd is None:
                return None
            try:
                return [F(term(v).x.at({})) for v in I.toarr(bd).a.reshape(-1)]
            except Exception:
                return 'unreadable'

        def judge(cons, th, A, b, kind, cell, window=None, second=False):
            def wrap(I):
                del calls[:]
                lst = I.module(BI).ns.get('__center_rm')
                if isinstance(lst, list):
                    del lst[:]
                r = th(I)
                return r, [(rows, bounds_of(I, bd), res, show) for rows, bd, res, show in calls]
            for kd, v, facts, mode in I.run(wrap, limit=64):
                if facts and not feasible(facts):
                    continue
                if kd == 'abort':
                    rep.undecided('pieces', cons, '%s (%s)' % (v, cell))
                    continue
                if kd == 'raise':
                    rep.bad('pieces', cons, 'raises %r (%s)' % (v, cell))
                    continue
                r, cs = v
                passes = [cs] if not second else [cs[:orts], cs[orts:]]
                if len(cs) != orts * len(passes):
                    rep.bad('pieces', cons, '%d systems instead of %d (%s)' % (len(cs), orts * len(passes), cell))
                    continue
                for pn, pas in enumerate(passes):
                    left = list(itertools.product((1, -1), repeat=m))
                    for rows, bd, res, show in pas:
                        one_piece(cons, rows, A, b, kind, left, facts, cell)
                        wnd = window if not (second and pn == 1) else [F(s * max(wide(k) for k in grow[1])) for s in (-1, 1) for _ in range(m)]
                        rep.add('window', cons, 'ok' if bd == wnd else 'undecided' if bd == 'unreadable' else 'violated', 'window %s instead of %s (%s)' % (bd, wnd, cell))
                        rep.add('no drawing of the pieces', cons, 'ok' if show is False else 'violated', 'the piece is drawn on its own (%s)' % cell)
                    rep.add('all orthants', cons, 'ok' if not left else 'violated', 'no system for the orthants %s (%s)' % (left, cell))
                got = list(r) if isinstance(r, (list, tuple)) else None
                want = [res for _, _, res, _ in passes[-1]]
                ok = got is not None and len(got) == len(want) and all(any(g is w for g in got) for w in want)
                rep.add('pieces returned', cons, 'ok' if ok else 'violated', 'the result is not the list of the pieces of the last pass (%s)' % cell)

        def one_piece(cons, rows, A, b, kind, left, facts, cell):
            polys = [p for r in A for e in r for p in e] + [p for e in b for p in e]
            pts = points_of(polys, 8)
            bad, seen, hit = None, 0, None
            for ev in pts:
                try:
                    if orc.facts_hold([q for q in facts if q[0] in orc.OPS], ev) is not True:
                        continue
                    if hit is None:
                        cand = [s for s in left if same_rows(rows, rows_want(A, b, s, kind), ev)]
                        if cand:
                            hit = cand[0]
                        else:
                            # the orthant from its own rows, then a point that tells the two pieces apart
                            orth = [s for s in itertools.product((1, -1), repeat=m)
                                    if all(any(all(val(c, ev) == (0 if j != k else val(pr[k], ev)) for j, c in enumerate(pr)) and val(pr[k], ev) * s[k] > 0 and abs(val(q, ev)) <= TINY
                                               for pr, q in rows) for k in range(m))]
                            if not orth:
                                bad = 'the system is not confined to an orthant'
                                break
                            if orth[0] not in left:
                                bad = 'a second system for the orthant %s' % (orth[0],)
                                break
                            hit = orth[0]
                    w = rows_want(A, b, hit, kind)
                    if same_rows(rows, w, ev):
                        seen += 1
                        continue
                    xs = grid(m)
                    for x in xs:
                        g, t = member(rows, x, ev), member(w, x, ev)
                        if (g > F(1, 1000)) != (t > F(1, 1000)) and abs(g) > F(1, 1000) and abs(t) > F(1, 1000):
                            bad = 'at %s the point %s %s the piece in the orthant %s' % (
                                {k: float(u) for k, u in ev.pt.items()}, [float(u) for u in x], 'is missing from' if t > 0 else 'is no point of', hit)
                            break
                    if bad:
                        break
                except (tm.Huge, tm.Undef):
                    continue
            if hit in left:
                left.remove(hit)
            if bad:
                rep.bad('pieces', cons, '%s (%s)' % (bad, cell))
            elif seen:
                rep.ok('pieces', cons)
            else:
                rep.undecided('pieces', cons, 'the inequalities are of another form (%s)' % cell)

        fn = lambda I: I.get(BI + ':' + name)
        mkA = lambda I, A: arr_of(I, [iv(I, C, lo, hi) for r in A for lo, hi in r], (len(A), m))
        mkb = lambda I, b: arr_of(I, [iv(I, C, lo, hi) for lo, hi in b])
        mats = [('+-' if m == 2 else '+-='), '==' if m == 2 else '==+', '-+' if m == 2 else '-.0', '.0' if m == 2 else '>:<', '><' if m == 2 else '++-']
        two = [(mats[0] + mats[1], '+-'), (mats[2] + mats[0], '==')]
        for kind in ('uni', 'tol'):
            systems = [(a, bb) for a in mats for bb in '+-=.0'] + two
            for a, bb in systems:
                n = len(bb)
                A = [[entry(a[i * m + j], 'a%d%d' % (i, j), 'w%d%d' % (i, j)) for j in range(m)] for i in range(n)]
                b = [entry(c, 'b%d' % i, 'v%d' % i) for i, c in enumerate(bb)]
                cell = '%s, %s, right-hand side %s' % (kind, a, bb)
                grow[:] = [0]
                judge(name, lambda I: I.call(fn(I), [mkA(I, A), mkb(I, b)], {'show': False, 'consistency': kind}), A, b, kind, cell)
                if bb in '+=' or n == 2:
                    wnd = [F(-4)] * m + [F(6)] * m
                    bd = lambda: mkarr([num(Poly.const(w)) for w in wnd], (2, m), 'float')
                    judge(name, lambda I: I.call(fn(I), [mkA(I, A), mkb(I, b)], {'show': False, 'consistency': kind, 'bounds': bd()}), A, b, kind, cell + ', window', window=wnd)
                    for ks in ((0,), (orts - 1,), (0, 1, orts - 2)):
                        grow[:] = [1, ks]
                        judge(name, lambda I: I.call(fn(I), [mkA(I, A), mkb(I, b)], {'show': False, 'consistency': kind}), A, b, kind, cell + ', unbounded pieces %s' % (ks,), second=True)
                    grow[:] = [0]
        # the default is the united set
        A = [[entry('+', 'a0', 'w0')] + [entry('=', 'a%d' % j, 'w%d' % j) for j in range(1, m)]]
        b = [entry('+', 'b', 'v')]
        judge(name, lambda I: I.call(fn(I), [mkA(I, A), mkb(I, b)], {'show': False}), A, b, 'uni', 'kind not given')
        # real systems go to the enumeration as they are
        Am = [[V('p%d%d' % (i, j)) - V('q%d%d' % (i, j)) for j in range(m)] for i in range(2)]
        bm = [V('r%d' % i) - V('s%d' % i) for i in range(2)]

        def real(I):
            del calls[:]
            r = I.call(fn(I), [mkarr([num(p) for q in Am for p in q], (2, m), 'float'), mkarr([num(p) for p in bm], (2,), 'float')], {'show': False})
            return r, list(calls)
        for kd, v, facts, mode in I.run(real, limit=16):
            if kd == 'abort':
                rep.undecided('real systems', name, v)
                continue
            if kd == 'raise':
                rep.bad('real systems', name, 'raises %r' % (v,))
                continue
            r, cs = v
            ok = len(cs) == 1 and cs[0][0] == [([lf(p) for p in q], lf(t)) for q, t in zip(Am, bm)] and r is cs[0][2]
            rep.add('real systems', name, 'ok' if ok else 'violated', 'a real system is not handed to %s unchanged' % kernel)
    rep.note('functions', sorted(f for f in stats.funcs if 'boundary' in f))
    rep.floor = 400
