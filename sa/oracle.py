"""Case cells for interval operands, exact (ideal) interval operations, and the endpoint deciders."""
import itertools
import random
from fractions import Fraction as F

from . import terms as tm
from .absint import Inst, Num, is_num, term
from .terms import Poly, lf

KMOD = 'intvalpy.kernel.interval_arithmetics'


def V(n):
    return Poly.var(n)


def interval_cells(pfx, improper=False, proper=True):
    """(name, lo, hi) polynomials in strictly positive parameters, one per sign/order class"""
    p, q = V(pfx + 'p'), V(pfx + 'q')
    z = Poly.const(0)
    out = []
    if proper:
        out += [('--', -(p + q), -p), ('-=', -p, -p), ('-0', -p, z), ('-+', -p, q), ('00', z, z), ('0+', z, p),
                ('++', p, p + q), ('+=', p, p)]
    if improper:
        out += [('~--', -p, -(p + q)), ('~0-', z, -p), ('~+-', q, -p), ('~+0', p, z), ('~++', p + q, p)]
    return [(n, lf(a), lf(b)) for n, a, b in out]


def recip_cells(pfx, improper=False, proper=True):
    """divisor cells not containing zero, parametrised by reciprocals so that quotients are polynomials"""
    p, q = V(pfx + 'p'), V(pfx + 'q')
    rc = lambda x: tm.T('rc', x)
    out = []
    if proper:
        out += [('++', rc(p + q), rc(p)), ('+=', rc(p), rc(p)), ('--', rc(-p), rc(-(p + q))), ('-=', rc(-p), rc(-p))]
    if improper:
        out += [('~++', rc(p), rc(p + q)), ('~--', rc(-(p + q)), rc(-p))]
    return out


def zero_cells(pfx, improper=False, proper=True):
    return [c for c in interval_cells(pfx, improper, proper) if not c[0].strip('~') in ('++', '+=', '--', '-=')]


def num_cells(pfx, recip=False):
    p = V(pfx + 'p')
    if recip:
        return [('+', tm.T('rc', p)), ('-', tm.T('rc', -p))]
    return [('+', lf(p)), ('0', tm.ZERO), ('-', lf(-p))]


# ------------------------------------------------------------------ ideal operations on (lo, hi)
def pos(t):
    return tm.minmax('max', [t, tm.ZERO])


def negp(t):
    return tm.minmax('max', [tm.neg(t), tm.ZERO])


def i_add(x, y):
    return tm.add(x[0], y[0]), tm.add(x[1], y[1])


def i_neg(x):
    return tm.neg(x[1]), tm.neg(x[0])


def i_sub(x, y):
    return i_add(x, i_neg(y))


def i_mul(x, y):
    (a, b), (c, d) = x, y
    mx = lambda *ts: tm.minmax('max', ts)
    L = tm.sub(mx(tm.mul(pos(a), pos(c)), tm.mul(negp(b), negp(d))), mx(tm.mul(pos(b), negp(c)), tm.mul(negp(a), pos(d))))
    U = tm.sub(mx(tm.mul(pos(b), pos(d)), tm.mul(negp(a), negp(c))), mx(tm.mul(pos(a), negp(d)), tm.mul(negp(b), pos(c))))
    return L, U


def i_inv(y):
    return tm.div(tm.ONE, y[1]), tm.div(tm.ONE, y[0])


def i_div(x, y):
    return i_mul(x, i_inv(y))


IDEAL = {'add': i_add, 'sub': i_sub, 'mul': i_mul, 'truediv': i_div}


# ------------------------------------------------------------------ representative points
_GEN = [F(x) for x in (0.7324218913, 1.9137, 13.3713, 0.0113717, 250.313, 3.0521, 0.3317, 7.7713, 41.9, 1.00071)]


def points(vars_, n=14, seed=20, facts=()):
    """representative valuations; with facts, valuations that miss the path condition are moved onto it where possible"""
    vars_ = sorted(vars_)
    if not vars_:
        return [{}]
    if facts:
        lin = linear_facts(facts)
        return settled(points(vars_, n, seed), lin) if lin else points(vars_, n, seed)
    rnd = random.Random(seed + len(vars_))
    out = []
    for i in range(n):
        pt = {}
        for v in vars_:
            g = rnd.choice(_GEN)
            pt[v] = F(float(g) * (0.6 + 0.8 * rnd.random()))
        out.append(pt)
    return out


def linear_facts(facts):
    """[(relation, polynomial)] of the facts between exact polynomials: the polynomial stands in the relation to zero"""
    out = []
    for op, s, t, v in facts:
        if op not in OPS:
            continue
        s, t = strip(s), strip(t)
        if s.k != 'lf' or t.k != 'lf':
            continue
        p = s.x - t.x
        if p.is_const():
            continue
        if not v:
            op = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[op]
        sol = []
        for x in sorted(p.vars()):
            if all(dict(m).get(x, 0) in (0, 1) for m in p.d):
                sol.append(x)
        out.append((op, p, sol))
    return out


def _holds(op, c):
    return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]


def pval(p, pt):
    r = F(0)
    for m, c in p.d.items():
        for x, k in m:
            c = c * pt[x] ** k
        r += c
    return r


def settled(pts, lin):
    """lazily: the valuations, those that miss the linear conditions moved onto them while that keeps succeeding"""
    if any(x not in pts[0] for _, p, _ in lin for x in p.vars()):
        yield from pts
        return
    lost = done = 0
    for k, pt in enumerate(pts):
        q = pt
        if lost < 4 or lost < done:
            q = settle(pt, lin, k)
            if q is None:
                lost += 1
                q = pt
            else:
                done += 1
        yield q


def settle(pt, lin, seed):
    """move a valuation (all symbols stay positive) onto linear conditions that it misses, else None"""
    rnd = None
    new = dict(pt)
    for _ in range(3 * len(lin) + 4):
        miss = [c for c in lin if not _holds(c[0], pval(c[1], new))]
        if not miss:
            return new
        rnd = rnd or random.Random(seed)
        op, p, sol = rnd.choice(miss)
        if not sol:
            return None
        x = rnd.choice(sol)
        a = b = F(0)
        for m, c in p.d.items():
            e = dict(m)
            has = e.pop(x, 0)
            for y, k in e.items():
                c = c * new[y] ** k
            if has:
                a += c
            else:
                b += c
        if not a:
            continue
        z = -b / a
        up = op in ('gt', 'ge') and a > 0 or op in ('lt', 'le') and a < 0
        if op == 'eq':
            w = z
        elif op == 'ne':
            w = new[x] * F(rnd.randint(5, 20), 10)
        elif up:
            w = z + F(rnd.randint(1, 30), 16) if z <= 0 else z * F(rnd.randint(17, 40), 16)
        else:
            w = z * F(rnd.randint(2, 15), 16)
        if w > 0:
            new[x] = w
    return None


def tvars(t, acc=None):
    acc = set() if acc is None else acc
    if t.k in ('lf', 'rc'):
        acc |= t.x.vars()
    elif t.k == 'rnd':
        tvars(t.y, acc)
    elif t.k == 'op':
        for x in t.y:
            tvars(x, acc)
    return acc


OPS = {'lt': lambda x, y: tm._lt(x, y), 'gt': lambda x, y: tm._lt(y, x), 'le': lambda x, y: not tm._lt(y, x),
       'ge': lambda x, y: not tm._lt(x, y), 'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y}


def facts_hold(facts, ev):
    """True/False at the point; None when a rounding deviation could flip a fact there"""
    for f in facts:
        op, s, t, v = f
        if op not in OPS:
            continue
        a, b = ev(s), ev(t)
        if OPS[op](a.c, b.c) != v:
            return False
        if a.c == b.c and (a.lo or a.hi or b.lo or b.hi):
            return None
    return True


def same(s, t, vars_=(), facts=(), npts=14):
    """do two exact values agree?  ('ok'|'violated'|'undecided', detail)"""
    if s == t:
        return 'ok', 'identical terms'
    vs = tvars(s) | tvars(t) | set(vars_)
    for f in facts:
        if f[0] in OPS:
            vs |= tvars(f[1]) | tvars(f[2])
    n = 0
    for pt in points(vs, 6 * npts if facts else npts):
        if n >= npts:
            break
        ev = tm.Eval(pt)
        try:
            if facts_hold(facts, ev) is not True:
                continue
            a, b = ev(s), ev(t)
        except tm.Huge:
            continue
        except tm.Undef as e:
            return 'undecided', str(e)
        n += 1
        if a.c != b.c:
            if not isinstance(a.c, str) and not isinstance(b.c, str):
                if abs(a.c - b.c) <= 8 * tm.ulp(b.c):
                    continue
            return 'violated', 'at %s the value is %s, expected %s  (value %r, expected %r)' % (
                {k: float(v) for k, v in pt.items()}, tm.show(a.c), tm.show(b.c), s, t)
    if not n and facts:
        return 'vacuous', 'no representative point satisfies the path condition'
    if not n:
        return 'undecided', 'no representative point'
    return 'ok', 'agree at %d representative points of the cell' % n


def endpoint(side, t, ideal, facts=(), tight=True, npts=14, safe=True):
    """decide one endpoint: never inside the ideal bound, and equal to it up to rounding.
    returns (status, how)"""
    if isinstance(t, str):
        return 'undecided', t
    s, u = (t, ideal) if side == 'lo' else (ideal, t)
    proved = safe and tm.prove_le(s, u)
    exact = strip(t) == strip(ideal)
    if proved and (exact or not tight):
        return 'ok', 'proved'
    vs = tvars(t) | tvars(ideal)
    for f in facts:
        if f[0] in OPS:
            vs |= tvars(f[1]) | tvars(f[2])
    n = 0
    for pt in points(vs, npts):
        ev = tm.Eval(pt)
        try:
            h = facts_hold(facts, ev)
            if h is not True:
                continue
            m, i = ev(t), ev(ideal)
        except tm.Huge:
            continue
        except tm.Undef as e:
            return 'undecided', str(e)
        n += 1
        w = {k: float(v) for k, v in pt.items()}
        if isinstance(m.c, str) or isinstance(i.c, str):
            if m.c == i.c or (side == 'lo' and m.c == tm.NINF or side == 'hi' and m.c == tm.INF) and not tight:
                continue
            if m.c == tm.NAN:
                return 'violated', 'endpoint is nan at %s' % w
            return 'violated', '%s endpoint is %s, the exact bound is %s, at %s' % (side, tm.show(m.c), tm.show(i.c), w)
        tol = 64 * max(tm.ulp(m.c), tm.ulp(i.c))
        if m.c != i.c and abs(m.c - i.c) > tol:
            inside = m.c > i.c if side == 'lo' else m.c < i.c
            if inside or tight:
                return 'violated', '%s endpoint is %s but the exact bound is %s (%s) at %s; term %r, ideal %r' % (
                    side, tm.show(m.c), tm.show(i.c), 'cuts the range off' if inside else 'not the tightest', w, t, ideal)
        if safe and not proved:
            if side == 'lo' and m.c + m.hi > i.c or side == 'hi' and m.c + m.lo < i.c:
                return 'violated', '%s endpoint is not rounded outward: %r can fall inside the exact bound %r, e.g. near %s' % (
                    side, t, ideal, w)
    if not n:
        return ('vacuous', 'no representative point on this path') if facts else ('undecided', 'no point')
    return 'ok', 'proved' if proved else 'representative points (%d)' % n


def strip(t):
    """the exact value a term denotes when rounding is removed"""
    if t.k == 'rnd':
        return strip(t.y)
    if t.k == 'op':
        a = [strip(x) for x in t.y]
        n = t.x
        if n == '+':
            return tm.add(a[0], a[1])
        if n == '*':
            return tm.mul(a[0], a[1])
        if n == '/':
            return tm.div(a[0], a[1])
        if n == 'neg':
            return tm.neg(a[0])
        if n in ('min', 'max'):
            return tm.minmax(n, a)
        if n == 'abs':
            return tm.absval(a[0])
        if n == 'nextafter':
            return a[0]
        return tm.fn(n, a)
    return t


def mk(I, clsname, lo, hi, ty='float'):
    return I.call(I.get(KMOD + ':' + clsname), [Num(lo, ty), Num(hi, ty)], {})


def ends(I, v):
    """(class name, lower term, upper term) of an interval value, else None"""
    if isinstance(v, Inst) and v.cls.find('a') is not None:
        a, b = I.getattr(v, 'a'), I.getattr(v, 'b')
        if is_num(a) and is_num(b):
            return v.cls.name, term(a), term(b)
    return None
