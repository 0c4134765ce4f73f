"""Value domain of the abstract interpreter.

A numeric value is a term over exact multivariate polynomials (with rational coefficients, in
strictly positive cell parameters), reciprocals of such polynomials, the special values
inf/-inf/nan, exact operations, and explicit rounding nodes `Rnd(mode, t)` that say in which
direction the machine operation that produced the value was rounded.

Two deciders work on terms:
  * `prove_le(s, t)`   proves  machine(s) <= real(t)  (or the mirror image) for every point of
    the cell: rounding nodes are replaced by the bound their direction gives, and what remains
    is compared by the signs of polynomial coefficients;
  * `Eval.at(point)`   abstract evaluation at a representative point of the cell, giving the
    exact centre and the interval of first-order rounding deviations; used to refute.
"""
from fractions import Fraction as F
import math

INF, NINF, NAN = 'inf', '-inf', 'nan'


class Poly:
    __slots__ = ('d', '_h')

    def __init__(self, d):
        self.d = d
        self._h = None

    @staticmethod
    def const(c):
        c = F(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(n):
        return Poly({((n, 1),): F(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                e = dict(m1)
                for v, k in m2:
                    e[v] = e.get(v, 0) + k
                m = tuple(sorted((v, k) for v, k in e.items() if k))
                s = d.get(m, 0) + c1 * c2
                if s:
                    d[m] = s
                else:
                    d.pop(m, None)
        return Poly(d)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), F(0))

    def sign(self):
        """+1/-1/0 when definite for all strictly positive parameters, else None."""
        if not self.d:
            return 0
        pos = any(c > 0 for c in self.d.values())
        neg = any(c < 0 for c in self.d.values())
        if pos and not neg:
            return 1
        if neg and not pos:
            return -1
        return None

    def vars(self):
        return {v for m in self.d for v, _ in m}

    def at(self, pt):
        s = F(0)
        for m, c in self.d.items():
            for v, k in m:
                c = c * pt[v] ** k
            s += c
        return s

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        for m, c in sorted(self.d.items(), key=str):
            f = '*'.join(v if k == 1 else '%s^%d' % (v, k) for v, k in m)
            if not f:
                out.append('%s' % c)
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append('-' + f)
            else:
                out.append('%s*%s' % (c, f))
        return '(' + ' + '.join(out).replace('+ -', '- ') + ')' if len(out) > 1 else out[0]


class T:
    """kind: 'lf' poly | 'rc' poly (reciprocal) | 'sp' str | 'rnd' (mode, t) | 'op' (name, args)"""
    __slots__ = ('k', 'x', 'y', '_h')

    def __init__(self, k, x, y=None):
        self.k, self.x, self.y = k, x, y
        self._h = hash((k, x, y))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, T) and self._h == o._h and self.k == o.k and self.x == o.x and self.y == o.y

    def __repr__(self):
        if self.k == 'lf':
            return repr(self.x)
        if self.k == 'rc':
            return '1/%r' % (self.x,)
        if self.k == 'sp':
            return self.x
        if self.k == 'rnd':
            return '%s[%r]' % ({'D': 'down', 'U': 'up', 'N': 'near', 'Z': 'chop', '?': 'unord', 'L': 'libm'}.get(self.x, self.x), self.y)
        if self.x in ('+', '-', '*', '/', '**') and len(self.y) == 2:
            return '(%r %s %r)' % (self.y[0], self.x, self.y[1])
        return '%s(%s)' % (self.x, ', '.join(map(repr, self.y)))


def lf(c):
    return T('lf', c if isinstance(c, Poly) else Poly.const(c))


ZERO, ONE = lf(0), lf(1)
T_INF, T_NINF, T_NAN = T('sp', INF), T('sp', NINF), T('sp', NAN)


def const(c):
    """term of a Python number"""
    if isinstance(c, float):
        if c != c:
            return T_NAN
        if c in (math.inf, -math.inf):
            return T_INF if c > 0 else T_NINF
    return lf(F(c))


def rnd(mode, t):
    if mode == 'R' or t.k in ('sp', 'rnd') and t.k == 'sp':
        return t
    return T('rnd', mode, t)


def may_underflow(t):
    """a rounded product of quantities that are free to be tiny: the machine value may be zero"""
    if t.k != 'rnd' or t.y.k != 'lf':
        return False
    d = t.y.x.d
    if not d or any(sum(e for _, e in m) < 2 for m in d):
        return False
    s = t.y.x.sign()
    return t.x not in ('D', 'U') or (t.x == 'D') == (s == 1)


def is_pow2(c):
    c = abs(c)
    if c == 0:
        return False
    n, d = c.numerator, c.denominator
    return n & (n - 1) == 0 and d & (d - 1) == 0


def sign(t):
    """definite sign of the real the term denotes (rounding never changes a sign, up to underflow)"""
    if t.k == 'lf' or t.k == 'rc':
        return t.x.sign()
    if t.k == 'sp':
        return {INF: 1, NINF: -1}.get(t.x)
    if t.k == 'rnd':
        return sign(t.y)
    n, a = t.x, t.y
    if n == 'neg':
        s = sign(a[0])
        return None if s is None else -s
    if n in ('*', '/'):
        s, u = sign(a[0]), sign(a[1])
        if n == '*' and (s == 0 or u == 0):
            return 0
        return None if s is None or u is None else s * u
    if n == '+':
        s, u = sign(a[0]), sign(a[1])
        if s is not None and u is not None:
            if s * u >= 0:
                return s or u
        return None
    if n == '-':
        s, u = sign(a[0]), sign(a[1])
        if s is not None and u is not None and s * u <= 0:
            return s or -u
        return None
    if n in ('abs', 'exp'):
        return 1 if n == 'exp' or sign(a[0]) in (1, -1) else (0 if sign(a[0]) == 0 else None)
    if n in ('min', 'max'):
        ss = [sign(x) for x in a]
        if n == 'min':
            if any(s == -1 for s in ss):
                return -1
            if all(s is not None for s in ss):
                return min(ss)
        else:
            if any(s == 1 for s in ss):
                return 1
            if all(s is not None for s in ss):
                return max(ss)
    return None


def cmp_terms(s, t):
    """-1/0/+1 when s<t, s==t, s>t definitely over the cell, else None (exact terms only,
    plus rounding-sign facts against zero)."""
    if s == t and not (s.k == 'sp' and s.x == NAN):
        return 0
    if s.k == 'sp' or t.k == 'sp':
        if s.k == 'sp' and s.x == NAN or t.k == 'sp' and t.x == NAN:
            return 'nan'
        if s.k == 'sp':
            return 1 if s.x == INF else -1
        return -1 if t.x == INF else 1
    if s.k == 'lf' and t.k == 'lf':
        g = (s.x - t.x).sign()
        return g
    if s.k == 'rc' and t.k == 'rc':
        a, b = s.x.sign(), t.x.sign()
        if a is not None and b is not None:
            if a != b:
                return 1 if a > b else -1
            g = (t.x - s.x).sign()      # 1/s vs 1/t, same sign: larger denominator, smaller value
            return g
    a, b = sign(s), sign(t)
    if a is not None and b is not None and a != b:
        return 1 if a > b else -1
    if t.k == 'lf' and not t.x.d and a is not None:
        return a
    if s.k == 'lf' and not s.x.d and b is not None:
        return -b
    return None


# ------------------------------------------------------------------ construction
def _pw2(t):
    return t.k == 'lf' and t.x.is_const() and is_pow2(t.x.cval())


def neg(a):
    if a.k == 'lf':
        return lf(-a.x)
    if a.k == 'rc':
        return T('rc', -a.x)
    if a.k == 'sp':
        return {INF: T_NINF, NINF: T_INF, NAN: T_NAN}[a.x]
    if a.k == 'op' and a.x == 'neg':
        return a.y[0]
    return T('op', 'neg', (a,))


def _isz(t):
    return t.k == 'lf' and not t.x.d


def add(a, b, mode='R', exact=False):
    if _isz(a):
        return b
    if _isz(b):
        return a
    if a.k == 'sp' or b.k == 'sp':
        if a.k == 'sp' and b.k == 'sp' and a.x != b.x:
            return T_NAN
        if a.k == 'sp' and a.x == NAN or b.k == 'sp' and b.x == NAN:
            return T_NAN
        return a if a.k == 'sp' else b
    if a.k == 'lf' and b.k == 'lf':
        r = a.x + b.x
        if not r.d or exact or mode == 'R' or a.x == b.x:
            return lf(r)
        return rnd(mode, lf(r))
    if neg(a) == b:
        return ZERO
    if a == b:
        return mul(lf(2), a)
    t = T('op', '+', (a, b))
    return t if exact else rnd(mode, t)


def sub(a, b, mode='R', exact=False):
    return add(a, neg(b), mode, exact)


def mul(a, b, mode='R', exact=False):
    if _isz(a) or _isz(b):
        if a.k == 'sp' or b.k == 'sp':
            return T_NAN
        return ZERO
    for u, v in ((a, b), (b, a)):
        if u.k == 'lf' and u.x.is_const():
            c = u.x.cval()
            if c == 1:
                return v
            if c == -1:
                return neg(v)
    if a.k == 'sp' or b.k == 'sp':
        s = (sign(a) or 0) * (sign(b) or 0)
        if (a.k == 'sp' and a.x == NAN) or (b.k == 'sp' and b.x == NAN):
            return T_NAN
        if s:
            return T_INF if s > 0 else T_NINF
        return T('op', '*', (a, b))
    ex = exact or mode == 'R' or _pw2(a) or _pw2(b)
    if a.k == 'lf' and b.k == 'lf':
        r = lf(a.x * b.x)
        return r if ex else rnd(mode, r)
    if a.k == 'rc' and b.k == 'rc':
        r = T('rc', a.x * b.x)
        return r if ex else rnd(mode, r)
    for u, v in ((a, b), (b, a)):
        if u.k == 'rc' and v.k == 'lf' and v.x.is_const():
            r = T('rc', u.x * Poly.const(1 / v.x.cval()))
            return r if ex else rnd(mode, r)
        if u.k == 'rc' and v.k == 'lf':
            q = pdiv(v.x, u.x)
            if q is not None:
                r = lf(q)
                return r if ex else rnd(mode, r)
    t = T('op', '*', (a, b))
    return t if ex else rnd(mode, t)


def pdiv(p, q):
    """exact quotient when q is a single monomial or a scalar multiple of p, else None"""
    if len(q.d) == 1:
        (m, c), = q.d.items()
        inv = Poly({tuple((v, -k) for v, k in m): 1 / c})
        return p * inv
    if set(p.d) == set(q.d) and p.d:
        rs = {p.d[m] / q.d[m] for m in p.d}
        if len(rs) == 1:
            return Poly.const(rs.pop())
    return None


def div(a, b, mode='R', exact=False):
    """caller has excluded b == 0"""
    if a.k == 'sp' or b.k == 'sp':
        if a.k == 'sp' and a.x == NAN or b.k == 'sp' and b.x == NAN or (a.k == 'sp' and b.k == 'sp'):
            return T_NAN
        if b.k == 'sp':
            return ZERO
        s = sign(b)
        if s:
            return a if s > 0 else neg(a)
        if b.k == 'op' and b.x == 'abs':
            return a
        return T('op', '/', (a, b))
    if _isz(a):
        return ZERO
    ex = exact or mode == 'R' or _pw2(b)
    if b == a:
        return ONE
    if neg(b) == a:
        return lf(-1)
    if b.k == 'lf' and b.x.is_const():
        if b.x.cval() == 1:
            return a
        if a.k == 'lf':
            r = lf(a.x * Poly.const(1 / b.x.cval()))
            return r if ex else rnd(mode, r)
        t = T('op', '*', (a, lf(1 / b.x.cval())))
        return t if ex else rnd(mode, t)
    if b.k == 'rc':
        if a.k == 'lf':
            r = lf(a.x * b.x)
            return r if ex else rnd(mode, r)
        if a.k == 'rc':
            q = pdiv(b.x, a.x)
            r = lf(q) if q is not None else T('op', '*', (a, lf(b.x)))
            return r if ex else rnd(mode, r)
        t = T('op', '*', (a, lf(b.x)))
        return t if ex else rnd(mode, t)
    if b.k == 'lf':
        if a.k == 'lf':
            q = pdiv(a.x, b.x)
            if q is not None:
                r = lf(q)
                return r if ex else rnd(mode, r)
            if a.x.is_const():
                r = T('rc', b.x * Poly.const(1 / a.x.cval()))
                return r if ex else rnd(mode, r)
    t = T('op', '/', (a, b))
    return t if ex else rnd(mode, t)


def minmax(kind, ts):
    out = []
    for t in ts:
        if t not in out:
            out.append(t)
    want = -1 if kind == 'min' else 1
    keep = list(out)
    changed = True
    while changed and len(keep) > 1:
        changed = False
        for i in range(len(keep)):
            for j in range(len(keep)):
                if i != j and cmp_terms(keep[i], keep[j]) == want:
                    keep.pop(j)
                    changed = True
                    break
            if changed:
                break
    if len(keep) == 1:
        return keep[0]
    flat = []
    for t in keep:
        if t.k == 'op' and t.x == kind:
            flat += [u for u in t.y if u not in flat]
        elif t not in flat:
            flat.append(t)
    flat.sort(key=repr)
    return T('op', kind, tuple(flat))


def absval(a):
    s = sign(a)
    if s is not None:
        return a if s >= 0 else neg(a)
    return T('op', 'abs', (a,))


def fn(name, args):
    return T('op', name, tuple(args))


# ------------------------------------------------------------------ proof
class Tree:
    """min/max tree over polynomials"""


def _dist(op, a, b):
    """add or subtract-free combination of two trees"""
    if a is None or b is None:
        return None
    if a[0] == 'p' and b[0] == 'p':
        return ('p', a[1] + b[1])
    if a[0] != 'p':
        xs = [_dist(op, x, b) for x in a[1]]
        return None if any(x is None for x in xs) else (a[0], xs)
    xs = [_dist(op, a, x) for x in b[1]]
    return None if any(x is None for x in xs) else (b[0], xs)


def _scale(p, tree):
    """polynomial of definite sign times a tree"""
    if tree is None:
        return None
    s = p.sign()
    if tree[0] == 'p':
        return ('p', p * tree[1])
    if s is None:
        return None
    xs = [_scale(p, x) for x in tree[1]]
    if any(x is None for x in xs):
        return None
    k = tree[0]
    if s < 0:
        k = 'max' if k == 'min' else 'min'
    return (k, xs)


def bound(t, up):
    """tree bounding the machine value from above (up) or below; None when none is known"""
    if t.k == 'lf':
        return ('p', t.x)
    if t.k in ('rc', 'sp'):
        return None
    if t.k == 'rnd':
        if (t.x == 'D' and up) or (t.x == 'U' and not up):
            return bound(t.y, up)
        return None
    n, a = t.x, t.y
    if n == 'neg':
        return _scale(Poly.const(-1), bound(a[0], not up))
    if n in ('min', 'max'):
        xs = [bound(x, up) for x in a]
        if n == 'min' and up:
            xs = [x for x in xs if x is not None]
            return (n, xs) if xs else None
        if n == 'max' and not up:
            xs = [x for x in xs if x is not None]
            return (n, xs) if xs else None
        return None if any(x is None for x in xs) else (n, xs)
    if n == '+':
        return _dist('+', bound(a[0], up), bound(a[1], up))
    if n == '*':
        for u, v in ((a[0], a[1]), (a[1], a[0])):
            if u.k == 'lf' and u.x.sign() is not None:
                s = u.x.sign()
                return _scale(u.x, bound(v, up if s >= 0 else not up))
        s0, s1 = sign(a[0]), sign(a[1])
        if s0 is not None and s1 is not None:
            # product of two inexact values of known sign
            u0 = up if s1 >= 0 else not up
            u1 = up if s0 >= 0 else not up
            b0, b1 = bound(a[0], u0), bound(a[1], u1)
            if b0 and b1 and b0[0] == 'p' and b1[0] == 'p':
                if b0[1].sign() == s0 and b1[1].sign() == s1:
                    return ('p', b0[1] * b1[1])
    return None


def tree_le(a, b, depth=0):
    """a <= b over the whole cell (sound, incomplete)"""
    if a is None or b is None:
        return False
    if a[0] == 'p' and b[0] == 'p':
        return (b[1] - a[1]).sign() in (0, 1)
    if a[0] == 'max':
        return all(tree_le(x, b) for x in a[1])
    if b[0] == 'min':
        return all(tree_le(a, x) for x in b[1])
    if a[0] == 'min' and any(tree_le(x, b) for x in a[1]):
        return True
    if b[0] == 'max' and any(tree_le(a, x) for x in b[1]):
        return True
    return False


def prove_le(s, t):
    """machine(s) <= machine(t) for every point of the cell"""
    if s == t:
        return True
    if s.k == 'sp' and s.x == NINF or t.k == 'sp' and t.x == INF:
        return True
    if s.k == 'sp' or t.k == 'sp':
        return False
    if tree_le(bound(s, True), bound(t, False)):
        return True
    # rounding in one direction is monotone
    if s.k == 'rnd' and t.k == 'rnd' and s.x == t.x and s.x in 'DUN':
        if prove_le(s.y, t.y):
            return True
    if s.k == 'rnd' and s.x == 'D' and prove_le(s.y, t):
        return True
    if t.k == 'rnd' and t.x == 'U' and prove_le(s, t.y):
        return True
    if s.k == 'op' and s.x == 'min' and any(prove_le(x, t) for x in s.y):
        return True
    if s.k == 'op' and s.x == 'max' and all(prove_le(x, t) for x in s.y):
        return True
    if t.k == 'op' and t.x == 'max' and any(prove_le(s, x) for x in t.y):
        return True
    if t.k == 'op' and t.x == 'min' and all(prove_le(s, x) for x in t.y):
        return True
    if s.k == 'op' and t.k == 'op' and s.x == t.x == 'neg':
        return prove_le(t.y[0], s.y[0])
    if s.k == 'rc' and t.k == 'rc' and cmp_terms(s, t) in (-1, 0):
        return True
    return False


# ------------------------------------------------------------------ abstract evaluation at a point
class Undef(Exception):
    pass


class Huge(Undef):
    pass


def ulp(c):
    try:
        return F(math.ulp(float(abs(c)))) if c else F(0)
    except OverflowError:
        raise Huge('magnitude beyond binary64')


class AV:
    """exact centre c and first-order deviation interval [lo, hi]"""
    __slots__ = ('c', 'lo', 'hi')

    def __init__(self, c, lo=F(0), hi=F(0)):
        self.c, self.lo, self.hi = c, lo, hi

    def __repr__(self):
        return '%s (+%s/%s)' % (show(self.c), float(self.lo) if self.lo else 0, float(self.hi) if self.hi else 0)


def show(c):
    if isinstance(c, str):
        return c
    f = float(c)
    return '%.12g' % f


def _inf(c):
    return isinstance(c, str)


def _lt(a, b):
    if NAN in (a, b):
        raise Undef('nan')
    if a == b:
        return False
    if a == NINF or b == INF:
        return True
    if a == INF or b == NINF:
        return False
    return a < b


def _mp():
    import mpmath
    mpmath.mp.prec = 200
    return mpmath


def _tofrac(x):
    import mpmath
    if not mpmath.isfinite(x):
        raise Undef('transcendental')
    m = mpmath.mpf(x)
    s, man, e, _ = m._mpf_
    man = int(man)
    v = F(man) * (F(2) ** e if e >= 0 else F(1, 2 ** (-e)))
    return -v if s else v


def transc(name, c):
    mpm = _mp()
    x = mpm.mpf(c.numerator) / mpm.mpf(c.denominator)
    if name == 'log' and c <= 0:
        raise Undef('log of %s' % c)
    if name == 'sqrt' and c < 0:
        raise Undef('sqrt')
    return _tofrac(getattr(mpm, name)(x))


def dtransc(name, c):
    mpm = _mp()
    x = mpm.mpf(c.numerator) / mpm.mpf(c.denominator)
    if name == 'exp':
        return _tofrac(mpm.exp(x))
    if name == 'log':
        return 1 / c
    if name == 'sin':
        return _tofrac(mpm.cos(x))
    if name == 'cos':
        return -_tofrac(mpm.sin(x))
    if name == 'sqrt':
        return 1 / (2 * _tofrac(mpm.sqrt(x))) if c else F(0)
    raise Undef(name)


class Eval:
    def __init__(self, pt):
        self.pt = pt
        self.memo = {}

    def __call__(self, t):
        v = self.memo.get(t)
        if v is None:
            v = self.ev(t)
            self.memo[t] = v
        return v

    def c(self, t):
        return self(t).c

    def ev(self, t):
        if t.k == 'lf':
            return AV(t.x.at(self.pt))
        if t.k == 'rc':
            return AV(1 / t.x.at(self.pt))
        if t.k == 'sp':
            return AV(t.x)
        if t.k == 'rnd':
            v = self(t.y)
            if _inf(v.c):
                return v
            u = ulp(v.c)
            m = t.x
            if m == 'D':
                return AV(v.c, v.lo - u, v.hi)
            if m == 'U':
                return AV(v.c, v.lo, v.hi + u)
            if m == 'N':
                return AV(v.c, v.lo - u / 2, v.hi + u / 2)
            if m == 'L':       # libm result: within one ulp of the exact value
                return AV(v.c, v.lo - u, v.hi + u)
            if m == '?':
                raise Undef('operation whose rounding direction is not fixed by the source')
            raise Undef('rounding mode ' + m)
        n, a = t.x, t.y
        if n in ('min', 'max'):
            vs = [self(x) for x in a]
            best = vs[0]
            for v in vs[1:]:
                if _lt(v.c, best.c) if n == 'min' else _lt(best.c, v.c):
                    best = v
                elif v.c == best.c and not _inf(v.c):
                    f = min if n == 'min' else max
                    best = AV(v.c, f(v.lo, best.lo), f(v.hi, best.hi))
            return best
        if n in ('+', '*', '/', '-'):
            x, y = self(a[0]), self(a[1])
            if _inf(x.c) or _inf(y.c):
                raise Undef('infinite operand')
            if n == '+':
                return AV(x.c + y.c, x.lo + y.lo, x.hi + y.hi)
            if n == '-':
                return AV(x.c - y.c, x.lo - y.hi, x.hi - y.lo)
            if n == '/':
                if y.c == 0:
                    raise Undef('division by zero')
                iy = AV(1 / y.c, -y.hi / y.c ** 2, -y.lo / y.c ** 2)
                y = iy
            ps = [x.c * y.lo, x.c * y.hi]
            qs = [y.c * x.lo, y.c * x.hi]
            return AV(x.c * y.c, min(ps) + min(qs), max(ps) + max(qs))
        v = self(a[0])
        if n == 'neg':
            if _inf(v.c):
                return AV({INF: NINF, NINF: INF, NAN: NAN}[v.c])
            return AV(-v.c, -v.hi, -v.lo)
        if n == 'abs':
            if _inf(v.c):
                return AV(INF)
            return v if v.c >= 0 else AV(-v.c, -v.hi, -v.lo)
        if n == 'trunc':
            if _inf(v.c):
                raise Undef('integer of an infinite value')
            return AV(F(int(v.c)))
        if n in ('ceil', 'floor'):
            return AV(F(math.ceil(v.c) if n == 'ceil' else math.floor(v.c)))
        if n == 'mod':
            y = self(a[1])
            if y.c == 0:
                raise Undef('mod')
            return AV(v.c % y.c)
        if n == 'floordiv':
            y = self(a[1])
            if y.c == 0:
                raise Undef('mod')
            return AV(F(v.c // y.c))
        if n == 'nextafter':
            d = self(a[1])
            if _inf(v.c):
                return v
            u = ulp(v.c) if v.c else F(math.ulp(0.0))
            if _lt(d.c, v.c):
                return AV(v.c, v.lo - u, v.hi - u)
            if _lt(v.c, d.c):
                return AV(v.c, v.lo + u, v.hi + u)
            return v
        if n in ('exp', 'log', 'sin', 'cos', 'sqrt'):
            if _inf(v.c):
                raise Undef('infinite operand')
            c = transc(n, v.c)
            if v.lo or v.hi:
                g = dtransc(n, v.c)
                ps = (g * v.lo, g * v.hi)
                return AV(c, min(ps), max(ps))
            return AV(c)
        if n == '**':
            y = self(a[1])
            if _inf(v.c) or _inf(y.c):
                raise Undef('infinite operand')
            if y.c.denominator == 1 and 0 <= y.c <= 64:
                k = int(y.c)
                c = v.c ** k
                g = k * v.c ** (k - 1) if k > 0 else F(0)
                ps = (g * v.lo, g * v.hi)
                return AV(c, min(ps), max(ps))
            if v.c > 0:
                mpm = _mp()
                c = _tofrac(mpm.power(mpm.mpf(v.c.numerator) / v.c.denominator, mpm.mpf(y.c.numerator) / y.c.denominator))
                return AV(c)
            raise Undef('power')
        if n == 'sgn':
            return AV(F((v.c > 0) - (v.c < 0)))
        raise Undef('no abstract evaluation for ' + str(n))
