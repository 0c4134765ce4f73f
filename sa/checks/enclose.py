"""Enclosure by the linear and nonlinear solvers: every interval carries the value it has for one (arbitrary) choice of
the real system; numbers read off intervals are opaque."""
import itertools

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Bound, Ext, Inst, Native, Num, Stats, is_num, mkarr, term
from ..oracle import KMOD
from ..terms import Poly, lf
from .arith import C, K, new_interp
from .recfun import num, vec
from .scalar import PMOD, RMOD, UMOD, V, arr_of, feasible, iv, need

LIN = 'intvalpy.linear.'
NLE = 'intvalpy.nonlinear.external_evaluation'
OBS = {'a', 'b', 'mid', 'rad', 'mag', 'mig', 'wid', 'inf', 'sup'}
OPS = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'truediv': tm.div}


class Selection:
    """the domain: set up on an interpreter"""

    def __init__(self, I):
        self.I = I
        self.notes = []
        I.max_forks = 40
        for c in (C, K):
            cls = I.get(KMOD + ':' + c)
            for op, f in OPS.items():
                for r in (False, True):
                    d = cls.find('__%s%s__' % ('r' if r else '', op))
                    if d is not None:
                        I.stubs['%s:%s.%s' % (d.module.name, d.cls.name, d.name)] = Native(self.operator(op, f, r))
        I.stubs[PMOD + ':intersection'] = Native(self.intersection)
        I.stubs[UMOD + ':dist'] = Native(lambda I, a, k: self.opaque())
        I.stubs[UMOD + ':isnan'] = Native(self.isnan)
        for f in ('inv', 'pinv'):
            I.stubs['numpy.linalg.' + f] = Native(self.inv)
        I.stubs['numpy.linalg.eigh'] = Native(lambda I, a, k: (self.like(I.toarr(a[0]).a[0]), self.like(I.toarr(a[0]).a)))
        I.stubs['numpy.linalg.eigvalsh'] = Native(lambda I, a, k: self.like(I.toarr(a[0]).a[0]))
        for f in ('norm', 'cond', 'det'):
            I.stubs['numpy.linalg.' + f] = Native(lambda I, a, k: self.opaque())
        I.attrhook = self.observe
        self.reset()

    def reset(self):
        self.n = 0
        self.memo = {}
        del self.notes[:]

    def opaque(self, sign=True):
        """a number about which nothing is known"""
        self.n += 1
        return num(V('o%d' % self.n) if sign else V('o%d' % self.n) - V('O%d' % self.n))

    def like(self, a):
        return mkarr([self.opaque(False) for _ in a.reshape(-1)], a.shape, 'float')

    def inv(self, I, args, kw):
        a = I.toarr(args[0])
        if a.a.ndim != 2:
            raise Abort('inverse of rank %d' % a.a.ndim)
        return self.like(a.a)

    def sel(self, v):
        """value of an interval (or number) for the chosen real system"""
        if is_num(v):
            return term(v)
        if isinstance(v, Inst):
            hook, self.I.attrhook = self.I.attrhook, None
            try:
                e = orc.ends(self.I, v)
            finally:
                self.I.attrhook = hook
            if e is not None:
                if e[1] == e[2]:
                    return e[1]
                key = ('free', id(v))
                if key not in self.memo:
                    self.memo[key] = (term(self.opaque(False)), v)
                return self.memo[key][0]
        raise Abort('no selection of %r' % (v,))

    def make(self, t, *like):
        k = K if any(isinstance(x, Inst) and x.cls.name == K for x in like) else C
        return iv(self.I, k, t, t)

    def operator(self, op, f, refl):
        def run(I, args, kw):
            from ..absint import NOTIMPL
            a, b = args
            if not (isinstance(b, Inst) and b.cls.name in (C, K)) and not is_num(b):
                if isinstance(b, Inst):
                    return I.call(Bound(b.cls.find('__%s%s__' % ('' if refl else 'r', op)), b), [a], {})
                if isinstance(b, Arr):
                    g = (lambda x, y: I.binop(op, y, x)) if refl else (lambda x, y: I.binop(op, x, y))
                    return I.elementwise(g, a, b)
                return NOTIMPL
            s, t = self.sel(a), self.sel(b)
            if refl:
                s, t = t, s
            return self.make(f(s, t), a, b)
        return run

    def observe(self, I, o, name):
        if name not in OBS or not isinstance(o, Inst) or not I.mstack:
            return None
        m = I.mstack[-1]
        if not (m.startswith('intvalpy.linear') or m.startswith('intvalpy.nonlinear') or m == UMOD):
            return None
        if o.cls.name in (C, K):
            return self.number(o, name)
        if o.cls.name == 'ArrayInterval':
            a = I.toarr(o).a
            out = [self.number(x, name) if isinstance(x, Inst) else x for x in a.reshape(-1)]
            return mkarr(out, a.shape, 'float')
        return None

    def number(self, o, name):
        key = (name, self.sel(o))
        if key not in self.memo:
            self.memo[key] = self.opaque(name in ('mag', 'rad', 'wid', 'mig'))
        return self.memo[key]

    def isnan(self, I, args, kw):
        if isinstance(args[0], Inst) and args[0].cls.name == 'ArrayInterval':
            a = I.toarr(args[0]).a
            return mkarr([False] * a.size, a.shape, 'bool')
        return False

    def elements(self, I, v):
        if isinstance(v, Inst) and v.cls.name in (C, K) or is_num(v):
            return [v], None
        a = I.toarr(v).a
        return list(a.reshape(-1)), a.shape

    def intersection(self, I, args, kw):
        (xs, s1), (ys, s2) = self.elements(I, args[0]), self.elements(I, args[1])
        if s1 != s2 or len(xs) != len(ys):
            if s1 is not None and s2 is not None:
                I.throw(AssertionError, 'shapes')
            n = max(len(xs), len(ys))
            xs, ys = (v * n if len(v) == 1 else v for v in (xs, ys))
        out = []
        for x, y in zip(xs, ys):
            p, q = self.sel(x), self.sel(y)
            if p != q:
                st, d = orc.same(p, q, (), I.facts)
                if st == 'violated':
                    self.notes.append('intersects with a set that misses the solution: %s' % d)
                elif st == 'vacuous':
                    raise Abort('infeasible path')
                elif st != 'ok':
                    raise Abort('intersection of %r and %r' % (p, q))
            out.append(self.make(p, x, y))
        if s1 is None and s2 is None:
            return out[0]
        return arr_of(I, out, s1 if s1 is not None else s2)


def verdict(rep, D, I, rule, cons, th, want, cell, limit=200):
    """th gives the solver's result; want: polynomials of the solution"""
    got = 0
    for kind, v, facts, mode in I.run(lambda I: (D.reset(), th(I))[1], limit=limit):
        if kind == 'raise' and isinstance(v.name, str) and v.name not in ('NameError', 'AttributeError', 'UnboundLocalError', 'TypeError', 'IndexError'):
            continue                     # refusal of the system
        if kind == 'raise':
            rep.bad(rule, cons, 'raises %r (%s)' % (v, cell))
            continue
        notes = list(D.notes)
        if kind == 'abort' and v.startswith('infeasible'):
            continue
        if kind == 'abort':
            rep.undecided(rule, cons, '%s (%s)' % (v, cell))
            continue
        got += 1
        if notes:
            rep.bad(rule, cons, '%s (%s)' % (notes[0], cell))
            continue
        xs, _ = D.elements(I, v)
        if len(xs) != len(want):
            rep.bad(rule, cons, '%d components (%s)' % (len(xs), cell))
            continue
        for j, (x, w) in enumerate(zip(xs, want)):
            if not isinstance(x, Inst):
                rep.bad(rule, cons, 'component %d is %r (%s)' % (j, x, cell))
                continue
            st, d = orc.same(D.sel(x), lf(w), (), [])
            rep.add(rule, cons, st, 'component %d is not formed from the data by interval operations that keep the solution: %s (%s)' % (j, d, cell))
    return got


def system(n, neg=()):
    A = [[-V('a%d%d' % (i, j)) if (i, j) in neg else V('a%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    X = [V('x%d' % j) - V('X%d' % j) for j in range(n)]
    b = []
    for row in A:
        s = Poly.const(0)
        for a, x in zip(row, X):
            s = s + a * x
        b.append(s)
    return A, b, X


def ivs(I, ps, shape=None, cls=C):
    return arr_of(I, [iv(I, cls, p, p) for p in ps], shape)


def c05(rep):
    rep.rule = ('abstract interpretation in the domain of selections: every interval is represented by the value it takes for one arbitrary real system '
                'contained in the interval system, interval operations act on these values, every number read off an interval '
                '(midpoint, radius, end, magnitude) and every inverse matrix is an unknown; the value carried by the result must be the solution of the real system')
    stats = Stats()
    I = new_interp(stats, real=True)
    names = [LIN + 'Gauss:Gauss', LIN + 'Gauss_Seidel:Gauss_Seidel', NLE + ':Krawczyk', NLE + ':HansenSengupta']
    need(I, *names)
    I.stubs = dict(I.stubs)
    D = Selection(I)
    # direct elimination
    for n in (1, 2, 3):
        for neg in ((), ((0, 1), (1, 0), (2, 2)), ((0, 0), (2, 1))):
            A, b, X = system(n, neg)
            th = lambda I: I.call(I.get(names[0]), [ivs(I, [p for r in A for p in r], (n, n)), ivs(I, b)], {})
            k = verdict(rep, D, I, 'enclosure', 'Gauss', th, X, '%d unknowns, negative entries %s' % (n, neg))
            if not k:
                rep.undecided('enclosure', 'Gauss', 'no path returns')
    # iteration
    for n in (1, 2, 3):
        A, b, X = system(n)
        for pre in ('own preconditioner', 'matrix', 'interval matrix'):
            if n == 3 and pre != 'matrix':
                continue
            for it in (0, 1, 2):
                def th(I):
                    kw = {'x0': ivs(I, X, cls=K), 'tol': num(V('tol')), 'maxiter': it}
                    if pre == 'matrix':
                        kw['C'] = mkarr([num(V('c%d%d' % (i, j))) for i in range(n) for j in range(n)], (n, n), 'float')
                    elif pre != 'own preconditioner':
                        kw['C'] = ivs(I, [V('c%d%d' % (i, j)) for i in range(n) for j in range(n)], (n, n))
                    return I.call(I.get(names[1]), [ivs(I, [p for r in A for p in r], (n, n)), ivs(I, b)], kw)
                k = verdict(rep, D, I, 'enclosure', 'Gauss_Seidel', th, X, '%d unknowns, %s, maxiter %d' % (n, pre, it))
                if not k:
                    rep.undecided('enclosure', 'Gauss_Seidel', 'no path returns')
    # nonlinear equations: f(x*) = 0 and f(c) = L (c - x*) with L from the Jacobian over the box
    for name in ('Krawczyk', 'HansenSengupta'):
        for n in (0, 1, 2):
            m = max(n, 1)
            X = [V('x%d' % j) - V('X%d' % j) for j in range(m)]
            L = [[V('l%d%d' % (i, j)) for j in range(m)] for i in range(m)]

            def func(I, args, kw):
                els, shp = D.elements(I, args[0])
                s = [D.sel(e) for e in els]
                out = []
                for i in range(m):
                    t = tm.ZERO
                    for j in range(m):
                        t = tm.add(t, tm.mul(lf(L[i][j]), tm.sub(s[j], lf(X[j]))))
                    out.append(t)
                return iv(I, K, out[0], out[0]) if n == 0 else arr_of(I, [iv(I, K, t, t) for t in out])

            def jac(I, args, kw):
                els, shp = D.elements(I, args[0])
                ok = [D.sel(e) for e in els] == [lf(p) for p in X]
                if not ok:
                    return iv(I, K, *[term(D.opaque(False))] * 2) if n == 0 else arr_of(I, [iv(I, K, *[term(D.opaque(False))] * 2) for _ in range(m * m)], (m, m))
                return iv(I, K, L[0][0], L[0][0]) if n == 0 else ivs(I, [p for r in L for p in r], (m, m), K)
            for it in (1, 2):
                def th(I):
                    x0 = iv(I, K, X[0], X[0]) if n == 0 else ivs(I, X, cls=K)
                    return I.call(I.get(NLE + ':' + name), [Native(func), Native(jac), x0], {'maxiter': it, 'tol': num(V('tol'))})
                k = verdict(rep, D, I, 'enclosure', name, th, X, '%s, maxiter %d' % ('scalar equation' if n == 0 else '%d equations' % n, it))
                if not k:
                    rep.undecided('enclosure', name, 'no path returns (%d, %d)' % (n, it))
    rep.note('functions', sorted(f for f in stats.funcs if 'linear' in f))
    rep.floor = 60
