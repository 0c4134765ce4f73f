"""Inputs that do not fit together are refused: sizes (C18) and names of options (C19)."""
import itertools
from fractions import Fraction as F

from .. import terms as tm
from ..absint import Abort, Arr, Ext, Inst, Native, Num, Stats, is_num, mkarr, term
from ..terms import Poly, lf
from .arith import C, K, new_interp
from .recfun import AMOD, LIN, R5, num, vec
from .scalar import V, arr_of, feasible, iv, need

Q = Poly.const
BI = LIN + 'boundary_intervals'
NEW = 'intvalpy.kernel.new_objects'
UT = 'intvalpy.kernel.utils'
PRE = 'intvalpy.kernel.preprocessing'
WI = 'intvalpy.models.WILS'
NL = 'intvalpy.nonlinear.recognizing_functional'


def shape_of(I, a):
    return I.toarr(a).shape


def fresh(I, tag, shape):
    """an array of this shape, entries unknown positive numbers"""
    n = 1
    for d in shape:
        n *= d
    return mkarr([num(V('%s%d' % (tag, i))) for i in range(n)], shape, 'float')


def linalg():
    """the numpy kernels: their demands on the sizes, the sizes of their results, entries unknown"""
    def square(I, s):
        if len(s) != 2:
            I.throw(ValueError, 'dimensions')
        if s[0] != s[1]:
            I.throw(ValueError, 'last 2 dimensions of the array must be square')

    def inv(I, args, kw):
        s = shape_of(I, args[0])
        square(I, s)
        return fresh(I, 'inv', s)

    def solve(I, args, kw):
        s, r = shape_of(I, args[0]), shape_of(I, args[1])
        square(I, s)
        if r[0] != s[0]:
            I.throw(ValueError, 'mismatch')
        return fresh(I, 'sol', r)

    def det(I, args, kw):
        square(I, shape_of(I, args[0]))
        return num(V('det'))

    def svd(I, args, kw):
        s = shape_of(I, args[0])
        return fresh(I, 'sv', (min(s),))

    def lstsq(I, args, kw):
        s, r = shape_of(I, args[0]), shape_of(I, args[1])
        if r[0] != s[0]:
            I.throw(ValueError, 'incompatible dimensions')
        return (fresh(I, 'lsq', (s[1],) + r[1:]), None, None, None)

    def norm(I, args, kw):
        a = I.toarr(args[0])
        s = tm.ZERO
        for v in a.a.reshape(-1):
            s = tm.add(s, tm.absval(term(v)))
        return num(s)

    def optimiser(I, args, kw):
        f = I.get(R5 + ':ralgb5')
        got = dict(zip([a.arg for a in f.node.args.args], args))
        x0 = I.toarr(args[1] if len(args) > 1 else got['x0'])
        r = I.call(args[0], [x0], {})
        return (x0, r[0], 1, 1, 1)
    return {'numpy.linalg.inv': Native(inv), 'numpy.linalg.solve': Native(solve), 'numpy.linalg.det': Native(det), 'numpy.linalg.svd': Native(svd),
            'numpy.linalg.lstsq': Native(lstsq), 'numpy.linalg.norm': Native(norm), R5 + ':ralgb5': Native(optimiser)}


def non_repeat(I, args, kw):
    """rows are kept as they are; the sizes have to fit"""
    a, b = I.toarr(args[0]), I.toarr(args[1])
    k, n = b.a.shape[0], a.a.shape[0]
    if k not in (1, n):
        I.throw(ValueError, 'operands could not be broadcast together')
    if k != n:
        I.throw(IndexError, 'index out of bounds')
    return a, b


def clear_rows(I, args, kw):
    """no row is zero; the sizes have to fit"""
    a, b = I.toarr(args[0]), I.toarr(args[1])
    if a.a.ndim != 2:
        I.throw(ValueError, 'axis 1 is out of bounds')
    a, b = non_repeat(I, [a, b], {})
    return (a, b, True)


def lp():
    def f(I, args, kw):
        c, G, h = (I.toarr(a) for a in args[:3])
        m = c.a.reshape(-1).shape[0]
        if G.a.ndim != 2 or G.shape[1] != m or G.shape[0] != h.a.reshape(-1).shape[0]:
            I.throw(TypeError, 'sizes of the linear programme')
        return {'x': mkarr([num(Q(F(1, 4)))] * m, (m, 1), 'float'), 'status': 'optimal'}
    return {'cvxopt.solvers.lp': Native(f), 'cvxopt.matrix': Native(lambda I, a, k: I.toarr(a[0]))}


def A(I, n, m):
    """a matrix of proper intervals: diagonal entries above two, entries beside it around zero"""
    def e(i, j):
        a, w = V('a%d%d' % (i, j)), V('w%d%d' % (i, j))
        return iv(I, C, Q(F(2)) + a, Q(F(2)) + a + w) if i == j else iv(I, C, -a, w)
    return arr_of(I, [e(i, j) for i in range(n) for j in range(m)], (n, m))


def b(I, n):
    return arr_of(I, [iv(I, C, V('b%d' % i), V('b%d' % i) + V('c%d' % i)) for i in range(n)])


def pt(n, k=1):
    return vec([Q(F(k - 1)) + V('p%d' % i) for i in range(n)])


def pmat(n, m):
    return mkarr([num(V('q%d%d' % (i, j))) for i in range(n) for j in range(m)], (n, m), 'float')


def fn(name):
    return LIN + name + ':' + name


def refused(rep, I, rule, cons, th, cell):
    for kind, v, facts, mode in I.run(th, limit=64):
        if facts and not feasible(facts):
            continue
        if kind == 'abort':
            rep.undecided(rule, cons, '%s (%s)' % (v, cell))
        elif kind == 'raise':
            rep.ok(rule, cons)
        else:
            rep.bad(rule, cons, 'accepted: %s' % cell)


def c18(rep):
    rep.rule = ('abstract interpretation of the exported solvers, optimisers and models on operands of concrete sizes that do not fit together '
                '(right-hand sides shorter, longer and of length one, matrices that are not square, bounds, points and orders of another length): '
                'every path ends in an exception')
    stats = Stats()
    st = linalg()
    st.update(lp())
    st[PRE + ':non_repeat'] = Native(non_repeat)
    st[PRE + ':clear_zero_rows'] = Native(clear_rows)
    I = new_interp(stats, real=True, stubs=st)
    names = ['Gauss', 'HBR', 'Gauss_Seidel', 'Neumaier', 'Rohn', 'Subdiff', 'PPS', 'PSS']
    need(I, *([fn(x) for x in names] + [BI + ':' + x for x in ('lineqs', 'lineqs3D', 'IntLinIncR2', 'IntLinIncR3')] +
              [fn(x) for x in ('Tol', 'Uni', 'Uss', 'ChebNorm')] + [WI + ':WILS', NL + ':Tol', NL + ':Uni', AMOD + ':LinearConstraint', PRE + ':intersection', PRE + ':clear_zero_rows', PRE + ':non_repeat',
                                                                  NEW + ':Shary_system', NEW + ':Toft_system']))
    J = lambda rule, cons, f, cell: refused(rep, I, rule, cons, f, cell)

    # square systems
    sq = {'Gauss': lambda I, a, r: ([a, r], {}), 'HBR': lambda I, a, r: ([a, r], {}), 'Gauss_Seidel': lambda I, a, r: ([a, r], {'maxiter': 2}),
          'Subdiff': lambda I, a, r: ([a, r], {'maxiter': 1}), 'PPS': lambda I, a, r: ([a, r], {'maxiter': 1, 'nu': 0})}
    for name, mk in sq.items():
        for n, m in ((1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1)):
            for k in (n, m):
                def th(I):
                    args, kw = mk(I, A(I, n, m), b(I, k))
                    return I.call(I.get(fn(name)), args, kw)
                J('matrix not square', name, th, '%dx%d, right-hand side of %d' % (n, m, k))
        for n in (2, 3):
            for k in range(1, 5):
                if k != n:
                    def th(I):
                        args, kw = mk(I, A(I, n, n), b(I, k))
                        return I.call(I.get(fn(name)), args, kw)
                    J('right-hand side', name, th, '%dx%d, right-hand side of %d' % (n, n, k))

    # the same calls with sizes that fit do return, otherwise the refusals above say nothing
    def fits(cons, th):
        for k, *_ in I.run(th, limit=64):
            if k not in ('raise', 'abort'):
                rep.ok('accepted when the sizes fit', cons)
                return
        rep.undecided('accepted when the sizes fit', cons, 'no path returns')
    for name in ('Gauss', 'Subdiff'):
        mk = sq[name]

        def th(I):
            args, kw = mk(I, A(I, 2, 2), b(I, 2))
            return I.call(I.get(fn(name)), args, kw)
        fits(name, th)
    for n, m in ((2, 2), (3, 2)):
        fits('Neumaier', lambda I: I.call(I.get(fn('Neumaier')), [A(I, n, m), b(I, n), pt(m), pt(m)], {}))
        for name, meth in (('Tol', 'maximize'), ('Uni', 'maximize'), ('Uss', 'maximize'), ('ChebNorm', 'minimize')):
            fits(name, lambda I: I.call(I.getattr(I.get(fn(name)), meth), [A(I, n, m), b(I, n)], {'x0': pt(m)}))
        for ob in ('Tol', 'Uni', 'Uss'):
            def fit(I):
                o = I.call(I.get(WI + ':WILS'), [], {})
                return I.call(I.getattr(o, 'fit'), [A(I, n, m), b(I, n)], {'objective': ob, 'x0': pt(m)})
            fits('WILS.fit', fit)
        fits('LinearConstraint', lambda I: I.call(I.get(AMOD + ':LinearConstraint'), [pmat(n, 2)], {'lb': pt(n), 'ub': pt(n, 5)}))
    fits('Shary_system', lambda I: I.call(I.get(NEW + ':Shary_system'), [3], {'N': 2}))
    fits('Shary_system', lambda I: I.call(I.get(NEW + ':Shary_system'), [3], {'alpha': num(Q(F(1, 3))), 'beta': num(Q(F(1)))}))
    fits('Toft_system', lambda I: I.call(I.get(NEW + ':Toft_system'), [3], {'r': num(Q(0)), 'R': num(Q(F(1, 2)))}))

    # rectangular systems
    shapes = ((2, 2), (3, 2), (2, 3), (3, 3), (3, 1))
    for n, m in shapes:
        for k in (1, 2, 3, 4):
            if k == n:
                continue
            cell = '%dx%d, right-hand side of %d' % (n, m, k)
            J('right-hand side', 'Neumaier', lambda I: I.call(I.get(fn('Neumaier')), [A(I, n, m), b(I, k), pt(m)], {}), cell)
            for name, meth in (('Tol', 'maximize'), ('Uni', 'maximize'), ('Uss', 'maximize'), ('ChebNorm', 'minimize')):
                for x0 in (None, m):
                    J('right-hand side', '%s.%s' % (name, meth), lambda I: I.call(I.getattr(I.get(fn(name)), meth), [A(I, n, m), b(I, k)], {'x0': pt(m)} if x0 else {}), cell)
            if n >= m > 1:
                J('right-hand side', 'Rohn', lambda I: I.call(I.get(fn('Rohn')), [A(I, n, m), b(I, k)], {'maxiter': 2}), cell)
                J('right-hand side', 'Rohn for the tolerable set', lambda I: I.call(I.get(fn('Rohn')), [A(I, n, m), b(I, k)], {'maxiter': 2, 'consistency': 'tol'}), cell)
            if m > 1:
                J('right-hand side', 'PSS', lambda I: I.call(I.get(fn('PSS')), [A(I, n, m), b(I, k)], {'maxiter': 1, 'nu': 0}), cell)
            if m == 2:
                J('right-hand side', 'IntLinIncR2', lambda I: I.call(I.get(BI + ':IntLinIncR2'), [A(I, n, m), b(I, k)], {'show': False}), cell)
                J('right-hand side', 'lineqs', lambda I: I.call(I.get(BI + ':lineqs'), [pmat(n, m), pt(k)], {'show': False}), cell)
            if m == 3:
                J('right-hand side', 'IntLinIncR3', lambda I: I.call(I.get(BI + ':IntLinIncR3'), [A(I, n, m), b(I, k)], {'show': False}), cell)
                J('right-hand side', 'lineqs3D', lambda I: I.call(I.get(BI + ':lineqs3D'), [pmat(n, m), pt(k)], {'show': False}), cell)
            for ob in ('Tol', 'Uni', 'Uss'):
                def fit(I):
                    o = I.call(I.get(WI + ':WILS'), [], {})
                    return I.call(I.getattr(o, 'fit'), [A(I, n, m), b(I, k)], {'objective': ob, 'x0': pt(m)})
                J('right-hand side', 'WILS.fit', fit, '%s, %s' % (ob, cell))
        for k in (1, 2, 3, 4):
            if k != m:
                cell = '%dx%d, point of %d' % (n, m, k)
                J('point', 'Neumaier', lambda I: I.call(I.get(fn('Neumaier')), [A(I, n, m), b(I, n), pt(k)], {}), cell)
                J('point', 'Neumaier', lambda I: I.call(I.get(fn('Neumaier')), [A(I, n, m), b(I, n), pt(k), pt(k)], {}), cell)
                cell = '%dx%d, weights of %d' % (n, m, k)
                J('weights of the components', 'Neumaier', lambda I: I.call(I.get(fn('Neumaier')), [A(I, n, m), b(I, n), pt(m), pt(k)], {}), cell)
                for name, meth in (('Tol', 'maximize'), ('Uni', 'maximize'), ('Uss', 'maximize'), ('ChebNorm', 'minimize')):
                    cell = '%dx%d, start of %d' % (n, m, k)
                    J('point', '%s.%s' % (name, meth), lambda I: I.call(I.getattr(I.get(fn(name)), meth), [A(I, n, m), b(I, n)], {'x0': pt(k)}), cell)
    # regression models, weights and points of the functionals
    from .models import ISP, ispae_interp, kernels
    I3 = ispae_interp(stats, dict(st))
    fits_of = {'WILS.fit': (I, WI + ':WILS', {}), 'ISPAE.fit': (I3, ISP, {'order': 1, 'bias': False})}
    for name, (J_, cls, base) in fits_of.items():
        def fit(I, n, m, k, **kw):
            o = I.call(I.get(cls), [], {})
            return I.call(I.getattr(o, 'fit'), [A(I, n, m), b(I, k)], dict(base, **kw))
        for ob in ('Tol', 'Uni') + (('Uss',) if name == 'WILS.fit' else ()):
            for norm in ('inf', 'l1'):
                ok = None
                for kind, v, *_ in J_.run(lambda I: fit(I, 2, 2, 2, objective=ob, norm=norm, x0=pt(2), weight=pt(2)), limit=64):
                    if kind not in ('raise', 'abort'):
                        rep.ok('accepted when the sizes fit', name)
                        break
                else:
                    rep.undecided('accepted when the sizes fit', name, '%s %r' % (kind, v))
                for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
                    for k in (1, 2, 3, 4):
                        cell = '%s, %s, %dx%d, %d' % (ob, norm, n, m, k)
                        if k != n and 1 not in (n, k):
                            refused(rep, J_, 'weights', name, lambda I: fit(I, n, m, n, objective=ob, norm=norm, x0=pt(m), weight=pt(k)), 'weights: ' + cell)
                        if k != n:
                            refused(rep, J_, 'right-hand side', name, lambda I: fit(I, n, m, k, objective=ob, norm=norm, x0=pt(m)), 'right-hand side: ' + cell)
                        if k != m:
                            refused(rep, J_, 'point', name, lambda I: fit(I, n, m, n, objective=ob, norm=norm, x0=pt(k)), 'start: ' + cell)
                        if k != m and name == 'ISPAE.fit' and norm == 'inf':
                            refused(rep, J_, 'orders', name, lambda I: fit(I, n, m, n, objective=ob, x0=pt(m), order=[1] * k), 'orders: ' + cell)
                if name == 'ISPAE.fit':
                    for bad in (0, [1, 0], [0, 1], -1):
                        refused(rep, J_, 'orders', name, lambda I: fit(I, 2, 2, 2, objective=ob, norm=norm, order=bad), 'order %r' % (bad,))
    for name, meth in (('Tol', 'maximize'), ('Uni', 'maximize'), ('Uss', 'maximize'), ('ChebNorm', 'minimize')):
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
            for k in (1, 2, 3, 4):
                if k != n and 1 not in (n, k):
                    J('weights', '%s.%s' % (name, meth), lambda I: I.call(I.getattr(I.get(fn(name)), meth), [A(I, n, m), b(I, n)], {'x0': pt(m), 'weight': pt(k)}), '%dx%d, weights %d' % (n, m, k))
                    J('weights', '%s.value' % name, lambda I: I.call(I.getattr(I.get(fn(name)), 'value'), [A(I, n, m), b(I, n), pt(m)], {'weight': pt(k)}), '%dx%d, weights %d' % (n, m, k))
                if k != n:
                    J('right-hand side', '%s.value' % name, lambda I: I.call(I.getattr(I.get(fn(name)), 'value'), [A(I, n, m), b(I, k), pt(m)], {}), '%dx%d, right-hand side %d' % (n, m, k))
                if k != m:
                    J('point', '%s.value' % name, lambda I: I.call(I.getattr(I.get(fn(name)), 'value'), [A(I, n, m), b(I, n), pt(k)], {}), '%dx%d, point %d' % (n, m, k))
    for n, m in ((1, 2), (2, 3), (1, 3)):
        J('fewer rows than columns', 'Rohn', lambda I: I.call(I.get(fn('Rohn')), [A(I, n, m), b(I, n)], {'maxiter': 2}), '%dx%d' % (n, m))
    # numbers of columns of the pictures
    for n, m in ((2, 1), (2, 3), (3, 3), (4, 4), (1, 1)):
        J('columns', 'IntLinIncR2', lambda I: I.call(I.get(BI + ':IntLinIncR2'), [A(I, n, m), b(I, n)], {'show': False}), '%d columns' % m)
        J('columns', 'lineqs', lambda I: I.call(I.get(BI + ':lineqs'), [pmat(n, m), pt(n)], {'show': False}), '%d columns' % m)
    for n, m in ((2, 1), (3, 2), (2, 2), (4, 4), (3, 4)):
        J('columns', 'IntLinIncR3', lambda I: I.call(I.get(BI + ':IntLinIncR3'), [A(I, n, m), b(I, n)], {'show': False}), '%d columns' % m)
        J('columns', 'lineqs3D', lambda I: I.call(I.get(BI + ':lineqs3D'), [pmat(n, m), pt(n)], {'show': False}), '%d columns' % m)
    # half-spaces given as intervals
    for nm, m in (('lineqs', 2),):
        J('interval system', nm, lambda I: I.call(I.get(BI + ':' + nm), [A(I, 3, m), pt(3)], {'show': False}), 'interval matrix')
        J('interval system', nm, lambda I: I.call(I.get(BI + ':' + nm), [pmat(3, m), b(I, 3)], {'show': False}), 'interval right-hand side')
    # constraints
    for n, k in itertools.product((1, 2, 3), (1, 2, 3, 4)):
        if n != k:
            for side in ('lb', 'ub'):
                J('bounds', 'LinearConstraint', lambda I: I.call(I.get(AMOD + ':LinearConstraint'), [pmat(n, 2)], {side: pt(k)}), '%d rows, %s of %d' % (n, side, k))
                J('bounds', 'LinearConstraint', lambda I: I.call(I.get(AMOD + ':LinearConstraint'), [pmat(n, 2)], {side: pt(k), {'lb': 'ub', 'ub': 'lb'}[side]: pt(n, 5)}),
                  '%d rows, %s of %d, the other fitting' % (n, side, k))
    # intersections
    for s, t in (((1,), (2,)), ((2,), (1,)), ((2,), (3,)), ((2, 2), (2,)), ((2,), (2, 2)), ((2, 2), (2, 1)), ((1, 2), (2, 2)), ((2, 3), (3, 2))):
        def th(I):
            f = lambda sh: arr_of(I, [iv(I, C, Q(0), Q(F(3 + i))) for i in range(sh[0] * (sh[1] if len(sh) > 1 else 1))], sh)
            return I.call(I.get(PRE + ':intersection'), [f(s), f(t)], {})
        J('shapes', 'intersection', th, '%s and %s' % (s, t))
    # nonlinear functionals
    model = Native(lambda I, args, kw: I.binop('mul', args[0], I.getitem(args[1], 0)))
    grad = Native(lambda I, args, kw: args[0])
    for name in ('Tol', 'Uni'):
        for n, k in itertools.product((1, 2, 3), (1, 2, 3, 4)):
            if n != k:
                J('right-hand side', 'nonlinear ' + name + '.value', lambda I: I.call(I.getattr(I.get(NL + ':' + name), 'value'), [model, b(I, n), b(I, k), pt(1)], {}),
                  '%d inputs, %d outputs' % (n, k))
                J('right-hand side', 'nonlinear ' + name + '.maximize', lambda I: I.call(I.getattr(I.get(NL + ':' + name), 'maximize'), [model, [grad], b(I, n), b(I, k), pt(1)], {}),
                  '%d inputs, %d outputs' % (n, k))
    # parameters of the test systems
    for n in (2, 3, 4):
        for d in (2, 3):
            J('parameters', 'Shary_system', lambda I: I.call(I.get(NEW + ':Shary_system'), [n], {'N': n - d}), 'n=%d, N=%d' % (n, n - d))
        for al, be in ((F(-1, 5), F(1, 2)), (F(1, 2), F(1, 4)), (F(1, 2), F(3, 2)), (F(-3), F(-2)), (F(6, 5), F(7, 5))):
            J('parameters', 'Shary_system', lambda I: I.call(I.get(NEW + ':Shary_system'), [n], {'alpha': num(Q(al)), 'beta': num(Q(be))}), 'n=%d, %s, %s' % (n, al, be))
        for kw in ({'r': F(-1, 7)}, {'R': F(-1, 7)}, {'r': F(-1, 7), 'R': F(1)}, {'r': F(1), 'R': F(-2)}):
            J('parameters', 'Toft_system', lambda I: I.call(I.get(NEW + ':Toft_system'), [n], {k: num(Q(v)) for k, v in kw.items()}), 'n=%d, %s' % (n, kw))
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 200


# --------------------------------------------------------------------------- names
WRONG = ('', 'UNI', 'Tolerance', 'weak', 'un', 'i', 'tol ', 'both')


def c19(rep):
    rep.rule = ('abstract interpretation with option strings outside the documented lists, numpy functions that are not provided and forms of numpy functions other than the plain call: '
                'every path ends in an exception')
    stats = Stats()
    st = linalg()
    st.update(lp())
    empty = Native(lambda I, args, kw: mkarr([], (0, 3), 'float'))
    st[BI + ':lineqs'] = empty
    st[BI + ':lineqs3D'] = empty
    I = new_interp(stats, real=True, stubs=st)
    need(I, fn('Rohn'), BI + ':IntLinIncR2', BI + ':IntLinIncR3', WI + ':WILS', 'intvalpy.models.ISPAE:ISPAE', UT + ':dist')
    J = lambda rule, cons, f, cell: refused(rep, I, rule, cons, f, cell)

    def known(cons, th):
        for k, *_ in I.run(th, limit=64):
            if k not in ('raise', 'abort'):
                rep.ok('known names are accepted', cons)
                return
        rep.undecided('known names are accepted', cons, 'no path returns')
    # kinds of solution sets
    routes = {'Rohn': lambda I, s: I.call(I.get(fn('Rohn')), [A(I, 3, 2), b(I, 3)], {'maxiter': 2, 'consistency': s}),
              'IntLinIncR2': lambda I, s: I.call(I.get(BI + ':IntLinIncR2'), [A(I, 2, 2), b(I, 2)], {'show': False, 'consistency': s}),
              'IntLinIncR3': lambda I, s: I.call(I.get(BI + ':IntLinIncR3'), [A(I, 2, 3), b(I, 2)], {'show': False, 'consistency': s})}
    for name, f in routes.items():
        for s in WRONG + ('Uni', 'Tol', 'uss', None, 0, 1):
            J('kind of solution set', name, lambda I: f(I, s), repr(s))
        for s in ('uni', 'tol'):
            known(name, lambda I: f(I, s))

    # models
    def wils(I, ob, nm):
        o = I.call(I.get(WI + ':WILS'), [], {})
        return I.call(I.getattr(o, 'fit'), [A(I, 3, 2), b(I, 3)], {'objective': ob, 'norm': nm, 'x0': pt(2)})
    for ob in ('Tol', 'Uni', 'Uss'):
        for nm in ('inf', 'l1'):
            known('WILS.fit', lambda I: wils(I, ob, nm))
        for nm in WRONG + ('l2', 'L1', 'Inf', None, 1, 2):
            J('norm', 'WILS.fit', lambda I: wils(I, ob, nm), '%s, %r' % (ob, nm))
    for ob in WRONG + ('tol', 'uni', 'uss', 'TOL', 'Cheb', None, 0):
        J('objective', 'WILS.fit', lambda I: wils(I, ob, 'inf'), repr(ob))
    ISP = 'intvalpy.models.ISPAE:ISPAE'
    for nm in WRONG + ('l2', 'L1', 'Inf', None, 1, 2):
        J('norm', 'ISPAE', lambda I: I.call(I.getattr(I.call(I.get(ISP), [], {}), '_wrap_norm'), [pt(3), nm], {}), repr(nm))
    for nm in ('inf', 'l1'):
        known('ISPAE', lambda I: I.call(I.getattr(I.call(I.get(ISP), [], {}), '_wrap_norm'), [pt(3), nm], {}))
    for s in WRONG + ('Monom', 'monomial', 'power', 'fourier', None, 0):
        J('basis', 'ISPAE', lambda I: I.call(I.get(ISP), [], {'basis': s}), repr(s))
    for s in ('monom', 'chebyshev', 'hermite', 'laguerre', 'legendre'):
        known('ISPAE', lambda I: I.call(I.get(ISP), [], {'basis': s}))
    # metric
    for s in ('cheb', '', 'inf', None):
        J('order of the metric', 'dist', lambda I: I.call(I.get(UT + ':dist'), [b(I, 2), b(I, 2)], {'order': s}), repr(s))
    J('order of the metric', 'dist', lambda I: I.call(I.get(UT + ':dist'), [b(I, 2), b(I, 2)], {'order': num(Q(F(3, 2)))}), '1.5')
    for s in (1, 2):
        known('dist', lambda I: I.call(I.get(UT + ':dist'), [b(I, 2), b(I, 2)], {'order': s}))

    # numpy functions
    def uf(I, name, how, *args):
        for x in args:
            if isinstance(x, Inst) and x.cls.find('__array_ufunc__') is not None:
                return I.call(I.getattr(x, '__array_ufunc__'), [Ext('numpy.' + name), how] + list(args), {})
        raise Abort('no operand of the library')
    kinds = {'scalar': lambda I: iv(I, C, Q(F(1)), Q(F(2))), 'Kaucher scalar': lambda I: iv(I, K, Q(F(2)), Q(F(1))), 'array': lambda I: b(I, 2), 'matrix': lambda I: A(I, 2, 2)}
    for kn, mk in kinds.items():
        for u in ('tan', 'arctan', 'sinh', 'cosh', 'tanh', 'log2', 'log10', 'log1p', 'exp2', 'expm1', 'cbrt', 'floor', 'ceil', 'rint', 'sign', 'negative', 'absolute',
                  'square', 'reciprocal', 'isnan', 'isfinite', 'conjugate', 'arcsin', 'arccos', 'deg2rad'):
            if u in PROVIDED:
                continue
            J('numpy function', '%s of numpy' % kn, lambda I: uf(I, u, '__call__', mk(I)), u)
        for u in ('maximum', 'minimum', 'power', 'floor_divide', 'mod', 'remainder', 'hypot', 'arctan2', 'logaddexp', 'fmod', 'copysign', 'logical_and', 'bitwise_and', 'heaviside'):
            J('numpy function', '%s of numpy' % kn, lambda I: uf(I, u, '__call__', mk(I), mk(I)), u)
            J('numpy function', '%s of numpy' % kn, lambda I: uf(I, u, '__call__', num(Q(F(3)), 'np'), mk(I)), u)
    for kn in ('array', 'matrix'):
        mk = kinds[kn]
        for u in ('add', 'subtract', 'multiply', 'true_divide', 'divide', 'matmul', 'sqrt', 'exp', 'log', 'sin', 'cos'):
            un = u in ('sqrt', 'exp', 'log', 'sin', 'cos')
            J('form of a numpy function', '%s.at' % u, lambda I: uf(I, u, 'at', mk(I), vec_int([0, 1])) if un else uf(I, u, 'at', mk(I), vec_int([0, 1]), mk(I)), kn)
            if not un:
                J('form of a numpy function', '%s.outer' % u, lambda I: uf(I, u, 'outer', mk(I), mk(I)), kn)
                J('form of a numpy function', '%s.outer' % u, lambda I: uf(I, u, 'outer', pt(2) if kn == 'array' else pmat(2, 2), mk(I)), kn)
                J('form of a numpy function', '%s.reduceat' % u, lambda I: uf(I, u, 'reduceat', mk(I), vec_int([0, 1])), kn)
                J('form of a numpy function', '%s.reduce' % u, lambda I: uf(I, u, 'reduce', mk(I)), kn)
                J('form of a numpy function', '%s.accumulate' % u, lambda I: uf(I, u, 'accumulate', mk(I)), kn)
            known('plain call', lambda I: uf(I, u, '__call__', mk(I)) if un else uf(I, u, '__call__', mk(I), mk(I)))
    rep.note('functions', sorted(stats.funcs))
    rep.floor = 200


PROVIDED = ('sqrt', 'exp', 'log', 'sin', 'cos')


def vec_int(xs):
    return mkarr(list(xs), (len(xs),), 'int')
