"""Class closure, copies and aliasing, shape metadata and indexing, vertices, generated systems, norms."""
import itertools
from fractions import Fraction as F

import numpy as np

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Ext, Inst, Num, Stats, is_num, mkarr, term
from ..oracle import KMOD
from ..terms import Poly, lf
from .arith import C, K, NICE, SYM, SCALAR_PAIRS, ARRAY_PAIRS, cells_for, generic_only, new_interp, operand
from .lift import CELLS, cell_iv, check_paths, eldata, flat, is_array, shape_of, sig
from .modes import PROPS, UFUN
from .scalar import RMOD, PMOD, UMOD, EMOD, V, arr_of, feasible, iv, need

NMOD = 'intvalpy.kernel.new_objects'


# --------------------------------------------------------------------------- closure
def c12(rep):
    rep.rule = ('abstract interpretation of every operation on scalar intervals, observing each construction of an interval of the classical '
                'class: its lower end is not above its upper end on any feasible path; and an operation whose operands are all '
                'classical gives a classical result')
    stats = Stats()
    I = new_interp(stats)
    made = []
    I.hooks['construct'] = lambda interp, cls, args, inst: made.append((cls.name, inst)) if cls.name in (C, K) else None
    need(I, KMOD + ':' + C, KMOD + ':' + K)

    def judge(cons, th, cell, closed):
        def run(I):
            del made[:]
            r = th(I)
            es = []
            for n, inst in made:
                e = orc.ends(I, inst)
                if e is not None:
                    es.append(e)
            d = eldata(I, r)
            rs = [r] if d is None else d[1]
            return es, [orc.ends(I, x) for x in rs]
        for kind, v, facts, mode in I.run(run):
            if kind == 'abort':
                rep.undecided('closure', cons, '%s: %s' % (cell, v))
                continue
            if kind == 'raise':
                continue
            es, rs = v
            seen = set()
            for n, a, b in es:
                if n != C or (a, b) in seen:
                    continue
                seen.add((a, b))
                sa, sb = orc.strip(a), orc.strip(b)
                if not facts and tm.prove_le(sa, sb):
                    rep.ok('order', cons)
                    continue
                st, d = 'ok', ''
                vs = orc.tvars(sa) | orc.tvars(sb)
                for f in facts:
                    if f[0] in orc.OPS:
                        vs |= orc.tvars(f[1]) | orc.tvars(f[2])
                for pt in orc.points(vs, 14):
                    ev = tm.Eval(pt)
                    try:
                        if orc.facts_hold([f for f in facts if f[0] in orc.OPS], ev) is not True:
                            continue
                        x, y = ev(sa).c, ev(sb).c
                        if x == tm.NAN or y == tm.NAN:
                            continue
                        if tm._lt(y, x) and not (not isinstance(x, str) and not isinstance(y, str) and x - y <= 64 * tm.ulp(x)):
                            st, d = 'violated', 'a classical interval is built from %r, %r: %s above %s at %s (%s)' % (
                                a, b, tm.show(x), tm.show(y), {k: float(z) for k, z in pt.items()}, cell)
                            break
                    except tm.Huge:
                        continue
                    except tm.Undef as e:
                        st, d = 'undecided', str(e)
                        break
                rep.add('order', cons, st, d)
            if closed:
                for r in rs:
                    if r is not None:
                        rep.add('closure', cons, 'ok' if r[0] == C else 'violated', 'classical operands give a %s (%s)' % (r[0], cell))

    kinds = {'C', 'Ci', 'float', 'int', 'npfloat', 'npint', 'ndarray', 'AI', 'oarray', 'list'}
    for op in SYM:
        for ka, kb in SCALAR_PAIRS + ARRAY_PAIRS[:12]:
            for ca, cb in itertools.product(cells_for(ka, 'x'), cells_for(kb, 'y', recip=op == 'truediv')):
                judge('%s %s %s' % (NICE[ka], SYM[op], NICE[kb]),
                      lambda I: I.binop(op, operand(I, ka, ca[1], ca[2]), operand(I, kb, cb[1], cb[2])),
                      'cell %s,%s' % (ca[0], cb[0]), ka in kinds and kb in kinds)
    for k in ('C', 'K', 'Ci', 'Ki'):
        for cn, a, b in cells_for(k, 'x'):
            x = lambda I: operand(I, k, a, b)
            cl = k in kinds
            for n in range(0, 5):
                judge('%s ** natural' % NICE[k], lambda I: I.binop('pow', x(I), n), 'cell %s, exponent %d' % (cn, n), cl)
            for f in UFUN:
                judge('%s(%s)' % (f, NICE[k]), lambda I: I.call(Ext('numpy.' + f), [x(I)], {}), 'cell ' + cn, cl)
            for p in PROPS:
                judge('%s.%s' % (NICE[k], p), lambda I: I.getattr(x(I), p), 'cell ' + cn, cl and p in ('pro',))
            for nm, f in (('-', lambda I: I.unary('neg', x(I))), ('abs', lambda I: I.abs_(x(I))),
                          ('copy', lambda I: I.call(I.getattr(x(I), 'copy'), [], {})), ('to_float', lambda I: I.call(I.getattr(x(I), 'to_float'), [], {}))):
                judge('%s(%s)' % (nm, NICE[k]), lambda I: f(I), 'cell ' + cn, cl)
    rep.note('functions', len(stats.funcs))
    rep.floor = 3000


# --------------------------------------------------------------------------- copies
def sigs(I, v):
    d = eldata(I, v)
    return None if d is None else (tuple(d[0]), [sig(I, x) for x in d[1]])


def mat(I, shape=(2, 2), pfx='x'):
    n = int(np.prod(shape))
    return arr_of(I, [cell_iv(I, 'm+~-'[i % 4], pfx + str(i)) for i in range(n)], shape)


def c25(rep):
    rep.rule = ('abstract interpretation with object identity and buffer aliasing: a copy or deep copy (and the result of an operation) is changed '
                'element by element and in place, and the elements of the original must keep their ends; an in-place operation '
                'keeps the identity of its target and leaves the other operand alone')
    stats = Stats()
    I = new_interp(stats)
    need(I, RMOD + ':ArrayInterval')
    new = lambda I: cell_iv(I, '+', 'z')
    key = {1: 0, 2: (0, 1)}
    ways = {
        'copy()': lambda I, x: I.call(I.getattr(x, 'copy'), [], {}),
        'copy.deepcopy': lambda I, x: I.call(Ext('copy.deepcopy'), [x], {}),
        'x + 0': lambda I, x: I.binop('add', x, 0),
        'x * 1': lambda I, x: I.binop('mul', x, 1),
        '-x': lambda I, x: I.unary('neg', x),
        'to_float': lambda I, x: I.call(I.getattr(x, 'to_float'), [], {}),
        'dual': lambda I, x: I.getattr(x, 'dual'),
        'pro': lambda I, x: I.getattr(x, 'pro'),
        'opp': lambda I, x: I.getattr(x, 'opp'),
        'T': lambda I, x: I.getattr(x, 'T'),
        'reshape': lambda I, x: I.call(I.getattr(x, 'reshape'), [tuple(eldata(I, x)[0])], {}),
        'x[:]': lambda I, x: I.getitem(x, slice(None)),
        'x[::-1]': lambda I, x: I.getitem(x, slice(None, None, -1)),
        'abs(x)': lambda I, x: I.call(Ext('builtins.abs'), [x], {}),
        '1 * x': lambda I, x: I.binop('mul', 1, x),
        'x - 0': lambda I, x: I.binop('sub', x, 0),
        'x ** 1': lambda I, x: I.binop('pow', x, 1),
        'asinterval of the elements': lambda I, x: I.call(I.get(PMOD + ':asinterval'), [I.getattr(x, 'data')], {}),
        'intersection with itself': lambda I, x: I.call(I.get(PMOD + ':intersection'), [x, x], {}),
    }
    for shape in ((2,), (2, 2)):
        for nm, f in ways.items():
            for wn, w in (('assigning an element', lambda I, y: I.setitem(y, key[len(shape)], new(I))),
                          ('assigning a row', lambda I, y: I.setitem(y, 0, new(I))),
                          ('assigning a number', lambda I, y: I.setitem(y, 1, 3.5)),
                          ('assigning a slice', lambda I, y: I.setitem(y, slice(None), arr_of(I, [new(I)] * 2) if len(shape) == 1 else mat(I, shape, 'z'))),
                          ('+=', lambda I, y: I.iop('add', y, new(I))),
                          ('*=', lambda I, y: I.iop('mul', y, new(I))),
                          ('deleting', lambda I, y: I.delitem(y, 0))):
                def th(I):
                    x = mat(I, shape)
                    before = sigs(I, x)
                    y = f(I, x)
                    if y is x:
                        return 'the result is the operand itself'
                    w(I, y)
                    after = sigs(I, x)
                    return True if before == after else 'the original changed from %s to %s' % (before, after)
                for kind, v, facts, mode in I.run(th):
                    cons = '%s then %s' % (nm, wn)
                    if kind == 'abort':
                        rep.undecided('independent copy', cons, v)
                    elif kind == 'raise':
                        rep.bad('independent copy', cons, 'raises %r' % (v,))
                    else:
                        rep.add('independent copy', cons, 'ok' if v is True else 'violated', '%s' % (v,))
    # in-place operators: identity of the target, other operand untouched
    for op in ('add', 'sub', 'mul', 'truediv'):
        for other in ('array', 'interval', 'number'):
            def th(I):
                x = mat(I, (2,))
                alias = x
                y = arr_of(I, [cell_iv(I, '+', 'u'), cell_iv(I, '+', 'v')]) if other == 'array' else cell_iv(I, '+', 'u') if other == 'interval' else 2.5
                by = sigs(I, y) if other == 'array' else (sig(I, y) if other == 'interval' else None)
                want = sigs(I, I.binop(op, x, y))
                r = I.iop(op, x, y)
                if r is not alias:
                    return 'the target is replaced by a new object'
                got = sigs(I, r)
                ay = sigs(I, y) if other == 'array' else (sig(I, y) if other == 'interval' else None)
                if by != ay:
                    return 'the right operand changed'
                return True if [g[1:] for g in got[1]] == [w[1:] for w in want[1]] else 'in-place result %s differs from %s' % (got, want)
            for kind, v, facts, mode in I.run(th):
                cons = '%s= with %s' % (SYM[op], other)
                if kind == 'abort':
                    rep.undecided('in place', cons, v)
                elif kind == 'raise':
                    rep.bad('in place', cons, 'raises %r' % (v,))
                else:
                    rep.add('in place', cons, 'ok' if v is True else 'violated', '%s' % (v,))
    # scalar intervals: copies have the same ends; operations never change an operand
    for cls in (C, K):
        lo, hi = CELLS['~' if cls == K else 'm']('x')
        for nm, f in (('copy()', lambda I, x: I.call(I.getattr(x, 'copy'), [], {})), ('to_float()', lambda I, x: I.call(I.getattr(x, 'to_float'), [], {}))):
            for kind, v, facts, mode in I.run(lambda I: orc.ends(I, f(I, iv(I, cls, lo, hi)))):
                good = kind == 'value' and v == (cls, lf(lo), lf(hi))
                rep.add('independent copy', '%s of a scalar' % nm, 'undecided' if kind == 'abort' else 'ok' if good else 'violated', '%r' % (v,))
        for op in SYM:
            for other in ('interval', 'number', 'array'):
                def th(I):
                    x = iv(I, cls, lo, hi)
                    y = cell_iv(I, '+', 'u') if other == 'interval' else 2.5 if other == 'number' else arr_of(I, [cell_iv(I, '+', 'u'), cell_iv(I, '+', 'v')])
                    for a, b in ((x, y), (y, x)):
                        try:
                            I.binop(op, a, b)
                        except Exception as e:
                            if isinstance(e, Abort):
                                raise
                    return orc.ends(I, x)
                for kind, v, facts, mode in I.run(th):
                    good = kind != 'value' or v == (cls, lf(lo), lf(hi))
                    rep.add('operand unchanged', '%s %s %s' % (NICE[cls[0]], SYM[op], other), 'undecided' if kind == 'abort' else 'ok' if good else 'violated', '%r' % (v,))
    rep.floor = 60


# --------------------------------------------------------------------------- shape metadata and indexing
def c28(rep):
    rep.rule = ('abstract interpretation of the container protocol of interval arrays: after construction, indexing, slicing, assignment, '
                'transposition, reshaping, deletion, in-place arithmetic, conversion, iteration and reversal, the elements are those of the same operation on a plain '
                'array of the elements, and shape, number of axes, axis ranges and length describe them')
    stats = Stats()
    I = new_interp(stats)
    need(I, RMOD + ':ArrayInterval')

    def model(shape):
        return np.arange(int(np.prod(shape))).reshape(shape)

    def build(I, shape):
        return arr_of(I, [iv(I, C, V('x%d' % i), V('x%d' % i) + V('w')) for i in range(int(np.prod(shape)))], shape)

    def want_of(m, extra=None):
        return [('x%d' % i) for i in np.asarray(m).reshape(-1)]

    def meta(I, r, m):
        """compare array r with index model m (numpy array of element numbers)"""
        m = np.asarray(m)
        if m.ndim == 0:
            e = orc.ends(I, r)
            if e is None:
                return 'the result is %r, not an interval' % (r,)
            return True if e[1] == lf(V('x%d' % int(m))) else 'element is %r, expected element %d' % (e, int(m))
        if not is_array(r):
            return 'the result is %r, not an interval array' % (r,)
        d = eldata(I, r)
        if tuple(d[0]) != m.shape:
            return 'shape %s, expected %s' % (d[0], m.shape)
        for p, w in (('shape', m.shape), ('ndim', m.ndim)):
            g = I.getattr(r, p)
            if g != w:
                return 'reported %s is %r, expected %r' % (p, g, w)
        rg = I.getattr(r, 'ranges')
        if [tuple(x) for x in rg] != [tuple(range(k)) for k in m.shape]:
            return 'reported ranges %r for shape %s' % (rg, m.shape)
        n = I.call(Ext('builtins.len'), [r], {})
        if n != m.shape[0]:
            return 'length %r for shape %s' % (n, m.shape)
        for x, i in zip(d[1], m.reshape(-1)):
            e = orc.ends(I, x)
            if e is None or e[1] != lf(V('x%d' % int(i))) and int(i) >= 0:
                return 'element %r where element %d is expected' % (e, int(i))
        return True

    def seq(I, got, want):
        if len(got) != len(want):
            return '%d items instead of %d' % (len(got), len(want))
        for g, w in zip(got, want):
            if np.ndim(w) == 0:
                e = orc.ends(I, g)
                if e is None or e[1] != lf(V('x%d' % int(w))):
                    return 'item %r where element %d is expected' % (e, int(w))
            else:
                d = eldata(I, g)
                if d is None or tuple(d[0]) != np.shape(w):
                    return 'item %r where a row is expected' % (g,)
                for x, i in zip(d[1], np.asarray(w).reshape(-1)):
                    if orc.ends(I, x)[1] != lf(V('x%d' % int(i))):
                        return 'wrong element'
        return True

    def case(cons, th):
        for kind, v, facts, mode in I.run(th):
            if kind == 'abort':
                rep.undecided('container', cons, v)
            elif kind == 'raise':
                rep.bad('container', cons, 'raises %r' % (v,))
            else:
                rep.add('container', cons, 'ok' if v is True else 'violated', '%s' % (v,))

    for shape in ((3,), (2, 3), (3, 3), (2, 3, 2)):
        m0 = model(shape)
        tag = 'x'.join(map(str, shape))
        case('construction ' + tag, lambda I: meta(I, build(I, shape), m0))
        idx = [0, 2 if shape[0] > 2 else 1, -1, slice(None), slice(1, None), slice(None, None, -1), slice(0, 2), slice(None, None, 2)]
        if len(shape) == 2:
            idx += [(0, 1), (1, -1), (slice(None), 1), (0, slice(None)), (slice(1, None), slice(None, 2)), (slice(None), slice(None, None, -1))]
        for k in idx:
            case('getitem %s' % (k,), lambda I: meta(I, I.getitem(build(I, shape), k), m0[k]))
        if len(shape) == 3:
            idx += [(0, 1), (1, 2, 0), (slice(None), 1), (slice(None), slice(None, None, -1), 1), (Ellipsis, 0), (0, slice(1, None))]
        for k in ([0, 1], [1, 0], [1, 1]):
            case('getitem list', lambda I: meta(I, I.getitem(build(I, shape), list(k)), m0[k]))
        for k in idx:
            for what in ('interval', 'number', 'array', 'float array'):
                m1 = m0.copy()
                sub = m0[k]
                if what in ('array', 'float array') and np.ndim(sub) == 0:
                    continue

                def th(I):
                    x = build(I, shape)
                    if what == 'interval':
                        val = iv(I, C, V('x90'), V('x90') + V('w'))
                        m1[k] = 90
                    elif what == 'number':
                        val = Num(lf(V('x91')), 'float')
                        m1[k] = 91
                    elif what == 'array':
                        val = arr_of(I, [iv(I, C, V('x%d' % (100 + i)), V('x%d' % (100 + i)) + V('w')) for i in range(sub.size)], sub.shape)
                        m1[k] = np.arange(100, 100 + sub.size).reshape(sub.shape)
                    else:
                        val = mkarr([Num(lf(V('x%d' % (100 + i))), 'np') for i in range(sub.size)], sub.shape, 'float')
                        m1[k] = np.arange(100, 100 + sub.size).reshape(sub.shape)
                    I.setitem(x, k, val)
                    return meta(I, x, m1)
                case('setitem %s' % what, th)
        dels = [0, 1, -1, slice(0, 2), slice(1, None), [0, 1], [1]]
        dels += [(0,), (1,), (-1,), ([0, 1],)]
        if len(shape) >= 2:
            dels += [(slice(None), 0), (slice(None), 1), (slice(None), -1), (slice(None), slice(0, 2))]
        if len(shape) == 3:
            dels += [(slice(None), slice(None), 0), (slice(None), slice(None), -1)]
        for k in dels:
            def th(I):
                x = build(I, shape)
                I.delitem(x, k)
                if isinstance(k, tuple):
                    w = np.delete(m0, k[-1], axis=len(k) - 1)
                else:
                    w = np.delete(m0, k, axis=0)
                return meta(I, x, w)
            case('delitem %s' % (type(k).__name__), th)
        case('delitem twice', lambda I: (lambda x: (I.delitem(x, 0), I.delitem(x, 0), meta(I, x, np.delete(np.delete(m0, 0, axis=0), 0, axis=0)))[2])(build(I, shape))
             if shape[0] > 2 else True)
        case('T ' + tag, lambda I: meta(I, I.getattr(build(I, shape), 'T'), m0.T))
        if len(shape) > 1:
            n = int(np.prod(shape))
            for sh in ((n,), shape[::-1], (1, n), (n, 1), (-1,)):
                case('reshape', lambda I: meta(I, I.call(I.getattr(build(I, shape), 'reshape'), [sh], {}), m0.reshape(sh)))

        case('iteration', lambda I: seq(I, list(I.iterate(build(I, shape))), list(m0)))
        case('reversed', lambda I: seq(I, list(I.iterate(I.call(Ext('builtins.reversed'), [build(I, shape)], {}))), list(m0[::-1])))
        case('copy ' + tag, lambda I: meta(I, I.call(I.getattr(build(I, shape), 'copy'), [], {}), m0))
        case('to_float ' + tag, lambda I: meta(I, I.call(I.getattr(build(I, shape), 'to_float'), [], {}), m0))
        case('asinterval(array) ' + tag, lambda I: meta(I, I.call(I.get(PMOD + ':asinterval'), [build(I, shape)], {}), m0))

        # in-place operations that change the shape by broadcasting keep the metadata in step
        def grow(I):
            x = build(I, (3,))
            y = mkarr([Num(lf(0), 'np')] * 6, (2, 3), 'float')
            r = I.iop('add', x, y)
            return meta(I, r, np.array([[0, 1, 2], [0, 1, 2]]))
        case('in-place broadcasting', grow)

    rep.floor = 120


# --------------------------------------------------------------------------- vertices
def c29(rep):
    rep.rule = ('abstract interpretation of the vertex enumeration for interval vectors and matrices with distinct symbolic ends: the rows are exactly '
                'all combinations of lower and upper ends, each once; higher ranks are refused')
    stats = Stats()
    I = new_interp(stats)
    need(I, RMOD + ':ArrayInterval')
    for shape in ((1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3)):
        n = int(np.prod(shape))
        cons = 'vertex of shape %s' % 'x'.join(map(str, shape))
        for inv in (False, True, 'mixed', 'mixed other'):
            def th(I):
                els = []
                for i in range(n):
                    lo, hi = V('x%d' % i), V('x%d' % i) + V('w')
                    if isinstance(inv, str):
                        # whole ends on one side, fractional ends on the other
                        ty = ('int', 'float') if inv == 'mixed' else ('float', 'int')
                        els.append(I.call(I.get(KMOD + ':' + C), [Num(lf(lo), ty[0]), Num(lf(hi), ty[1])], {}))
                        continue
                    els.append(iv(I, K, hi, lo) if inv else iv(I, C, lo, hi))
                r = I.getattr(arr_of(I, els, shape), 'vertex')
                if not isinstance(r, Arr):
                    raise Abort('vertex gives %r' % (r,))
                return r.shape, [term(x) for x in r.a.reshape(-1)]
            for kind, v, facts, mode in I.run(th):
                if kind == 'abort':
                    rep.undecided('vertices', cons, v)
                    continue
                if kind == 'raise':
                    rep.bad('vertices', cons, 'raises %r' % (v,))
                    continue
                sh, el = v
                if tuple(sh) != (2 ** n,) + shape:
                    rep.bad('vertices', cons, 'shape %s instead of %s' % (sh, (2 ** n,) + shape))
                    continue
                rows = []
                bad = None
                for k in range(2 ** n):
                    row = []
                    for i in range(n):
                        t = el[k * n + i]
                        lo, hi = lf(V('x%d' % i)), lf(V('x%d' % i) + V('w'))
                        row.append(0 if t == lo else 1 if t == hi else None)
                    if None in row:
                        bad = 'row %d has an entry %r that is no end of its component' % (k, el[k * n + row.index(None)])
                    rows.append(tuple(row))
                if bad is None and len(set(rows)) != 2 ** n:
                    bad = '%d of the %d vertices are missing, e.g. %s' % (2 ** n - len(set(rows)), 2 ** n, sorted(set(itertools.product((0, 1), repeat=n)) - set(rows))[0])
                rep.add('vertices', cons, 'ok' if bad is None else 'violated', bad or '')
    for kind, v, facts, mode in I.run(lambda I: I.getattr(arr_of(I, [cell_iv(I, '+', 'a%d' % i) for i in range(8)], (2, 2, 2)), 'vertex')):
        rep.add('vertices', 'rank three refused', 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', '%r' % (v,))
    rep.floor = 15


# --------------------------------------------------------------------------- generated systems
def matches(rep, rule, cons, I, th, want, cell=''):
    """th gives a list of (array, name); want: list of (shape, {index: (lo, hi)})"""
    def run(I):
        rs = th(I)
        out = []
        for r in rs:
            if not is_array(r):
                out.append(('%r is not an interval array' % (r,), None))
                continue
            d = eldata(I, r)
            out.append((tuple(d[0]), [orc.ends(I, x) for x in d[1]]))
        return out
    for kind, v, facts, mode in I.run(run):
        if kind == 'abort':
            rep.undecided(rule, cons, '%s %s' % (v, cell))
            continue
        if kind == 'raise':
            if not facts or feasible(facts):
                rep.bad(rule, cons, 'raises %r %s' % (v, cell))
            continue
        if len(v) != len(want):
            rep.bad(rule, cons, '%d results instead of %d' % (len(v), len(want)))
            continue
        for (sh, els), (wsh, wel) in zip(v, want):
            if els is None or sh != tuple(wsh):
                rep.bad(rule, cons, 'shape %s instead of %s %s' % (sh, wsh, cell))
                continue
            for idx, e in zip(np.ndindex(*sh), els):
                if e is None:
                    rep.bad(rule, cons, 'element %s is no interval %s' % (idx, cell))
                    continue
                for t, w, nm in ((e[1], wel(idx)[0], 'lower'), (e[2], wel(idx)[1], 'upper')):
                    st, d = orc.same(orc.strip(t), w, (), facts)
                    rep.add(rule, cons, st, 'element %s %s end: %s %s' % (idx, nm, d, cell))


def c30(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the generators with symbolic parameters for dimensions two to four: every element of '
                'the generated matrix and right-hand side equals the documented one; parameters outside the documented range are refused')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, *[NMOD + ':' + n for n in ('zeros', 'full', 'eye', 'Neumaier_system', 'Shary_system', 'Toft_system')])
    call = lambda I, n, *a, **k: I.call(I.get(NMOD + ':' + n), list(a), k)
    c = lambda x: lf(F(x))
    p, q, s = V('p'), V('q'), V('s')
    num = lambda t: Num(t if not isinstance(t, Poly) else lf(t), 'float')
    for sh in (2, (3,), (2, 3), (1, 1)):
        w = (sh,) if isinstance(sh, int) else sh
        matches(rep, 'generator', 'zeros', I, lambda I: [call(I, 'zeros', sh)], [(w, lambda i: (tm.ZERO, tm.ZERO))])
        for lo, hi in ((-p, q), (p, p + q), (q + p, p)):
            matches(rep, 'generator', 'full', I, lambda I: [call(I, 'full', sh, num(lo), num(hi))], [(w, lambda i: (lf(lo), lf(hi)))])
    for n, m, k in ((2, None, 0), (3, None, 0), (2, 3, 0), (3, 2, 1), (3, 3, -1), (1, None, 0)):
        w = (n, m or n)
        one = lambda i: (tm.ONE, tm.ONE) if i[1] - i[0] == k else (tm.ZERO, tm.ZERO)
        matches(rep, 'generator', 'eye', I, lambda I: [call(I, 'eye', n, M=m, k=k)], [(w, one)])
    for n in (2, 3, 4):
        for lb, ub in ((None, None), (-q, None), (None, p + Poly.const(1)), (-q, p), (q, q + p)):
            wb = (c(-1) if lb is None else lf(lb), c(1) if ub is None else lf(ub))
            matches(rep, 'generator', 'Neumaier_system', I,
                    lambda I: list(call(I, 'Neumaier_system', n, num(s), infb=None if lb is None else num(lb - Poly.const(2) if ub is None else lb), supb=None if ub is None else num(ub))),
                    [((n, n), lambda i: (lf(s), lf(s)) if i[0] == i[1] else (tm.ZERO, c(2))),
                     ((n,), lambda i: (lf(lb - Poly.const(2)) if lb is not None and ub is None else wb[0], wb[1]))], 'order %d' % n)
        for lb, ub in ((0, None), (None, 0), (0, 0), (0, 5), (-5, 0), (-1, 1)):
            for ty in (int, float):
                matches(rep, 'generator', 'Neumaier_system', I,
                        lambda I: list(call(I, 'Neumaier_system', n, num(s), infb=lb if lb is None else ty(lb), supb=ub if ub is None else ty(ub))),
                        [((n, n), lambda i: (lf(s), lf(s)) if i[0] == i[1] else (tm.ZERO, c(2))),
                         ((n,), lambda i: tuple(c(x) for x in sorted((-1 if lb is None else lb, 1 if ub is None else ub))))], 'order %d, ends %s, %s' % (n, lb, ub))
        for al, be in ((0, None), (0, 0), (0, 1), (None, 1), (1, 1)):
            kw = {k: v for k, v in (('alpha', al), ('beta', be)) if v is not None}
            a0, b0 = F(23, 100) if al is None else al, F(35, 100) if be is None else be
            matches(rep, 'generator', 'Shary_system', I, lambda I: list(call(I, 'Shary_system', n, **dict(kw))),
                    [((n, n), lambda i: (c(n - 1), c(n)) if i[0] == i[1] else (c(a0 - 1), c(1 - b0))),
                     ((n,), lambda i: (c(1 - n), c(n - 1)))], 'order %d, %s' % (n, kw))
        for N in (None, p):
            for al, be in ((None, None), (F(1, 10), F(9, 10)), (F(1, 4), F(1, 4)), (F(1, 2), 1)):
                kw = {}
                if al is not None:
                    kw = {'alpha': num(c(al)), 'beta': num(c(be))}
                a0, b0 = (F(23, 100), F(35, 100)) if al is None else (F(al), F(be))
                if N is not None:
                    kw['N'] = num(p + Poly.const(n - 1))
                top = c(n) if N is None else lf(p + Poly.const(n - 1))
                matches(rep, 'generator', 'Shary_system', I, lambda I: list(call(I, 'Shary_system', n, **dict(kw))),
                        [((n, n), lambda i: (c(n - 1), top) if i[0] == i[1] else (c(a0 - 1), c(1 - b0))),
                         ((n,), lambda i: (c(1 - n), c(n - 1)))], 'order %d' % n)
        for kw in ({'N': num(c(n - 2))}, {'alpha': num(c(F(-1, 10)))}, {'alpha': num(c(F(1, 2))), 'beta': num(c(F(1, 4)))},
                   {'beta': num(c(F(11, 10)))}, {'alpha': num(c(F(6, 5))), 'beta': num(c(F(6, 5)))}):
            for kind, v, facts, mode in I.run(lambda I: call(I, 'Shary_system', n, **dict(kw))):
                rep.add('refusal', 'Shary_system', 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', '%s accepted' % kw)
        for r, R in ((None, None), (p, q), (0, q), (p, 0)):
            kw = {} if r is None else {'r': num(r) if isinstance(r, Poly) else r, 'R': num(R) if isinstance(R, Poly) else R}
            rr = lf(r) if isinstance(r, Poly) else tm.ZERO
            RR = lf(R) if isinstance(R, Poly) else tm.ZERO

            def el(i):
                k = max(i)
                if i[0] == n - 1 or i[1] == n - 1:
                    k = min(i) if max(i) == n - 1 else k
                    m = c(k + 1)
                elif i[0] == i[1]:
                    m = c(1)
                else:
                    return tm.ZERO, tm.ZERO
                return tm.sub(m, rr), tm.add(m, rr)
            matches(rep, 'generator', 'Toft_system', I, lambda I: list(call(I, 'Toft_system', n, **dict(kw))),
                    [((n, n), el), ((n,), lambda i: (tm.sub(c(1), RR), tm.add(c(1), RR)))], 'order %d' % n)
        for kw in ({'r': num(-p)}, {'R': num(-p)}):
            for kind, v, facts, mode in I.run(lambda I: call(I, 'Toft_system', n, **dict(kw))):
                rep.add('refusal', 'Toft_system', 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', 'a negative radius is accepted')
    rep.floor = 200


# --------------------------------------------------------------------------- norms and matrices
def c31(rep):
    rep.rule = ('abstract interpretation (exact arithmetic) of the distance, the diagonal extraction/construction and the comparison matrix on symbolic '
                'interval arrays against their definitions; the distance is symmetric by the same comparison with exchanged arguments')
    stats = Stats()
    I = new_interp(stats, real=True)
    need(I, *[UMOD + ':' + n for n in ('dist', 'diag', 'compmat')])

    def num_is(cons, th, want, cell=''):
        for kind, v, facts, mode in I.run(th):
            if kind == 'abort':
                rep.undecided('norm', cons, '%s %s' % (v, cell))
            elif kind == 'raise':
                if not facts or feasible(facts):
                    rep.bad('norm', cons, 'raises %r %s' % (v, cell))
            elif not is_num(v):
                rep.bad('norm', cons, 'the result is %r %s' % (v, cell))
            else:
                st, d = orc.same(orc.strip(term(v)), want, (), facts)
                rep.add('norm', cons, st, '%s %s' % (d, cell))

    def cheb(e, f):
        return tm.minmax('max', [tm.absval(tm.sub(lf(e[0]), lf(f[0]))), tm.absval(tm.sub(lf(e[1]), lf(f[1])))])
    for pat in ('++', '-m', 'm-', '~+', 'm~', '+-'):
        es = [CELLS[ch]('x%d' % i) for i, ch in enumerate(pat)]
        fs = [CELLS[ch]('y%d' % i) for i, ch in enumerate(pat[::-1])]
        mk = lambda I, pt, pfx: [cell_iv(I, ch, '%s%d' % (pfx, i)) for i, ch in enumerate(pt)]
        for swap in (False, True):
            cn = ' (arguments exchanged)' if swap else ''

            def args(I, scalar):
                a, b = mk(I, pat, 'x'), mk(I, pat[::-1], 'y')
                a, b = (a[0], b[0]) if scalar else (arr_of(I, a), arr_of(I, b))
                return [b, a] if swap else [a, b]
            num_is('dist of scalars', lambda I: I.call(I.get(UMOD + ':dist'), args(I, True), {}), cheb(es[0], fs[0]), pat + cn)
            num_is('dist of arrays', lambda I: I.call(I.get(UMOD + ':dist'), args(I, False), {}),
                   tm.minmax('max', [cheb(e, f) for e, f in zip(es, fs)]), pat + cn)
            num_is('dist of arrays, order 1', lambda I: I.call(I.get(UMOD + ':dist'), args(I, False), {'order': 1}),
                   tm.add(cheb(es[0], fs[0]), cheb(es[1], fs[1])), pat + cn)
            sq = tm.add(tm.mul(cheb(es[0], fs[0]), cheb(es[0], fs[0])), tm.mul(cheb(es[1], fs[1]), cheb(es[1], fs[1])))
            num_is('dist of arrays, order 2', lambda I: I.call(I.get(UMOD + ':dist'), args(I, False), {'order': 2}), tm.fn('**', (sq, lf(F(1, 2)))), pat + cn)
    for shape, pat in (((2, 2), '+m-+'), ((1, 3), 'm+-'), ((2, 1), '-m'), ((2, 1, 2), '+-m+')):
        es = [CELLS[ch]('x%d' % i) for i, ch in enumerate(pat)]
        fs = [CELLS[ch]('y%d' % i) for i, ch in enumerate(pat[::-1])]
        ch_ = [cheb(e, f) for e, f in zip(es, fs)]
        ar = lambda I: [arr_of(I, [cell_iv(I, c, '%s%d' % (x, i)) for i, c in enumerate(pt)], shape) for x, pt in (('x', pat), ('y', pat[::-1]))]
        total = lambda ts: tm.add(ts[0], total(ts[1:])) if len(ts) > 1 else ts[0]
        for o, w in ((None, tm.minmax('max', ch_)), (1, total(ch_)), (2, tm.fn('**', (total([tm.mul(t, t) for t in ch_]), lf(F(1, 2)))))):
            num_is('dist of arrays of shape %s%s' % (shape, '' if o is None else ', order %d' % o),
                   lambda I: I.call(I.get(UMOD + ':dist'), ar(I), {} if o is None else {'order': o}), w, pat)
    e, f = CELLS['m']('x'), CELLS['+']('y')
    num_is('dist of scalars, order 1', lambda I: I.call(I.get(UMOD + ':dist'), [cell_iv(I, 'm', 'x'), cell_iv(I, '+', 'y')], {'order': 1}), cheb(e, f))
    for bad in ('inf', 1.5, None):
        for kind, v, facts, mode in I.run(lambda I: I.call(I.get(UMOD + ':dist'), [cell_iv(I, '+', 'x'), cell_iv(I, 'm', 'y')], {'order': bad})):
            rep.add('norm', 'dist of unknown order refused', 'ok' if kind == 'raise' else 'undecided' if kind == 'abort' else 'violated', '%r for order %r' % (v, bad))
    # diag and comparison matrix
    for shape in ((2, 2), (2, 3), (3, 2), (3, 3)):
        m0 = np.arange(int(np.prod(shape))).reshape(shape)
        pat = 'm+-=m+-=m'
        ends = [CELLS[pat[i]]('x%d' % i) for i in range(m0.size)]
        A = lambda I: arr_of(I, [cell_iv(I, pat[i], 'x%d' % i) for i in range(m0.size)], shape)
        for k in (0, 1, -1):
            w = np.diag(m0, k)
            matches(rep, 'diag', 'diag of a matrix', I, lambda I: [I.call(I.get(UMOD + ':diag'), [A(I)], {'k': k} if k else {})],
                    [(w.shape, lambda i: tuple(lf(x) for x in ends[int(w[i])]))])

        def comp(I):
            r = I.call(I.get(UMOD + ':compmat'), [A(I)], {})
            if not isinstance(r, Arr):
                raise Abort('%r' % (r,))
            return r.shape, [term(x) for x in r.a.reshape(-1)]
        for kind, v, facts, mode in I.run(comp):
            if kind == 'abort':
                rep.undecided('comparison matrix', 'compmat', v)
            elif kind == 'raise':
                rep.bad('comparison matrix', 'compmat', 'raises %r' % (v,))
            elif tuple(v[0]) != shape:
                rep.bad('comparison matrix', 'compmat', 'shape %s' % (v[0],))
            else:
                for idx, t in zip(np.ndindex(*shape), v[1]):
                    lo, hi = (lf(x) for x in ends[int(m0[idx])])
                    mg = tm.minmax('max', [tm.absval(lo), tm.absval(hi)])
                    mi = tm.ZERO if tm.sign(lo) == -1 and tm.sign(hi) == 1 else tm.minmax('min', [tm.absval(lo), tm.absval(hi)])
                    st, d = orc.same(orc.strip(t), mi if idx[0] == idx[1] else tm.neg(mg), (), facts)
                    rep.add('comparison matrix', 'compmat', st, 'entry %s: %s' % (idx, d))
    for n in (2, 3):
        for k in (0, 1, -1):
            w = np.diag(np.arange(1, n + 1), k)
            matches(rep, 'diag', 'diag of a vector', I, lambda I: [I.call(I.get(UMOD + ':diag'), [arr_of(I, [cell_iv(I, 'm', 'x%d' % i) for i in range(1, n + 1)])], {'k': k})],
                    [(w.shape, lambda i: tuple(lf(x) for x in CELLS['m']('x%d' % w[i])) if w[i] else (tm.ZERO, tm.ZERO))])
    rep.floor = 100
