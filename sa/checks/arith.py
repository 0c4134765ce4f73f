"""Arithmetic of scalar intervals: enclosure with directed rounding, division by zero, closure,
rounding-mode restoration on every path of the operators."""
import itertools

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Arr, Inst, Interp, Num, Opaque, Stats, Bound, ExcV, is_num, term, mkarr
from ..oracle import KMOD
from ..report import Broken
from ..terms import lf

C, K = 'ClassicalArithmetic', 'KaucherArithmetic'
SYM = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/'}


def operand(I, kind, lo, hi):
    """abstract operand of a kind"""
    if kind in ('C', 'K'):
        return orc.mk(I, C if kind == 'C' else K, lo, hi)
    if kind in ('Ci', 'Ki'):
        return orc.mk(I, C if kind == 'Ci' else K, lo, hi, 'int')
    if kind == 'float':
        return Num(lo, 'float')
    if kind == 'int':
        return Num(lo, 'int')
    if kind == 'npfloat':
        return Num(lo, 'np')
    if kind == 'npint':
        return Num(lo, 'npint')
    if kind == 'ndarray':                    # float array with one element
        return mkarr([Num(lo, 'np')], (1,), 'float')
    if kind == 'oarray':                     # object array holding one interval
        return mkarr([orc.mk(I, C, lo, hi)], (1,), 'object')
    if kind == 'AI':
        ai = I.get('intvalpy.kernel.real_intervals:ArrayInterval')
        return I.call(ai, [mkarr([orc.mk(I, C, lo, hi)], (1,), 'object')], {})
    if kind == 'AIK':
        ai = I.get('intvalpy.kernel.real_intervals:ArrayInterval')
        return I.call(ai, [mkarr([orc.mk(I, K, lo, hi)], (1,), 'object')], {})
    if kind == 'list':
        return [Num(lo, 'float')]
    raise Abort(kind)


def cells_for(kind, pfx, zone='all', recip=False):
    if kind in ('C', 'Ci', 'oarray', 'AI'):
        imp, pro = False, True
    elif kind in ('K', 'Ki', 'AIK'):
        imp, pro = True, True
    else:
        if recip:
            return [(n, t, t) for n, t in orc.num_cells(pfx, True)]
        cs = [(n, t, t) for n, t in orc.num_cells(pfx)]
        return [c for c in cs if c[0] == '0'] if zone == 'zero' else cs
    if recip:
        return orc.recip_cells(pfx, imp, pro)
    return orc.zero_cells(pfx, imp, pro) if zone == 'zero' else orc.interval_cells(pfx, imp, pro)


NICE = {'C': 'classical', 'K': 'Kaucher', 'Ci': 'classical(int)', 'Ki': 'Kaucher(int)', 'float': 'float', 'int': 'int',
        'npfloat': 'numpy float', 'npint': 'numpy int', 'ndarray': 'float array', 'oarray': 'object array', 'AI': 'interval array',
        'AIK': 'interval array(K)', 'list': 'list'}


def unwrap(I, v):
    """the single element of an array result"""
    if isinstance(v, Inst) and v.cls.name == 'ArrayInterval':
        d = I.getattr(v, 'data')
        if isinstance(d, Arr) and d.a.size == 1:
            return d.a.reshape(-1)[0], 'AI'
        return v, 'AI?'
    if isinstance(v, Arr) and v.a.size == 1:
        return v.a.reshape(-1)[0], 'array'
    return v, 'scalar'


def new_interp(stats, **kw):
    I = Interp(stats=stats, **kw)
    try:
        for n in (C, K, 'BaseTools'):
            I.get(KMOD + ':' + n)
        I.module('intvalpy.kernel.real_intervals')
    except LookupError as e:
        raise Broken('anchor lost: %s' % e)
    return I


SCALAR_PAIRS = [(a, b) for a in 'CK' for b in 'CK'] + \
    [(a, b) for a in 'CK' for b in ('float', 'npfloat', 'int')] + [(b, a) for a in 'CK' for b in ('float', 'npfloat', 'int')] + \
    [('Ci', 'C'), ('C', 'Ci'), ('Ki', 'K'), ('C', 'npint'), ('npint', 'C'), ('K', 'npint'), ('npint', 'K')]
ARRAY_PAIRS = [(a, b) for a in 'CK' for b in ('ndarray', 'AI', 'oarray')] + [(b, a) for a in 'CK' for b in ('ndarray', 'AI', 'oarray')] + \
    [('AI', 'AI'), ('AI', 'AIK'), ('AIK', 'AI'), ('AI', 'float'), ('float', 'AI'), ('AI', 'npfloat'), ('npfloat', 'AI'), ('AI', 'ndarray'),
     ('ndarray', 'AI'), ('AI', 'oarray'), ('oarray', 'AI'), ('AI', 'int'), ('int', 'AI'), ('AI', 'list'), ('list', 'AI')]


def run_binary(I, op, ka, kb, ca, cb):
    def th(I):
        a, b = operand(I, ka, ca[1], ca[2]), operand(I, kb, cb[1], cb[2])
        r = I.binop(op, a, b)
        e, how = unwrap(I, r)
        return orc.ends(I, e), how, r
    return list(I.run(th))


def chain(stats):
    return ', '.join(sorted(x.split(':')[1] for x in stats.funcs if 'interval_arithmetics' in x and not x.endswith(('.__enter__', '.__exit__', '.__cinit__', '.a', '.b', 'RoundingContext.__init__'))))


def generic_only(cells):
    """a smaller set of cells for array liftings: the sign-generic ones"""
    return [c for c in cells if c[0].strip('~') in ('--', '-+', '++', '+-', '+', '-')]


def enclosure(rep, pairs, ops=('add', 'sub', 'mul', 'truediv'), reduced=False, sample=None):
    stats = Stats()
    I = new_interp(stats)
    cases = parts = 0
    for op in ops:
        for ka, kb in pairs:
            construct = '%s %s %s' % (NICE[ka], SYM[op], NICE[kb])
            div = op == 'truediv'
            cas, cbs = cells_for(ka, 'x'), cells_for(kb, 'y', recip=div)
            if reduced:
                cas, cbs = generic_only(cas), generic_only(cbs)
            before = set(stats.funcs)
            stats.funcs = set()
            for ca, cb in itertools.product(cas, cbs):
                cases += 1
                ideal = orc.IDEAL[op]((ca[1], ca[2]), (cb[1], cb[2]))
                cell = 'cell %s,%s' % (ca[0], cb[0])
                for kind, v, facts, mode in run_binary(I, op, ka, kb, ca, cb):
                    parts += 1
                    where = ' [%s; through %s]' % (cell, chain(stats))
                    if kind == 'abort':
                        rep.undecided('enclosure', construct, '%s: %s' % (cell, v))
                        continue
                    if kind == 'raise':
                        rep.bad('enclosure', construct, 'raises %r instead of returning an interval%s' % (v, where))
                        continue
                    e, how, raw = v
                    if e is None:
                        rep.bad('enclosure', construct, 'the result is %r, not an interval%s' % (raw, where))
                        continue
                    for side, t, i in (('lo', e[1], ideal[0]), ('hi', e[2], ideal[1])):
                        st, d = orc.endpoint(side, t, i, facts)
                        if st == 'vacuous':
                            continue
                        rep.add('enclosure', construct, st if st != 'ok' else 'ok', d + (where if st != 'ok' else ''))
            stats.funcs |= before
    rep.count('cells', cases)
    rep.count('partitions', parts)
    rep.analysed.setdefault('functions', set())
    rep.analysed['functions'] = sorted(set(rep.analysed['functions']) | stats.funcs)
    return stats


def with_itself(rep):
    """the same interval object on both sides: the bounds are those of two independent operands"""
    I = new_interp(Stats())
    for op in ('add', 'sub', 'mul', 'truediv'):
        for kind in ('C', 'K', 'Ci', 'Ki', 'AI', 'AIK'):
            construct = '%s %s itself' % (NICE[kind], SYM[op])
            for name, lo, hi in cells_for(kind, 'x', recip=op == 'truediv'):
                def th(I):
                    a = operand(I, kind, lo, hi)
                    r = I.binop(op, a, a)
                    return orc.ends(I, unwrap(I, r)[0]), r
                ideal = orc.IDEAL[op]((lo, hi), (lo, hi))
                for how, v, facts, mode in I.run(th):
                    if how == 'abort':
                        rep.undecided('enclosure', construct, '%s: %s' % (name, v))
                    elif how == 'raise':
                        rep.bad('enclosure', construct, 'cell %s: raises %r instead of returning an interval' % (name, v))
                    elif v[0] is None:
                        rep.bad('enclosure', construct, 'cell %s: the result is %r, not an interval' % (name, v[1]))
                    else:
                        for side, t, i in (('lo', v[0][1], ideal[0]), ('hi', v[0][2], ideal[1])):
                            st, d = orc.endpoint(side, t, i, facts)
                            if st != 'vacuous':
                                rep.add('enclosure', construct, st, 'cell %s: %s' % (name, d) if st != 'ok' else d)


def c01(rep):
    rep.rule = ('abstract interpretation of every operator dispatch path of the scalar interval classes, per sign/order cell of '
                'the operands, in a domain of polynomials with directed-rounding labels; each resulting endpoint is compared '
                'with the exact bound (Kaucher formulas): it must equal it up to rounding and be rounded outward')
    rep.assumptions += ['binary64 endpoints, no overflow or underflow of products and quotients; integers below 2**53',
                        'Python-level float arithmetic executes under the current rounding mode']
    enclosure(rep, SCALAR_PAIRS + ARRAY_PAIRS)
    with_itself(rep)
    rep.floor = 2000
