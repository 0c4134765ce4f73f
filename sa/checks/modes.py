"""Rounding mode: every public operation leaves the floating-point rounding mode as it found it."""
import itertools

from .. import oracle as orc
from .. import terms as tm
from ..absint import Abort, Bound, ExcV, Ext, Inst, Num, Opaque, Stats, mkarr
from ..oracle import KMOD
from ..terms import lf
from .arith import (C, K, NICE, SYM, cells_for, new_interp, operand, generic_only, ARRAY_PAIRS, SCALAR_PAIRS)
from .scalar import EMOD, FOREIGN, V, foreign_value, iv, arr_of

UFUN = ('exp', 'log', 'sqrt', 'sin', 'cos')
PROPS = ('wid', 'rad', 'mid', 'mig', 'mag', 'dual', 'pro', 'opp', 'inv', 'khi')


def operations(tier):
    """(name, thunk builder) for the public operations on scalar intervals"""
    ops = []
    for op in ('add', 'sub', 'mul', 'truediv'):
        for ka, kb in SCALAR_PAIRS + (ARRAY_PAIRS if tier == 'thorough' else ARRAY_PAIRS[:10]):
            cas = generic_only(cells_for(ka, 'x'))
            cbs = generic_only(cells_for(kb, 'y')) + (cells_for(kb, 'y', 'zero')[:2] if op == 'truediv' else [])
            if op == 'truediv':
                cbs = cbs + generic_only(cells_for(kb, 'y', recip=True))[:2]
            for ca, cb in itertools.product(cas[:3] if tier == 'quick' else cas, cbs):
                ops.append(('%s %s %s' % (NICE[ka], SYM[op], NICE[kb]),
                            lambda I, ka=ka, kb=kb, ca=ca, cb=cb, op=op: I.binop(op, operand(I, ka, ca[1], ca[2]), operand(I, kb, cb[1], cb[2]))))
        for cls in 'CK':
            for nm, fv in FOREIGN:
                p, q = V('xp'), V('xq')
                ops.append(('%s %s %s' % (NICE[cls], SYM[op], nm),
                            lambda I, cls=cls, fv=fv, op=op: I.binop(op, operand(I, cls, lf(-p), lf(q)), foreign_value(fv))))
    for cls in ('C', 'K', 'Ci', 'Ki'):
        cells = cells_for(cls, 'x')
        for c in cells:
            for k in (0, 1, 2, 3, 0.5, -1, -2, 'i', None):
                kk = operand_k = {'i': lambda I: iv(I, C, V('yp'), V('yp') + V('yq'))}.get(k)
                ops.append(('%s ** %s' % (NICE[cls], k),
                            lambda I, cls=cls, c=c, k=k, kk=kk: I.binop('pow', operand(I, cls, c[1], c[2]), kk(I) if kk else k)))
            for f in UFUN:
                ops.append(('%s(%s)' % (f, NICE[cls]),
                            lambda I, cls=cls, c=c, f=f: I.call(Ext('numpy.' + f), [operand(I, cls, c[1], c[2])], {})))
            for pr in PROPS:
                ops.append(('%s.%s' % (NICE[cls], pr),
                            lambda I, cls=cls, c=c, pr=pr: I.getattr(operand(I, cls, c[1], c[2]), pr)))
            ops.append(('-%s' % NICE[cls], lambda I, cls=cls, c=c: I.unary('neg', operand(I, cls, c[1], c[2]))))
            ops.append(('abs(%s)' % NICE[cls], lambda I, cls=cls, c=c: I.abs_(operand(I, cls, c[1], c[2]))))
            ops.append(('number in %s' % NICE[cls], lambda I, cls=cls, c=c: I.contains(operand(I, cls, c[1], c[2]), 1.5)))
            ops.append(('%s < number' % NICE[cls], lambda I, cls=cls, c=c: I.cmp('lt', operand(I, cls, c[1], c[2]), 1.5)))
    return ops


def c02(rep):
    rep.rule = ('abstract interpretation with the rounding mode as part of the state, started in each of three modes: on every path '
                'of every public scalar operation (value, refusal, foreign operand), and with a failure inserted at each operation '
                'that can raise while the mode is changed, the mode at the exit equals the mode at the entry')
    rep.assumptions += ['an asynchronous exception inside compiled code is not considered']
    stats = Stats()
    I = new_interp(stats)
    changed = set()
    for name, th in operations(rep.tier):
        for start in ('N', 'U', 'D'):
            k = 0
            while True:
                I.inject = k or None
                fired = False

                def run(I):
                    I.mode = I.entry = start
                    I.injpos, I.injected = 0, False
                    return th(I)
                I.fork_overflow = True
                for kind, v, facts, mode in I.run(run):
                    fired = fired or I.injected
                    if kind == 'abort':
                        rep.undecided('restore', name, v)
                    elif mode == start:
                        rep.ok('restore', name)
                    else:
                        rep.bad('restore', name, 'entered in mode %s, left in mode %s on the path ending in %s %r%s' % (
                            start, mode, kind, v, ' after a failure at operation %d under the changed mode' % k if k else ''))
                if k == 0:
                    k = 1
                    if start != 'N':
                        break
                elif not fired or k > 12:
                    break
                else:
                    k += 1
                    rep.count('injected_failures')
    I.inject = None
    rep.note('functions', sorted(stats.funcs))
    rep.note('partitions', stats.partitions)
    if not any(f.endswith('RoundingContext.__enter__') or 'fesetround' in f for f in stats.funcs) and not any('__enter__' in f for f in stats.funcs):
        rep.note('mode_changes', 'none observed')
    rep.floor = 2000
