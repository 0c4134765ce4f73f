"""C17: every loop of the package ends."""
import ast

from ..cfg import CFG, parts, stores
from ..flow import PKG, Program, bind_call
from ..report import Broken
from .names import where

SHRINKERS = {'pop', 'popleft', 'remove', 'popitem', 'clear'}
GROWERS = {'append', 'extend', 'insert', 'add', 'update', 'appendleft', 'setdefault'}


def num(e):
    """value of a numeric literal"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = num(e.operand)
        return None if v is None else -v
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return e.value
    return None


def names(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}


def step_of(st, v):
    """direction in which a simple statement moves v: 'up', 'down', 'halve', 'shrink', None (no store), 'other'"""
    if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == v:
        c = num(st.value)
        if c is None:
            return 'other'
        if isinstance(st.op, ast.Add) and c:
            return 'up' if c > 0 else 'down'
        if isinstance(st.op, ast.Sub) and c:
            return 'down' if c > 0 else 'up'
        if isinstance(st.op, ast.FloorDiv) and c > 1 or isinstance(st.op, ast.RShift) and c > 0:
            return 'halve'
        return 'other'
    if isinstance(st, (ast.Assign, ast.AnnAssign)):
        ts = st.targets if isinstance(st, ast.Assign) else [st.target]
        hit = [t for t in ts if v in {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}]
        if hit:
            e = st.value
            t = hit[0]
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(e, (ast.Tuple, ast.List)) and len(t.elts) == len(e.elts):
                for a, b in zip(t.elts, e.elts):
                    if isinstance(a, ast.Name) and a.id == v:
                        t, e = a, b
            if not isinstance(t, ast.Name):
                return 'other'
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'int' and len(e.args) == 1:
                e = e.args[0]
            if isinstance(e, ast.BinOp):
                l, r = e.left, e.right
                if isinstance(e.op, ast.Add) and isinstance(r, ast.Name) and r.id == v:
                    l, r = r, l
                if isinstance(l, ast.Name) and l.id == v:
                    c = num(r)
                    if c is None:
                        return 'other'
                    if isinstance(e.op, ast.Add) and c:
                        return 'up' if c > 0 else 'down'
                    if isinstance(e.op, ast.Sub) and c:
                        return 'down' if c > 0 else 'up'
                    if isinstance(e.op, ast.FloorDiv) and c > 1 or isinstance(e.op, ast.RShift) and c > 0:
                        return 'halve'
                return 'other'
            if isinstance(e, ast.Call):
                fn = e.func
                nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ''
                if nm == 'delete' and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == v:
                    return 'shrink'
                return 'other'
            if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id == v and isinstance(e.slice, ast.Slice):
                s = e.slice
                if num(s.lower) not in (None, 0) if s.lower is not None else False:
                    return 'shrink'
                if s.upper is not None and (num(s.upper) or 0) < 0:
                    return 'shrink'
            return 'other'
        # fallthrough: the value may pop from v
    if isinstance(st, ast.Delete):
        for t in st.targets:
            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == v:
                return 'shrink'
            if isinstance(t, ast.Name) and t.id == v:
                return 'other'
        return None
    if isinstance(st, (ast.For, ast.AsyncFor)):
        return 'other' if v in {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} else None
    if st is None:
        return None
    kind = None
    for x in ast.walk(st):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == v:
            if x.func.attr in SHRINKERS:
                kind = kind or 'shrink'
            elif x.func.attr in GROWERS:
                kind = 'other'
        if isinstance(x, ast.NamedExpr) and x.target.id == v:
            kind = 'other'
    return kind


def atoms(e, outcome):
    """conditions each of which alone forces the outcome: (expression, value it must take)"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return atoms(e.operand, not outcome)
    if isinstance(e, ast.BoolOp):
        if isinstance(e.op, ast.And) and not outcome or isinstance(e.op, ast.Or) and outcome:
            return [a for v in e.values for a in atoms(v, outcome)]
        return [(e, outcome)]
    return [(e, outcome)]


def conjunction(e, outcome):
    """conditions that must all hold for a compound expression to force the outcome"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return conjunction(e.operand, not outcome)
    if isinstance(e, ast.BoolOp) and (isinstance(e.op, ast.Or) and not outcome or isinstance(e.op, ast.And) and outcome):
        return [a for v in e.values for a in conjunction(v, outcome)]
    return [(e, outcome)]


_NEG = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
_FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def measure(e):
    """(variable, 'value' or 'size') of an expression that measures one variable"""
    if isinstance(e, ast.Name):
        return e.id, 'value'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and e.args and isinstance(e.args[0], ast.Name):
        return e.args[0].id, 'size'
    if isinstance(e, ast.Attribute) and e.attr == 'size' and isinstance(e.value, ast.Name):
        return e.value.id, 'size'
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Attribute) and e.value.attr == 'shape' \
            and isinstance(e.value.value, ast.Name):
        return e.value.value.id, 'size'
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        if num(e.right) is not None:
            return measure(e.left)
        if num(e.left) is not None and isinstance(e.op, ast.Add):
            return measure(e.right)
    return None


def leaving_comparisons(e, outcome):
    """[(variable, kind, operator, bound)] such that variable OP bound leaves the loop"""
    out = []
    if isinstance(e, ast.Compare):
        items = [e.left] + e.comparators
        if len(e.ops) > 1 and outcome:
            return []               # all of a chain must hold: not sufficient alone
        for l, op, r in zip(items, e.ops, items[1:]):
            op = type(op)
            if op not in _NEG:
                continue
            if not outcome:
                op = _NEG[op]
            for a, o, b in ((l, op, r), (r, _FLIP[op], l)):
                m = measure(a)
                if m is not None:
                    out.append((m[0], m[1], o, b))
    else:
        m = measure(e)
        if m is not None and not outcome and not isinstance(e, ast.BinOp):
            out.append((m[0], 'truth', ast.LtE, ast.Constant(value=0)))
    return out


class LoopCheck:
    def __init__(self, P, f, cfg, lp):
        self.P, self.f, self.cfg, self.lp = P, f, cfg, lp
        self.simple = [n for n in lp.nodes]
        self.nodes_of = {}
        self.nonlocal_writes = False

    def steps(self, v):
        """[(node, direction)] of the changes of v in the loop"""
        if v not in self.nodes_of:
            out = []
            for n in self.simple:
                if n.kind in ('handler', 'case', 'with'):
                    if v in stores(n):
                        out.append((n, 'other'))
                    continue
                if n.kind == 'iter':
                    if v in stores(n):
                        out.append((n, 'other'))
                    continue
                a = n.ast
                if isinstance(a, (ast.FunctionDef, ast.ClassDef)):
                    d = 'other' if a.name == v else None
                else:
                    d = step_of(a, v)
                if d:
                    out.append((n, d))
            # a nested function that rebinds v
            for g in self.f.children:
                if v in g.nonlocals and any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) for x in self.P.deep(g)):
                    out.append((self.lp.head, 'other'))
                    self.nonlocal_writes = True
            self.nodes_of[v] = out
        return self.nodes_of[v]

    def exits(self):
        """[(node, expression, outcome)]: outcome of the expression at the node leaves the loop"""
        out = []
        lp = self.lp
        if lp.head.kind == 'test':
            out += [(lp.head, e, o) for e, o in atoms(lp.head.ast, False)
                    if not (isinstance(e, ast.Constant) and bool(e.value) != o)]
        for n in lp.nodes:
            if n.kind == 'test' and n is not lp.head:
                for s in n.succ:
                    pol = n.pol.get(s.id)
                    if pol is None:
                        continue
                    if lp.head not in self.cfg.reach([s], within=lp.nodes):
                        out += [(n, e, o) for e, o in atoms(n.ast, pol)]
        return out

    def handler_exits(self):
        """names used as subscripts in a try whose IndexError handler leaves the loop"""
        out = set()
        for n in self.lp.nodes:
            if n.kind == 'handler' and n.ast.type is not None and 'IndexError' in names(n.ast.type) | {
                    'IndexError' if x == 'LookupError' else x for x in names(n.ast.type)}:
                if self.lp.head in self.cfg.reach([n], within=self.lp.nodes):
                    continue
                for p in n.pred:
                    for e in parts(p):
                        for x in ast.walk(e):
                            if isinstance(x, ast.Subscript):
                                m = measure(x.slice)
                                if m:
                                    out.add((m[0], p))
        return out

    def handed_on(self, v, st):
        """is v moved by a helper of the package that is given v, or by an amount held in a variable?"""
        for n, _ in st:
            a = n.ast
            if n.kind != 'stmt':
                return False
            if isinstance(a, ast.AugAssign) and isinstance(a.op, (ast.Add, ast.Sub)) and isinstance(a.value, ast.Name):
                continue
            if isinstance(a, ast.Assign) and isinstance(a.value, ast.Call):
                e = self.P.resolve_expr(a.value.func, self.f)
                given = {x.id for y in a.value.args + [k.value for k in a.value.keywords] for x in ast.walk(y) if isinstance(x, ast.Name)}
                if e and e[0] in ('func', 'method', 'unbound') and (v in given or any(v in g.nonlocals for g in [e[1]])):
                    continue
            return False
        return bool(st)

    def flag(self, v, depth=0):
        """is v set in the loop from constants or other flags only?"""
        ds = []
        for n in self.simple:
            if n.kind == 'stmt' and v in stores(n):
                if not isinstance(n.ast, ast.Assign):
                    return False
                ds.append(n.ast)
        if not ds:
            return True
        for a in ds:
            e = a.value
            if isinstance(e, (ast.Tuple, ast.List)):
                es = e.elts
            else:
                es = [e]
            for x in es:
                if isinstance(x, ast.Constant):
                    continue
                if isinstance(x, ast.Name) and depth < 4 and self.flag(x.id, depth + 1):
                    continue
                return False
        return True

    def stuck(self):
        """for a loop left only through the outcome of a subscript: is the index the same in every round?"""
        hs = self.handler_exits()
        if not hs or any(n.kind in ('test', 'iter') and not isinstance(n.ast, ast.Constant) for n in self.lp.nodes):
            return None
        for n in self.lp.nodes:
            # nothing else may change between two rounds
            if n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and isinstance(n.ast.value, ast.Constant):
                continue
            for e in parts(n):
                if any(isinstance(x, ast.Call) for x in ast.walk(e)):
                    return None
            st = set(stores(n))
            if st and not (n.kind == 'stmt' and any(n is p for _, p in hs)) and n.kind != 'handler':
                return None
            if any(v in st for v, _ in hs):
                return None
        back = [n for n in self.lp.nodes if n.kind == 'handler' and self.lp.head in self.cfg.reach([n], within=self.lp.nodes)]
        if back:
            return 'the subscript %s is the same in every round that does not leave the loop' % next(iter(hs))[0]
        return None

    def judge(self):
        """('ok'|'violated'|'undecided', reason)"""
        lp = self.lp
        if not self.cfg.back_reachable(lp, ()):
            return 'ok', 'the body never returns to the head'
        ex = self.exits()
        todo = list(ex)
        expanded = set()
        problems, okr = [], None
        stepped = False
        allflags = True
        lenient = False
        while todo:
            n, e, o = todo.pop(0)
            allparts = conjunction(e, o)
            if len(allparts) > 1:
                # several conditions must hold together
                fl = all(isinstance(x, ast.Name) and self.flag(x.id) for x, _ in allparts)
                allflags &= fl
                for x, _ in allparts:
                    for v in names(x):
                        if any(d in ('up', 'down', 'halve', 'shrink') for _, d in self.steps(v)):
                            lenient = True
                continue
            if isinstance(e, ast.Name) and self.flag(e.id):
                # a flag: does a test of a counter set it?
                for m in self.simple:
                    if m.kind == 'stmt' and e.id in stores(m) and isinstance(m.ast, ast.Assign) and isinstance(m.ast.value, ast.Constant):
                        for t in self.simple:
                            if t.kind == 'test':
                                for v in names(t.ast):
                                    if any(d in ('up', 'down', 'halve', 'shrink') for _, d in self.steps(v)):
                                        lenient = True
                if any(d != 'other' for _, d in self.steps(e.id)):
                    pass
                elif self.steps(e.id):
                    continue
            elif isinstance(e, ast.Name) and e.id not in expanded:
                expanded.add(e.id)
                ds = [m for m in self.simple if m.kind == 'stmt' and e.id in stores(m)]
                if ds and all(isinstance(m.ast, ast.Assign) for m in ds) and not any(d != 'other' for _, d in self.steps(e.id)):
                    allflags = False
                    if len(ds) == 1:
                        todo += [(ds[0], x, y) for x, y in atoms(ds[0].ast.value, o)]
                        continue
            comps = leaving_comparisons(e, o)
            if not (isinstance(e, ast.Name) and self.flag(e.id)):
                allflags = False
            for v, kind, op, bound in comps:
                st = self.steps(v)
                moves = {d for _, d in st}
                if moves == {'other'} and kind == 'value' and self.handed_on(v, st):
                    lenient = True
                if not moves & {'up', 'down', 'halve', 'shrink'}:
                    continue
                stepped = True
                r = self.counter(n, v, kind, op, bound, st, moves)
                if r is None:
                    okr = okr or '%s moves toward %s' % (v, ast.unparse(bound))
                else:
                    problems.append(r)
            if not comps:
                for v in names(e):
                    if any(d in ('up', 'down', 'halve', 'shrink') for _, d in self.steps(v)):
                        lenient = True
        for v, p in self.handler_exits():
            st = self.steps(v)
            allflags = False
            if st and {d for _, d in st} == {'up'}:
                stepped = True
                if self.cfg.back_reachable(lp, {n for n, _ in st}):
                    problems.append('%s is not advanced on some path round the loop' % v)
                else:
                    okr = okr or '%s runs off the end of the sequence' % v
        if not ex and not okr:
            r = self.stuck()
            if r:
                return 'violated', r
        if okr:
            return 'ok', okr
        if problems and not self.nonlocal_writes:
            return 'violated', problems[0]
        if lenient or self.nonlocal_writes:
            return 'undecided', 'a counter takes part in the exit, in a form that is not followed'
        if not ex and not any(n.kind in ('break', 'return', 'raisestmt') for n in lp.nodes):
            return 'violated', 'nothing leaves the loop'
        if allflags and ex:
            return 'undecided', 'the loop runs until nothing changes: not judged'
        if not ex:
            return 'undecided', 'no exit test recognised'
        return 'violated', 'no exit of the loop depends on a counter or on a container that shrinks'

    def counter(self, n, v, kind, op, bound, st, moves):
        """None when the counter bounds the loop, else the reason"""
        lp = self.lp
        if len(moves) > 1:
            if moves <= {'down', 'halve'}:
                pass
            else:
                return '%s is moved both ways or reset inside the loop' % v
        d = next(iter(moves))
        if kind == 'value' and d == 'shrink':
            return '%s is a container compared as a number' % v
        if kind == 'truth' and d == 'up':
            return '%s only grows, so it never becomes false' % v
        if kind == 'size' and d in ('up', 'down', 'halve'):
            return '%s is a number measured as a container' % v
        up = d == 'up'
        if op in (ast.Gt, ast.GtE) and not up or op in (ast.Lt, ast.LtE) and up:
            return '%s moves away from the bound that ends the loop' % v
        if op is ast.NotEq:
            return '%s leaves the loop only when it differs from the bound' % v
        if d == 'halve' and (op is ast.Lt and num(bound) is not None and num(bound) <= 0 or op is ast.LtE and num(bound) is not None and num(bound) < 0):
            return '%s never falls below %s' % (v, num(bound))
        if self.cfg.back_reachable(lp, {m for m, _ in st}):
            return '%s is not advanced on some path round the loop' % v
        if n is not lp.head and self.cfg.back_reachable(lp, {n}):
            return 'the test of %s is skipped on some path round the loop' % v
        for b in names(bound):
            if b == v:
                return 'the bound of %s moves with it' % v
            bs = self.steps(b)
            if bs and not all(x == ('down' if up else 'up') for _, x in bs):
                return 'the bound %s of %s is changed inside the loop' % (b, v)
        for x in ast.walk(bound):
            if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'int', 'max', 'min', 'abs', 'float')):
                pass
        return None


ENDLESS = {'itertools.count', 'itertools.cycle'}


def for_loop(P, f, cfg, lp):
    """('ok'|'violated', reason) of a for loop"""
    it = lp.ast.iter
    call = it if isinstance(it, ast.Call) else None
    if call is not None:
        e = P.resolve_expr(call.func, f)
        inner = [call]
        if e == ('ext', 'builtins.zip'):
            inner = []
            for a in call.args:
                x = P.resolve_expr(a.func, f) if isinstance(a, ast.Call) else None
                if not (x and x[0] == 'ext' and x[1] in ENDLESS):
                    return 'ok', 'zip with a finite sequence'
                inner.append(a)
        if e == ('ext', 'builtins.enumerate') and call.args and isinstance(call.args[0], ast.Call):
            inner = [call.args[0]]
        for c in inner:
            x = P.resolve_expr(c.func, f)
            endless = x and x[0] == 'ext' and (x[1] in ENDLESS or x[1] == 'itertools.repeat' and len(c.args) == 1 and not c.keywords
                                               or x[1] == 'builtins.iter' and len(c.args) == 2)
            if endless:
                ex = [n for n in lp.nodes if n.kind in ('break', 'return', 'raisestmt')]
                if not ex:
                    return 'violated', 'the loop runs over an endless iterator and nothing leaves it'
                return endless_exit(P, f, cfg, lp)
    if isinstance(it, ast.Name):
        for n in lp.nodes:
            for e in parts(n):
                for x in ast.walk(e):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                            and x.func.value.id == it.id and x.func.attr in ('append', 'extend', 'insert'):
                        # the list grows while it is walked, unless every path that grows it leaves
                        if lp.head in cfg.reach([n], within=lp.nodes) and it.id not in {s for m in lp.nodes for s in stores(m)}:
                            return 'violated', 'the loop walks %s and makes it longer' % it.id
    return 'ok', 'a for loop over a finite sequence'


def endless_exit(P, f, cfg, lp):
    """for v in count(): the target is a counter"""
    tg = {x.id for x in ast.walk(lp.ast.target) if isinstance(x, ast.Name)}
    for n in lp.nodes:
        if n.kind != 'test':
            continue
        for s in n.succ:
            pol = n.pol.get(s.id)
            if pol is None or lp.head in cfg.reach([s], within=lp.nodes):
                continue
            for e, o in atoms(n.ast, pol):
                for v, kind, op, bound in leaving_comparisons(e, o):
                    if v in tg and op in (ast.Gt, ast.GtE, ast.Eq):
                        if cfg.back_reachable(lp, {n}):
                            continue
                        return 'ok', '%s counts up to %s' % (v, ast.unparse(bound))
    return 'violated', 'the loop runs over an endless iterator and no exit depends on its count'


def ordinal(f, lp, cfg):
    """name of a loop that does not depend on line numbers"""
    t = ast.unparse(lp.ast.test) if isinstance(lp.ast, ast.While) else 'for ' + ast.unparse(lp.ast.target)
    return t.replace('\n', ' ')[:80]


def limits(P, rep):
    """a function with an iteration limit uses it as the bound of a loop or passes it on"""
    for f in P.fns:
        if f.kind != 'function' or f.mod.is_cy and False:
            continue
        for p in f.params + f.kwonly:
            if p.lower().replace('_', '') not in ('maxiter', 'maxit', 'maxiters', 'itmax', 'itermax'):
                continue
            used = False
            reads = [n for n in P.deep(f) if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load)]
            c = '%s %s' % (f, p)
            if not reads:
                stub = all(isinstance(s, (ast.Pass, ast.Raise, ast.Expr)) for s in f.body)
                if stub:
                    continue
                rep.bad('iteration limit is used', c, '%s never reads its iteration limit %s' % (f, p))
            else:
                rep.ok('iteration limit is used', c)


def c17(rep):
    rep.rule = ('control-flow graph of every function: for each while loop an exit test (loop condition, or a test that leaves on '
                'one branch) compares a counter or the size of a container with a bound, the counter is moved toward that bound '
                'on every path from the head of the loop back to it, is not reset or moved the other way inside the loop, the '
                'test is evaluated in every iteration, and the bound does not move away; a counter used as an index may instead '
                'run into IndexError; for loops run over finite sequences that their bodies do not lengthen; a function with an '
                'iteration limit reads it')
    rep.assumptions += ['loops that run until a set of change flags stays false are not judged',
                        'each single call made inside a loop returns (library routines, user functions)']
    P = Program()
    nw = nf = 0
    for f in P.fns:
        if f.kind not in ('function', 'module'):
            continue
        if not any(isinstance(n, (ast.While, ast.For)) for n in P.walk_scope(f)):
            continue
        cfg = CFG(f.body, str(f))
        for lp in cfg.loops:
            if isinstance(lp.ast, ast.While):
                nw += 1
                s, why = LoopCheck(P, f, cfg, lp).judge()
                rep.add('while loop is bounded', '%s while %s' % (f, ordinal(f, lp, cfg)), s, '%s: %s' % (where(f, lp.ast), why))
            else:
                nf += 1
                s, why = for_loop(P, f, cfg, lp)
                rep.add('for loop is finite', '%s %s' % (f, ordinal(f, lp, cfg)), s, '%s: %s' % (where(f, lp.ast), why))
    limits(P, rep)
    rep.note('while loops', nw)
    rep.note('for loops', nf)
    rep.floor = 60
    if nw + nf < 60:
        raise Broken('only %d loops found' % (nw + nf))
