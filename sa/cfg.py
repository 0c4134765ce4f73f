"""Control-flow graph of one scope."""
import ast


class Node:
    __slots__ = ('id', 'kind', 'ast', 'succ', 'pred', 'loop', 'pol')

    def __init__(self, i, kind, a, loop):
        self.id, self.kind, self.ast, self.loop = i, kind, a, loop
        self.succ, self.pred = [], []
        self.pol = {}               # successor id -> outcome of the test (True, False)

    def __repr__(self):
        return '%d:%s' % (self.id, self.kind)


class Loop:
    def __init__(self, node, parent):
        self.ast, self.parent = node, parent
        self.head = None            # the test (while) or iter (for) node
        self.nodes = set()          # nodes of the body and of the head
        self.backs = []             # nodes with an edge to the head


class CFG:
    def __init__(self, body, name=''):
        self.name = name
        self.nodes = []
        self.loops = []
        self.entry = self.new('entry', None)
        self.exit = self.new('exit', None)
        self.err = self.new('raise', None)
        self.loopstack, self.trys, self.finals = [], [], []
        end = self.block(body, [self.entry])
        self.link(end, self.exit)

    def new(self, kind, a):
        n = Node(len(self.nodes), kind, a, self.loopstack[-1] if getattr(self, 'loopstack', None) else None)
        self.nodes.append(n)
        l = n.loop
        while l is not None:
            l.nodes.add(n)
            l = l.parent
        return n

    def link(self, froms, to):
        for f in froms:
            pol = None
            if isinstance(f, tuple):
                f, pol = f
            if to not in f.succ:
                f.succ.append(to)
                to.pred.append(f)
            if pol is not None:
                # both outcomes may lead to the same node
                f.pol[to.id] = None if to.id in f.pol and f.pol[to.id] != pol else pol

    def add(self, kind, a, froms):
        n = self.new(kind, a)
        self.link(froms, n)
        for hs in self.trys:
            for h in hs:
                self.link([n], h)
        return n

    def block(self, body, cur):
        for st in body:
            cur = self.stmt(st, cur)
        return cur

    def const(self, t):
        return bool(t.value) if isinstance(t, ast.Constant) else None

    def stmt(self, st, cur):
        if isinstance(st, ast.If):
            t = self.add('test', st.test, cur)
            c = self.const(st.test)
            a = self.block(st.body, [(t, True)] if c is not False else [])
            b = self.block(st.orelse, [(t, False)] if c is not True else [])
            return a + b
        if isinstance(st, (ast.While, ast.For, ast.AsyncFor)):
            lp = Loop(st, self.loopstack[-1] if self.loopstack else None)
            self.loops.append(lp)
            pre = cur
            if not isinstance(st, ast.While):
                pre = [self.add('expr', st.iter, cur)]
            self.loopstack.append(lp)
            head = self.add('test' if isinstance(st, ast.While) else 'iter', st.test if isinstance(st, ast.While) else st, pre)
            lp.head = head
            lp.breaks = []
            c = self.const(st.test) if isinstance(st, ast.While) else None
            lp.ends = []
            end = self.block(st.body, [(head, True)] if c is not False else [])
            lp.backs = [x[0] if isinstance(x, tuple) else x for x in end] + lp.ends
            self.link(end, head)
            self.loopstack.pop()
            out = [(head, False)] if c is not True else []
            out = self.block(st.orelse, out)
            return out + lp.breaks
        if isinstance(st, ast.Break):
            n = self.add('break', st, cur)
            lp = self.loopstack[-1]
            tail = self.leave([n], st)
            lp.breaks += tail
            return []
        if isinstance(st, ast.Continue):
            n = self.add('continue', st, cur)
            lp = self.loopstack[-1]
            lp.ends.append(n)
            self.link([n], lp.head)
            return []
        if isinstance(st, ast.Return):
            n = self.add('return', st, cur)
            self.link([n], self.exit)
            return []
        if isinstance(st, ast.Raise):
            n = self.add('raisestmt', st, cur)
            self.link([n], self.err)
            return []
        if isinstance(st, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            heads = [self.new('handler', h) for h in st.handlers]
            self.trys.append(heads)
            end = self.block(st.body, cur)
            self.trys.pop()
            end = self.block(st.orelse, end)
            for h, hd in zip(st.handlers, heads):
                end = end + self.block(h.body, [hd])
            if st.finalbody:
                end = self.block(st.finalbody, end)
            return end
        if isinstance(st, (ast.With, ast.AsyncWith)):
            n = self.add('with', st, cur)
            return self.block(st.body, [n])
        if isinstance(st, ast.Match):
            n = self.add('expr', st.subject, cur)
            out = [n]
            for c in st.cases:
                p = self.add('case', c, [n])
                out = out + self.block(c.body, [p])
            return out
        if isinstance(st, ast.Assert):
            t = self.add('test', st.test, cur)
            self.link([(t, False)], self.err)
            return [(t, True)]
        n = self.add('stmt', st, cur)
        return [n]

    def leave(self, froms, st):
        return froms

    # ------------------------------------------------------------ queries
    def reach(self, start, avoid=(), within=None):
        """nodes reachable from the given nodes (not entering avoided nodes, staying inside a set)"""
        seen, todo = set(), list(start)
        while todo:
            n = todo.pop()
            if n in seen or n in avoid or (within is not None and n not in within):
                continue
            seen.add(n)
            todo += n.succ
        return seen

    def back_reachable(self, lp, avoid):
        """can one iteration run from the head back to the head without entering the avoided nodes?"""
        first = [s for s in lp.head.succ if s in lp.nodes and lp.head.pol.get(s.id, True) is not False]
        seen = set()
        todo = [n for n in first]
        while todo:
            n = todo.pop()
            if n is lp.head:
                return True
            if n in seen or n in avoid or n not in lp.nodes:
                continue
            seen.add(n)
            todo += n.succ
        return False


def stores(n):
    """names a node assigns (rebinds)"""
    a = n.ast
    out = set()
    if a is None:
        return out

    def tg(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    if n.kind == 'iter':
        tg(a.target)
    elif n.kind == 'with':
        for it in a.items:
            if it.optional_vars is not None:
                tg(it.optional_vars)
    elif n.kind == 'handler':
        if a.name:
            out.add(a.name)
    elif n.kind == 'case':
        for x in ast.walk(a.pattern):
            if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                out.add(x.name)
    elif isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.add(a.name)
    elif isinstance(a, (ast.Import, ast.ImportFrom)):
        out |= {(x.asname or x.name.split('.')[0]) for x in a.names}
    else:
        for x in ast.walk(a):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def parts(n):
    """expressions a node evaluates (bodies of nested functions excluded)"""
    a = n.ast
    if a is None:
        return []
    if n.kind == 'iter':
        return [a.target]
    if n.kind == 'with':
        return [x for it in a.items for x in (it.context_expr, it.optional_vars) if x is not None]
    if n.kind == 'handler':
        return [a.type] if a.type is not None else []
    if n.kind == 'case':
        return [a.guard] if a.guard is not None else []
    if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return a.decorator_list + a.args.defaults + [x for x in a.args.kw_defaults if x is not None]
    if isinstance(a, ast.ClassDef):
        return a.bases + a.decorator_list
    return [a]
