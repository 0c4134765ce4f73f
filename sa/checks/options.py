"""C20: every option a function declares has an effect and is handed on under its own name."""
import ast

from ..cfg import CFG, parts, stores
from ..flow import PKG, Program, bind_call
from ..report import Broken
from .alias import exported
from .names import where


def reads(P, n, p, f):
    """does a node read p (in a nested function counts)?"""
    for e in parts(n):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load):
                return True
        if isinstance(n.ast, ast.AugAssign) and isinstance(n.ast.target, ast.Name) and n.ast.target.id == p:
            return True
    if isinstance(n.ast, (ast.FunctionDef, ast.ClassDef)):
        for x in ast.walk(n.ast):
            if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load):
                return True
    if n.kind == 'stmt' and isinstance(n.ast, (ast.Assign, ast.Expr)):
        for x in ast.walk(n.ast):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'vars'):
                return True
    return False


def live_at_entry(P, f, p, cfg):
    seen, todo = set(), [cfg.entry]
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n.ast is not None:
            if reads(P, n, p, f):
                return True
            if p in stores(n):
                continue
        todo += n.succ
    return False


def stub(f):
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def family(P, f):
    """is f one of several methods of one name along an inheritance line?"""
    if f.cls is None:
        return False
    for c in P.classes:
        if c is f.cls:
            continue
        if (f.cls in P.mro(c) or c in P.mro(f.cls)) and f.name in c.methods:
            return True
        # one callback implemented by several classes
        if f.name in c.methods and not f.name.startswith('__'):
            return True
    return False


def depends(P, e, p, f, depth=0):
    """does an expression depend on the parameter p of f (through local definitions)?"""
    for x in ast.walk(e):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            if x.id == p:
                return True
            if depth < 4 and x.id in f.bound:
                for n in P.nodes(f):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets):
                        if depends(P, n.value, p, f, depth + 1):
                            return True
    return False


def passed_through(P, f, p, callee):
    """is the option only ever handed to options of the same name of other package functions (and never to this callee)?"""
    total = handed = 0
    todo = [f]
    while todo:
        h = todo.pop()
        if h is not f and p in h.bound:
            continue
        todo += h.children
        for n in P.nodes(h):
            if isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Load):
                total += 1
            if isinstance(n, ast.Call):
                e = P.resolve_expr(n.func, h)
                if e is None or e[0] not in ('func', 'method', 'unbound', 'class'):
                    continue
                g = P.find_method(e[1], '__init__') if e[0] == 'class' else e[1]
                if g is None:
                    continue
                skip = 1 if e[0] == 'class' or e[0] == 'method' and not g.static() or any(
                    isinstance(d, ast.Name) and d.id == 'classmethod' for d in g.decor) else 0
                a = bind_call(n, g, skip)[1].get(p)
                if isinstance(a, ast.Name) and a.id == p:
                    handed += 1
                    if g is callee:
                        return False        # some calls of the callee have no use for it
    return handed > 0 and handed == total


def handed_elsewhere(P, f0, p, callee):
    """does another return of the same function hand the option to the callee? (then the paths differ in whether it applies)"""
    for n in P.nodes(f0):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
            e = P.resolve_expr(n.value.func, f0)
            if e and e[0] in ('func', 'method', 'unbound') and e[1] is callee:
                a = bind_call(n.value, callee, 1 if e[0] == 'method' and not callee.static() else 0)[1].get(p)
                if isinstance(a, ast.Name) and a.id == p:
                    return True
    return False


def owner(f):
    """the nearest enclosing named function"""
    while f is not None and f.kind in ('lambda', 'comp'):
        f = f.parent
    return f


def c20(rep):
    rep.rule = ('liveness on the control-flow graph: the value a caller gives to each parameter of an exported function or method '
                'reaches a read on some path (it is not ignored and not overwritten first); for each call between functions of the '
                'package that share a parameter name, the value handed over for that name depends on the caller\'s own parameter '
                'of that name and is not another option of the callee')
    rep.assumptions += ['parameters required by an interface (overriding methods, special methods, stubs) may be unused']
    P = Program()
    ex = exported(P)
    if len(ex) < 40:
        raise Broken('only %d exported names found' % len(ex))
    todo = []
    for nm, e in sorted(ex.items()):
        if e[0] == 'func':
            todo.append((nm, e[1]))
        else:
            for k in P.mro(e[1]):
                for m in k.fn.children:
                    if m.kind == 'function':
                        todo.append(('%s.%s' % (k.node.name, m.name), m))
    done = set()
    n = 0
    for label, f in todo:
        if f in done:
            continue
        done.add(f)
        if stub(f) or f.name.startswith('_') and f.name not in ('__init__', '__cinit__'):
            continue
        cfg = CFG(f.body, str(f))
        fam = family(P, f)
        for p in f.params[1 if f.has_self() else 0:] + f.kwonly + ([f.kwarg] if f.kwarg else []):
            if p.startswith('_') or p in ('cls',):
                continue
            n += 1
            c = '%s parameter %s' % (label, p)
            if live_at_entry(P, f, p, cfg):
                rep.ok('parameter has an effect', c)
            elif fam and p not in f.defaults:
                rep.ok('parameter has an effect', c, 'part of an interface')
            else:
                rep.bad('parameter has an effect', c, '%s: the value given for %s is never read' % (where(f, f.node), p))
    rep.note('parameters', n)
    # hand-over
    m = 0
    for f0 in P.fns:
        f = owner(f0)
        if f is None or f.kind != 'function':
            continue
        for nd in P.nodes(f0):
            if not isinstance(nd, ast.Call):
                continue
            visible = {}
            h = f
            while h is not None and h.kind != 'module':
                for p in h.params + h.kwonly:
                    if p in h.defaults:
                        visible.setdefault(p, h)
                h = h.parent
            for kw in nd.keywords:
                if kw.arg in visible and isinstance(kw.value, ast.Name) and kw.value.id in visible and kw.value.id != kw.arg:
                    rep.bad('options are not swapped', '%s passes %s' % (f, kw.arg), '%s: %s receives %s' % (where(f0, nd), kw.arg, kw.value.id))
                elif kw.arg in visible:
                    rep.ok('options are not swapped', '%s passes %s' % (f, kw.arg))
            e = P.resolve_expr(nd.func, f0)
            if e is None or e[0] not in ('func', 'method', 'unbound', 'class'):
                continue
            if e[0] == 'class':
                g = P.find_method(e[1], '__init__')
                skip = 1
            else:
                g = e[1]
                skip = 1 if e[0] == 'method' and not g.static() else 0
                if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in g.decor):
                    skip = 1
            if g is None:
                continue
            err, got, complete = bind_call(nd, g, skip)
            gp = g.params[skip:] + g.kwonly
            tail = any(isinstance(x, ast.Return) and x.value is nd for x in P.nodes(f0))
            # enclosing functions' parameters are visible too
            fp = {}
            h = f
            while h is not None and h.kind != 'module':
                for p in h.params + h.kwonly:
                    fp.setdefault(p, h)
                h = h.parent
            for p in gp:
                if p not in fp or p not in fp[p].defaults:
                    continue
                c = '%s hands %s to %s' % (f, p, g)
                if p in got:
                    m += 1
                    a = got[p]
                    if depends(P, a, p, fp[p]) or fp[p] is not f and depends(P, a, p, f):
                        rep.ok('option is handed on', c)
                    elif isinstance(a, ast.Name) and a.id in fp and a.id in gp and a.id != p:
                        rep.bad('option is handed on', c, '%s: %s of %s receives %s' % (where(f0, nd), p, g, a.id))
                    elif isinstance(a, ast.Constant) and tail and not handed_elsewhere(P, f0, p, g):
                        rep.bad('option is handed on', c, '%s delegates to %s with a fixed %s' % (where(f0, nd), g, p))
                    else:
                        rep.undecided('option is handed on', c, '%s: %s receives %s' % (where(f0, nd), p, ast.unparse(a)[:60]))
                elif complete and p in g.defaults and p in fp[p].defaults:
                    m += 1
                    rep.add('option is handed on', c, 'violated' if tail and not handed_elsewhere(P, f0, p, g)
                            or passed_through(P, fp[p], p, g) else 'undecided',
                            '%s: %s of %s is left at its default' % (where(f0, nd), p, g))
    rep.note('handed-over options', m)
    rep.floor = 200
