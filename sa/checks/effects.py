"""C21 (no hidden state), C26 (drawing only on request) and C27 (interrupts and statuses are not swallowed)."""
import ast

from ..cfg import CFG, parts, stores
from ..flow import PKG, Program, bind_call
from ..report import Broken
from . import alias
from .alias import MUT_METH, SURE, Analysis, exported
from .names import where


# ---------------------------------------------------------------- C21
RANDOM = ('numpy.random.', 'random.', 'secrets.', 'uuid.')
AMBIENT = ('time.', 'datetime.', 'os.environ', 'os.getenv', 'os.urandom', 'os.getpid', 'builtins.id', 'builtins.input', 'builtins.hash',
           'locale.')
SETTERS = {'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.random.seed', 'random.seed', 'warnings.filterwarnings',
           'warnings.simplefilter', 'decimal.setcontext', 'locale.setlocale', 'sys.setrecursionlimit', 'matplotlib.use',
           'matplotlib.pyplot.switch_backend', 'matplotlib.pyplot.ion', 'matplotlib.pyplot.ioff', 'numpy.setbufsize', 'os.chdir',
           'os.putenv', 'sys.setswitchinterval', 'gc.disable'}
MUTABLE_CALLS = {'list', 'dict', 'set', 'defaultdict', 'deque', 'OrderedDict', 'zeros', 'ones', 'array', 'empty', 'full', 'bytearray'}


def mutable(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        nm = v.func.attr if isinstance(v.func, ast.Attribute) else v.func.id if isinstance(v.func, ast.Name) else ''
        return nm in MUTABLE_CALLS
    return False


def mangle(name, f):
    return name


def module_of(P, f, name):
    """module whose global the name is, read in scope f, or None"""
    kind, e = P.lookup(name, f)
    if kind == 'global' and e[0] == 'var':
        g = f.mod
        for _ in range(6):
            x = g.ns.get(name)
            if x is not None and x[0] == 'from' and x[1] in P.mods and x[2] == name:
                g = P.mods[x[1]]
        if name in g.fn.bound:
            return g
    return None


def global_uses(P):
    """{(module, name): {'mut': [(f, node)], 'clear': ..., 'read': ...}} for the module variables functions work on"""
    out = {}

    def put(m, name, how, f, n):
        out.setdefault((m.name, name), {'mut': [], 'clear': [], 'read': []})[how].append((f, n))
    for f in P.fns:
        if f.kind == 'module':
            continue
        special = set()
        for n in P.nodes(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in MUT_METH:
                m = module_of(P, f, n.func.value.id)
                if m is not None:
                    special.add(id(n.func.value))
                    put(m, n.func.value.id, 'clear' if n.func.attr == 'clear' else 'mut', f, n)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                m = module_of(P, f, n.value.id)
                if m is not None:
                    special.add(id(n.value))
                    whole = isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None
                    put(m, n.value.id, 'clear' if whole else 'mut', f, n)
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in f.globals:
                put(f.mod, n.target.id, 'mut', f, n)
                put(f.mod, n.target.id, 'read', f, n)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in f.globals:
                put(f.mod, n.id, 'clear', f, n)
                put(f.mod, n.id, 'mut', f, n)
        for n in P.nodes(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in special:
                m = module_of(P, f, n.id)
                if m is not None:
                    put(m, n.id, 'read', f, n)
    return out


def callees(P, f0, expr):
    """package functions an expression may call (nested functions handed on included)"""
    out = set()
    for n in ast.walk(expr):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, 'ctx', None), ast.Load):
            sc = getattr(n, '_scope', f0)
            e = P.resolve_expr(n, sc)
            if e and e[0] in ('func', 'method', 'unbound'):
                out.add(e[1])
            elif e and e[0] == 'class':
                g = P.find_method(e[1], '__init__')
                if g is not None:
                    out.add(g)
        if isinstance(n, ast.Lambda):
            out.add(n._fn)
    return out


def c21(rep):
    rep.rule = ('module variables, class attributes, function attributes and default arguments that functions change are listed; a '
                'module variable that is changed must be emptied on every path from the entry of an exported function to a '
                'place that reads it (called helpers included); default values that can be changed in place are neither changed '
                'nor returned; random generators, clocks, the environment and process-wide settings of numpy, mpmath, warnings, '
                'matplotlib and the linear programming library are touched only where listed')
    rep.assumptions += ['ive draws random vertices by design and precision.dps sets the working precision by design',
                        'objects keep what their own methods store in them (fitted models)']
    P = Program()
    ex = exported(P)
    if len(ex) < 40:
        raise Broken('only %d exported names found' % len(ex))
    uses = global_uses(P)
    # which functions read a changed variable before emptying it
    nvars = 0
    for (mn, name), u in sorted(uses.items()):
        readers = {f for f, _ in u['read']}
        if not u['mut']:
            continue
        nvars += 1
        c = '%s variable %s' % (mn, name)
        if not readers:
            rep.ok('no state between calls', c, 'never read')
            continue
        exposes = {}

        def exposed(f, stack=()):
            """does some path of f read the variable before emptying it?"""
            if f in exposes:
                return exposes[f]
            if f in stack:
                return None
            cfg = CFG(f.body, str(f))
            reads = {id(n) for g, n in u['read'] if g is f}
            clears = {id(n) for g, n in u['clear'] if g is f}
            seen, todo, hit = set(), [cfg.entry], None
            while todo and hit is None:
                n = todo.pop()
                if n in seen:
                    continue
                seen.add(n)
                stop = False
                ids = {id(x) for e in parts(n) for x in ast.walk(e)}
                if ids & reads:
                    hit = n
                    break
                for e in parts(n):
                    if isinstance(n.ast, (ast.FunctionDef, ast.ClassDef)):
                        continue
                    for g in callees(P, f, e):
                        h = exposed(g, stack + (f,))
                        if h:
                            hit = h
                    if isinstance(e, ast.AST):
                        for x in ast.walk(e):
                            if isinstance(x, alias.COMPS) and hasattr(x, '_fn'):
                                for y in P.deep(x._fn):
                                    if any(z is y for g, z in u['read']):
                                        hit = n
                if ids & clears:
                    stop = True
                if not stop:
                    todo += n.succ
            exposes[f] = hit
            return hit
        bad = None
        entries = []
        for nm, e in sorted(ex.items()):
            if e[0] == 'func':
                entries.append((nm, e[1]))
            else:
                entries += [('%s.%s' % (nm, m.name), m) for m in e[1].fn.children if m.kind == 'function']
        for nm, f in entries:
            h = exposed(f)
            if h:
                bad = (nm, h)
                rep.bad('no state between calls', c + ' in ' + nm, '%s reads %s (line %s), which earlier calls may have filled' % (
                    nm, name, getattr(h.ast, 'lineno', '?')))
        if bad is None:
            rep.ok('no state between calls', c, 'emptied before it is read')
    rep.note('module variables changed by functions', nvars)
    # class and function attributes, settings, randomness
    A = Analysis(P)
    A.run()
    nf = 0
    for f in P.fns:
        nf += 1
        for n in P.nodes(f):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                base = n.value
                while isinstance(base, (ast.Subscript,)):
                    base = base.value
                e = P.resolve_expr(base, f)
                attr = n.attr if isinstance(n, ast.Attribute) else None
                c = '%s writes %s' % (f, ast.unparse(n.value)[:60])
                if e and e[0] == 'class' and f.kind != 'module':
                    rep.bad('no class or function attribute is written', c, where(f, n))
                elif e and e[0] == 'func' and f.kind != 'module':
                    rep.bad('no class or function attribute is written', c, where(f, n))
                elif isinstance(base, ast.Name) and P.lookup(base.id, f)[0] in ('local', 'free') and \
                        isinstance(P.lookup(base.id, f)[1], object) and cls_param(P, f, base.id):
                    rep.bad('no class or function attribute is written', c, where(f, n))
                elif class_level_mutable(P, f, n):
                    rep.bad('no class or function attribute is written', c, where(f, n))
                elif e and e[0] in ('ext', 'mod') and (e[0] == 'ext' or e[1].split('.')[0] != PKG):
                    path = e[1]
                    allowed = (f.kind in ('module', 'class') and path.startswith(('cvxopt.solvers.options', 'mpmath.'))) \
                        or path.startswith('mpmath.') and f.cls is not None and f.cls.node.name == 'precision'
                    rep.add('library settings are left alone', c, 'ok' if allowed else 'violated',
                            '%s changes %s for the whole process' % (where(f, n), path))
                elif e and e[0] == 'mod' and f.kind != 'module':
                    rep.bad('no state between calls', c, '%s stores into a module' % where(f, n))
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METH and class_level_mutable(P, f, n.func):
                    rep.bad('no class or function attribute is written', '%s changes %s' % (f, ast.unparse(n.func.value)[:60]), where(f, n))
                e = P.resolve_expr(n.func, f)
                if e and e[0] == 'ext':
                    p = e[1]
                    c = '%s calls %s' % (f, p)
                    g = f
                    while g.parent is not None and g.parent.kind not in ('module', 'class'):
                        g = g.parent
                    if p.startswith(RANDOM) and p not in SETTERS:
                        rep.add('results are reproducible', c, 'ok' if random_allowed(P, ex, g) else 'violated',
                                '%s draws random numbers' % where(f, n))
                    elif any(p.startswith(a) for a in AMBIENT):
                        rep.bad('results are reproducible', c, '%s depends on more than its arguments' % where(f, n))
                    elif p in SETTERS:
                        rep.bad('library settings are left alone', c, '%s changes a process-wide setting' % where(f, n))
                    elif p.startswith('mpmath.') and p.endswith(('.workdps', '.workprec')):
                        rep.ok('library settings are left alone', c)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                e = P.resolve_expr(n, f)
                if e == ('ext', 'os.environ'):
                    rep.bad('results are reproducible', '%s reads os.environ' % f, where(f, n))
    # default values
    nd = 0
    for f in P.fns:
        if f.kind not in ('function', 'lambda') or f not in A.sum:
            continue
        for p, d in f.defaults.items():
            if not mutable(d):
                continue
            nd += 1
            c = '%s default of %s' % (f, p)
            s = A.sum[f]
            m = [at for k, (st, at) in s.mut.items() if k[1] is f and k[2] == p and st == SURE]
            r = [1 for k, st in s.ret.items() if k[1] is f and k[2] == p and st == SURE]
            if m:
                rep.bad('default values are constant', c, 'changed by ' + m[0])
            elif r:
                rep.bad('default values are constant', c, 'handed out to the caller, who may change it')
            else:
                rep.ok('default values are constant', c)
        if not any(mutable(d) for d in f.defaults.values()):
            rep.ok('default values are constant', str(f))
    rep.note('default values that could be changed', nd)
    rep.note('scopes', nf)
    rep.floor = 150


def random_allowed(P, ex, g):
    """is a function that draws random numbers reached only from ive?"""
    e = ex.get('ive')
    if e is None or e[0] != 'func':
        return False
    if g is e[1]:
        return True
    # a helper called by ive and by nothing else
    callers = set()
    for f in P.fns:
        for n in P.nodes(f):
            if isinstance(n, ast.Call):
                x = P.resolve_expr(n.func, f)
                if x and x[0] in ('func', 'method', 'unbound') and x[1] is g:
                    h = f
                    while h.parent is not None and h.parent.kind not in ('module', 'class'):
                        h = h.parent
                    callers.add(h)
    return callers == {e[1]} and g not in {x[1] for x in ex.values()}


def cls_param(P, f, name):
    """is the name the class parameter of a class method?"""
    g = P.lookup(name, f)[1]
    return g is not None and getattr(g, 'params', None) and g.params[0] == name and any(
        isinstance(d, ast.Name) and d.id == 'classmethod' for d in g.decor)


def class_level_mutable(P, f, n):
    """does n change, through self, a mutable attribute that exists only on the class?"""
    v = n.value
    while isinstance(v, ast.Subscript):
        v = v.value
    if not (isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name)):
        return False
    if v is n:
        return False
    k, g = P.lookup(v.value.id, f)
    if not (k in ('local', 'free') and g.has_self() and g.params and g.params[0] == v.value.id):
        return False
    for c in P.mro(g.cls):
        for m in c.fn.children:
            for x in P.deep(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == v.attr:
                    return False
        for st in c.node.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v.attr for t in st.targets):
                return mutable(st.value)
    return False


# ---------------------------------------------------------------- C26
WINDOW = ('matplotlib.pyplot.',)
QUIET_PLT = ('matplotlib.pyplot.get_cmap', 'matplotlib.pyplot.rcParams', 'matplotlib.pyplot.cm')
FILES = {'builtins.open', 'numpy.save', 'numpy.savetxt', 'numpy.savez', 'numpy.savez_compressed', 'os.remove', 'os.makedirs',
         'os.mkdir', 'os.rename', 'os.unlink', 'shutil.rmtree', 'shutil.copy', 'pickle.dump', 'json.dump', 'matplotlib.pyplot.savefig',
         'os.system', 'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'tempfile.mkdtemp', 'tempfile.mkstemp'}
FILE_METH = {'savefig', 'to_csv', 'to_excel', 'to_pickle', 'tofile', 'write_text', 'write_bytes', 'mkdir', 'unlink', 'writelines'}


def effect(P, f, n):
    """which of 'window' and 'file' a call causes"""
    if not isinstance(n, ast.Call):
        return []
    e = P.resolve_expr(n.func, f)
    if e and e[0] == 'ext':
        out = ['file'] if e[1] in FILES else []
        if e[1].startswith(WINDOW) and not e[1].startswith(QUIET_PLT):
            out.append('window')        # pyplot functions open a figure when there is none
        return out
    if isinstance(n.func, ast.Attribute) and n.func.attr in FILE_METH:
        return ['file']
    return []


def value(P, e, env, f, depth=0):
    """truth of a test when some options are known: True, False or None"""
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.Name):
        if e.id in env:
            return env[e.id]
        k, g = P.lookup(e.id, f)
        if k in ('local', 'free') and depth < 4:
            v = P.local_value(e.id, g)
            if v and v[0] == 'var' and v[1] is not None:
                return value(P, v[1], env, g, depth + 1)
        return None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = value(P, e.operand, env, f, depth)
        return None if v is None else not v
    if isinstance(e, ast.BoolOp):
        vs = [value(P, x, env, f, depth) for x in e.values]
        if isinstance(e.op, ast.And):
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        l, r = e.left, e.comparators[0]
        if isinstance(l, ast.Constant):
            l, r = r, l
        if isinstance(r, ast.Constant) and isinstance(r.value, bool):
            v = value(P, l, env, f, depth)
            if v is None:
                return None
            same = v == r.value
            return same if isinstance(e.ops[0], (ast.Eq, ast.Is)) else not same if isinstance(e.ops[0], (ast.NotEq, ast.IsNot)) else None
        return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
        return value(P, e.args[0], env, f, depth)
    return None


class Effects:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.cfg = {}

    def reach(self, f, env, stack=()):
        """{kind: (function, node)} of the effects some path of f can have when the options in env are known"""
        key = (f, tuple(sorted(env.items())))
        if key in self.memo:
            return self.memo[key]
        if key in stack or len(stack) > 12:
            return {}
        P = self.P
        if f not in self.cfg:
            self.cfg[f] = CFG(f.body, str(f))
        cfg = self.cfg[f]
        out = {}
        # a reassigned option is not known any more
        reassigned = {p for p in env if p in f.params + f.kwonly and any(p in stores(n) for n in cfg.nodes)}
        env = {k: v for k, v in env.items() if k not in reassigned}
        seen, todo = set(), [cfg.entry]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for e in parts(n):
                if not isinstance(n.ast, (ast.FunctionDef, ast.ClassDef)):
                    self.expr(f, e, env, out, stack + (key,))
            v = value(P, n.ast, env, f) if n.kind == 'test' else None
            for s in n.succ:
                if v is not None and n.pol.get(s.id) is not None and n.pol[s.id] != v:
                    continue
                todo.append(s)
        self.memo[key] = out
        return out

    def expr(self, f, e, env, out, stack):
        P = self.P
        if isinstance(e, ast.IfExp):
            self.expr(f, e.test, env, out, stack)
            v = value(P, e.test, env, f)
            if v is not False:
                self.expr(f, e.body, env, out, stack)
            if v is not True:
                self.expr(f, e.orelse, env, out, stack)
            return
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.expr(f, x, env, out, stack)
                v = value(P, x, env, f)
                if v is not None and v is isinstance(e.op, ast.Or):
                    return
            return
        if isinstance(e, ast.Lambda):
            for k, v in self.reach(e._fn, env, stack).items():
                out.setdefault(k, v)
            return
        if isinstance(e, ast.Call):
            sc = getattr(e, '_scope', f)
            for k in effect(P, sc, e):
                out.setdefault(k, (f, e))
            t = P.resolve_expr(e.func, sc)
            if t and t[0] in ('func', 'method', 'unbound', 'class'):
                g = P.find_method(t[1], '__init__') if t[0] == 'class' else t[1]
                if g is not None:
                    skip = 1 if t[0] == 'class' or t[0] == 'method' and not g.static() else 0
                    m = bind_call(e, g, skip)[1]
                    env2 = {}
                    for p in g.params + g.kwonly:
                        d = m.get(p, g.defaults.get(p) if not any(isinstance(a, ast.Starred) for a in e.args)
                                  and not any(x.arg is None for x in e.keywords) else None)
                        if d is not None:
                            v = value(P, d, env, f)
                            if v is not None and p in ('show', 'save', 'draw', 'plot', 'drawing'):
                                env2[p] = v
                    # a nested function sees the options of the enclosing one
                    h = g.parent
                    while h is not None and h.kind != 'module':
                        if h is f or self.inside(f, h):
                            for p, v in env.items():
                                if p not in g.bound:
                                    env2.setdefault(p, v)
                        h = h.parent
                    for kk, v in self.reach(g, env2, stack).items():
                        out.setdefault(kk, v)
        elif isinstance(e, ast.Name) and isinstance(e.ctx, ast.Load):
            t = P.resolve_expr(e, getattr(e, '_scope', f))
            if t and t[0] == 'func' and t[1].parent.kind != 'module':
                for k, v in self.reach(t[1], env, stack).items():
                    out.setdefault(k, v)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension, ast.stmt)) and not isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                self.expr(f, c, env, out, stack)

    def inside(self, f, h):
        while f is not None:
            if f is h:
                return True
            f = f.parent
        return False


def c26(rep):
    rep.rule = ('reachability of drawing and file-writing calls (matplotlib.pyplot, savefig, open and the like) over the control-flow '
                'graphs and call graph, pruning the branches decided by the options show and save: with show false no exported '
                'function other than the drawing class reaches a drawing call, without a true save none reaches a write, and with '
                'show true (and save true) the drawing functions do reach them')
    P = Program()
    ex = exported(P)
    if len(ex) < 40:
        raise Broken('only %d exported names found' % len(ex))
    E = Effects(P)
    drawers = 0
    for nm, e in sorted(ex.items()):
        fs = [(nm, e[1])] if e[0] == 'func' else [('%s.%s' % (nm, m.name), m) for m in e[1].fn.children if m.kind == 'function']
        for label, f in fs:
            if e[0] == 'class' and nm == 'IPlot':
                got = E.reach(f, {})
                if 'file' in got:
                    g, n = got['file']
                    rep.bad('no file without save', label, '%s writes a file' % where(g, n))
                else:
                    rep.ok('no file without save', label)
                continue
            ps = f.params + f.kwonly
            off = {p: False for p in ('show', 'save') if p in ps}
            got = E.reach(f, off)
            for kind, opt in (('window', 'show'), ('file', 'save')):
                rule = 'no window without show' if kind == 'window' else 'no file without save'
                hit = got.get(kind)
                if hit is None and opt in ps:
                    hit = E.reach(f, {opt: False}).get(kind) if kind == 'file' or True else None
                if hit:
                    rep.bad(rule, label, '%s reaches %s' % (label, where(*hit)))
                else:
                    rep.ok(rule, label)
            if 'show' in ps:
                drawers += 1
                on = E.reach(f, {'show': True})
                if 'window' in on:
                    rep.ok('show draws', label)
                else:
                    rep.bad('show draws', label, '%s: with show=True no drawing call is reached' % where(f, f.node))
            if 'save' in ps:
                on = E.reach(f, {'show': True, 'save': True})
                if 'file' in on:
                    rep.ok('save writes', label)
                else:
                    rep.bad('save writes', label, '%s: with save=True no file is written' % where(f, f.node))
    rep.note('functions that can draw', drawers)
    if drawers < 3:
        raise Broken('only %d drawing functions found' % drawers)
    # importing the package draws and writes nothing
    for m in P.mods.values():
        out = E.reach(m.fn, {})
        for k, v in out.items():
            rep.bad('importing has no effect', m.name, 'import reaches %s' % where(*v))
        if not out:
            rep.ok('importing has no effect', m.name)
    rep.floor = 200


# ---------------------------------------------------------------- C27
def catches_all(h):
    """does a handler catch KeyboardInterrupt and SystemExit?"""
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(t, ast.Name) and t.id in ('BaseException', 'KeyboardInterrupt', 'SystemExit', 'GeneratorExit') for t in ts)


def c27(rep):
    rep.rule = ('every exception handler of the package either cannot catch KeyboardInterrupt and SystemExit, or re-raises on every '
                'path; no return, break or continue sits in a finally block; contextlib.suppress and __exit__ methods do not '
                'swallow them; the consistency flag of clear_zero_rows is read before its other results on every path, and the '
                'refusal it stands for (a system 0 x >= positive) is not dropped')
    P = Program()
    n = 0
    for f in P.fns:
        if f.kind not in ('function', 'module', 'lambda'):
            continue
        for nd in P.nodes(f):
            if isinstance(nd, ast.ExceptHandler):
                n += 1
                c = '%s except %s' % (f, ast.unparse(nd.type) if nd.type is not None else '')
                if not catches_all(nd):
                    rep.ok('interrupts pass', c)
                else:
                    cfg = CFG(nd.body, str(f)) if not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(nd)) else None
                    ok = cfg is not None and cfg.exit not in cfg.reach([cfg.entry])
                    ok = ok and all(isinstance(x, ast.Raise) and (x.exc is None or isinstance(x.exc, ast.Name) and x.exc.id == nd.name)
                                    for x in ast.walk(nd) if isinstance(x, ast.Raise))
                    rep.add('interrupts pass', c, 'ok' if ok else 'violated', '%s swallows KeyboardInterrupt and SystemExit' % where(f, nd))
            if isinstance(nd, ast.Try) and nd.finalbody:
                n += 1
                bad = [x for s in nd.finalbody for x in ast.walk(s) if isinstance(x, (ast.Return, ast.Break, ast.Continue))
                       and not inside_loop(nd.finalbody, x)]
                c = '%s finally' % f
                if bad:
                    rep.bad('interrupts pass', c, '%s leaves a finally block, which discards the exception in flight' % where(f, bad[0]))
                else:
                    rep.ok('interrupts pass', c)
            if isinstance(nd, ast.Call):
                e = P.resolve_expr(nd.func, f)
                if e == ('ext', 'contextlib.suppress'):
                    n += 1
                    bad = any(isinstance(a, ast.Name) and a.id in ('BaseException', 'KeyboardInterrupt', 'SystemExit') for a in nd.args)
                    rep.add('interrupts pass', '%s suppress' % f, 'violated' if bad else 'ok', where(f, nd))
        if f.name == '__exit__':
            n += 1
            bad = [x for x in P.nodes(f) if isinstance(x, ast.Return) and x.value is not None
                   and not (isinstance(x.value, ast.Constant) and not x.value.value)]
            rep.add('interrupts pass', '%s' % f, 'violated' if bad else 'ok', '%s may swallow the exception in flight' % where(f, bad[0]) if bad else '')
        if f.kind == 'function' and f.name != '__exit__':
            rep.ok('interrupts pass', '%s handlers' % f)
    rep.note('handlers, finally blocks and exits', n)
    # statuses of clear_zero_rows
    target = None
    ex = exported(P)
    e = ex.get('clear_zero_rows')
    if e is None or e[0] != 'func':
        raise Broken('clear_zero_rows not found')
    target = e[1]
    k = 0
    for f in P.fns:
        if f.kind != 'function':
            continue
        cfg = None
        for nd in P.nodes(f):
            if isinstance(nd, ast.Call):
                t = P.resolve_expr(nd.func, f)
                if not (t and t[0] == 'func' and t[1] is target):
                    continue
                k += 1
                c = '%s calls clear_zero_rows' % f
                cfg = cfg or CFG(f.body, str(f))
                home = [x for x in cfg.nodes if any(y is nd for p in parts(x) for y in ast.walk(p))]
                if not home or not isinstance(home[0].ast, ast.Assign) or home[0].ast.value is not nd:
                    rep.undecided('consistency flag is heeded', c, 'the result is used in a form that is not followed')
                    continue
                t0 = home[0].ast.targets[0]
                if not isinstance(t0, ast.Tuple) or len(t0.elts) != 3:
                    rep.undecided('consistency flag is heeded', c, 'the result is used in a form that is not followed')
                    continue
                flag = t0.elts[2]
                if not isinstance(flag, ast.Name):
                    rep.bad('consistency flag is heeded', c, '%s drops the flag' % where(f, nd))
                    continue
                others = {x.id for y in t0.elts[:2] for x in ast.walk(y) if isinstance(x, ast.Name)}
                # every path to a use of the rows passes a test of the flag
                seen, todo, bad, tested = set(), list(home[0].succ), None, False
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    names = {y.id for p in parts(x) for y in ast.walk(p) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
                    if flag.id in names:
                        tested = True
                        continue
                    if names & others and not (isinstance(x.ast, ast.Return)):
                        bad = x
                        break
                    if flag.id in stores(x):
                        continue
                    todo += x.succ
                if bad is not None or not tested:
                    rep.bad('consistency flag is heeded', c, '%s uses the remaining rows without looking at the flag' % where(f, nd))
                else:
                    rep.ok('consistency flag is heeded', c)
    rep.note('calls of clear_zero_rows', k)
    if k < 2:
        raise Broken('only %d calls of clear_zero_rows found' % k)
    rep.floor = 150


def inside_loop(body, x):
    """does a break or continue belong to a loop inside the block?"""
    if isinstance(x, ast.Return):
        return False
    for s in body:
        for y in ast.walk(s):
            if isinstance(y, (ast.For, ast.While)) and any(z is x for z in ast.walk(y)):
                return True
    return False
