"""Cython front end: the Cython compiler's own parser builds the tree, this module
re-expresses it as a standard `ast` tree plus C-type annotations, so that one set of
analyses serves .py and .pyx sources alike.

C types survive as annotations `__c__('double')` on variables, parameters and returns.
"""
import ast
import re


class CyUnsupported(Exception):
    pass


def _loc(new, node):
    pos = getattr(node, 'pos', None)
    line, col = (pos[1], pos[2]) if pos else (1, 0)
    for n in ast.walk(new):
        if not hasattr(n, 'lineno') and isinstance(n, (ast.expr, ast.stmt, ast.excepthandler, ast.arg,
                                                       ast.keyword, ast.alias)):
            n.lineno = n.end_lineno = line
            n.col_offset = n.end_col_offset = col
    return new


def cann(ctype):
    return ast.Call(ast.Name('__c__', ast.Load()), [ast.Constant(ctype)], [])


_BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod,
        '**': ast.Pow, '@': ast.MatMult, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor,
        '<<': ast.LShift, '>>': ast.RShift}
_CMP = {'<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, '==': ast.Eq, '!=': ast.NotEq, '<>': ast.NotEq,
        'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn}


class Conv:
    def __init__(self):
        self.typedefs = {}

    # ---------------------------------------------------------------- types
    def ctype(self, t):
        n = type(t).__name__
        if n == 'CSimpleBaseTypeNode':
            if t.name is None:
                return 'object'
            name = t.name
            if t.is_basic_c_type:
                if t.longness:
                    return 'long ' * t.longness + name if name != 'int' else 'int'
                return name
            return self.typedefs.get(name, name)
        if n in ('CConstTypeNode', 'CConstOrVolatileTypeNode'):
            return self.ctype(t.base_type)
        if n == 'MemoryViewSliceTypeNode':
            return 'memoryview'
        if n == 'CTupleBaseTypeNode':
            return 'ctuple'
        return n

    def decl(self, d):
        """-> (name, default, kind, func declarator or None)"""
        n = type(d).__name__
        if n == 'CNameDeclaratorNode':
            return d.name, d.default, 'plain', None
        if n == 'CPtrDeclaratorNode':
            name, default, k, f = self.decl(d.base)
            return name, default, 'ptr' if f is None else k, f
        if n == 'CFuncDeclaratorNode':
            name, default, k, f = self.decl(d.base)
            return name, default, 'func', d
        if n == 'CArrayDeclaratorNode':
            name, default, k, f = self.decl(d.base)
            return name, default, 'array', f
        raise CyUnsupported(n)

    # ---------------------------------------------------------- expressions
    def e(self, n, ctx=None):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise CyUnsupported('%s at %s' % (type(n).__name__, getattr(n, 'pos', None)))
        return _loc(m(n), n)

    def store(self, x):
        for n in ast.walk(x):
            pass
        def set_(y):
            if isinstance(y, (ast.Name, ast.Attribute, ast.Subscript, ast.Starred, ast.Tuple, ast.List)):
                y.ctx = ast.Store()
            if isinstance(y, (ast.Tuple, ast.List)):
                for z in y.elts:
                    set_(z)
            if isinstance(y, ast.Starred):
                set_(y.value)
        set_(x)
        return x

    def e_NameNode(self, n): return ast.Name(str(n.name), ast.Load())
    def e_AttributeNode(self, n): return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def e_IntNode(self, n):
        v = str(n.value).rstrip('uUlL')
        if re.fullmatch(r'0[0-7]+', v):
            return ast.Constant(int(v, 8))
        return ast.Constant(int(v, 0))

    def e_FloatNode(self, n): return ast.Constant(float(str(n.value)))
    def e_ImagNode(self, n): return ast.Constant(complex(0, float(str(n.value))))
    def e_BoolNode(self, n): return ast.Constant(bool(n.value))
    def e_NoneNode(self, n): return ast.Constant(None)
    def e_EllipsisNode(self, n): return ast.Constant(Ellipsis)
    def e_UnicodeNode(self, n): return ast.Constant(str(n.value))
    e_StringNode = e_IdentifierStringNode = e_UnicodeNode
    def e_BytesNode(self, n): return ast.Constant(bytes(str(n.value), 'latin1'))
    def e_CharNode(self, n): return ast.Constant(str(n.value))
    def e_TupleNode(self, n): return ast.Tuple([self.e(x) for x in n.args], ast.Load())
    def e_ListNode(self, n): return ast.List([self.e(x) for x in n.args], ast.Load())
    def e_SetNode(self, n): return ast.Set([self.e(x) for x in n.args])

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs], [self.e(i.value) for i in n.key_value_pairs])

    def e_SimpleCallNode(self, n):
        return ast.Call(self.e(n.function), [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        args = self.star(n.positional_args)
        kws = []
        k = n.keyword_args
        def addkw(k):
            if k is None:
                return
            t = type(k).__name__
            if t == 'DictNode':
                for i in k.key_value_pairs:
                    kws.append(ast.keyword(str(i.key.value), self.e(i.value)))
            elif t == 'MergedDictNode':
                for x in k.keyword_args:
                    addkw(x)
            else:
                kws.append(ast.keyword(None, self.e(k)))
        addkw(k)
        return ast.Call(self.e(n.function), args, kws)

    def star(self, n):
        t = type(n).__name__
        if t == 'TupleNode':
            return [self.e(x) for x in n.args]
        if t == 'MergedSequenceNode':
            out = []
            for x in n.args:
                if type(x).__name__ == 'TupleNode':
                    out += [self.e(y) for y in x.args]
                else:
                    out.append(ast.Starred(self.e(x), ast.Load()))
            return out
        if t == 'AsTupleNode':
            return [ast.Starred(self.e(n.arg), ast.Load())]
        return [ast.Starred(self.e(n), ast.Load())]

    def e_AsTupleNode(self, n): return ast.Call(ast.Name('tuple', ast.Load()), [self.e(n.arg)], [])
    def e_StarredUnpackingNode(self, n): return ast.Starred(self.e(n.target), ast.Load())
    def e_MergedSequenceNode(self, n):
        return ast.Tuple(self.star(n), ast.Load())

    def e_binop(self, n):
        return ast.BinOp(self.e(n.operand1), _BIN[n.operator](), self.e(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_MatMultNode = e_binop
    e_IntBinopNode = e_BitwiseOrNode = e_NumBinopNode = e_binop

    def e_UnaryMinusNode(self, n):
        x = self.e(n.operand)
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool):
            return ast.Constant(-x.value)
        return ast.UnaryOp(ast.USub(), x)
    def e_UnaryPlusNode(self, n): return ast.UnaryOp(ast.UAdd(), self.e(n.operand))
    def e_TildeNode(self, n): return ast.UnaryOp(ast.Invert(), self.e(n.operand))
    def e_NotNode(self, n): return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_BoolBinopNode(self, n):
        op = ast.And() if n.operator == 'and' else ast.Or()
        vals = []
        for x in (self.e(n.operand1), self.e(n.operand2)):
            if isinstance(x, ast.BoolOp) and type(x.op) is type(op) and x is not None and not vals:
                vals += x.values
            else:
                vals.append(x)
        return ast.BoolOp(op, vals)

    def e_PrimaryCmpNode(self, n):
        left = self.e(n.operand1)
        ops, comps = [_CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(_CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(left, ops, comps)

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(getattr(n, "condition", None) or n.test), self.e(n.true_val), self.e(n.false_val))

    def e_IndexNode(self, n): return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceIndexNode(self, n):
        sl = ast.Slice(self.e(n.start) if n.start else None, self.e(n.stop) if n.stop else None, None)
        return ast.Subscript(self.e(n.base), sl, ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: None if x is None or type(x).__name__ == 'NoneNode' else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.e(v) for v in n.values])

    def e_FormattedValueNode(self, n):
        return ast.FormattedValue(self.e(n.value), -1, None)

    def e_TypecastNode(self, n):
        name, _, kind, _ = self.decl(n.declarator)
        t = self.ctype(n.base_type) if kind == 'plain' else 'ptr'
        return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(t), self.e(n.operand)], [])

    def e_LambdaNode(self, n):
        a = self.args(n.args, n.star_arg, n.starstar_arg)
        body = n.result_expr if getattr(n, 'result_expr', None) is not None else None
        if body is None:
            st = n.body
            while type(st).__name__ == 'StatListNode':
                st = st.stats[-1]
            body = st.value
        return ast.Lambda(a, self.e(body))

    def _gen(self, loop):
        """loop statement of a comprehension -> (generators, element append/yield node)"""
        gens = []
        while True:
            t = type(loop).__name__
            if t in ('ForInStatNode',):
                seq = loop.iterator.sequence
                gens.append(ast.comprehension(self.store(self.e(loop.target)), self.e(seq), [], 0))
                loop = loop.body
            elif t == 'IfStatNode':
                gens[-1].ifs.append(self.e(loop.if_clauses[0].condition))
                loop = loop.if_clauses[0].body
            elif t == 'StatListNode' and len(loop.stats) == 1:
                loop = loop.stats[0]
            elif t == 'ExprStatNode':
                loop = loop.expr
            else:
                return gens, loop

    def e_ComprehensionNode(self, n):
        gens, el = self._gen(n.loop)
        if type(el).__name__ == 'DictComprehensionAppendNode':
            return ast.DictComp(self.e(el.key_expr), self.e(el.value_expr), gens)
        kind = str(getattr(n, 'type', '')) 
        cls = ast.SetComp if 'set' in kind else ast.ListComp
        return cls(self.e(el.expr), gens)

    def e_GeneratorExpressionNode(self, n):
        gens, el = self._gen(n.loop)
        return ast.GeneratorExp(self.e(el.arg if hasattr(el, 'arg') else el.expr), gens)

    e_InlinedGeneratorExpressionNode = e_GeneratorExpressionNode

    def e_AssignmentExpressionNode(self, n):
        return ast.NamedExpr(self.store(self.e(n.lhs)), self.e(n.rhs))

    def e_AmpersandNode(self, n):
        return ast.Call(ast.Name('__addr__', ast.Load()), [self.e(n.operand)], [])

    def e_SizeofTypeNode(self, n): return ast.Call(ast.Name('__sizeof__', ast.Load()), [], [])

    # ----------------------------------------------------------- statements
    def body(self, n):
        if n is None:
            return [ast.Pass(lineno=1, col_offset=0)]
        out = self.s(n)
        return out or [_loc(ast.Pass(), n)]

    def s(self, n):
        if n is None:
            return []
        t = type(n).__name__
        if t == 'StatListNode' or t == 'CDefExternNode' and False:
            out = []
            for x in n.stats:
                out += self.s(x)
            return out
        m = getattr(self, 's_' + t, None)
        if m is None:
            raise CyUnsupported('%s at %s' % (t, getattr(n, 'pos', None)))
        r = m(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        return [_loc(x, n) for x in r]

    def s_PassStatNode(self, n): return ast.Pass()
    def s_ExprStatNode(self, n): return ast.Expr(self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        t = type(n.rhs).__name__
        if t == 'ImportNode':
            mod = str(n.rhs.module_name.value)
            asname = str(n.lhs.name)
            top = mod.split('.')[0]
            return ast.Import([ast.alias(mod, None if asname == top and '.' not in mod else asname)])
        return ast.Assign([self.store(self.e(n.lhs))], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.store(self.e(x)) for x in n.lhs_list], self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.store(self.e(n.lhs)), _BIN[n.operator](), self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n): return [y for x in n.stats for y in self.s(x)]

    def s_ReturnStatNode(self, n): return ast.Return(self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        et = self.e(n.exc_type) if n.exc_type else None
        if et is not None and n.exc_value is not None:
            et = ast.Call(et, [self.e(n.exc_value)], [])
        return ast.Raise(et, self.e(n.cause) if getattr(n, 'cause', None) else None)

    def s_ReraiseStatNode(self, n): return ast.Raise(None, None)

    def s_AssertStatNode(self, n):
        cond = getattr(n, 'condition', None)
        exc = getattr(n, 'exception', None)
        msg = None
        if exc is not None and getattr(exc, 'exc_value', None) is not None:
            v = exc.exc_value
            if type(v).__name__ == 'TupleNode':
                v = v.args[0] if v.args else None
            msg = self.e(v) if v is not None else None
        return ast.Assert(self.e(cond), msg)

    def s_IfStatNode(self, n):
        cur = self.body(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            cur = [_loc(ast.If(self.e(c.condition), self.body(c.body), cur), c)]
        return cur

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.body(n.body), self.body(n.else_clause) if n.else_clause else [])

    def s_ForInStatNode(self, n):
        return ast.For(self.store(self.e(n.target)), self.e(n.iterator.sequence), self.body(n.body),
                       self.body(n.else_clause) if n.else_clause else [])

    def s_BreakStatNode(self, n): return ast.Break()
    def s_ContinueStatNode(self, n): return ast.Continue()
    def s_DelStatNode(self, n): return ast.Delete([self.store(self.e(x)) for x in n.args])
    def s_GlobalNode(self, n): return ast.Global([str(x) for x in n.names])
    def s_NonlocalNode(self, n): return ast.Nonlocal([str(x) for x in n.names])

    def s_WithStatNode(self, n):
        tgt = self.store(self.e(n.target)) if n.target is not None else None
        m = n.manager
        if type(m).__name__ == 'ProxyNode':
            m = m.arg
        return ast.With([ast.withitem(self.e(m), tgt)], self.body(n.body))

    def s_GILStatNode(self, n): return self.body(n.body)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            t = None
            if c.pattern:
                pats = [self.e(p) for p in c.pattern]
                t = pats[0] if len(pats) == 1 else ast.Tuple(pats, ast.Load())
            name = str(c.target.name) if c.target is not None else None
            hs.append(_loc(ast.ExceptHandler(t, name, self.body(c.body)), c))
        return ast.Try(self.body(n.body), hs, self.body(n.else_clause) if n.else_clause else [], [])

    def s_TryFinallyStatNode(self, n):
        inner = self.body(n.body)
        if len(inner) == 1 and isinstance(inner[0], ast.Try) and not inner[0].finalbody:
            inner[0].finalbody = self.body(n.finally_clause)
            return inner[0]
        return ast.Try(inner, [], [], self.body(n.finally_clause))

    def s_CVarDefNode(self, n):
        out = []
        base = self.ctype(n.base_type)
        for d in n.declarators:
            name, default, kind, f = self.decl(d)
            if kind == 'func':
                continue
            t = base if kind == 'plain' else kind
            out.append(ast.AnnAssign(ast.Name(str(name), ast.Store()), cann(t),
                                     self.e(default) if default is not None else None, 1))
        return out

    def s_CTypeDefNode(self, n):
        name, _, kind, _ = self.decl(n.declarator)
        if kind == 'plain':
            self.typedefs[name] = self.ctype(n.base_type)
        return None

    def s_CImportStatNode(self, n):
        return ast.Import([ast.alias('__cimport__.' + str(n.module_name), str(n.as_name or n.module_name).split('.')[0])])

    def s_FromCImportStatNode(self, n):
        al = []
        for it in n.imported_names:
            # (pos, name, as_name[, kind])
            al.append(ast.alias(str(it[1]), str(it[2]) if it[2] else None))
        return ast.ImportFrom('__cimport__.' + str(n.module_name), al, 0)

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        level = n.module.level or 0
        al = []
        for name, target in n.items:
            tn = str(target.name)
            al.append(ast.alias(str(name), tn if tn != str(name) else None))
        if getattr(n, 'import_star', False):
            al = [ast.alias('*', None)]
        return ast.ImportFrom(mod, al, max(level, 0))

    def s_CDefExternNode(self, n):
        al = []
        def rec(x):
            if type(x).__name__ == 'StatListNode':
                for y in x.stats:
                    rec(y)
            elif type(x).__name__ == 'CVarDefNode':
                for d in x.declarators:
                    al.append(ast.alias(str(self.decl(d)[0]), None))
        rec(n.body)
        hdr = str(n.include_file or 'extern')
        return ast.ImportFrom('__extern__.' + hdr.replace('.', '_'), al, 0) if al else None

    def s_CEnumDefNode(self, n): return None
    def s_CStructOrUnionDefNode(self, n): return None

    def args(self, args, star, starstar, fdecl=False):
        names, defaults, kwonly, kwdef, posonly = [], [], [], [], []
        for a in args:
            name, default, kind, f = self.decl(a.declarator)
            t = self.ctype(a.base_type) if kind == 'plain' else kind
            if not name:
                # `cdef f(x)`-style untyped parameter: the base type's name is the parameter
                name = a.base_type.name
                t = 'object'
            ann = cann(t) if t not in ('object',) else (self.e(a.annotation.expr) if getattr(a, 'annotation', None) else None)
            d = a.default if a.default is not None else default
            arg = ast.arg(str(name), ann)
            if getattr(a, 'kw_only', 0):
                kwonly.append(arg)
                kwdef.append(self.e(d) if d is not None else None)
            else:
                (posonly if getattr(a, 'pos_only', 0) else names).append(arg)
                if d is not None:
                    defaults.append(self.e(d))
        return ast.arguments(posonly, names, ast.arg(str(star.name), None) if star else None, kwonly, kwdef,
                             ast.arg(str(starstar.name), None) if starstar else None, defaults)

    def s_DefNode(self, n):
        decs = [self.e(d.decorator) for d in (n.decorators or [])]
        body = self.body(n.body)
        if n.doc:
            body = [ast.Expr(ast.Constant(str(n.doc)))] + body
        return ast.FunctionDef(str(n.name), self.args(n.args, n.star_arg, n.starstar_arg), body, decs,
                               None, type_params=[])

    def s_CFuncDefNode(self, n):
        name, _, kind, f = self.decl(n.declarator)
        ret = self.ctype(n.base_type)
        decs = [self.e(d.decorator) for d in (n.decorators or [])]
        fn = ast.FunctionDef(str(name), self.args(f.args, None, None), self.body(n.body), decs, cann(ret), type_params=[])
        fn.is_cfunc = True
        return fn

    def s_CClassDefNode(self, n):
        bases = [self.e(b) for b in (n.bases.args if n.bases is not None else [])]
        c = ast.ClassDef(str(n.class_name), bases, [], self.body(n.body), [], type_params=[])
        c.is_cdef = True
        return c

    def s_PyClassDefNode(self, n):
        bases = [self.e(b) for b in (n.bases.args if n.bases is not None else [])]
        return ast.ClassDef(str(n.name), bases, [], self.body(n.body), [], type_params=[])


def parse_pyx(src, name='interval_arithmetics'):
    from Cython.Compiler.TreeFragment import parse_from_strings
    tree = parse_from_strings(name, src)
    c = Conv()
    m = ast.Module(c.s(tree.body), [])
    ast.fix_missing_locations(m)
    return m


if __name__ == '__main__':
    import sys
    print(ast.unparse(parse_pyx(open(sys.argv[1], encoding='utf-8').read())))
