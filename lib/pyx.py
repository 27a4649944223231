"""coffe.pyx -> Python `ast` (through Cython's own parser, so what is analysed is what Cython compiles).

Cython-only constructs become calls with reserved names:
  &x -> __addr__(x)      <T>x -> __cast__('T', x)     sizeof(T) -> __sizeof__('T')    cdef T x = v -> AnnAssign
"""
import ast, json, os, subprocess
from ir import AnalysisBroken
import irbuild

PY = '/opt/coffe-venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))

CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE, 'in': ast.In, 'not_in': ast.NotIn,
       'is': ast.Is, 'is_not': ast.IsNot}
BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod, '**': ast.Pow, '|': ast.BitOr,
       '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift, '@': ast.MatMult}


def load(path=None):
    path = path or os.path.join(irbuild.REPO, 'python', 'coffe', 'coffe.pyx')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([PY, os.path.join(HERE, 'pyxdump.py'), path], capture_output=True, text=True, env=env)
    if p.returncode:
        raise AnalysisBroken('Cython cannot parse %s:\n%s' % (path, p.stderr[-1500:]))
    tree = json.loads(p.stdout)
    conv = Conv(path)
    mod = ast.Module(body=conv.body(tree['body']), type_ignores=[])
    mod = Plain().visit(mod)
    ast.fix_missing_locations(mod)
    return mod


class Plain(ast.NodeTransformer):
    """map(f, a) and list(<generator>) written as comprehensions"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'numpy') and \
                n.func.attr in ('array', 'asarray') and len(n.args) + len(n.keywords) == 2 and isinstance(n.args[0], ast.Name):
            d = n.args[1] if len(n.args) == 2 else n.keywords[0].value if n.keywords[0].arg == 'dtype' else None
            if isinstance(d, ast.Name) and d.id in ('float', 'int'):
                body = ast.Call(func=d, args=[ast.Name(id='__item', ctx=ast.Load())], keywords=[])
                n.args = [ast.copy_location(ast.ListComp(elt=body, generators=[ast.comprehension(
                    target=ast.Name(id='__item', ctx=ast.Store()), iter=n.args[0], ifs=[], is_async=0)]), n)]
                n.keywords = []
            return n
        if not isinstance(n.func, ast.Name) or n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            return n
        if n.func.id == 'map' and len(n.args) == 2 and isinstance(n.args[0], (ast.Name, ast.Attribute, ast.Lambda)):
            f = n.args[0]
            if isinstance(f, ast.Lambda):
                a = f.args
                if len(a.args) != 1 or a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
                    return n
                var, body = a.args[0].arg, f.body
            else:
                var = '__item'
                body = ast.Call(func=f, args=[ast.Name(id=var, ctx=ast.Load())], keywords=[])
            return ast.copy_location(ast.GeneratorExp(elt=body, generators=[ast.comprehension(
                target=ast.Name(id=var, ctx=ast.Store()), iter=n.args[1], ifs=[], is_async=0)]), n)
        if n.func.id == 'list' and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            return ast.copy_location(ast.ListComp(elt=n.args[0].elt, generators=n.args[0].generators), n)
        return n


class Conv:
    def __init__(self, path): self.path = path

    def at(self, node, n):
        node.lineno, node.col_offset = n.get('line', 1), n.get('col', 0)
        node.end_lineno, node.end_col_offset = node.lineno, node.col_offset
        return node

    # ---- statements
    def body(self, n):
        out = self.stmts(n)
        return out or [ast.Pass(lineno=(n or {}).get('line', 1), col_offset=0)]

    def stmts(self, n):
        if n is None:
            return []
        if isinstance(n, list):
            return [s for x in n for s in self.stmts(x)]
        k = n['_']
        m = getattr(self, 's_' + k, None)
        if m is None:
            subs = [self.expr(v) for key, v in n.items() if isinstance(v, dict) and not v['_'].endswith(('StatNode', 'StatListNode'))]
            inner = [s for key, v in n.items() if isinstance(v, dict) and v['_'].endswith(('StatNode', 'StatListNode')) for s in self.stmts(v)]
            return [self.at(ast.Expr(self.at(ast.Call(ast.Name('__stmt_%s__' % k, ast.Load()), subs, []), n)), n)] + inner
        r = m(n)
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        for s in r:
            if not hasattr(s, 'lineno'):
                self.at(s, n)
        return r

    def s_StatListNode(self, n): return self.stmts(n.get('stats', []))

    def s_ExprStatNode(self, n): return ast.Expr(self.expr(n['expr']))

    def s_PassStatNode(self, n): return ast.Pass()

    def s_BreakStatNode(self, n): return ast.Break()

    def s_ContinueStatNode(self, n): return ast.Continue()

    def s_SingleAssignmentNode(self, n):
        rhs = n['rhs']
        if isinstance(rhs, dict) and rhs['_'] == 'ImportNode':
            mod = rhs['module_name'].get('value', '')
            name = n['lhs'].get('name', '')
            return ast.Import([ast.alias(mod, name if name != mod else None)])
        return ast.Assign([self.store(n['lhs'])], self.expr(rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.store(x) for x in n['lhs_list']], self.expr(n['rhs']))

    def s_ParallelAssignmentNode(self, n): return self.stmts(n['stats'])

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.store(n['lhs']), BIN[n['operator']](), self.expr(n['rhs']))

    def s_FromImportStatNode(self, n):
        mod = n['module'].get('module_name', {}).get('value', '')
        names = []
        for it in n.get('items', []):
            a = it[0]
            b = it[1].get('name') if isinstance(it[1], dict) else None
            names.append(ast.alias(a, b if b != a else None))
        return ast.ImportFrom(mod, names, 0)

    def s_FromCImportStatNode(self, n):
        return ast.ImportFrom('cimport:' + n['module_name'], [ast.alias(str(x[1]), None) for x in n.get('imported_names', []) if len(x) > 1 and isinstance(x[1], str)] or [ast.alias('*', None)], 0)

    def s_CImportStatNode(self, n): return ast.Import([ast.alias('cimport:' + n['module_name'], n.get('as_name'))])

    def args(self, arglist, star=None, starstar=None):
        pos, kwonly, defaults, kwdef = [], [], [], []
        for a in arglist or []:
            d = a['declarator']
            name, typ = self.declname(d, a['base_type'])
            if not name:
                name, typ = typ, ''
            arg = self.at(ast.arg(name, ast.Constant(typ) if typ else None), a)
            dv = a.get('default')
            if a.get('kw_only'):
                kwonly.append(arg)
                kwdef.append(self.expr(dv) if dv else None)
            else:
                pos.append(arg)
                if dv:
                    defaults.append(self.expr(dv))
        return ast.arguments(posonlyargs=[], args=pos, vararg=ast.arg(star['name'], None) if star else None, kwonlyargs=kwonly,
                             kw_defaults=kwdef, kwarg=ast.arg(starstar['name'], None) if starstar else None, defaults=defaults)

    def declname(self, d, base):
        t = self.typ(base)
        while d['_'] in ('CPtrDeclaratorNode', 'CReferenceDeclaratorNode', 'CArrayDeclaratorNode', 'CConstDeclaratorNode'):
            t += ' *' if d['_'] == 'CPtrDeclaratorNode' else (' &' if d['_'] == 'CReferenceDeclaratorNode' else '[]')
            d = d['base']
        return d.get('name', ''), t

    def typ(self, b):
        if b is None:
            return ''
        if b['_'] == 'CConstTypeNode':
            return 'const ' + self.typ(b.get('base_type'))
        name = b.get('name', '') or ''
        mp = b.get('module_path') or []
        pre = ''
        if b.get('signed') == 0 and b.get('is_basic_c_type'):
            pre = 'unsigned '
        lo = b.get('longness', 0)
        if b.get('is_basic_c_type') and isinstance(lo, int) and lo:
            pre += 'long ' * lo if lo > 0 else 'short '
        return pre + '.'.join([x for x in mp if isinstance(x, str)] + [name]) if (mp or name) else ''

    def s_DefNode(self, n):
        f = ast.FunctionDef(name=n['name'], args=self.args(n.get('args'), n.get('star_arg'), n.get('starstar_arg')),
                            body=self.body(n['body']),
                            decorator_list=[self.expr(d['decorator']) for d in (n.get('decorators') or [])], returns=None, type_comment=None)
        f.type_params = []
        return f

    def s_CFuncDefNode(self, n):
        d = n['declarator']
        t = self.typ(n['base_type'])
        while d['_'] != 'CFuncDeclaratorNode':
            t += ' *'
            d = d['base']
        f = ast.FunctionDef(name=d['base'].get('name', ''), args=self.args(d.get('args')), body=self.body(n['body']), decorator_list=[],
                            returns=ast.Constant(t), type_comment=None)
        f.type_params = []
        return f

    def s_CVarDefNode(self, n):
        out = []
        for d in n['declarators']:
            dd, dv = d, None
            x = d
            while isinstance(x, dict):
                if x.get('default'):
                    dv = x['default']
                x = x.get('base')
            name, t = self.declname(dd, n['base_type'])
            out.append(self.at(ast.AnnAssign(ast.Name(name, ast.Store()), ast.Constant(t), self.expr(dv) if dv else None, 1), n))
        return out

    def s_PyClassDefNode(self, n):
        bases = n.get('bases')
        b = [self.expr(x) for x in (bases.get('args', []) if isinstance(bases, dict) else [])]
        c = ast.ClassDef(n['name'], b, [], self.body(n['body']), [self.expr(d['decorator']) for d in (n.get('decorators') or [])])
        c.type_params = []
        return c

    def s_CClassDefNode(self, n):
        c = ast.ClassDef(n['class_name'], [], [], self.body(n['body']), [])
        c.type_params = []
        return c

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.get('else_clause')) if n.get('else_clause') else []
        for c in reversed(n['if_clauses']):
            node = self.at(ast.If(self.expr(c['condition']), self.body(c['body']), orelse), c)
            orelse = [node]
        return orelse

    def s_ReturnStatNode(self, n): return ast.Return(self.expr(n['value']) if n.get('value') else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.expr(n['exc_type']) if n.get('exc_type') else None, self.expr(n['cause']) if n.get('cause') else None)

    def s_ReraiseStatNode(self, n): return ast.Raise(None, None)

    def s_ForInStatNode(self, n):
        return ast.For(self.store(n['target']), self.expr(n['iterator']), self.body(n['body']), self.stmts(n.get('else_clause')))

    def s_WhileStatNode(self, n): return ast.While(self.expr(n['condition']), self.body(n['body']), self.stmts(n.get('else_clause')))

    def s_ForFromStatNode(self, n):
        it = ast.Call(ast.Name('__range__', ast.Load()), [self.expr(n['bound1']), self.expr(n['bound2'])], [])
        return ast.For(self.store(n['target']), it, self.body(n['body']), [])

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n['except_clauses']:
            pat = c.get('pattern')
            typ = None
            if isinstance(pat, list) and pat:
                ps = [self.expr(p) for p in pat]
                typ = ps[0] if len(ps) == 1 else ast.Tuple(ps, ast.Load())
            nm = c.get('target', {}).get('name') if isinstance(c.get('target'), dict) else None
            hs.append(self.at(ast.ExceptHandler(typ, nm, self.body(c['body'])), c))
        return ast.Try(self.body(n['body']), hs, self.stmts(n.get('else_clause')), [])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(self.body(n['body']), [], [], self.body(n['finally_clause']))

    def s_WithStatNode(self, n):
        b = n['body']
        return ast.With([ast.withitem(self.expr(n['manager']), self.store(n['target']) if n.get('target') else None)], self.body(b))

    def s_AssertStatNode(self, n):
        c = n.get('condition') or n.get('cond')
        return ast.Assert(self.expr(c), None)

    def s_DelStatNode(self, n): return ast.Delete([self.expr(a) for a in n['args']])

    def s_GlobalNode(self, n): return ast.Global([str(x) for x in n['names']])

    def s_NonlocalNode(self, n): return ast.Nonlocal([str(x) for x in n['names']])

    # ---- expressions
    def store(self, n):
        e = self.expr(n)
        for x in ast.walk(e):
            if x is e or isinstance(x, (ast.Tuple, ast.List, ast.Starred)):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Store()
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Store()
        return e

    def expr(self, n):
        if n is None:
            return ast.Constant(None)
        if isinstance(n, (str, int, float, bool)):
            return ast.Constant(n)
        k = n['_']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            subs = []
            for key, v in n.items():
                if isinstance(v, dict):
                    subs.append(self.expr(v))
                elif isinstance(v, list):
                    subs += [self.expr(x) for x in v if isinstance(x, dict)]
            return self.at(ast.Call(ast.Name('__node_%s__' % k, ast.Load()), subs, []), n)
        return self.at(m(n), n)

    def e_NameNode(self, n): return ast.Name(n['name'], ast.Load())

    def e_AttributeNode(self, n): return ast.Attribute(self.expr(n['obj']), n['attribute'], ast.Load())

    def e_IndexNode(self, n): return ast.Subscript(self.expr(n['base']), self.expr(n['index']), ast.Load())

    def e_SliceIndexNode(self, n):
        f = lambda x: self.expr(n[x]) if n.get(x) else None
        return ast.Subscript(self.expr(n['base']), ast.Slice(f('start'), f('stop'), None), ast.Load())

    def e_SliceNode(self, n):
        f = lambda x: self.expr(n[x]) if n.get(x) and n[x]['_'] != 'NoneNode' else None
        return ast.Slice(f('start'), f('stop'), f('step'))

    def e_SimpleCallNode(self, n): return ast.Call(self.expr(n['function']), [self.expr(a) for a in n.get('args', [])], [])

    def e_GeneralCallNode(self, n):
        pa = n['positional_args']
        args = [self.expr(a) for a in pa.get('args', [])] if pa['_'] == 'TupleNode' else [ast.Starred(self.expr(pa), ast.Load())]
        kws = []
        ka = n.get('keyword_args')
        if ka:
            if ka['_'] == 'DictNode':
                for it in ka['key_value_pairs']:
                    kws.append(ast.keyword(it['key'].get('value'), self.expr(it['value'])))
            else:
                kws.append(ast.keyword(None, self.expr(ka)))
        return ast.Call(self.expr(n['function']), args, kws)

    def e_AsTupleNode(self, n): return self.expr(n['arg'])

    def e_MergedDictNode(self, n):
        ks, vs = [], []
        for a in n['keyword_args']:
            ks.append(None)
            vs.append(self.expr(a))
        return ast.Dict(ks, vs)

    def e_UnicodeNode(self, n): return ast.Constant(n['value'])

    e_StringNode = e_UnicodeNode
    e_IdentifierStringNode = e_UnicodeNode

    def e_BytesNode(self, n): return ast.Constant(str(n['value']).encode('latin-1'))

    def e_IntNode(self, n):
        try:
            return ast.Constant(int(n['value'], 0))
        except ValueError:
            return ast.Constant(n['value'])

    def e_FloatNode(self, n): return ast.Constant(float(n['value']))

    def e_BoolNode(self, n): return ast.Constant(bool(n['value']))

    def e_NoneNode(self, n): return ast.Constant(None)

    def e_NullNode(self, n): return ast.Name('NULL', ast.Load())

    def e_EllipsisNode(self, n): return ast.Constant(...)

    def e_AmpersandNode(self, n): return ast.Call(ast.Name('__addr__', ast.Load()), [self.expr(n['operand'])], [])

    def e_TypecastNode(self, n):
        name, t = self.declname(n['declarator'], n['base_type'])
        return ast.Call(ast.Name('__cast__', ast.Load()), [ast.Constant(t), self.expr(n['operand'])], [])

    def e_SizeofTypeNode(self, n):
        name, t = self.declname(n['declarator'], n['base_type'])
        return ast.Call(ast.Name('__sizeof__', ast.Load()), [ast.Constant(t)], [])

    def e_SizeofVarNode(self, n): return ast.Call(ast.Name('__sizeof__', ast.Load()), [self.expr(n['operand'])], [])

    def e_NotNode(self, n): return ast.UnaryOp(ast.Not(), self.expr(n['operand']))

    def e_UnaryMinusNode(self, n): return ast.UnaryOp(ast.USub(), self.expr(n['operand']))

    def e_UnaryPlusNode(self, n): return ast.UnaryOp(ast.UAdd(), self.expr(n['operand']))

    def e_TildeNode(self, n): return ast.UnaryOp(ast.Invert(), self.expr(n['operand']))

    def e_PrimaryCmpNode(self, n):
        ops, comps = [CMP[n['operator']]()], [self.expr(n['operand2'])]
        c = n.get('cascade')
        while c:
            ops.append(CMP[c['operator']]())
            comps.append(self.expr(c['operand2']))
            c = c.get('cascade')
        return ast.Compare(self.expr(n['operand1']), ops, comps)

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(ast.And() if n['operator'] == 'and' else ast.Or(), [self.expr(n['operand1']), self.expr(n['operand2'])])

    def _bin(self, n): return ast.BinOp(self.expr(n['operand1']), BIN[n['operator']](), self.expr(n['operand2']))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = _bin

    def e_TupleNode(self, n): return ast.Tuple([self.expr(a) for a in n['args']], ast.Load())

    def e_ListNode(self, n): return ast.List([self.expr(a) for a in n['args']], ast.Load())

    def e_SetNode(self, n): return ast.Set([self.expr(a) for a in n['args']])

    def e_DictNode(self, n):
        return ast.Dict([self.expr(i['key']) for i in n['key_value_pairs']], [self.expr(i['value']) for i in n['key_value_pairs']])

    def e_JoinedStrNode(self, n): return ast.JoinedStr([self.expr(v) for v in n['values']])

    def e_FormattedValueNode(self, n):
        return ast.FormattedValue(self.expr(n['value']), ord(n['conversion_char']) if n.get('conversion_char') else -1, self.expr(n['format_spec']) if n.get('format_spec') else None)

    def e_CondExprNode(self, n): return ast.IfExp(self.expr(n['test']), self.expr(n['true_val']), self.expr(n['false_val']))

    def e_IteratorNode(self, n): return self.expr(n['sequence'])

    def e_StarredUnpackingNode(self, n): return ast.Starred(self.expr(n['target']), ast.Load())

    def e_LambdaNode(self, n):
        return ast.Lambda(self.args(n.get('args'), n.get('star_arg'), n.get('starstar_arg')), self.expr(n['result_expr']))

    def _comp_parts(self, loop):
        """nested ForIn / If loop of a comprehension -> (generators, append node)"""
        gens = []
        cur = loop
        while True:
            k = cur['_']
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(self.store(cur['target']), self.expr(cur['iterator']), [], 0))
                cur = cur['body']
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.expr(cur['if_clauses'][0]['condition']))
                cur = cur['if_clauses'][0]['body']
            elif k == 'StatListNode' and len(cur['stats']) == 1:
                cur = cur['stats'][0]
            elif k == 'ExprStatNode':
                cur = cur['expr']
            else:
                return gens, cur

    def e_ComprehensionNode(self, n):
        gens, leaf = self._comp_parts(n['loop'])
        if leaf['_'] == 'DictComprehensionAppendNode':
            return ast.DictComp(self.expr(leaf['key_expr']), self.expr(leaf['value_expr']), gens)
        return ast.ListComp(self.expr(leaf['expr']), gens)

    def e_GeneratorExpressionNode(self, n):
        gens, leaf = self._comp_parts(n['loop'])
        return ast.GeneratorExp(self.expr(leaf.get('arg') or leaf.get('expr')), gens)


def classdef(mod, name):
    for s in mod.body:
        if isinstance(s, ast.ClassDef) and s.name == name:
            return s
    raise AnalysisBroken('class %s not found in coffe.pyx' % name)
