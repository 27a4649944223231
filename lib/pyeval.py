"""Partial evaluation of the Python code that reads and writes settings files: concrete names and control flow, symbolic contents."""
import ast
from ir import AnalysisBroken


class Sym:
    """an unknown value"""

    def __init__(self, tag, *args):
        self.tag, self.args = tag, args

    def key(self): return (self.tag,) + tuple(x.key() if isinstance(x, Sym) else repr(x) for x in self.args)

    def __eq__(self, o): return isinstance(o, Sym) and self.key() == o.key()

    def __hash__(self): return hash(self.key())

    def __repr__(self): return '%s(%s)' % (self.tag, ', '.join(map(repr, self.args)))


class Abort(Exception):
    """the code raises here"""

    def __init__(self, why, line, cls='Exception'):
        self.why, self.line, self.cls = why, line, cls


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception): pass


class Cnt(Exception): pass


class Obj:
    """an instance of a small class of the module (fields only)"""

    def __init__(self, cls): self.cls, self.f = cls, {}


class Eval:
    """one function on one set of option names; subclass hooks: attr, call, contains, truth"""

    def __init__(self, module, hooks):
        self.classes = {s.name: s for s in module.body if isinstance(s, ast.ClassDef)}
        self.funcs = {s.name: s for s in module.body if isinstance(s, ast.FunctionDef)}
        self.h = hooks
        self.steps = 0

    def run(self, fn, env):
        try:
            self.block(fn.body, env)
        except Ret as r:
            return r.v
        return None

    # ------------------------------------------------------------ statements
    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise AnalysisBroken('settings file code does not end')
        k = type(s).__name__
        if k == 'Expr':
            self.ev(s.value, env)
        elif k == 'Assign':
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif k == 'AnnAssign':
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif k == 'AugAssign':
            self.assign(s.target, self.bin(s.op, self.ev(self.load(s.target), env), self.ev(s.value, env)), env)
        elif k == 'If':
            self.block(s.body if self.truth(self.ev(s.test, env), s) else s.orelse, env)
        elif k == 'For':
            it = self.items(self.ev(s.iter, env), s)
            for x in it:
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cnt:
                    continue
            else:
                self.block(s.orelse, env)
        elif k == 'While':
            while self.truth(self.ev(s.test, env), s):
                try:
                    self.block(s.body, env)
                except Brk:
                    break
                except Cnt:
                    continue
        elif k == 'Try':
            try:
                self.block(s.body, env)
            except Abort as a:
                for h in s.handlers:
                    names = [] if h.type is None else [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if not names or a.cls in names or 'Exception' in names or 'BaseException' in names:
                        if h.name:
                            env[h.name] = Sym('exception')
                        self.block(h.body, env)
                        break
                else:
                    self.block(s.finalbody, env)
                    raise
            else:
                self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif k == 'With':
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            self.block(s.body, env)
        elif k == 'Return':
            raise Ret(self.ev(s.value, env) if s.value is not None else None)
        elif k == 'Raise':
            cls = ast.unparse(s.exc.func if isinstance(s.exc, ast.Call) else s.exc) if s.exc is not None else 'Exception'
            raise Abort('raises %s' % cls, s.lineno, cls)
        elif k == 'Break':
            raise Brk()
        elif k == 'Continue':
            raise Cnt()
        elif k in ('Pass', 'Import', 'ImportFrom', 'Assert', 'Global', 'Nonlocal', 'Delete'):
            pass
        elif k == 'FunctionDef':
            env[s.name] = ('closure', s, env)
        else:
            raise AnalysisBroken('statement %s at line %s' % (k, s.lineno))

    def load(self, t):
        t = ast.parse(ast.unparse(t), mode='eval').body
        return t

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v, t)
            if len(vs) != len(t.elts):
                raise AnalysisBroken('unpacking at line %s' % t.lineno)
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, t.lineno)
        elif isinstance(t, ast.Subscript):
            o, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, (dict, list)) and not isinstance(i, Sym):
                o[i] = v
            else:
                raise AnalysisBroken('assignment at line %s' % t.lineno)
        else:
            raise AnalysisBroken('assignment at line %s' % t.lineno)

    def setattr(self, o, name, v, line):
        if isinstance(o, Obj):
            o.f[name] = v
        elif isinstance(o, Sym):
            self.h.setattr(o, name, v, line)
        else:
            raise AnalysisBroken('attribute of %r at line %s' % (o, line))

    def items(self, v, node):
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, str, range)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, Sym):
            r = self.h.items(v)
            if r is not None:
                return r
        raise AnalysisBroken('iteration over %r at line %s' % (v, node.lineno))

    def truth(self, v, node):
        if isinstance(v, Sym):
            r = self.h.truth(v)
            if r is None:
                raise AnalysisBroken('branch on %r at line %s' % (v, node.lineno))
            return r
        if isinstance(v, Obj):
            return True
        return bool(v)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        k = type(e).__name__
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise AnalysisBroken('expression %s at line %s' % (k, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env): return e.value

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.classes:
            return ('class', self.classes[e.id])
        if e.id in self.funcs:
            return ('closure', self.funcs[e.id], {})
        if e.id in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[e.id]
        return ('global', e.id)

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        return self.attr(o, e.attr, e)

    def attr(self, o, name, node):
        if isinstance(o, Obj):
            if name in o.f:
                return o.f[name]
            raise Abort('no attribute %s' % name, node.lineno, 'AttributeError')
        if isinstance(o, tuple) and o and o[0] == 'global':
            return ('global', o[1] + '.' + name)
        if isinstance(o, Sym):
            r = self.h.attr(o, name, node)
            if r is not NotImplemented:
                return r
        return ('method', o, name)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            x = v.value if isinstance(v, ast.Constant) else self.ev(v.value, env)
            spec = self.ev(v.format_spec, env) if isinstance(v, ast.FormattedValue) and v.format_spec is not None else ''
            if spec and isinstance(x, Sym):
                x = Sym('conv', 'fmt:%s' % (spec,), x)
            elif spec:
                x = format(x, spec)
            elif isinstance(v, ast.FormattedValue) and v.conversion == 114:
                x = Sym('conv', 'repr', x) if isinstance(x, Sym) else repr(x)
            out.append(x)
        if all(not isinstance(x, (Sym, Obj)) and not (isinstance(x, tuple) and x and x[0] in ('global', 'method', 'closure', 'class')) for x in out):
            return ''.join(str(x) for x in out)
        return Sym('text', *out)

    def e_FormattedValue(self, e, env): return self.ev(e.value, env)

    def seq(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.items(self.ev(x.value, env), x)
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env): return self.seq(e, env)

    def e_Tuple(self, e, env): return tuple(self.seq(e, env))

    def e_Set(self, e, env):
        return set(self.seq(e, env))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_BoolOp(self, e, env):
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, e)
            if isinstance(e.op, ast.And) != t:
                return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v, e)
        if isinstance(v, Sym):
            return Sym('op', type(e.op).__name__, v)
        return -v if isinstance(e.op, ast.USub) else v

    def e_BinOp(self, e, env):
        return self.bin(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def bin(self, op, a, b):
        n = type(op).__name__
        if isinstance(a, list) and isinstance(b, int) and n == 'Mult' and b > 20:
            return Sym('repeat', b, *a)
        if any(isinstance(x, Sym) or isinstance(x, tuple) and x and x[0] in ('global', 'method') for x in (a, b)):
            return Sym('op', n, a, b)
        f = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'Mod': lambda: a % b, 'BitOr': lambda: a | b, 'BitAnd': lambda: a & b,
             'FloorDiv': lambda: a // b, 'Pow': lambda: a ** b}.get(n)
        if f is None:
            raise AnalysisBroken('operator %s' % n)
        return f()

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, env)
            n = type(op).__name__
            if n in ('In', 'NotIn'):
                t = self.h.contains(a, b) if isinstance(b, Sym) else None
                if t is None:
                    if isinstance(b, Sym) or isinstance(a, Sym):
                        return Sym('op', n, a, b)
                    t = a in b
                res = res and (t if n == 'In' else not t)
            elif n in ('Is', 'IsNot') and (a is None or b is None):
                t = a is None and b is None
                res = res and (t if n == 'Is' else not t)
            elif isinstance(a, Sym) or isinstance(b, Sym):
                return Sym('op', n, a, b)
            else:
                f = {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b,
                     'Is': lambda: a is b, 'IsNot': lambda: a is not b}[n]
                res = res and f()
            a = b
        return res

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env), e) else e.orelse, env)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            if isinstance(o, Sym):
                return Sym('slice', o)
            lo, hi, st = (self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
            return o[lo:hi:st]
        i = self.ev(e.slice, env)
        if isinstance(o, Sym):
            return self.h.item(o, i)
        if isinstance(i, Sym) or isinstance(o, tuple) and o and o[0] == 'global':
            return Sym('item', o, i)
        try:
            return o[i]
        except (KeyError, IndexError) as x:
            raise Abort('no item %r' % (i,), e.lineno, type(x).__name__)

    def comp(self, e, env):
        out = []

        def rec(k, env):
            if k == len(e.generators):
                out.append((self.ev(e.key, env), self.ev(e.value, env)) if isinstance(e, ast.DictComp) else self.ev(e.elt, env))
                return
            g = e.generators[k]
            v = self.ev(g.iter, env)
            for x in self.items(v, e):
                n = dict(env)
                self.assign(g.target, x, n)
                if all(self.truth(self.ev(c, n), e) for c in g.ifs):
                    rec(k + 1, n)
        v = None
        if len(e.generators) == 1:
            v = self.ev(e.generators[0].iter, env)
            if isinstance(v, Sym) and self.h.items(v) is None:
                n = dict(env)
                self.assign(e.generators[0].target, Sym('element', v), n)
                if isinstance(e, ast.DictComp):
                    raise AnalysisBroken('comprehension at line %s' % e.lineno)
                return Sym('each', self.ev(e.elt, n), v, *[self.ev(x, n) for x in e.generators[0].ifs])
        rec(0, env)
        return out

    def e_ListComp(self, e, env): return self.comp(e, env)

    def e_GeneratorExp(self, e, env): return self.comp(e, env)

    def e_SetComp(self, e, env):
        r = self.comp(e, env)
        return r if isinstance(r, Sym) else set(r)

    def e_DictComp(self, e, env): return dict(self.comp(e, env))

    def e_Lambda(self, e, env): return ('lambda', e, env)

    def e_Starred(self, e, env): return Sym('star', self.ev(e.value, env))

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, Sym):
                    args.append(Sym('star', v))
                else:
                    args += self.items(v, a)
            else:
                args.append(self.ev(a, env))
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, e):
        r = self.h.call(self, f, args, kw, e)
        if r is not NotImplemented:
            return r
        if isinstance(f, tuple) and f:
            if f[0] == 'closure':
                a = f[1].args
                names = [x.arg for x in a.posonlyargs + a.args]
                env = dict(f[2])
                for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                    env[n] = self.ev(d, {})
                for n, d in zip([x.arg for x in a.kwonlyargs], a.kw_defaults):
                    if d is not None:
                        env[n] = self.ev(d, {})
                env.update(zip(names, args))
                env.update(kw)
                try:
                    self.block(f[1].body, env)
                except Ret as r:
                    return r.v
                return None
            if f[0] == 'lambda':
                env = dict(f[2])
                env.update(zip([x.arg for x in f[1].args.args], args))
                return self.ev(f[1].body, env)
            if f[0] == 'class':
                o = Obj(f[1].name)
                for s in f[1].body:
                    if isinstance(s, ast.FunctionDef) and s.name == '__init__':
                        self.call(('closure', s, {}), [o] + args, kw, e)
                return o
            if f[0] == 'method' and not isinstance(f[1], (Sym, Obj)):
                if not any(isinstance(x, Sym) for x in args):
                    try:
                        v = getattr(f[1], f[2])(*args, **kw)
                    except AttributeError:
                        raise Abort('no method %s' % f[2], e.lineno, 'AttributeError')
                    return list(v) if f[2] in ('items', 'keys', 'values') else v
                if f[2] in ('append', 'update', 'add', 'extend', 'insert'):
                    return getattr(f[1], f[2])(*args)
                if f[2] == 'join' and len(args) == 1:
                    return Sym('text', f[1], *args)
            if f[0] == 'global':
                n = f[1]
                pure = {'len': len, 'list': list, 'tuple': tuple, 'set': set, 'dict': dict, 'sorted': sorted, 'range': range, 'enumerate': lambda *a: list(enumerate(*a)),
                        'zip': lambda *a: list(zip(*a)), 'str': str, 'int': int, 'float': float, 'bool': bool, 'reversed': lambda x: list(reversed(x)), 'any': any, 'all': all,
                        'min': min, 'max': max, 'frozenset': frozenset, 'repr': repr}
                if n in pure and not any(isinstance(x, Sym) for x in args) and not any(isinstance(y, Sym) for x in args if isinstance(x, (list, tuple)) for y in x if n in ('str', 'sorted', 'any', 'all', 'min', 'max', 'repr')):
                    return pure[n](*args, **kw)
                if n == 'isinstance':
                    r = self.h.isinstance(args[0], args[1])
                    return Sym('call', 'isinstance', *args) if r is None else r
                if n.startswith('warnings.') or n in ('print',):
                    return None
                return Sym('call', n, *args)
        if isinstance(f, Sym):
            return Sym('call', f, *args)
        return Sym('call', repr(f), *args)
