"""Path-wise abstract interpretation of the Cython front end (class Coffe).

Every method is read as a set of abstract paths. A path is an ordered list of events over C locations
(write / read / C call / possible exception) plus the symbolic value each written location ends with. Nothing is
executed: values are terms over the arguments and the initial contents of locations. self-methods, properties
and module functions are inlined, so extracting or merging helpers does not change the events.
"""
import ast, copy
from ir import AnalysisBroken
import pyx as pyxmod

MAXPATHS = 4000
MAXDEPTH = 12


def C(v): return ('const', v)


TRUE, FALSE, NONE = C(True), C(False), C(None)


class Ev:
    __slots__ = ('kind', 'a', 'b', 'line', 'ctx')

    def __init__(self, kind, a=None, b=None, line=0, ctx=()):
        self.kind, self.a, self.b, self.line, self.ctx = kind, a, b, line, ctx

    def __repr__(self): return '%s(%s,%s)@%s' % (self.kind, self.a, self.b, self.line)


class St:
    __slots__ = ('env', 'store', 'events', 'conds', 'exit', 'ret', 'loops')

    def __init__(self):
        self.env, self.store, self.events, self.conds = {}, {}, [], []
        self.exit, self.ret, self.loops = None, None, ()

    def fork(self):
        s = St()
        s.env, s.store, s.events, s.conds = dict(self.env), dict(self.store), list(self.events), list(self.conds)
        s.exit, s.ret, s.loops = self.exit, self.ret, self.loops
        return s

    def ev(self, kind, a=None, b=None, node=None):
        self.events.append(Ev(kind, a, b, getattr(node, 'lineno', 0), self.loops))


class Model:
    """The parsed pyx module: functions, class methods, properties, module constants."""

    def __init__(self, path=None, cls='Coffe'):
        self.mod = pyxmod.load(path)
        self.path = 'python/coffe/coffe.pyx'
        self.funcs, self.consts = {}, {}
        self.methods, self.props, self.static = {}, {}, set()
        self.cdefs = {}
        self.parents = {}
        cd = None
        for s in self.mod.body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef) and s.name == cls:
                cd = s
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name) and s.value is not None:
                    self.consts[t.id] = s.value
        if cd is None:
            raise AnalysisBroken('class %s not found in the Cython module' % cls)
        self.cls = cd
        for s in cd.body:
            if isinstance(s, ast.AnnAssign):
                self.cdefs[s.target.id] = s.annotation.value if isinstance(s.annotation, ast.Constant) else ast.unparse(s.annotation)
            elif isinstance(s, ast.FunctionDef):
                kind = None
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'property':
                        kind = 'get'
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                        kind = {'setter': 'set', 'getter': 'get', 'deleter': 'del'}[d.attr]
                    elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                        self.static.add(s.name)
                if kind:
                    self.props.setdefault(s.name, {})[kind] = s
                else:
                    self.methods[s.name] = s

    def public_entries(self):
        """every callable part of the object: (label, FunctionDef, kind)"""
        for n, m in self.methods.items():
            yield n, m, 'method'
        for n, d in self.props.items():
            for k, m in d.items():
                yield '%s.%s' % (n, k), m, k


def fold(v):
    """constant folding and the arithmetic identities that matter (x*1, x/1)"""
    if v[0] == 'bin':
        op, a, b = v[1:]
        if a[0] == 'const' and b[0] == 'const':
            try:
                x, y = a[1], b[1]
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'Div': lambda: x / y,
                     'Pow': lambda: x ** y}.get(op, lambda: None)()
                if r is not None:
                    return C(r)
            except Exception:
                pass
        if op in ('Mult', 'Div') and b == C(1):
            return a
        if op == 'Mult' and a == C(1):
            return b
    if v[0] == 'not' and v[1][0] == 'const':
        return C(not v[1][1])
    return v


class Interp:
    def __init__(self, model, opaque=(), opaque_props=()):
        self.m = model
        self.opaque = set(opaque)
        self.opaque_props = set(opaque_props)
        self.depth = 0

    # ------------------------------------------------------------ entry
    def run(self, fn, selfval=('self',), args=None, st=None):
        st = st or St()
        env = self.bind(fn, selfval, args)
        st.env = env
        out = self.block(fn.body, st)
        for s in out:
            if s.exit is None:
                s.exit, s.ret = 'return', NONE
        return out

    def bind(self, fn, selfval, args):
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        allargs = names + [x.arg for x in a.kwonlyargs]
        for n in allargs:
            env[n] = ('arg', n)
        if a.vararg:
            env[a.vararg.arg] = ('arg', '*' + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = ('arg', '**' + a.kwarg.arg)
        if names and selfval is not None:
            env[names[0]] = selfval
        if args:
            env.update(args)
        return env

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        states = [st]
        for s in stmts:
            nxt = []
            for x in states:
                if x.exit:
                    nxt.append(x)
                else:
                    nxt.extend(self.stmt(s, x))
            states = nxt
            if len(states) > MAXPATHS:
                raise AnalysisBroken('too many abstract paths in %s line %s' % (self.m.path, s.lineno))
        return states

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported statement %s at line %s' % (type(s).__name__, getattr(s, 'lineno', 0)))
        return m(s, st)

    def s_Pass(self, s, st): return [st]

    def s_Import(self, s, st): return [st]

    s_ImportFrom = s_Global = s_Nonlocal = s_Import

    def s_FunctionDef(self, s, st):
        st.env[s.name] = ('closure', s)
        return [st]

    def s_Expr(self, s, st): return [x for x, _ in self.ev(s.value, st)]

    def s_Return(self, s, st):
        out = []
        for x, v in (self.ev(s.value, st) if s.value is not None else [(st, NONE)]):
            if x.exit is None:
                x.exit, x.ret = 'return', v
                x.ev('return', v, None, s)
            out.append(x)
        return out

    def s_Raise(self, s, st):
        out = []
        for x, v in (self.ev(s.exc, st) if s.exc is not None else [(st, ('unk', 'reraise'))]):
            if x.exit is None:
                x.ev('raise', v, None, s)
                x.exit, x.ret = 'raise', v
            out.append(x)
        return out

    def s_Break(self, s, st):
        st.exit = 'break'
        return [st]

    def s_Continue(self, s, st):
        st.exit = 'continue'
        return [st]

    def s_Assert(self, s, st):
        out = []
        for x, v in self.ev(s.test, st):
            if x.exit is None:
                x.ev('mayraise', 'assert', v, s)
            out.append(x)
        return out

    def s_Delete(self, s, st): return [st]

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            if x.exit:
                out.append(x)
                continue
            ys = [x]
            for t in s.targets:
                ys = [z for y in ys for z in (self.assign(t, v, y, s) if not y.exit else [y])]
            out.extend(ys)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        out = []
        for x, v in self.ev(s.value, st):
            out.extend(self.assign(s.target, v, x, s) if not x.exit else [x])
        return out

    def s_AugAssign(self, s, st):
        load = ast.copy_location(ast.BinOp(self.as_load(s.target), s.op, s.value), s)
        out = []
        for x, v in self.ev(load, st):
            out.extend(self.assign(s.target, v, x, s) if not x.exit else [x])
        return out

    def as_load(self, t):
        t = copy.deepcopy(t)
        for n in ast.walk(t):
            if hasattr(n, 'ctx'):
                n.ctx = ast.Load()
        return t

    def s_If(self, s, st):
        out = []
        for x, c in self.ev(s.test, st):
            if x.exit:
                out.append(x)
                continue
            k = self.truth(c)
            if k is not False:
                y = x.fork() if k is None else x
                y.conds.append((c, True))
                y.ev('cond', c, True, s)
                out.extend(self.block(s.body, y))
            if k is not True:
                y = x
                y.conds.append((c, False))
                y.ev('cond', c, False, s)
                out.extend(self.block(s.orelse, y))
        return out

    def truth(self, c):
        if c[0] == 'const':
            return bool(c[1])
        if c[0] in ('list', 'tuple', 'set', 'dict') :
            return bool(c[1])
        return None

    def s_While(self, s, st):
        out = []
        for x, c in self.ev(s.test, st):
            if x.exit:
                out.append(x)
                continue
            y = x.fork()
            y.conds.append((c, False))
            out.append(y)
            z = x
            z.conds.append((c, True))
            z.loops = z.loops + (('while', c),)
            for w in self.block(s.body, z):
                w.loops = w.loops[:len(st.loops)]
                if w.exit in ('break', 'continue'):
                    w.exit = None
                out.append(w)
        return out

    def s_For(self, s, st):
        out = []
        for x, it in self.ev(s.iter, st):
            if x.exit:
                out.append(x)
                continue
            items = self.const_items(it)
            if items is not None:
                states = [x]
                done = []
                for v in items:
                    nxt = []
                    for y in states:
                        for z in self.assign(s.target, v, y, s):
                            for w in (self.block(s.body, z) if not z.exit else [z]):
                                if w.exit == 'continue':
                                    w.exit = None
                                if w.exit == 'break':
                                    w.exit = None
                                    done.append(w)
                                elif w.exit:
                                    done.append(w)
                                else:
                                    nxt.append(w)
                    states = nxt
                    if len(states) + len(done) > MAXPATHS:
                        raise AnalysisBroken('too many abstract paths in the loop at line %s' % s.lineno)
                out.extend(states + done)
                continue
            # generic iteration: the body is entered once with a generic element
            base = x.loops
            x.loops = base + (('for', it, s.lineno),)
            x.ev('loop', it, None, s)
            elem = self.generic_elem(it, s.lineno)
            for y in self.assign(s.target, elem, x, s):
                for w in (self.block(s.body, y) if not y.exit else [y]):
                    w.loops = base
                    if w.exit in ('break', 'continue'):
                        w.exit = None
                    out.append(w)
        return out

    def generic_elem(self, it, line):
        """element of an iterable with index ('ivar', line)"""
        if it[0] == 'call' and it[1] == 'range':
            return ('ivar', line, it)
        if it[0] == 'call' and it[1] == 'enumerate' and len(it[2]) == 1:
            return ('tuple', (('ivar', line, ('call', 'range', (('call', 'len', (it[2][0],)),))), self.generic_elem(it[2][0], line)))
        if it[0] == 'call' and it[1] == 'zip':
            return ('tuple', tuple(self.generic_elem(a, line) for a in it[2]))
        return ('elem', it, line)

    def const_items(self, it):
        if it[0] in ('list', 'tuple', 'set'):
            return list(it[1])
        if it[0] == 'dict':
            return [k for k, _ in it[1]]
        if it[0] == 'const' and isinstance(it[1], (tuple, list)):
            return [C(v) for v in it[1]]
        if it[0] == 'call' and it[1] == '.items' and it[2][0][0] == 'dict':
            return [('tuple', (k, v)) for k, v in it[2][0][1]]
        if it[0] == 'call' and it[1] == '.keys' and it[2][0][0] == 'dict':
            return [k for k, v in it[2][0][1]]
        if it[0] == 'call' and it[1] == '.values' and it[2][0][0] == 'dict':
            return [v for k, v in it[2][0][1]]
        if it[0] == 'call' and it[1] in ('sorted', 'list', 'tuple', 'set', 'frozenset') and len(it[2]) == 1:
            return self.const_items(it[2][0])
        if it[0] == 'call' and it[1] == 'range' and all(a[0] == 'const' for a in it[2]):
            return [C(i) for i in range(*[a[1] for a in it[2]])]
        return None

    def s_Try(self, s, st):
        n0 = len(st.events)
        pre = st.fork()
        out = []
        body_states = self.block(s.body, st)
        normal = []
        raised = []
        for x in body_states:
            if x.exit == 'raise':
                raised.append(x)
            else:
                normal.append(x)
        for x in normal:
            out.extend(self.block(s.orelse, x) if (s.orelse and not x.exit) else [x])
        # exceptional continuation: anything the body did may have happened
        if s.handlers:
            srcs = raised[:]
            if normal:
                y = normal[0].fork()
                y.exit, y.ret = None, None
                srcs.append(y)
            for h in s.handlers:
                for x in srcs:
                    y = x.fork()
                    y.exit = None
                    y.env = dict(x.env)
                    y.ev('except', h.type and ast.unparse(h.type), None, h)
                    if h.name:
                        y.env[h.name] = ('unk', 'exc')
                    out.extend(self.block(h.body, y))
        else:
            out.extend(raised)
            if s.finalbody and normal:
                y = normal[0].fork()
                y.exit, y.ret = 'raise', ('unk', 'propagated')
                y.ev('propagate', None, None, s)
                out.append(y)
        if s.finalbody:
            res = []
            for x in out:
                sv = (x.exit, x.ret)
                x.exit = None
                for y in self.block(s.finalbody, x):
                    if y.exit is None:
                        y.exit, y.ret = sv
                    res.append(y)
            out = res
        return out

    def s_With(self, s, st):
        states = [st]
        for item in s.items:
            nxt = []
            for x in states:
                for y, v in self.ev(item.context_expr, x):
                    if item.optional_vars is not None and not y.exit:
                        nxt.extend(self.assign(item.optional_vars, v, y, s))
                    else:
                        nxt.append(y)
            states = nxt
        out = []
        for x in states:
            out.extend(self.block(s.body, x) if not x.exit else [x])
        return out

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if v[0] in ('tuple', 'list') and len(v[1]) == n and not any(isinstance(e, ast.Starred) for e in t.elts):
                vals = list(v[1])
            else:
                st.ev('mayraise', 'unpack', v, node)
                vals = [('idx', v, C(i)) for i in range(n)]
            # conversions to C happen before the first store
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Attribute):
                    st.ev('coerce', None, x, node)
            states = [st]
            for e, x in zip(t.elts, vals):
                states = [z for y in states for z in (self.assign(e, x, y, node) if not y.exit else [y])]
            return states
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, lval=True):
                if x.exit:
                    out.append(x)
                else:
                    out.extend(self.setattr(b, t.attr, v, x, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st, lval=True):
                if x.exit:
                    out.append(x)
                    continue
                for y, i in self.ev(t.slice, x):
                    if not y.exit:
                        if b[0] == 'loc':
                            self.write(y, b[1] + (('idx', i),), v, node)
                        elif b[0] == 'addr' and i == C(0):
                            self.write(y, b[1], v, node)
                        elif isinstance(t.value, ast.Name):
                            # local container / local C buffer
                            y.ev('bufwrite', (t.value.id, b), (i, v), node)
                        else:
                            y.ev('bufwrite', ('?', b), (i, v), node)
                    out.append(y)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        raise AnalysisBroken('unsupported assignment target %s at line %s' % (type(t).__name__, getattr(node, 'lineno', 0)))

    def setattr(self, b, name, v, st, node):
        if b == ('self',):
            p = self.m.props.get(name)
            if p is not None:
                if 'set' not in p:
                    st.ev('raise', ('unk', 'AttributeError: %s is read-only' % name), None, node)
                    st.exit, st.ret = 'raise', ('unk', 'AttributeError')
                    return [st]
                if name in self.opaque_props:
                    st.ev('setprop', name, v, node)
                    return [st]
                return [x for x, _ in self.inline(p['set'], [('self',), v], {}, st, node)]
            if name in self.m.cdefs:
                self.write(st, (name,), v, node)
                return [st]
            st.ev('badattr', name, v, node)      # cdef class: AttributeError at run time
            st.ev('raise', ('unk', 'AttributeError: %s' % name), None, node)
            st.exit, st.ret = 'raise', ('unk', 'AttributeError')
            return [st]
        if b[0] == 'loc':
            self.write(st, b[1] + (name,), v, node)
            return [st]
        if b[0] == 'bad':
            st.ev('badattr', b[1], v, node)
            st.ev('raise', ('unk', 'AttributeError: %s' % (b[1],)), None, node)
            st.exit, st.ret = 'raise', ('unk', 'AttributeError')
            return [st]
        st.ev('setattr', (b, name), v, node)
        return [st]

    def write(self, st, path, v, node):
        st.ev('coerce', path, v, node)
        st.ev('write', path, v, node)
        st.store[path] = v
        if not any(isinstance(p, tuple) for p in path):
            # a new pointer: whatever was known about its elements is gone
            for k in [k for k in st.store if len(k) > len(path) and k[:len(path)] == path]:
                del st.store[k]

    def read(self, st, path, node):
        st.ev('read', path, None, node)
        if path in st.store:
            return st.store[path]
        return ('init', path)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, lval=False):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported expression %s at line %s' % (type(e).__name__, getattr(e, 'lineno', 0)))
        r = m(e, st)
        if lval:
            return r
        return [(x, self.rval(x, v, e)) for x, v in r]

    def rval(self, st, v, node):
        if v[0] == 'loc':
            return self.read(st, v[1], node)
        if v[0] == 'bad' and not st.exit:
            st.ev('badattr', v[1], None, node)
            st.ev('raise', ('unk', 'AttributeError: %s' % (v[1],)), None, node)
            st.exit, st.ret = 'raise', ('unk', 'AttributeError')
        return v

    def evs(self, es, st):
        """evaluate a sequence -> [(state, [values])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in acc:
                if x.exit:
                    nxt.append((x, vs))
                    continue
                for y, v in self.ev(e, x):
                    nxt.append((y, vs + [v]))
            acc = nxt
        return acc

    def e_Constant(self, e, st): return [(st, C(e.value))]

    def e_Name(self, e, st):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        if e.id in ('True', 'False', 'None', 'NULL'):
            return [(st, C({'True': True, 'False': False}.get(e.id)))]
        if e.id in self.m.consts:
            return self.ev(self.m.consts[e.id], st)
        if e.id in self.m.funcs:
            return [(st, ('func', e.id))]
        return [(st, ('name', e.id))]

    def e_Attribute(self, e, st):
        out = []
        for x, b in self.ev(e.value, st, lval=True):
            out.extend(self.getattr(b, e.attr, x, e))
        return out

    def getattr(self, b, name, st, node):
        if st.exit:
            return [(st, ('unk', 'dead'))]
        if b == ('self',):
            p = self.m.props.get(name)
            if p is not None:
                if name in self.opaque_props:
                    st.ev('getprop', name, None, node)
                    return [(st, ('prop', name))]
                return self.inline(p['get'], [('self',)], {}, st, node)
            if name in self.m.cdefs:
                return [(st, ('loc', (name,)))]
            if name in self.m.methods:
                return [(st, ('bound', name))]
            if name in ('__class__', '__dict__', '__doc__'):
                return [(st, ('name', 'self.' + name))]
            return [(st, ('bad', name))]
        if b[0] == 'loc':
            return [(st, ('loc', b[1] + (name,)))]
        if b[0] == 'bad':
            return [(st, b)]
        if b[0] == 'deref':
            if b[1][0] == 'addr':
                return [(st, ('loc', b[1][1] + (name,)))]
        if b[0] == 'addr':
            return [(st, ('loc', b[1] + (name,)))]
        if b[0] == 'name':
            return [(st, ('name', b[1] + '.' + name))]
        return [(st, ('attr', self.rval(st, b, node), name))]

    def e_Subscript(self, e, st):
        out = []
        for x, b in self.ev(e.value, st, lval=True):
            if x.exit:
                out.append((x, ('unk', 'dead')))
                continue
            for y, i in self.ev(e.slice, x):
                if b[0] == 'loc':
                    out.append((y, ('loc', b[1] + (('idx', i),))))
                else:
                    v = self.rval(y, b, e)
                    if v[0] in ('tuple', 'list') and i[0] == 'const' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
                        out.append((y, v[1][i[1]]))
                    elif v[0] == 'dict' and any(k == i for k, _ in v[1]):
                        out.append((y, [w for k, w in v[1] if k == i][0]))
                    else:
                        y.ev('mayraise', 'index', ('idx', v, i), e)
                        out.append((y, ('idx', v, i)))
        return out

    def e_Slice(self, e, st):
        es = [x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)]
        return [(x, ('slice', tuple(vs))) for x, vs in self.evs(es, st)]

    def e_BinOp(self, e, st):
        return [(x, fold(('bin', type(e.op).__name__, vs[0], vs[1])) if len(vs) == 2 else ('unk', 'dead')) for x, vs in self.evs([e.left, e.right], st)]

    def e_UnaryOp(self, e, st):
        out = []
        for x, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((x, fold(('not', v))))
            elif isinstance(e.op, ast.USub):
                out.append((x, C(-v[1]) if v[0] == 'const' and isinstance(v[1], (int, float)) else ('neg', v)))
            else:
                out.append((x, v if isinstance(e.op, ast.UAdd) else ('un', type(e.op).__name__, v)))
        return out

    def e_BoolOp(self, e, st):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        out = []
        for x, vs in self.evs(e.values, st):
            res = []
            stop = False
            for v in vs:
                t = self.truth(v)
                if t is None:
                    res.append(v)
                elif (op == 'and') != t:     # False in and / True in or
                    res.append(v)
                    stop = True
                    break
            if not res:
                out.append((x, C(op == 'and')))
            elif stop and len(res) == 1:
                out.append((x, res[0]))
            elif stop:
                out.append((x, C(op == 'or')))
            else:
                out.append((x, res[0] if len(res) == 1 else (op, tuple(res))))
        return out

    def e_Compare(self, e, st):
        out = []
        for x, vs in self.evs([e.left] + e.comparators, st):
            if len(vs) != len(e.comparators) + 1:
                out.append((x, ('unk', 'dead')))
                continue
            parts = []
            for k, op in enumerate(e.ops):
                c = ('cmp', type(op).__name__, vs[k], vs[k + 1])
                if isinstance(op, (ast.In, ast.NotIn)):
                    items = self.const_items(vs[k + 1])
                    if items is not None and vs[k][0] == 'const' and all(i[0] == 'const' for i in items):
                        c = C((vs[k] in items) == isinstance(op, ast.In))
                elif vs[k][0] == 'const' and vs[k + 1][0] == 'const':
                    try:
                        a, b = vs[k][1], vs[k + 1][1]
                        f = {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b,
                             'GtE': lambda: a >= b, 'Is': lambda: a is b, 'IsNot': lambda: a is not b}[type(op).__name__]
                        c = C(f())
                    except Exception:
                        pass
                elif isinstance(op, (ast.Is, ast.IsNot)) and vs[k + 1] == NONE and vs[k][0] in ('list', 'tuple', 'dict', 'set', 'comp', 'func', 'self'):
                    c = C(isinstance(op, ast.IsNot))
                parts.append(c)
            if len(parts) == 1:
                out.append((x, parts[0]))
            elif any(p == FALSE for p in parts):
                out.append((x, FALSE))
            else:
                parts = [p for p in parts if p != TRUE]
                out.append((x, TRUE if not parts else parts[0] if len(parts) == 1 else ('and', tuple(parts))))
        return out

    def e_IfExp(self, e, st):
        out = []
        for x, c in self.ev(e.test, st):
            t = self.truth(c)
            if x.exit:
                out.append((x, ('unk', 'dead')))
                continue
            if t is not None:
                out.extend(self.ev(e.body if t else e.orelse, x))
            else:
                y = x.fork()
                y.conds.append((c, True))
                y.ev('cond', c, True, e)
                out.extend(self.ev(e.body, y))
                x.conds.append((c, False))
                x.ev('cond', c, False, e)
                out.extend(self.ev(e.orelse, x))
        return out

    def e_Tuple(self, e, st): return self._seq('tuple', e, st)

    def e_List(self, e, st): return self._seq('list', e, st)

    def e_Set(self, e, st): return self._seq('set', e, st)

    def _seq(self, kind, e, st):
        out = []
        for x, vs in self.evs([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st):
            vals = []
            opaque = False
            for y, v in zip(e.elts, vs):
                if isinstance(y, ast.Starred):
                    items = self.const_items(v)
                    if items is None:
                        opaque = True
                    else:
                        vals.extend(items)
                else:
                    vals.append(v)
            out.append((x, ('unkseq', kind, tuple(vs)) if opaque else (kind, tuple(vals))))
        return out

    def e_Dict(self, e, st):
        out = []
        if any(k is None for k in e.keys):
            for x, vs in self.evs([v for v in e.values], st):
                out.append((x, ('call', 'dict', tuple(vs))))
            return out
        for x, ks in self.evs(e.keys, st):
            for y, vs in self.evs(e.values, x):
                out.append((y, ('dict', tuple(zip(ks, vs)))))
        return out

    def e_JoinedStr(self, e, st):
        out = []
        for x, vs in self.evs([v for v in e.values], st):
            if all(v[0] == 'const' for v in vs):
                out.append((x, C(''.join(str(v[1]) for v in vs))))
            else:
                out.append((x, ('fstr', tuple(vs))))
        return out

    def e_FormattedValue(self, e, st): return self.ev(e.value, st)

    def e_Starred(self, e, st): return [(x, ('star', v)) for x, v in self.ev(e.value, st)]

    def e_Lambda(self, e, st): return [(st, ('closure', e))]

    def e_Await(self, e, st): return self.ev(e.value, st)

    def _comp(self, kind, e, st):
        if len(e.generators) > 1:
            # nested comprehension: evaluate generically
            pass
        saved = dict(st.env)
        out = []
        gens = e.generators

        def rec(k, x):
            if x.exit:
                return [(x, None, ())]
            if k == len(gens):
                if kind == 'dict':
                    return [(y, ('tuple', tuple(vs)), ()) for y, vs in self.evs([e.key, e.value], x)]
                return [(y, v, ()) for y, v in self.ev(e.elt, x)]
            g = gens[k]
            res = []
            for y, it in self.ev(g.iter, x):
                if y.exit:
                    res.append((y, None, ()))
                    continue
                el = self.generic_elem(it, ('c', g.iter.lineno, g.iter.col_offset, k))
                base = y.loops
                y.loops = base + (('for', it, e.lineno),)
                for z in self.assign(g.target, el, y, e):
                    ws = [(z, ())]
                    for c in g.ifs:
                        ws = [(q, cs + (v,)) for w, cs in ws for q, v in self.ev(c, w)]
                    for w, cs in ws:
                        for q, v, more in rec(k + 1, w):
                            q.loops = base
                            res.append((q, v, ((it, cs),) + more))
            return res

        # constant unrolling for single generator without conditions
        if len(gens) == 1:
            for x, it in self.ev(gens[0].iter, st):
                items = self.const_items(it) if not x.exit else None
                if items is not None and len(items) <= 64:
                    states = [(x, [])]
                    for v in items:
                        nxt = []
                        for y, acc in states:
                            for z in self.assign(gens[0].target, v, y, e):
                                cs = self.evs(gens[0].ifs, z)
                                for w, cv in cs:
                                    ts = [self.truth(q) for q in cv]
                                    if any(t is False for t in ts):
                                        nxt.append((w, acc))
                                        continue
                                    if kind == 'dict':
                                        for q, kv in self.evs([e.key, e.value], w):
                                            nxt.append((q, acc + [tuple(kv)]))
                                    else:
                                        for q, ev in self.ev(e.elt, w):
                                            nxt.append((q, acc + [ev]))
                        states = nxt
                    for y, acc in states:
                        for n in self.target_names(gens[0].target):
                            if n in saved:
                                y.env[n] = saved[n]
                            else:
                                y.env.pop(n, None)
                        out.append((y, ({'list': 'list', 'set': 'set', 'gen': 'list', 'dict': 'dict'}[kind], tuple(acc))))
                    continue
                # generic
                sub = rec_one = None
                res = self._generic(kind, e, x, it, saved)
                out.extend(res)
            return out
        for x, v, its in rec(0, st):
            x.env = dict(saved)
            out.append((x, ('comp', kind, v, its)))
        return out

    def target_names(self, t):
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

    def _generic(self, kind, e, x, it, saved):
        if x.exit:
            return [(x, ('unk', 'dead'))]
        g = e.generators[0]
        el = self.generic_elem(it, ('c', g.iter.lineno, g.iter.col_offset, 0))
        base = x.loops
        x.loops = base + (('for', it, e.lineno),)
        out = []
        for z in self.assign(g.target, el, x, e):
            for w, cs in self.evs(g.ifs, z):
                if kind == 'dict':
                    rs = [(q, ('tuple', tuple(vs))) for q, vs in self.evs([e.key, e.value], w)]
                else:
                    rs = self.ev(e.elt, w)
                for q, v in rs:
                    q.loops = base
                    q.env = dict(saved)
                    out.append((q, ('comp', kind, v, ((it, tuple(cs)),))))
        return out

    def e_ListComp(self, e, st): return self._comp('list', e, st)

    def e_SetComp(self, e, st): return self._comp('set', e, st)

    def e_GeneratorExp(self, e, st): return self._comp('gen', e, st)

    def e_DictComp(self, e, st): return self._comp('dict', e, st)

    # ------------------------------------------------------------ calls
    PURE_NO_RAISE = {'len', 'isinstance', 'hasattr', 'type', 'bool', 'repr', 'str', 'print', 'callable', 'id', 'dir', 'all', 'any', 'range',
                     'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'warnings.warn', 'free', 'malloc'}

    def e_Call(self, e, st):
        f = e.func
        if isinstance(f, ast.Name) and f.id == '__addr__':
            out = []
            for x, v in self.ev(e.args[0], st, lval=True):
                out.append((x, ('addr', v[1]) if v[0] == 'loc' else ('addrof', v)))
            return out
        if isinstance(f, ast.Name) and f.id == '__cast__':
            return [(x, ('cast', e.args[0].value, v)) for x, v in self.ev(e.args[1], st)]
        if isinstance(f, ast.Name) and f.id == '__sizeof__':
            a = e.args[0]
            return [(st, ('sizeof', a.value if isinstance(a, ast.Constant) else ast.unparse(a)))]
        out = []
        for x, fv in self.ev(f, st, lval=True):
            if x.exit:
                out.append((x, ('unk', 'dead')))
                continue
            if fv[0] == 'loc':
                fv = self.rval(x, fv, f)
            if fv[0] == 'bad':
                self.rval(x, fv, f)
                out.append((x, ('unk', 'dead')))
                continue
            argnodes = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
            for y, av in self.evs(argnodes, x):
                av = [('star', v) if isinstance(n, ast.Starred) else v for n, v in zip(e.args, av)]
                av2 = []
                for v in av:
                    if v[0] == 'star' and v[1][0] in ('tuple', 'list'):
                        av2.extend(v[1][1])
                    else:
                        av2.append(v)
                for z, kv in self.evs([k.value for k in e.keywords], y):
                    if z.exit:
                        out.append((z, ('unk', 'dead')))
                        continue
                    kw = {k.arg: v for k, v in zip(e.keywords, kv)}
                    out.extend(self.call(fv, av2, kw, z, e))
        return out

    def call(self, fv, args, kw, st, node):
        if fv[0] == 'bound':
            name = fv[1]
            if name in self.opaque:
                st.ev('methodcall', name, tuple(args), node)
                return [(st, ('call', 'self.' + name, tuple(args)))]
            a = args if name in self.m.static else [('self',)] + args
            return self.inline(self.m.methods[name], a, kw, st, node)
        if fv[0] == 'func':
            if fv[1] in self.opaque:
                st.ev('funccall', fv[1], tuple(args) + tuple(sorted(kw.items())), node)
                return [(st, ('call', fv[1], tuple(args)))]
            return self.inline(self.m.funcs[fv[1]], args, kw, st, node)
        if fv[0] == 'closure':
            if isinstance(fv[1], ast.Lambda):
                env = dict(st.env)
                for p, v in zip(fv[1].args.args, args):
                    st.env[p.arg] = v
                res = self.ev(fv[1].body, st)
                for x, _ in res:
                    x.env = dict(env)
                return res
            env = dict(st.env)
            res = self.inline(fv[1], args, kw, st, node, closure_env=env)
            return res
        name = fv[1] if fv[0] == 'name' else None
        if name == 'dereference' and len(args) == 1:
            return [(st, ('loc', args[0][1]) if args[0][0] == 'addr' else ('deref', args[0]))]
        if name == 'getattr' and len(args) >= 2 and args[1][0] == 'const' and args[0] == ('self',):
            return [(x, self.rval(x, v, node)) for x, v in self.getattr(args[0], args[1][1], st, node)]
        if name == 'setattr' and len(args) == 3 and args[0] == ('self',) and args[1][0] == 'const':
            return [(x, NONE) for x in self.setattr(args[0], args[1][1], args[2], st, node)]
        if name in ('setattr',):
            st.ev('dynset', tuple(args), None, node)
            return [(st, NONE)]
        if name in ('int', 'float', 'bool') and len(args) == 1 and args[0][0] == 'const':
            try:
                return [(st, C({'int': int, 'float': float, 'bool': bool}[name](args[0][1])))]
            except Exception:
                pass
        if name and name.startswith('ccoffe.') or name in ('free', 'malloc', 'calloc', 'realloc', 'memcpy'):
            cn = name[7:] if name.startswith('ccoffe.') else name
            st.ev('ccall', cn, tuple(args), node)
            if 'alloc' in cn:      # each allocation is a different object
                return [(st, ('ccall', cn, tuple(args), ('site', node.lineno, node.col_offset, len(st.events))))]
            return [(st, ('ccall', cn, tuple(args)))]
        if fv[0] == 'attr':
            # method of a value
            recv = fv[1]
            st.ev('mayraise', 'method .%s' % fv[2], recv, node)
            return [(st, ('call', '.' + fv[2], (recv,) + tuple(args) + tuple(('kw', k, v) for k, v in sorted(kw.items(), key=lambda q: str(q[0])))))]
        label = name or str(fv)
        if label not in self.PURE_NO_RAISE:
            st.ev('mayraise', label, tuple(args), node)
        return [(st, ('call', label, tuple(args) + tuple(('kw', k, v) for k, v in sorted(kw.items(), key=lambda q: str(q[0])))))]

    def inline(self, fn, args, kw, st, node, closure_env=None):
        self.depth += 1
        if self.depth > MAXDEPTH:
            self.depth -= 1
            st.ev('opaque', fn.name, None, node)
            return [(st, ('unk', fn.name))]
        try:
            a = fn.args
            names = [x.arg for x in a.posonlyargs + a.args]
            env = dict(closure_env or {})
            defaults = a.defaults
            for n, d in zip(names[len(names) - len(defaults):], defaults):
                env[n] = self.ev(d, st)[0][1]
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    env[p.arg] = self.ev(d, st)[0][1]
            for n, v in zip(names, args):
                env[n] = v
            if a.vararg:
                env[a.vararg.arg] = ('tuple', tuple(args[len(names):]))
            extra = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    env[k] = v
                else:
                    extra[k] = v
            if a.kwarg:
                env[a.kwarg.arg] = ('arg', '**' + a.kwarg.arg)
            for n in names:
                env.setdefault(n, ('unk', n))
            saved, sloops = st.env, st.loops
            st.env = env
            res = []
            for x in self.block(fn.body, st):
                v = x.ret if x.exit == 'return' else NONE
                if x.exit == 'return' or x.exit is None:
                    x.exit, x.ret = None, None
                    if x.events and x.events[-1].kind == 'return':
                        x.events.pop()
                x.env = dict(saved)
                x.loops = sloops
                res.append((x, v if v is not None else NONE))
            return res
        finally:
            self.depth -= 1
