"""What a function that reads a settings file (or writes results) does in one scenario: the constants a scenario fixes are propagated, and
every value is the set of terms it can be, in terms of the options of the file, the caller's memory and what was computed from them.
Paths that end the program (exit) do not count. Sets are joined where control flow joins: a set of one term is a must."""
import re
import ir
from ir import AnalysisBroken, Reg, Const, Glob, CExpr

ALLOC = re.compile(r'^(malloc|calloc|coffe_malloc)$')
QUIET = re.compile(r'^(printf|puts|putchar|fprintf|fputs|fputc|fwrite|fflush|perror|print_error\w*|clock|time|config_(init|destroy|set_\w+|error_\w+)|'
                   r'llvm\.(lifetime|dbg|assume|va_)\S*|coffe_free_\w+|fclose|setlocale|print_parameters|omp_set_\w+|config_write_file)$')
PURE = re.compile(r'^(pow|fabs|sqrt|exp|log|sin|cos|floor|ceil|round|lround|llvm\.(fabs|fmuladd|floor|ceil|round|trunc|smax|smin|umax|umin|abs)\S*|'
                  r'coffe_resolution_window|coffe_galaxy_bias|atoi|atof|omp_get_\w+|stat|access|mkdir|strtok|fopen|getopt|strrchr|strchr|coffe_get_time|isatty)$')
CAST = {'sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'}
UNDEF = ('undef',)
CAP = 10


def one(t): return frozenset((t,))


def sources(t, out=None):
    """the options and inputs a term depends on"""
    out = set() if out is None else out
    if isinstance(t, frozenset):
        for x in t:
            sources(x, out)
    elif isinstance(t, tuple):
        if t and t[0] in ('opt', 'elem', 'elemat', 'len', 'filecol'):
            out.add(t[1] if t[0] != 'filecol' else ('file',) + tuple(sorted(map(str, sources(t[1])))))
            return out
        for x in t[1:]:
            sources(x, out)
    return out


def depth(t):
    if isinstance(t, frozenset):
        return max([depth(x) for x in t] or [0])
    return 1 + max([depth(x) for x in t] or [0]) if isinstance(t, tuple) else 0


def trim(s):
    if len(s) > CAP or any(depth(t) > 14 for t in s):
        return one(('many', frozenset(sources(s))))
    return s


class Run:
    """options: {name: term set or None for missing}; default for an unnamed one: present. returns: {callee: constant}. strings: content of every
    element of a list of strings. fixed: {cell: value} loads that the scenario fixes"""

    def __init__(self, P, f, options=None, returns=None, strings=None, fixed=None, args=None, known=None):
        self.P, self.f, self.m = P, f, f.mod
        self.options, self.returns, self.strings = options or {}, returns or {}, strings
        self.fixed, self.args, self.known = fixed or {}, args or {}, known or {}
        self.events, self.looked, self.undef, self.ptype = {}, {}, {}, {}
        self.run()

    # ------------------------------------------------------------ cells
    def key(self, base, path):
        while path and path[-1] in ('[0]', '.0'):
            path = path[:-1]
        return (base, path)

    def field(self, st, n):
        """position and name of a field"""
        names = self.m.fields.get(st) or []
        return '.0' if n == 0 else '.%s' % (names[n] if n < len(names) else n)

    def gep(self, i, env):
        base = self.val(i.args[0], env)
        idx = i.args[1:]
        out = set()
        off = idx[0].v if i.ty == 'i8' and len(idx) == 1 and isinstance(idx[0], Const) else None
        for p in base:
            if p == UNDEF:
                self.undef.setdefault(i, 'an address')
                continue
            b, path = self.pointer(p)
            if isinstance(off, int):
                q = self.offset(self.key(b, path), off)
                if q is not None:
                    out.add(('p', b, q))
                    continue
            ty = i.ty
            first = self.index(idx[0], env)
            if first != '[0]':
                if path and path[-1].startswith('['):
                    path = path[:-1] + (self.plus(path[-1], first),)
                else:
                    path = path + (first,)
            for k, x in enumerate(idx[1:]):
                if ty.startswith('['):
                    ty = re.match(r'\[\d+ x (.*)\]$', ty).group(1)
                    path = path + (self.index(x, env),)
                elif ty.startswith('%'):
                    st = ty[1:].strip('"')
                    n = x.v
                    path = path + (self.field(st, n),)
                    ty = self.m.structs[st][n]
                else:
                    raise AnalysisBroken('address into ' + ty)
            self.ptype[self.key(b, path)] = ty
            out.add(('p', b, path))
        return frozenset(out)

    def size(self, ty):
        if ty in ('double', 'i64', 'ptr'):
            return 8, 8
        if ty in ('i32', 'float'):
            return 4, 4
        if ty in ('i8', 'i1'):
            return 1, 1
        if ty == 'i16':
            return 2, 2
        m = re.match(r'\[(\d+) x (.*)\]$', ty)
        if m:
            n, a = self.size(m.group(2))
            return int(m.group(1)) * n, a
        n, al = 0, 1
        for t in self.m.structs[ty[1:].strip('"')]:
            k, a = self.size(t)
            n = (n + a - 1) // a * a + k
            al = max(al, a)
        return (n + al - 1) // al * al, al

    def offset(self, k, off):
        """the field at a distance in bytes from a place whose type is known, or None"""
        ty, path = self.ptype.get(k), k[1]
        if ty is None:
            return None
        try:
            while True:
                if ty.startswith('%'):
                    st = ty[1:].strip('"')
                    n = 0
                    for j, t in enumerate(self.m.structs[st]):
                        z, a = self.size(t)
                        n = (n + a - 1) // a * a
                        if n <= off < n + z:
                            path, ty, off = path + (self.field(st, j),), t, off - n
                            break
                        n += z
                    else:
                        return None
                elif ty.startswith('['):
                    t = re.match(r'\[\d+ x (.*)\]$', ty).group(1)
                    z, _ = self.size(t)
                    path, ty, off = path + ('[%d]' % (off // z),), t, off % z
                else:
                    return path if off == 0 else None
        except KeyError:
            return None

    def index(self, x, env):
        s = self.val(x, env)
        if len(s) == 1:
            t = next(iter(s))
            if t[0] == 'c':
                return '[%d]' % t[1]
            return '[' + repr(t) + ']'
        return '[*]'

    def plus(self, a, b):
        try:
            return '[%d]' % (int(a[1:-1]) + int(b[1:-1]))
        except ValueError:
            return b if a == '[0]' else '[*]'

    def pointer(self, t):
        if t[0] == 'p':
            return t[1], t[2]
        if t[0] == 'g':
            return t, ()
        return ('obj', t), ()

    def load(self, p, st):
        if p == UNDEF:
            return one(UNDEF)
        b, path = self.pointer(p)
        k = self.key(b, path)
        if k in self.fixed:
            return self.fixed[k]
        if k in st and b[0] == 'local' and (not path or path[-1] == '[0]'):
            s = [v for (b2, p2), v in st.items() if b2 == b and len(p2) == len(k[1]) + 1 and p2[:-1] == k[1] and p2[-1].startswith('[') and not re.fullmatch(r'\[\d+\]', p2[-1])]
            if s:
                return trim(st[k].union(*s))
        if k in st:
            return frozenset(('splineptr', t) if t[0] == 'spline' else t for t in st[k])
        if path and path[-1].startswith('[') and not re.fullmatch(r'\[\d+\]', path[-1]):
            # any element
            s = frozenset().union(*[v for (b2, p2), v in st.items() if b2 == b and p2[:len(path) - 1] == path[:-1] and (len(p2) == len(path) and p2[-1].startswith('[') or p2 == path[:-1])] or [frozenset()])
            if s:
                return trim(frozenset(self.at(t, path[-1]) for t in s))
        else:
            # one element of an array that was filled in a loop
            pre = path[:-1] if path and path[-1].startswith('[') else path
            s = frozenset().union(*[v for (b2, p2), v in st.items() if b2 == b and len(p2) == len(pre) + 1 and p2[:-1] == pre and p2[-1].startswith('[') and not re.fullmatch(r'\[\d+\]', p2[-1])] or [frozenset()])
            if s:
                return s
        # inside a table
        for n in range(len(path), -1, -1):
            kk = self.key(b, path[:n])
            s = st.get(kk)
            if s and any(t[0] == 'spline' for t in s):
                return frozenset(('splineptr', t) if t[0] == 'spline' else t for t in s)
        if b[0] == 'obj':
            t = b[1]
            if t[0] == 'splineptr':
                S = t[1]
                nm = path[-1].strip('.') if path else ''
                if nm in ('x', 'y'):
                    return one(('arr', S, nm))
                if nm == 'size':
                    return S[3]
                return one(('in', b, path))
            if t[0] == 'arr':
                return frozenset(self.at(x, path[-1] if path else '[0]') for x in (t[1][1] if t[2] == 'x' else t[1][2]))
        for n in range(len(path), -1, -1) if b[0] in ('local', 'heap') else ():
            src = st.get((('from', b), path[:n]))
            if src and len(src) == 1:
                t = next(iter(src))
                return self.load(('p', t[1], t[2] + path[n:]), st)
        if b[0] in ('local', 'heap'):
            return one(UNDEF)
        if b[0] == 'g':
            return one(('in', b, ()))
        return one(('in', b, path))

    def at(self, t, idx):
        """an element written by a loop over all elements, seen at index idx"""
        return t

    def store(self, p, val, st, whole=False):
        b, path = self.pointer(p)
        k = self.key(b, path)
        for q in () if not whole else [q for q in st if q[0] == b and len(q[1]) > len(k[1]) and q[1][:len(k[1])] == k[1]]:
            del st[q]
        last = path[-1] if path else ''
        if last.startswith('['):
            if not re.fullmatch(r'\[\d+\]', last):
                for q in [q for q in st if q[0] == b and len(q[1]) == len(path) and q[1][:-1] == path[:-1] and q[1][-1].startswith('[') and not re.fullmatch(r'\[\d+\]', q[1][-1])]:
                    del st[q]
            val = frozenset(('elem' if '[%r]' % (t[2],) == last or t[2] == ('c', 0) and last == '[0]' else 'elem!', t[1]) if t[0] == 'elemat' else t for t in val)
        st[k] = trim(val)

    def weak(self, ptrs, val, st):
        if len(ptrs) == 1:
            p = next(iter(ptrs))
            if p == UNDEF:
                return
            b, path = self.pointer(p)
            if path and path[-1].startswith('[') and not re.fullmatch(r'\[\d+\]', path[-1]):
                k = self.key(b, path)
                self.store(p, val, st)
                return
            return self.store(p, val, st)
        for p in ptrs:
            if p != UNDEF:
                b, path = self.pointer(p)
                old = st.get(self.key(b, path), one(UNDEF))
                self.store(p, old | val, st)

    def text(self, p, st):
        """content of the string at p"""
        if p[0] == 'g':
            s = self.m.strings.get(p[1])
            return one(('c', s)) if s is not None else one(p)
        if p[0] == 'p':
            return self.load(p, st)
        return one(p)

    # ------------------------------------------------------------ values
    def val(self, a, env):
        if isinstance(a, Reg):
            return env.get(a.name, frozenset())
        if isinstance(a, Const):
            if a.v is None:
                return one(('c', 0))
            if a.v == 'undef':
                return one(UNDEF)
            if a.v == 'zero':
                return one(('c', 0))
            return one(('c', a.v))
        if isinstance(a, Glob):
            return one(('g', a.name))
        if isinstance(a, CExpr):
            m = re.search(r'getelementptr inbounds \((.*)\)', a.text)
            if m:
                parts = ir.split_top(m.group(1))
                ty, vals = parts[0], [ir.typed_val(x)[1] for x in parts[1:]]
                i = ir.Inst('getelementptr', None, ty, vals)
                return self.gep(i, env)
            raise AnalysisBroken('constant ' + a.text[:80])
        return one(('?', repr(a)))

    def run(self):
        f = self.f
        order = ir.rpo(f)
        pos = {b: n for n, b in enumerate(order)}
        env = {}
        for n, (p, t) in enumerate(zip(f.params, f.ptypes)):
            env[p] = self.args.get(n, one(('p', ('arg', n), ()) if t == 'ptr' else ('in', ('arg', n), ())))
        self.loops = {}                    # header -> (body, latches)
        for b in order:
            back = [p for p in b.preds if p in pos and pos[p] >= pos[b]]
            if back:
                body, todo = {b}, list(back)
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += x.preds
                self.loops[b] = (body, back)
        self.headers = set(self.loops)
        # a loop is read as one round for every element: its body sees the state before it, what follows sees the state after a round
        edges, outs, after, last, envs = set(), {}, {}, None, None
        for rnd in range(24):
            self.ret = self.final = None
            self.events, self.looked, self.undef = {}, {}, {}
            before, edges = edges, set()
            newouts, newafter = {}, {}
            for b in order:
                if b is order[0]:
                    st = {}
                else:
                    back = self.loops[b][1] if b in self.loops else ()
                    ins = []
                    for p in b.preds:
                        if p in back or (p, b) not in edges or p not in newouts:
                            continue
                        ins.append(newafter[p] if p in newafter and b not in self.loops[p][0] else newouts[p])
                    if not ins:
                        continue
                    st = self.join(ins)
                    edges |= {(p, b) for p in back if (p, b) in before}
                alive, succs, _ = self.block(b, st, env, edges)
                if not alive:
                    continue
                newouts[b] = st
                edges |= {(b, s) for s in succs}
                if b in self.loops:
                    rounds = [outs[p] for p in self.loops[b][1] if (p, b) in before and p in outs]
                    newafter[b] = self.rounds(st, rounds) if rounds else st
            now = {k: v for k, v in env.items()}
            if before == edges and newouts == outs and newafter == after and now == envs:
                break
            outs, after, envs = newouts, newafter, now
        else:
            raise AnalysisBroken('values of %s do not settle' % f.name)
        self.edges, self.outs, self.env = edges, outs, env
        return self

    def rounds(self, before, rounds):
        """the state after a loop: array elements are those a round leaves behind, anything else may be from before"""
        new = self.join(rounds)
        out = self.join([before, new])
        had = {k[0] for k in before}
        for k in list(out):
            if k[0] != 'freed' and k[1] and any(x.startswith('[') and not re.fullmatch(r'\[\d+\]', x) for x in k[1]):
                if k in new:
                    out[k] = new[k]
                else:
                    del out[k]
            elif k in new and k[0] not in had and k[0] != 'freed' and k[0][0] in ('heap', 'local'):
                out[k] = new[k]
        return out

    def join(self, ins):
        if len(ins) == 1:
            return dict(ins[0])
        out = dict(ins[0])
        for o in ins[1:]:
            for k, v in o.items():
                w = out.get(k)
                if w is None:
                    out[k] = v | self.missing(k)
                elif w is not v and w != v:
                    out[k] = trim(w | v)
            for k in out:
                if k not in o and not (out[k] & self.missing(k)):
                    out[k] = out[k] | self.missing(k)
        return out

    def missing(self, k):
        b, path = k
        if b[0] in ('heap', 'local'):
            return one(UNDEF) if not (path and path[-1].startswith('[')) else frozenset()
        if b == 'freed':
            return frozenset()
        return one(('in', b, path)) if not (path and path[-1].startswith('[')) else frozenset()

    def block(self, b, st, env, edges):
        changed = False
        for i in b.insts:
            op = i.op
            if op == 'phi':
                live = [(v, p) for v, l in i.args for p in b.preds if p.name == l and (p, b) in edges]
                if b in self.headers:
                    back = self.loops[b][1]
                    s = frozenset().union(*[self.val(v, env) for v, p in live if p not in back] or [frozenset()])
                    if any(p in back for p in b.preds) and any(not (isinstance(v, Reg) and v.name == i.res) and self.val(v, env) != s for v, p in live if p in back):
                        if i.ty != 'ptr':
                            s = one(('phi', i.res))
                        elif any(t[0] == 'p' for t in s):
                            s = frozenset(t if t[0] != 'p' else ('p', t[1], (t[2][:-1] if t[2] and t[2][-1] == '[0]' else t[2]) + ('[%r]' % (('phi', i.res),),)) for t in s)
                        else:
                            s = frozenset().union(*[self.val(v, env) for v, p in live])
                else:
                    s = frozenset().union(*[self.val(v, env) for v, p in live] or [frozenset()])
                r = trim(s)
            elif op == 'load':
                r = trim(frozenset().union(*[self.load(p, st) for p in self.val(i.args[0], env)] or [frozenset()]))
            elif op == 'store':
                self.weak(self.val(i.args[1], env), self.val(i.args[0], env), st)
                continue
            elif op == 'getelementptr':
                r = self.gep(i, env)
            elif op == 'alloca':
                r = one(('p', ('local', i.res), ()))
            elif op in CAST:
                r = self.val(i.args[0], env)
                if op == 'trunc' and i.ty == 'i1':
                    pass
            elif op == 'call':
                r = self.call(i, st, env)
                if r is None:
                    return False, [], changed
            elif op == 'select':
                c = self.val(i.args[0], env)
                t = self.truth(c)
                r = frozenset()
                if t != {0}:
                    r |= self.val(i.args[1], env)
                if t != {1}:
                    r |= self.val(i.args[2], env)
                r = trim(r)
            elif op == 'br':
                if not i.args:
                    return True, b.succs, changed
                t = self.truth(self.val(i.args[0], env))
                self.events[i] = (self.val(i.args[0], env),)
                return True, [self.f.bmap[x] for k, x in enumerate(i.x) if (1 - k) in t], changed
            elif op == 'switch':
                s = self.val(i.args[0], env)
                out = set()
                for t in s:
                    if t[0] == 'c':
                        out.add(dict(i.x[1]).get(t[1], i.x[0]))
                    else:
                        out |= {i.x[0]} | {x for _, x in i.x[1]}
                return True, [self.f.bmap[x] for x in out], changed
            elif op == 'ret':
                self.final = st if self.final is None else self.join([self.final, st])
                if i.args:
                    self.ret = (self.ret or frozenset()) | self.val(i.args[0], env)
                return True, [], changed
            elif op == 'unreachable':
                return False, [], changed
            else:
                r = self.operate(i, env)
            if i.res is not None and env.get(i.res) != r:
                env[i.res] = r
                changed = True
        return True, b.succs, changed

    def truth(self, s):
        out = set()
        for t in s:
            if t[0] == 'c':
                out.add(1 if t[1] else 0)
            else:
                out |= {0, 1}
        return out

    def operate(self, i, env):
        vs = [self.val(a, env) for a in i.args]
        out = set()
        name = i.op + (' ' + i.x if i.op in ('icmp', 'fcmp') else '')
        if len(vs) == 1:
            return trim(frozenset(('op', name, a) for a in vs[0]))
        for a in vs[0]:
            for b in vs[1]:
                out.add(self.fold(name, a, b))
        return trim(frozenset(out))

    def fold(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c' and not isinstance(a[1], str) and not isinstance(b[1], str):
            x, y = a[1], b[1]
            try:
                if op.startswith('icmp') or op.startswith('fcmp'):
                    p = op.split()[1].lstrip('uso')if op.startswith('icmp') and op.split()[1][0] in 'us' else op.split()[1]
                    if op.startswith('fcmp'):
                        p = p[1:]
                    r = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p]
                    return ('c', 1 if r else 0)
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                     'fdiv': lambda: x / y, 'sdiv': lambda: int(x / y), 'udiv': lambda: x // y, 'srem': lambda: x - y * int(x / y), 'urem': lambda: x % y,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'ashr': lambda: x >> y, 'lshr': lambda: x >> y}[op]()
                return ('c', r)
            except (KeyError, ZeroDivisionError, TypeError, ValueError):
                pass
        if op in ('icmp eq', 'icmp ne'):
            # an address is not null
            for x, y in ((a, b), (b, a)):
                if y == ('c', 0) and x[0] in ('p', 'g', 'setting', 'splineptr', 'arr'):
                    return ('c', 0 if op == 'icmp eq' else 1)
            if a == b and a != UNDEF and a[0] != 'many':
                return ('c', 1 if op == 'icmp eq' else 0)
        if op in ('and', 'or', 'xor'):
            for x, y in ((a, b), (b, a)):
                if y == ('c', 0):
                    return y if op == 'and' else x
        return ('op', op, a, b)

    # ------------------------------------------------------------ calls
    def call(self, i, st, env):
        if not isinstance(i.x, Glob):
            raise AnalysisBroken('call through a pointer at ' + self.f.loc(i))
        n = i.x.name
        A = [self.val(a, env) for a in i.args]
        self.events[i] = tuple(A)
        if n in ('exit', 'abort', '_exit', '__assert_fail'):
            return None
        if n.startswith('llvm.lifetime') or n.startswith('llvm.dbg'):
            for p in A[1] if n.startswith('llvm.lifetime') else ():
                for q in [q for q in st if p[0] == 'p' and q[0] == p[1]]:
                    del st[q]
            return frozenset()
        for k, a in enumerate(A):
            if UNDEF in a and not QUIET.match(n) and n != 'free':
                self.undef.setdefault(i, 'argument %d of %s' % (k + 1, n))
        if n in self.returns:
            r = self.returns[n]
            r = r(self, i, A, st) if callable(r) else one(('c', r))
            if n not in ('read_2col',):
                return r
        m = re.match(r'config_lookup_(int|float|string|bool|int64)$', n)
        if m:
            return self.lookup(i, m.group(1), A, st)
        if n == 'config_lookup':
            return frozenset(('c', 0) if self.options.get(x, 0) is None else ('setting', x) for x in self.names(A[1], st, i, 'list'))
        if n == 'config_setting_length':
            return frozenset(('len', t[1]) if t[0] == 'setting' else UNDEF for t in A[0])
        m = re.match(r'config_setting_get_(int|float|string|bool|int64)_elem$', n)
        if m:
            ix = next(iter(A[1])) if len(A[1]) == 1 else ('*',)
            for t in A[0]:
                if t[0] == 'setting':
                    self.looked.setdefault(t[1], set()).add('list of ' + m.group(1))
            return frozenset(('elemat', t[1], ix) if t[0] == 'setting' else UNDEF for t in A[0])
        if n == 'config_setting_get_elem':
            ix = next(iter(A[1])) if len(A[1]) == 1 else ('*',)
            return frozenset(('esetting', t[1], ix) if t[0] == 'setting' else UNDEF for t in A[0])
        m = re.match(r'config_setting_get_(int|float|string|bool|int64)$', n)
        if m:
            for t in A[0]:
                if t[0] in ('setting', 'esetting'):
                    self.looked.setdefault(t[1], set()).add(('list of ' if t[0] == 'esetting' else '') + m.group(1))
            return frozenset(('elemat', t[1], t[2]) if t[0] == 'esetting' else ('opt', t[1]) if t[0] == 'setting' else UNDEF for t in A[0])
        if n == 'config_read_file':
            return one(('c', 1))
        if ALLOC.match(n):
            o = ('heap', i.res)
            for q in [q for q in st if q[0] == o]:
                del st[q]
            st.pop(('freed', o), None)
            return one(('p', o, ()))
        if n == 'realloc':
            return A[0]
        if n == 'free':
            for p in A[0]:
                if p[0] == 'p' and len(A[0]) == 1:
                    st[('freed', p[1])] = one(('c', 1))
                elif p[0] == 'p':
                    st[('freed', p[1])] = frozenset((('c', 0), ('c', 1)))
                elif p[0] == 'in':
                    st[('freed', ('obj', p))] = one(('c', 1))
            return frozenset()
        if n == 'strcmp' or n == 'strncmp' or n == 'strcasecmp':
            out = set()
            for x in A[0]:
                for y in A[1]:
                    for a in self.text(x, st):
                        for b in self.text(y, st):
                            a2, b2 = self.plain(a), self.plain(b)
                            if isinstance(a2, str) and isinstance(b2, str):
                                out.add(('c', 0 if a2 == b2 else 1))
                            else:
                                out.add(('op', 'strcmp', a, b))
            return frozenset(out)
        if n == 'strlen':
            return frozenset(('op', 'strlen', b) for x in A[0] for b in self.text(x, st))
        if n in ('strcpy', 'strncpy'):
            self.weak(A[0], frozenset(t for x in A[1] for t in self.text(x, st)), st)
            return A[0]
        if n == 'strdup' or n == 'coffe_strdup':
            o = ('heap', i.res)
            st[(o, ())] = frozenset(t for x in A[0] for t in self.text(x, st))
            return one(('p', o, ()))
        if n in ('strcat', 'strncat'):
            for p in A[0]:
                old = self.text(p, st)
                new = frozenset(self.cat(a, b) for a in old for x in A[1] for b in self.text(x, st))
                self.store(p, trim(new), st)
            return A[0]
        if n in ('snprintf', 'sprintf'):
            k = 2 if n == 'snprintf' else 1
            fm = {t for x in A[k] for t in self.text(x, st)}
            parts = [frozenset(t for x in a for t in (self.text(x, st) if x[0] in ('p', 'g') else one(x))) for a in A[k + 1:]]
            out = set()
            for q in fm:
                if q == ('c', '%s') and len(parts) == 1:
                    out |= parts[0]
                elif q[0] == 'c' and all(len(x) == 1 and next(iter(x))[0] == 'c' for x in parts) and re.fullmatch(r'(?:[^%]|%s|%d|%zu|%i)*', str(q[1])):
                    try:
                        out.add(('c', re.sub('%zu', '%d', q[1]) % tuple(next(iter(x))[1] for x in parts)))
                    except TypeError:
                        out.add(('print', q, tuple(parts)))
                elif q[0] == 'c' and '%' not in str(q[1]):
                    out.add(q)
                else:
                    out.add(('print', q, tuple(parts)))
            self.weak(A[0], frozenset(out), st)
            return one(('call', n))
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove') or n in ('memcpy', 'memmove'):
            self.copy(A[0], A[1], st, i)
            return A[0]
        if n.startswith('llvm.memset') or n == 'memset':
            for p in A[0]:
                if p != UNDEF:
                    if not self.cleared(p, A, st):
                        self.store(p, A[1], st, True)
            return A[0]
        if n == 'coffe_init_spline':
            for p in A[0]:
                x, y = (frozenset().union(*[self.content(q, st) for q in A[k]] or [frozenset()]) for k in (1, 2))
                self.store(p, one(('spline', x, y, A[3], A[4])), st, True)
            return one(('c', 0))
        if re.match(r'coffe_new_(spline|spline2d|fit_coefficients_array|class_struct)$', n):
            for p in A[0]:
                self.store(p, one(('empty',)), st, True)
            return one(('c', 0))
        if n == 'coffe_generate_range':
            o = ('heap', i.res)
            for q in [q for q in st if q[0] == o]:
                del st[q]
            st[(o, ('[*]',))] = one(('range', A[0], A[1], A[2]))
            st.pop(('freed', o), None)
            return one(('p', o, ()))
        if n in ('read_2col',):
            ok = self.returns.get(n, 0)
            if not ok:
                name = frozenset(t for x in A[0] for t in self.text(x, st))
                for k in (1, 2):
                    o = ('heap', '%s.%s.%d' % (n, i.res or i.line, k))
                    st[(o, ('[*]',))] = one(('filecol', name, k))
                    st.pop(('freed', o), None)
                    self.weak(A[k], one(('p', o, ())), st)
                self.weak(A[3], one(('len', ('file', name))), st)
            return one(('c', ok))
        if QUIET.match(n):
            return one(('call', n)) if i.res else frozenset()
        if PURE.match(n):
            if any(len(a) > 4 for a in A):
                return one(('many', frozenset(sources(frozenset().union(*A)))))
            return one(('call', n) + tuple(frozenset(a) for a in A))
        if n in self.known:
            return self.known[n](self, i, A, st)
        raise AnalysisBroken('%s calls %s' % (self.f.name, n))

    def plain(self, t):
        if t[0] == 'c':
            return t[1]
        if t[0] in ('elem', 'elemat', 'elem!') and self.strings is not None:
            return self.strings
        if t[0] == 'p' or t[0] == 'g':
            return None
        return None

    def cat(self, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return ('c', str(a[1] or '') + str(b[1]))
        return ('cat', a, b)

    def content(self, p, st):
        """the elements of the array at p"""
        if p == UNDEF:
            return one(UNDEF)
        b, path = self.pointer(p)
        while path and path[-1] == '[0]':
            path = path[:-1]
        out = set()
        for (b2, p2), v in st.items():
            if b2 == b and (len(p2) == len(path) + 1 and p2[:-1] == path and p2[-1].startswith('[') or p2 == path):
                out |= v
        out.discard(UNDEF)
        if not out and b[0] == 'obj' and b[1][0] == 'arr':
            S = b[1][1]
            return S[1] if b[1][2] == 'x' else S[2]
        if not out and b[0] in ('arg', 'obj'):
            out.add(('in', b, path + ('[*]',)))
        return trim(frozenset(out or {UNDEF}))

    def copy(self, dst, src, st, i):
        if len(dst) != 1 or len(src) != 1:
            raise AnalysisBroken('a copy between several places')
        d, s = next(iter(dst)), next(iter(src))
        db, dp = self.pointer(d)
        sb, sp = self.pointer(s)
        db, dp = self.key(db, dp)
        sb, sp = self.key(sb, sp)
        for q in [q for q in st if q[0] == db and q[1][:len(dp)] == dp]:
            del st[q]
        if sb[0] == 'g':
            st[(db, dp + ('[*]',))] = one(('const', sb[1]))
            return
        for q in [q for q in st if q[0] == sb and q[1][:len(sp)] == sp]:
            st[(db, dp + q[1][len(sp):])] = st[q]
        if sb[0] in ('arg', 'obj'):
            if db[0] == 'heap' and not dp and self.array(sb, sp):
                st[(db, ('[*]',))] = one(('in', sb, sp + ('[*]',)))
                return
            st[(('from', db), dp)] = one(('copy', sb, sp))

    def array(self, b, path):
        """whether a place is the beginning of a table of numbers"""
        return b[0] == 'obj' and not path and b[1][0] == 'in' and b[1][2] and b[1][2][-1] in ('.x', '.y')

    def cleared(self, p, A, st):
        """a structure inside another one is set to zero"""
        b, path = self.pointer(p)
        k = self.key(b, path)
        ty = self.ptype.get(k)
        if b[0] != 'arg' or A[1] != one(('c', 0)) or ty is None or len(A[2]) != 1 or next(iter(A[2]))[0] != 'c':
            return False
        n = next(iter(A[2]))[1]
        # the smallest structure here that has this size
        try:
            while ty.startswith('%') and self.size(ty)[0] != n:
                ty = self.m.structs[ty[1:].strip('"')][0]
            if not ty.startswith('%'):
                return False
            off = 0
            while off < n:
                z = self.offset_in(ty, k[1], off)
                if z is None:
                    return False
                self.store(('p', b, z[0]), A[1], st, True)
                off = z[1]
        except (KeyError, IndexError):
            return False
        return True

    def offset_in(self, ty, path, off):
        """the field that starts at a distance in bytes in a structure, and where the next one starts"""
        start = 0
        while ty.startswith('%'):
            s = ty[1:].strip('"')
            n = start
            for j, t in enumerate(self.m.structs[s]):
                z, a = self.size(t)
                n = (n + a - 1) // a * a
                if n <= off < n + z:
                    path, ty, start = path + (self.field(s, j),), t, n
                    break
                n += z
            else:
                return None
        if start != off:
            return None
        return path, off + self.size(ty)[0]

    def names(self, a, st, i, kind):
        out = set()
        for x in a:
            for t in self.text(x, st):
                if t[0] != 'c' or not isinstance(t[1], str):
                    raise AnalysisBroken('an option whose name is not a constant at ' + self.f.loc(i))
                out.add(t[1])
                self.looked.setdefault(t[1], set())
        return out

    def lookup(self, i, kind, A, st):
        nm = self.names(A[1], st, i, kind)
        ret, val = set(), set()
        for n in nm:
            self.looked[n].add(kind)
            o = self.options.get(n, one(('opt', n)))
            if o is None:
                ret.add(('c', 0))
                val |= frozenset().union(*[self.load(p, st) for p in A[2]])
            else:
                ret.add(('c', 1))
                val |= o
        if any(self.options.get(n, 1) is not None for n in nm):
            self.weak(A[2], frozenset(val), st)
        return frozenset(ret)
