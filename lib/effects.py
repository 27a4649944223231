"""which memory a call tree reads and writes, from given arguments: field-sensitive, context-sensitive, flow-insensitive

An object is ('L', function, register) a local, ('H', function, register) memory allocated in the tree, ('G', name) a global, ('F', name) a
function, ('S', label, path) memory the tree was given (path: how it is reached), or ('E', object, index) an element of it that belongs to
one iteration. A pointer is a set of (object, field path)."""
import re
from ir import AnalysisBroken, Glob, Reg, Const, CExpr

NONE = frozenset()
FRESH = re.compile(r'^(malloc|calloc|coffe_malloc|strdup|fftw_malloc|fftw_alloc_\w+|gsl_\w+_(alloc|calloc|clone)|fopen|fdopen|tmpfile|opendir|fftw_plan_\w+)$')
# external functions and the arguments through which they write
WRITES = [
    (r'gsl_spline_eval\w*|gsl_interp_eval\w*', lambda n, a: [a - 1] if not n.endswith('_e') and 'integ' not in n else [a - 2, a - 1] if n.endswith('_e') else [a - 1]),
    (r'gsl_spline2d_eval\w*|gsl_interp2d_eval\w*', lambda n, a: [a - 2, a - 1] if not n.endswith('_e') else [a - 3, a - 2, a - 1]),
    (r'gsl_interp_accel_(find|reset|free)', lambda n, a: [0]),
    (r'gsl_(spline|spline2d|interp|interp2d)_(init|free|set)', lambda n, a: [0]),
    (r'gsl_integration_\w+', lambda n, a: list(range(1, a))),
    (r'gsl_monte_\w+_(integrate|init|free)', lambda n, a: list(range(3, a)) if a > 2 else [0]),
    (r'gsl_rng_(set|uniform\w*|get|free)', lambda n, a: [0]),
    (r'gsl_odeiv2?_\w+', lambda n, a: list(range(a))),
    (r'gsl_sf_\w+_e', lambda n, a: [a - 1]),
    (r'gsl_sf_\w+_array', lambda n, a: [a - 1]),
    (r'gsl_(vector|matrix|permutation|combination)_(set\w*|free|swap\w*|memcpy)', lambda n, a: [0]),
    (r'gsl_sort\w*', lambda n, a: [0]),
    (r'gsl_linalg_\w+|gsl_blas_\w+', lambda n, a: list(range(a))),
    (r'llvm\.mem(cpy|move|set)\S*|mem(cpy|move|set)|str(n)?c(py|at)|v?sn?printf|qsort|realloc|free|fftw_free|fclose|fgets|fread', lambda n, a: [0]),
    (r'frexp|modf|sincos', lambda n, a: list(range(1, a))),
    (r'fftw_execute_\w+', lambda n, a: list(range(1, a))),
    (r'coffe_\w+|twofast_\w+|two_sph_bessel\w*|tanhsinh_\w+', lambda n, a: []),
]
WRITES = [(re.compile('^(%s)$' % p), f) for p, f in WRITES]


def strip(p):
    """the first field of a structure is where the structure is"""
    while p and p[-1] == '0':
        p = p[:-1]
    return p


class Effects:
    def __init__(self, P, elements=None, limit=6):
        """elements: (function, instruction) -> index of an element that belongs to one iteration, for addresses in the top function"""
        self.P, self.limit = P, limit
        self.content, self.copies = {}, {}
        self.elements = elements or {}
        self.unresolved = set()

    def run(self, f, args):
        for _ in range(12):
            self.writes, self.reads, self.calls, self.memo, self.changed, self.functions = {}, {}, {}, {}, False, set()
            self.call(f, args, False, ())
            if not self.changed:
                return self
        raise AnalysisBroken('effects of %s do not settle' % f.name)

    # ---------------------------------------------------------------- memory
    def deep(self, o, path):
        if o[0] == 'S':
            d = o[2] + (path,)
            return ('S', o[1], d if len(d) <= self.limit else o[2])
        if o[0] == 'E':
            b = o[1]
            return self.deep(b, path)
        if o[0] == 'G':
            return ('S', '@' + o[1], (path,))
        return None

    def load(self, ptr, seen=()):
        out = set()
        for o, p in ptr:
            if (o, p) in seen:
                continue
            out |= self.content.get((o, p), NONE)
            for (do, dp), srcs in list(self.copies.items()):
                if do == o and p[:len(dp)] == dp:
                    for so, sp in srcs:
                        out |= self.load(frozenset([(so, sp + p[len(dp):])]), seen + ((o, p),))
            d = self.deep(o, p)
            if d is not None:
                out.add((d, ()))
        return frozenset(out)

    def put(self, ptr, val):
        if not val:
            return
        for q in ptr:
            old = self.content.get(q, NONE)
            if not val <= old:
                self.content[q] = old | val
                self.changed = True

    def fields(self, ptr):
        """everything the object a pointer points into holds, and what it was copied from"""
        out = set()
        for o, p in ptr:
            for (o2, p2), v in list(self.content.items()):
                if o2 == o:
                    out |= v
            for (do, dp), srcs in list(self.copies.items()):
                if do == o:
                    for s in srcs:
                        if s[0][0] in ('S', 'E', 'G'):
                            d = self.deep(s[0], s[1])
                            out.add((d, ()))
                        else:
                            out |= self.fields([s])
        return frozenset(out)

    # ---------------------------------------------------------------- functions
    def call(self, f, args, crit, chain):
        key = (f.qname, tuple(args), crit)
        if key in self.memo:
            return self.memo[key]
        if len(chain) > 40:
            raise AnalysisBroken('calls too deep')
        self.memo[key] = NONE
        self.functions.add(f.qname)
        chain = chain + (f.name,)
        env = dict(zip(f.params, args))
        locks = self.locks(f)
        ret = NONE
        for rnd in range(10):
            before = dict(env)
            for b in f.blocks:
                for n, i in enumerate(b.insts):
                    c = crit or locks.get((b.name, n), False)
                    r = self.inst(f, i, env, c, chain, n)
                    if i.op == 'ret' and i.args:
                        ret = ret | self.val(f, i.args[0], env)
                    elif r is not None and i.res is not None:
                        env[i.res] = env.get(i.res, NONE) | r
            if env == before:
                break
        self.memo[key] = ret
        return ret

    def locks(self, f):
        """instructions that run with a critical section entered"""
        if not any(i.op == 'call' and isinstance(i.x, Glob) and i.x.name.startswith('__kmpc_critical') for i in f.insts()):
            return {}
        start = {f.blocks[0].name: False}
        out, work = {}, [f.blocks[0]]
        while work:
            b = work.pop()
            s = start[b.name]
            for n, i in enumerate(b.insts):
                if i.op == 'call' and isinstance(i.x, Glob):
                    if i.x.name.startswith('__kmpc_critical'):
                        s = str(i.args[-1])
                    elif i.x.name.startswith('__kmpc_end_critical'):
                        s = False
                out[(b.name, n)] = s
            for t in b.succs:
                new = s if t.name not in start else (s if start[t.name] == s else False)
                if start.get(t.name, None) != new:
                    start[t.name] = new
                    work.append(t)
        return out

    def val(self, f, x, env):
        if isinstance(x, Reg):
            return env.get(x.name, NONE)
        if isinstance(x, Glob):
            if self.P.resolve(f, x.name) is not None:
                return frozenset([(('F', x.name, f.mod.base), ())])
            return frozenset([(('G', x.name), ())])
        if isinstance(x, CExpr):
            out = set()
            for n in re.findall(r'@([\w.$]+)', x.text):
                out |= self.val(f, Glob(n), env)
            return frozenset(out)
        return NONE

    def inst(self, f, i, env, crit, chain, n):
        op = i.op
        V = lambda x: self.val(f, x, env)
        if op == 'alloca':
            return frozenset([(('L', f.qname, i.res), ())])
        if op == 'getelementptr':
            base = V(i.args[0])
            if (f.qname, i.res) in self.elements:
                e = self.elements[(f.qname, i.res)]
                base = frozenset((('E', o, e), p) if o[0] in ('S', 'G') else (o, p) for o, p in base)
            fp = ()
            if i.ty.startswith('%'):
                fp = tuple(str(a.v) if isinstance(a, Const) else '[]' for a in i.args[2:])
            return frozenset((o, strip(p + fp)) for o, p in base)
        if op in ('bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint'):
            return V(i.args[0])
        if op == 'phi':
            out = NONE
            for x, _ in i.args:
                out = out | V(x)
            return out
        if op == 'select':
            return V(i.args[1]) | V(i.args[2])
        if op == 'load':
            p = V(i.args[0])
            self.note(self.reads, p, f, i, crit, chain)
            if i.ty == 'ptr':
                return self.load(p)
            return None
        if op == 'store':
            p = V(i.args[1])
            self.note(self.writes, p, f, i, crit, chain)
            v = V(i.args[0])
            self.put(p, v)
            return None
        if op in ('atomicrmw', 'cmpxchg'):
            return None
        if op == 'call':
            return self.called(f, i, env, crit, chain)
        return None

    def note(self, table, ptr, f, i, crit, chain):
        for o, p in ptr:
            if o[0] in ('S', 'E', 'G'):
                table.setdefault((o, p), []).append((f, i, crit, chain))

    def called(self, f, i, env, crit, chain):
        V = lambda x: self.val(f, x, env)
        if not isinstance(i.x, (Glob, Reg)):
            return None
        args = [V(a) for a in i.args]
        fns = []
        if isinstance(i.x, Glob):
            g = self.P.resolve(f, i.x.name)
            if g is None:
                return self.extern(f, i, args, crit, chain)
            fns = [g]
        else:
            for o, p in V(i.x):
                if o[0] == 'F':
                    fns.append(self.function(o))
                else:
                    self.unresolved.add((f.name, i.line))
            if not fns:
                self.unresolved.add((f.name, i.line))
        ret = NONE
        for g in fns:
            ret = ret | self.call(g, args[:len(g.params)] + [NONE] * (len(g.params) - len(args)), crit, chain)
        return ret

    def function(self, o):
        m = [g for q, g in self.P.funcs.items() if g.name == o[1] and (g.mod.base == o[2] or not g.internal)]
        if not m:
            raise AnalysisBroken('no function ' + o[1])
        return m[0]

    def extern(self, f, i, args, crit, chain):
        n = i.x.name
        self.calls.setdefault(n, []).append((f, i, crit, chain))
        if n.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental', '__kmpc')):
            return None
        w = []
        for rx, fn in WRITES:
            if rx.match(n):
                w = fn(n, len(args))
                break
        for k, a in enumerate(args):
            if k in w:
                self.note(self.writes, a, f, i, crit, chain)
            elif a:
                self.note(self.reads, a, f, i, crit, chain)
        if n.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')) and len(args) > 1:
            for d in args[0]:
                old = self.copies.get(d, NONE)
                if not args[1] <= old:
                    self.copies[d] = old | args[1]
                    self.changed = True
        # functions handed over: called with what goes with them
        for k, a in enumerate(args):
            direct = [o for o, p in a if o[0] == 'F']
            held = self.fields(frozenset(x for x in a if x[0][0] in ('L', 'H')))
            inside = [o for o, p in held if o[0] == 'F']
            given = frozenset(x for x in held if x[0][0] != 'F')
            if direct:
                given = frozenset(x for q in args for x in q if x[0][0] != 'F')
            for o in direct + inside:
                g = self.function(o)
                self.call(g, [given if t == 'ptr' else NONE for t in g.ptypes], crit, chain)
        if FRESH.match(n) or n == 'realloc':
            return frozenset([(('H', f.qname, i.res), ())])
        if i.ty == 'ptr':
            return frozenset(x for a in args for x in a) if n in ('strtok', 'strchr', 'strrchr', 'strstr', 'memcpy', 'strcpy', 'strcat', 'fgets') else NONE
        return None
