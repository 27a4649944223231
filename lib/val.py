"""Global value numbering into an algebraic normal form.

Every SSA value of a function is given a polynomial with rational coefficients over interned atoms (cells of the settings,
table look-ups, calls).  Conditional code becomes polynomials over 0/1 indicator atoms, so that values computed in another
order, through temporaries, helpers, factored or expanded, split or merged conditions have the same normal form."""
import math, sys
from fractions import Fraction
from ir import *

sys.setrecursionlimit(20000)
LIMIT = 400000


class TooBig(AnalysisBroken):
    pass


class Table:
    def __init__(self):
        self.keys, self.ids = [], {}
        self.pkeys, self.pids = [], {}
        self.ind = set()             # atoms that are 0 or 1
        self.nzmemo = {}
        self.bools = set()           # interned polynomials known to be 0 or 1
        self.assume = None           # (kind, polynomial) -> ONE/ZERO for tests decided by an assumption

    def atom(self, *key):
        k = self.ids.get(key)
        if k is None:
            k = self.ids[key] = len(self.keys)
            self.keys.append(key)
            if key[0] in ('lt', 'nz', 'flag'):
                self.ind.add(k)
        return k

    def intern(self, p):
        k = frozenset(p.items())
        i = self.pids.get(k)
        if i is None:
            i = self.pids[k] = len(self.pkeys)
            self.pkeys.append(p)
        return ('P', i)

    def poly(self, ref): return self.pkeys[ref[1]]


T = Table()
Q = 2 ** 127 - 1


def F(c):
    """coefficients are rationals kept modulo a large prime; small rationals are recovered by frac()"""
    if type(c) is int:
        return c % Q
    c = Fraction(c)
    return c.numerator * pow(c.denominator, -1, Q) % Q


def frac(v):
    """the rational with small numerator and denominator that v stands for"""
    if v < 1 << 62:
        return Fraction(v)
    if Q - v < 1 << 62:
        return Fraction(v - Q)
    r0, r1, s0, s1 = Q, v, 0, 1
    while r1 >> 63:
        k = r0 // r1
        r0, r1, s0, s1 = r1, r0 - k * r1, s1, s0 - k * s1
    return Fraction(r1, s1)


ONE = {(): 1}
ZERO = {}


def reset():
    T.__init__()


def const(c): return {(): F(c)} if c else {}


def A(*key): return {((T.atom(*key), 1),): 1}


def add(a, b, s=1):
    if not b:
        return a
    if s == -1:
        return sub(a, b)
    if s == 1:
        if len(b) > len(a):
            a, b = b, a
    else:
        s = F(s)
    r = dict(a)
    for k, v in b.items():
        if s != 1:
            v = v * s % Q
        w = r.get(k)
        if w is None:
            if v:
                r[k] = v
        else:
            x = (w + v) % Q
            if x:
                r[k] = x
            else:
                del r[k]
    return r


def sub(a, b):
    r = {}
    for k, v in a.items():
        w = b.get(k)
        if w is None:
            r[k] = v
        elif w != v:
            r[k] = (v - w) % Q
    for k, w in b.items():
        if k not in a:
            r[k] = Q - w
    return r


def scale(a, c):
    c = F(c)
    return {k: v * c % Q for k, v in a.items()} if c else {}


def mmul(x, y):
    if not x:
        return y
    if not y:
        return x
    d = dict(x)
    ind = T.ind
    for a, e in y:
        o = d.get(a)
        if o is None:
            d[a] = e
        elif a in ind:
            d[a] = 1
        else:
            o += e
            if o:
                d[a] = o
            else:
                del d[a]
    return tuple(sorted(d.items()))


def mul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if not a:
        return {}
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return b if c == 1 else {k: v * c % Q for k, v in b.items()}
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig('value with %d x %d terms' % (len(a), len(b)))
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            r[k] = r.get(k, 0) + c * d
    r = {k: v % Q for k, v in r.items()}
    if not all(r.values()):
        r = {k: v for k, v in r.items() if v}
    if len(r) > LIMIT:
        raise TooBig('value with %d terms' % len(r))
    return r


def cval(p):
    """the constant value, or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return frac(p[()])
    return None


def lead(p):
    k = max(p, key=lambda m: (sum(abs(e) for _, e in m), [(a, e) for a, e in m]))
    return frac(p[k])


def content(p):
    """monomial that divides every term"""
    it = iter(p)
    c = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(c):
            if a in d and (d[a] > 0) == (c[a] > 0):
                c[a] = min(c[a], d[a], key=abs)
            else:
                del c[a]
        if not c:
            break
    return tuple(sorted((a, e) for a, e in c.items() if a not in T.ind))


def inverse(p):
    if not p:
        return A('inv0')
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): pow(c, -1, Q)}
    c = content(p)
    ic = {tuple((a, -e) for a, e in c): 1}
    q = mul(p, ic)
    l = lead(q)
    q = scale(q, 1 / l)
    return mul({tuple((a, -e) for a, e in c): F(1 / l)}, A('inv', T.intern(q)))


def div(a, b):
    r = mul(a, inverse(b)) if len(b) == 1 or not b else None
    if r is None:
        if a == b:
            return ONE
        r = mul(a, inverse(b))
    return r


def power(p, n):
    if n < 0:
        return power(inverse(p), -n)
    r = ONE
    while n:
        if n & 1:
            r = mul(r, p)
        n >>= 1
        if n:
            p = mul(p, p)
    return r


def fn(name, *args):
    if name == 'fabs' and args[0] and lead(args[0]) < 0:
        args = (scale(args[0], -1),)
    if all(cval(a) is not None for a in args):
        v = [float(cval(a)) for a in args]
        f = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos, 'fabs': abs, 'log10': math.log10}.get(name)
        if f:
            try:
                return number(f(*v))
            except ValueError:
                pass
    if name in ('gsl_sf_gamma', 'tgamma') and cval(args[0]) is not None and 0 < cval(args[0]) <= 30 and (2 * cval(args[0])).denominator == 1:
        c = Fraction(cval(args[0]))
        if c.denominator == 1:
            return const(math.factorial(int(c) - 1))
        n = int(c - Fraction(1, 2))
        return scale(fn('sqrt', A('pi')), Fraction(math.factorial(2 * n), 4 ** n * math.factorial(n)))
    if name == 'sqrt' and len(args[0]) == 1:
        (m, c), = args[0].items()
        if len(m) == 1 and T.keys[m[0][0]] == ('pi',) and (m[0][1] != 1 or c != 1):
            q, e = frac(c), m[0][1]
            if q > 0 and q.numerator < 10 ** 6 and q.denominator < 10 ** 6:
                # sqrt(a/b pi^e) = k/b sqrt(squarefree part of ab) pi^(e div 2) sqrt(pi)^(e mod 2)
                n, k = q.numerator * q.denominator, 1
                for d in range(2, 1000):
                    while n % (d * d) == 0:
                        n, k = n // (d * d), k * d
                r = scale(power(A('pi'), e // 2), F(Fraction(k, q.denominator)))
                if n != 1:
                    r = mul(r, A('sqrt', n))
                return mul(r, A('fn', 'sqrt', T.intern(A('pi')))) if e % 2 else r
    return A('fn', name, *[T.intern(a) for a in args])


def intop(op, a, b):
    """integer operations without a polynomial"""
    ca, cb = cval(a), cval(b)
    if op == 'shl' and cb is not None:
        return scale(a, 2 ** int(cb))
    if ca is not None and cb and op in ('sdiv', 'udiv'):
        return const(int(ca / cb))
    if ca is not None and cb and op in ('srem', 'urem'):
        return const(int(ca - int(ca / cb) * cb))
    return A('int', op, T.intern(a), T.intern(b))


def powf(x, y):
    c = cval(y)
    if c is not None:
        if c.denominator == 1 and abs(c) <= 40:
            return power(x, int(c))
        if c.denominator == 2 and abs(c) <= 40:
            n = math.floor(c)
            return mul(power(x, n), fn('sqrt', x))
    return A('fn', 'pow', T.intern(x), T.intern(y))


def number(v):
    """a double literal -> rational, rational * pi^k, or rational * H0^k; an opaque constant otherwise"""
    if isinstance(v, int):
        return const(v)
    if v != v or v in (math.inf, -math.inf):
        return A('const', repr(v))

    def rat(x, cap):
        q = Fraction(x).limit_denominator(cap)
        return q if abs(float(q) - x) <= 4e-16 * abs(x) and q != 0 else None
    if v == 0:
        return {}
    r = rat(v, 100000)
    if r is not None:
        return const(r)
    r = Fraction(repr(v))
    if len(repr(v).replace('.', '').replace('-', '').split('e')[0].strip('0')) <= 12:
        return {(): F(r)}
    for k in (1, 2, 3, 4, -1, -2, -3, -4):
        r = rat(v / math.pi ** k, 20000)
        if r is not None and abs(r.numerator) * r.denominator < 10 ** 10:
            return {((T.atom('pi'), k),): F(r)}
    for k in (1, 2, 3, 4, -1, -2, -3, -4):
        r = rat(v / 2997.92458 ** k, 20000)
        if r is not None and abs(r.numerator) * r.denominator < 10 ** 10:
            return {((T.atom('c/H'), k),): F(r)}
    for h in (2, 3, 5, 7, math.pi):
        r = rat(v / math.sqrt(h), 20000)
        if r is not None:
            return scale(fn('sqrt', const(h) if h != math.pi else {((T.atom('pi'), 1),): 1}), r) if h == math.pi else {((T.atom('sqrt', h), 1),): F(r)}
    return A('const', repr(v))


def lt0(d):
    """indicator of d < 0"""
    c = cval(d)
    if c is not None:
        return ONE if c < 0 else ZERO
    if T.assume:
        r = T.assume('lt', d)
        if r is not None:
            return r
    return A('lt', T.intern(scale(d, 1 / abs(lead(d)))))


def nz(d):
    c = cval(d)
    if c is not None:
        return ONE if c else ZERO
    if T.assume:
        r = T.assume('nz', d)
        if r is not None:
            return r
    if T.intern(d) in T.bools:
        return d
    if len(d) > 1 and all(a in T.ind for m in d for a, _ in m):
        b = boolean(d)
        if b is not None:
            return b
    return A('nz', T.intern(scale(d, 1 / lead(d))))


def boolean(d):
    """a polynomial over indicators that only takes the values 0 and 1 (or 0 and -1): d != 0 as a polynomial"""
    i = T.intern(d)
    if i in T.nzmemo:
        return T.nzmemo[i]
    r = None
    if len(d) <= 3000:
        sq = mul(d, d)
        if sq == d:
            r = d
        elif sq == scale(d, -1):
            r = sq
    if r is not None:
        T.bools.add(T.intern(r))
    T.nzmemo[i] = r
    return r


def neg(b): return sub(ONE, b)


def is_bool(p):
    r = T.intern(p)
    if r not in T.bools:
        T.bools.add(r)
    return p


LEG = {0: [1], 1: [0, 1], 2: [Fraction(-1, 2), 0, Fraction(3, 2)]}


def legendre(n, x):
    if n not in LEG:
        for k in range(3, n + 1):
            if k not in LEG:
                a, b = LEG[k - 1], LEG[k - 2]
                c = [Fraction(0)] * (k + 1)
                for i, v in enumerate(a):
                    c[i + 1] += Fraction(2 * k - 1, k) * v
                for i, v in enumerate(b):
                    c[i] -= Fraction(k - 1, k) * v
                LEG[k] = c
    r = {}
    for i, v in enumerate(LEG[n]):
        if v:
            r = add(r, scale(power(x, i), Fraction(v)))
    return r


CASTS = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'freeze', 'bitcast'}
ALLOC = {'malloc', 'calloc', 'realloc', 'coffe_malloc'}
PURE = {'sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'fabs', 'floor', 'ceil', 'sinh', 'cosh', 'tanh', 'asin', 'acos', 'atan', 'gsl_sf_bessel_j0', 'round',
        'atan2', 'fmax', 'fmin', 'gsl_sf_gamma', 'gsl_sf_bessel_j1', 'gsl_sf_bessel_j2', 'gsl_sf_bessel_jl', 'gsl_sf_bessel_Jn', 'gsl_sf_bessel_J0', 'gsl_sf_bessel_J1', 'tgamma', 'cbrt', 'exp2', 'log2', 'erf', 'gsl_sf_Si'}


def three_j(a, b, c):
    """the 3j symbol with no projections"""
    if (a + b + c) % 2 or c > a + b or a > b + c or b > a + c or min(a, b, c) < 0:
        return {}
    g, s = math.factorial, (a + b + c) // 2
    q = Fraction(g(2 * s - 2 * a) * g(2 * s - 2 * b) * g(2 * s - 2 * c), g(2 * s + 1)) * Fraction(g(s), g(s - a) * g(s - b) * g(s - c)) ** 2
    n, k = q.numerator * q.denominator, 1
    d = 2
    while d * d <= n:
        while n % (d * d) == 0:
            n, k = n // (d * d), k * d
        d += 1
    r = const(Fraction((-1) ** s * k, q.denominator))
    return mul(r, A('sqrt', n)) if n != 1 else r


class Val:
    """values of one function"""

    def __init__(self, P, f, params=None, bind=None, abind=None):
        """params: optional {index: poly or address}; bind: atom key -> poly or None; abind: address of a pointer cell -> address or None"""
        self.abind = abind or (lambda a: None)
        self.P, self.f = P, f
        self.params = params or {}
        self.bind = bind or (lambda key: None)      # atom key -> poly: fixes a cell to a value
        self.memo, self.amemo, self.pcm = {}, {}, {}
        self.idom = dominators(f)
        self.idom.pop(None, None)
        self.order = {b.name: k for k, b in enumerate(rpo(f))}
        self.bm = f.bmap
        self.loops = natural_loops(f)
        self.cells = 0

    # -- addresses
    def addr(self, v):
        if isinstance(v, Const):
            return ('null',) if v.v is None else ('const', repr(v.v))
        if isinstance(v, Glob):
            return ('glob', v.name)
        if isinstance(v, CExpr):
            return ('cexpr', v.text)
        if v.name in self.amemo:
            return self.amemo[v.name]
        self.amemo[v.name] = ('rec', v.name)
        r = self._addr(v)
        self.amemo[v.name] = r
        return r

    def _addr(self, v):
        f = self.f
        i = f.defs.get(v.name)
        if i is None:
            k = next((n for n, p in enumerate(f.params) if p == v.name), None)
            if k in self.params:
                return self.params[k]
            return ('arg', k)
        if i.op in ('bitcast', 'freeze', 'inttoptr'):
            return self.addr(i.args[0])
        if i.op == 'alloca':
            return ('local', v.name)
        if i.op == 'getelementptr':
            base = self.addr(i.args[0])
            ty = i.ty
            idx = i.args[1:]
            first = self.num(idx[0])
            if cval(first) != 0:
                if isinstance(base[-1], tuple) and base[-1][0] == '[]':        # moving on along the same array
                    base = base[:-1] + (('[]', T.intern(add(T.poly(base[-1][1]), first))),)
                else:
                    base = base + (('[]', T.intern(first)),)
            if ty.startswith('%struct.'):
                cur = ty[1:]
                # the first struct type met names an anonymous base
                if len(base) == 2 and base[0] == 'arg':
                    base = ('struct', cur[7:])
                for ix in idx[1:]:
                    if cur in self.P.fields and isinstance(ix, Const):
                        base = base + ('.' + self.P.fields[cur][ix.v],)
                        t = next((m.structs[cur][ix.v] for m in self.P.mods.values() if m.structs.get(cur)), None)
                        cur = t[1:] if t and t.startswith('%struct.') else ''
                    else:
                        base = base + (('[]', T.intern(self.num(ix))),)
                return base
            for ix in idx[1:]:
                n = self.num(ix)
                base = base + (('[]', T.intern(n)),)
            return base
        if i.op == 'load':
            return self.load_addr(i)
        if i.op == 'call' and isinstance(i.x, Glob):
            if i.x.name == 'coffe_find_integral':
                return ('integral',) + tuple(T.intern(self.num(a)) for a in i.args[1:])
            if i.x.name in ALLOC:
                return ('heap', f.name, v.name)
            return ('ret', i.x.name) + tuple(self.argkey(a, t) for a, t in zip(i.args, i.argtys or []))
        if i.op == 'phi':
            ks = [(self.addr(a), b) for a, b in i.args]
            if len({k for k, _ in ks}) == 1:
                return ks[0][0]
            return ('phi', v.name)
        if i.op == 'select':
            a, b = self.addr(i.args[1]), self.addr(i.args[2])
            return a if a == b else ('select', v.name)
        return ('?', v.name)

    def load_addr(self, i):
        st = self.reaching(i)
        if st is not None:
            return self.addr(st)
        a = self.addr(i.args[0])
        r = self.abind(a)
        return ('*', a) if r is None else r

    def reaching(self, i):
        """the value stored by the only store to a local cell, when it dominates the load"""
        a = self.addr(i.args[0])
        if a[0] != 'local':
            return None
        ss = []
        for u in self.f.insts():
            if u.op == 'store':
                b = self.addr(u.args[1])
                if b[:2] == a[:2]:
                    ss.append((u, b))
        same = [u for u, b in ss if b == a]
        other = [b for u, b in ss if b != a and any(isinstance(x, tuple) and cval(T.poly(x[1])) is None for x in b[2:])]
        if len(same) == 1 and not other:
            u = same[0]
            if self.escapes(a[:2]) and not (u.block is i.block and u.idx < i.idx and not any(
                    x.op == 'call' and u.idx < x.idx < i.idx for x in i.block.insts)):
                return None
            if u.block is i.block and u.idx < i.idx or u.block is not i.block and dominates(self.idom, u.block.name if isinstance(next(iter(self.idom)), str) else u.block, i.block.name if isinstance(next(iter(self.idom)), str) else i.block):
                return u.args[0]
        return None

    def escapes(self, a):
        """the address of a local is handed to a call or stored"""
        if not hasattr(self, '_esc'):
            self._esc = set()
            for u in self.f.insts():
                if u.op == 'call' and isinstance(u.x, Glob) and not u.x.name.startswith('llvm.'):
                    ptrs = [x for x, t in zip(u.args, u.argtys or []) if t == 'ptr']
                elif u.op == 'store' and isinstance(u.args[0], Reg):
                    ptrs = [u.args[0]]
                else:
                    continue
                for x in ptrs:
                    d = self.f.defs.get(x.name) if isinstance(x, Reg) else None
                    while d is not None and d.op in ('getelementptr', 'bitcast') and isinstance(d.args[0], Reg):
                        d = self.f.defs.get(d.args[0].name)
                    if d is not None and d.op == 'alloca':
                        self._esc.add(('local', d.res))
        return a in self._esc

    def argkey(self, a, ty):
        if ty == 'ptr':
            return self.addr(a)
        return T.intern(self.num(a))

    # -- numbers
    def num(self, v):
        if isinstance(v, Const):
            if v.v is None or isinstance(v.v, str):
                return A('const', str(v.v)) if v.v != 'zero' and v.v is not None else {}
            return number(v.v)
        if not isinstance(v, Reg):
            return A('addr', self.addr(v))
        m = self.memo.get(v.name)
        if m is None:
            self.memo[v.name] = A('rec', self.f.name, v.name)
            m = self.memo[v.name] = self._num(v)
        return m

    def atom(self, *key):
        p = self.bind(key)
        return A(*key) if p is None else p

    def _num(self, v):
        f = self.f
        i = f.defs.get(v.name)
        if i is None:
            k = next((n for n, p in enumerate(f.params) if p == v.name), None)
            if k in self.params and isinstance(self.params[k], dict):
                return self.params[k]
            return self.atom('arg', k)
        op = i.op
        if op in ('fadd', 'add'):
            return add(self.num(i.args[0]), self.num(i.args[1]))
        if op in ('fsub', 'sub'):
            return sub(self.num(i.args[0]), self.num(i.args[1]))
        if op in ('fmul', 'mul'):
            return mul(self.num(i.args[0]), self.num(i.args[1]))
        if op == 'fdiv':
            return div(self.num(i.args[0]), self.num(i.args[1]))
        if op == 'fneg':
            return scale(self.num(i.args[0]), -1)
        if op in CASTS:
            r = self.num(i.args[0])
            return scale(r, -1) if op == 'sext' and (i.argtys or [''])[0] == 'i1' else r
        if op == 'icmp' or op == 'fcmp':
            return is_bool(self.compare(i))
        if op in ('and', 'or', 'xor') and i.ty == 'i1':
            a, b = self.num(i.args[0]), self.num(i.args[1])
            p = mul(a, b)
            return is_bool(p if op == 'and' else sub(add(a, b), p) if op == 'or' else sub(add(a, b), scale(p, 2)))
        if op == 'select':
            c = self.num(i.args[0])
            a, b = self.num(i.args[1]), self.num(i.args[2])
            return add(b, mul(c, sub(a, b)))
        if op == 'phi':
            return self.phi(i)
        if op == 'load':
            s = self.reaching(i)
            if s is not None:
                return self.num(s)
            return self.atom('cell', self.addr(i.args[0]))
        if op == 'call':
            return self.call(i)
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'frem'):
            a, b = self.num(i.args[0]), self.num(i.args[1])
            return intop(op, a, b)
        if op in ('fptosi', 'fptoui'):
            a = self.num(i.args[0])
            c = cval(a)
            return const(int(c)) if c is not None else A('int', 'trunc', T.intern(a))
        if op in ('getelementptr', 'alloca', 'inttoptr'):
            return A('addr', self.addr(v))
        return A('opaque', f.name, v.name)

    def compare(self, i):
        p = i.x
        if i.ty == 'ptr':
            a, b = self.addr(i.args[0]), self.addr(i.args[1])
            if a == b:
                r = ZERO
            else:
                r = A('nz', ('ptr',) + tuple(sorted([a, b], key=repr)))
            return r if p == 'ne' else neg(r)
        a, b = self.num(i.args[0]), self.num(i.args[1])
        if p in ('eq', 'oeq', 'ueq'):
            return neg(nz(sub(a, b)))
        if p in ('ne', 'one', 'une'):
            return nz(sub(a, b))
        p = p[-2:]
        if p == 'lt':
            return lt0(sub(a, b))
        if p == 'gt':
            return lt0(sub(b, a))
        if p == 'le':
            return neg(lt0(sub(b, a)))
        if p == 'ge':
            return neg(lt0(sub(a, b)))
        return A('opaque', self.f.name, i.res)

    def edge(self, p, b):
        t = p.term
        if t.op == 'br' and t.args:
            if t.x[0] == t.x[1]:
                return ONE
            c = self.num(t.args[0])
            return c if t.x[0] == b.name else neg(c)
        if t.op == 'switch':
            d, cases = t.x
            v = self.num(t.args[0])
            r = {}
            for k, tgt in cases:
                if tgt == b.name:
                    r = add(r, neg(nz(sub(v, const(k)))))
            if d == b.name:
                e = ONE
                for k, tgt in cases:
                    e = sub(e, neg(nz(sub(v, const(k)))))
                r = add(r, e)
            return r
        return ONE

    def region(self, b):
        """condition under which b's predecessors are reached from b's immediate dominator; None across a loop"""
        if b.name in self.pcm:
            return self.pcm[b.name]
        d = self.idom_block(b)
        if d is None or any(self.order[p.name] >= self.order[b.name] for p in b.preds if p.name in self.order):
            self.pcm[b.name] = None
            return None
        seen, st = set(), [p for p in b.preds]
        while st:
            x = st.pop()
            if x.name in seen or x.name not in self.order:
                continue
            seen.add(x.name)
            if x is not d:
                st += x.preds
        cond = {d.name: ONE}
        for n in sorted(seen, key=self.order.get):
            if n == d.name:
                continue
            x = self.bm[n]
            c = {}
            for p in x.preds:
                if p.name not in self.order:
                    continue
                if self.order[p.name] >= self.order[n]:
                    continue                     # back edge: what happens inside the loop always comes out of it
                if p.name in cond:
                    c = add(c, mul(cond[p.name], self.exitfree(p, x)))
            cond[n] = c
        r = {}
        for p in b.preds:
            if p.name in cond:
                r[p.name] = mul(cond[p.name], self.exitfree(p, b))
        self.pcm[b.name] = r
        return r

    def exitfree(self, p, b):
        """edge condition; leaving a loop is certain (termination is assumed)"""
        for h, body in self.loop_items():
            if p.name in body and b.name not in body:
                outs = [(x, s) for x in body for s in self.bm[x].succs if s.name not in body]
                if len(outs) == 1:
                    return ONE
            if p.name == h and b.name in body and b.name != h:
                return ONE if False else self.edge(p, b)
        return self.edge(p, b)

    def loop_items(self):
        if not hasattr(self, '_li'):
            out = []
            L = self.loops
            items = L.items() if isinstance(L, dict) else L
            for h, body in items:
                hn = h.name if hasattr(h, 'name') else h
                out.append((hn, {x.name if hasattr(x, 'name') else x for x in body}))
            self._li = out
        return self._li

    def idom_block(self, b):
        d = self.idom.get(b) if b in self.idom else self.idom.get(b.name)
        if d is None:
            return None
        return d if hasattr(d, 'insts') else self.bm[d]

    def phi(self, i):
        b = i.block
        vals = [(self.bm[n] if n in self.bm else None, v) for v, n in i.args]
        reach = [(p, v) for p, v in vals if p is not None and p.name in self.order]
        if len({repr(v) for _, v in reach}) == 1:
            return self.num(reach[0][1])
        r = self.region(b)
        if r is None:
            return self.atom('loopphi', self.f.name, i.res)
        vs = [(r.get(p.name, {}), self.num(v)) for p, v in reach]
        base = max(vs, key=lambda x: len(x[1]))[1] if False else vs[-1][1]
        out = base
        for c, x in vs[:-1]:
            if x != base:
                out = add(out, mul(c, sub(x, base)))
        if i.ty == 'i1':
            is_bool(out)
        return out

    def pathcond(self, b):
        """condition under which block b is executed, from the entry (loops assumed to terminate)"""
        c = ONE
        while True:
            d = self.idom_block(b)
            if d is None or d is b:
                return c
            r = self.region(b)
            if r is None:
                fr = [p for p in b.preds if p.name in self.order and self.order[p.name] < self.order[b.name]]
                e = {}
                for p in fr:
                    e = add(e, self.edge(p, b))
                if len(fr) != 1:
                    e = ONE
            else:
                e = {}
                for x in r.values():
                    e = add(e, x)
            c = mul(c, e)
            b = d

    def call(self, i):
        if not isinstance(i.x, Glob):
            return A('opaque', self.f.name, i.res)
        n = i.x.name
        if n.startswith('llvm.'):
            n = n.split('.')[1]
        ar = lambda k: self.num(i.args[k])
        if n == 'fmuladd' or n == 'fma':
            return add(mul(ar(0), ar(1)), ar(2))
        if n == 'pow':
            return powf(ar(0), ar(1))
        if n == 'powi' or n == 'gsl_pow_int':
            return powf(ar(0), ar(1))
        if n.startswith('gsl_pow_') and n[8:].isdigit():
            return power(ar(0), int(n[8:]))
        if n.startswith('gsl_sf_legendre_P') and n[17:].isdigit():
            return legendre(int(n[17:]), ar(0))
        if n == 'abs':
            c = cval(ar(0))
            return const(abs(c)) if c is not None else fn(n, ar(0))
        if n == 'gsl_sf_legendre_Pl':
            l = cval(ar(0))
            if l is not None and 0 <= l <= 10:
                return legendre(int(l), ar(1))
            return A('fn', n, T.intern(ar(0)), T.intern(ar(1)))
        if n == 'gsl_sf_coupling_3j':
            q = [cval(ar(k)) for k in range(6)]
            if all(x is not None and x.denominator == 1 for x in q) and q[3:] == [0, 0, 0] and all(x % 2 == 0 for x in q):
                return three_j(*[int(x) // 2 for x in q[:3]])
            return A('fn', n, *[T.intern(ar(k)) for k in range(6)])
        if n in ('gsl_sf_fact', 'gsl_sf_doublefact', 'gsl_sf_choose'):
            q = [cval(ar(k)) for k in range(len(i.args))]
            if all(x is not None and x.denominator == 1 and 0 <= x <= 60 for x in q):
                q = [int(x) for x in q]
                if n == 'gsl_sf_fact':
                    return const(math.factorial(q[0]))
                if n == 'gsl_sf_choose' and q[1] <= q[0]:
                    return const(math.comb(*q))
                if n == 'gsl_sf_doublefact':
                    return const(math.prod(range(q[0], 0, -2)))
            return A('fn', n, *[T.intern(ar(k)) for k in range(len(i.args))])
        if n in ('coffe_interp_spline', 'coffe_interp_spline2d'):
            return self.atom('spline', self.addr(i.args[0]), *[T.intern(ar(k)) for k in range(1, len(i.args))])
        if n in PURE:
            return fn(n, *[ar(k) for k in range(len(i.args))])
        return self.atom('call', n, *([self.argkey(a, t) for a, t in zip(i.args, i.argtys or [])]))

    def returned(self):
        rs = [i for i in self.f.insts() if i.op == 'ret' and i.args]
        if len(rs) != 1:
            raise AnalysisBroken('%s has %d returns' % (self.f.name, len(rs)))
        return self.num(rs[0].args[0])


# ---------------------------------------------------------------- rewriting
def rewriter(fnc):
    """fnc(key) -> poly replacing the atom with that (already rewritten) key, or None"""
    pm, am = {}, {}

    def key(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'P' and isinstance(k[1], int):
                return T.intern(poly(T.pkeys[k[1]]))
            return tuple(key(x) for x in k)
        return k

    def atom(a):
        r = am.get(a)
        if r is None:
            k = key(T.keys[a])
            r = fnc(k)
            if r is None:
                r = rebuild(k)
            am[a] = r
        return r

    def poly(p):
        kk = frozenset(p.items())
        r = pm.get(kk)
        if r is not None:
            return r
        # group: terms whose atoms are unchanged stay
        out = {}
        groups = {}
        for m, c in p.items():
            fixed, moved = [], []
            for a, e in m:
                r = atom(a)
                if len(r) == 1:
                    (mm, cc), = r.items()
                    if cc == 1 and len(mm) == 1 and mm[0][1] == 1:
                        fixed.append((mm[0][0], e))
                        continue
                moved.append((a, e))
            fm = ()
            for x in fixed:
                fm = mmul(fm, (x,))
            groups.setdefault(tuple(moved), {})
            g = groups[tuple(moved)]
            v = (g.get(fm, 0) + c) % Q
            if v:
                g[fm] = v
            else:
                g.pop(fm, None)
        for mv, g in groups.items():
            if not g:
                continue
            x = g
            for a, e in mv:
                x = mul(x, power(atom(a), e)) if a not in T.ind else mul(x, atom(a))
            out = add(out, x)
        pm[kk] = out
        return out
    return poly


def rebuild(k):
    if k[0] == 'inv':
        return inverse(T.poly(k[1]))
    if k[0] == 'lt':
        return lt0(T.poly(k[1]))
    if k[0] == 'nz' and k[1][0] == 'P':
        return nz(T.poly(k[1]))
    if k[0] == 'fn' and k[1] == 'pow':
        return powf(T.poly(k[2]), T.poly(k[3]))
    if k[0] == 'int' and len(k) == 4 and isinstance(k[1], str):
        return intop(k[1], T.poly(k[2]), T.poly(k[3]))
    if k[0] == 'fn':
        if k[1] == 'gsl_sf_legendre_Pl':
            l = cval(T.poly(k[2]))
            if l is not None and 0 <= l <= 10:
                return legendre(int(l), T.poly(k[3]))
        return fn(k[1], *[T.poly(x) for x in k[2:]])
    return A(*k)


def atoms(p, deep=True, seen=None):
    """every atom key occurring in p (also inside other atoms)"""
    seen = {} if seen is None else seen

    def inkey(k):
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'P' and isinstance(k[1], int):
                walk(T.pkeys[k[1]])
            else:
                for x in k:
                    inkey(x)

    def walk(q):
        for m in q:
            for a, _ in m:
                if a not in seen:
                    seen[a] = T.keys[a]
                    if deep:
                        inkey(T.keys[a])
    walk(p)
    return list(seen.values())


def show(p, n=6):
    if not p:
        return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda x: repr(x[0]))[:n]:
        out.append('%s%s' % (frac(c), ''.join('*%s%s' % (showkey(T.keys[a]), '' if e == 1 else '^%d' % e) for a, e in m)))
    return ' + '.join(out) + (' + … (%d terms)' % len(p) if len(p) > n else '')


def showkey(k):
    if isinstance(k, tuple) and len(k) == 2 and k[0] == 'P' and isinstance(k[1], int):
        return '(' + show(T.pkeys[k[1]], 3) + ')'
    if isinstance(k, tuple) and k and k[0] == 'cell':
        return showaddr(k[1])
    if isinstance(k, tuple) and k and k[0] == 'spline':
        return showaddr(k[1]) + '[' + ','.join(showkey(x) for x in k[2:]) + ']'
    if isinstance(k, tuple):
        return str(k[0]) + '(' + ','.join(showkey(x) for x in k[1:]) + ')'
    return str(k)


def showaddr(a):
    if a and a[0] == 'struct':
        return a[1].replace('coffe_', '').replace('_t', '') + ''.join(x if isinstance(x, str) else '[' + showkey(x[1]) + ']' for x in a[2:])
    return showkey(a)


def local_stores(v, a):
    """values stored to the fields of the local object at address a: {path: [(instruction, value operand)]}"""
    out = {}
    for i in v.f.insts():
        if i.op == 'store':
            b = v.addr(i.args[1])
            if b[:len(a)] == a:
                out.setdefault(b[len(a):], []).append(i)
    return out


def value(v, x, ty=None):
    """('num', polynomial) or ('ptr', address) of an operand"""
    t = ty
    if isinstance(x, Reg) and x.name in v.f.params:
        t = v.f.ptypes[v.f.params.index(x.name)]
    if isinstance(x, Reg):
        d = v.f.defs.get(x.name)
        if d is not None:
            t = d.ty if d.op not in ('getelementptr', 'alloca') else 'ptr'
    if t == 'ptr' or isinstance(x, (Glob, CExpr)):
        return ('ptr', v.addr(x))
    return ('num', v.num(x))


# ---------------------------------------------------------------- zero test of rational functions
def unroot(p):
    """even powers of square roots are replaced by what they are the roots of"""
    for _ in range(6):
        out, hit = {}, False
        for m, c in p.items():
            extra, keep = ONE, []
            for a, e in m:
                k = T.keys[a]
                if k[0] == 'fn' and k[1] == 'sqrt' and abs(e) > 1:
                    h = int(e / 2)
                    extra = mul(extra, power(T.poly(k[2]), h))
                    e -= 2 * h
                    hit = True
                elif k[0] == 'sqrt' and abs(e) > 1 and isinstance(k[1], int):
                    h = int(e / 2)
                    extra = mul(extra, const(Fraction(k[1]) ** h))
                    e -= 2 * h
                    hit = True
                if e:
                    keep.append((a, e))
            out = add(out, mul({tuple(keep): c}, extra)) if extra is not ONE else add(out, {m: c})
        p = out
        if not hit:
            break
    return p


def clear(p):
    """p times a common denominator: no inverses left at the top level"""
    for _ in range(12):
        p = unroot(p)
        neg_ = {}
        invs = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    neg_[a] = min(neg_.get(a, 0), e)
                elif T.keys[a][0] == 'inv':
                    invs[a] = max(invs.get(a, 0), e)
        if not neg_ and not invs:
            return p
        if neg_:
            p = mul(p, {tuple(sorted((a, -e) for a, e in neg_.items())): 1})
            continue
        a, k = max(invs.items(), key=lambda x: x[0])
        r = T.poly(T.keys[a][1])
        out = {}
        parts = {}
        for m, c in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            parts.setdefault(e, {})[tuple(sorted(d.items()))] = c
        for e, q in parts.items():
            out = add(out, mul(q, power(r, k - e)))
        p = out
    return p


def vanishes(p):
    """p is zero as a rational function of its atoms"""
    if not p:
        return True
    try:
        return not clear(p)
    except TooBig:
        return False


def deriv(p, var, rules):
    """derivative with respect to the atom var; rules(key) -> poly: derivative of other atoms that depend on it, or None when they do not"""
    out = {}
    for m, c in p.items():
        for j, (a, e) in enumerate(m):
            k = T.keys[a]
            if a == var:
                d = ONE
            elif k[0] == 'inv':
                q = deriv(T.poly(k[1]), var, rules)
                d = scale(mul(q, power({((a, 1),): 1}, 2)), -1)
            elif k[0] == 'fn' and k[1] == 'sqrt':
                q = deriv(T.poly(k[2]), var, rules)
                d = scale(mul(q, {((a, -1),): 1}), Fraction(1, 2))
            else:
                d = rules(k)
                if d is None:
                    if any(x == T.keys[var] for x in atoms({((a, 1),): 1})):
                        raise AnalysisBroken('derivative of ' + show({((a, 1),): 1})[:100])
                    continue
            if not d:
                continue
            rest = m[:j] + (((a, e - 1),) if e != 1 else ()) + m[j + 1:]
            out = add(out, mul({rest: c * e % Q}, d))
    return out


def substitute(p, pairs):
    """replace atoms (by key) with polynomials"""
    return rewriter(lambda k: pairs.get(k))(p)


# ---------------------------------------------------------------- loops
def counted(v, phi):
    """(start, step, bound, pred, body) of the loop whose header defines the induction phi: it runs while phi pred bound; None if it is not counted"""
    h = phi.block.name
    body = next((b for n, b in v.loop_items() if n == h), None)
    if body is None or phi.op != 'phi':
        return None
    start = step = None
    for x, n in phi.args:
        if n in body:
            d = sub(v.num(x), A('loopphi', v.f.name, phi.res))
            if cval(d) is None:
                return None
            step = cval(d)
        else:
            s = v.num(x)
            if start is not None and s != start:
                return None
            start = s
    outs = [(b, s) for b in body for s in v.bm[b].succs if s.name not in body]
    if len(outs) != 1 or start is None or step is None:
        return None
    b, s = v.bm[outs[0][0]], outs[0][1]
    t = b.term
    d = v.f.defs.get(t.args[0].name) if t.op == 'br' and t.args and isinstance(t.args[0], Reg) else None
    if d is None or d.op != 'icmp':
        return None
    l, r = v.num(d.args[0]), v.num(d.args[1])
    pred = d.x
    me = A('loopphi', v.f.name, phi.res)
    stay = t.x[0] != s.name
    if not stay:
        pred = {'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq'}.get(pred)
    if T.atom('loopphi', v.f.name, phi.res) not in {a for m in l for a, _ in m}:
        l, r = r, l
        pred = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
    off = sub(l, me)
    if T.atom('loopphi', v.f.name, phi.res) in {a for m in off for a, _ in m}:
        return None
    return start, step, sub(r, off), pred, body


def full_range(v, key, n):
    """the induction variable takes exactly the values 0 .. n-1"""
    if key[0] != 'loopphi':
        return None
    phi = v.f.defs.get(key[2])
    r = counted(v, phi) if phi is not None else None
    if r is None:
        return None
    start, step, bound, pred, body = r
    if step == 1 and cval(start) == 0:
        if pred in ('slt', 'ult', 'ne'):
            return bound == n
        if pred in ('sle', 'ule'):
            return add(bound, ONE) == n
    if step == -1 and sub(start, n) == const(-1):
        if pred in ('sgt', 'ugt'):
            return cval(bound) == -1
        if pred in ('sge', 'uge'):
            return cval(bound) == 0
    if cval(start) is None:
        return None
    return False


def summed(P, f, params=None, bind=None, limit=64):
    """the value returned by f, with the sums accumulated in loops of a known number of rounds carried out"""
    bind = bind or (lambda k: None)
    v = Val(P, f, params=params, bind=bind)
    r = v.returned()
    pairs = {}
    for a in sorted(atoms(r)):
        if a[0] != 'loopphi' or a[1] != f.name:
            continue
        acc = f.defs.get(a[2])
        if acc is None or acc.op != 'phi':
            continue
        h = acc.block.name
        body = next((b for n, b in v.loop_items() if n == h), None)
        if body is None:
            continue
        tot = None
        for cnt in acc.block.insts:
            if cnt.op != 'phi' or cnt is acc:
                continue
            q = counted(v, cnt)
            if q is None or q[1] == 0 or cval(q[0]) is None or cval(q[2]) is None:
                continue
            start, step, bound, pred, _ = q
            k, rounds = int(cval(start)), []
            end = cval(bound)
            hold = {'slt': lambda x: x < end, 'ult': lambda x: x < end, 'sle': lambda x: x <= end, 'ule': lambda x: x <= end, 'ne': lambda x: x != end,
                    'sgt': lambda x: x > end, 'ugt': lambda x: x > end, 'sge': lambda x: x >= end, 'uge': lambda x: x >= end}.get(pred)
            if hold is None:
                continue
            while hold(k) and len(rounds) <= limit:
                rounds.append(k)
                k += int(step)
            if len(rounds) > limit:
                continue
            ck = ('loopphi', f.name, cnt.res)
            tot = ZERO
            for k in rounds:
                w = Val(P, f, params=params, bind=lambda x: const(k) if x == ck else bind(x))
                inner = [w.num(x) for x, n in acc.args if n in body]
                d = sub(inner[0], A(*a)) if len(inner) == 1 else None
                if d is None or any(x[0] == 'loopphi' for x in atoms(d)):
                    tot = None
                    break
                tot = add(tot, d)
            if tot is not None:
                outer = [v.num(x) for x, n in acc.args if n not in body]
                if any(x != outer[0] for x in outer):
                    tot = None
                else:
                    tot = add(tot, outer[0])
            break
        if tot is not None:
            pairs[a] = tot
    return substitute(r, pairs) if pairs else r
