"""Polynomials with rational coefficients over opaque atoms (exponents may be negative): one normal form per value."""
from fractions import Fraction


class P:
    __slots__ = ('t',)

    def __init__(self, t=None): self.t = {k: v for k, v in (t or {}).items() if v}

    @staticmethod
    def const(c):
        return P({(): Fraction(repr(c)) if isinstance(c, float) else Fraction(c)})

    @staticmethod
    def atom(a): return P({((a, 1),): Fraction(1)})

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    def __neg__(self): return P({k: -v for k, v in self.t.items()})
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                m = dict(a)
                for k, e in b:
                    m[k] = m.get(k, 0) + e
                k = tuple(sorted(((k, e) for k, e in m.items() if e), key=lambda q: (repr(q[0]), q[1])))
                r[k] = r.get(k, 0) + x * y
        return P(r)

    def monomial(self): return len(self.t) == 1

    def inverse(self):
        if not self.monomial():
            return None
        (k, v), = self.t.items()
        return P({tuple((a, -e) for a, e in k): 1 / v})

    def __truediv__(self, o):
        i = o.inverse()
        return None if i is None else self * i

    def power(self, n):
        r = P.const(1)
        b = self
        if n < 0:
            b = self.inverse()
            if b is None:
                return None
        for _ in range(abs(n)):
            r = r * b
        return r

    def constant(self):
        if not self.t:
            return Fraction(0)
        return self.t.get(()) if set(self.t) == {()} else None

    def atoms(self): return {a for k in self.t for a, _ in k}

    def subst(self, m):
        """m: atom -> P"""
        r = P()
        for k, v in self.t.items():
            x = P({(): v})
            for a, e in k:
                y = m.get(a, P.atom(a)).power(e)
                if y is None:
                    y = P({((a, e),): Fraction(1)})
                x = x * y
            r = r + x
        return r

    def __eq__(self, o):
        return isinstance(o, P) and self.close(o)

    def close(self, o, tol=Fraction(1, 10 ** 9)):
        d = (self - o).t
        return all(abs(v) <= tol * max(abs(self.t.get(k, 0)), abs(o.t.get(k, 0))) if k in self.t and k in o.t else abs(v) <= tol * tol for k, v in d.items())

    def __hash__(self): return hash(frozenset(self.t.items()))

    def __repr__(self):
        if not self.t:
            return '0'
        return ' + '.join('%s%s' % (float(v), ''.join('*%s%s' % (nm(a), '' if e == 1 else '^%d' % e) for a, e in k)) for k, v in self.t.items())


def nm(a):
    return '.'.join(map(str, a[1])) if isinstance(a, tuple) and a and a[0] == 'init' and isinstance(a[1], tuple) else str(a[1]) if isinstance(a, tuple) and len(a) == 2 else str(a)


def of_term(t):
    """polynomial of a pysym term; what is not arithmetic becomes an atom"""
    k = t[0]
    if k == 'const' and isinstance(t[1], (int, float)):
        return P.const(t[1])
    if k == 'bin':
        a, b = of_term(t[2]), of_term(t[3])
        if t[1] == 'Add': return a + b
        if t[1] == 'Sub': return a - b
        if t[1] == 'Mult': return a * b
        if t[1] == 'Div':
            r = a / b
            return r if r is not None else P.atom(t)
        if t[1] == 'Pow':
            c = b.constant()
            if c is not None and c.denominator == 1 and abs(c) < 20:
                r = a.power(int(c))
                if r is not None:
                    return r
        return P.atom(t)
    if k in ('neg',):
        return -of_term(t[1])
    if k == 'un' and t[1] == 'USub':
        return -of_term(t[2])
    if k == 'un' and t[1] == 'UAdd':
        return of_term(t[2])
    if k == 'call' and t[1] in ('float', 'np.float64') and len(t[2]) == 1:
        return of_term(t[2][0])
    if k == 'call' and t[1] in ('np.sum', 'sum', 'math.fsum', 'np.add.reduce') and len(t[2]) >= 1:
        s = seq(t[2][0])
        if s is not None:
            r = P()
            for x in s:
                r = r + of_term(x)
            return r
    if k == 'cast' and t[1] in ('double', 'float'):
        return of_term(t[2])
    return P.atom(t)


def seq(t):
    if t[0] in ('list', 'tuple'):
        return t[1]
    if t[0] == 'call' and t[1] in ('np.array', 'np.asarray', 'list', 'tuple') and t[2]:
        return seq(t[2][0])
    return None
