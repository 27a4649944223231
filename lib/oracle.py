"""Two-point functions of linear sources, from their definitions.

A source is an operator on the potential moments K_q = (matter density) k^-q: a list of (coefficient, q, p) meaning
coefficient * (n.grad)^p K_q at the point of the source, n the outward line of sight.  The correlation of two of them is a sum of
derivatives of F_m(r) = int P k^-m j0(kr) k^2 dk / 2pi^2 and is written through the tabulated Bessel moments."""
from math import factorial
from val import *

BG, PAR = 'coffe_background_t', 'coffe_parameters_t'


def bg(col, z): return A('spline', ('struct', BG, '.' + col), T.intern(z))
def par_spline(name, z): return A('spline', ('struct', PAR, '.' + name), T.intern(z))
def cell(*path): return A('cell', ('struct', PAR) + tuple('.' + x for x in path))
def table(n, l, r): return A('spline', ('integral',) + tuple(T.intern(const(x)) for x in (n, l, 0, 0)) + ('.result',), T.intern(r))
def renorm(a, b): return A('spline', ('integral',) + tuple(T.intern(const(x)) for x in (4, 0, 0, 0)) + ('.renormalization',), T.intern(a), T.intern(b))
def renorm0(a): return A('spline', ('integral',) + tuple(T.intern(const(x)) for x in (4, 0, 0, 0)) + ('.renormalization_zero_separation',), T.intern(a))


def bessel(p, l, r, memo=None):
    """int P k^-p j_l(kr) k^2 dk/2pi^2 over the basis of l = 0 and l = 1 moments: atoms ('B', p, l, r)"""
    if l <= 1:
        return A('B', p, l, T.intern(r))
    # j_l(x) = (2l-1)/x j_{l-1}(x) - j_{l-2}(x)
    return sub(div(scale(bessel(p + 1, l - 1, r), 2 * l - 1), r), bessel(p, l - 2, r))


def stored(n, l, r):
    """what the table (n, l) of the integrals holds: r^(n-l) int (kr)^-n ... when n >= l, int (kr)^-n ... otherwise"""
    return mul(power(r, -l if n >= l else -n), bessel(n, l, r))


def expand_tables(k):
    """replace the tabulated moments of an expression by the basis moments"""
    if k[0] == 'spline' and k[1][0] == 'integral' and k[1][-1] == '.result' and len(k) == 3:
        q = [cval(T.poly(x)) for x in k[1][1:5]]
        if any(x is None for x in q) or q[2] or q[3]:
            return None
        return stored(int(q[0]), int(q[1]), T.poly(k[2]))
    return None


class Geometry:
    """two points at distances x1, x2 along n1, n2; r = x2 n2 - x1 n1"""

    def __init__(self, r, n1r, n2r, n1n2):
        self.r, self.a, self.b, self.c = r, n1r, n2r, n1n2
        self.memo = {}

    def derivative(self, p1, p2, m):
        """(n1.grad_r)^p1 (n2.grad_r)^p2 F_m"""
        k = (p1, p2, m)
        if k not in self.memo:
            # F(|r + u n1 + v n2|), the variable is s = r^2/2: ds = u a + v b + u^2/2 + v^2/2 + u v c
            ds = {(1, 0): self.a, (0, 1): self.b, (2, 0): scale(ONE, F12), (0, 2): scale(ONE, F12), (1, 1): self.c}
            tot, pw = ZERO, {(0, 0): ONE}
            for l in range(p1 + p2 + 1):
                co = pw.get((p1, p2))
                if co:
                    d = mul(power(self.r, -l), bessel(m - l, l, self.r))      # (-1)^l d^l F_m/ds^l
                    tot = add(tot, scale(mul(co, d), F(factorial(p1) * factorial(p2)) * (-1) ** l * pow(factorial(l), -1, Q)))
                nx = {}
                for (i, j), q in pw.items():
                    for (x, y), w in ds.items():
                        if i + x <= p1 and j + y <= p2:
                            nx[(i + x, j + y)] = add(nx.get((i + x, j + y), ZERO), mul(q, w))
                pw = nx
            self.memo[k] = tot
        return self.memo[k]

    def correlation(self, s1, s2):
        """<s1(x1) s2(x2)>: grad at point 1 is -grad_r, at point 2 +grad_r"""
        tot = ZERO
        for c1, q1, p1 in s1:
            for c2, q2, p2 in s2:
                tot = add(tot, scale(mul(mul(c1, c2), self.derivative(p1, p2, q1 + q2)), (-1) ** p1))
        return tot


F12 = pow(2, -1, Q)


class Sources:
    """the linear sources of population n (1 or 2) at redshift z; potentials: Phi = Psi = -(3/2) Omega_m H0^2 / (a k^2) delta"""

    def __init__(self, n, zbias, z, h0):
        # the bias of the density is taken at zbias, everything else at z
        self.n = n
        self.b = par_spline('galaxy_bias%d' % n, zbias)
        self.f = bg('f', z)
        self.H = bg('conformal_Hz', z)
        self.G = bg('G%d' % n, z)
        self.a = bg('a', z)
        self.s = par_spline('magnification_bias%d' % n, z)
        self.fevo = par_spline('evolution_bias%d' % n, z)
        self.phi = div(scale(mul(add(cell('Omega0_cdm'), cell('Omega0_baryon')), mul(h0, h0)), -3 * F12), self.a)

    def local(self, x):
        if x == 'den':
            return [(self.b, 0, 0)]
        if x == 'rsd':
            return [(neg0(self.f), 2, 2)]
        if x == 'd1':
            return [(neg0(mul(self.G, mul(self.H, self.f))), 2, 1)]
        if x == 'd2':
            return [(mul(sub(const(3), self.fevo), mul(mul(self.H, self.H), self.f)), 2, 0)]
        if x == 'g1':         # Psi + (Doppler factor) Psi
            return [(mul(add(ONE, self.G), self.phi), 2, 0)]
        if x == 'g2':         # (5 s - 2) Phi
            return [(mul(sub(scale(self.s, 5), const(2)), self.phi), 2, 0)]
        if x == 'g3':         # Phi' / conformal H = (f - 1) Phi
            return [(mul(sub(self.f, ONE), self.phi), 2, 0)]
        raise KeyError(x)

    def along(self, x, chi, lam, frac, zlam, h0):
        """integrand in frac = lam/chi of the source integrated along the line of sight up to chi, at distance lam"""
        at = Sources(self.n, zlam, zlam, h0)
        if x == 'len':        # (5 s - 2) int dlam (chi - lam)/(chi lam) Laplacian_angular Phi
            w = mul(mul(sub(scale(self.s, 5), const(2)), at.phi), div(sub(ONE, frac), frac))
            return [(neg0(mul(w, power(lam, 2))), 0, 0), (neg0(mul(w, power(lam, 2))), 2, 2), (scale(mul(w, lam), -2), 2, 1)]
        if x == 'g4':         # (2 - 5 s)/chi int dlam (Phi + Psi)
            return [(scale(mul(sub(const(2), scale(self.s, 5)), at.phi), 2), 2, 0)]
        if x == 'g5':         # (Doppler factor) int dlam (Phi + Psi)'
            return [(scale(mul(mul(self.G, chi), mul(mul(at.H, sub(at.f, ONE)), at.phi)), 2), 2, 0)]
        raise KeyError(x)


def neg0(p): return scale(p, -1)


def split(p, geometric):
    """monomials grouped by their factors that are not geometric"""
    out = {}
    for m, c in p.items():
        k = tuple(x for x in m if not geometric(T.keys[x[0]]))
        out.setdefault(k, {})[tuple(x for x in m if geometric(T.keys[x[0]]))] = c
    return out


def differs(p, geometric):
    """factor and coefficient of the first group of p that is not identically zero; None if p vanishes"""
    for k, q in sorted(split(p, geometric).items(), key=lambda x: len(x[1])):
        if not vanishes(q):
            return {k: 1}, q
    return None


# ---------------------------------------------------------------- the two points of the signal functions
ZM, SEP = A('arg', 3), A('arg', 5)
X1, X2 = A('arg', 'chi1'), A('arg', 'chi2')          # distances of the two points


def half(p): return scale(p, F12)


def geometric(k): return k[0] in ('arg', 'inv', 'fn', 'sqrt', 'pi')


def points(extra=None, x1=X1, x2=X2, sep=SEP, mu=None):
    """bind for Val: the mean redshift, angle and separation expressed by the distances of the two points"""
    from terms import no_derivatives
    chi = half(add(x1, x2))
    mu = div(sub(x2, x1), sep) if mu is None else mu

    def bind(k):
        if k[0] == 'arg':
            if k[1] == 4:
                return mu
            if k[1] == 5:
                return sep
            return extra.get(k[1]) if extra else None
        if k[0] == 'spline' and k[1] == ('struct', BG, '.comoving_distance') and T.poly(k[2]) == ZM:
            return chi
        return no_derivatives(k)
    return bind


def cosine(x1, x2, sep): return div(sub(add(power(x1, 2), power(x2, 2)), power(sep, 2)), scale(mul(x1, x2), 2))


def distance2(u, v, c): return sub(add(power(u, 2), power(v, 2)), scale(mul(mul(u, v), c), 2))


def between(u, v, c, r=None):
    """geometry of a point at distance u along n1 and one at distance v along n2"""
    if r is None:
        r = powf(distance2(u, v, c), half(ONE))
    return Geometry(r, sub(mul(v, c), u), sub(v, mul(u, c)), c)


class Coincident:
    """both points at the same place"""

    def derivative(self, p1, p2, m):
        n = p1 + p2
        if n % 2:
            return ZERO
        # (u + v)^2/2 to the power l = n/2, over l!; d^l F_m/ds^l = (-1)^l M(2l - m)/(2l+1)!!
        l = n // 2
        c = F((-1) ** l * factorial(n)) * pow(factorial(l) * 2 ** l * dfact(2 * l + 1), -1, Q)
        return scale(A('M', 2 * l - m), c)

    correlation = Geometry.correlation


def dfact(n):
    r = 1
    while n > 1:
        r, n = r * n, n - 2
    return r


def tables(pairs=()):
    """rewriting of the tabulated moments into basis moments; renormalisation terms at the two distances of a pair
    (u, v) are dropped from the (4,0) moment at the separation of that pair (pairs: (separation, u, v))"""
    ren = {}
    for r, u, v in pairs:
        for a, b in ((u, v), (v, u)):
            ren[(T.intern(a), T.intern(b))] = r
            if not r:
                ren[(T.intern(a),)] = r

    def fn_(k):
        if k[0] != 'spline' or k[1][0] != 'integral':
            return None
        q = [cval(T.poly(x)) for x in k[1][1:5]]
        if any(x is None for x in q) or q[2] or q[3]:
            return None
        n, l = int(q[0]), int(q[1])
        if k[1][-1] == '.result' and len(k) == 3:
            r = T.poly(k[2])
            if not r:
                return None if (n, l) == (4, 0) else scale(A('M', l - n), pow(dfact(2 * l + 1), -1, Q)) if n >= l else ZERO
            if (n, l) == (4, 0):
                # regularised: only meaningful together with its renormalisation
                return add(A('B', 4, 0, T.intern(r)), A('regular', T.intern(r)))
            return stored(n, l, r)
        if (n, l) == (4, 0) and k[1][-1] == '.renormalization' and tuple(k[2:]) in ren:
            r = ren[tuple(k[2:])]
            return A('regular', T.intern(r)) if r else None
        if (n, l) == (4, 0) and k[1][-1] == '.renormalization_zero_separation' and tuple(k[2:]) in ren:
            return A('M', -4)
        return None
    return rewriter(fn_)


# ---------------------------------------------------------------- tables as series of moments of the spectrum
def moment(e):
    """int P(k) k^e dk"""
    return A('moment', e)


def series(n, l, sn, sl, r, order):
    """what the table (n, l) holds at r, as a series in r up to the moment k^(1 + 2 order); index state 1 means half-integer.
    r^(n-l) (or 1 when n < l) int k^2 P / 2 pi^2 j_l(kr) (kr)^-n, with j_l(x) = sqrt(pi/2x) J_(l+1/2)(x);
    the table (1/2, -1/2) is kept without its factor sqrt(pi/2)/2 pi^2"""
    if sn != sl:
        return None
    q = Fraction(1, 2) if sn else Fraction(1)
    N, L = n * q, l * q
    tot = ZERO
    for m in range(order + 1):
        if sn:
            nu = (l + 1) // 2
            if (l + 1) % 2 or nu < 0:
                return None
            c = Fraction((-1) ** m, factorial(m) * factorial(m + nu) * 2 ** (2 * m + nu))        # J_nu
            x = Fraction(2 * m + nu) - N - Fraction(1, 2)
        else:
            if l < 0:
                return None
            c = Fraction((-1) ** m, 2 ** m * factorial(m) * dfact(2 * m + 2 * l + 1))
            x = Fraction(2 * m + l) - N
        rx = x + (N - L if N >= L else 0)
        if rx.denominator != 1 or rx < 0:
            return None
        if 2 + x > 1 + 2 * order:
            break
        tot = add(tot, scale(mul(power(r, int(rx)), moment(2 + x)), F(c)))
    if sn and (n, l) == (1, -1):
        return tot
    tot = scale(div(tot, power(A('pi'), 2)), F12)
    return mul(tot, fn('sqrt', scale(A('pi'), F12))) if sn else tot


def in_moments(order):
    def f(k):
        if k[0] != 'spline' or k[1][0] != 'integral' or k[1][-1] != '.result' or len(k) != 3:
            return None
        q = [cval(T.poly(x)) for x in k[1][1:5]]
        if any(x is None or x.denominator != 1 for x in q):
            return None
        return series(*[int(x) for x in q], T.poly(k[2]), order)
    return rewriter(f)
