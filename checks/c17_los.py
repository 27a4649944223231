"""C17: every pair with a contribution integrated along the line of sight is the two-point function of its two sources."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken
from val import *
from terms import *
from oracle import *

LOCAL = [x for x in CON if x not in INTEGRATED]
W, W1, W2 = A('arg', 6), A('arg', 6), A('arg', 7)        # fractions of the line of sight: single, and double on 1 and 2


class NoDoppler(Sources):
    def local(self, x):
        return [(div(k, self.G), q, p) for k, q, p in super().local(x)] if x == 'd1' else super().local(x)


class NoScale(Sources):
    def local(self, x):
        return [(mul(k, self.a), q, p) for k, q, p in super().local(x)] if x[0] == 'g' else super().local(x)


class WrongScale(Sources):
    def along(self, x, chi, lam, frac, zlam, h0):
        r = super().along(x, chi, lam, frac, zlam, h0)
        return [(mul(k, power(bg('a', zlam), 2)), q, p) for k, q, p in r] if x == 'g5' else r


class RateForGrowth(Sources):
    def along(self, x, chi, lam, frac, zlam, h0):
        if x != 'g5':
            return super().along(x, chi, lam, frac, zlam, h0)
        at = Sources(self.n, zlam, zlam, h0)
        return [(scale(mul(mul(self.G, chi), mul(mul(at.H, sub(at.H, ONE)), at.phi)), 2), 2, 0)]


DEVIATIONS = [('doppler-factor-left-out', NoDoppler), ('scale-factor-of-the-potential-left-out', NoScale),
              ('scale-factor-of-the-potential-inverted', WrongScale), ('conformal-rate-in-place-of-growth-rate', RateForGrowth)]


class Case:
    """one configuration of the points: what is bound, which of the distances vanish"""

    def __init__(self, x1=X1, x2=X2, sep=SEP, cos=None, mu=None, extra=None):
        self.x1, self.x2, self.cos = x1, x2, cos if cos is not None else cosine(x1, x2, sep)
        self.extra = extra or {}
        self.sep = sep
        self.bind = points(self.extra, x1, x2, sep, mu)
        self.z1, self.z2 = bg('z_as_chi', x1), bg('z_as_chi', x2)
        self.h0 = mul(cell('h'), power(A('c/H'), -1))
        self.dist = []

    def arg(self, n): return self.extra.get(n, A('arg', n))

    def pair(self, u, v):
        d = distance2(u, v, self.cos)
        self.dist.append(d)
        return (between(u, v, self.cos), d) if d else (Coincident(), d)


def assume(dist, mu_small):
    """tests on a distance: it vanishes exactly or it is not small; tests on the angle"""
    memo = {}

    def f(kind, d):
        k = (kind, T.intern(d))
        if k not in memo:
            memo[k] = None
            memo[k] = decide(kind, d)
        return memo[k]

    def decide(kind, d):
        at = atoms(d)
        if any(a[0] == 'cell' for a in at):
            return None
        if any(a[0] == 'fn' and a[1] == 'fabs' for a in at):
            # |angle| - c
            if kind == 'lt' and mu_small is not None:
                c = cval({m: v for m, v in d.items() if m == ()})
                s = lead({m: v for m, v in d.items() if m != ()})
                return (ONE if (s > 0) == mu_small else ZERO)
            return None
        e = dict(d)
        e.pop((), None)
        for r in dist:
            if not r:
                continue
            for s in (1, -1):
                x = sub(e, scale(r, s)) if () not in r else sub(d, scale(r, s))
                if () not in r:
                    hit = vanishes(x)
                else:
                    x = dict(x)
                    x.pop((), None)
                    hit = vanishes(x)
                if hit:
                    return ONE if kind == 'nz' or s < 0 else ZERO
        return None
    return f


def run(c):
    P = ir.Program('inline')
    n = [0]
    # single: points on both lines of sight at the fraction W of the distance
    c.part('single', single, c, P, Case(), '', n, True)
    # close to the line of sight the code may use values on it: compared there
    c.part('single, on the line of sight 1', single, c, P, Case(sep=sub(X2, X1), mu=ONE, cos=ONE), 'on the line of sight', n, False)
    c.part('single, on the line of sight 2', single, c, P, Case(sep=sub(X1, X2), mu=const(-1), cos=ONE), 'on the line of sight', n, False)
    c.part('single, coinciding 1', single, c, P, Case(sep=sub(X2, X1), mu=ONE, cos=ONE, extra={6: div(X1, X2)}), 'where the two points coincide', n, False)
    c.part('single, coinciding 2', single, c, P, Case(sep=sub(X1, X2), mu=const(-1), cos=ONE, extra={6: div(X2, X1)}), 'where the two points coincide', n, False)
    c.part('double', double, c, P, Case(), '', n)
    c.part('double, coinciding', double, c, P, Case(sep=sub(X2, X1), mu=ONE, cos=ONE, extra={6: div(mul(X2, W2), X1)}), 'where the two points coincide', n)
    if 'undecided' not in c.cov:
        c.need(n[0], 'pairs of sources', 90)
    c.cover(pairs=n[0], explanation='polynomial normal form of every pair with an integrated contribution, at general position, near the line of sight and where two points coincide; '
            'compared as a rational function with the two-point function generated from one definition of each source')
    c.assumptions += ['the tables of the integrals hold the Bessel moments of the power spectrum', 'the (4,0) moment is regularised by the renormalisation term at the same two distances']


def forms(P, name, cs, dist, mu_small):
    T.assume = assume(dist, mu_small)
    try:
        def bind(k):
            if k[0] == 'cell' and setting(k) == 'divergent':
                return ONE
            return cs.bind(k)
        S = Signal(P, bind)
        return S.groups(S.form(name))
    finally:
        T.assume = None


def code(groups, a, b):
    key = tuple(sorted({a, b}, key=CON.index))
    if not any(k[0] == key for k in groups):
        return None
    return groups.get((key, ()), ZERO)


def decide(c, fn, key, title, got, want, known, n):
    n[0] += 1
    c.obligation(key)
    d = differs(sub(got, want), geometric)
    if d is None:
        return
    for name, f in known:
        e = f()
        if e is not None and differs(sub(got, e), geometric) is None:
            c.find('%s:%s' % (key, name), '%s: %s' % (title, name.replace('-', ' ')), 'src/functions.c ' + fn)
            return
    if opaque(d[0]) or opaque(d[1]):
        c.cov.setdefault('undecided', []).append(key)
        return
    c.find(key, '%s is not the correlation of its two sources (the difference contains %s)' % (title, show(mul(*d), 1)[:240]), 'src/functions.c ' + fn)


def single(c, P, cs, where, n, mu_small):
    fn = FAMILY[1]
    w = cs.arg(6)
    l1, l2 = mul(cs.x1, w), mul(cs.x2, w)
    G1, d1 = cs.pair(cs.x1, l2)
    G2, d2 = cs.pair(l1, cs.x2)
    zl1, zl2 = bg('z_as_chi', l1), bg('z_as_chi', l2)
    D1, D2 = mul(bg('D1', cs.z1), bg('D1', zl2)), mul(bg('D1', zl1), bg('D1', cs.z2))
    g = forms(P, fn, cs, [d1, d2], mu_small)
    tb = tables([(powf(d1, half(ONE)) if d1 else ZERO, cs.x1, l2), (powf(d2, half(ONE)) if d2 else ZERO, l1, cs.x2)])

    def want(a, b, cls):
        s1, s2 = cls(1, cs.z1, cs.z1, cs.h0), cls(2, cs.z2, cs.z2, cs.h0)
        return add(mul(D1, G1.correlation(s1.local(a), s2.along(b, cs.x2, l2, w, zl2, cs.h0))),
                   mul(D2, G2.correlation(s1.along(b, cs.x1, l1, w, zl1, cs.h0), s2.local(a))))

    for a in LOCAL:
        for b in INTEGRATED:
            got = code(g, a, b)
            if got is None:
                continue            # a missing pair is reported by C12
            key = '%s-%s%s' % (a, b, ':' + where.replace(' ', '-') if where else '')
            title = 'the %s-%s term%s' % (NAMES[a], NAMES[b], ' ' + where if where else '')
            known = [(nm, lambda cls=cls: want(a, b, cls)) for nm, cls in DEVIATIONS]
            got = tb(got)
            decide(c, fn, key, title, got, want(a, b, Sources), known, n)


def double(c, P, cs, where, n):
    fn = FAMILY[2]
    w1, w2 = cs.arg(6), cs.arg(7)
    l1, l2 = mul(cs.x1, w1), mul(cs.x2, w2)
    G, d = cs.pair(l1, l2)
    z1, z2 = bg('z_as_chi', l1), bg('z_as_chi', l2)
    D = mul(bg('D1', z1), bg('D1', z2))
    g = forms(P, fn, cs, [d], None)
    tb = tables([(powf(d, half(ONE)) if d else ZERO, l1, l2)])

    def want(a, b, cls):
        s1, s2 = cls(1, cs.z1, cs.z1, cs.h0), cls(2, cs.z2, cs.z2, cs.h0)
        f1 = lambda x: s1.along(x, cs.x1, l1, w1, z1, cs.h0)
        f2 = lambda x: s2.along(x, cs.x2, l2, w2, z2, cs.h0)
        o = G.correlation(f1(a), f2(b))
        if a != b:
            o = add(o, G.correlation(f1(b), f2(a)))
        return mul(D, o)

    for a, b in itertools.combinations_with_replacement(INTEGRATED, 2):
        got = code(g, a, b)
        if got is None:
            continue
        key = '%s-%s%s' % (a, b, ':' + where.replace(' ', '-') if where else '')
        title = 'the %s-%s term%s' % (NAMES[a], NAMES[b], ' ' + where if where else '')
        known = [(nm, lambda cls=cls: want(a, b, cls)) for nm, cls in DEVIATIONS]
        decide(c, fn, key, title, tb(got), want(a, b, Sources), known, n)


if __name__ == '__main__':
    common.main('C17', run)
