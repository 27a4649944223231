"""C16: every pair of local contributions contributes the two-point function of its own two sources."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken
from val import *
from terms import *
from oracle import *

LOCAL = [x for x in CON if x not in INTEGRATED]
FN = FAMILY[0]


class NoDoppler(Sources):
    def local(self, x):
        return [(mul(self.H, self.f), 2, 1)] if x == 'd1' and False else [(neg0(mul(self.H, self.f)), 2, 1)] if x == 'd1' else super().local(x)


def run(c):
    P = ir.Program('inline')
    S = Signal(P, points())
    groups = S.groups(S.form(FN))
    n = [0]
    for a, b in itertools.combinations_with_replacement(LOCAL, 2):
        c.part('%s-%s' % (a, b), full, c, groups, a, b, n)
        c.part('flat %s-%s' % (a, b), flat, c, groups, a, b, n)
    if 'undecided' not in c.cov:
        c.need(n[0], 'pairs of sources', 50)
    c.cover(pairs=n[0], explanation='polynomial normal form of every pair of local contributions; the tabulated Bessel moments are reduced to a basis by their recurrence; '
            'compared as a rational function with the two-point function generated from one definition of each source')
    c.assumptions += ['the tables of the integrals hold the Bessel moments of the power spectrum', 'the (4,0) moment is regularised by the renormalisation term at the same two distances']


def code(groups, a, b, *flags):
    key = tuple(sorted({a, b}, key=CON.index))
    if not any(k[0] == key for k in groups):
        raise AnalysisBroken('no terms of the pair %s-%s' % (a, b))
    p = ZERO
    for (k, fl), q in groups.items():
        if k == key and set(fl) <= set(flags):
            p = add(p, q)
    return p


def pair(G, a, b, s1, s2):
    o = G.correlation(s1.local(a), s2.local(b))
    return o if a == b else add(o, G.correlation(s1.local(b), s2.local(a)))


def setup():
    z1, z2 = bg('z_as_chi', X1), bg('z_as_chi', X2)
    h0 = mul(cell('h'), power(A('c/H'), -1))
    return z1, z2, h0, mul(bg('D1', z1), bg('D1', z2)), between(X1, X2, cosine(X1, X2, SEP), SEP)


def report(c, key, title, d, what, known=()):
    for name, e in known:
        if differs(e, geometric) is None:
            c.find('%s:%s' % (key, name), '%s: %s' % (title, name.replace('-', ' ')), 'src/functions.c ' + FN)
            return
    if opaque(d[0]) or opaque(d[1]):
        c.cov.setdefault('undecided', []).append(key)
        return
    c.find(key, '%s %s (the difference contains %s)' % (title, what, show(mul(*d), 1)[:260]), 'src/functions.c ' + FN)


def full(c, groups, a, b, n):
    z1, z2, h0, D, G = setup()
    got = tables([(SEP, X1, X2)])(code(groups, a, b))
    s = lambda cls: (cls(1, z1, z1, h0), cls(2, z2, z2, h0))
    n[0] += 1
    c.obligation('%s-%s' % (a, b))
    d = differs(sub(got, mul(D, pair(G, a, b, *s(Sources)))), geometric)
    if d:
        known = []
        if 'd1' in (a, b):
            known.append(('doppler-factor-left-out', sub(got, mul(D, pair(G, a, b, *s(NoDoppler))))))
            known.append(('sign-of-the-quadrupole', sub(got, mul(D, flipped(G, *s(Sources))))) if a == b else known[0])
        report(c, '%s-%s' % (a, b), 'the %s-%s term' % (NAMES[a], NAMES[b]), d, 'is not the correlation of its two sources', known)


def flipped(G, s1, s2):
    """doppler-doppler with the traceless part of the velocity correlation of the opposite sign"""
    (c1, _, _), = s1.local('d1')
    (c2, _, _), = s2.local('d1')
    mono = scale(mul(G.c, bessel(2, 0, G.r)), pow(3, -1, Q))
    return mul(mul(c1, c2), sub(scale(mono, 2), neg0(G.derivative(1, 1, 4))))


def flat(c, groups, a, b, n):
    """in the limit in which all redshifts of the term coincide, the flat-sky term has the flat-sky or the full-sky angles"""
    z1, z2, h0, D, G = setup()
    same = rewriter(lambda k: ZM if k[0] == 'spline' and k[1] == ('struct', BG, '.z_as_chi') else None)
    got = tables([(SEP, X1, X2)])(code(groups, a, b, 'flatsky_local'))
    got = same(got)
    proj = sub(X2, X1)
    F_ = Geometry(SEP, proj, proj, ONE)
    D = power(bg('D1', ZM), 2)
    s = lambda cls: (cls(1, ZM, ZM, h0), cls(2, ZM, ZM, h0))
    n[0] += 1
    c.obligation('flat-sky %s-%s' % (a, b))
    best = None
    known = []
    for g in (F_, G):
        d = differs(sub(got, mul(D, pair(g, a, b, *s(Sources)))), geometric)
        if d is None:
            return
        best = best or d
        if 'd1' in (a, b):
            known.append(('doppler-factor-left-out', sub(got, mul(D, pair(g, a, b, *s(NoDoppler))))))
            if a == b:
                known.append(('sign-of-the-quadrupole', sub(got, mul(D, flipped(g, *s(Sources))))))
    report(c, 'flatsky:%s-%s' % (a, b), 'the flat-sky %s-%s term' % (NAMES[a], NAMES[b]), best, 'is not the distant-observer limit of the correlation of its two sources', known)


if __name__ == '__main__':
    common.main('C16', run)
