"""C18: the flat-sky lensing terms are the Limber limits, and their multipoles the projections of the correlation function."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken
from val import *
from terms import *
from oracle import *
import c14_projection as c14

ORDER = 14           # powers of (k r)^2 compared
MU = A('arg', 4)
H0 = mul(cell('h'), power(A('c/H'), -1))
OM = add(cell('Omega0_cdm'), cell('Omega0_baryon'))
CHI = bg('comoving_distance', ZM)
FN1, FN2 = FAMILY[1], FAMILY[2]


def source(n):
    s = par_spline('magnification_bias%d' % n, ZM)
    return sub(scale(s, 5), const(2)), par_spline('galaxy_bias%d' % n, ZM)


def transverse(): return fn('sqrt', sub(ONE, power(MU, 2)))


def table_half(r): return A('spline', ('integral',) + tuple(T.intern(const(x)) for x in (1, -1, 1, 1)) + ('.result',), T.intern(r))


def den_len_factor():
    """averaged over the two orders of the points: (5s-2) b (3/2) Omega_m H0^2 (1+z) D1^2 / (2 pi), times the distance along the line of sight"""
    (l1, b1), (l2, b2) = source(1), source(2)
    sym = scale(add(mul(l1, b2), mul(l2, b1)), F12)
    f = mul(mul(sym, mul(OM, power(H0, 2))), mul(add(ONE, ZM), power(bg('D1', ZM), 2)))
    return scale(div(f, A('pi')), F(Fraction(3, 4)))


def len_len_factor(x):
    """integrand over x = lambda/chi: two kernels (chi - lambda) lambda/chi (3/2) Omega_m H0^2 (1+z), over 2 pi"""
    (l1, _), (l2, _) = source(1), source(2)
    lam = mul(CHI, x)
    z = bg('z_as_chi', lam)
    w = scale(mul(mul(OM, power(H0, 2)), mul(mul(lam, sub(ONE, x)), add(ONE, z))), F(Fraction(3, 2)))
    return div(scale(mul(mul(mul(l1, l2), power(w, 2)), mul(power(bg('D1', z), 2), CHI)), F12), A('pi'))


def run(c):
    P = ir.Program('inline')
    n = [0]
    for o in ('CORRFUNC', 'AVERAGE_MULTIPOLES'):
        c.part('density-lensing %s' % o, correlation, c, P, FN1, o, 'den', 'flatsky_local_nonlocal', n)
        c.part('lensing-lensing %s' % o, correlation, c, P, FN2, o, 'len', 'flatsky_nonlocal', n)
    for l in range(0, 9):
        c.part('density-lensing l=%d' % l, multipole, c, P, 'den', l, n)
        c.part('lensing-lensing l=%d' % l, multipole, c, P, 'len', l, n)
    if 'undecided' not in c.cov:
        c.need(n[0], 'flat-sky terms', 22)
    c.cover(terms=n[0], orders=list(range(9)), series='(kr)^2 to the power %d' % ORDER,
            explanation='closed forms of the flat-sky lensing correlation functions, and each multipole l = 0..8 with its sums carried out, in normal form; '
            'tables replaced by the series of the moments of the power spectrum they hold, compared coefficient by coefficient with the Legendre projection of the Limber kernel')
    c.assumptions.append('the tables hold the moments of the power spectrum (decided by C19)')


def correlation(c, P, fnm, out, kind, flag, n):
    def bind(k):
        if k[0] == 'cell' and setting(k) == 'output_type':
            return const(P.enums[out])
        if k[0] == 'cell' and setting(k) in ('flatsky_local', 'flatsky_local_nonlocal', 'flatsky_nonlocal'):
            return const(int(setting(k) == flag))
        return no_derivatives(k)
    S = Signal(P, bind)
    key = tuple(sorted({kind, 'len'}, key=CON.index))
    got = ZERO
    for (k, fl), q in S.groups(S.form(fnm)).items():
        if k == key and not fl:
            got = add(got, q)
    r = mul(SEP, transverse())
    if kind == 'den':
        want = mul(den_len_factor(), mul(fn('fabs', MU), mul(SEP, table_half(r))))
    else:
        x = A('arg', 6)
        want = mul(len_len_factor(x), table_half(mul(r, x)))
    title = 'the flat-sky %s-lensing term (%s)' % (NAMES[kind], c14.TEXT[out])
    judge(c, '%s-len:%s' % (kind, out), title, sub(got, want), 'src/functions.c ' + fnm, 'is not the Limber limit of the correlation of its two sources', n)


def judge(c, key, title, d, loc, what, n):
    n[0] += 1
    c.obligation(key)
    if vanishes(unroot(d)):
        return
    if opaque(d):
        raise AnalysisBroken('%s: %s' % (title, [k[:3] for k in opaque(d)][:2]))
    c.find(key, '%s %s (the difference contains %s)' % (title, what, show(d, 1)[:260]), loc)


def multipole(c, P, kind, l, n):
    drv = P.funcs.get('coffe_integrate')
    if drv is None or len(drv.params) != len(c14.ARGS) + 2:
        raise AnalysisBroken('coffe_integrate has another interface')
    out = 'MULTIPOLES'
    params = {9: const(P.enums['SINGLE_INTEGRATED' if kind == 'den' else 'DOUBLE_INTEGRATED']), 10: const(P.enums[out]), 8: const(l)}

    def bind(k):
        if k[0] == 'cell':
            nm = setting(k) or ''
            if nm == 'output_type':
                return const(P.enums[out])
            if nm.startswith('correlation_contrib.'):
                return const(int(nm.split('.')[1] in (kind, 'len')))
            if nm in ('flatsky_local_nonlocal', 'flatsky_nonlocal'):
                return ONE
            if nm in ('flatsky_local', 'only_cross_correlations'):
                return ZERO
        if k[0] == 'arg':
            return A('given', c14.ARGS[k[1]]) if k[1] < len(c14.ARGS) else None
        return None
    v = Val(P, drv, params=params, bind=bind)
    r = v.returned()
    st = c14.blocks(v)
    tot = {}
    for m, cf in r.items():
        calls = [(a, e) for a, e in m if T.keys[a][0] == 'call']
        if len(calls) != 1 or calls[0][1] != 1:
            raise AnalysisBroken('not linear in one term')
        ind = tuple(x for x in m if x[0] in T.ind)
        rest = tuple(x for x in m if x[0] != calls[0][0] and x[0] not in T.ind)
        tot.setdefault(calls[0][0], []).append((ind, {rest: cf}))
    # the ways of integrating (settings) are alternatives: every assignment of the switches gives one value
    sw = sorted({x[0] for ws in tot.values() for i, _ in ws for x in i})
    if len(sw) > 6:
        raise AnalysisBroken('%d switches' % len(sw))
    vals = {a: given(value_of(P, drv, T.keys[a], st, l)) for a in tot}
    for bits in range(1 << len(sw)):
        on = {x for q, x in enumerate(sw) if bits >> q & 1}
        got = ZERO
        for a, ws in tot.items():
            for ind, w in ws:
                if all(x in on for x, _ in ind):
                    got = add(got, mul(w, vals[a]))
        got = in_moments(ORDER)(got)
        want = in_moments(ORDER)(projected(kind, l))
        fnm = FLAT[kind == 'len']
        judge(c, '%s-len:l=%d' % (kind, l), 'the flat-sky %s-lensing multipole l=%d' % (NAMES[kind], l), sub(got, want), 'src/functions.c ' + fnm,
              'is not the projection of the flat-sky correlation function', n)
        if c.finds:
            break


def given(p):
    """arguments of coffe_integrate by the names the oracle uses"""
    nm = {'z_mean': ZM, 'sep': SEP}
    return rewriter(lambda k: nm.get(k[1]) if k[0] == 'given' else None)(p)


def value_of(P, drv, key, st, l):
    """value of a term: a direct call of the closed form, or its integral over x in [0, 1] as its integrand (variable 0)"""
    name = key[1]
    if name in FLAT:
        return closed(P, key, l)
    if name in c14.ONED:
        f = P.resolve(drv, key[2][1]) if key[2][0] == 'glob' else None
        if f is None or key[3] not in st:
            raise AnalysisBroken('integrand of ' + name)
        if T.poly(key[4]) != ZERO or T.poly(key[5]) != ONE:
            raise AnalysisBroken('limits of ' + name)
        res = c14.integrand_of(P, f, st[key[3]], 1, [('arg', 0)], l)

        def sub_(k):
            return closed(P, k, l) if k[0] == 'call' and k[1] in FLAT else None
        return rewriter(sub_)(res)
    raise AnalysisBroken('the flat-sky term is computed by ' + name)


def closed(P, key, l):
    f = P.funcs.get(key[1])
    q = [T.poly(x) for x in key[5:]]
    for a, s in zip(key[2:5], (PAR, BG, 'coffe_integral_array_t')):
        a = c14.ptr(a)
        if a[0] == 'struct' and a[1] != s:
            raise AnalysisBroken('arguments of ' + key[1])
    if f is None or len(q) != len(f.params) - 3:
        raise AnalysisBroken('interface of ' + key[1])
    params = {3 + k: x for k, x in enumerate(q)}
    if cval(params.get(5, ZERO)) is None:
        raise AnalysisBroken('order of ' + key[1])
    return summed(P, f, params=params)


def projected(kind, l):
    """(2l+1)/2 int dmu P_l(mu) of the correlation function, whose kernel is |mu|^p J0(k r sqrt(1-mu^2)) as a series"""
    if l % 2:
        return ZERO
    p = 1 if kind == 'den' else 0
    pl = legendre(l, A('mu'))
    co = {}
    for m, cf in pl.items():
        co[m[0][1] if m else 0] = frac(cf)
    r = SEP if kind == 'den' else mul(SEP, A('var', 0))
    tot = ZERO
    for m in range(ORDER + 1):
        # int_0^1 mu^(e+p) (1-mu^2)^m dmu, binomially
        w = sum(c * sum(Fraction((-1) ** j * comb(m, j), e + p + 2 * j + 1) for j in range(m + 1)) for e, c in co.items())
        w *= (2 * l + 1) * Fraction((-1) ** m, factorial(m) ** 2 * 4 ** m)
        if w:
            tot = add(tot, scale(mul(power(r, 2 * m), moment(Fraction(1 + 2 * m))), F(w)))
    if kind == 'den':
        return mul(den_len_factor(), mul(SEP, tot))
    return mul(len_len_factor(A('var', 0)), tot)


def comb(n, k): return factorial(n) // factorial(k) // factorial(n - k)


if __name__ == '__main__':
    common.main('C18', run)
