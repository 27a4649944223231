"""C20: every element of the covariance matrix of the multipoles is the Gaussian covariance of the pair of multipoles its coordinates name."""
import itertools, math, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken, Glob, Reg, Const
from val import *
from terms import *
from heap import Memory, Facts, flat, index, phis
from c19_tables import rpo, ONED, bessel, integral_of

INIT = 'coffe_covariance_init'
SET = lambda nm: A('cell', ('struct', PAR, '.' + nm))
ARRAY = lambda nm, k: A('cell', ('*', ('struct', PAR, '.' + nm), ('[]', T.intern(k))))
PS, PSN = ('struct', PAR, '.power_spectrum'), ('struct', PAR, '.power_spectrum_norm')
K = A('var', 'k')
SIZES = ('multipole_values_len', 'sep_len', 'z_mean_len')


class Code:
    """the covariance read with given settings; settings not given stay symbols"""

    def __init__(self, P, setting):
        self.P, self.setting = P, setting
        self.f = P.funcs[INIT]
        self.order = rpo(self.f)
        self.v = Val(P, self.f, bind=self.bind)
        self.mem = Memory(P, self.f, self.v, self.order, calls={'two_sph_bessel': self.fft}, opaque={('local', n) for n in ()})
        self.splines()
        self.memo = {}

    def bind(self, k):
        if k[0] == 'cell' and k[1][:2] == ('struct', PAR) and len(k[1]) == 3:
            nm = k[1][2][1:]
            if nm in self.setting:
                return self.setting[nm]
        return None

    def insts(self, *ops):
        for b in self.order:
            if not self.v.pathcond(b):
                continue
            for i in b.insts:
                if i.op in ops:
                    yield i

    # ---------------------------------------------------------------- splines made here
    def splines(self):
        """a spline holds what the arrays given to it held"""
        self.sp = {}
        for i in self.insts('call'):
            if isinstance(i.x, Glob) and i.x.name in ('coffe_init_spline', 'coffe_init_spline2d'):
                a = self.v.addr(i.args[0])
                self.sp.setdefault(a, []).append(i)

    def spline_at(self, a, at):
        c = [i for i in self.sp.get(a, []) if self.mem.pos[id(i)] < at]
        if not c:
            return None
        return max(c, key=lambda i: self.mem.pos[id(i)])

    def outer(self, b):
        """the induction variables of the loops around a block"""
        out = []
        for h, body in self.mem.loops_of(b):
            for x in self.v.bm[h].insts:
                if x.op == 'phi' and self.mem.range(('loopphi', self.f.name, x.res)):
                    k = ('loopphi', self.f.name, x.res)
                    out.append((k[2], T.intern(A(*k))))
        return tuple(sorted(out))

    # ---------------------------------------------------------------- the 2D transform
    def fft(self, mem, i):
        v, ad = self.v, [self.v.addr(a) if t == 'ptr' else None for a, t in zip(i.args, i.argtys or [])]
        at = mem.pos[id(i)]
        x, y, f, cfg, r1, r2, res = ad[0], ad[1], ad[2], ad[5], ad[6], ad[7], ad[8]
        n1, n2 = v.num(i.args[3]), v.num(i.args[4])
        flds = {p: [value(v, s.args[0]) for s in sorted(ss, key=lambda s: mem.pos[id(s)]) if mem.pos[id(s)] < at][-1:] for p, ss in local_stores(v, cfg).items()}
        l = [flds.get(('.l1',)) or flds.get(()), flds.get(('.l2',))]
        if any(not q for q in l):
            raise AnalysisBroken('orders of the transform')
        l = [mem.norm(q[0][1]) for q in l]

        def grid(w):
            return (flat(r1 if w == 0 else r2)[0], 1, lambda ix, facts: A('fftgrid', at, w, T.intern(ix[0])))

        def vals(ix, facts):
            return self.transform(x, y, f, n1, n2, l, at, facts, ix)
        return [grid(0), grid(1), (flat(res)[0], 2, vals)]

    def transform(self, x, y, f, n1, n2, l, at, facts, ix):
        u, w = A('index', 'u'), A('index', 'w')
        if n1 != n2 or len(n1) != 1:
            raise AnalysisBroken('sizes of the transform')
        nk = T.keys[next(iter(n1))[0][0]]
        fu = Facts(facts.maps + [{nk: add(add(A('index', 'u'), ONE), A('gap', 'u'))}, {nk: add(add(A('index', 'w'), ONE), A('gap', 'w'))}])
        xs = self.mem.read(x + (('[]', T.intern(u)),), at, fu)
        ys = self.mem.read(y + (('[]', T.intern(u)),), at, fu)
        lev = lambda a, b: ('*', f + (('[]', T.intern(a)),), ('[]', T.intern(b)))
        diag = self.mem.read(lev(u, u), at, fu)
        # off the diagonal
        off = []
        for a, b in (('u', 'w'), ('w', 'u')):
            mp = {('index', b): add(add(A('index', a), ONE), A('gap', 'e')), nk: add(add(A('index', a), const(2)), add(A('gap', 'e'), A('gap', 'g')))}
            off.append(self.mem.read(lev(u, w), at, Facts(fu.maps + [mp])))
        return A('fft2', at, T.intern(xs), T.intern(ys), T.intern(n1), T.intern(diag), tuple(T.intern(o) for o in off), T.intern(l[0]), T.intern(l[1]), T.intern(ix[0]), T.intern(ix[1]))

    # ---------------------------------------------------------------- sums over the coefficients
    def unrolled(self, p, extra=None, depth=0):
        """sums accumulated in loops of a known number of rounds, carried out"""
        if depth > 4:
            raise AnalysisBroken('nested sums')
        f, extra = self.f, dict(extra or {})
        v = self.value_of(extra)
        pairs = {}
        for k in sorted(phis(p) | {a for a in atoms(p) if a[0] == 'loopphi'}, key=repr):
            if k in extra or k[1] != f.name:
                continue
            acc = f.defs.get(k[2])
            if acc is None or acc.op != 'phi' or acc.ty not in ('double', 'i32', 'i64'):
                continue
            if counted(self.v, acc) is not None:
                continue
            h = acc.block.name
            body = next((b for n, b in v.loop_items() if n == h), None)
            if body is None:
                continue
            for cnt in acc.block.insts:
                q = counted(v, cnt) if cnt.op == 'phi' and cnt is not acc else None
                if q is None or not q[1] or cval(q[0]) is None or cval(q[2]) is None:
                    continue
                start, step, bound, pred, _ = q
                end, n, rounds = cval(bound), int(cval(start)), []
                hold = {'slt': lambda x: x < end, 'ult': lambda x: x < end, 'sle': lambda x: x <= end, 'ule': lambda x: x <= end, 'ne': lambda x: x != end,
                        'sgt': lambda x: x > end, 'ugt': lambda x: x > end, 'sge': lambda x: x >= end, 'uge': lambda x: x >= end}.get(pred)
                while hold and hold(n) and len(rounds) <= 32:
                    rounds.append(n)
                    n += int(step)
                if not hold or len(rounds) > 32:
                    raise AnalysisBroken('sum with more than 32 terms')
                ck = ('loopphi', f.name, cnt.res)
                tot = ZERO
                for n in rounds:
                    e2 = dict(extra)
                    e2[ck] = const(n)
                    w = self.value_of(e2)
                    ins = [w.num(x) for x, b in acc.args if b in body]
                    if len(ins) != 1:
                        raise AnalysisBroken('sum with several ends')
                    d = sub(self.unrolled(ins[0], {**e2, k: A(*k)}, depth + 1), A(*k))
                    if k in phis(d):
                        raise AnalysisBroken('not a sum')
                    tot = add(tot, d)
                outs = [v.num(x) for x, b in acc.args if b not in body]
                if any(o != outs[0] for o in outs):
                    raise AnalysisBroken('sum with several starts')
                pairs[k] = add(self.unrolled(outs[0], extra, depth + 1), tot)
                break
        return substitute(p, pairs) if pairs else p

    def value_of(self, extra):
        key = tuple(sorted((k, T.intern(p)) for k, p in extra.items()))
        if not extra:
            return self.v
        if key not in self.memo:
            def bind(k):
                if k in extra:
                    return extra[k]
                return self.bind(k)
            self.memo[key] = Val(self.P, self.f, bind=bind)
        return self.memo[key]

    # ---------------------------------------------------------------- quadratures
    def quads(self, p, at):
        """calls of quadratures as atoms that carry what the integrand is given"""
        def one(k):
            if k[0] == 'spline' and k[1][0] == 'local':
                made = self.spline_at(k[1], at)
                if made is not None:
                    return A('made', self.mem.pos[id(made)], self.outer(made.block), *k[2:])
            if k[0] != 'call' or k[1] not in ONED:
                return None
            if k[2][0] != 'glob':
                raise AnalysisBroken('integrand of ' + k[1])
            call = next((i for i in self.insts('call') if isinstance(i.x, Glob) and i.x.name == k[1] and self.v.call(i) == A(*k)), None)
            flds = {}
            cut = self.mem.pos[id(call)] if call is not None else at
            for path, ss in local_stores(self.v, k[3]).items():
                ss = [s for s in ss if self.mem.pos[id(s)] < cut and self.v.pathcond(s.block)]
                if not ss:
                    continue
                xs = value(self.v, max(ss, key=lambda s: self.mem.pos[id(s)]).args[0])
                made = self.spline_at(xs[1], cut) if xs[0] == 'ptr' else None
                flds[path] = ('ptr', xs[1], self.mem.pos[id(made)] + 1 if made is not None else 0) if xs[0] == 'ptr' else ('num', T.intern(self.mem.norm(xs[1])))
            return A('quad', k[2][1], tuple(sorted(flds.items())), k[4], k[5])
        return rewriter(one)(p)


def facts_for(code, ids):
    """the induction variables of the element asked for stay below their bounds"""
    maps = []
    for k in ids:
        r = code.mem.range(k)
        if r is None:
            raise AnalysisBroken('loop over %s' % showkey(k))
        lo, hi = r
        if len(hi) == 1 and len(next(iter(hi))) == 1 and not lo:
            maps.append({T.keys[next(iter(hi))[0][0]]: add(A(*k), add(ONE, A('gap', k[2])))})
    return maps


def ordered(x, y, n):
    """x <= y < n; y < x < n"""
    xa, ya = A(*x), A(*y)
    n = T.keys[next(iter(n))[0][0]]
    return ('first <= second', {y: add(xa, A('gap', 'o')), n: add(add(xa, A('gap', 'o')), add(ONE, A('gap', 'p')))}), \
           ('first > second', {x: add(ya, add(ONE, A('gap', 'o'))), n: add(add(ya, A('gap', 'o')), add(const(2), A('gap', 'p')))})


def lens():
    n = SET('z_mean_len')
    return {k + '_len': n for k in ('density1', 'density2', 'z_mean', 'deltaz', 'fsky', 'pixelsize', 'zmin', 'zmax')}


# ---------------------------------------------------------------- what the covariance is
def legendre_4(a, b, c_, d):
    """integral over [-1, 1] of the product of four Legendre polynomials"""
    p = ONE
    x = A('var', 'mu')
    for n in (a, b, c_, d):
        p = mul(p, legendre(n, x))
    out = ZERO
    for m, q in p.items():
        e = m[0][1] if m else 0
        if e % 2 == 0:
            out = add(out, const(frac(q) * Fraction(2, e + 1)))
    return out


def F_unit(l, x):
    """integral from 0 of x^2 j_l, up to a constant, by the recurrences of the spherical Bessel functions"""
    s, co, Si = fn('sin', x), fn('cos', x), A('fn', 'gsl_sf_Si', T.intern(x))
    ix = inverse(x)
    j = [mul(s, ix), sub(mul(s, power(ix, 2)), mul(co, ix))]
    for n in range(1, l + 1):
        j.append(sub(mul(scale(mul(j[n], ix), 2 * n + 1), ONE), j[n - 1]))
    one, two = [Si], [sub(s, mul(x, co))]                   # integrals of j_l; of x^2 j_l
    xj = [scale(co, -1)]                                    # of x j_l
    one.append(scale(j[0], -1))
    for n in range(1, l + 1):
        one.append(add(scale(j[n], Fraction(-(2 * n + 1), n + 1)), scale(one[n - 1], Fraction(n, n + 1))))
    for n in range(0, l + 1):
        xj.append(add(scale(mul(x, j[n]), -1), scale(one[n], n + 1)))
        two.append(add(scale(mul(mul(x, x), j[n]), -1), scale(xj[n], n + 2)))
    return two[l]


class Oracle:
    def __init__(self, kind, method, window, pops, co):
        """co: coordinates of the element"""
        self.kind, self.method, self.window, self.pops, self.co = kind, method, window, pops, co
        self.zi = co['zi']
        at = lambda nm: ARRAY(nm, self.zi)
        self.n1, self.n2, self.fsky, self.pix = at('density1'), at('density2'), at('fsky'), at('pixelsize')
        self.z = co['z']
        z = self.z
        den, rsd = (A('nz', T.intern(A('cell', ('struct', PAR, '.correlation_contrib', '.' + x)))) for x in ('den', 'rsd'))
        self.b = {n: mul(den, A('spline', ('struct', PAR, '.galaxy_bias%d' % n), T.intern(z))) for n in (1, 2, 3, 4)}
        self.f = mul(rsd, A('spline', ('struct', 'coffe_background_t', '.f'), T.intern(z)))
        self.D = A('spline', ('struct', 'coffe_background_t', '.D1'), T.intern(z))
        if kind == 'multipoles':
            chi = lambda q: A('spline', ('struct', 'coffe_background_t', '.comoving_distance'), T.intern(q))
            dz = at('deltaz')
            self.V = scale(mul(mul(A('pi'), self.fsky), sub(power(chi(add(z, dz)), 3), power(chi(sub(z, dz)), 3))), Fraction(4, 3))
        else:
            # V = 4 pi fsky (z2 - z1)^2 / int dz / (r^2 Hconf (1 + z)) / H0^2, the volume of the average over redshift
            q = A('var', 'k')
            sp = lambda n: A('spline', ('struct', 'coffe_background_t', '.' + n), T.intern(q))
            W = mul(mul(inverse(sp('conformal_Hz')), power(inverse(sp('comoving_distance')), 2)), inverse(add(q, ONE)))
            I = integral_of(W, T.intern(co['z_min']), T.intern(co['z_max']))
            h0 = inverse(A('c/H'))
            self.V = div(scale(mul(A('pi'), self.fsky), 4), mul(I, power(mul(h0, SET('h')), 2)))
            self.width = sub(co['z_max'], co['z_min'])

    def c(self, i, j, L):
        bi, bj, f = self.b[self.pops[i - 1]], self.b[self.pops[j - 1]], self.f
        if L == 0:
            return add(add(mul(bi, bj), scale(mul(add(bi, bj), f), Fraction(1, 3))), scale(mul(f, f), Fraction(1, 5)))
        if L == 2:
            return add(scale(mul(add(bi, bj), f), Fraction(2, 3)), scale(mul(f, f), Fraction(4, 7)))
        return scale(mul(f, f), Fraction(8, 35))

    def d(self, i, j):
        return ONE if self.pops[i - 1] == self.pops[j - 1] else ZERO

    def integral(self, q, l1, l2):
        spec, lo, hi = (PS, SET('k_min'), SET('k_max')) if self.method == 1 else (PSN, SET('k_min_norm'), SET('k_max_norm'))
        w = mul(mul(K, K), powered(spec, q))
        for l, r in ((l1, self.co['r1']), (l2, self.co['r2'])):
            if self.window and self.method == 1:
                a, b = edges(r, self.pix)
                F_ = sub(F_unit(l, mul(K, b)), F_unit(l, mul(K, a)))
                w = mul(w, mul(mul(F_, power(inverse(K), 3)), scale(inverse(sub(power(b, 3), power(a, 3))), 3)))
            else:
                w = mul(w, A('j', T.intern(const(l)), T.intern(mul(K, r))))
        return integral_of(w, T.intern(lo), T.intern(hi))

    def value(self, l1, l2, width=None):
        """the three parts, each with its switch"""
        s1 = (-1) ** l2
        on = lambda nm: A('nz', T.intern(SET('covariance_' + nm)))
        phase = (-1) ** abs((l1 - l2) // 2) if (l1 - l2) % 2 == 0 else 0
        pi2 = power(inverse(A('pi')), 2)
        cosmic = mixed = ZERO
        for L1 in (0, 2, 4):
            for L2 in (0, 2, 4):
                w = legendre_4(l1, l2, L1, L2)
                if w and phase:
                    cosmic = add(cosmic, mul(w, add(mul(self.c(1, 3, L1), self.c(2, 4, L2)), scale(mul(self.c(1, 4, L1), self.c(2, 3, L2)), s1))))
            w = legendre_4(l1, l2, L1, 0)
            if w and phase:
                i1, i2 = inverse(self.n1), inverse(self.n2)
                x = add(mul(mul(self.c(1, 3, L1), self.d(2, 4)), i2), mul(mul(self.c(2, 4, L1), self.d(1, 3)), i1))
                y = add(mul(mul(self.c(1, 4, L1), self.d(2, 3)), i2), mul(mul(self.c(2, 3, L1), self.d(1, 4)), i1))
                mixed = add(mixed, mul(w, add(x, scale(y, s1))))
        amp = scale(pi2, Fraction((2 * l1 + 1) * (2 * l2 + 1) * phase, 4))
        iV = inverse(self.V) if width is None else div(inverse(self.V), power(self.width, 2))
        D2 = power(self.D, 2)
        if cosmic:
            cosmic = mul(mul(mul(amp, cosmic), mul(power(self.D, 4), self.integral(2, l1, l2))), iV)
        if mixed:
            mixed = mul(mul(mul(amp, mixed), mul(D2, self.integral(1, l1, l2))), iV)
        poisson = ZERO
        if l1 == l2:
            pp = add(mul(self.d(1, 3), self.d(2, 4)), scale(mul(self.d(1, 4), self.d(2, 3)), s1))
            same = neg(nz(sub(self.co['m'], self.co['n'])))
            if self.window and self.method == 1:
                a, b = (add(self.co['r1'], scale(self.pix, Fraction(h, 2))) for h in (-1, 1))
                cell = scale(inverse(sub(power(b, 3), power(a, 3))), 3)
            else:
                cell = mul(power(inverse(self.co['r1']), 2), inverse(self.pix))
            poisson = mul(mul(mul(pp, same), cell), mul(mul(inverse(self.n1), inverse(self.n2)), scale(mul(inverse(A('pi')), iV), Fraction(2 * l1 + 1, 4))))
        return {'cosmic variance': mul(on('cosmic'), cosmic), 'mixed': mul(on('mixed'), mixed), 'Poisson': mul(on('poisson'), poisson)}


def edges(r, d):
    return A('edge', -1, T.intern(r), T.intern(d)), A('edge', 1, T.intern(r), T.intern(d))


def powered(spec, q):
    return A('spectrum', spec, q, T.intern(K))


# ---------------------------------------------------------------- what the code has
class Element:
    """an element as the code computes it, for one pair of multipoles"""

    def __init__(self, P, code, p, facts, pix):
        self.P, self.code, self.p, self.facts, self.pix = P, code, p, facts, pix
        self.calls = {}

    def at(self, pairs):
        p = substitute(self.p, pairs)
        for _ in range(4):
            q = substitute(rewriter(self.expand)(p), pairs)
            if q == p:
                break
            p = q
        return unroot(p)

    def expand(self, k):
        if k[0] == 'call' and k[1] in ('coffe_legendre_integral', 'coffe_kronecker_delta', 'coffe_sign') or k[0] == 'call' and k[1] in self.P.funcs and all(isinstance(x, tuple) and x and x[0] == 'p' for x in k[2:]):
            if k not in self.calls:
                try:
                    r = summed(self.P, self.P.funcs[k[1]], params={n: T.poly(x) for n, x in enumerate(k[2:])})
                    self.calls[k] = unroot(r)
                except AnalysisBroken:
                    self.calls[k] = None
            return self.calls[k]
        if k[0] == 'quad':
            return self.quad(k)
        if k[0] == 'made':
            i = next(i for ss in self.code.sp.values() for i in ss if self.code.mem.pos[id(i)] == k[1])
            bound = {('loopphi', self.code.f.name, n): T.poly(r) for n, r in k[2]}
            bound = {q: x for q, x in bound.items() if x != A(*q)}
            if len(k) == 5:
                r = self.plane(i, A('var', 'x'), A('var', 'y'))
                return substitute(substitute(r, bound), {('var', 'x'): T.poly(k[3]), ('var', 'y'): T.poly(k[4])})
            return self.spectrum(self.code.v.addr(i.args[0]), k[1] + 1, T.poly(k[3]))
        return None

    def plane(self, i, x, y):
        """interpolation of the table made by the two-dimensional transform"""
        v, mem = self.code.v, self.code.mem
        at = mem.pos[id(i)]
        ax, ay, az = (v.addr(a) for a in i.args[1:4])
        nx, ny = v.num(i.args[4]), v.num(i.args[5])
        u, w = A('index', 'u'), A('index', 'w')
        if len(nx) != 1 or nx != ny:
            raise AnalysisBroken('size of the table')
        nk = T.keys[next(iter(nx))[0][0]]
        fx = Facts(self.facts.maps + [{nk: add(add(A('index', q), ONE), A('gap', q))} for q in 'uw'])
        el = lambda a, q: mem.read(a + (('[]', T.intern(q)),), at, fx)
        gx, gy, z = el(ax, u), el(ay, w), el(az, add(mul(w, nx), u))
        z = unroot(z)
        keys = [T.keys[a] for m in z for a, _ in m]
        ft = [q for q in keys if q[0] == 'fft2']
        def bad(t):
            return A('table', t, T.intern(gx), T.intern(gy), T.intern(z))
        if len(ft) != 1:
            return bad('not a transform')
        _, ta, xs, ys, n, diag, off, l1, l2, iu, iw = ft[0]
        if gx != A('fftgrid', ta, 0, T.intern(u)) or gy != A('fftgrid', ta, 1, T.intern(w)):
            return bad('places of the table are not those of the transform')
        if T.poly(iu) != u or T.poly(iw) != w or T.poly(n) != nx:
            return bad('element of the transform')
        if xs != ys:
            return bad('samplings differ')
        if any(T.poly(o) for o in off):
            return bad('off the diagonal')
        xs, diag = T.poly(xs), T.poly(diag)
        L = logof(xs)
        slope = sub(substitute(L, {('index', 'u'): add(u, ONE)}), L)
        if any(k == ('index', 'u') for k in atoms(slope)) or not slope:
            return bad('sampling is not logarithmic')
        first, last = substitute(L, {('index', 'u'): ZERO}), [substitute(L, {('index', 'u'): e}) for e in (nx, sub(nx, ONE))]
        ends = []
        for nm in ('k_min', 'k_max', 'k_min_norm', 'k_max_norm'):
            ends.append((SET(nm), logof(SET(nm))))
        lo = next((s for s, q in ends if not clear(sub(q, first))), None)
        hi = next((s for s, q in ends if any(not clear(sub(q, e)) for e in last)), None)
        if lo is None or hi is None:
            return bad('range of the sampling')
        for spec in (PS, PSN):
            for q in (1, 2, 3, 4):
                t = div(mul(power(xs, 3), power(A('spline', spec, T.intern(xs)), q)), slope)
                d = sub(diag, t)
                if not d or vanishes(d) or not sub(logsimple(diag), logsimple(t)):
                    W = mul(mul(mul(K, K), powered(spec, q)), mul(A('j', l1, T.intern(mul(K, x))), A('j', l2, T.intern(mul(K, y)))))
                    val = integral_of(W, T.intern(lo), T.intern(hi))
                    return substitute(z, {ft[0]: val})
        return bad('spectrum on the diagonal')

    def quad(self, k):
        f = self.P.resolve(self.code.f, k[1])
        if f is None:
            raise AnalysisBroken('no integrand ' + k[1])
        flds = dict(k[2])
        # a separation and the width of its pixel by the two ends of the pixel
        num = {p: T.poly(x[1]) for p, x in flds.items() if x[0] == 'num'}
        wid = {p for p, x in num.items() if x == self.pix}
        for p in wid:
            n = re.sub(r'\D', '', ''.join(p))
            s = [q for q in num if re.sub(r'\D', '', ''.join(q)) == n and q != p and any(x[0] == 'cell' and x[1][:3] == ('*', ('struct', PAR, '.sep'), x[1][2]) for x in atoms(num[q]))]
            if len(s) != 1:
                raise AnalysisBroken('pixel of an integrand')
            a, b = edges(num[s[0]], num[p])
            num[s[0]], num[p] = scale(add(a, b), Fraction(1, 2)), sub(b, a)
        box = {}

        def path(a):
            return a[2:] if a[0] in ('struct', 'arg') else None

        firsts = {'.' + x[0] for x in self.P.fields.values() if x}

        def same(a, b):
            if len(a) > len(b):
                a, b = b, a
            return b[:len(a)] == a and all(x in firsts for x in b[len(a):])

        def stored(a):
            ss = [i for i in f.insts() if i.op == 'store' and same(box['v'].addr(i.args[1]), a)]
            if len(ss) == 1 and value(box['v'], ss[0].args[0])[0] == 'num':
                return ss[0]
            return None

        def bind(q):
            if q == ('arg', 0):
                return K
            if q[0] == 'cell' and path(q[1]) is not None:
                i = stored(q[1])
                if i is not None:
                    return box['v'].num(i.args[0])
                pth = path(q[1])
                if not pth and pth not in num:
                    pth = next(((x,) for x in ['.' + y for y in (self.P.fields.get('struct.' + q[1][1]) or [])[:1]]), pth) if q[1][0] == 'struct' else pth
                if pth in num:
                    return num[pth]
                first = ('.' + ((self.P.fields.get('struct.' + q[1][1]) or [''])[0]),) if q[1][0] == 'struct' else None
                if pth == first and () in num:
                    return num[()]
                return A('unset', pth)
            if q[0] == 'spline':
                a = q[1]
                pth = path(a[1]) if a[0] == '*' else None
                g = flds.get(pth) if pth is not None else None
                if g is None and pth is not None and () in flds and a[1][0] == 'struct' and pth == ('.' + (self.P.fields.get('struct.' + a[1][1]) or [''])[0],):
                    g = flds[()]
                if g and g[0] == 'ptr':
                    return self.spectrum(g[1], g[2], T.poly(q[2]))
            return None
        old = T.assume
        T.assume = lambda kind, p: ONE if kind == 'nz' and any(x[0] == 'edge' for x in atoms(p)) else None
        try:
            v = box['v'] = Val(self.P, f, bind=bind)
            W = v.returned()
        finally:
            T.assume = old
        W = rewriter(bessel)(W)
        return integral_of(W, k[3], k[4])

    def spectrum(self, a, at, k):
        """the spline at address a as a power of the power spectrum"""
        if a in (PS, PSN):
            return A('spectrum', a, 1, T.intern(k))
        if a[0] == 'struct':
            return A('spline', a, T.intern(k))
        i = self.code.spline_at(a, at)
        if i is None:
            return A('unset', a)
        v, mem = self.code.v, self.code.mem
        u = A('index', 'u')
        n = v.num(i.args[3])
        src = ('*', PS + ('.spline',))
        pos = mem.pos[id(i)]

        def content(k2, x):
            b = v.addr(k2)
            fx = Facts(self.facts.maps + [{T.keys[next(iter(n))[0][0]]: add(x, add(ONE, A('gap', 'u')))}] if len(n) == 1 and len(next(iter(n))) == 1 else [])
            return mem.read(b + (('[]', T.intern(x)),), pos, fx)
        xs, ys = content(i.args[1], u), content(i.args[2], u)
        for spec in (PS, PSN):
            s = ('*', spec + ('.spline',))
            gx, gy = (A('cell', ('*', s + (nm,), ('[]', T.intern(u)))) for nm in ('.x', '.y'))
            if xs == gx and n == A('cell', s + ('.size',)):
                for q in (1, 2, 3, 4):
                    if ys == power(gy, q):
                        return A('spectrum', spec, q, T.intern(k))
        return A('spline-of', T.intern(xs), T.intern(ys), T.intern(n), T.intern(k))


def local_spline(code):
    """cells of the samples of the splines made in the function"""
    mem = code.mem
    old = mem.read

    def read(a, at, facts, why=''):
        r = flat(a)
        if r and r[0][0] == 'local' and len(r[1]) == 3 and r[1][0] == ('.spline',) and r[1][1] in (('.x',), ('.y',)):
            i = code.spline_at(r[0], at)
            if i is not None:
                return old(code.v.addr(i.args[1 if r[1][1] == ('.x',) else 2]) + r[1][2], mem.pos[id(i)], facts)
        return old(a, at, facts)
    mem.read = read


def logof(p):
    """logarithm of a product"""
    if len(p) != 1:
        return fn('log', p)
    (m, c), = p.items()
    out = ZERO if frac(c) == 1 else fn('log', const(frac(c)))
    for a, e in m:
        k = T.keys[a]
        if k[0] == 'fn' and k[1] == 'exp':
            t = T.poly(k[2])
        elif k[0] == 'fn' and k[1] == 'pow':
            t = mul(T.poly(k[3]), logof(T.poly(k[2])))
        elif k[0] == 'inv':
            t = scale(logof(T.poly(k[1])), -1)
        else:
            t = A('fn', 'log', T.intern(A(*k)))
        out = add(out, scale(t, e))
    return out


def logsimple(p):
    """logarithms of products taken apart"""
    def one(k):
        if k[0] == 'fn' and k[1] == 'log' and len(T.poly(k[2])) == 1 and len(next(iter(T.poly(k[2])))) > 1:
            return logof(T.poly(k[2]))
        return None
    return rewriter(one)(p)


# ---------------------------------------------------------------- the check
def patterns():
    out = []
    for p in itertools.product((1, 2, 3, 4), repeat=4):
        seen = []
        for x in p:
            if x not in seen:
                seen.append(x)
        if seen == sorted(seen) and seen == list(range(1, len(seen) + 1)):
            out.append(p)
    return out + [(4, 3, 2, 1), (2, 1, 2, 1), (3, 1, 1, 3)]


def run(c):
    P = ir.Program('inline')
    jobs = []
    for window in (1, 0):
        for kind in ('multipoles', 'average'):
            for method in (1, 2):
                for pops in patterns() if (kind, method, window) == ('multipoles', 1, 0) else [(1, 2, 1, 2), (1, 1, 1, 1)]:
                    jobs.append(('%s:%d:%d:%s' % (kind, method, window, pops), element, (P, kind, method, window, pops)))
    c.parallel(jobs)
    c.need(c.obl, 'elements', 500) if not c.cov.get('undecided') else None
    c.cover(explanation='the value stored for an element of the covariance, followed through every array of integrals it is read from, compared as a polynomial with the '
            'Gaussian covariance written out from the documentation; settings: two kinds of covariance, two ways of integrating, binned or not, %d assignments of the four '
            'populations, multipoles up to 8 (6 when binned)' % len(patterns()), configurations=len(jobs))
    c.assumptions.append('the quadrature, the two-dimensional transform and the interpolation routines compute what they are named for; builds without CLASS')


NAME = {1: 'integration', 2: 'transform'}


def element(c, P, kind, method, window, pops):
    setting = dict(lens())
    setting.update(output_type=const(4 if kind == 'multipoles' else 5), covariance_integration_method=const(method), covariance_window=const(window), verbose=ZERO)
    for n, pop in zip('1234', pops):
        setting['covariance_pop' + n] = const(pop)
    code = Code(P, setting)
    local_spline(code)
    mem, v = code.mem, code.v
    code.mem.hook = code.quads
    stores = {}
    for i in code.insts('store'):
        a = v.addr(i.args[1])
        if a[0] == '*' and a[1][0] == 'struct' and 'covariance_array' in a[1][1]:
            stores.setdefault(index(a[2:])[1], []).append((i, a))
    if ('.value',) not in stores:
        raise AnalysisBroken('no element is stored')
    lab = '%s, %s%s, populations %d%d%d%d' % ((kind, NAME[method], ', binned' if window else '') + tuple(pops))
    if len(stores[('.value',)]) != 1:
        raise AnalysisBroken('%d stores of elements' % len(stores[('.value',)]))
    i, a = stores[('.value',)][0]
    where = '%s:%s' % (code.f.name, i.line)
    place = [a[2:]]
    idx = mem.norm(index(a[2:])[0])
    ids = sorted(phis(idx))
    base = facts_for(code, ids)
    # ---- coordinates of the element
    co = {}
    for fl, ss in stores.items():
        if fl[0] != '.coords':
            continue
        if len(ss) != 1:
            raise AnalysisBroken('%d stores of %s' % (len(ss), fl))
        j, b = ss[0]
        m = mem.match(j, [tuple(x for x in b[2:] if isinstance(x, tuple))], [tuple(x for x in a[2:] if isinstance(x, tuple))], Facts(base))
        if m is None:
            c.obligation()
            c.find('%s:coordinates' % kind, '%s: the coordinate %s is not stored for every element' % (lab, fl[-1]), '%s:%s' % (code.f.name, j.line))
            return
        co[fl[-1][1:]] = mem.resolve(substitute(mem.norm(v.num(j.args[0])), m), mem.pos[id(j)], Facts(base))
        g = substitute(mem.guard(j.block), m)
        if g != ONE:
            raise AnalysisBroken('coordinates are stored when %s' % show(g))
    want = {'l1', 'l2', 'separation1', 'separation2'} | ({'z_mean'} if kind == 'multipoles' else {'z_min', 'z_max'})
    if set(co) != want:
        c.obligation()
        c.find('%s:coordinates' % kind, '%s: coordinates stored are %s' % (lab, sorted(co)), where)
        return

    def source(p, nm):
        for k in ids:
            if p == ARRAY(nm, A(*k)):
                return k
        return None
    src = {n: source(co[n], nm) for n, nm in (('l1', 'multipole_values'), ('l2', 'multipole_values'), ('separation1', 'sep'), ('separation2', 'sep'))}
    src.update({n: source(co[n], nm) for n, nm in (('z_mean', 'z_mean'), ('z_min', 'zmin'), ('z_max', 'zmax')) if n in co})
    for n, k in src.items():
        c.obligation()
        if k is None:
            c.find('%s:coordinates' % kind, '%s: the coordinate %s is %s' % (lab, n, show(co[n])), where)
            return
    if kind == 'average' and src['z_min'] != src['z_max']:
        c.find('average:coordinates', '%s: the two redshifts of an element come from different bins' % lab, where)
        return
    zk = src.get('z_mean') or src['z_min']
    if len({zk, src['l1'], src['l2'], src['separation1'], src['separation2']}) != 5:
        c.find('%s:coordinates' % kind, '%s: two coordinates of an element come from the same loop' % lab, where)
        return
    # ---- every element is there: the counters run over all values, the size is their number
    c.obligation()
    tot = ONE
    for k in ids:
        lo, hi = mem.range(k)
        if lo:
            c.find('%s:elements' % kind, '%s: the loop over %s starts at %s' % (lab, showkey(k), show(lo)), where)
        tot = mul(tot, hi)
    n = {'z': SET('z_mean_len'), 'l': SET('multipole_values_len'), 'r': SET('sep_len')}
    whole = mul(n['z'], mul(power(n['l'], 2), power(n['r'], 2)))
    if tot != whole:
        c.find('%s:elements' % kind, '%s: %s elements are computed instead of %s' % (lab, show(tot), show(whole)), where)
    owner = a[1][1]
    for j in code.insts('store'):
        b = v.addr(j.args[1])
        if b[:2] == ('struct', owner) and b[2:] == ('.size',):
            x = v.num(j.args[0])
            if x and x != whole:
                c.find('%s:elements' % kind, '%s: the size of the result is %s instead of %s' % (lab, show(x), show(whole)), '%s:%s' % (code.f.name, j.line))
    g = mem.guard(i.block)
    if g != ONE:
        raise AnalysisBroken('elements are stored when %s' % show(g))
    zi = A(*zk)
    orac = {'zi': zi, 'r1': co['separation1'], 'r2': co['separation2'], 'm': A(*src['separation1']), 'n': A(*src['separation2'])}
    orac.update({n: co[n] for n in ('z_min', 'z_max') if n in co})
    orac['z'] = co['z_mean'] if kind == 'multipoles' else scale(add(co['z_min'], co['z_max']), Fraction(1, 2))
    O = Oracle(kind, method, window, pops, orac)
    p0 = mem.hook(code.unrolled(mem.norm(v.num(i.args[0]))), mem.pos[id(i)])
    lmax = 6 if window and method == 1 else 8
    for name, mp in ordered(src['l1'], src['l2'], n['l']):
        facts = Facts(base + [mp])
        p = mem.resolve(p0, mem.pos[id(i)], facts)
        left = {k for k in atoms(p) if k[0] == 'loopphi' and k not in ids}
        if left:
            raise AnalysisBroken('%s is left in an element' % showkey(sorted(left)[0]))
        el = Element(P, code, p, facts, ARRAY('pixelsize', zi))
        for l1, l2 in pairs_of(lmax, pops, name):
            compare(c, kind, method, window, lab, name, where, el, O, l1, l2, co)


def pairs_of(lmax, pops, name):
    if pops in ((1, 2, 1, 2), (1, 1, 1, 1)):
        ls = [(a, b) for a in range(lmax + 1) for b in range(lmax + 1) if a <= 4 and b <= 4 or (a + b) % 4 == 0]
    else:
        ls = [(0, 0), (0, 2), (2, 0), (2, 2), (4, 2), (2, 4), (1, 1), (1, 3), (3, 1), (4, 4), (0, 1)]
    return ls


def compare(c, kind, method, window, lab, name, where, el, O, l1, l2, co):
    (a,), (b,) = (list(co[n])[0] for n in ('l1', 'l2'))
    p = el.at({T.keys[a[0]]: const(l1), T.keys[b[0]]: const(l2)})
    tot = ZERO
    want = O.value(l1, l2, True if kind == 'average' else None)
    lacks = O.value(l1, l2) if kind == 'average' else None
    for part, w in want.items():
        key = 'covariance_' + {'cosmic variance': 'cosmic', 'mixed': 'mixed', 'Poisson': 'poisson'}[part]
        only = {('cell', ('struct', PAR, '.covariance_' + x)): (ONE if '.covariance_' + x == '.' + key else ZERO) for x in ('cosmic', 'mixed', 'poisson')}
        got = substitute(p, only)
        exp = unroot(substitute(w, only))
        m, n = O.co['m'], O.co['n']
        for what, pairs in (('equal separations', {T.keys[next(iter(n))[0][0]]: m}), ('different separations', {T.keys[x]: ONE for x in (a for q in nz(sub(m, n)) for a, _ in q)})):
            c.obligation()
            g1, e1 = substitute(got, pairs), substitute(exp, pairs)
            d = sub(g1, e1)
            if not d or vanishes(d):
                continue
            got, exp = g1, e1
            if lacks:
                d2 = sub(g1, substitute(unroot(substitute(lacks[part], only)), pairs))
                if not d2 or vanishes(d2):
                    c.find('average:volume:width', '%s: the %s part lacks the square of the width of the redshift bin in the volume' % (lab, part), where)
                    break
            name = name + ', ' + what
            c.find('%s:%s%s:%s' % (kind, NAME[method], ':binned' if window and method == 1 else '', part),
                   '%s, l = %d, l\' = %d (%s): the %s part differs from the Gaussian covariance: has %s, should be %s' % (lab, l1, l2, name, part, show(got, 3)[:400], show(exp, 3)[:400]), where)
            break
    none = substitute(p, {('cell', ('struct', PAR, '.covariance_' + x)): ZERO for x in ('cosmic', 'mixed', 'poisson')})
    if none:
        c.find('%s:switch' % kind, '%s: with no part of the covariance wanted an element is %s' % (lab, show(none, 2)[:300]), where)


if __name__ == '__main__':
    common.main('C20', run)
