"""C15: the background quantities are consistent with one expansion history."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken, Glob, Reg, Const
from val import *

PAR = 'coffe_parameters_t'
QUAD = {'coffe_integrate_1d_prec_gsl', 'coffe_integrate_1d_prec_double_exponential'}
WHERE = 'src/background.c coffe_background_init'
U = A('u')                                   # 1 + z
Z = sub(U, ONE)
AU = T.atom('u')


def cell(n): return A('cell', ('struct', PAR, '.' + n))


class Redshift(Val):
    """values in terms of the redshift of the current sample"""
    pz = None

    def num(self, v):
        r = super().num(v)
        if self.pz is not None and r == self.pz:
            return Z
        return r


def run(c):
    P = ir.Program('inline')
    f = P.funcs.get('coffe_background_init')
    if f is None:
        raise AnalysisBroken('no function coffe_background_init')
    B = c.part('background', Background, c, P, f)
    for n in () if B is None else ('tables', 'columns', 'eos', 'growth_equation', 'growth_solution', 'splines', 'interpolation'):
        c.part(n, getattr(B, n))
    c.part('queries', queries, c)
    if 'undecided' not in c.cov:
        c.need(c.obl, 'relations', 30)
    c.cover(explanation='normal form of every column of the background table, of the dark energy and growth tables and of the integrands and the growth equation; the relations between them are '
            'identities of rational functions (with d/dz of the dark energy density given by its defining integral)')
    c.assumptions += ['the ODE solver and the quadrature of GSL solve what they are given', 'accuracy of the numerical solution is not decided (see the not-applicable properties)']


class Background:
    def __init__(self, c, P, f):
        self.c, self.P, self.f = c, P, f
        v0 = Val(P, f)
        self.names, self.scalars = {}, {}
        self.name_columns(v0)
        column = self.column
        z = [i for i in f.insts() if i.op == 'store' and column(v0.addr(i.args[1])) == 'z']
        if len(z) != 1:
            raise AnalysisBroken('%d stores to the redshift column' % len(z))
        self.zstore = z[0]
        self.idx = v0.addr(z[0].args[1])[-1]
        pz = v0.num(z[0].args[0])
        self.v0 = v0
        v = Redshift(P, f, bind=self.bind)
        v.pz = pz
        self.v, self.pz = v, pz
        self.cols = {}
        for i in f.insts():
            if i.op == 'store' and i is not self.zstore:
                a = v.addr(i.args[1])
                n = column(a)
                if n and a[-1] == self.idx:
                    self.cols.setdefault(n, []).append((i, v.num(i.args[0])))

    def name_columns(self, v0):
        """an array of the table is named after the interpolation of the background it feeds"""
        got = {}
        for i in self.f.insts():
            if i.op == 'call' and isinstance(i.x, Glob) and i.x.name == 'coffe_init_spline':
                a = v0.addr(i.args[0])
                if a[0] == 'struct' and a[1] == 'coffe_background_t':
                    x, y, n = base(v0.addr(i.args[1])), base(v0.addr(i.args[2])), a[-1][1:]
                    got.setdefault(x if n == 'z_as_chi' else y, set()).add('comoving_distance' if n == 'z_as_chi' else n)
                    got.setdefault(y if n == 'z_as_chi' else x, set()).add('z')
        for b, ns in got.items():
            own = column(b)
            self.names[b] = own if own in ns else next(iter(ns)) if len(ns) == 1 else None

    def column(self, a):
        return self.names.get(base(a)) or column(a)

    def bind(self, k):
        column = self.column
        if k[0] == 'cell' and k[1][0] == 'local' and len(k[1]) > 2:
            # a member of a local block set once, before: its value
            key = k[1]
            if key not in self.scalars:
                self.scalars[key] = None
                st = [i for i in self.f.insts() if i.op == 'store' and self.v0.addr(i.args[1]) == key]
                if len(st) == 1 and st[0].ty in ('double', 'i32', 'i64') and not any(x[0] in ('loopphi', 'call', 'opaque', 'rec') for x in atoms(self.v0.num(st[0].args[0]))) \
                        and not any(h_ and st[0].block.name in body for h_, body in self.v0.loop_items()):
                    self.scalars[key] = self.v0.num(st[0].args[0])
            if self.scalars[key] is not None:
                return self.scalars[key]
        if k[0] == 'cell':
            n = column(k[1])
            if n and k[1][-1] == self.idx:
                return Z if n == 'z' else A('col', n)
        return None

    def bad(self, key, msg):
        self.c.find('background:' + key, msg, WHERE)

    def same(self, key, got, want, msg):
        self.c.obligation(key)
        d = sub(got, want)
        if not vanishes(d):
            odd = [k for k in atoms(d) if k[0] in ('rec', 'opaque', 'int')]
            if odd:
                raise AnalysisBroken('%s: %s' % (key, show(got, 2)[:200]))
            self.bad(key, '%s (%s instead of %s)' % (msg, show(got, 3)[:160], show(want, 3)[:160]))

    def only(self, n):
        vs = {T.intern(p): p for _, p in self.cols.get(n, [])}
        if len(vs) != 1:
            raise AnalysisBroken('column %s is given %d values' % (n, len(vs)))
        return next(iter(vs.values()))

    # E(z): the density in units of today's critical density
    def density(self, sp):
        m = add(add(cell('Omega0_cdm'), cell('Omega0_baryon')), cell('Omega0_nu'))
        return add(add(mul(m, power(U, 3)), mul(cell('Omega0_gamma'), power(U, 4))), mul(cell('Omega0_de'), sp))

    def wint(self): return A('spline', ('local', self.ipar(), '.wint'), T.intern(Z))

    def w(self): return A('spline', ('local', self.ipar(), '.w'), T.intern(Z))

    def ipar(self):
        for i in self.f.insts():
            if i.op == 'call' and isinstance(i.x, Glob) and i.x.name == 'coffe_init_spline':
                a = self.v.addr(i.args[0])
                if a[0] == 'local' and a[-1] == '.wint':
                    return a[1]
        raise AnalysisBroken('no dark energy table')

    def columns(self):
        c = self.c
        H0 = {((T.atom('c/H'), -1),): 1}
        H0 = mul(H0, cell('h'))
        col = lambda n: A('col', n)
        c.obligation('redshift')
        if cval(substitute(self.pz, {k: ZERO for k in atoms(self.pz) if k[0] == 'loopphi'})) != 0:
            self.bad('z', 'the first sample is not at redshift 0')
        self.same('a', self.only('a'), inverse(U), 'the scale factor is not 1/(1+z)')
        E = self.density(self.wint())
        Hz = self.only('Hz')
        self.same('Hz', mul(Hz, Hz), mul(mul(H0, H0), E), 'the expansion rate squared is not H0 squared times the sum of the densities')
        c.obligation('Hz positive')
        if cval(Hz) is None and lead(Hz) < 0:
            self.bad('Hz:sign', 'the expansion rate is negative')
        E0 = substitute(E, {('u',): ONE})
        E0 = rewriter(lambda k: ONE if k[0] == 'spline' and k[1][-1] == '.wint' else None)(E0)
        E0 = substitute(E0, {('cell', ('struct', PAR, '.Omega0_de')): sub(sub(ONE, cell('Omega0_m')), cell('Omega0_gamma')),
                             ('cell', ('struct', PAR, '.Omega0_cdm')): sub(sub(cell('Omega0_m'), cell('Omega0_baryon')), cell('Omega0_nu'))})
        self.same('Hz:today', E0, ONE, 'the expansion rate today is not H0')
        conf = {('col', 'a'): inverse(U), ('col', 'Hz'): Hz}
        ch = substitute(self.only('conformal_Hz'), conf)
        self.same('conformal_Hz', ch, mul(inverse(U), Hz), 'the conformal expansion rate is not a H')
        # conformal derivative: -(1+z)/2 d(conformal H squared)/dz
        rules = lambda k: mul(scale(mul(add(ONE, self.w()), inverse(U)), 3), self.wint()) if k[0] == 'spline' and k[1][-1] == '.wint' else None
        d = deriv(mul(E, power(U, -2)), AU, rules)
        want = mul(scale(mul(U, d), Fraction(-1, 2)), mul(H0, H0))
        got = substitute(self.only('conformal_Hz_prime'), conf)
        got = substitute(got, {('col', 'conformal_Hz'): ch})
        self.same('conformal_Hz_prime', got, want, 'the derivative of the conformal expansion rate is not that of the expansion rate')
        # Doppler factors
        chi = col('comoving_distance')
        for k in '12':
            s = A('spline', ('struct', PAR, '.magnification_bias' + k), T.intern(Z))
            e = A('spline', ('struct', PAR, '.evolution_bias' + k), T.intern(Z))
            want = mul(col('conformal_Hz_prime'), power(col('conformal_Hz'), -2))
            want = add(want, mul(sub(const(2), scale(s, 5)), inverse(mul(chi, col('conformal_Hz')))))
            want = sub(add(want, scale(s, 5)), e)
            zero = 0
            for i, p in self.cols.get('G' + k, []):
                if cval(p) == 0:
                    zero += 1
                    self.origin(i, 'G' + k)
                else:
                    self.same('G' + k, p, want, 'the Doppler factor of population %s is not H\'/H^2 + (2-5s)/(chi H) + 5s - f_evo of that population' % k)
            if len(self.cols.get('G' + k, [])) == zero:
                raise AnalysisBroken('column G' + k)
        # comoving distance: integral of 1/H of the same density
        n = 0
        for i, p in self.cols.get('comoving_distance', []):
            for m, cf in p.items():
                ca = [(a, e) for a, e in m if T.keys[a][0] == 'call']
                key = T.keys[ca[0][0]] if len(ca) == 1 and ca[0][1] == 1 else None
                if not key or key[1] not in QUAD or key[2][0] != 'glob':
                    raise AnalysisBroken('column comoving_distance: ' + show({m: cf})[:100])
                n += 1
                g = self.P.resolve(self.f, key[2][1])
                J = self.integrand(g)
                # measure: J(z') dz' / (h H0)
                self.limits('comoving distance', key, ZERO, Z)
                w = {tuple(x for x in m if x[0] != ca[0][0] and x[0] not in T.ind): cf}
                self.same('comoving_distance', mul(mul(w, w), mul(mul(J, J), mul(mul(H0, H0), E))), ONE, 'the comoving distance is not the integral of 1/H')
        if not n:
            raise AnalysisBroken('column comoving_distance')

    def origin(self, i, n):
        """a column is zero only where the redshift vanishes"""
        pc = self.v.pathcond(i.block)
        ks = [k for k in atoms(pc, deep=False) if k[0] in ('lt', 'nz')]
        for k in ks:
            q = T.poly(k[1])
            if k[0] == 'lt' and ('u',) in [T.keys[a] for m in q for a, _ in m]:
                z0 = substitute(q, {('u',): ONE})       # +-c at z = 0
                cv = cval(z0)
                if cv is None or abs(cv) > Fraction(1, 1000):
                    self.bad(n + ':origin', '%s is set to zero up to redshift %s' % (n, cv))
                self.c.obligation(n + ' at z=0')
                return
            if k[0] == 'nz':
                return
        raise AnalysisBroken('condition of ' + n)

    def limits(self, what, key, lo, hi):
        self.c.obligation(what + ' limits')
        if T.poly(key[4]) != lo or T.poly(key[5]) != hi:
            self.bad(what + ':limits', 'the integral of the %s runs from %s to %s' % (what, show(T.poly(key[4]))[:60], show(T.poly(key[5]))[:60]))
        if key[3] != ('local', self.ipar()):
            raise AnalysisBroken(what + ': parameters')

    def integrand(self, g, var=None):
        """integrand in terms of u = 1 + z (or of the variable itself)"""
        if g is None:
            raise AnalysisBroken('unknown integrand')
        ip = self.ipar()
        S = local_stores(self.v, ('local', ip))

        def bind(k):
            if k == ('arg', 0):
                return Z if var is None else var
            if k[0] == 'cell' and k[1][0] == 'struct' and k[1][1] == 'integration_params':
                st = S.get(k[1][2:], [])
                if len(st) != 1:
                    raise AnalysisBroken('%s is set %d times' % (k[1][2], len(st)))
                return self.v.num(st[0].args[0])
            if k[0] == 'spline' and k[1][0] == 'struct' and k[1][1] == 'integration_params':
                return A('spline', ('local', ip) + k[1][2:], *k[2:])
            return None
        return Val(self.P, g, bind=bind).returned()

    # ---- dark energy and matter tables
    def tables(self):
        v, c = self.v0, self.c
        for name in ('w', 'wint', 'xint'):
            ini = [i for i in self.f.insts() if i.op == 'call' and isinstance(i.x, Glob) and i.x.name == 'coffe_init_spline'
                   and v.addr(i.args[0]) == ('local', self.ipar(), '.' + name)]
            if len(ini) != 1:
                raise AnalysisBroken('table ' + name)
            xs, ys = v.addr(ini[0].args[1]), v.addr(ini[0].args[2])
            sx = [i for i in self.f.insts() if i.op == 'store' and v.addr(i.args[1])[:len(xs)] == xs]
            sy = [i for i in self.f.insts() if i.op == 'store' and v.addr(i.args[1])[:len(ys)] == ys]
            for i in sy:
                idx = v.addr(i.args[1])[len(ys):]
                # abscissa at the same index, written in the same iteration
                j = [s for s in sx if v.addr(s.args[1])[len(xs):] == idx]
                j0 = [s for s in j if s.block is i.block] or [s for s in j if v.order[s.block.name] <= v.order[i.block.name] and
                                                             dominates(v.idom, s.block.name if isinstance(next(iter(v.idom)), str) else s.block,
                                                                       i.block.name if isinstance(next(iter(v.idom)), str) else i.block)]
                if not j0:
                    raise AnalysisBroken('abscissa of the table ' + name)
                z = v.num(j0[-1].args[0])
                y = self.own(v.num(i.args[0]))
                self.entry(name, z, y)
            n = v.num(ini[0].args[3])
            for s in sy:
                k = v.addr(s.args[1])[len(ys):]
                p = T.poly(k[-1][1]) if k else ZERO
                ph = [x for x in atoms(p) if x[0] == 'loopphi']
                if len(ph) == 1 and p == A(*ph[0]):
                    r = full_range(v, ph[0], n)
                    c.obligation('table %s complete' % name)
                    if r is False:
                        self.bad(name + ':range', 'the table of %s is not filled completely' % name)

    def own(self, p):
        """members of the parameter block by what they were set to"""
        S = local_stores(self.v, ('local', self.ipar()))

        def g(k):
            if k[0] == 'cell' and k[1][:2] == ('local', self.ipar()) and len(S.get(k[1][2:], [])) == 1:
                return self.v.num(S[k[1][2:]][0].args[0])
            return None
        return rewriter(g)(p)

    def entry(self, name, z, y):
        u = add(ONE, z)
        omega = [add(cell('Omega0_cdm'), cell('Omega0_baryon')), add(add(cell('Omega0_cdm'), cell('Omega0_baryon')), cell('Omega0_nu')), cell('Omega0_m')]
        if name == 'w':
            ca = [T.keys[a] for m in y for a, e in m if T.keys[a][0] == 'call']
            self.c.obligation('table of w')
            if len(ca) != 1 or len(y) != 1 or cval(mul(y, inverse(A(*ca[0])))) != 1:
                raise AnalysisBroken('table of w: ' + show(y)[:100])
            if ca[0][1] != 'coffe_dark_energy_eos':
                raise AnalysisBroken('table of w: ' + ca[0][1])
            if T.poly(ca[0][2]) != z:
                self.bad('w', 'the table of w(z) is sampled at another redshift')
            return
        if y and not any(k[0] == 'call' for k in atoms(y)):
            # the value at z = 0
            if name == 'wint':
                self.same('wint:today', y, ONE, 'the dark energy density today is not normalised')
            elif cval(z) != 0 or not any(vanishes(sub(mul(y, sub(ONE, o)), o)) for o in omega):
                self.bad('xint:today', 'the ratio of matter to dark energy today is %s' % show(y, 2)[:120])
            self.c.obligation(name + ' at z=0')
            return
        # every monomial: factor * exp(k * integral); method indicators sum to one
        for m, cf in y.items():
            ex = [(T.keys[a], e) for a, e in m if T.keys[a][0] == 'fn' and T.keys[a][1] == 'exp']
            if len(ex) != 1 or ex[0][1] != 1:
                raise AnalysisBroken('table %s: %s' % (name, show({m: cf})[:120]))
            arg = T.poly(ex[0][0][2])
            if len(arg) != 1:
                raise AnalysisBroken('table %s: %s' % (name, show(arg)[:120]))
            (am, acf), = arg.items()
            ca = [(T.keys[a], e) for a, e in am if T.keys[a][0] == 'call']
            if len(ca) != 1 or len(am) != 1 or ca[0][0][1] not in QUAD:
                raise AnalysisBroken('table %s: %s' % (name, show(arg)[:120]))
            key = ca[0][0]
            g = self.P.resolve(self.f, key[2][1]) if key[2][0] == 'glob' else None
            lo, hi, fac = T.poly(key[4]), T.poly(key[5]), frac(acf)
            self.c.obligation('table %s exponent' % name)
            if name == 'wint':
                J = self.integrand(g)
                want = mul(add(ONE, self.w()), inverse(U))
                if (lo, hi) == (z, ZERO):
                    lo, hi, fac = hi, lo, -fac
                if lo or hi != z:
                    self.bad('wint:limits', 'the dark energy density is integrated from %s to %s' % (show(lo)[:60], show(hi)[:60]))
                self.same('wint', scale(J, fac), scale(want, 3), 'the dark energy density does not follow from w')
            else:
                J = self.integrand(g, A('var'))
                wa = A('spline', ('local', self.ipar(), '.w'), T.intern(sub(inverse(A('var')), ONE)))
                if (lo, hi) == (ONE, inverse(u)):
                    lo, hi, fac = hi, lo, -fac
                if lo != inverse(u) or hi != ONE:
                    self.bad('xint:limits', 'the matter ratio is integrated from %s to %s' % (show(lo)[:60], show(hi)[:60]))
                self.same('xint', scale(J, fac), scale(mul(wa, inverse(A('var'))), -3), 'the ratio of matter to dark energy does not follow from w')
        y1 = {}
        for m, cf in y.items():
            r = tuple(x for x in m if x[0] not in T.ind and not (T.keys[x[0]][0] == 'fn' and T.keys[x[0]][1] == 'exp'))
            y1.setdefault(tuple(x for x in m if x[0] in T.ind), {})[r] = cf
        for q in y1.values():
            if name == 'wint':
                if cval(q) not in (1, -1):
                    self.bad('wint:norm', 'the dark energy density today is %s' % show(q)[:60])
            elif not any(vanishes(sub(mul(q, sub(ONE, o)), o)) or vanishes(add(mul(q, sub(ONE, o)), o)) for o in omega):
                self.bad('xint:norm', 'the ratio of matter to dark energy today is %s' % show(q, 2)[:120])

    def eos(self):
        f = self.P.funcs.get('coffe_dark_energy_eos')
        if f is None:
            raise AnalysisBroken('no function coffe_dark_energy_eos')
        r = Val(self.P, f, bind=lambda k: Z if k == ('arg', 0) else None).returned()
        want = add(cell('w0'), mul(cell('wa'), mul(Z, inverse(U))))
        self.same('eos', r, want, 'the equation of state is not w0 + wa z/(1+z)')

    # ---- growth
    def growth_equation(self):
        sysf = [i for i in self.f.insts() if i.op == 'store' and self.v.addr(i.args[1])[-1] == '.function' and self.v.addr(i.args[1])[0] == 'local']
        if len(sysf) != 1:
            raise AnalysisBroken('no growth equation')
        a = self.v.addr(sysf[0].args[0])
        g = self.P.resolve(self.f, a[1]) if a[0] == 'glob' else None
        if g is None:
            raise AnalysisBroken('no growth equation')
        S = local_stores(self.v, self.v.addr(sysf[0].args[1])[:2])
        pr = [self.v.addr(x.args[0]) for x in S.get(('.params',), [])]
        if pr != [('local', self.ipar())]:
            raise AnalysisBroken('parameters of the growth equation')
        self.c.obligation('order of the growth equation')
        if [cval(self.v.num(x.args[0])) for x in S.get(('.dimension',), [])] != [2]:
            self.bad('growth:dimension', 'the growth equation is of second order')
        av = A('a')
        y = [A('y', 0), A('y', 1)]

        def bind(k):
            if k == ('arg', 0):
                return av
            if k[0] == 'cell' and k[1][0] == 'arg' and k[1][1] == 1:
                i = cval(T.poly(k[1][2][1])) if len(k[1]) > 2 else 0
                return A('y', int(i)) if i in (0, 1) else None
            if k[0] == 'spline' and k[1][0] == 'struct' and k[1][1] == 'integration_params':
                return A('spline', ('local', self.ipar()) + k[1][2:], *k[2:])
            return None
        v = Val(self.P, g, bind=bind)
        out = {}
        for i in g.insts():
            if i.op == 'store':
                b = v.addr(i.args[1])
                if b[0] == 'arg' and b[1] == 2:
                    k = cval(T.poly(b[2][1])) if len(b) > 2 else 0
                    if k in out:
                        raise AnalysisBroken('growth equation')
                    out[k] = v.num(i.args[0])
        if sorted(out) != [0, 1]:
            raise AnalysisBroken('growth equation')
        za = T.intern(sub(inverse(av), ONE))
        w = A('spline', ('local', self.ipar(), '.w'), za)
        x = A('spline', ('local', self.ipar(), '.xint'), za)
        self.same('growth:velocity', out[0], y[1], 'the first growth equation is not D\' = D\'')
        ix = inverse(add(ONE, x))
        want = add(scale(mul(mul(sub(ONE, mul(w, ix)), y[1]), inverse(av)), Fraction(-3, 2)), scale(mul(mul(mul(x, ix), y[0]), power(av, -2)), Fraction(3, 2)))
        self.same('growth:acceleration', out[1], want, 'the growth equation is not D\'\' = -3/2 (1 - w/(1+X)) D\'/a + 3/2 X/(1+X) D/a^2')

    def growth_solution(self):
        v, c = self.v, self.c
        ap = [i for i in self.f.insts() if i.op == 'call' and isinstance(i.x, Glob) and i.x.name == 'gsl_odeiv2_evolve_apply']
        if len(ap) != 1:
            raise AnalysisBroken('%d integrations of the growth equation' % len(ap))
        ap = ap[0]
        t, y = v.addr(ap.args[4]), v.addr(ap.args[7])
        if len(y) == 3 and isinstance(y[2], tuple) and not T.poly(y[2][1]):
            y = y[:2]
        if t[0] != 'local' or y[0] != 'local':
            raise AnalysisBroken('state of the growth equation')
        c.obligation('end of the integration')
        if v.num(ap.args[5]) != A('col', 'a') and not vanishes(sub(v.num(ap.args[5]), inverse(U))):
            self.bad('growth:end', 'the growth equation is integrated up to %s' % show(v.num(ap.args[5]))[:100])
        # start: matter domination, D = a; and it is set again for every sample
        st = lambda a: [i for i in self.f.insts() if i.op == 'store' and v.addr(i.args[1]) == a]
        s0 = [st(t), [i for i in self.f.insts() if i.op == 'store' and v.addr(i.args[1]) in (y, y + (('[]', T.intern(ZERO)),))], st(y + (('[]', T.intern(ONE)),))]
        vals = []
        zloop = None
        for h, body in v.loop_items():
            if self.zstore.block.name in body and (zloop is None or len(body) < len(zloop)):
                zloop = body
        for what, ss in zip(('the starting point', 'the growth', 'its derivative'), s0):
            inl = [i for i in ss if zloop and i.block.name in zloop]
            c.obligation('start of the integration')
            if zloop is None or any(i.op == 'call' and isinstance(i.x, Glob) and 'memcpy' in i.x.name and i.block.name in zloop and
                                    v.addr(i.args[0])[:2] in (t, y) for i in self.f.insts()):
                raise AnalysisBroken('start of the growth equation')
            if not inl:
                self.bad('growth:restart', '%s is not reset between samples: the integration only runs forward' % what)
                return
            vals.append(v.num(inl[-1].args[0]))
        if vals[0] != vals[1] or cval(vals[2]) != 1 or cval(vals[0]) is None or not 0 < cval(vals[0]) <= Fraction(1, 16):
            self.bad('growth:start', 'the growth starts at a = %s with D = %s, D\' = %s instead of D = a before the last sample' % tuple(show(x)[:30] for x in vals))
        D = self.only('D1')
        y0 = [A('cell', y + (('[]', T.intern(ZERO)),)), A('cell', y)]
        y1 = A('cell', y + (('[]', T.intern(ONE)),))
        c.obligation('D1')
        if D not in y0:
            self.bad('D1', 'the growth factor is %s' % show(D)[:100])
        f = self.only('f')
        ok = False
        for d in (A('col', 'D1'), *y0):
            for a in (A('col', 'a'), inverse(U)):
                ok = ok or vanishes(sub(f, mul(mul(y1, a), inverse(d))))
        c.obligation('f')
        if not ok:
            self.bad('f', 'the growth rate is %s instead of a D\'/D' % show(f)[:120])
        # normalisation
        other = [i for i in self.f.insts() if i.op == 'store' and self.column(v.addr(i.args[1])) == 'D1' and v.addr(i.args[1])[-1] != self.idx]
        c.obligation('normalisation of D1')
        if not other:
            self.bad('D1:norm', 'the growth factor is not normalised to 1 today')
            return
        if len(other) != 1:
            raise AnalysisBroken('normalisation of D1')
        i = other[0]
        a = v.addr(i.args[1])
        me = A('cell', a)
        zero = [A('cell', a[:-1]), A('cell', a[:-1] + (('[]', T.intern(ZERO)),))]
        val = v.num(i.args[0])
        if not any(vanishes(sub(val, mul(me, inverse(z)))) for z in zero):
            self.bad('D1:norm', 'the growth factor is normalised as %s' % show(val)[:120])
            return
        ph = [x for x in atoms(T.poly(a[-1][1])) if x[0] == 'loopphi'] if isinstance(a[-1], tuple) else []
        if len(ph) == 1:
            r = full_range(v, ph[0], cell('background_bins'))
            if r is False:
                self.bad('D1:norm:range', 'only a part of the growth factor is normalised')
            body = counted(v, v.f.defs[ph[0][2]])
            if body and cval(sub(T.poly(a[-1][1]), A(*ph[0]))) == 0:
                first = counted(v, v.f.defs[ph[0][2]])
                for ld in self.f.insts():
                    if ld.op == 'load' and ld.ty == 'double' and ld.block.name in body[4] and A('cell', v.addr(ld.args[0])) in zero and cval(first[0]) == 0 and first[1] > 0:
                        self.bad('D1:norm:first', 'the growth factor is divided by its first value after that value itself was normalised')

    # ---- splines
    def splines(self):
        v, c = self.v, self.c
        seen = {}
        for i in self.f.insts():
            if i.op == 'call' and isinstance(i.x, Glob) and i.x.name == 'coffe_init_spline':
                a = v.addr(i.args[0])
                if a[0] == 'struct' and a[1] == 'coffe_background_t':
                    seen.setdefault(a[-1][1:], []).append((self.column(v.addr(i.args[1])), self.column(v.addr(i.args[2])), v.num(i.args[3]), i))
        for n in self.P.fields['struct.coffe_background_t']:
            if n == 'flag':
                continue
            c.obligation('spline ' + n)
            s = seen.get(n, [])
            if not s:
                self.bad('spline:' + n, 'the interpolation of %s is never set up' % n)
                continue
            x, y, k, i = s[-1]
            want = ('comoving_distance', 'z') if n == 'z_as_chi' else ('z', n)
            if None in (x, y):
                raise AnalysisBroken('interpolation of ' + n)
            if (x, y) != want:
                self.bad('spline:' + n, 'the interpolation of %s goes through the points (%s, %s)' % (n, x, y))
            if k != cell('background_bins'):
                self.bad('spline:%s:size' % n, 'the interpolation of %s has %s points' % (n, show(k)[:60]))
        ph = [x for x in atoms(T.poly(self.idx[1])) if x[0] == 'loopphi']
        if len(ph) == 1 and T.poly(self.idx[1]) == A(*ph[0]):
            if full_range(self.v0, ph[0], cell('background_bins')) is False:
                self.bad('samples', 'the table of the background is not filled completely')
            c.obligation('all samples')

    def interpolation(self):
        """set-up and evaluation of a one-dimensional interpolation"""
        P, c = self.P, self.c
        f = P.funcs['coffe_init_spline']
        v = Val(P, f)
        for n, k in (('gsl_spline_alloc', 1), ('gsl_spline_init', 3)):
            for i in f.insts():
                if i.op == 'call' and isinstance(i.x, Glob) and i.x.name == n:
                    c.obligation(n)
                    if v.num(i.args[k]) != A('arg', 3):
                        c.find('coffe_init_spline:size', 'an interpolation is set up with another number of points', 'src/common.c coffe_init_spline')
                    if n == 'gsl_spline_init' and [v.addr(x) for x in i.args[1:3]] != [('arg', 1), ('arg', 2)]:
                        c.find('coffe_init_spline:points', 'an interpolation is set up with other points', 'src/common.c coffe_init_spline')
        g = P.funcs['coffe_interp_spline']
        v = Val(P, g)
        r = v.returned()
        ks = [T.keys[a] for m in r for a, e in m if e == 1]
        c.obligation('evaluation')
        if len(r) != 1 or len(ks) != 1 or ks[0][:2] != ('call', 'gsl_spline_eval') or r != A(*ks[0]):
            raise AnalysisBroken('coffe_interp_spline')
        if T.poly(ks[0][3]) != A('arg', 1):
            c.find('coffe_interp_spline:point', 'interpolations are evaluated at %s' % show(T.poly(ks[0][3]))[:80], 'src/common.c coffe_interp_spline')


def base(a):
    while len(a) > 1 and isinstance(a[-1], tuple) and a[-1][0] == '[]':
        a = a[:-1]
    return a


def column(a):
    """name of the background column an address lies in"""
    if a[0] == '*' and isinstance(a[1], tuple) and a[1][0] in ('heap', 'local') and isinstance(a[1][-1], str) and a[1][-1].startswith('.'):
        return a[1][-1][1:]
    return None


QUERY = {'comoving_distance': 'comoving_distance', 'hubble_rate': 'Hz', 'scale_factor': 'a', 'hubble_rate_conformal': 'conformal_Hz',
         'hubble_rate_conformal_derivative': 'conformal_Hz_prime', 'growth_factor': 'D1', 'growth_rate': 'f'}


def queries(c):
    import pysym
    M = pysym.Model()
    I = pysym.Interp(M)
    n = 0
    for lab, fn_, kind in M.public_entries():
        if lab not in QUERY:
            continue
        for p in I.run(fn_):
            if p.exit == 'raise':
                continue
            n += 1
            c.obligation(lab)
            r = p.ret
            if not r or r[0] != 'ccall' or r[1] != 'coffe_interp_spline' or r[2][0][0] != 'addr':
                c.cov.setdefault('undecided', []).append('query ' + lab)
                continue
            if r[2][0][1] != ('_background', QUERY[lab]):
                c.find('query:' + lab, '%s returns %s' % (lab, r[2][0][1][-1]), 'python/coffe/coffe.pyx ' + lab)
            if r[2][1] != ('arg', 'z'):
                c.find('query:%s:point' % lab, '%s is evaluated at another redshift' % lab, 'python/coffe/coffe.pyx ' + lab)
    c.need(n, 'background queries', 7)


if __name__ == '__main__':
    common.main('C15', run)
