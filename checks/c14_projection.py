"""C14: multipoles are Legendre projections of the correlation function; line-of-sight integrals run over the whole line of sight."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken, Glob, Reg, Const
from val import *
from terms import *

TEST = 'coffe_integration_parameters_t'
KINDS = (('NONINTEGRATED', 0), ('SINGLE_INTEGRATED', 1), ('DOUBLE_INTEGRATED', 2))
TEXT = {'CORRFUNC': 'correlation function', 'MULTIPOLES': 'multipoles', 'AVERAGE_MULTIPOLES': 'redshift-averaged multipoles'}
ONED = {'coffe_integrate_1d_prec_gsl', 'coffe_integrate_1d_prec_double_exponential'}
MULTI = 'coffe_integrate_multidimensional'
ARGS = ('par', 'bg', 'integral', 'z_mean', 'z_min', 'z_max', 'sep', 'mu', 'l')
RANGE = range(0, 9)


def run(c):
    P = ir.Program('inline')
    c.part('quadrature', quadrature, c, P)
    drv = P.funcs.get('coffe_integrate')
    if drv is None or len(drv.params) != len(ARGS) + 2:
        raise AnalysisBroken('coffe_integrate has another interface')
    n = [0]
    for out in TEXT:
        for kind, nlos in KINDS:
            c.part('%s %s' % (out, kind), decide, c, P, drv, out, kind, nlos, n)
    c.part('interface', interface, c, P)
    if 'undecided' not in c.cov:
        c.need(n[0], 'integrals', 50)
    c.cover(integrals=n[0], orders=list(RANGE), explanation='value of coffe_integrate in normal form for every kind of term, output and order l: each integral is resolved to its integrand, '
            'the fields of the parameter block to the arguments; Jacobian, angle, Legendre weight, redshift window, limits and line-of-sight variables are compared exactly')
    c.assumptions.append('GSL and the tanh-sinh routine integrate the function they are given between the limits they are given')


def decide(c, P, drv, out, kind, nlos, n):
    params = {9: const(P.enums[kind]), 10: const(P.enums[out])}
    where = 'src/signal.c coffe_integrate'
    found = {}          # integral -> {interned weight: weight}
    stores = {}
    for on in [CON] + list(itertools.combinations_with_replacement(CON, 2)):
        def bind(k):
            if k[0] == 'cell':
                nm = setting(k) or ''
                if nm == 'output_type':
                    return const(P.enums[out])
                if nm.startswith('correlation_contrib.'):
                    return const(int(nm.split('.')[1] in on))
            if k[0] == 'arg':
                return A('given', ARGS[k[1]]) if k[1] < len(ARGS) else None
            return None
        v = Val(P, drv, params=params, bind=bind)
        r = v.returned()
        stores.update(blocks(v))
        by = {}
        for m, cf in r.items():
            calls = [(a, e) for a, e in m if T.keys[a][0] == 'call']
            if len(calls) != 1 or calls[0][1] != 1:
                raise AnalysisBroken('not linear in one integral: ' + show({m: cf}, 1)[:160])
            ind = frozenset(x[0] for x in m if x[0] in T.ind)
            by.setdefault(calls[0][0], []).append((ind, tuple(x for x in m if x[0] != calls[0][0] and x[0] not in T.ind), cf))
        for a, ws in by.items():
            if T.keys[a][1] in FLAT:
                continue                                  # closed forms; see the flat-sky property
            other = sorted(set().union(*[i for i, _, _ in ws]))
            if len(other) > 8:
                raise AnalysisBroken('%d switches select an integral' % len(other))
            for bits in itertools.product((0, 1), repeat=len(other)):
                o = {x for x, y in zip(other, bits) if y}
                w = {}
                for i, r_, cf in ws:
                    if i <= o:
                        w[r_] = (w.get(r_, 0) + cf) % Q
                w = {k: x for k, x in w.items() if x}
                if w:
                    found.setdefault(a, {})[T.intern(w)] = w
    for a, vals in found.items():
        key = T.keys[a]
        ws = list(vals.values())
        for l in RANGE if out != 'CORRFUNC' else (0,):
            c.part('%s %s l=%d' % (out, kind, l), one, c, P, drv, out, kind, nlos, l, key, a, ws, stores, where, n)


def given(l):
    return rewriter(lambda k: const(l) if k == ('given', 'l') else None)


def one(c, P, drv, out, kind, nlos, l, key, call, ws, stores, where, n):
    name = key[1]
    label = '%s %s l=%d' % (TEXT[out], kind.lower().replace('_', ' '), l)
    if name in FAMILY:
        lim, dims, res = [], 0, {((call, 1),): 1}
    elif name in ONED or name == MULTI:
        integ = key[2]
        if integ[0] != 'glob':
            raise AnalysisBroken('unknown integrand of ' + name)
        f = P.resolve(drv, integ[1])
        if f is None:
            raise AnalysisBroken('no integrand ' + integ[1])
        par = key[3]
        if par not in stores:
            raise AnalysisBroken('parameters of ' + name)
        if name in ONED:
            dims, var, lim, pidx = 1, [('arg', 0)], [(T.poly(key[4]), T.poly(key[5]))], 1
        else:
            d = cval(T.poly(key[5]))
            if d is None:
                raise AnalysisBroken('dimension of ' + name)
            dims, pidx = int(d), 2
            var = [('cell', ('arg', 0) + ((('[]', T.intern(const(q))),) if q else ())) for q in range(max(dims, 6))]
            lim = [(ZERO, ONE)] * dims
        res = given(l)(integrand_of(P, f, stores[par], pidx, var, l))
        if any(T.keys[a][0] == 'call' and T.keys[a][1] in FLAT for mm in res for a, _ in mm):
            return
    else:
        raise AnalysisBroken('coffe_integrate calls ' + name)
    for w in ws:
        n[0] += 1
        c.obligation(label)
        w = given(l)(w)
        check(c, P, label, out, kind, nlos, l, w, res, dims, lim, where)


def blocks(v):
    """the parameter blocks of coffe_integrate: address -> {field: ('num', poly) | ('ptr', address)}"""
    out = {}
    for i in v.f.insts():
        if i.op == 'store':
            a = v.addr(i.args[1])
            if a[0] == 'local' and len(a) == 3 and isinstance(a[2], str):
                d = out.setdefault(a[:2], {})
                x = value(v, i.args[0], (i.argtys or [None])[0])
                if a[2] in d and d[a[2]] != x:
                    raise AnalysisBroken('parameter %s is set twice' % a[2])
                d[a[2]] = x
    return out


def ptr(a):
    """the pointers every function gets"""
    names = {0: PAR, 1: 'coffe_background_t', 2: 'coffe_integral_array_t'}
    if a[0] == 'arg' and a[1] in names:
        return ('struct', names[a[1]])
    return a


def integrand_of(P, f, fields, pidx, var, l):
    vs = {k: A('var', q) for q, k in enumerate(var)}

    def bind(k):
        if k in vs:
            return vs[k]
        if k[0] == 'cell' and k[1][0] == 'struct' and k[1][1] == TEST and len(k[1]) == 3:
            x = fields.get(k[1][2], ('num', ZERO))        # members without an initialiser are zero
            if x[0] != 'num':
                raise AnalysisBroken('%s is not a number' % k[1][2])
            return const(l) if x[1] == A('given', 'l') else x[1]
        return None

    def abind(a):
        if a[0] == 'struct' and a[1] == TEST and len(a) == 3:
            x = fields.get(a[2])
            if x and x[0] == 'ptr':
                return ptr(x[1])
        return None
    return Val(P, f, bind=bind, abind=abind).returned()


def check(c, P, label, out, kind, nlos, l, weight, res, dims, lim, where):
    fam = FAMILY[nlos]
    tot = {}
    call = None
    for m, cf in res.items():
        calls = [(a, e) for a, e in m if T.keys[a][0] == 'call']
        if len(calls) != 1 or calls[0][1] != 1:
            raise AnalysisBroken('integrand is not linear in the signal: ' + show({m: cf}, 1)[:160])
        if call is not None and call != calls[0][0]:
            raise AnalysisBroken('integrand evaluates the signal at several points')
        call = calls[0][0]
        tot[tuple(x for x in m if x[0] != call)] = cf
    key = T.keys[call]
    if key[1] != fam:
        c.find('%s:%s:%s' % (out, kind, key[1]), 'the %s terms of the %s are computed from %s' % (kind.lower().replace('_', ' '), TEXT[out], key[1]), where)
        return
    for q, (a, s) in enumerate(zip(key[2:5], (PAR, 'coffe_background_t', 'coffe_integral_array_t'))):
        a = ptr(a)
        if a[0] == 'struct' and a != ('struct', s):
            c.find('%s:%s:arguments' % (out, kind), '%s is called with the wrong %s' % (fam, s), where)
    z, mu, sep = (T.poly(x) for x in key[5:8])
    los = [T.poly(x) for x in key[8:]]
    tag = '%s:%s' % (out, kind)
    if len(los) != nlos:
        raise AnalysisBroken(fam + ' has another interface')

    def bad(what, msg):
        c.find(tag + ':' + what, 'the %s: %s' % (label, msg), where)
    if sep != A('given', 'sep'):
        bad('separation', 'evaluated at the separation %s' % show(sep))
    used = []
    jac = ONE

    def affine(p, what):
        """variable, slope and offset of an affine function of one integration variable"""
        vs = sorted({T.keys[a][1] for k in [p] for m in k for a, _ in m if T.keys[a][0] == 'var'})
        if len(vs) != 1:
            return None
        a = T.atom('var', vs[0])
        off = {m: q for m, q in p.items() if not any(x == a for x, _ in m)}
        sl = {}
        for m, q in p.items():
            e = dict(m).get(a)
            if e == 1:
                sl[tuple(x for x in m if x[0] != a)] = q
            elif e is not None:
                return None
        if any(k[0] == 'var' and k[1] != vs[0] for k in atoms(p)):
            return None
        return vs[0], sl, off

    def at(p, q, x):
        a = T.atom('var', q)
        r = {}
        for m, cf in p.items():
            d = dict(m)
            e = d.pop(a, 0)
            r = add(r, mul({tuple(sorted(d.items())): cf}, power(x, e)))
        return r
    # the angle
    if out == 'CORRFUNC':
        if mu != A('given', 'mu'):
            bad('angle', 'evaluated at the angle %s' % show(mu))
    else:
        t = affine(mu, 'mu')
        if t is None or t[0] >= dims:
            bad('angle', 'the angle %s does not run over an integration variable' % show(mu))
            return
        ends = [at(mu, t[0], x) for x in lim[t[0]]]
        if sorted(str(cval(x)) for x in ends) != ['-1', '1']:
            bad('angle', 'the angle runs from %s to %s' % (show(ends[0]), show(ends[1])))
        jac = mul(jac, scale(t[1], 1 if cval(ends[1]) == 1 else -1))
        jac = mul(jac, scale(legendre(l, mu), Fraction(2 * l + 1, 2)))
        used.append(t[0])
    # the redshift
    if out != 'AVERAGE_MULTIPOLES':
        if z != A('given', 'z_mean'):
            bad('redshift', 'evaluated at the redshift %s' % show(z))
    else:
        t = affine(z, 'z')
        if t is None or t[0] >= dims:
            bad('redshift', 'the redshift %s does not run over an integration variable' % show(z))
            return
        ends = [at(z, t[0], x) for x in lim[t[0]]]
        chi = lambda y: A('spline', ('struct', 'coffe_background_t', '.comoving_distance'), T.intern(y))
        zat = lambda y: A('spline', ('struct', 'coffe_background_t', '.z_as_chi'), T.intern(y))
        want = [zat(add(chi(A('given', 'z_min')), scale(A('given', 'sep'), Fraction(1, 2)))),
                zat(sub(chi(A('given', 'z_max')), scale(A('given', 'sep'), Fraction(1, 2))))]
        if ends != want and ends != want[::-1]:
            bad('redshift', 'the window runs from %s to %s' % (show(ends[0]), show(ends[1])))
        # averaged over the window: the measure dz / (z2 - z1) is that of the unit interval
        ln = sub(*reversed(lim[t[0]]))
        jac = mul(jac, inverse(ln))
        H = A('spline', ('struct', 'coffe_background_t', '.conformal_Hz'), T.intern(z))
        win = div(mul(A('cell', ('struct', PAR, '.h')), const(Fraction(1))), mul(H, add(ONE, z)))
        win = mul(win, {((T.atom('c/H'), -1),): 1})
        jac = mul(jac, win)
        used.append(t[0])
    for x in los:
        t = affine(x, 'line of sight')
        if t is None or t[0] >= dims or t[0] in used:
            bad('line-of-sight', 'the position %s does not run over an integration variable of its own' % show(x))
            return
        ends = [cval(at(x, t[0], y)) for y in lim[t[0]]]
        if sorted(map(str, ends)) != ['0', '1']:
            bad('line-of-sight', 'the line of sight runs from %s to %s instead of the whole distance' % tuple(ends))
        jac = mul(jac, scale(t[1], 1 if ends[1] == 1 else -1))
        used.append(t[0])
    if sorted(used) != list(range(dims)):
        bad('variables', '%d integration variables, %d used' % (dims, len(used)))
    got = mul(weight, tot)
    if got != jac:
        d = sub(got, jac)
        if opaque(d):
            raise AnalysisBroken('weight of the integrand: ' + show(got, 2)[:200])
        bad('weight', 'weight %s instead of %s' % (show(got, 3)[:160], show(jac, 3)[:160]))


QUAD = {'gsl_integration_qag': (0, 1, 2, 4, 8), 'gsl_integration_qags': (0, 1, 2, 4, 7), 'gsl_integration_cquad': (0, 1, 2, 4, 6), 'gsl_integration_qng': (0, 1, 2, 4, 5)}


def quadrature(c, P):
    """the wrappers integrate the function they are given, with its parameters, over the limits they are given"""
    n = 0
    for name in sorted(ONED | {MULTI}):
        f = P.funcs.get(name)
        if f is None:
            continue
        v = Val(P, f)
        found = 0
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.x, Glob):
                continue
            q = i.x.name
            if name in ONED and q == 'tanhsinh_quad':
                found += 1
                c.obligation(name)
                if v.addr(i.args[0]) != ('arg', 0) or v.addr(i.args[1]) != ('arg', 1):
                    c.find(name + ':function', '%s integrates another function or with other parameters' % name, 'src/common.c ' + name)
                if v.num(i.args[2]) != A('arg', 2) or v.num(i.args[3]) != A('arg', 3):
                    c.find(name + ':limits', '%s integrates over other limits' % name, 'src/common.c ' + name)
                continue
            if name in ONED and q in QUAD or name == MULTI and q.startswith('gsl_monte_') and q.endswith('_integrate'):
                found += 1
                c.obligation(name + ' ' + q)
                s = local_stores(v, v.addr(i.args[0]))
                fn_ = [v.addr(x.args[0]) for k, xs in s.items() if k in ((), ('.function',), ('.f',)) for x in xs]
                pr = [v.addr(x.args[0]) for k, xs in s.items() if k == ('.params',) for x in xs]
                if fn_ != [('arg', 0)] or pr != [('arg', 1)]:
                    if len(fn_) != 1 or len(pr) != 1:
                        raise AnalysisBroken(name + ': parameters of the integrand')
                    c.find(name + ':function', '%s integrates another function or with other parameters' % name, 'src/common.c ' + name)
                if name in ONED:
                    if [v.num(i.args[k]) for k in QUAD[q][1:3]] != [A('arg', 2), A('arg', 3)]:
                        c.find(name + ':limits', '%s integrates over other limits' % name, 'src/common.c ' + name)
                    if v.num(i.args[QUAD[q][3]]) != A('arg', 4):
                        c.find(name + ':precision', '%s does not use the relative precision it is given' % name, 'src/common.c ' + name)
                    res = v.addr(i.args[QUAD[q][4]])
                else:
                    dims = [v.num(x.args[0]) for k, xs in s.items() if k == ('.dim',) for x in xs]
                    if dims != [A('arg', 3)] or v.num(i.args[3]) != A('arg', 3):
                        c.find(name + ':dimension', '%s integrates over another number of variables' % name, 'src/common.c ' + name)
                    for k, want, txt in ((1, 0, 'lower'), (2, 1, 'upper')):
                        ends = [v.num(x.args[0]) for xs in local_stores(v, v.addr(i.args[k])).values() for x in xs]
                        if not ends:
                            raise AnalysisBroken(name + ': limits')
                        if any(cval(x) != want for x in ends):
                            c.find('%s:%s' % (name, txt), '%s has the %s limit %s' % (name, txt, show(ends[0])), 'src/common.c ' + name)
                    if v.num(i.args[4]) != A('arg', 4):
                        c.find(name + ':bins', '%s does not use the number of evaluations it is given' % name, 'src/common.c ' + name)
                    res = v.addr(i.args[-2])
                r = v.returned()
                if r != A('cell', res):
                    c.find(name + ':result', '%s returns %s instead of the integral' % (name, show(r)), 'src/common.c ' + name)
        if not found:
            raise AnalysisBroken('no quadrature in ' + name)
        n += found
    c.need(n, 'quadratures', 3)


def interface(c, P):
    """the initialisers hand each value its own point"""
    for fn_, names in (('coffe_corrfunc_init', {'z_mean': 3, 'separation': 6, 'mu': 7}), ('coffe_multipoles_init', {'z_mean': 3, 'separation': 6, 'l': 8}),
                       ('coffe_average_multipoles_init', {'z_min': 4, 'z_max': 5, 'separation': 6, 'l': 8})):
        f = P.funcs.get(fn_)
        if f is None:
            raise AnalysisBroken('no function ' + fn_)
        v = Val(P, f)
        for i in f.insts():
            if i.op != 'call' or not isinstance(i.x, Glob) or i.x.name != 'coffe_integrate':
                continue
            res = users(v, i)
            if res is None:
                raise AnalysisBroken('result of coffe_integrate in ' + fn_)
            for nm, k in names.items():
                c.obligation('%s %s' % (fn_, nm))
                p = v.num(i.args[k])
                key = T.keys[next(iter(p))[0][0]] if len(p) == 1 and len(next(iter(p))) == 1 else None
                if not key or key[0] != 'cell' or '.coords' not in key[1]:
                    raise AnalysisBroken('%s: argument %s' % (fn_, nm))
                if key[1][-1] != '.' + nm:
                    c.find('%s:%s' % (fn_, nm), '%s passes %s as %s' % (fn_, key[1][-1][1:], nm), fn_)
                elif key[1][:-2] != res[:-1]:
                    c.find('%s:%s' % (fn_, nm), '%s stores the value of one point with another one' % fn_, fn_)


def users(v, i):
    """address of the .value the result of i is stored (or added) to"""
    for u in v.f.insts():
        if u.op == 'store' and isinstance(u.args[0], Reg):
            a = v.addr(u.args[1])
            if str(a[-1]) == '.value' and any(T.keys[x][0] == 'call' for m in v.num(u.args[0]) for x, _ in m):
                x = u.args[0].name
                seen = {x}
                st = [x]
                while st:
                    d = v.f.defs.get(st.pop())
                    if d is None:
                        continue
                    if d is i:
                        return a
                    for y in d.args:
                        if isinstance(y, Reg) and y.name not in seen:
                            seen.add(y.name)
                            st.append(y.name)
    return None


if __name__ == '__main__':
    common.main('C14', run)
