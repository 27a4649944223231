"""C21: a power spectrum supplied by the user is the one that is used, until something it depends on changes."""
import ast, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir, fields, irbuild, pysym
from ir import AnalysisBroken, Glob, Const
from c01_fresh import class_fields, PSFIELDS, PS, overlaps
from c03_readback import Post, simp, peel, walk, at
import poly

PYX = 'python/coffe/coffe.pyx'
SET = 'set_power_spectrum_linear'
# parts of the cosmology: the spectrum belongs to one cosmology
COSMOLOGY = re.compile(r'^(Omega0_\w+|h|w0|wa|m_ncdm|n_s|sigma8|A_s|T_cmb|N_ur|N_ncdm|YHe)$')
TABLES = ('power_spectrum', 'power_spectrum_norm')


def run(c):
    M = pysym.Model()
    deps = class_fields(irbuild.REPO)
    c.need(len(deps), 'settings the spectrum depends on', 10)
    c.part('survival', survival, c, M, deps)
    c.part('supplied', supplied, c, M)
    c.part('queries', queries, c, M)
    c.part('library', library, c)
    c.cover(explanation='every path of the front end: what happens to the supplied spectrum, whether the setting it changes is one the spectrum is computed from; the arrays handed over; '
            'the values the queries return; every place of the library that writes a spectrum', spectrum_depends_on=sorted('.'.join(d) for d in deps))


def effects(p):
    """(dropped at the end, lines, the fields written)"""
    gone, line, fs, rebuilt = False, None, set(), set()
    for e in p.events:
        if e.kind == 'write':
            if e.a == (PS,):
                if e.b == ('const', 0):
                    gone, line = True, e.line
                elif e.b == ('const', 1) and rebuilt >= set(TABLES):
                    gone = False
            elif e.a[0] == '_parameters':
                fs.add(tuple(x for x in e.a[1:] if isinstance(x, str)))
        elif e.kind == 'ccall':
            tgt = [a[1] for a in e.b if a[0] == 'addr' and len(a[1]) > 1 and a[1][0] == '_parameters' and a[1][1] in PSFIELDS]
            if tgt and ('free' in e.a):
                gone, line = True, e.line
                rebuilt -= {t[1] for t in tgt}
            elif tgt and 'init_spline' in e.a:
                rebuilt |= {t[1] for t in tgt}
                if not gone:
                    gone, line = True, e.line
            elif e.a == 'parse_external_power_spectrum':
                if not absent(p, e):
                    gone, line = True, e.line
    return gone, line, fs


def absent(p, upto):
    """the path has found out before that there is no spectrum"""
    def no(t, pol):
        if t[0] == 'not':
            return no(t[1], not pol)
        if t[0] == 'and' and pol or t[0] == 'or' and not pol:
            return any(no(x, pol) for x in t[1])
        if t[0] == 'cmp' and len(t) == 4 and ('init', (PS,)) in t[2:] and ('const', 0) in t[2:]:
            return (t[1] == 'Eq') == pol if t[1] in ('Eq', 'NotEq') else False
        return t == ('init', (PS,)) and not pol
    for e in p.events:
        if e is upto:
            return False
        if e.kind == 'cond' and no(e.a, e.b):
            return True
        if e.kind == 'write' and e.a == (PS,) and e.b == ('const', 0):
            return True
    return False


def survival(c, M, deps):
    I = pysym.Interp(M)
    n = drops = 0
    for label, fn, kind in M.public_entries():
        if label in ('from_file', 'to_file', '__dealloc__', '__cinit__', '__init__', SET) or label.startswith('_') or label == 'set_parameters':
            continue
        n += 1
        if label == 'parameters.get':
            c.obligation({'entry': label})
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr') and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == 'self':
                    c.find('parameters:writes', 'reading the parameters sets the properties of the object, which discards the supplied power spectrum', '%s:%s' % (PYX, x.lineno))
            continue
        for p in I.run(fn):
            if p.exit not in ('return', 'raise', None):
                continue
            gone, line, fs = effects(p)
            c.obligation({'entry': label} if gone else None)
            if not gone:
                continue
            drops += 1
            if kind == 'get' or not any(overlaps(f, d) for f in fs for d in deps) and not any(COSMOLOGY.match(f[0]) for f in fs if f):
                what = 'changes %s, which the spectrum does not depend on' % ', '.join('.'.join(f) for f in sorted(fs)) if fs else 'changes no setting'
                c.find('%s:drops' % label, '%s %s, and discards the supplied power spectrum' % (label, what), '%s:%s' % (PYX, line))
            elif p.exit == 'raise' and p.ret is not None:
                c.find('%s:raises' % label, '%s can fail after it has discarded the power spectrum' % label, '%s:%s' % (PYX, line))
    c.need(n, 'entries', 60)


def arrays(p, e, names):
    post = Post(p)
    out = []
    for k in (1, 2):
        b = e.b[k]
        ptr = b
        while b[0] == 'cast':
            b = b[2]
        out.append([(simp(ix), peel(simp(v))[0]) for ix, v in post.buf.get(ptr) or post.buf.get(b) or []])
    return out


def supplied(c, M):
    f = M.methods.get(SET)
    c.need(1 if f else 0, 'the spectrum can be supplied', 1)
    names = [x.arg for x in f.args.posonlyargs + f.args.args][1:]
    K, PK = ('arg', names[0]), ('arg', names[1])
    Z = ('arg', names[2]) if len(names) > 2 else None
    loc = '%s:%s' % (PYX, f.lineno)
    I = pysym.Interp(M)
    done = 0
    seenz = False
    paths = list(I.run(f))
    seenz_any = bool(Z) and any(Z in set(walk(v)) for p in paths for e in p.events if e.kind == 'bufwrite' for v in (e.a, e.b) if isinstance(v, tuple))
    for p in paths:
        if p.exit != 'return':
            if effects(p)[0] and p.exit == 'raise':
                c.find('supplied:atomic', 'a rejected power spectrum has already replaced the previous one', loc)
            continue
        done += 1
        zpos = Z and any(sign(e, Z) for e in p.events if e.kind == 'cond')
        seenz = seenz or bool(Z and any(Z in set(walk(v)) for e in p.events if e.kind == 'bufwrite' for v in (e.a, e.b) if isinstance(v, tuple)))
        seen = set()
        for e in p.events:
            if e.kind != 'ccall' or e.a != 'coffe_init_spline' or e.b[0][:1] != ('addr',):
                continue
            t = e.b[0][1]
            seen.add(t[1])
            xs, ys = arrays(p, e, names)
            c.obligation({'table': t[1]})
            for what, ws, want in (('wavenumbers', xs, K), ('values', ys, PK)):
                if not ws:
                    raise AnalysisBroken('the array of %s of %s' % (what, t[1]))
                for ix, v in ws:
                    q = poly.of_term(strip(v))
                    r = poly.P.atom(('at', want, ix))
                    if q == r:
                        if want == PK and Z and seenz_any and not at_zero(p, Z):
                            c.find('supplied:redshift:some', 'the spectrum given at some redshifts is stored as if it were given at redshift zero', loc)
                        continue
                    if want == PK and Z:
                        d = growth(q, r, Z)
                        if d is not None:
                            if not d:
                                c.find('supplied:redshift', 'the spectrum given at a redshift is not brought to redshift zero with the square of the growth factor', loc)
                            continue
                    if not {K, PK} & set(walk(v)):
                        raise AnalysisBroken('the %s of %s are %s' % (what, t[1], str(v)[:100]))
                    c.find('supplied:%s:%s' % (t[1], what), 'the %s of the supplied spectrum are not stored as given in %s' % (what, t[1]), loc)
        for t in TABLES:
            if t not in seen:
                c.find('supplied:%s' % t, 'the supplied spectrum does not replace %s' % t, loc)
        end = p.store.get((PS,))
        c.obligation()
        if end != ('const', 1):
            c.find('supplied:flag', 'the supplied spectrum is not marked as present, so that the next computation replaces it', loc)
        for fld, i in (('k_min', 0), ('k_max', -1), ('k_min_norm', 0), ('k_max_norm', -1)):
            v = p.store.get(('_parameters', fld))
            c.obligation()
            if v is None:
                c.find('supplied:%s' % fld, 'supplying a spectrum leaves the range of wavenumbers (%s) as it was' % fld, loc)
                continue
            v = peel(simp(v))[0]
            ok = {0: [('at', K, ('const', 0))], -1: [('at', K, ('const', -1))]}[i]
            if i == -1 and v[0] == 'at' and v[1] == K and poly.of_term(v[2]) + poly.P.const(1) in (poly.P.atom(('len', K)), poly.P.atom(('call', 'len', (K,)))):
                continue
            if v not in ok and not (v[0] == 'call' and v[1] in (('min', 'np.min') if i == 0 else ('max', 'np.max'))):
                if K not in set(walk(v)) and PK not in set(walk(v)):
                    raise AnalysisBroken('%s is %s' % (fld, str(v)[:100]))
                c.find('supplied:%s' % fld, 'the range of wavenumbers (%s) is not that of the supplied spectrum' % fld, loc)
    if Z and not seenz:
        c.find('supplied:redshift:ignored', 'the redshift at which the spectrum is given is ignored', loc)
    c.need(done, 'paths that store a spectrum', 1)


def sign(e, Z):
    return Z in set(walk(e.a))


def strip(v):
    """without the conversions to float"""
    while isinstance(v, tuple) and v and v[0] == 'call' and v[1] in ('float', 'np.float64') and len(v[2]) == 1:
        v = v[2][0]
    return tuple(strip(x) if isinstance(x, tuple) else x for x in v) if isinstance(v, tuple) else v


def zero(t, val, Z):
    """the outcome of this condition leaves only redshift zero"""
    while t[0] == 'not':
        t, val = t[1], not val
    if Z not in set(walk(t)):
        return False
    if t[0] in ('and', 'or'):
        sub = [zero(x, val, Z) for x in t[1]]
        return any(sub) if (t[0] == 'and') == bool(val) else all(sub)
    if t == Z:
        return not val
    if t[0] == 'cmp' and t[2] == Z and t[3][0] == 'const':
        return t[3][1] == 0 and (t[1] in ('Gt', 'NotEq') and not val or t[1] in ('Eq', 'LtE') and val)
    if t[0] == 'cmp' and t[3] == Z and t[2][0] == 'const':
        return t[2][1] == 0 and (t[1] in ('Lt', 'NotEq') and not val or t[1] in ('Eq', 'GtE') and val)
    if t[0] == 'call' and t[1] in ('np.isclose', 'np.allclose', 'math.isclose') and (('const', 0) in t[2] or ('const', 0.0) in t[2]):
        return bool(val)
    if t[0] == 'cmp' and t[2] == t[3] or t[0] == 'call' and t[1] in ('isinstance', 'np.isfinite', 'math.isfinite', 'np.isnan', 'math.isnan'):
        return False
    raise AnalysisBroken('condition on the redshift of the spectrum: %s' % str(t)[:100])


def at_zero(p, Z):
    """the path is taken only for a spectrum given at redshift zero"""
    for e in p.events:
        if e.kind != 'cond' or Z not in set(walk(e.a)):
            continue
        if zero(e.a, e.b, Z):
            return True
    return False


def growth(q, r, Z):
    """True if q = r / D1(z)^2, False if some other power of it, None if not of this form"""
    d = q / r
    if d is None or not d.monomial():
        return None
    (m, co), = d.t.items()
    for a, e in m:
        if not (isinstance(a, tuple) and a[0] == 'ccall' and a[1] == 'coffe_interp_spline' and a[2][0] == ('addr', ('_background', 'D1'))):
            return None
        if a[2][1] != Z:
            return False
    return co == 1 and len(m) == 1 and m[0][1] == -2


def queries(c, M):
    I = pysym.Interp(M)

    def sp(t, x): return poly.P.atom(('ccall', 'coffe_interp_spline', (('addr', t), ('arg', x))))
    want = {'power_spectrum': sp(('_parameters', 'power_spectrum'), 'k') * sp(('_background', 'D1'), 'z') * sp(('_background', 'D1'), 'z'),
            'cross_spectrum': sp(('_parameters', 'power_spectrum'), 'k') * sp(('_background', 'D1'), 'z1') * sp(('_background', 'D1'), 'z2')}
    for name, w in want.items():
        f = M.methods.get(name)
        c.need(1 if f else 0, name, 1)
        n = 0
        for p in I.run(f):
            if p.exit != 'return':
                continue
            lin = any(linear(e.a, e.b) for e in p.events if e.kind == 'cond')
            r = strip(p.ret)
            two = any(t[:2] == ('ccall', 'coffe_interp_spline2d') for t in walk(r))
            if name == 'power_spectrum' and two:
                c.obligation()
                if lin or r != ('ccall', 'coffe_interp_spline2d', (('addr', ('_parameters', 'power_spectrum2d')), ('arg', 'z'), ('arg', 'k'))):
                    c.find('%s:nonlinear' % name, 'the nonlinear spectrum is not the table at the redshift and wavenumber asked for', '%s:%s' % (PYX, f.lineno))
                continue
            n += 1
            c.obligation({'query': name})
            q = poly.of_term(r)
            if not (q == w):
                if any(t[:1] in (('unk',), ('opaque',)) for t in walk(r)):
                    raise AnalysisBroken(name)
                c.find('%s:value' % name, '%s is not the supplied spectrum times the growth factors' % name, '%s:%s' % (PYX, f.lineno))
        c.need(n, 'paths of %s' % name, 1)
    # the range the user is told
    for name in ('k_min', 'k_max'):
        f = M.props.get(name, {}).get('get')
        c.need(1 if f else 0, name, 1)
        for p in I.run(f):
            c.obligation()
            if p.exit == 'return' and peel(p.ret)[0] != ('init', ('_parameters', name)):
                c.find('%s:value' % name, '%s is not the end of the range of the spectrum' % name, '%s:%s' % (PYX, f.lineno))


def linear(t, pol):
    if t[0] == 'not':
        return linear(t[1], not pol)
    if t[0] == 'and' and pol or t[0] == 'or' and not pol:
        return any(linear(x, pol) for x in t[1])
    if t[0] == 'cmp' and len(t) == 4 and ('init', ('_parameters', 'pk_type')) in t[2:] and any('COFFE_PK_LINEAR' == str(x[1]).rsplit('.', 1)[-1] for x in t[2:] if x[0] == 'name'):
        return (t[1] == 'Eq') == pol if t[1] in ('Eq', 'NotEq') else False
    return False


def library(c):
    """no computation of the library writes the spectrum of the settings"""
    P = ir.Program()
    E = fields.Effects(P)
    n = 0
    for f in P.funcs.values():
        free = f.name == 'coffe_parameters_free' or f.name in ('coffe_parse_default_parameters', 'coffe_parser_init', 'parse_external_power_spectrum', 'main')
        for i in f.insts():
            ptrs = []
            if i.op == 'store':
                ptrs = [i.args[1]]
            elif i.op == 'call' and isinstance(i.x, Glob):
                g = P.resolve(f, i.x.name)
                mod = E.mr.mod[g.qname] if g is not None else None
                for k, a in enumerate(i.args):
                    if (k in mod if mod is not None else i.x.name in ('memcpy', 'memset', 'llvm.memcpy.p0.p0.i64', 'gsl_spline_init', 'gsl_spline_free', 'free')):
                        ptrs.append(a)
            for a in ptrs:
                try:
                    path = fields.field_path(P, f, a)
                except AnalysisBroken:
                    path = None
                if path and path[0] == 'coffe_parameters_t' and len(path) > 1 and path[1] in PSFIELDS:
                    n += 1
                    if not free:
                        c.find('library:%s' % f.name, '%s writes the power spectrum of the settings' % f.name, f.loc(i))
        c.obligation()
    c.need(n, 'places that set up the spectrum', 1)


if __name__ == '__main__':
    common.main('C21', run)
