"""C02: settings and point queries accept exactly their documented domain; a rejected call changes nothing.

Interval / type-set abstract interpretation of the tests on every abstract path of each public entry of the Cython
front end, and an effect order analysis: nothing that can still raise may follow the first lasting effect."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common, domain, pysym
from domain import INF
from ir import AnalysisBroken

PYX = 'python/coffe/coffe.pyx'
N = ('int', 'float')
IMAX = 2147483647
# setting -> (kind, types, lo, lo_open, hi, hi_open)
SETTINGS = {
    'integrals_fftlog_sampling': ('scalar', ('int',), 0, 0, 1000000, 0),
    'covariance_integration_sampling': ('scalar', ('int',), 0, 0, 1000000, 0),
    'integration_1d_prec': ('scalar', ('float',), 0, 0, 1, 0),
    'integration_sampling': ('scalar', ('int',), 0, 0, IMAX, 0),
    'background_sampling': ('scalar', ('int',), 0, 0, IMAX, 0),
    'N_ncdm': ('scalar', ('int',), -100, 0, 100, 0),
    'h': ('scalar', N, 0, 0, 100, 0),
    'k_min': ('scalar', N, 0, 0, 1e-3, 0),
    'k_max': ('scalar', N, 0.1, 0, 1e3, 0),
    'sep': ('list', 'float', 0, 1, 10000, 1),
    'mu': ('list', 'float', -1, 1, 1, 1),
    'l': ('list', 'int', 0, 0, 10, 1),
    'z_mean': ('list', 'float', 0, 0, 10, 1),
    'z_min': ('list', 'float', 0, 0, 10, 1),
    'z_max': ('list', 'float', 0, 0, 10, 1),
    'deltaz': ('list', 'float', 0, 0, 10, 1),
    'number_density1': ('list', 'float', 0, 0, 10, 1),
    'number_density2': ('list', 'float', 0, 0, 10, 1),
    'pixelsize': ('list', 'float', 0, 1, 1000, 1),
    'fsky': ('list', 'float', 0, 1, 1, 0),
    'covariance_populations': ('members', (1, 2, 3, 4)),
    'pk_type': ('choice', ('linear', 'linear_class', 'halofit', 'hmcode', 'COFFE_PK_LINEAR', 'COFFE_PK_LINEAR_CLASS', 'COFFE_PK_NONLINEAR_HALOFIT', 'COFFE_PK_NONLINEAR_HMCODE')),
    'integration_1d_type': ('choice', ('gsl', 'exponential', 'COFFE_INTEGRATION_GSL', 'COFFE_INTEGRATION_DOUBLE_EXPONENTIAL')),
    'covariance_integration_method': ('choice', ('standard', 'fftlog', 'COFFE_COVARIANCE_INTEGRATION_STANDARD', 'COFFE_COVARIANCE_INTEGRATION_FFTLOG')),
    'covariance_interpolation_method': ('choice', ('bilinear', 'bicubic', 'COFFE_INTERP2D_BILINEAR', 'COFFE_INTERP2D_BICUBIC')),
}
for _n in ('omega_cdm', 'omega_m', 'omega_baryon', 'omega_gamma', 'w0', 'wa', 'n_s', 'sigma8', 'A_s', 'T_cmb', 'N_ur', 'm_ncdm', 'YHe'):
    SETTINGS[_n] = ('scalar', N, -100, 0, 100, 0)
# (query, argument) -> (types, lo, lo_open, hi, hi_open); 'k' is bounded by the current k_min / k_max
QUERIES = {
    ('integral', 'r'): (N, 0, 0, 25000, 0), ('integral', 'n'): (('int',), -2, 0, 4, 0), ('integral', 'l'): (('int',), 0, 0, 4, 0),
    ('maximum_separation', 'z_mean'): (N, 0, 0, 15, 0),
    ('cross_spectrum', 'z1'): (N, 0, 0, 15, 0), ('cross_spectrum', 'z2'): (N, 0, 0, 15, 0), ('cross_spectrum', 'k'): (N, 'k_min', 0, 'k_max', 0),
    ('power_spectrum', 'z'): (N, 0, 0, 15, 0), ('power_spectrum', 'k'): (N, 'k_min', 0, 'k_max', 0),
    ('compute_corrfunc', 'z'): (N, 0, 0, 15, 0), ('compute_corrfunc', 'r'): (N, 0, 0, 1500, 0), ('compute_corrfunc', 'mu'): (N, -1, 0, 1, 0),
    ('compute_multipole', 'z'): (N, 0, 0, 15, 0), ('compute_multipole', 'r'): (N, 0, 0, 1500, 0), ('compute_multipole', 'l'): (('int',), 0, 0, 10, 0),
}
for _q in ('comoving_distance', 'hubble_rate', 'scale_factor', 'hubble_rate_conformal', 'hubble_rate_conformal_derivative', 'growth_factor', 'growth_rate'):
    QUERIES[(_q, 'z')] = (N, 0, 0, 15, 0)
SAMPLED = ['set_galaxy_bias%d' % k for k in (1, 2, 3, 4)] + ['set_%s_bias%d' % (b, k) for b in ('magnification', 'evolution') for k in (1, 2)]


def is_effect(e):
    if e.kind == 'write' and e.a and e.a[0].startswith('_'):
        return True
    return e.kind == 'ccall' and any(isinstance(a, tuple) and a and a[0] == 'addr' for a in e.b) and ('free' in e.a or 'init' in e.a)


def resolver(M, I):
    """fields that only the constructor writes, with a constant: their value is known"""
    out = {}
    fn = M.methods.get('__cinit__')
    writers = {}
    for label, f, kind in M.public_entries():
        if label == '__cinit__' or label in ('from_file', 'to_file', 'parameters.get'):
            continue
        for p in I.run(f):
            for e in p.events:
                if e.kind == 'write':
                    writers.setdefault(e.a, label)
    for p in I.run(fn):
        for e in p.events:
            if e.kind == 'write' and e.b and e.b[0] == 'const' and e.a not in writers:
                out[('init', e.a)] = e.b[1]
    return lambda t: out.get(t)


def getter_path(M, name):
    """the C location a property reports, when it is a plain field"""
    I = pysym.Interp(M)
    g = M.props.get(name, {}).get('get')
    for p in (I.run(g) if g else ()):
        if p.ret and p.ret[0] == 'init':
            return p.ret
    return None


def main(c):
    M = pysym.Model()
    I = pysym.Interp(M)
    res = resolver(M, I)
    entries = {l: (f, k) for l, f, k in M.public_entries()}
    npaths = 0

    # ---------------------------------------------------------------- domains of settings
    unclassified = []
    for name, d in M.props.items():
        if 'set' not in d:
            continue
        spec = SETTINGS.get(name)
        f = d['set']
        loc = '%s:%s' % (PYX, f.lineno)
        arg = [a.arg for a in f.args.posonlyargs + f.args.args][1]
        paths = [p for p in I.run(f)]
        npaths += len(paths)
        if spec is None:
            unclassified.append(name)
            continue
        c.obligation({'setting': name, 'accepted': str(spec)})
        judge(c, name, spec, arg, paths, res, loc, effect=True)
    missing = [n for n in SETTINGS if n not in M.props or 'set' not in M.props[n]]
    for n in missing:
        c.find('%s cannot be set' % n, 'the setting %s no longer has a setter' % n, PYX)
    c.cover(settings_without_range=sorted(unclassified))

    # ---------------------------------------------------------------- domains of queries
    kb = {n: getter_path(M, n) for n in ('k_min', 'k_max')}
    for (q, a), (types, lo, lo_open, hi, hi_open) in QUERIES.items():
        if q not in M.methods:
            c.find('%s missing' % q, 'the query %s no longer exists' % q, PYX)
            continue
        f = M.methods[q]
        names = [x.arg for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
        if a not in names:
            continue                  # the argument was renamed: nothing to attach the rule to
        paths = I.run(f)
        npaths += len(paths)
        c.obligation({'query': q, 'argument': a})
        symlo = kb.get(lo) if isinstance(lo, str) else None
        symhi = kb.get(hi) if isinstance(hi, str) else None
        spec = ('scalar', types, -INF if isinstance(lo, str) else lo, lo_open, INF if isinstance(hi, str) else hi, hi_open)
        judge(c, '%s(%s)' % (q, a), spec, a, paths, res, '%s:%s' % (PYX, f.lineno), effect=False, symlo=symlo, symhi=symhi)

    # ---------------------------------------------------------------- sampled functions
    for s in SAMPLED + ['set_power_spectrum_linear']:
        if s not in M.methods:
            c.find('%s missing' % s, 'the method %s no longer exists' % s, PYX)
            continue
        f = M.methods[s]
        names = [x.arg for x in f.args.posonlyargs + f.args.args][1:3]
        c.obligation({'sampled': s})
        for p in I.run(f):
            npaths += 1
            sampled(c, s, names, p, res, '%s:%s' % (PYX, f.lineno), bounded=(s != 'set_power_spectrum_linear'))

    # ---------------------------------------------------------------- atomicity
    natom = 0
    for label, (f, kind) in entries.items():
        if kind == 'set' or label in SAMPLED or label == 'set_power_spectrum_linear':
            natom += 1
            arg = [a.arg for a in f.args.posonlyargs + f.args.args][1:]
            for p in I.run(f):
                atomic(c, label, arg, p)
    bulk(c, M, I)
    c.need(natom, 'setters', 50)
    c.cover(abstract_paths=npaths, setters_checked_for_atomicity=natom,
            explanation='interval and type-set abstract interpretation of the tests on each abstract path; effect-order rule on the same paths')


def judge(c, name, spec, arg, paths, res, loc, effect, symlo=None, symhi=None):
    R = domain.Reader(arg, res)
    accepted = None
    raises = [p for p in paths if p.exit == 'raise']
    guards = {id(0)}
    raising = {(repr(strip(e.a)), e.b) for p in raises for e in p.events if e.kind == 'cond'}
    for p in paths:
        D, unknown = R.top(), False
        convs, wrote = None, False
        for e in p.events:
            if e.kind == 'cond' and not (effect and wrote) and R.mentions(e.a):
                if not R.apply(e.a, e.b, D) and (repr(strip(e.a)), not e.b) in raising and 'allclose' not in repr(e.a) and 'np.sum' not in repr(e.a) and "'sum'" not in repr(e.a):
                    unknown = True
            if is_effect(e):
                wrote = True
            if e.kind == 'write' and e.a[0] == '_parameters' and e.b and R.mentions(e.b):
                b, cv = domain.unconv(e.b)
                if convs is None and b in (('arg', arg), ('each', ('elem', ('arg', arg))), ('elem', ('arg', arg))):
                    convs = cv
        if p.exit == 'raise' or any(d.empty() for d in D.values()):
            continue
        kind = spec[0]
        dom = D['V'] if kind in ('scalar', 'choice') else D['E']
        accepted = dom.copy() if accepted is None else accepted.join(dom)
        if kind == 'list' and D['V'].bot:
            continue
        if effect and not wrote:
            continue
        if unknown:
            continue
        if kind == 'scalar':
            types, lo, lo_open, hi, hi_open = spec[1:]
            if dom.types is None or not dom.types <= set(types) | {'bool'}:
                if dom.types is None and dom.nan is False and dom.choice is not None:
                    pass
                else:
                    c.find('%s:type' % name, '%s accepts values that are not %s' % (name, ' or '.join(types)), loc)
            interval(c, name, dom, lo, lo_open, hi, hi_open, loc)
            for sym, ops, what in ((symlo, ('GtE', 'Gt'), 'minimum'), (symhi, ('LtE', 'Lt'), 'maximum')):
                if sym is not None and not any(o in ops and t == sym for o, t in dom.symbounds):
                    c.find('%s:%s' % (name, what), '%s is not checked against the current %s' % (name, what), loc)
        elif kind == 'list':
            lo, lo_open, hi, hi_open = spec[2:]
            interval(c, name, dom, lo, lo_open, hi, hi_open, loc)
            if spec[1] == 'int' and convs is not None and ('int' in convs or 'float' in convs) and not ('.__index__' in convs or 'operator.index' in convs):
                c.find('%s:type' % name, '%s silently truncates values that are not integers' % name, loc)
        elif kind == 'choice':
            if dom.choice is None or not dom.choice <= set(spec[1]):
                c.find('%s:choice' % name, '%s accepts a value outside its documented choices%s' % (name, '' if dom.choice is None else ': %s' % sorted(map(str, dom.choice - set(spec[1])))), loc)
        elif kind == 'members':
            if dom.choice is None or not dom.choice <= set(spec[1]):
                c.find('%s:members' % name, '%s accepts elements outside %s' % (name, list(spec[1])), loc)
            if D['V'].length != len(spec[1]):
                c.find('%s:length' % name, '%s does not require exactly %d elements' % (name, len(spec[1])), loc)
    if accepted is None:
        c.find('%s:never' % name, '%s rejects every value' % name, loc)
        return
    kind = spec[0]
    if kind in ('scalar', 'list'):
        lo, lo_open, hi, hi_open = spec[2:] if kind == 'list' else spec[2:]
        if symlo is None and (accepted.lo > lo or (accepted.lo == lo and accepted.lo_open and not lo_open)):
            c.find('%s:rejects low' % name, '%s rejects documented values near its minimum %s' % (name, lo), loc)
        if symhi is None and (accepted.hi < hi or (accepted.hi == hi and accepted.hi_open and not hi_open)):
            c.find('%s:rejects high' % name, '%s rejects documented values near its maximum %s' % (name, hi), loc)
        if kind == 'scalar' and accepted.types is not None and not set(spec[1]) <= accepted.types:
            c.find('%s:rejects type' % name, '%s rejects values of type %s' % (name, sorted(set(spec[1]) - accepted.types)), loc)
    else:
        if accepted.choice is not None and not set(spec[1]) <= accepted.choice:
            c.find('%s:rejects choice' % name, '%s rejects documented choices %s' % (name, sorted(map(str, set(spec[1]) - accepted.choice))), loc)


def strip(t):
    """a condition without source positions, so that the two branches of one test compare equal"""
    if isinstance(t, tuple):
        return tuple(strip(x) for x in t)
    return t


def interval(c, name, d, lo, lo_open, hi, hi_open, loc):
    if d.lo < lo or (d.lo == lo and lo_open and not d.lo_open):
        c.find('%s:low' % name, '%s accepts values below its documented minimum %s%s' % (name, lo, ' (excluded)' if lo_open else ''), loc)
    if d.hi > hi or (d.hi == hi and hi_open and not d.hi_open):
        c.find('%s:high' % name, '%s accepts values above its documented maximum %s%s' % (name, hi, ' (excluded)' if hi_open else ''), loc)
    if d.nan:
        c.find('%s:nan' % name, '%s accepts not-a-number' % name, loc)


def sampled(c, s, names, p, res, loc, bounded):
    """the tests passed before the spline is rebuilt"""
    pos = [k for k, e in enumerate(p.events) if e.kind == 'ccall' and e.a == 'coffe_init_spline']
    if not pos:
        return
    x, y = names
    conds = [(e.a, e.b) for e in p.events[:pos[0]] if e.kind == 'cond']
    R = domain.Reader(x, res)
    Ry = domain.Reader(y, res)
    D = R.top()
    same = ordered = enough = False
    for t, pol in conds:
        R.apply(t, pol, D)
        for u, q in atoms(t, pol):
            if u[0] == 'cmp' and u[1] in ('Eq', 'NotEq') and (u[1] == 'Eq') == q:
                for a, b in ((u[2], u[3]), (u[3], u[2])):
                    if R.length(a) and Ry.length(b):
                        same = True
        r = repr(t)
        if R.mentions(t):
            if ('np.sort' in r or 'np.diff' in r or "'sorted'" in r or 'zip' in r or "'slice'" in r):
                ordered = True
            if R.subject(t) is None and "'ivar'" in r:
                ordered = True
            for u, q in atoms(t, pol):
                if u[0] == 'cmp' and (R.length(u[2]) or R.length(u[3])) and not Ry.mentions(u):
                    enough = True
    if not same:
        c.find('%s:length' % s, '%s can use sampled arrays of different lengths' % s, loc)
    if not ordered:
        c.find('%s:order' % s, '%s can use sampling points that are not in increasing order' % s, loc)
    if not enough:
        c.find('%s:points' % s, '%s can use too few sampling points' % s, loc)
    if bounded:
        lo = D['F'].lo if D['F'].lo > -INF else D['E'].lo
        hi = D['L'].hi if D['L'].hi < INF else D['E'].hi
        if lo < 0:
            c.find('%s:low' % s, '%s accepts sampling redshifts below 0' % s, loc)
        if hi > 15:
            c.find('%s:high' % s, '%s accepts sampling redshifts above 15' % s, loc)
        if lo > 0 or hi < 15:
            c.find('%s:rejects' % s, '%s rejects sampling redshifts between 0 and 15' % s, loc)


def atoms(t, pol):
    if t[0] == 'not':
        yield from atoms(t[1], not pol)
    elif t[0] in ('and', 'or') and (t[0] == 'and') == pol:
        for x in t[1]:
            yield from atoms(x, pol)
    else:
        yield t, pol


def safe_value(t, checked, arg):
    """a conversion of this term to a C number cannot fail any more"""
    k = t[0]
    if k in ('const', 'name', 'init', 'ccall', 'cast', 'addr', 'sizeof', 'ivar', 'null'):
        return True
    if k == 'bin':
        return safe_value(t[2], checked, arg) and safe_value(t[3], checked, arg)
    if k in ('neg', 'un', 'not', 'cmp', 'and', 'or', 'fresh', 'unk', 'loopvar', 'phi'):
        return True
    if k == 'call' and t[1] in ('float', 'int', 'len', 'bool', 'abs', 'max', 'min', 'any', 'all', 'np.sqrt', 'round', 'sum', 'range', 'enumerate', 'zip'):
        return True
    if k in ('idx', 'elem'):
        b, convs = domain.unconv(t)
        if convs:
            return True
        while t[1][0] == 'call' and t[1][1] in ('np.array', 'np.asarray', 'list', 'tuple') and len(t[1][2]) == 1:
            t = (t[0], t[1][2][0]) + t[2:]
        if t[1][0] == 'bin' and len(t[1]) == 4:
            return all(safe_value((t[0], x) + t[2:], checked, arg) if 'array' in str(x) else safe_value(x, checked, arg) for x in t[1][2:])
        if t[1][0] == 'comp' and t[1][1] in ('list', 'gen') and safe_value(t[1][2], checked, arg):
            return True
        if t[1][0] == 'dict' or (t[1][0] == 'call' and t[1][1] in ('enumerate', 'zip', 'range')):
            return True
        return b in checked or b[0] in ('first', 'last') and ('elem', b[1]) in checked
    if t in checked:
        return True
    return False


def atomic(c, label, args, p):
    first = None
    checked = set()
    for e in p.events:
        if e.kind == 'cond':
            for a in args:
                R = domain.Reader(a)
                D = R.top()
                R.apply(e.a, e.b, D)
                if D['V'].types or D['V'].choice:
                    checked.add(('arg', a))
                if D['E'].types or D['E'].choice:
                    checked.add(('elem', ('arg', a)))
                    checked.add(('each', ('elem', ('arg', a))))
        if first is None:
            if is_effect(e):
                first = e
                if e.kind == 'write' and e.b and e.b[0] == 'arg':
                    checked.add(e.b)
            continue
        if e.kind == 'write' and e.b and e.b[0] == 'arg':
            checked.add(e.b)
        bad = None
        if e.kind == 'raise':
            bad = 'raises'
        elif e.kind == 'coerce' and e.b is not None and not safe_value(e.b, checked, args):
            bad = 'converts an unchecked value'
        elif e.kind == 'bufwrite' and e.b is not None:
            v = e.b[-1] if isinstance(e.b, tuple) and e.b and isinstance(e.b[0], tuple) else e.b
            if isinstance(v, tuple) and not safe_value(v, checked, args):
                bad = 'converts an unchecked value'
        elif e.kind == 'mayraise' and e.a in ('float', 'int', '.__index__', 'operator.index', 'iter') and e.b and not safe_value(e.b[0], checked, args):
            bad = 'converts an unchecked value'
        elif e.kind == 'badattr':
            bad = 'uses an attribute that does not exist'
        if bad:
            c.find('%s:not atomic' % label, '%s %s after it has already changed the object (%s)' % (label, bad, where(first)), '%s:%s' % (PYX, e.line))
            return
    for e in p.events:
        if e.kind == 'badattr':
            c.find('%s:attribute' % label, '%s uses an attribute that does not exist' % label, '%s:%s' % (PYX, e.line))


def where(e):
    return 'line %s' % e.line


def bulk(c, M, I):
    """set_parameters: every name is known before the first assignment"""
    f = M.methods.get('set_parameters')
    if f is None:
        c.find('set_parameters missing', 'set_parameters no longer exists', PYX)
        return
    c.obligation({'bulk': 'set_parameters'})
    for p in I.run(f):
        seen = False
        for e in p.events:
            if e.kind == 'dynset':
                seen = True
            elif e.kind == 'raise' and seen:
                c.find('set_parameters:order', 'set_parameters can reject a name after it has assigned another setting', '%s:%s' % (PYX, e.line))
    ps = I.run(f)
    if not any(p.exit == 'raise' for p in ps):
        c.find('set_parameters:unknown', 'set_parameters accepts names that are not settings', '%s:%s' % (PYX, f.lineno))


if __name__ == '__main__':
    common.main('C02', main)
