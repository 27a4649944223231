"""C11: every option of a settings file reaches the parameter it names, and nothing else; what is not given keeps its default or stops the program.

The reader is followed from the source in one scenario after another (a kind of output, and switches on or off), every value being a term over the
options of the file. The table below is the documented meaning of each option; it is what the terms are compared with."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import re
import common, ir, rounds
from ir import AnalysisBroken
from scenario import Run, one, sources, UNDEF

# option -> (parameter, kind, kinds of output that read it)
ALL = (1, 2, 3, 4, 5)
SCALARS = {
    'verbose': ('verbose', 'int', ALL), 'output_type': ('', 'int', ALL), 'background_sampling': ('background_bins', 'int', ALL),
    'omega_m': ('Omega0_m', 'float', ALL), 'omega_baryon': ('Omega0_baryon', 'float', ALL), 'omega_gamma': ('Omega0_gamma', 'float', ALL),
    'interpolation': ('interp_method', 'int', ALL), 'bessel_sampling': ('bessel_bins', 'int', ALL), 'integration_method': ('integration_method', 'int', ALL),
    'integration_sampling': ('integration_bins', 'int', ALL), 'covariance_integration_method': ('covariance_integration_method', 'int', ALL),
    'w0': ('w0', 'float', ALL), 'wa': ('wa', 'float', ALL),
    'flatsky_local': ('flatsky_local', 'int', ALL), 'flatsky_local_nonlocal': ('flatsky_local_nonlocal', 'int', ALL), 'flatsky_nonlocal': ('flatsky_nonlocal', 'int', ALL),
    'b_derivative': ('b_derivative', 'int', ALL), 'f_derivative': ('f_derivative', 'int', ALL), 'b_tilde_derivative': ('b_tilde_derivative', 'int', ALL),
    'f_tilde_derivative': ('f_tilde_derivative', 'int', ALL), 'have_window': ('have_window', 'int', ALL), 'only_cross_correlations': ('only_cross_correlations', 'int', ALL),
    'output_path': ('output_path', 'string', ALL), 'output_prefix': ('output_prefix', 'string', ALL), 'input_power_spectrum': ('file_power_spectrum', 'string', ALL),
    'covariance_window': ('covariance_window', 'int', (4, 5)),
}
BIAS = [k + '_bias' + n for k in ('galaxy', 'magnification', 'evolution') for n in '12']
for b in BIAS:
    SCALARS['read_' + b] = ('read_' + b, 'int', ALL)
    SCALARS['degree_' + b] = ('degree_' + b, 'int', ALL)
LISTS = {
    'z_mean': ('z_mean', 'float', (1, 2, 4)), 'deltaz': ('deltaz', 'float', (4,)), 'mu': ('mu', 'float', (1,)), 'multipoles': ('multipole_values', 'int', (2, 3, 4, 5)),
    'density1': ('density1', 'float', (4, 5)), 'density2': ('density2', 'float', (4, 5)), 'fsky': ('fsky', 'float', (4, 5)), 'pixelsize': ('pixelsize', 'float', (4, 5)),
    'zmin': ('zmin', 'float', (5,)), 'zmax': ('zmax', 'float', (5,)), 'z_min': ('zmin', 'float', (3,)), 'z_max': ('zmax', 'float', (3,)),
    'output_background': ('type_bg', 'string', ALL),
}
LENS = {'multipole_values': 'multipole_values_len'}
CONTRIB = ('den', 'rsd', 'd1', 'd2', 'g1', 'g2', 'g3', 'g4', 'g5', 'len')
DIVERGENT = ('d2', 'g1', 'g2', 'g3', 'g4', 'g5')
NAMES = {1: 'correlation function', 2: 'multipoles', 3: 'averaged multipoles', 4: 'covariance of multipoles', 5: 'covariance of averaged multipoles'}
SWITCHES = {'off': 0, 'on': 1}


_P = {}


def load(mode):
    if mode not in _P:
        _P[mode] = ir.Program(mode)
    return _P[mode]


def program():
    P = load('inline')
    f = P.funcs.get('coffe_parser_init')
    if f is None:
        raise AnalysisBroken('no coffe_parser_init')
    return P, f


def scenario(T, on, missing=(), **more):
    o = {'output_type': one(('c', T)), 'have_window': one(('c', on)), 'covariance_integration_method': one(('c', 2 if on else 1)), 'separations_step': None,
         'have_class': one(('c', 0))}
    for b in BIAS:
        o['read_' + b] = one(('c', on))
    for n in missing:
        o[n] = None
    o.update(more)
    return o


def cell(path):
    return (('arg', 1), tuple('.' + x for x in path.split('/')) if path else ())


def given(o, n):
    """the terms the option stands for in a scenario"""
    return o.get(n, one(('opt', n)))


CLEAN = ('c', 'opt', 'elem', 'elem!', 'len', 'g')


def clean(s):
    return all(t[0] in CLEAN for t in s)


def show(s):
    def w(t):
        return 'the default %s' % (t[1],) if t[0] == 'c' else 'the value of "%s"' % t[1] if t[0] == 'opt' else 'elements of "%s"' % t[1] if t[0] == 'elem' else \
            'elements of "%s" at other positions' % t[1] if t[0] == 'elem!' else 'the length of "%s"' % t[1] if t[0] == 'len' else 'something computed from %s' % ', '.join(sorted(map(str, sources(t)))) if sources(t) else 'something else'
    return ' or '.join(sorted({w(t) for t in s})) or 'nothing'


def elements(r, p):
    """the terms an array of the parameters holds, or None if it cannot be told"""
    s = r.final.get(cell(p))
    if not s or len(s) != 1:
        return None
    t = next(iter(s))
    if t[0] != 'p':
        return None
    c = r.content(t, r.final)
    if r.final.get(('freed', t[1])) == one(('c', 1)):
        return 'freed'
    if len(c) == 1 and next(iter(c))[0] == 'p':     # strings: one more step
        q = next(iter(c))
        outer = [k[1][-1] for k, v in r.final.items() if k[0] == t[1] and v == c and k[1]]
        c = r.content(q, r.final)
        if len(outer) == 1:
            c = frozenset((('elem' if '[%r]' % (x[2],) == outer[0] or x[2] == ('c', 0) and outer[0] == '[0]' else 'elem!', x[1]) if x[0] == 'elemat' else x) for x in c)
    return c


def compare(c, key, got, want, what, where):
    """one parameter against what it has to be"""
    if got == want:
        c.obligation(what)
        return
    if got is None or not clean(got):
        if got and not (got & want) and not any(t[0] in ('many', 'in', 'phi', 'undef', 'elemat') for t in got):
            c.find(key, '%s: it holds %s instead of %s' % (what, show(got), show(want)), where)
            return
        raise AnalysisBroken('%s: cannot tell (%s)' % (what, str(got)[:120]))
    bad = got - want
    if want & got and all(t[0] == 'c' for t in bad):
        raise AnalysisBroken('%s: or %s' % (what, show(bad)))
    c.find(key, '%s: it holds %s instead of %s' % (what, show(got), show(want)), where)


def ran(P, f, o, what, **kw):
    r = Run(P, f, options=o, **kw)
    if r.final is None:
        raise AnalysisBroken('every path ends the program: ' + what)
    return r


def where(f):
    return '%s (coffe_parser_init)' % os.path.relpath(f.mod.src, common.REPO) if hasattr(f.mod, 'src') else 'src/parser.c (coffe_parser_init)'


def present(c, T, on):
    P, f = program()
    w = where(f)
    sc = scenario(T, SWITCHES[on])
    r = ran(P, f, sc, NAMES[T])
    tag = '%s, switches %s' % (NAMES[T], on)

    def reach(n, p, kind):
        compare(c, 'reach:%s:%s' % (n, tag), r.final.get(cell(p)), given(sc, n), 'option %s of a settings file (%s)' % (n, tag), w)
        ks = r.looked.get(n, set())
        if kind not in ks or ks - {kind}:
            c.find('kind:%s' % n, 'option %s is looked up as %s, documented as %s' % (n, ', '.join(sorted(ks)) or 'nothing', kind), w)

    for n, (p, kind, Ts) in sorted(SCALARS.items()):
        if T in Ts:
            c.part('%s (%s)' % (n, tag), reach, n, p, kind)

    def conditional(n, p, kind, cond):
        if cond:
            reach(n, p, kind)
    c.part('window_size (%s)' % tag, conditional, 'window_size', 'window_size', 'float', on == 'on')
    c.part('covariance_integration_bins (%s)' % tag, conditional, 'covariance_integration_bins', 'covariance_integration_bins', 'int', on == 'on')
    c.part('covariance_interpolation_method (%s)' % tag, conditional, 'covariance_interpolation_method', 'covariance_interpolation_method', 'int', on == 'on')

    def listed(n, p, kind):
        e = elements(r, p)
        k = 'list:%s:%s' % (n, tag)
        if e == 'freed':
            c.find(k, 'list %s of a settings file (%s): the parameter is left pointing at released memory' % (n, tag), w)
            return
        compare(c, k, e, one(('elem', n)), 'list %s of a settings file (%s)' % (n, tag), w)
        compare(c, k + ':length', r.final.get(cell(p + '_len')), one(('len', n)), 'length of the list %s (%s)' % (n, tag), w)
        ks = r.looked.get(n, set())
        if 'list of ' + kind not in ks or ks - {'list of ' + kind}:
            c.find('kind:%s' % n, 'elements of %s are read as %s, documented as %s' % (n, ', '.join(sorted(ks)) or 'nothing', kind), w)
    for n, (p, kind, Ts) in sorted(LISTS.items()):
        if T in Ts:
            c.part('%s (%s)' % (n, tag), listed, n, p, kind)

    def spline(n, x, y, what):
        s = r.final.get(cell(n))
        if not s or len(s) != 1 or next(iter(s))[0] != 'spline':
            raise AnalysisBroken('%s: cannot tell (%s)' % (what, str(s)[:100]))
        t = next(iter(s))
        if x is not None:
            compare(c, 'table:%s:%s:x' % (n, tag), t[1], x, what + ', abscissae', w)
        compare(c, 'table:%s:%s:y' % (n, tag), t[2], y, what + ', values', w)
        compare(c, 'table:%s:%s:method' % (n, tag), t[4], given(sc, 'interpolation'), what + ', interpolation', w)
        if x is not None and 'filecol' in repr(x):
            if any(u[0] in ('many', 'undef', 'phi') for u in t[3]):
                raise AnalysisBroken(what + ': number of points')
            if t[3] != one(('len', ('file', next(iter(x))[1]))):
                c.find('table:%s:%s:length' % (n, tag), what + ': it does not take all the lines of the file', w)

    for b in BIAS:
        if on == 'on':
            c.part('%s from a file (%s)' % (b, tag), reach, 'input_' + b, 'file_' + b, 'string')
            name = given(sc, 'input_' + b)
            c.part('table of %s (%s)' % (b, tag), spline, b, one(('filecol', name, 1)), one(('filecol', name, 2)), 'table of %s (%s)' % (b, tag))
        else:
            c.part('%s (%s)' % (b, tag), spline, b, None, given(sc, b), 'constant %s (%s)' % (b, tag))

    def spectrum():
        name = given(sc, 'input_power_spectrum')
        for n in ('power_spectrum', 'power_spectrum_norm'):
            s = r.final.get(cell(n))
            if not s or len(s) != 1 or next(iter(s))[0] != 'spline':
                raise AnalysisBroken(n + ' is not one table')
            t = next(iter(s))
            compare(c, 'spectrum:%s:%s:k' % (n, tag), t[1], one(('filecol', name, 1)), 'wavenumbers of the %s (%s)' % (n, tag), w)
            src = sources(t[2])
            f2 = {x for x in src if isinstance(x, tuple)}
            allowed = {'window_size'} if on == 'on' else set()
            extra = {x for x in src if not isinstance(x, tuple)} - allowed
            if extra or not f2:
                c.find('spectrum:%s:%s:P' % (n, tag), 'values of the %s (%s) depend on %s' % (n, tag, ', '.join(sorted(map(str, src))) or 'nothing of the settings file'), w)
            elif on == 'off':
                compare(c, 'spectrum:%s:%s:P' % (n, tag), t[2], one(('filecol', name, 2)), 'values of the %s (%s)' % (n, tag), w)
            if n == 'power_spectrum' and t[3] != one(('len', ('file', name))) and not any(u[0] in ('many', 'undef', 'phi') for u in t[3]):
                c.find('spectrum:%s:%s:length' % (n, tag), 'the %s (%s) does not take all the lines of the file' % (n, tag), w)
            compare(c, 'spectrum:%s:%s:method' % (n, tag), t[4], given(sc, 'interpolation'), 'interpolation of the %s (%s)' % (n, tag), w)
    c.part('power spectrum (%s)' % tag, spectrum)

    def krange():
        for n in ('k_min', 'k_max'):
            got = r.final.get(cell(n), frozenset())
            opts = {t for t in got if t[0] == 'opt'}
            files = {t for t in got if t[0] == 'filecol' and t[2] == 1}
            if opts != given(sc, n) or got - opts - files:
                if not clean(got - files):
                    raise AnalysisBroken('%s: %s' % (n, got))
                c.find('reach:%s:%s' % (n, tag), 'option %s (%s): the parameter holds %s' % (n, tag, show(got)), w)
            norm = r.final.get(cell(n + '_norm'), frozenset())
            if norm != got:
                if not clean(norm - files):
                    raise AnalysisBroken('%s_norm: %s' % (n, norm))
                c.find('reach:%s_norm:%s' % (n, tag), 'option %s (%s): the parameter used for normalised wavenumbers holds %s' % (n, tag, show(norm)), w)
            c.obligation('option %s (%s)' % (n, tag))
    c.part('wavenumber range (%s)' % tag, krange)

    def separations():
        want = one(('range', given(sc, 'separations_min'), given(sc, 'separations_max'), given(sc, 'separations_sampling')))
        e = elements(r, 'sep')
        if e == 'freed':
            c.find('separations:' + tag, 'separations (%s): the parameter is left pointing at released memory' % tag, w)
        elif e != want:
            if e is None or len(e) != 1 or next(iter(e))[0] not in ('range', 'c') or not all(clean(x) for x in next(iter(e))[1:] if isinstance(x, frozenset)):
                raise AnalysisBroken('separations: %s' % str(e)[:100])
            t = next(iter(e))
            c.find('separations:' + tag, 'separations (%s) are %s' % (tag, 'a range from %s to %s with %s points' % tuple(map(show, t[1:])) if t[0] == 'range' else show(e)), w)
        compare(c, 'separations:%s:length' % tag, r.final.get(cell('sep_len')), given(sc, 'separations_sampling'), 'number of separations (%s)' % tag, w)
        for n, kind in (('separations_min', 'float'), ('separations_max', 'float'), ('separations_sampling', 'int'), ('separations_step', 'float')):
            ks = r.looked.get(n, set())
            if ks != {kind}:
                c.find('kind:%s' % n, 'option %s is looked up as %s, documented as %s' % (n, ', '.join(sorted(ks)) or 'nothing', kind), w)
        c.obligation('separations (%s)' % tag)
    c.part('separations (%s)' % tag, separations)

    # nothing else: which options each parameter may depend on
    def nothing_else():
        may = {}
        for n, (p, _, Ts) in list(SCALARS.items()) + list(LISTS.items()):
            may.setdefault(cell(p), set()).add(n)
            may.setdefault(cell(p + '_len'), set()).add(n)
        for n in ('window_size', 'covariance_integration_bins', 'covariance_interpolation_method', 'k_min', 'k_max'):
            may[cell(n)] = {n}
        may[cell('k_min_norm')], may[cell('k_max_norm')] = {'k_min'}, {'k_max'}
        may[cell('Omega0_de')] = {'omega_m', 'omega_gamma'}
        may[cell('Omega0_cdm')] = {'omega_m', 'omega_baryon'}
        may[cell('sep_len')] = {'separations_min', 'separations_max', 'separations_sampling', 'separations_step'}
        for b in BIAS:
            may[cell('file_' + b)] = {'input_' + b}
            may[cell(b)] = {b, 'interpolation', 'input_' + b}
        for n in ('power_spectrum', 'power_spectrum_norm'):
            may[cell(n)] = {'interpolation', 'window_size', 'input_power_spectrum'}
        n = 0
        for k, v in sorted(r.final.items(), key=str):
            if k[0] != ('arg', 1):
                continue
            n += 1
            src = {x for x in sources(v) if isinstance(x, str)}
            extra = src - may.get(k, set())
            if extra and not any(t[0] == 'many' for t in v):
                c.find('other:%s:%s' % ('/'.join(x.strip('.') for x in k[1]), ','.join(sorted(extra))),
                       'parameter %s depends on option %s (%s), which does not name it' % ('/'.join(x.strip('.') for x in k[1]) or 'output_type', ', '.join(sorted(extra)), tag), w)
            else:
                c.obligation('parameter %s depends on no other option (%s)' % ('/'.join(x.strip('.') for x in k[1]), tag))
        if n < 60:
            raise AnalysisBroken('only %d parameters seen' % n)
    c.part('no other option (%s)' % tag, nothing_else)

    def closure():
        # the densities that are derived
        for n, want in (('Omega0_de', {'omega_m': -1, 'omega_gamma': -1, 1: 1.0}), ('Omega0_cdm', {'omega_m': 1, 'omega_baryon': -1})):
            s = r.final.get(cell(n))
            if not s or len(s) != 1:
                raise AnalysisBroken(n + ': %s' % (s,))
            got = linear(next(iter(s)))
            if got is None:
                raise AnalysisBroken(n + ': %s' % (s,))
            if got != want:
                c.find('closure:' + n, 'parameter %s (%s) is %s of the options' % (n, tag, ' '.join('%+g*%s' % (v, k) for k, v in sorted(got.items(), key=str))), w)
            else:
                c.obligation('parameter %s follows from the options (%s)' % (n, tag))
    c.part('derived densities (%s)' % tag, closure)
    everything(c, P, f, r, tag)


INDEX = re.compile(r"\[\('phi', '([^']+)'\)\]$")


def everything(c, P, f, r, tag):
    """loops over lists and tables deal with every element"""
    live = {b for e in r.edges for b in e}
    stores = {}
    for i in f.insts():
        if i.op == 'store' and i.block in live:
            for t in r.val(i.args[1], r.env):
                if t[0] == 'p':
                    stores.setdefault(t[1], []).append((i, t[2]))
    loads = {i.res: i for i in f.insts() if i.op == 'load' and i.res and i.block in live}

    def read(i, A):
        if len(A[0]) != 1 or len(A[1]) != 1 or next(iter(A[0]))[0] != 'setting':
            raise AnalysisBroken('an element is read: %s, %s' % (str(A[0])[:60], str(A[1])[:60]))
        n, t = next(iter(A[0]))[1], next(iter(A[1]))
        if t[0] != 'phi':
            raise AnalysisBroken('elements of %s: %s' % (n, str(t)[:80]))
        for k, what in rounds.covers(r, f, t[1], i, lambda x: x == ('len', n)):
            c.find('elements:%s:%s' % (n, k), 'the loop that reads the list %s (%s) %s' % (n, tag, what), f.loc(i))
        c.obligation('every element of the list %s is read (%s)' % (n, tag))

    def named(i, A):
        for x in i.args[:2]:
            d = loads.get(getattr(x, 'name', None))
            for t in r.val(d.args[0], r.env) if d is not None else ():
                if t[0] != 'p' or not t[2] or 'correlation_contributions' not in str(r.content(t, r.final)) + str([r.content(q, r.final) for q in r.content(('p', t[1], ()), r.final) if q[0] == 'p']):
                    continue
                m = INDEX.match(t[2][-1])
                if not m:
                    raise AnalysisBroken('list of contributions: ' + t[2][-1])
                for k, what in rounds.covers(r, f, m.group(1), i, lambda x: x == ('len', 'correlation_contributions')):
                    if k != 'skipped':              # the comparisons are made one after another
                        c.find('elements:contributions:' + k, 'the loop over the list of contributions (%s) %s' % (tag, what), f.loc(i))
                c.obligation('every contribution of the list is looked at (%s, %s)' % (tag, f.loc(i)))

    def filled(i, A):
        for a in A[1:3]:
            for t in a:
                if t[0] != 'p' or t[1][0] not in ('heap', 'local'):
                    continue
                ss = [(s, q) for s, q in stores.get(t[1], ()) if q and INDEX.match(q[-1])]
                if len(ss) != 1 or len(stores[t[1]]) != 1:
                    if ss:
                        raise AnalysisBroken('%d places fill a table' % len(stores[t[1]]))
                    continue
                s, q = ss[0]
                for k, what in rounds.covers(r, f, INDEX.match(q[-1]).group(1), s, lambda x: x in A[3]):
                    c.find('filled:%s:%s' % (f.loc(i), k), 'the loop that fills a table (%s) %s' % (tag, what), f.loc(s))
                c.obligation('every point of a table is filled (%s, %s)' % (tag, f.loc(s)))

    def limits():
        for n, want in (('k_min', 'first'), ('k_max', 'last')):
            for i in f.insts():
                if i.op != 'store' or i.block not in live or r.val(i.args[1], r.env) != one(('p',) + cell(n)):
                    continue
                d = loads.get(getattr(i.args[0], 'name', None))
                for t in r.val(d.args[0], r.env) if d is not None else ():
                    if t[0] == 'p' and t[1][0] == 'obj' and t[1][1][0] == 'arr' and t[1][1][2] == 'x':
                        last = t[2][-1] if t[2] else '[0]'
                        size = t[1][1][1][3] if len(t[1][1][1]) > 3 else None
                        ok = last == '[0]' if want == 'first' else is_last(last, size)
                        if ok is None:
                            raise AnalysisBroken('%s: %s' % (n, last[:80]))
                        if not ok:
                            c.find('limit:' + n, 'a %s outside of the table of the power spectrum (%s) is not replaced by its %s wavenumber' % (n, tag, want), f.loc(i))
                        c.obligation('%s is kept inside the table of the power spectrum (%s)' % (n, tag))
    for i in [i for i in r.events if i.op == 'call']:
        n = getattr(i.x, 'name', '')
        A = r.events[i]
        if n.startswith('config_setting_get_') and n.endswith('_elem'):
            c.part('a list is read (%s, %s)' % (tag, f.loc(i)), read, i, A)
        elif n == 'strcmp':
            c.part('a contribution is looked at (%s, %s)' % (tag, f.loc(i)), named, i, A)
        elif n == 'coffe_init_spline':
            c.part('a table is filled (%s, %s)' % (tag, f.loc(i)), filled, i, A)
    c.part('limits of the wavenumbers (%s)' % tag, limits)


def is_last(path, size):
    try:
        t = eval(path[1:-1], {'frozenset': frozenset})
    except Exception:
        return None
    if isinstance(t, int):
        return False
    if t in (size or ()):
        return False
    if t[0] == 'op' and t[1] in ('add', 'sub') and len(t) == 4:
        n = [x for x in t[2:] if x in (size or ())]
        k = [x[1] for x in t[2:] if x[0] == 'c']
        if len(n) == 1 and len(k) == 1:
            return (k[0] if t[1] == 'add' else -k[0]) == -1
    return None


def linear(t):
    """a linear combination of options, or None"""
    if t[0] == 'c':
        return {1: float(t[1])} if t[1] else {}
    if t[0] == 'opt':
        return {t[1]: 1}
    if t[0] == 'op' and t[1] in ('fadd', 'fsub') and len(t) == 4:
        a, b = linear(t[2]), linear(t[3])
        if a is None or b is None:
            return None
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + (v if t[1] == 'fadd' else -v)
        return {k: v for k, v in out.items() if v}
    if t[0] == 'op' and t[1] == 'fneg':
        a = linear(t[2])
        return None if a is None else {k: -v for k, v in a.items()}
    return None


# parameters an option that is not given leaves at their defaults
def kept(c, T, on):
    P, f = program()
    w = where(f)
    tag = '%s, switches %s' % (NAMES[T], on)
    base = ran(P, f, scenario(T, SWITCHES[on]), NAMES[T])
    d = P.funcs.get('coffe_parse_default_parameters')
    if d is None:
        raise AnalysisBroken('no coffe_parse_default_parameters')
    default = Run(P, d, args={0: one(('p', ('arg', 1), ()))})
    if default.final is None:
        raise AnalysisBroken('the defaults end the program')
    seen = set(base.undef.values())
    known = [n for n in sorted(base.looked) if n != 'separations_step' and n != 'separations_sampling']

    def drop(n):
        o = scenario(T, SWITCHES[on], missing=(n,))
        r = Run(P, f, options=o)
        what = 'without the option %s (%s)' % (n, tag)
        if r.final is None:
            c.obligation(what + ' the program stops')
            return
        for i, x in r.undef.items():
            if x not in seen:
                c.find('missing:%s:used' % n, what + ', %s is used before it is set' % x, f.loc(i))
        for k, v in sorted(r.final.items(), key=str):
            if k[0] != ('arg', 1):
                continue
            name = '/'.join(x.strip('.') for x in k[1]) or 'output_type'
            if UNDEF in v or any(depends_undef(t) for t in v):
                if not (UNDEF in base.final.get(k, ()) or any(depends_undef(t) for t in base.final.get(k, ()))):
                    c.find('missing:%s:%s' % (n, name), what + ', parameter %s holds a value that was never set' % name, w)
                continue
            p = next(iter(v)) if len(v) == 1 else None
            if p and p[0] == 'p' and r.final.get(('freed', p[1])) == one(('c', 1)):
                c.find('missing:%s:%s' % (n, name), what + ', parameter %s is left pointing at released memory' % name, w)
        # what it names keeps its default
        p = SCALARS.get(n) or LISTS.get(n)
        if p and n in SCALARS:
            got, want = r.final.get(cell(p[0])), default.final.get(cell(p[0]))
            if got is not None and want is not None and got != want and clean(got):
                c.find('missing:%s:default' % n, what + ', parameter %s is %s instead of %s' % (p[0], show(got), show(want)), w)
        c.obligation(what + ' nothing is read that was not set')
    first = set() if (T, on) == (2, 'off') else set(Run(P, f, options=scenario(2, 0)).looked) - {'output_type'}
    for n in known:
        if n not in first:
            c.part('without %s (%s)' % (n, tag), drop, n)
    if len(known) < 40:
        raise AnalysisBroken('only %d options are looked up' % len(known))


def depends_undef(t):
    if t == UNDEF:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(depends_undef(x) for x in t)
    return False


def step(c, T):
    """separations given by a step"""
    P, f = program()
    w = where(f)
    o = scenario(T, 0)
    o['separations_step'] = one(('opt', 'separations_step'))
    o['separations_sampling'] = None
    r = ran(P, f, o, 'separations given by a step')
    e = elements(r, 'sep')
    if e is None or e == 'freed':
        raise AnalysisBroken('separations: %s' % (e,))
    src = sources(e)
    key = 'step:%d' % T
    if 'separations_step' not in src:
        c.find(key, 'separations given by a step (%s): the separations do not depend on the step' % NAMES[T], w)
    elif not {'separations_min', 'separations_max'} <= src:
        c.find(key, 'separations given by a step (%s): the separations depend on %s only' % (NAMES[T], ', '.join(sorted(src))), w)
    c.obligation('separations given by a step (%s)' % NAMES[T])
    c.part('spacing of the separations (%s)' % NAMES[T], spacing, c, T, e, key, w)
    n = r.final.get(cell('sep_len'), frozenset())
    t = next(iter(e)) if len(e) == 1 else None
    if t and t[0] == 'range' and t[3] != n:
        if any(x[0] in ('many', 'in', 'undef', 'phi') for x in n | t[3]):
            raise AnalysisBroken('number of separations: %s' % str(n)[:80])
        c.find(key + ':length', 'separations given by a step (%s): their number is not the length of the list' % NAMES[T], w)


def alone(c, b):
    """one bias from a file, the others constant: the switch of a bias decides about that bias"""
    P, f = program()
    w = where(f)
    for T in (2, 4):
        o = scenario(T, 0, **{'read_' + b: one(('c', 1))})
        r = ran(P, f, o, b)
        tag = 'only %s from a file, %s' % (b, NAMES[T])
        for n in BIAS:
            def table(n=n):
                t = rounds.single(r.final.get(cell(n)), 'table of ' + n)
                if t[0] != 'spline':
                    raise AnalysisBroken('table of %s: %s' % (n, t[0]))
                want = one(('filecol', one(('opt', 'input_' + n)), 2)) if n == b else one(('opt', n))
                compare(c, 'switch:%s:%s:%d' % (b, n, T), t[2], want, 'values of %s (%s)' % (n, tag), w)
                if n == b:
                    compare(c, 'switch:%s:file:%d' % (b, T), r.final.get(cell('file_' + n)), one(('opt', 'input_' + n)), 'file of %s (%s)' % (n, tag), w)
            c.part('%s (%s)' % (n, tag), table)


def switch(c, n):
    """one of the other switches on, the others off"""
    P, f = program()
    w = where(f)
    for T in (2, 4):
        tag = 'only %s on, %s' % (n, NAMES[T])
        o = scenario(T, 0)
        for k in SINGLE:
            o[k] = one(('c', 1 if k == n else 0))
        if n == 'covariance_integration_method':
            o[n] = one(('c', 2))
        else:
            o['covariance_integration_method'] = one(('c', 1))
        r = ran(P, f, o, n)
        for k, need in (('window_size', 'have_window'), ('covariance_integration_bins', 'covariance_integration_method'), ('covariance_interpolation_method', 'covariance_integration_method')):
            if need == n:
                c.part('%s (%s)' % (k, tag), lambda: compare(c, 'switch:%s:%s:%d' % (n, k, T), r.final.get(cell(k)), one(('opt', k)), '%s (%s)' % (k, tag), w))
        for k in SINGLE:
            if k in SCALARS and (T in SCALARS[k][2]):
                c.part('%s (%s)' % (k, tag), lambda k=k: compare(c, 'switch:%s:%s:%d' % (n, k, T), r.final.get(cell(SCALARS[k][0])), o[k], '%s (%s)' % (k, tag), w))


SINGLE = ('have_window', 'covariance_integration_method', 'only_cross_correlations', 'flatsky_local', 'flatsky_local_nonlocal', 'flatsky_nonlocal', 'b_derivative', 'f_derivative',
          'b_tilde_derivative', 'f_tilde_derivative')


def worth(t, at):
    """a term as a number, the options being given"""
    import math
    if isinstance(t, frozenset):
        if len(t) != 1:
            raise AnalysisBroken('a value of several')
        t = next(iter(t))
    if t in at:
        return at[t]
    if t[0] == 'c' and isinstance(t[1], (int, float)):
        return float(t[1])
    if t[0] == 'op' and t[1] in ('fadd', 'add', 'fsub', 'sub', 'fmul', 'mul', 'fdiv') and len(t) == 4:
        a, b = worth(t[2], at), worth(t[3], at)
        return {'a': a + b, 's': a - b, 'm': a * b}.get(t[1].lstrip('f')[0]) if t[1] != 'fdiv' else a / b
    if t[0] == 'op' and t[1] == 'fneg':
        return -worth(t[2], at)
    if t[0] == 'op' and t[1] in ('sitofp', 'uitofp', 'zext', 'sext', 'fpext'):
        return worth(t[2], at)
    if t[0] == 'op' and t[1] in ('fptosi', 'fptoui'):
        return float(math.trunc(worth(t[2], at)))
    if t[0] == 'call' and len(t) == 3:
        for n in ('ceil', 'floor', 'round', 'trunc'):
            if t[1] in (n, 'llvm.%s.f64' % n):
                x = worth(t[2], at)
                return float(math.floor(x + 0.5) if n == 'round' else getattr(math, n)(x))
        if t[1] in ('llvm.fmuladd.f64', 'fma'):
            raise AnalysisBroken('fma')
    if t[0] == 'call' and t[1] in ('llvm.fmuladd.f64', 'llvm.fma.f64', 'fma') and len(t) == 5:
        a, b, d = (worth(x, at) for x in t[2:])
        return a * b + d
    raise AnalysisBroken('value: %s' % str(t)[:80])


def spacing(c, T, e, key, w):
    """neighbouring separations are one step apart, the last one is below the maximum, and no further one would be"""
    t = next(iter(e)) if len(e) == 1 else ('?',)
    if t[0] != 'range':
        raise AnalysisBroken('separations: %s' % str(e)[:80])
    for lo, hi, st in ((10., 100., 10.), (10., 105., 10.), (20., 200., 3.7), (1., 300., 5.), (50., 51., 0.25), (2.5, 7.25, 9.)):
        at = {('opt', 'separations_min'): lo, ('opt', 'separations_max'): hi, ('opt', 'separations_step'): st}
        a, b, n = (worth(x, at) for x in t[1:4])
        if a != lo or n < 1 or abs((b - a) / n - st) > 1e-9 * st or a + (n - 1) * st > hi + 1e-6 or a + n * st < hi - 1e-6:
            c.find(key + ':spacing', 'separations given by a step (%s): from %g to %g in steps of %g there are %d separations, %g apart' % (NAMES[T], lo, hi, st, n, (b - a) / n if n else 0), w)
            break
    c.obligation('separations given by a step (%s) are that far apart' % NAMES[T])


def grid(c):
    """the list of separations between two ends"""
    P = load('inline')
    f = P.funcs.get('coffe_generate_range')
    if f is None:
        raise AnalysisBroken('no coffe_generate_range')
    r = Run(P, f)
    if r.final is None or not r.ret:
        raise AnalysisBroken('coffe_generate_range')
    p = rounds.single(r.ret, 'list of separations')
    if p[0] != 'p':
        raise AnalysisBroken('list of separations: %s' % (p,))
    ss = [(i, t) for i in f.insts() if i.op == 'store' for t in r.val(i.args[1], r.env) if t[0] == 'p' and t[1] == p[1]]
    if len(ss) != 1 or not ss[0][1][2] or not INDEX.match(ss[0][1][2][-1]):
        raise AnalysisBroken('list of separations')
    i, t = ss[0]
    phi = INDEX.match(t[2][-1]).group(1)
    n = rounds.single(r.val(f.params[2] if isinstance(f.params[2], ir.Reg) else ir.Reg(f.params[2]), r.env), 'number of separations')
    for k, what in rounds.covers(r, f, phi, i, lambda x: x == n):
        c.find('grid:' + k, 'the loop that fills a list of equally spaced numbers %s' % what, f.loc(i))
    v = r.val(i.args[0], r.env)
    ends = [rounds.single(r.val(x if isinstance(x, ir.Reg) else ir.Reg(x), r.env), 'end') for x in f.params[:2]]
    for lo, hi, m in ((10., 100., 9), (-1., 1., 8), (0.5, 20., 39)):
        for k in range(m):
            x = worth(v, {ends[0]: lo, ends[1]: hi, n: float(m), ('phi', phi): float(k)})
            if abs(x - (lo + (hi - lo) * k / m)) > 1e-9 * (abs(lo) + abs(hi)):
                c.find('grid:value', 'number %d of %d equally spaced ones between %g and %g is %g' % (k, m, lo, hi, x), f.loc(i))
                return
    c.obligation('lists of equally spaced numbers')


def contributions(c):
    P, f = program()
    w = where(f)
    for s in CONTRIB + ('', 'none-of-them'):
        c.part('contribution ' + s, contribution, c, P, f, w, s)


def contribution(c, P, f, w, s):
    r = ran(P, f, scenario(2, 0), 'contribution ' + s, strings=s)
    for n in CONTRIB:
        got = r.final.get(cell('correlation_contrib') if n == 'den' else cell('correlation_contrib/' + n))
        if not got or any(t[0] != 'c' for t in got):
            raise AnalysisBroken('contribution %s: %s' % (n, got))
        vals = {t[1] for t in got}
        want = {0, 1} if n == s else {0}
        if (n == s) != (1 in vals) or vals - {0, 1}:
            c.find('contribution:%s:%s' % (s, n), 'with "%s" in the list of contributions, the contribution %s is %s' % (s, n, ' or '.join(map(str, sorted(vals)))), w)
        c.obligation('with "%s" in the list of contributions, %s is %s' % (s, n, 'on' if n == s else 'off'))
    got = r.final.get(cell('divergent'), frozenset())
    if any(t[0] != 'c' for t in got) or not got:
        raise AnalysisBroken('divergent: %s' % (got,))
    if (1 in {t[1] for t in got}) != (s in DIVERGENT):
        c.find('divergent:' + s, 'with "%s" in the list of contributions, the separate treatment of divergent terms is %s' % (s, ' or '.join(str(t[1]) for t in sorted(got))), w)


ENTRY = {1: 'coffe_corrfunc_init', 2: 'coffe_multipoles_init', 3: 'coffe_average_multipoles_init', 4: 'coffe_covariance_init', 5: 'coffe_covariance_init'}
RESULT = {1: 'coffe_corrfunc_array_t', 2: 'coffe_multipoles_array_t', 3: 'coffe_average_multipoles_array_t', 4: 'coffe_covariance_array_t', 5: 'coffe_average_covariance_array_t'}


NUMBER = {n: lambda run, i, A, st: one(('number', A[0])) for n in ('atoi', 'atol', 'strtol', 'strtoul')}


def command_line(c, T):
    """the main program: what it calls for a kind of output, on which objects, in which order"""
    P = load('inline')
    f = P.funcs.get('main')
    if f is None:
        raise AnalysisBroken('no main')
    order = []

    def call(name):
        def g(run, i, A, st):
            order.append((name, i))
            return one(('c', 0))
        return g
    inits = {n: call(n) for n in ('coffe_background_init', 'coffe_integrals_init', 'coffe_corrfunc_init', 'coffe_multipoles_init', 'coffe_average_multipoles_init',
                                  'coffe_covariance_init', 'coffe_output_init') + tuple(x for x in P.funcs if x.startswith('coffe_') and x.endswith('_free'))}

    def parser(run, i, A, st):
        for p in A[1]:
            st[run.key(p[1], p[2])] = one(('c', T))
        return one(('c', 0))
    inits['coffe_parser_init'] = parser
    opts = {}

    def getopt(run, i, A, st):
        return frozenset((('c', ord('s')), ('c', ord('n')), ('c', -1)))
    r = Run(P, f, known=inits, returns=dict(NUMBER, getopt=getopt))
    if r.final is None:
        raise AnalysisBroken('main does not return')
    blocks = {b: n for n, b in enumerate(ir.rpo(f))}
    ev = sorted(((blocks[i.block], i.idx, i) for i in r.events if i.op == 'call'), key=lambda x: x[:2])
    calls = [(i.x.name, i) for _, _, i in ev]
    w = 'src/main.c (main)'
    tag = NAMES[T]
    names = [n for n, _ in calls]
    need = ['coffe_parser_init', 'coffe_background_init'] + (['coffe_integrals_init'] if T <= 3 else []) + [ENTRY[T], 'coffe_output_init']
    last = -1
    for n in need:
        if n not in names:
            c.find('main:%d:%s' % (T, n), 'command line, %s: %s is not called' % (tag, n), w)
            return
        if names.index(n) < last:
            c.find('main:%d:%s:order' % (T, n), 'command line, %s: %s is called too early' % (tag, n), f.loc(calls[names.index(n)][1]))
        last = names.index(n)
        c.obligation('command line, %s: %s' % (tag, n))
    # the same objects go in and out
    at = {n: r.events[i] for n, i in calls}
    par, bg = at['coffe_parser_init'][1], at['coffe_background_init'][1]
    if len(par) != 1 or len(bg) != 1:
        raise AnalysisBroken('objects of main')
    for n in need[1:]:
        if at[n][0] != par or n != 'coffe_background_init' and at[n][1] != bg:
            c.find('main:%d:%s:objects' % (T, n), 'command line, %s: %s is given other parameters or background than those that were filled' % (tag, n), w)
    if T <= 3:
        integ = at['coffe_integrals_init'][2]
        if at[ENTRY[T]][2] != integ:
            c.find('main:%d:integral' % T, 'command line, %s: the integrals that were computed are not those that are used' % tag, w)
    res = at[ENTRY[T]][{1: 3, 2: 3, 3: 3, 4: 2, 5: 3}[T]]
    o = P.funcs['coffe_output_init']
    pos = position(P, T)
    if at['coffe_output_init'][pos] != res:
        c.find('main:%d:result' % T, 'command line, %s: what is written is not what was computed' % tag, w)
    else:
        c.obligation('command line, %s: what was computed is what is written' % tag)


def position(P, T):
    """which argument of the writer is the result of a kind of output"""
    return {1: 2, 2: 3, 3: 4, 4: 5, 5: 6}[T]


def threads(c):
    P = load('inline')
    f = P.funcs.get('main')
    w = 'src/main.c (main)'

    def getopt(run, i, A, st):
        return frozenset((('c', ord('s')), ('c', ord('n')), ('c', -1)))
    known = {n: (lambda run, i, A, st: one(('c', 0))) for n in P.funcs if n.startswith('coffe_')}

    def parser(run, i, A, st):
        # fills every parameter
        for p in A[1]:
            for q in [q for q in st if q[0] == p[1]]:
                del st[q]
            st[('parsed', ())] = one(('c', 1))
        return one(('c', 0))
    seen = []

    def bgi(run, i, A, st):
        for p in A[0]:
            seen.append(run.load(('p', p[1], p[2] + ('.nthreads',)), st))
        return one(('c', 0))
    known['coffe_parser_init'] = parser
    known['coffe_background_init'] = bgi
    r = Run(P, f, known=known, returns=dict(NUMBER, getopt=getopt, omp_get_max_threads=lambda run, i, A, st: one(('threads',))))
    if not seen:
        raise AnalysisBroken('the background is not computed')
    s = seen[-1]
    if any(t[0] not in ('number', 'threads', 'c', 'undef', 'in') for t in s):
        raise AnalysisBroken('number of threads: %s' % (s,))
    if not any(t[0] == 'number' for t in s):
        c.find('main:nthreads', 'command line: the number of threads given with -n does not reach the computation', w)
    c.obligation('command line: the number of threads given with -n reaches the computation')
    # -s names the settings file and nothing else does
    def opts(*x):
        def g(run, i, A, st):
            return frozenset(('c', ord(y)) for y in x) | {('c', -1)}
        return g
    names = []

    def parser2(run, i, A, st):
        names.append(frozenset(t for p in A[0] for t in (run.text(p, st))))
        return parser(run, i, A, st)
    known['coffe_parser_init'] = parser2
    rets = {**NUMBER, 'omp_get_max_threads': lambda run, i, A, st: one(('threads',))}
    Run(P, f, known=known, returns=dict(rets, getopt=opts('s')))
    if not names:
        c.find('main:settings', 'command line: with -s nothing is read', w)
    elif not any(sources_in(t, 'optarg') for t in names[-1]):
        if any(t[0] in ('many', 'phi') for t in names[-1]):
            raise AnalysisBroken('settings file: %s' % (names[-1],))
        c.find('main:settings', 'command line: the settings file that is read is not the argument of -s', w)
    c.obligation('command line: the settings file is the argument of -s')
    del names[:], seen[:]
    Run(P, f, known=known, returns=dict(rets, getopt=opts('n')))
    if names:
        c.find('main:settings:n', 'command line: a settings file is read although -s was not given', w)
    c.obligation('command line: without -s no settings file is read')
    del names[:], seen[:]
    Run(P, f, known=known, returns=dict(rets, getopt=opts('s')))
    if seen and any(t[0] == 'number' for t in seen[-1]):
        c.find('main:nthreads:s', 'command line: the number of threads is taken from another option than -n', w)
    c.obligation('command line: without -n the number of threads is the default')
    for x in 'hvC':
        del names[:]
        Run(P, f, known=known, returns=dict(rets, getopt=opts(x)))
        if names:
            c.find('main:%s' % x, 'command line: with -%s alone a computation is started' % x, w)
        c.obligation('command line: -%s computes nothing' % x)


def sources_in(t, name):
    if isinstance(t, frozenset):
        return any(sources_in(x, name) for x in t)
    return t == ('g', name) or isinstance(t, tuple) and any(sources_in(x, name) for x in t)


def run(c):
    c.assumptions += ['libconfig returns for an option what the file gives for it', 'a loop over a list is read as one round for every element',
                      'built without CLASS, as it is here; the options that only exist with it are not covered']
    load('inline')
    jobs = []
    for T in ALL:
        for on in SWITCHES:
            jobs.append(('present %d %s' % (T, on), present, (T, on)))
            jobs.append(('kept %d %s' % (T, on), kept, (T, on)))
    for T in (1, 2, 3, 4):
        jobs.append(('step %d' % T, step, (T,)))
    for T in ALL:
        jobs.append(('command line %d' % T, command_line, (T,)))
    jobs.append(('contributions', contributions, ()))
    jobs.append(('equally spaced', grid, ()))
    jobs += [('only ' + b, alone, (b,)) for b in BIAS] + [('only ' + n, switch, (n,)) for n in SINGLE]
    jobs.append(('threads', threads, ()))
    c.parallel(jobs)


if __name__ == '__main__':
    common.main('C11', run)
