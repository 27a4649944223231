"""C03: a setting that was accepted reads back as written, and changes no other independent setting.

Abstract paths of each setter are composed with the paths of each getter: the term the getter returns in the state the setter
leaves is normalised (conversions, polynomial arithmetic, look-up in inverse tables, element-wise view of lists) and compared
with the argument.  Queries and builders may not write the storage of a setting (C side: mod/ref over the LLVM IR)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common, domain, fields, irbuild, poly, pxd, pysym
from ir import *

PYX = 'python/coffe/coffe.pyx'
CHOICES = {
    'pk_type': {'COFFE_PK_LINEAR': 'linear', 'COFFE_PK_LINEAR_CLASS': 'linear_class', 'COFFE_PK_NONLINEAR_HALOFIT': 'halofit', 'COFFE_PK_NONLINEAR_HMCODE': 'hmcode'},
    'integration_1d_type': {'COFFE_INTEGRATION_GSL': 'gsl', 'COFFE_INTEGRATION_DOUBLE_EXPONENTIAL': 'exponential'},
    'covariance_integration_method': {'COFFE_COVARIANCE_INTEGRATION_STANDARD': 'standard', 'COFFE_COVARIANCE_INTEGRATION_FFTLOG': 'fftlog'},
    'covariance_interpolation_method': {'COFFE_INTERP2D_BILINEAR': 'bilinear', 'COFFE_INTERP2D_BICUBIC': 'bicubic'},
}
INTS = {'l', 'covariance_populations', 'N_ncdm', 'l_max_g', 'l_max_ur', 'integrals_fftlog_sampling', 'covariance_integration_sampling',
        'integration_sampling', 'background_sampling'}
FLAGS = {'verbose', 'has_binned_covariance', 'covariance_cosmic', 'covariance_mixed', 'covariance_poisson', 'has_only_cross_correlations',
         'has_flatsky_local', 'has_flatsky_local_nonlocal', 'has_flatsky_nonlocal', 'has_density', 'has_rsd', 'has_lensing',
         'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', 'has_g4', 'has_g5'}
# reported quantities that the energy budget (C05) ties together
BUDGET = {'omega_m', 'omega_cdm', 'omega_de', 'omega_nu', 'big_omega_m', 'big_omega_cdm', 'big_omega_de', 'big_omega_nu'}
BUDGET_SETTERS = {'omega_m', 'omega_cdm', 'omega_baryon', 'omega_gamma', 'h', 'm_ncdm'}
ALIAS = {'omega_baryon': {'big_omega_baryon'}, 'omega_gamma': {'big_omega_gamma'}}
UNK = ('?',)


def walk(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from walk(x)


def inits(t): return {x[1] for x in walk(t) if len(x) == 2 and x[0] == 'init' and isinstance(x[1], tuple)}


def key_const(k):
    v = domain.const(k)
    return v[0] if v else None


def length(t):
    """a term for the number of elements"""
    if t[0] in ('list', 'tuple'):
        return ('const', len(t[1]))
    if t[0] == 'call' and t[1] in ('np.array', 'np.asarray', 'list', 'tuple', 'sorted', 'np.sort', 'reversed') and t[2]:
        return length(t[2][0])
    if t[0] == 'call' and t[1] == 'range':
        a = t[2]
        return a[0] if len(a) == 1 else a[1] if len(a) == 2 and a[0] == ('const', 0) else fold(('bin', 'Sub', a[1], a[0])) if len(a) == 2 else UNK
    if t[0] == 'call' and t[1] == 'zip':
        return length(t[2][0])
    if t[0] == 'call' and t[1] == 'enumerate':
        return length(t[2][0])
    if t[0] == 'comp' and t[1] in ('list', 'gen'):
        if len(t[3]) != 1:
            return UNK
        if t[3][0][1]:
            return ('filtered',)
        return length(t[3][0][0])
    return ('len', t)


fold = pysym.fold


def simp(t):
    """evaluate len() and element access of known sequences inside a term"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'call' and t[1] == 'len' and len(t[2]) == 1:
        return length(simp(t[2][0]))
    if t[0] == 'elem' and len(t) == 3:
        return at(simp(t[1]), ('i', t[2]))
    if t[0] == 'idx' and len(t) == 3 and t[2] and t[2][0] != 'slice':
        r = at(simp(t[1]), simp(t[2]))
        return r
    if t[0] == 'ivar':
        return ('i', t[1])
    return tuple(simp(x) if isinstance(x, tuple) else x for x in t)


def at(t, i):
    """the i-th element of a sequence term"""
    if t[0] in ('list', 'tuple') and i[0] == 'const' and -len(t[1]) <= i[1] < len(t[1]):
        return t[1][i[1]]
    if t[0] == 'call' and t[1] in ('np.array', 'np.asarray', 'list', 'tuple') and t[2]:
        return at(t[2][0], i)
    if t[0] == 'call' and t[1] in ('sorted', 'np.sort', 'reversed', 'set', 'np.unique', 'np.flip'):
        return ('reordered', t)
    if t[0] == 'call' and t[1] == 'range':
        return i if len(t[2]) == 1 or t[2][0] == ('const', 0) else fold(('bin', 'Add', i, t[2][0])) if len(t[2]) == 2 else UNK
    if t[0] == 'call' and t[1] == 'enumerate':
        return ('tuple', (i, at(t[2][0], i)))
    if t[0] == 'call' and t[1] == 'zip':
        return ('tuple', tuple(at(a, i) for a in t[2]))
    if t[0] == 'comp' and t[1] in ('list', 'gen') and len(t[3]) == 1:
        it, conds = t[3][0]
        if conds:
            return ('filtered',)
        return subst_elem(t[2], it, i)
    if t[0] == 'dict':
        return ('idx', t, i)
    if t[0] == 'bin' and len(t) == 4 and (array(t[2]) or array(t[3])):
        return fold(('bin', t[1]) + tuple(at(x, i) if array(x) else x for x in t[2:]))
    return ('at', t, i)


def array(t):
    """a numpy array, on which arithmetic works element by element"""
    return t[0] == 'call' and t[1] in ('np.array', 'np.asarray') or t[0] == 'bin' and len(t) == 4 and (array(t[2]) or array(t[3]))


def subst_elem(body, it, i):
    """the body of a comprehension for index i of its iterable"""
    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'elem' and len(t) == 3 and t[1] == it:
            return at(simp(it), i)
        if t[0] == 'ivar' and len(t) == 3 and t[2] == it:
            return i
        if t[0] == 'i':
            return i
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)
    return simp(go(body))


def peel(t):
    convs = []
    while t[0] == 'call' and t[1] in ('int', 'float', 'bool', '.__index__', 'operator.index', 'np.float64', 'str') and len(t[2]) == 1 or t[0] == 'cast':
        convs.append(t[1])
        t = t[2][0] if t[0] == 'call' else t[2]
    return t, convs


class Post:
    """the state a setter leaves: scalar fields and element-wise fields"""
    def __init__(self, p):
        self.f, self.el, self.buf = {}, {}, {}
        for e in p.events:
            if e.kind == 'write':
                path = e.a
                if path and isinstance(path[-1], tuple) and path[-1][0] == 'idx':
                    self.el.setdefault(path[:-1], []).append((path[-1][1], e.b))
                else:
                    self.f[path] = e.b
                    self.el.pop(path, None)
            elif e.kind == 'bufwrite':
                self.buf.setdefault(e.a[1], []).append((e.b[0], e.b[1]))
        for path, v in self.f.items():
            b = v
            while b[0] == 'cast':
                b = b[2]
            for k in (v, b):
                if k in self.buf and path not in self.el:
                    self.el[path] = self.buf[k]

    def written(self): return set(self.f) | set(self.el)

    def subst(self, t):
        """a term over the initial state, in the state after"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'init' and isinstance(t[1], tuple):
            path = t[1]
            if path in self.f:
                return self.f[path]
            if path and isinstance(path[-1], tuple) and path[-1][0] == 'idx':
                base, ix = path[:-1], self.subst(path[-1][1])
                if base in self.el:
                    ws = self.el[base]
                    if len(ws) == 1:
                        k, v = ws[0]
                        k = simp(k)
                        if k[0] == 'i':
                            return subst_i(simp(v), k, simp(ix))
                        if k == simp(ix):
                            return simp(v)
                        return ('misplaced', k, simp(v), simp(ix))
                    for k, v in ws:
                        if simp(k) == simp(ix):
                            return simp(v)
                    return UNK
                if base in self.f:
                    return ('uninitialised', base)
            return t
        return tuple(self.subst(x) if isinstance(x, tuple) else x for x in t)


def subst_i(t, k, ix):
    if t == k:
        return ix
    if isinstance(t, tuple):
        return tuple(subst_i(x, k, ix) if isinstance(x, tuple) else x for x in t)
    return t


def main(c):
    M = pysym.Model()
    I = pysym.Interp(M)
    consts = {}
    getters = {}
    skip = ('parameters',)
    for n, d in M.props.items():
        if n in skip or 'get' not in d:
            continue
        ps = [p for p in I.run(d['get']) if p.exit == 'return']
        getters[n] = [(p, p.ret) for p in ps]
    npaths = pairs = undecided = 0
    setters = [n for n, d in M.props.items() if 'set' in d and n not in skip]
    c.need(len(setters), 'settings', 40)
    for n in setters:
        f = M.props[n]['set']
        loc = '%s:%s' % (PYX, f.lineno)
        arg = [a.arg for a in f.args.posonlyargs + f.args.args][1]
        A = ('arg', arg)
        if n not in getters:
            c.find('%s:no getter' % n, 'the setting %s can be written but not read' % n, loc)
            continue
        for p in I.run(f):
            if p.exit != 'return':
                continue
            npaths += 1
            post = Post(p)
            w = {q for q in post.written() if q[0] == '_parameters'}
            if not w:
                noop(c, n, A, p, getters, loc)
                continue
            for gp, g in getters[n]:
                pairs += 1
                c.obligation({'setting': n, 'stored': ['.'.join(map(str, q[1:])) for q in sorted(w)][:4]})
                r = compare(c, M, n, A, p, post, g, loc)
                if r is None:
                    undecided += 1
            for m, gs in getters.items():
                if m == n or m in ALIAS.get(n, ()) or (n in BUDGET_SETTERS and m in BUDGET) or m.startswith('_'):
                    continue
                for gp, g in gs:
                    if {q[:len(u)] for u in w for q in inits(g)} & w:
                        pairs += 1
                        before, after = simp(g), simp(post.subst(g))
                        if same(before, after):
                            continue
                        if UNK in set(walk(after)):
                            undecided += 1
                            continue
                        c.find('%s:changes %s' % (n, m), 'setting %s also changes what %s reports' % (n, m), loc)
            c.obligation()
    splines(c, M, I)
    frame(c, M, I, getters, set(setters))
    types(c, M, getters, set(setters))
    c.cover(setters=len(setters), setter_paths=npaths, setter_getter_compositions=pairs, compositions_not_decided=undecided,
            explanation='term composition of getter after setter on abstract paths of the Cython front end; mod/ref of the C builders')


def same(a, b):
    if a == b:
        return True
    try:
        return poly.of_term(a) == poly.of_term(b)
    except Exception:
        return False


def noop(c, n, A, p, getters, loc):
    """a path that stores nothing: only when the new value is the one already there"""
    ok = False
    for e in p.events:
        if e.kind == 'cond':
            r = repr(e.a)
            if 'allclose' in r or 'isclose' in r or "'Eq'" in r or "'NotEq'" in r or 'array_equal' in r:
                for t in walk(e.a):
                    if t[:1] == ('call',) and t[1] in ('np.allclose', 'np.isclose', 'math.isclose', 'allclose'):
                        if tolerance(t) is not None and tolerance(t) > 1e-4:
                            c.find('%s:tolerance' % n, 'setting %s silently ignores changes larger than one part in ten thousand' % n, '%s:%s' % (PYX, e.line))
                        own = set()
                        for gp, g in getters[n]:
                            own |= {q for q in inits(g)}
                        seen = set()
                        for x in t[2]:
                            if x[0] != 'kw':
                                seen |= inits(x)
                        if own and seen and not own & seen:
                            c.find('%s:compares' % n, 'setting %s compares the new value with another setting before storing it' % n, '%s:%s' % (PYX, e.line))
                ok = True
    if not ok:
        conds = [e for e in p.events if e.kind == 'cond' and A in set(walk(e.a))]
        if not conds or all(known_guard(e) for e in conds):
            c.find('%s:ignored' % n, 'setting %s can return without storing the value' % n, loc)


def known_guard(e): return True


def tolerance(t):
    """largest relative or absolute tolerance a closeness test uses"""
    tol = 0.0
    pos = [x for x in t[2] if x[0] != 'kw'][2:]
    for x in pos:
        v = domain.const(x)
        if v is None:
            return None
        tol = max(tol, v[0])
    for x in t[2]:
        if x[0] == 'kw' and x[1] in ('rtol', 'atol', 'rel_tol', 'abs_tol'):
            v = domain.const(x[2])
            if v is None:
                return None
            tol = max(tol, v[0])
    return tol


def compare(c, M, n, A, p, post, g, loc):
    """True same / False reported / None undecided"""
    if n in CHOICES:
        return choice(c, n, A, p, post, g, loc)
    after = simp(post.subst(g))
    lists = g[0] == 'call' and g[1] in ('np.array', 'np.asarray', 'list', 'tuple') or g[0] in ('list', 'comp', 'tuple')
    if lists:
        return compare_list(c, n, A, p, post, g, loc)
    if after == simp(g) and not any(e.kind == 'cond' and A in set(walk(e.a)) for e in p.events):
        c.find('%s:other field' % n, 'setting %s does not store what reading it returns' % n, loc)
        return False
    if after == simp(g):
        c.find('%s:other field' % n, 'setting %s does not store what reading it returns' % n, loc)
        return False
    v, convs = peel(after)
    return scalar(c, n, A, p, v, convs, loc)


def scalar(c, n, A, p, v, convs, loc, elem=None):
    want = elem or A
    if n in FLAGS:
        if v == want or v[0] == 'cmp' and v[1] in ('NotEq', 'Is') and v[2] == want:
            if 'bool' not in convs and v == want:
                c.find('%s:flag' % n, 'flag %s does not reduce the value given to true or false' % n, loc)
                return False
            return True
        k = domain.const(v)
        if k is not None:
            for e in p.events:
                if e.kind == 'cond' and peel(e.a)[0] == want:
                    if bool(k[0]) == e.b:
                        return True
                    c.find('%s:inverted' % n, 'flag %s reads back as the opposite of what was set' % n, loc)
                    return False
        if v[0] == 'not' and peel(v[1])[0] == want:
            c.find('%s:inverted' % n, 'flag %s reads back as the opposite of what was set' % n, loc)
            return False
        if want not in set(walk(v)):
            c.find('%s:constant' % n, 'flag %s does not store the value given' % n, loc)
            return False
        return None
    if v == want or same(v, want):
        bad = {'bool'} & set(convs)
        if n not in INTS and {'int', '.__index__'} & set(convs):
            bad.add('int')
        if bad:
            c.find('%s:conversion' % n, 'setting %s loses part of the value: it is converted with %s' % (n, ', '.join(sorted(bad))), loc)
            return False
        return True
    if ('filtered',) in set(walk(v)):
        c.find('%s:filtered' % n, 'setting %s drops some of the values given' % n, loc)
        return False
    for t in walk(v):
        if t[:1] in (('reordered',), ('misplaced',), ('uninitialised',)):
            c.find('%s:%s' % (n, t[0]), 'setting %s does not keep the order of the values given' % n if t[0] != 'uninitialised' else 'setting %s leaves elements that are never filled' % n, loc)
            return False
    pv = poly.of_term(v)
    ats = pv.atoms()
    if ats and all(a == want or a[0] in ('init', 'const') for a in ats) or want not in set(walk(v)):
        c.find('%s:value' % n, 'setting %s reads back as %r, not as the value given' % (n, pv), loc)
        return False
    if v[0] == 'at' and want[0] == 'at' and v[1] == want[1]:
        c.find('%s:index' % n, 'setting %s stores element %s in place of element %s' % (n, short(v[2]), short(want[2])), loc)
        return False
    return None


def short(t):
    return str(t)[:60]


def compare_list(c, n, A, p, post, g, loc):
    L = simp(length(g))
    after_len = simp(post.subst(L))
    own = inits(g)
    if not any(q[:len(u)] == u for u in post.written() for q in own):
        c.find('%s:other field' % n, 'setting %s does not store what reading it returns' % n, loc)
        return False
    k = domain.const(L)
    if k is not None:
        ok = True
        for j in range(int(k[0])):
            v = simp(post.subst(at(simp(g), ('const', j))))
            v, convs = peel(v)
            want = ('at', A, ('const', j))
            if v[0] == 'idx':
                v = ('at',) + v[1:]
            r = scalar(c, n, A, p, v, convs, loc, elem=want)
            ok = ok and r
        return ok
    wl = ('len', A)
    if after_len != wl:
        if after_len == ('filtered',):
            c.find('%s:filtered' % n, 'setting %s drops some of the values given' % n, loc)
            return False
        pl = poly.of_term(after_len)
        if pl.atoms() <= {wl} | {('init', q) for q in own}:
            c.find('%s:length' % n, 'setting %s reads back with %r elements in place of all of them' % (n, pl), loc)
            return False
        return None
    i = ('i', 'generic')
    el = at(simp(g), i)
    # the getter's element, in the state after
    v = simp(post.subst(el_init(g, i)))
    v, convs = peel(v)
    r = scalar(c, n, A, p, v, convs, loc, elem=('at', A, i))
    # the written range covers every element
    for base, ws in post.el.items():
        if not any(q[:len(base)] == base for q in own):
            continue
        for kx, v in ws:
            if kx[0] == 'ivar':
                rng = simp(post.subst(simp(length(kx[2])) if kx[2][0] == 'call' else UNK))
                if rng != wl and poly.of_term(rng).atoms() <= {wl}:
                    c.find('%s:range' % n, 'setting %s fills %r of its elements' % (n, poly.of_term(rng)), loc)
                    return False
        storage(c, n, base, post, wl, loc)
    return r


def el_init(g, i):
    """element i of the getter's list, as a term over the state"""
    while g[0] == 'call' and g[2]:
        g = g[2][0]
    if g[0] == 'comp' and len(g[3]) == 1:
        it = g[3][0][0]

        def go(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == 'ivar' and len(t) == 3 and t[2] == it:
                return i
            return tuple(go(x) if isinstance(x, tuple) else x for x in t)
        return go(g[2])
    return UNK


def storage(c, n, base, post, wl, loc):
    v = post.f.get(base)
    if v is None:
        return
    ctype = None
    while v[0] == 'cast':
        ctype = ctype or v[1]
        v = v[2]
    if v[0] == 'ccall' and v[1] in ('malloc', 'coffe_malloc') and v[2]:
        size = poly.of_term(simp(post.subst(v[2][0])))
        want = None
        if ctype and size == poly.P.atom(wl):
            c.find('%s:storage' % n, 'setting %s allocates one byte per element of type %s' % (n, ctype), loc)
        for t in walk(v[2][0]):
            if t[:1] == ('sizeof',):
                want = poly.of_term(t) * poly.P.atom(wl)
                if ctype and ctype.replace('*', '').strip() != t[1].strip():
                    c.find('%s:element size' % n, 'setting %s allocates elements of type %s for a list of %s' % (n, t[1], ctype), loc)
        if want is not None and not size == want:
            d = size - want
            if not all(v > 0 for v in d.t.values()) and d.atoms() <= size.atoms() | want.atoms():
                c.find('%s:storage' % n, 'setting %s allocates %r bytes for %r' % (n, size, want), loc)


def choice(c, n, A, p, post, g, loc):
    spec = CHOICES[n]
    tab = None
    for t in walk(g):
        if t[:1] == ('dict',):
            tab = t
    if tab is None:
        return None
    shown = {key_const(k): key_const(v) for k, v in tab[1]}
    if None not in shown and shown != spec:
        c.find('%s:names' % n, 'setting %s reports %s' % (n, {k: v for k, v in shown.items() if spec.get(k) != v} or 'fewer names than documented'), loc)
        return False
    own = inits(g)
    hit = [q for q in own if q in post.f]
    if not hit:
        c.find('%s:other field' % n, 'setting %s does not store what reading it returns' % n, loc)
        return False
    v = simp(post.f[hit[0]])
    v, convs = peel(v)
    if v == A:
        return True
    if v[0] in ('idx', 'at') and v[1][0] == 'dict' and peel(v[2])[0] == A:
        stored = {key_const(k): key_const(x) for k, x in v[1][1]}
        inv = {b: a for a, b in spec.items()}
        if None not in stored and any(inv.get(k) != x for k, x in stored.items()):
            c.find('%s:values' % n, 'setting %s stores %s' % (n, {k: x for k, x in stored.items() if inv.get(k) != x}), loc)
            return False
        return True
    k = domain.const(v)
    if k is not None:
        for e in p.events:
            if e.kind == 'cond' and e.b and e.a[:2] == ('cmp', 'Eq') and A in e.a:
                other = e.a[3] if e.a[2] == A else e.a[2]
                o = key_const(other)
                if o == k[0] or spec.get(k[0]) == o:
                    return True
                c.find('%s:values' % n, 'setting %s stores %s for %r' % (n, k[0], o), loc)
                return False
    return None


BIASES = ['galaxy_bias%d' % k for k in (1, 2, 3, 4)] + ['%s_bias%d' % (b, k) for b in ('magnification', 'evolution') for k in (1, 2)]


def splines(c, M, I):
    """set_X(redshifts, values) fills the table that X(z), X_redshifts() and X_values() read"""
    where = {}
    for b in BIASES:
        s, g = M.methods.get('set_' + b), M.methods.get(b)
        if s is None or g is None:
            c.find('%s:missing' % b, 'the bias %s can no longer be set or read' % b, PYX)
            continue
        names = [x.arg for x in s.args.posonlyargs + s.args.args][1:3]
        loc = '%s:%s' % (PYX, s.lineno)
        tables = set()
        for p in I.run(s):
            if p.exit != 'return':
                continue
            for e in p.events:
                if e.kind == 'ccall' and e.a == 'coffe_init_spline':
                    t = e.b[0]
                    if t[:1] == ('addr',):
                        tables.add(t[1])
                        fill(c, b, p, e, names, loc)
            c.obligation({'bias': b, 'table': ['.'.join(map(str, t)) for t in tables]})
        if not tables:
            c.find('%s:not stored' % b, 'setting the bias %s stores nothing' % b, loc)
            continue
        where[b] = tables
        # what reading it uses
        for reader in (b, b + '_redshifts', b + '_values'):
            f = M.methods.get(reader)
            if f is None:
                c.find('%s:missing' % reader, '%s no longer exists' % reader, PYX)
                continue
            for p in I.run(f):
                if p.exit != 'return' or p.ret is None:
                    continue
                used = set()
                for t in walk(p.ret):
                    if t[:1] == ('addr',) and len(t) == 2:
                        used.add(t[1])
                    if t[:1] == ('init',) and isinstance(t[1], tuple) and t[1][-1:] == ('spline',):
                        used.add(t[1][:-1])
                c.obligation()
                for u in used - tables:
                    if u[0] == '_parameters':
                        c.find('%s:other table' % reader, '%s reads a table that set_%s does not fill' % (reader, b), '%s:%s' % (PYX, f.lineno))
                if reader == b and not used:
                    continue
                if reader.endswith('_redshifts'):
                    col = [t[2] for t in walk(p.ret) if t[:1] == ('attr',) and t[1][:1] == ('deref',)]
                    if 'y' in col and 'x' not in col:
                        c.find('%s:column' % reader, '%s reports the sampled values in place of the redshifts' % reader, '%s:%s' % (PYX, f.lineno))
                if reader == b:
                    for t in walk(p.ret):
                        if t[:1] == ('ccall',) and t[1] == 'coffe_interp_spline':
                            zs = [a.arg for a in f.args.args + f.args.posonlyargs + f.args.kwonlyargs][1:2]
                            v, _ = peel(t[2][1])
                            if v[0] in ('arg', 'bin', 'const') and v != ('arg', zs[0] if zs else None):
                                c.find('%s:argument' % reader, '%s is not evaluated at the redshift asked for' % reader, '%s:%s' % (PYX, f.lineno))
                    if p.ret[0] == 'bin':
                        c.find('%s:scaled' % reader, '%s does not return the stored bias itself' % reader, '%s:%s' % (PYX, f.lineno))
    for a in where:
        for b in where:
            if a < b and where[a] & where[b]:
                c.find('%s:shares %s' % (a, b), 'setting the bias %s overwrites the bias %s' % (a, b), PYX)
    s = M.methods.get('set_power_spectrum_linear')
    if s is None:
        c.find('set_power_spectrum_linear:missing', 'the power spectrum can no longer be set', PYX)
        return
    names = [x.arg for x in s.args.posonlyargs + s.args.args][1:3]
    for p in I.run(s):
        if p.exit == 'return':
            t = set()
            for e in p.events:
                if e.kind == 'ccall' and e.a == 'coffe_init_spline' and e.b[0][:1] == ('addr',):
                    t.add(e.b[0][1][-1])
                    fill(c, 'power spectrum', p, e, names, '%s:%s' % (PYX, s.lineno), True)
            for want in ('power_spectrum', 'power_spectrum_norm'):
                if want not in t:
                    c.find('power spectrum:%s' % want, 'setting the power spectrum does not fill %s' % want, '%s:%s' % (PYX, s.lineno))
            c.obligation({'table': 'power spectrum'})


def fill(c, name, p, call, args, loc, rescaled=False):
    """the arrays handed to the table builder hold the two arguments, in order, completely"""
    post = Post(p)
    for k, what in ((1, 'sampling points'), (2, 'values')):
        if k >= len(call.b):
            continue
        ptr, want, other = call.b[k], ('arg', args[k - 1]), ('arg', args[2 - k])
        b = ptr
        while b[0] == 'cast':
            b = b[2]
        ws = post.buf.get(ptr) or post.buf.get(b) or []
        for ix, v in ws:
            v, convs = peel(simp(v))
            ix = simp(ix)
            if v == ('at', want, ix):
                continue
            if rescaled and k == 2 and any(t[:2] == ('ccall', 'coffe_interp_spline') for t in walk(v)):
                continue            # brought from the redshift it is given at to redshift zero (C21)
            srcs = {t for t in walk(v) if t in (want, other)}
            if srcs == {other}:
                c.find('%s:swapped' % name, 'setting the %s stores the wrong one of its two lists as the %s' % (name, what), loc)
            elif srcs and (v[0] in ('bin', 'reordered', 'neg') or v[0] == 'at' and v[1] in (want, other) or
                           v[0] == 'call' and (v[1] in ('abs', 'round', 'min', 'max', 'pow') or v[1].startswith(('np.', 'math.')))):
                c.find('%s:%s' % (name, what), 'setting the %s does not keep the %s as given' % (name, what), loc)
    if len(call.b) > 3:
        n = poly.of_term(simp(call.b[3]))
        ok = {('len', ('arg', a)) for a in args}
        if n.atoms() and n.atoms() <= ok and not any(n == poly.P.atom(a) for a in ok):
            c.find('%s:size' % name, 'setting the %s uses %r points' % (name, n), loc)


def frame(c, M, I, getters, setters):
    """queries and builders leave every setting alone"""
    P = Program()
    MR = fields.ModRef(P)
    store = {}
    for n in setters & set(getters):
        for gp, g in getters[n]:
            for q in inits(g):
                if q[0] == '_parameters':
                    path = tuple(x for x in q[1:] if isinstance(x, str))
                    store.setdefault(path, n)
    nq = 0
    calls = {}
    for label, fn, kind in M.public_entries():
        if kind == 'set' or label.startswith('set_') or label in ('__cinit__', '__dealloc__', 'from_file', 'to_file', 'parameters.get'):
            continue
        nq += 1
        for p in I.run(fn):
            final = {}
            for e in p.events:
                if e.kind == 'write' and e.a[0] == '_parameters':
                    final[e.a] = (e.b, e.line)
                elif e.kind == 'ccall' and any(isinstance(a, tuple) and a[:1] == ('addr',) and a[1][0] == '_parameters' for a in e.b):
                    for k, a in enumerate(e.b):
                        if isinstance(a, tuple) and a[:1] == ('addr',) and a[1][0] == '_parameters':
                            calls.setdefault((e.a, k, a[1][1:]), (label, e.line))
            for path, (v, line) in final.items():
                q = tuple(x for x in path[1:] if isinstance(x, str))
                if q in store and v != ('init', path):
                    c.find('%s:writes %s' % (label, store[q]), 'the query %s changes the setting %s' % (label, store[q]), '%s:%s' % (PYX, line))
            c.obligation()
    for (fn, k, prefix), (label, line) in sorted(calls.items(), key=str):
        f = P.funcs.get(fn)
        if f is None or 'free' in fn:
            continue
        c.obligation({'builder': fn, 'argument': k})
        for path in writes_of(MR, P, f, k):
            q = prefix + tuple(x for x in path if isinstance(x, str))
            if q in store:
                c.find('%s:writes %s' % (fn, store[q]), '%s, called by %s, overwrites the setting %s' % (fn, label, store[q]), '%s:%s' % (PYX, line))
    c.cover(queries_checked_for_writes=nq, builder_arguments=len(calls))


def writes_of(MR, P, f, k):
    """field paths of the settings structure that f may store to through its k-th parameter"""
    out, seen, work = set(), set(), [(f, k)]
    while work:
        g, j = work.pop()
        if (g.qname, j) in seen or j >= len(g.params):
            continue
        seen.add((g.qname, j))

        def mine(v):
            b = fields.base_pointer(g, v)
            return isinstance(b, Reg) and b.name == g.params[j]
        for i in g.insts():
            if i.op == 'store':
                fp = fields.field_path(P, g, i.args[1])
                if fp and fp[0] == 'coffe_parameters_t' and mine(i.args[1]):
                    out.add(fp[1:])
            elif i.op == 'call':
                h = P.resolve(g, i.x.name) if isinstance(i.x, Glob) else None
                for a, v in enumerate(i.args):
                    if not isinstance(v, Reg) or not mine(v):
                        continue
                    fp = fields.field_path(P, g, v)
                    if fp is None:
                        if h is not None and fields.base_pointer(g, v) == v:
                            work.append((h, a))
                    elif fp[0] == 'coffe_parameters_t':
                        if h is not None and a in MR.mod[h.qname] or h is None and isinstance(i.x, Glob) and MR.ext_writes(i.x.name, a):
                            out.add(fp[1:])
    return out


def types(c, M, getters, setters):
    """the front end sees every field with the kind the library gives it"""
    decl, enums = pxd.structs()
    P = Program()
    n = 0

    def kind(t):
        t = t.replace('const ', '').strip()
        if t.endswith('*') or t.endswith('[]'):
            return kind(t.rstrip('*[] ').strip()) + '*'
        if t in ('double', 'float', 'long double'):
            return 'real'
        if t.startswith('enum ') or t in enums or t in ('int', 'size_t', 'unsigned int', 'long int', 'char', 'unsigned long', 'long', 'short', 'unsigned'):
            return 'integer'
        return 'other'
    for s, fs in decl.items():
        q = 'struct.' + s
        if q not in P.fields:
            continue
        ct = dict(zip(P.fields[q], P.ftypes[q]))
        for name, t, line in fs:
            if name not in ct:
                continue
            n += 1
            a, b = kind(t), kind(str(ct[name]))
            if 'other' in a + b:
                continue
            if a != b:
                c.find('%s.%s:type' % (s, name), 'the front end declares %s.%s as %s, the library as %s' % (s, name, t, ct[name]), 'python/coffe/coffe.pxd:%s' % line)
    c.need(n, 'declared fields', 20)
    c.cover(declared_fields_compared=n)


if __name__ == '__main__':
    common.main('C03', main)
