"""C01: no answer is ever computed from outdated settings.

Dataflow facts from the C side: which settings fields each cached result may depend on (call-context-sensitive constant
propagation + liveness over the LLVM IR; per-column backward slices for the background tables).
Typestate on the Python side: along every abstract path of every method of the front end, a cache is empty / current /
outdated; no path may end with an outdated cache, and a transiently changed setting must be restored on every exit."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common, fields, slicer, pysym
from ir import *

CACHES = {   # python location -> (C builder, C type)
    '_background': ('coffe_background_init', 'coffe_background_t'),
    '_integral': ('coffe_integrals_init', 'coffe_integral_array_t'),
    '_corrfunc': ('coffe_corrfunc_init', 'coffe_corrfunc_array_t'),
    '_multipoles': ('coffe_multipoles_init', 'coffe_multipoles_array_t'),
    '_average_multipoles': ('coffe_average_multipoles_init', 'coffe_average_multipoles_array_t'),
    '_covariance_multipoles': ('coffe_covariance_init', 'coffe_covariance_array_t'),
    '_average_covariance_multipoles': ('coffe_covariance_init', 'coffe_average_covariance_array_t'),
}
PS = '_power_spectrum_flag'
PSFIELDS = {'power_spectrum', 'power_spectrum_norm', 'power_spectrum2d', 'power_spectrum2d_norm'}
EMPTY, CURRENT = 'empty', 'current'


def class_fields(repo):
    """settings named in the body of the external power-spectrum reader (compiled only with CLASS, so read as tokens)"""
    src = open(os.path.join(repo, 'src', 'parser.c')).read()
    src = re.sub(r'/\*.*?\*/|//[^\n]*', '', src, flags=re.S)
    m = re.search(r'int\s+parse_external_power_spectrum\s*\([^)]*\)\s*\{', src)
    if not m:
        raise AnalysisBroken('parse_external_power_spectrum not found')
    d, k = 1, m.end()
    while d and k < len(src):
        d += {'{': 1, '}': -1}.get(src[k], 0)
        k += 1
    names = set(re.findall(r'\bpar\s*->\s*([\w.]+)', src[m.end():k]))
    return {tuple(n.split('.')) for n in names} - {('verbose',)} - {(p,) for p in PSFIELDS}


class Deps:
    def __init__(self):
        P = Program()
        E = fields.Effects(P)
        self.P, self.E = P, E
        pd = P.funcs['coffe_parse_default_parameters']
        ot = None
        for i in pd.insts():
            if i.op == 'store' and fields.field_path(P, pd, i.args[1]) == ('coffe_parameters_t', 'output_type') and isinstance(i.args[0], Const):
                ot = i.args[0].v
        if ot is None:
            raise AnalysisBroken('default output type not found')
        self.default_output = ot
        types = {'coffe_parameters_t', 'coffe_background_t', 'coffe_integral_array_t'}
        OT = ('coffe_parameters_t', 'output_type')
        self.raw, self.contexts = {}, 0
        for loc, (fn, ty) in CACHES.items():
            v = {'_covariance_multipoles': P.enums['COVARIANCE_MULTIPOLES'], '_average_covariance_multipoles': P.enums['COVARIANCE_AVERAGE_MULTIPOLES']}.get(loc, ot)
            if fn not in P.funcs:
                raise AnalysisBroken('builder %s not found' % fn)
            self.raw[loc] = E.deps(P.funcs[fn], types, {OT: v})
            self.contexts += E.last_contexts
        # queries that read without a builder (single-point computations) go through the same functions
        bgf = self.background_columns()
        self.psdeps = class_fields(irbuild.REPO)
        self.closure, self.upstream = {}, {}
        for loc in CACHES:
            self.closure[loc], self.upstream[loc] = set(), set()
        for loc in ['_background', '_integral'] + [c for c in CACHES if c not in ('_background', '_integral')]:
            cl = set()
            for p in self.raw[loc]:
                if p[0] == 'coffe_parameters_t':
                    f = p[1:]
                    if f == ('output_type',):
                        continue
                    if f[0] in PSFIELDS:
                        self.upstream[loc].add(PS)
                        cl.add(f)
                        cl |= self.psdeps
                    else:
                        cl.add(f)
                elif p[0] == 'coffe_background_t' and loc != '_background':
                    self.upstream[loc].add('_background')
                    cl |= bgf.get(p[1], self.allbg)
                elif p[0] == 'coffe_integral_array_t' and loc != '_integral':
                    self.upstream[loc].add('_integral')
                    # the integrals prepared per multipole are used by the multipole builders only
                    cl |= {f for f in self.closure['_integral'] if not f[0].startswith('multipole_values') or ('coffe_parameters_t',) + f in self.raw[loc]}
            self.closure[loc] = cl
        self.closure[PS] = set(self.psdeps)
        self.upstream[PS] = set()

    def background_columns(self):
        P = Program('inline')
        E = fields.Effects(P)
        f = P.funcs['coffe_background_init']
        bgi = [k for k, p in enumerate(f.params)]

        def seeds(s):
            acc = {}
            for i in f.insts():
                cs = list(s.call_writes(i)) if i.op == 'call' else ([s.cell(i.args[1])] if i.op == 'store' else [])
                for c in cs:
                    if c and s.find(c[0]) == ('p', 1) and c[1]:
                        acc.setdefault(c[1][0], []).append(('i', i))
            return acc.items()
        r = slicer.param_struct_fields(P, E, f, 'coffe_parameters_t', seeds)
        whole = {p[1:] for p in self.raw['_background'] if p[0] == 'coffe_parameters_t'}
        self.allbg = whole
        out = {}
        for name, ds in r.items():
            out[name] = {d for k, d in ds if k in (0, None)} & whole
        if len(out) < 5:
            raise AnalysisBroken('background columns not recognised')
        # a column nobody wrote depends on everything
        self.bgcols = out
        return out


def overlaps(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


class Typestate:
    """replays the events of one abstract path"""

    def __init__(self, D, empty=False):
        self.D = D
        self.st = {c: (EMPTY if empty else CURRENT) for c in list(CACHES) + [PS]}
        self.stale = {c: {} for c in self.st}
        self.writes = 0

    def write(self, field, line):
        self.writes += 1
        if field == ('output_type',):
            return
        for c in self.st:
            if self.st[c] == EMPTY:
                continue
            if any(overlaps(field, d) for d in self.D.closure[c]):
                self.stale[c].setdefault(field[0] if len(field) == 1 else '.'.join(f for f in field if isinstance(f, str)), line)

    def free(self, c):
        self.st[c] = EMPTY
        self.stale[c] = {}

    def built(self, c, line):
        self.st[c] = CURRENT
        s = {}
        for u in self.D.upstream.get(c, ()):
            s.update(self.stale[u])
        self.stale[c] = s

    def ccall(self, name, args, line, store):
        P, E = self.D.P, self.D.E
        locs = [a[1] if a[0] == 'addr' else None for a in args]
        if name == 'parse_external_power_spectrum':
            self.built(PS, line)
            return
        g = P.funcs.get(name)
        if g is None:
            return
        builders = {fn for fn, _ in CACHES.values()}
        for k, l in enumerate(locs):
            if not l or k not in E.mr.mod[g.qname]:
                continue
            if l[0] in CACHES and len(l) == 1:
                fn, ty = CACHES[l[0]]
                if E.releaser(g):
                    self.free(l[0])
                elif name == fn:
                    if fn == 'coffe_covariance_init':
                        ot = store.get(('_parameters', 'output_type'))
                        v = self.D.P.enums.get(ot[1].rsplit('.', 1)[-1]) if ot and ot[0] == 'name' else None
                        want = P.enums['COVARIANCE_MULTIPOLES' if l[0] == '_covariance_multipoles' else 'COVARIANCE_AVERAGE_MULTIPOLES']
                        if v is not None and v != want:
                            continue
                    self.built(l[0], line)
            elif l[0] == '_parameters':
                if len(l) == 1:
                    if name == 'coffe_parse_default_parameters':
                        for c in self.st:
                            if self.st[c] != EMPTY:
                                self.stale[c].setdefault('all settings', line)
                    continue
                if E.releaser(g) and l[1] in PSFIELDS:
                    continue             # the flag decides whether the table is used
                self.write(l[1:], line)


def run(c):
    D = Deps()
    M = pysym.Model()
    I = pysym.Interp(M)
    c.cover(contexts_analysed=D.contexts, dependence={k: sorted('.'.join(f) for f in v) for k, v in D.closure.items()},
            background_columns={k: len(v) for k, v in D.bgcols.items()})
    c.need(len(D.closure['_multipoles']), 'settings the multipoles depend on', 10)
    npaths = nm = nwrites = 0
    skipped = []
    for label, fn, kind in M.public_entries():
        if label in ('from_file', 'to_file', 'parameters.get', '__dealloc__'):
            skipped.append(label)
            continue
        if label.startswith('_') and not label.startswith('__'):
            continue                 # helpers are judged inside their public callers
        ps = I.run(fn)
        nm += 1
        for p in ps:
            npaths += 1
            ts = Typestate(D, empty=(label in ('__cinit__', '__init__')))
            store = {}
            for e in p.events:
                if e.kind == 'write':
                    store[e.a] = e.b
                    loc = e.a
                    if loc[0] == '_parameters':
                        ts.write(tuple(x for x in loc[1:] if isinstance(x, str)), e.line)
                    elif loc[0] == PS:
                        if e.b == ('const', 0):
                            ts.free(PS)
                        else:
                            ts.built(PS, e.line)
                    elif loc[0] in CACHES and len(loc) == 2 and e.b in (('const', 0),) and loc[1] in ('size', 'flag') and label not in ('__cinit__',):
                        c.find('%s drops %s without releasing it' % (label, loc[0]), '%s marks the stored result %s as absent instead of releasing it' % (label, loc[0]), 'python/coffe/coffe.pyx:%s' % e.line)
                elif e.kind == 'ccall':
                    ts.ccall(e.a, e.b, e.line, store)
                elif e.kind == 'cond':
                    cache_cond(ts, e)
            nwrites += ts.writes
            if p.exit in ('return', 'raise', None):
                for cache, s in ts.stale.items():
                    for f, line in s.items():
                        c.find('%s:%s->%s' % (label, f, cache.strip('_')),
                               '%s changes %s and can end with %s still holding a result computed from the old value' % (label, f, cache),
                               'python/coffe/coffe.pyx:%s' % line)
                v = p.store.get(('_parameters', 'output_type'))
                if v is not None and v != ('init', ('_parameters', 'output_type')) and label != '__cinit__':
                    c.find('%s:output_type not restored' % label, '%s leaves the output kind changed' % label, 'python/coffe/coffe.pyx')
        if ps and any(e.kind == 'write' and e.a[0] == '_parameters' for p in ps for e in p.events):
            c.obligation({'method': label, 'paths': len(ps)})
    derived_flags(c, D, M, I)
    c.need(nm, 'methods', 60)
    c.need(nwrites, 'setting writes', 60)
    c.cover(methods=nm, paths=npaths, setting_writes=nwrites, through_setters_only=skipped,
            explanation='per abstract path of each front-end method: no cached result may be left depending on a changed setting')


def cache_cond(ts, e):
    """a branch that proves a cache empty"""
    t, pol = e.a, e.b

    def empties(t, pol):
        if t[0] == 'not':
            empties(t[1], not pol)
        elif t[0] == 'init' and not pol:
            if t[1] == (PS,):
                ts.free(PS)
            elif len(t[1]) == 2 and t[1][0] in CACHES and t[1][1] in ('size', 'flag'):
                ts.free(t[1][0])
        elif t[0] == 'or' and not pol:
            for x in t[1]:
                empties(x, False)
        elif t[0] == 'and' and pol:
            for x in t[1]:
                empties(x, True)
    empties(t, pol)


def proved_same(p, f):
    """the path passed a test that the re-derived value equals the stored one"""
    me = ('init', ('_parameters', f))

    def proves(t, pol):
        if t[0] == 'not':
            return proves(t[1], not pol)
        if t[0] == 'cmp' and me in t[2:]:
            return (t[1] == 'Eq') == pol if t[1] in ('Eq', 'NotEq') else False
        return False
    return any(e.kind == 'cond' and proves(e.a, e.b) for e in p.events)


def derived_flags(c, D, M, I):
    """settings that no setter writes but that computations read and methods derive: they must be re-derived on every path"""
    direct, derived = {}, {}
    for label, fn, kind in M.public_entries():
        if label in ('from_file', 'to_file', 'parameters.get', '__dealloc__', '__cinit__'):
            continue
        if kind == 'set':
            for p in I.run(fn):
                for e in p.events:
                    if e.kind == 'write' and e.a[0] == '_parameters' and len(e.a) > 1:
                        direct[e.a[1]] = label
    read = {d[0] for cl in D.closure.values() for d in cl}
    for label, fn, kind in M.public_entries():
        if kind != 'method' or label in ('from_file', 'to_file', '__cinit__', '__dealloc__'):
            continue
        ps = I.run(fn)
        w = {}
        for p in ps:
            for e in p.events:
                if e.kind == 'write' and e.a[0] == '_parameters' and len(e.a) == 2 and e.a[1] in read and e.a[1] not in direct and e.a[1] not in ('output_type',):
                    w.setdefault(e.a[1], e.line)
        for f, line in w.items():
            c.obligation({'derived setting': f, 'method': label})
            for p in ps:
                if p.exit in ('return', None) and ('_parameters', f) not in p.store and not proved_same(p, f):
                    c.find('%s:%s not re-derived' % (label, f), '%s derives %s from other settings but keeps its previous value on some path' % (label, f), 'python/coffe/coffe.pyx:%s' % line)
                    break


if __name__ == '__main__':
    common.main('C01', run)
