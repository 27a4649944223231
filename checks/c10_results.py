"""C10: the bulk results list every requested combination once, with the value the single computation has there, and Python shows them under their names."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken, Glob
from val import *
from terms import *
from heap import Memory, Facts, flat, index, phis
from c19_tables import rpo
from c20_covariance import SET, ARRAY, facts_for
import pysym

UNCLEAR = ('int', 'opaque', 'rec', 'local')        # atoms whose value the analysis does not describe
KINDS = ('NONINTEGRATED', 'SINGLE_INTEGRATED', 'DOUBLE_INTEGRATED')
ARGUMENTS = ('z_mean', 'z_min', 'z_max', 'separation', 'mu', 'l')
# function: kind of output, {coordinate: setting it runs over}
TABLES = {
    'coffe_corrfunc_init': ('CORRFUNC', {'z_mean': 'z_mean', 'mu': 'mu', 'separation': 'sep'}),
    'coffe_multipoles_init': ('MULTIPOLES', {'z_mean': 'z_mean', 'l': 'multipole_values', 'separation': 'sep'}),
    'coffe_average_multipoles_init': ('AVERAGE_MULTIPOLES', {'z_min': 'zmin', 'z_max': 'zmax', 'l': 'multipole_values', 'separation': 'sep'}),
}
# what the signal reads of its arguments, for each kind of output
USED = {'CORRFUNC': {'z_mean', 'separation', 'mu'}, 'MULTIPOLES': {'z_mean', 'separation', 'l'}, 'AVERAGE_MULTIPOLES': {'z_min', 'z_max', 'separation', 'l'}}
# name shown by Python -> field of the element
SHOWN = {
    'Corrfunc': ('_corrfunc', {'z': 'coords.z_mean', 'r': 'coords.separation', 'mu': 'coords.mu', 'value': 'value'}),
    'Multipoles': ('_multipoles', {'z': 'coords.z_mean', 'r': 'coords.separation', 'l': 'coords.l', 'value': 'value'}),
    'AverageMultipoles': ('_average_multipoles', {'z_min': 'coords.z_min', 'z_max': 'coords.z_max', 'r': 'coords.separation', 'l': 'coords.l', 'value': 'value'}),
    'Covariance': ('_covariance_multipoles', {'z': 'coords.z_mean', 'r1': 'coords.separation1', 'r2': 'coords.separation2', 'l1': 'coords.l1', 'l2': 'coords.l2', 'value': 'value'}),
    'AverageCovariance': ('_average_covariance_multipoles', {'z_min': 'coords.z_min', 'z_max': 'coords.z_max', 'r1': 'coords.separation1', 'r2': 'coords.separation2',
                                                            'l1': 'coords.l1', 'l2': 'coords.l2', 'value': 'value'}),
}
BULK = {'compute_corrfunc_bulk': ('Corrfunc', 'coffe_corrfunc_init', 'CORRFUNC', 3), 'compute_multipoles_bulk': ('Multipoles', 'coffe_multipoles_init', 'MULTIPOLES', 3),
        'compute_average_multipoles_bulk': ('AverageMultipoles', 'coffe_average_multipoles_init', 'AVERAGE_MULTIPOLES', 3),
        'compute_covariance_bulk': ('Covariance', 'coffe_covariance_init', 'COVARIANCE_MULTIPOLES', 2),
        'compute_average_covariance_bulk': ('AverageCovariance', 'coffe_covariance_init', 'COVARIANCE_AVERAGE_MULTIPOLES', 3)}
SINGLE = {'compute_corrfunc': ('CORRFUNC', {'z_mean': 'z', 'separation': 'r', 'mu': 'mu'}), 'compute_multipole': ('MULTIPOLES', {'z_mean': 'z', 'separation': 'r', 'l': 'l'})}


def run(c):
    P = ir.Program('inline')
    for name in TABLES:
        c.part(name, table, c, P, name)
    M = pysym.Model()
    R = c.part('representation', representations, c)
    paths = {}
    for label, fn, kind in M.public_entries():
        if label in BULK or label in SINGLE or 'output_type' in ast.unparse(fn) or label == '__cinit__':
            paths[label] = (M, fn)
    for label in BULK:
        c.part(label, bulk, c, label, paths, R)
    for label in SINGLE:
        c.part(label, single, c, label, paths)
    c.part('kind of output', kinds, c, M, P)
    c.need(c.obl, 'entries', 20) if not c.cov.get('undecided') else None
    c.cover(explanation='contents of the tables of results as functions of the place in the table (coordinates and value), the sum of three parts the single computation returns, '
            'and the name under which every field of an element is shown by Python, on every path of the front end')
    c.assumptions.append('coffe_integrate is a function of its arguments, the settings, the background and the tables of integrals (its value is the subject of other properties)')


# ---------------------------------------------------------------- the tables of C
def table(c, P, name):
    kind, coords = TABLES[name]
    f = P.funcs.get(name)
    if f is None:
        raise AnalysisBroken('no ' + name)
    n = {x: SET(x + '_len') for x in ('z_mean', 'mu', 'sep', 'multipole_values', 'zmin')}
    n['zmax'] = n['zmin']

    every = ONE
    for fl, nm in coords.items():
        if fl != 'z_max':
            every = mul(every, n[nm])

    def bind(k):
        if k[0] == 'cell' and k[1][0] == 'struct' and k[1][1].endswith('_array_t') and k[1][2:] == ('.size',) and k[1][1] != 'coffe_integral_array_t':
            return every                                # what is stored there is compared below
        if k[0] == 'cell' and k[1][:2] == ('struct', PAR) and len(k[1]) == 3:
            return {'.zmax_len': n['zmin'], '.verbose': ZERO}.get(k[1][2])
        return None
    v = Val(P, f, bind=bind)
    order = rpo(f)
    mem = Memory(P, f, v, order)
    stores = {}
    for b in order:
        if not v.pathcond(b):
            continue
        for i in b.insts:
            if i.op == 'store':
                a = v.addr(i.args[1])
                if a[0] in ('*', 'heap'):
                    r = flat(a) if a[0] == 'heap' else (a[1], [a[2:]])
                    if r is None:
                        continue
                    stores.setdefault(index(r[1][-1])[1], []).append((i, r))
    if ('.value',) not in stores:
        raise AnalysisBroken('no value is stored')
    pos = mem.pos
    whole_table = {r[0] for ss in stores.values() for _, r in ss if index(r[1][-1])[1][:1] in (('.coords',), ('.value',))}
    if len(whole_table) != 1:
        raise AnalysisBroken('several tables')
    where = '%s:%s' % (name, stores[('.value',)][0][0].line)
    # ---- coordinates: where each is stored, and what
    co, place = {}, None
    for fl, ss in stores.items():
        if fl[0] != '.coords':
            continue
        if len(ss) != 1:
            raise AnalysisBroken('%d stores of %s' % (len(ss), fl))
        i, r = ss[0]
        e = mem.norm(index(r[1][-1])[0])
        if mem.guard(i.block) != ONE:
            raise AnalysisBroken('coordinates are stored when %s' % show(mem.guard(i.block)))
        co[fl[-1][1:]] = (e, mem.norm(v.num(i.args[0])), i)
    c.obligation()
    if set(co) != set(coords):
        c.find('%s:coordinates' % kind, '%s: coordinates stored are %s' % (name, sorted(co)), where)
        return
    ref = co['separation']
    ids = sorted(phis(ref[0]))
    base = Facts(facts_for(v_code(mem), ids))
    val = {}
    for fl, (e, x, i) in co.items():
        # the same place by the induction variables of the coordinate we started from
        if e != ref[0]:
            m = place_in(mem, i, e, ref[0], base)
            x = substitute(x, m)
        val[fl] = x
    src = {}
    for fl, nm in coords.items():
        c.obligation()
        src[fl] = next((k for k in ids if val[fl] == ARRAY(nm, A(*k))), None)
        if src[fl] is None:
            if any(k[0] in UNCLEAR for k in atoms(val[fl])):
                raise AnalysisBroken('coordinate %s: %s' % (fl, show(val[fl])[:150]))
            c.find('%s:coordinates' % kind, '%s: the coordinate %s of an element is %s' % (name, fl, show(val[fl])[:200]), where)
            return
    loops = {k for k in src.values()}
    c.obligation()
    if len(loops) != 3 or loops != set(ids) or ('z_min' in src and src['z_min'] != src['z_max']):
        c.find('%s:coordinates' % kind, '%s: coordinates of an element come from %d of %d loops' % (name, len(loops), len(ids)), where)
        return
    for fl, nm in coords.items():
        c.obligation()
        lo, hi = mem.range(src[fl])
        if lo or hi != n[nm]:
            c.find('%s:elements' % kind, '%s: the loop over %s runs from %s to %s' % (name, nm, show(lo), show(hi)), where)
            return
    whole, sized = every, 0
    for b in order:
        for i in b.insts:
            if i.op == 'store':
                a = v.addr(i.args[1])
                if a and a[-1] == '.size' and (a[0] == 'struct' and 'array' in a[1]) and v.num(i.args[0]):
                    c.obligation()
                    sized += 1
                    if v.num(i.args[0]) != whole:
                        c.find('%s:elements' % kind, '%s: the size of the result is %s instead of %s' % (name, show(v.num(i.args[0])), show(whole)), '%s:%s' % (name, i.line))
    if not sized:
        raise AnalysisBroken('size of the table')
    # ---- value: the sum of the three parts at the coordinates of the element
    ks = {k: n[nm] for (fl, k), nm in ((x, coords[x[0]]) for x in src.items())}
    ln = {k: T.keys[next(iter(hi))[0][0]] for k, hi in ks.items()}
    reader = Reader(mem, v, whole_table.pop(), stores, order)
    for which in ('first', 'last', 'any'):
        if which == 'first':
            at = {k: ZERO for k in ks}
            mp = {ln[k]: add(ONE, A('gap', num)) for num, k in enumerate(ks)}
        elif which == 'last':
            at = {k: A('index', num) for num, k in enumerate(ks)}
            mp = {ln[k]: add(A('index', num), ONE) for num, k in enumerate(ks)}
        else:
            at = {}
            mp = {ln[k]: add(A(*k), add(ONE, A('gap', num))) for num, k in enumerate(ks)}
        facts = Facts([mp])
        here = {fl: substitute(x, at) for fl, x in val.items()}
        try:
            got = reader.value('.value', substitute(ref[0], at), facts, max(pos.values()) + 1)
        except Missing as x:
            c.obligation()
            c.find('%s:elements' % kind, '%s: the %s element is not computed' % (name, which), where)
            return
        compare(c, P, name, kind, which, where, got, here)


def compare(c, P, name, kind, which, where, got, val):
    calls = [k for k in atoms(got) if k[0] == 'call' and k[1] == 'coffe_integrate']
    seen, left = {}, got
    for k in calls:
        a = list(k[2:])
        kd, out = cval(T.poly(a[9])), cval(T.poly(a[10]))
        seen.setdefault(kd, []).append(k)
        left = sub(left, A(*k))
        c.obligation()
        if out != P.enums[kind]:
            c.find('%s:value' % kind, '%s: the value of an element is that of another kind of output (%s)' % (name, out), where)
        for n_, (an, x) in enumerate(zip(ARGUMENTS, a[3:9])):
            if an in USED[kind] and T.poly(x) != val[an]:
                c.find('%s:value' % kind, '%s: the value of an element is computed at %s = %s instead of its own %s' % (name, an, show(T.poly(x))[:150], show(val[an])[:100]), where)
    c.obligation()
    if left or sorted(seen) != sorted(P.enums[x] for x in KINDS) or any(len(x) != 1 for x in seen.values()):
        c.find('%s:value' % kind, '%s: the value of an element is not the sum of the three parts of the signal, once each: %s' % (name, show(got, 4)[:400]), where)


class v_code:
    def __init__(self, mem):
        self.mem = mem


def place_in(mem, i, e, ref, facts):
    from heap import split
    if e == ref:
        return {}
    mine = [k for k in phis(e)]
    s = split(e, mine)
    if s is None:
        raise AnalysisBroken('index %s' % show(e))
    m = mem.radix(s[0], sub(ref, s[1]), facts)
    if m is None:
        raise AnalysisBroken('elements %s and %s' % (show(e), show(ref)))
    return m


class Missing(AnalysisBroken):
    pass


class Reader:
    """contents of the table of results"""

    def __init__(self, mem, v, root, stores, order):
        self.mem, self.v, self.root, self.stores = mem, v, root, stores
        self.depth = 0

    def value(self, field, e, facts, at):
        self.depth += 1
        if self.depth > 20:
            raise AnalysisBroken('contents of the table')
        fl = tuple(field) if isinstance(field, tuple) else (field,)
        mem = self.mem
        try:
            for i, r in sorted(self.stores.get(fl, []), key=lambda x: -mem.pos[id(x[0])]):
                p = mem.pos[id(i)]
                if p >= at:
                    continue
                m = mem.match(i, [r[1][-1]], [(('[]', T.intern(e)),) + fl], facts)
                if m is None:
                    continue
                mem.once(i, m, at)
                g = mem.guard(i.block)
                if substitute(g, m) != ONE:
                    raise AnalysisBroken('stored when %s' % show(g))
                x = substitute(mem.norm(self.v.num(i.args[0])), m)
                return self.resolve(x, facts, p)
            raise Missing('nothing stored in %s' % (fl,))
        finally:
            self.depth -= 1

    def resolve(self, x, facts, p):
        def one(k):
            if k[0] == 'cell':
                r = flat(k[1]) if k[1][0] == 'heap' else ((k[1][1], [k[1][2:]]) if k[1][0] == '*' else None)
                if r and r[0] == self.root:
                    e, fl = index(r[1][-1])
                    return self.value(fl, e, facts, p)
            return None
        return rewriter(one)(x)


# ---------------------------------------------------------------- what Python shows
def representations(c):
    """{class: {property: keyword}}"""
    path = os.path.join(common.REPO, 'python/coffe/representation.py')
    mod = ast.parse(open(path).read())
    classes = {s.name: s for s in mod.body if isinstance(s, ast.ClassDef)}
    out = {}

    def members(nm, seen=()):
        s = classes[nm]
        m = {}
        for b in s.bases:
            if isinstance(b, ast.Name) and b.id in classes and b.id not in seen:
                m.update(members(b.id, seen + (nm,)))
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                m[x.name] = x
        return m
    for nm in SHOWN:
        if nm not in classes:
            raise AnalysisBroken('no class ' + nm)
        ms = members(nm)
        init = ms['__init__']
        kws = [a.arg for a in init.args.args + init.args.kwonlyargs][1:]
        attr = {}
        for s in init.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                pairs = []
                for t in ts:
                    if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        pairs += list(zip(t.elts, s.value.elts))
                    else:
                        pairs.append((t, s.value))
                for t, x in pairs:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.args.args[0].arg:
                        attr[t.attr] = ast.unparse(x)
            elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                raise AnalysisBroken('%s.__init__: %s' % (nm, ast.unparse(s)[:60]))
        props = {}
        for n, m in ms.items():
            if not any(isinstance(d, ast.Name) and d.id == 'property' for d in m.decorator_list):
                continue
            rets = [s for s in ast.walk(m) if isinstance(s, ast.Return)]
            if len(rets) != 1:
                raise AnalysisBroken('%s.%s' % (nm, n))
            x = rets[0].value
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == m.args.args[0].arg and x.attr in attr:
                props[n] = attr[x.attr]
            else:
                props[n] = ast.unparse(x)
        want = SHOWN[nm][1]
        c.obligation()
        if set(props) != set(want):
            c.find('%s:names' % nm, '%s shows %s instead of %s' % (nm, sorted(props), sorted(want)), 'representation.py:%d' % classes[nm].lineno)
        for n, k in props.items():
            c.obligation()
            if n in want and k != n and (k in kws or True):
                c.find('%s:%s' % (nm, n), '%s.%s is %s' % (nm, n, k), 'representation.py:%d' % ms[n].lineno)
        out[nm] = (props, kws)
    d = [x for x in classes['Representation'].body if isinstance(x, ast.FunctionDef) and x.name == 'to_dict'] if 'Representation' in classes else []
    for x in d:
        c.obligation()
        for y in ast.walk(x):
            if isinstance(y, (ast.DictComp,)) and isinstance(y.key, ast.Name) and isinstance(y.value, ast.Call):
                a = [ast.unparse(q) for q in y.value.args]
                if a != [x.args.args[0].arg, y.key.id]:
                    c.find('to_dict', 'to_dict gives %s for %s' % (ast.unparse(y.value), y.key.id), 'representation.py:%d' % y.lineno)
    return out


def comps(x):
    if isinstance(x, tuple):
        if x and x[0] == 'comp':
            yield x
        for y in x:
            yield from comps(y)


def bulk(c, label, paths, R):
    cls, fn, kind, _ = BULK[label]
    arr, want = SHOWN[cls]
    if label not in paths:
        raise AnalysisBroken('no ' + label)
    M, node = paths[label]
    got = 0
    for p in pysym.Interp(M).run(node):
        if p.exit != 'return':
            continue
        cs = list(comps(p.ret))
        mine = [x for x in cs if x[1] in ('list', 'gen') and isinstance(x[2], tuple) and x[2][:1] == ('call',) and x[2][1].split('.')[-1] in SHOWN]
        if len(mine) != 1:
            raise AnalysisBroken('what is returned: %s' % str(p.ret)[:200])
        _, _, el, gens = mine[0]
        got += 1
        c.obligation()
        loc = 'coffe.pyx:%s' % node.lineno
        if el[1].split('.')[-1] != cls:
            c.find('%s:class' % label, '%s returns objects of %s' % (label, el[1]), loc)
            continue
        it = gens[0][0]
        if len(gens) != 1 or gens[0][1]:
            c.find('%s:elements' % label, '%s does not return every element: %s' % (label, str(gens)[:200]), loc)
            continue
        if it[:2] == ('call', 'range'):
            args = [a for a in it[2]]
            if len(args) == 2 and args[0] == ('const', 0):
                args = args[1:]
            if args != [('init', (arr, 'size'))]:
                c.find('%s:elements' % label, '%s goes over %s' % (label, str(args)[:200]), loc)
                continue
        else:
            raise AnalysisBroken('elements of %s' % str(it)[:100])
        kw = {a[1]: a[2] for a in el[2] if a[0] == 'kw'}
        if len(kw) != len(el[2]):
            raise AnalysisBroken('arguments of %s' % cls)
        for n, fl in want.items():
            c.obligation()
            x = kw.get(n)
            ok = x is not None and x[0] == 'init' and len(x[1]) >= 3 and x[1][0] == arr and x[1][1] == 'array' and x[1][2][0] == 'idx' and x[1][2][1][:1] == ('ivar',) \
                and '.'.join(map(str, x[1][3:])) == fl
            if not ok:
                c.find('%s:%s' % (label, n), '%s: %s is %s instead of the %s of the element' % (label, n, str(x)[:160], fl), loc)
        # what was computed on the way
        out = ('init', ('_parameters', 'output_type'))
        for e in p.events:
            if e.kind == 'write' and e.a == ('_parameters', 'output_type'):
                out = e.b
            elif e.kind == 'ccall' and e.a in {x[1] for x in BULK.values()}:
                c.obligation()
                want_out = ('name', 'ccoffe.' + kind)
                if e.a != fn or ('addr', (arr,)) not in e.b:
                    c.find('%s:computes' % label, '%s computes %s into %s' % (label, e.a, e.b), 'coffe.pyx:%s' % e.line)
                elif out != want_out and not (kind == 'MULTIPOLES' and out[0] == 'init'):
                    c.find('%s:kind' % label, '%s computes with the kind of output %s' % (label, out), 'coffe.pyx:%s' % e.line)
    if not got:
        raise AnalysisBroken('%s returns nothing' % label)


def summands(x):
    if x[:2] == ('bin', 'Add'):
        return summands(x[2]) + summands(x[3])
    return [x]


def single(c, label, paths):
    kind, want = SINGLE[label]
    if label not in paths:
        raise AnalysisBroken('no ' + label)
    M, node = paths[label]
    got = 0
    for p in pysym.Interp(M).run(node):
        if p.exit != 'return':
            continue
        got += 1
        loc = 'coffe.pyx:%s' % node.lineno
        parts = [x for x in summands(p.ret) if x not in (('const', 0), ('const', 0.0))]
        if any(x[0] not in ('ccall', 'call') for x in parts):
            raise AnalysisBroken('what is returned: %s' % str(p.ret)[:200])
        seen = []
        for x in parts:
            c.obligation()
            if x[1] != 'coffe_integrate' or len(x[2]) != 11:
                c.find('%s:value' % label, '%s returns %s' % (label, x[1]), loc)
                continue
            a = x[2]
            seen.append(str(a[9][1]).split('.')[-1])
            if a[10] != ('name', 'ccoffe.' + kind):
                c.find('%s:value' % label, '%s computes %s' % (label, a[10]), loc)
            if a[:3] != (('addr', ('_parameters',)), ('addr', ('_background',)), ('addr', ('_integral',))):
                c.find('%s:value' % label, '%s computes from %s' % (label, a[:3]), loc)
            for n, y in zip(ARGUMENTS, a[3:9]):
                if n in want and strip(y) != ('arg', want[n]):
                    c.find('%s:value' % label, '%s is computed at %s = %s' % (label, n, y), loc)
        c.obligation()
        if sorted(seen) != sorted(KINDS):
            c.find('%s:value' % label, '%s adds the parts %s' % (label, seen), loc)
        out = ('init', ('_parameters', 'output_type'))
        for e in p.events:
            if e.kind == 'write' and e.a == ('_parameters', 'output_type'):
                out = e.b
            elif e.kind == 'ccall' and e.a == 'coffe_integrate':
                c.obligation()
                if out != ('name', 'ccoffe.' + kind) and not (kind == 'MULTIPOLES' and out[0] == 'init'):
                    c.find('%s:kind' % label, '%s computes with the kind of output %s' % (label, out), 'coffe.pyx:%s' % e.line)
    if not got:
        raise AnalysisBroken('%s returns nothing' % label)


def strip(x):
    while isinstance(x, tuple) and x[0] in ('call', 'coerce') and len(x) == 3 and x[1] in ('float', 'int', 'double') and len(x[2]) == 1:
        x = x[2][0]
    return x


def kinds(c, M, P):
    """the kind of output is that of the multipoles between calls"""
    f = P.funcs.get('coffe_parse_default_parameters')
    if f is None:
        raise AnalysisBroken('no default settings')
    v = Val(P, f)
    st = [i for i in f.insts() if i.op == 'store' and v.addr(i.args[1]) == ('struct', PAR, '.output_type')]
    c.obligation()
    if len(st) != 1 or cval(v.num(st[0].args[0])) != P.enums['MULTIPOLES']:
        c.find('default:kind', 'the default kind of output is not that of the multipoles', f.name)
    touched = {n for n, m in M.methods.items() if 'output_type' in ast.unparse(m)}
    while True:
        more = {n for n, m in M.methods.items() if n not in touched and any(isinstance(x, ast.Attribute) and x.attr in touched for x in ast.walk(m))}
        if not more:
            break
        touched |= more
    for label, fn, kind in M.public_entries():
        if label.split('.')[0] not in touched and label not in touched:
            continue
        if label in ('from_file', 'to_file', 'parameters.get', '__dealloc__', '__cinit__'):
            continue
        for p in pysym.Interp(M).run(fn):
            out = None
            for e in p.events:
                if e.kind == 'write' and e.a == ('_parameters', 'output_type'):
                    out = e.b
            c.obligation()
            if out is not None and out != ('init', ('_parameters', 'output_type')) and out != ('name', 'ccoffe.MULTIPOLES'):
                c.find('%s:kind left' % label, '%s leaves the kind of output at %s when it %ss' % (label, out, p.exit), 'coffe.pyx:%s' % fn.lineno)


if __name__ == '__main__':
    common.main('C10', run)
