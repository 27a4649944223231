"""C12: the signal is the sum, over pairs of selected contributions, of terms that depend on that pair alone."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken
from val import *
from terms import *

LINEAR = {'coffe_integrate_1d_prec_gsl': 0, 'coffe_integrate_1d_prec_double_exponential': 0, 'coffe_integrate_multidimensional': 0}
TYPES = (('NONINTEGRATED', 'local'), ('SINGLE_INTEGRATED', 'single integrated'), ('DOUBLE_INTEGRATED', 'double integrated'))
OUT = (('CORRFUNC', 'correlation function'), ('MULTIPOLES', 'multipoles'), ('AVERAGE_MULTIPOLES', 'redshift-averaged multipoles'))
ALLF = FAMILY + FLAT
PAIRS = tuple(itertools.combinations_with_replacement(CON, 2))


def run(c):
    P = ir.Program('inline')
    n = {}
    groups = {}
    c.part('the terms of the functions', terms, c, P, groups, n)
    if groups:
        c.part('coffe_integrate', drivers, c, P, groups, n)
    c.part('the sum of the three kinds', sums, c, P)
    c.part('the Python interface', python_side, c)
    c.cover(groups=sum(len(g) for g in groups.values()), **n,
            explanation='normal form of every function of functions.c (terms), grouped by the flags they are multiplied with; composed with the normal form of coffe_integrate for the three kinds of output; each pair must occur, gated by exactly its own two flags')
    c.assumptions.append('numerical integration is linear in its integrand')


def terms(c, P, groups_, n_):
    S = Signal(P, bind=no_derivatives)

    # 1. every term of every function belongs to exactly one pair
    groups = {}
    nterms = 0
    for n in ALLF:
        p = S.form(n)
        nterms += len(p)
        g = S.groups(p)
        if n in FLAT:
            for (cs, oth), q in g.items():
                if cs or 'only_cross_correlations' in oth:
                    raise AnalysisBroken('%s looks at the selection itself' % n)
            groups[n] = g
            continue
        groups[n] = g
        seen = set()
        for (cs, oth), q in sorted(g.items()):
            if len(cs) not in (1, 2):
                c.find('%s:%s' % (n, '+'.join(cs) or 'none'), '%d terms of the %s are present only when %s are selected' % (
                    len(q), n, ', '.join(NAMES[x] for x in cs) if cs else 'none of the contributions'), 'src/functions.c ' + n)
                continue
            seen.add(cs)
        for cs in PAIRS:
            k = cs if cs[0] != cs[1] else cs[:1]
            if family_of(cs) != n:
                if k in seen:
                    c.find('%s:%s:family' % (n, '-'.join(cs)), 'the pair %s is part of %s, which has no integration (or one too many) for it' % ('-'.join(cs), n), 'src/functions.c ' + n)
                continue
            c.obligation('%s-%s' % cs)
            if k not in seen:
                c.find('%s:%s:missing' % (n, '-'.join(cs)), 'the pair %s-%s contributes nothing' % (NAMES[cs[0]], NAMES[cs[1]]), 'src/functions.c ' + n)
                continue
            mine = {o: q for (x, o), q in g.items() if x == k}
            if cs[0] == cs[1]:
                base = [o for o in mine if 'only_cross_correlations' not in o]
                for o in base:
                    o2 = tuple(sorted(o + ('only_cross_correlations',)))
                    d = add(mine[o], mine.get(o2, {}))
                    if d:
                        c.find('%s:%s:only-cross' % (n, cs[0]), 'the self-correlation of %s is not removed when only cross-correlations are requested (%s)' % (NAMES[cs[0]], show(d, 1)[:160]), 'src/functions.c ' + n)
                for o in mine:
                    if 'only_cross_correlations' in o and tuple(x for x in o if x != 'only_cross_correlations') not in mine:
                        c.find('%s:%s:only-cross' % (n, cs[0]), 'the self-correlation of %s has terms that appear when only cross-correlations are requested' % NAMES[cs[0]], 'src/functions.c ' + n)
            else:
                for o in mine:
                    if 'only_cross_correlations' in o:
                        c.find('%s:%s:only-cross' % (n, '-'.join(cs)), 'the cross term %s-%s depends on whether only cross-correlations are requested' % (NAMES[cs[0]], NAMES[cs[1]]), 'src/functions.c ' + n)

    n_['terms'] = nterms
    groups_.update(groups)


def drivers(c, P, groups, n_):
    # 2. the drivers let every pair through, whatever else is selected
    drv = P.funcs['coffe_integrate']
    it, ot = len(drv.params) - 2, len(drv.params) - 1
    ndrv = 0
    for oname, otxt in OUT:
        fixed = {}
        ind = indicators(P.enums[oname])
        for n in ALLF:
            fixed[n] = {k: q for k, q in ((k, signature(fixed_output(q, ind))) for k, q in groups[n].items()) if q}
        reach = {}
        for tname, _ in TYPES:
            r = driver(P, drv, it, ot, tname, oname, CON)
            reach[tname] = sorted({f for m in r for f in integrated(P, drv, the_call(m)[1])[0]})
            if driver(P, drv, it, ot, tname, oname, ()):
                c.find('coffe_integrate:%s:%s:nothing' % (oname, tname), 'something is computed although no contribution is selected', 'src/signal.c coffe_integrate')
        for cs in PAIRS:
            k = cs if cs[0] != cs[1] else cs[:1]
            total = defaultdict(list)        # flag monomial -> [(coefficient, rest, polynomial)]
            for tname, _ in TYPES:
                if not any(contains(f, k, fixed) for f in reach[tname]):
                    continue
                r = driver(P, drv, it, ot, tname, oname, k, symbolic=True)
                fl = flag_atoms()
                for m, cf in r.items():
                    a, key = the_call(m)
                    fam, wrap = integrated(P, drv, key)
                    flags = tuple(x for x in m if x[0] in fl)
                    rest = tuple(x for x in m if x[0] not in fl and x[0] != a)
                    for f in fam:
                        for (g, oth), q in fixed[f].items():
                            if f in FLAT:
                                if k != (('den', 'len') if 'density' in f else ('len',)):
                                    continue
                            elif g != k:
                                continue
                            fm = flags
                            for nm in oth:
                                fm = mmul(fm, ((T.atom('nz', T.intern(A('cell', ('struct', PAR, '.' + nm)))), 1),))
                            total[fm].append((cf, (rest, a), q))
                            ndrv += 1
            fl = flag_atoms()
            live = {}
            for fm, parts in total.items():
                by = defaultdict(int)
                for cf, tag, q in parts:
                    by[tag] = (by[tag] + q * cf) % Q
                by = {t: q for t, q in by.items() if q}
                if by:
                    live[fm] = by
            c.obligation('%s: %s-%s reaches the result' % (oname, *cs))
            for fm in live:
                for a, _ in fm:
                    if fl[a] in CON:
                        c.find('coffe_integrate:%s:%s:%s' % (oname, '-'.join(cs), fl[a]), 'in the %s the pair %s-%s is computed depending on the selection of %s' % (
                            otxt, NAMES[cs[0]], NAMES[cs[1]], NAMES[fl[a]]), 'src/signal.c coffe_integrate')
            if cs[0] == cs[1]:
                oc = {a for a, n in fl.items() if n == 'only_cross_correlations'}
                if cancelled(live, oc):
                    c.find('coffe_integrate:%s:%s:only-cross' % (oname, cs[0]), 'the self-correlation of %s is part of the %s when only cross-correlations are requested' % (NAMES[cs[0]], otxt), 'src/signal.c coffe_integrate')
            elif any(fl[a] == 'only_cross_correlations' for fm in live for a, _ in fm):
                c.find('coffe_integrate:%s:%s:only-cross' % (oname, '-'.join(cs)), 'the pair %s-%s depends on whether only cross-correlations are requested' % (NAMES[cs[0]], NAMES[cs[1]]), 'src/signal.c coffe_integrate')
            used = sorted({fl[a] for fm in live for a, _ in fm if fl[a].startswith('flatsky')})
            if not used and live:
                c.obligation()
                continue
            for vals in itertools.product((0, 1), repeat=len(used)):
                on = {n for n, v in zip(used, vals) if v}
                s = defaultdict(int)
                for fm, by in live.items():
                    if all(fl[a] in on or not fl[a].startswith('flatsky') for a, _ in fm):
                        r = tuple(x for x in fm if not fl[x[0]].startswith('flatsky'))
                        for t, q in by.items():
                            s[r, t] = (s[r, t] + q) % Q
                c.obligation()
                st = ', '.join('%s %s' % (u, 'on' if v else 'off') for u, v in zip(used, vals))
                if not any(s.values()) and not ('flatsky_local_nonlocal' in on and k in (('rsd', 'len'), ('len', 'd1'))):
                    c.find('coffe_integrate:%s:%s:dropped:%s' % (oname, '-'.join(cs), st), 'the pair %s-%s is not part of the %s%s' % (
                        NAMES[cs[0]], NAMES[cs[1]], otxt, ' with ' + st if st else ''), 'src/signal.c coffe_integrate')
    n_['driver_terms'] = ndrv


def driver(P, drv, it, ot, tname, oname, on, symbolic=False):
    """value of coffe_integrate for one kind of term and output, with the contributions in `on` selected (others off, or free)"""
    def bind(k):
        if k[0] == 'cell':
            n = setting(k)
            if n == 'output_type':
                return const(P.enums[oname])
            if n and n.startswith('correlation_contrib.'):
                if n.split('.')[1] in on:
                    return ONE
                return None if symbolic else ZERO
        return None
    return Val(P, drv, params={it: const(P.enums[tname]), ot: const(P.enums[oname])}, bind=bind).returned()


def the_call(m):
    calls = [(a, e) for a, e in m if T.keys[a][0] == 'call']
    if len(calls) != 1 or calls[0][1] != 1:
        raise AnalysisBroken('coffe_integrate is not linear in one integral: ' + show({m: 1}, 1)[:200])
    return calls[0][0], T.keys[calls[0][0]]


def contains(f, k, fixed):
    if f in FLAT:
        return k == (('den', 'len') if 'density' in f else ('len',))
    return any(g == k for g, _ in fixed[f])


def cancelled(live, oc):
    """what is left of the terms when the flags oc are set"""
    s = defaultdict(int)
    for fm, by in live.items():
        r = tuple(x for x in fm if x[0] not in oc)
        for t, q in by.items():
            s[r, t] = (s[r, t] + q) % Q
    return {k: q for k, q in s.items() if q}


def signature(q):
    """a linear fingerprint of a polynomial: equal polynomials have equal ones, different ones differ (up to a chance of 2^-60)"""
    r = 0
    for m, c in q.items():
        h = hash(m)
        r += c * ((h * h * h + 0x9E3779B97F4A7C15 * h + 12345) % Q)
    return r % Q


def indicators(o):
    """the indicators that are decided once the kind of output is fixed"""
    ind = {}
    for a, k in enumerate(T.keys):
        if k[0] == 'nz' and k[1][0] == 'P':
            d = rewriter(lambda x: const(o) if x[0] == 'cell' and setting(x) == 'output_type' else None)(T.poly(k[1]))
            cv = cval(d)
            if cv is not None:
                ind[a] = 1 if cv else 0
    return ind


def fixed_output(q, ind):
    """q with the kind of output fixed (it only occurs in indicators)"""
    out = {}
    for m, cf in q.items():
        keep = True
        r = m
        for a, _ in m:
            if a in ind:
                if not ind[a]:
                    keep = False
                    break
                r = tuple(x for x in r if x[0] != a)
        if keep:
            v = (out.get(r, 0) + cf) % Q
            if v:
                out[r] = v
            else:
                out.pop(r, None)
    return out


def integrated(P, drv, k, memo={}):
    """(functions of functions.c that the integral or direct call k evaluates, its integrand)"""
    n = k[1]
    if n in ALLF:
        return [n], None
    if n not in LINEAR:
        raise AnalysisBroken('coffe_integrate calls ' + n)
    a = k[2 + LINEAR[n]]
    if a[0] != 'glob':
        raise AnalysisBroken('%s of an unknown integrand' % n)
    if a[1] in memo:
        return memo[a[1]]
    f = P.resolve(drv, a[1])
    if f is None:
        raise AnalysisBroken('no integrand ' + a[1])
    fam = set()
    for m in Val(P, f).returned():
        cl = [T.keys[x][1] for x, e in m if T.keys[x][0] == 'call' and T.keys[x][1] in ALLF]
        if len(cl) != 1:
            raise AnalysisBroken('%s is not one of the signal functions times a weight' % a[1])
        fam.add(cl[0])
    memo[a[1]] = sorted(fam), a[1]
    return memo[a[1]]


INIT = {'coffe_corrfunc_init': 'CORRFUNC', 'coffe_multipoles_init': 'MULTIPOLES', 'coffe_average_multipoles_init': 'AVERAGE_MULTIPOLES'}


def sums(c, P):
    """the stored value is the sum of one coffe_integrate of each kind"""
    for fn_, t in INIT.items():
        f = P.funcs.get(fn_)
        if f is None:
            raise AnalysisBroken('no function ' + fn_)
        v = Val(P, f)
        stores = defaultdict(list)
        for i in f.insts():
            if i.op != 'store' or (i.argtys or [''])[0] == 'ptr':
                continue
            a = v.addr(i.args[1])
            if str(a[-1]) == '.value':
                stores[tuple(x for x in a if isinstance(x, str))].append((i, a))
        total, sets = defaultdict(int), 0
        for path, ss in stores.items():
            for i, a in ss:
                adds = False
                for m, cf in v.num(i.args[0]).items():
                    key = T.keys[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
                    if key and key[0] == 'cell' and key[1][-1] == '.value' and cf == 1:
                        adds = True
                    elif key and key[0] == 'call' and key[1] == 'coffe_integrate':
                        kind, out = (cval(T.poly(x)) for x in key[-2:])
                        if kind is None or out is None:
                            return c.cover(undecided_sum=fn_)
                        total[int(kind)] += cf
                        c.obligation('%s adds kind %s' % (fn_, kind))
                        if out != P.enums[t]:
                            c.find('%s:output' % fn_, '%s computes another kind of output' % fn_, fn_)
                    else:
                        return c.cover(undecided_sum=fn_)
                if not adds:
                    sets += 1
                    if any(before(v, j, i) for j, _ in ss if j is not i):
                        c.find('%s:overwritten' % fn_, 'a part of the signal is overwritten by another one in ' + fn_, fn_)
        if not sets:
            c.find('%s:uninitialised' % fn_, 'the signal is added to a value that was never set in ' + fn_, fn_)
        c.need(len(stores), 'results stored by ' + fn_)
        for tname, ttxt in TYPES:
            if total[P.enums[tname]] != 1:
                c.find('%s:%s' % (fn_, tname), 'the %s terms are added %s times in %s' % (ttxt, total[P.enums[tname]], fn_), fn_)


def before(v, a, b):
    """a can be executed before b within one pass (back edges ignored)"""
    if a.block is b.block:
        return a.idx < b.idx
    both = {h for h, body in v.loop_items() if a.block.name in body and b.block.name in body}
    bodies = {h: body for h, body in v.loop_items()}
    seen, st = set(), [a.block]
    while st:
        x = st.pop()
        for y in x.succs:
            if y.name in seen or y.name in both and x.name in bodies[y.name]:
                continue
            if y is b.block:
                return True
            seen.add(y.name)
            st.append(y)
    return False


def python_side(c):
    """single-point computations add one term of each kind; the kind of output the terms are evaluated for is the one computed"""
    import pysym
    M = pysym.Model()
    I = pysym.Interp(M)
    skip = ('from_file', 'to_file', 'parameters.get', '__dealloc__')
    runs = [(lab, fn_, I.run(fn_)) for lab, fn_, kind in M.public_entries()
            if lab not in skip and not (lab.startswith('_') and not lab.startswith('__'))]
    changed = any(e.kind == 'write' and e.a == ('_parameters', 'output_type') and e.b != ('init', ('_parameters', 'output_type')) and p.exit != 'raise' and
                  last_write(p) != ('init', ('_parameters', 'output_type')) for _, _, ps in runs for p in ps for e in p.events)
    npaths = 0
    for lab, fn_, ps in runs:
        for p in ps:
            calls = [e for e in p.events if e.kind == 'ccall' and (e.a in INIT or e.a == 'coffe_integrate')]
            if not calls:
                continue
            npaths += 1
            cur = None
            for e in p.events:
                if e.kind == 'write' and e.a == ('_parameters', 'output_type'):
                    cur = e.b
                if e in calls:
                    want = INIT.get(e.a)
                    if want is None:
                        want = e.b[-1][1].split('.')[-1] if e.b[-1][0] == 'name' else None
                    if cur is None or cur == ('init', ('_parameters', 'output_type')):
                        got = None if changed else 'MULTIPOLES'
                    else:
                        got = cur[1].split('.')[-1] if cur[0] == 'name' else None
                    c.obligation()
                    if want and got and want != got:
                        c.find('%s:%s:kind' % (lab, want), '%s computes the %s while the terms are selected for the %s' % (lab, dict(OUT)[want], dict(OUT).get(got, got)), 'python/coffe/coffe.pyx:%d' % e.line)
            if p.exit != 'raise' and any(e.a == 'coffe_integrate' for e in calls) and p.ret is not None:
                parts = flatten(p.ret)
                kinds = [x[2][-2][1].split('.')[-1] for x in parts if x[0] == 'ccall' and x[1] == 'coffe_integrate' and x[2][-2][0] == 'name']
                if len(kinds) != len(parts):
                    c.cover(undecided_python=lab)
                elif sorted(kinds) != sorted(t for t, _ in TYPES):
                    c.find('%s:sum' % lab, '%s adds the terms %s' % (lab, ', '.join(kinds)), 'python/coffe/coffe.pyx %s' % lab)
                elif len({x[2][:-2] + x[2][-1:] for x in parts}) != 1:
                    c.find('%s:arguments' % lab, '%s evaluates the three kinds of terms at different points' % lab, 'python/coffe/coffe.pyx %s' % lab)
    c.need(npaths, 'paths of the Python interface computing a signal', 10)
    c.cover(python_paths=npaths)


def last_write(p):
    w = [e.b for e in p.events if e.kind == 'write' and e.a == ('_parameters', 'output_type')]
    return w[-1] if w else ('init', ('_parameters', 'output_type'))


def flatten(t):
    if t[0] == 'bin' and t[1] == 'Add':
        return flatten(t[2]) + flatten(t[3])
    return [t]


if __name__ == '__main__':
    common.main('C12', run)
