"""C22: whatever a query or computation reads has been prepared before, on every path."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, pysym
from ir import AnalysisBroken
from c01_fresh import Deps, CACHES, PS, PSFIELDS
from c03_readback import walk

PYX = 'python/coffe/coffe.pyx'
WHAT = {'_background': 'the background', '_integral': 'the integrals of the power spectrum', PS: 'the power spectrum', '_corrfunc': 'the correlation function', '_multipoles': 'the multipoles',
        '_average_multipoles': 'the averaged multipoles', '_covariance_multipoles': 'the covariance', '_average_covariance_multipoles': 'the averaged covariance'}
UNKNOWN, READY, ABSENT = 'unknown', 'ready', 'absent'


def run(c):
    D = Deps()
    M = pysym.Model()
    I = pysym.Interp(M)
    P, E = D.P, D.E
    types = {'coffe_parameters_t', 'coffe_background_t', 'coffe_integral_array_t'}
    memo = {}

    def reads(name):
        """locations the library function reads"""
        if name not in memo:
            g = P.funcs[name]
            out = {p for p in E.deps(g, types, {})}
            memo[name] = {PS for p in out if p[0] == 'coffe_parameters_t' and p[1] in PSFIELDS} | \
                {'_background' for p in out if p[0] == 'coffe_background_t'} | {'_integral' for p in out if p[0] == 'coffe_integral_array_t'}
        return memo[name]
    builders = {fn for fn, _ in CACHES.values()}
    n = uses = 0
    for label, fn, kind in M.public_entries():
        if label in ('from_file', 'to_file', 'parameters.get', '__dealloc__', '__cinit__', '__init__') or label.startswith('_'):
            continue
        n += 1
        for p in I.run(fn):
            st = {}
            found = []
            feasible = True

            def need(loc, line, why):
                nonlocal uses
                uses += 1
                s = st.get(loc, UNKNOWN)
                if s != READY:
                    found.append(('%s:%s' % (label, loc.strip('_')), '%s uses %s, %s' % (label, WHAT[loc], 'which it has just released' if s == ABSENT else 'which need not have been computed at that point (%s)' % why),
                           '%s:%s' % (PYX, line)))
            for e in p.events:
                if e.kind == 'cond':
                    for loc, there in proves(e.a, e.b):
                        if there and st.get(loc) == ABSENT:
                            feasible = False         # released on this path, so the test cannot find it
                        if st.get(loc, UNKNOWN) == UNKNOWN:
                            st[loc] = READY if there else ABSENT
                elif e.kind == 'write':
                    if e.a == (PS,):
                        st[PS] = ABSENT if e.b == ('const', 0) else READY
                    elif e.a[0] in CACHES and len(e.a) == 2 and e.a[1] in ('flag', 'size') and e.b == ('const', 0):
                        st[e.a[0]] = ABSENT
                elif e.kind == 'ccall':
                    locs = [a[1] if a[0] == 'addr' else None for a in e.b]
                    if e.a == 'parse_external_power_spectrum':
                        st[PS] = READY
                        continue
                    g = P.funcs.get(e.a)
                    if g is None:
                        continue
                    # parts of a table given to a function of the library
                    for k, l in enumerate(locs):
                        if not l:
                            continue
                        if E.releaser(g) and k in E.mr.mod[g.qname]:
                            if l[0] in CACHES and len(l) == 1:
                                st[l[0]] = ABSENT
                            continue
                        if l[0] in CACHES and len(l) > 1:
                            need(l[0], e.line, e.a)
                        if l[0] == '_parameters' and len(l) > 1 and l[1] in PSFIELDS and k not in E.mr.mod[g.qname]:
                            need(PS, e.line, e.a)
                    if E.releaser(g):
                        continue
                    whole = {l[0] for l in locs if l and len(l) == 1}
                    mine = {l for l in whole if l in CACHES and e.a == CACHES[l][0]}
                    if e.a in builders:
                        ls = [l for l in mine]
                        for l in ls:
                            for u in D.upstream.get(l, ()):
                                if u != l:
                                    need(u, e.line, e.a)
                            st[l] = READY
                    else:
                        r = reads(e.a) if whole & {'_background', '_integral', '_parameters'} else set()
                        for l in r:
                            if l == PS and '_parameters' in whole or l in whole:
                                need(l, e.line, e.a)
                        for l in whole & set(CACHES):
                            if l not in ('_background', '_integral'):
                                need(l, e.line, e.a)
            if p.exit == 'return' and p.ret is not None:
                for loc in {t[1][0] for t in walk(p.ret) if t[:1] == ('init',) and len(t) == 2 and isinstance(t[1], tuple) and t[1] and t[1][0] in CACHES}:
                    need(loc, fn.lineno, 'returned')
            c.obligation()
            for x in found if feasible else ():
                c.find(*x)
        c.obligation({'entry': label} if kind == 'method' and n % 10 == 0 else None)
    c.need(n, 'entries', 60)
    c.need(uses, 'uses of prepared tables', 50)
    c.cover(explanation='on every path of every public entry: each table handed to the library, or returned, is known to be present (tested on the path or built on it), in the order the builders read one another',
            builders_need={k: sorted(v) for k, v in D.upstream.items()}, uses=uses)


def proves(t, pol):
    """[(location, present)] that the branch shows"""
    if t[0] == 'not':
        return proves(t[1], not pol)
    if t[0] == 'init':
        l = loc_of(t[1])
        return [(l, pol)] if l else []
    if t[0] == 'and' and pol or t[0] == 'or' and not pol:
        return [y for x in t[1] for y in proves(x, pol)]
    if t[0] == 'cmp' and len(t) == 4:
        a, b = t[2], t[3]
        if a[0] == 'const':
            a, b = b, a
        if a[0] == 'init' and b[0] == 'const' and loc_of(a[1]):
            l = loc_of(a[1])
            op = t[1]
            if b[1] == 0:
                if op in ('Eq', 'Is'):
                    return [(l, not pol)]
                if op in ('NotEq', 'Gt', 'IsNot'):
                    return [(l, pol)]
            if b[1] == 1 and op == 'Eq' and pol or b[1] == 1 and op == 'NotEq' and not pol:
                return [(l, True)]
    if t[0] == 'call' and t[1] == 'bool' and len(t[2]) == 1:
        return proves(t[2][0], pol)
    return []


def loc_of(path):
    if path == (PS,):
        return PS
    if len(path) == 2 and path[0] in CACHES and path[1] in ('size', 'flag'):
        return path[0]
    return None


if __name__ == '__main__':
    common.main('C22', run)
