"""C09: iterations of a parallel loop touch no common memory that one of them writes."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken, Glob, Reg, Const
from val import *
from effects import Effects

# library functions that use memory shared by the whole program
UNSAFE = re.compile(r'^(fftw_plan_(?!with_nthreads)\w+|fftw_destroy_plan|fftw_cleanup\w*|fftw_(import|export|forget)_\w*wisdom\w*|gsl_rng_env_setup|gsl_set_error_handler(_off)?|'
                    r'gsl_set_\w+|rand|srand|random|srandom|drand48|srand48|lrand48|strtok|lgammaf?l?|gammaf?|asctime|ctime|gmtime|localtime|setlocale|setenv|putenv|unsetenv|strerror|getopt\w*|signal|tmpnam|hsearch)$')
# the answer depends on which thread runs the iteration
THREAD = re.compile(r'^(omp_get_(thread_num|num_threads|wtime|level|team_num)|pthread_self|sched_getcpu|clock|time|gettimeofday|clock_gettime|rand|getpid)$')


def run(c):
    P = ir.Program('omp-inline')
    regions = []
    for f in P.funcs.values():
        for i in f.insts():
            if i.op == 'call' and isinstance(i.x, Glob) and i.x.name == '__kmpc_fork_call':
                g = i.args[2]
                if not isinstance(g, Glob) or P.resolve(f, g.name) is None:
                    raise AnalysisBroken('body of the parallel region at %s' % f.loc(i))
                regions.append((f, i, P.resolve(f, g.name)))
    c.need(len(regions), 'parallel regions', 5)
    jobs = [(r[2].name, region, (P, r)) for r in regions]
    c.parallel(jobs)
    c.cover(explanation='every memory access of the call tree of every parallel loop (through pointers, structures, function pointers and callbacks of the libraries), '
            'classified as private to the iteration, an element of an array chosen by the iteration, or shared; shared memory must not be written', parallel_regions=[r[2].name for r in regions])
    c.assumptions.append('pointers given to the same function refer to different objects; functions of the libraries outside the table write only through the arguments the table gives')


def owner(f):
    return re.sub(r'\.omp_outlined.*', '', f.name)


class Index:
    """indices of elements in a parallel loop"""

    def __init__(self, P, f):
        self.P, self.f = P, f
        self.v = Val(P, f)
        self.iv = [i for i in f.insts() if i.op == 'phi' and i.res.startswith('.omp.iv')]
        self.ivk = [('loopphi', f.name, i.res) for i in self.iv]

    def kind(self, p):
        """'own' if different iterations have different indices, 'common' if not, None if the index does not move"""
        keys = {T.keys[a] for m in p for a, _ in m}
        every = set(atoms(p))
        if not any(k in self.ivk for k in every):
            return None
        if len(self.iv) != 1:
            raise AnalysisBroken('several loops in one parallel region')
        iv = self.ivk[0]
        X = A(*iv)
        # quotient of the collapsed counter
        qs = [k for k in keys if k != iv and any(x == iv for x in atoms(A(*k)))]
        inner = [k for k in keys if k[0] == 'loopphi' and k != iv]
        lin = {}
        rest = {}
        for m, q in p.items():
            mine = [(a, e) for a, e in m if T.keys[a] == iv or T.keys[a] in qs or T.keys[a] in inner]
            if not mine:
                rest[m] = q
                continue
            if len(mine) != 1 or mine[0][1] != 1:
                raise AnalysisBroken('index %s' % show(p)[:200])
            k = T.keys[mine[0][0]]
            mm = tuple(y for y in m if y[0] != mine[0][0])
            lin[k] = add(lin.get(k, {}), {mm: q})
        for q in rest and [rest] or []:
            for k in atoms(q):
                if k[0] not in ('cell', 'arg', 'local', 'var', 'struct', '*', '[]') and k[0] != 'cell':
                    pass
        if len(qs) > 1:
            raise AnalysisBroken('index %s' % show(p)[:200])
        b = lin.get(iv, ZERO)
        width = ONE
        for k in inner:
            r = counted(self.v, self.f.defs[k[2]])
            if r is None or r[1] != 1 or r[3] not in ('slt', 'ult', 'ne') or r[0] or any(x == iv for x in atoms(r[2])):
                raise AnalysisBroken('inner index %s' % show(p)[:200])
            width = mul(width, r[2])
        if not qs:
            if not inner:
                return 'own'                     # a multiple of the counter
            if len(inner) == 1:
                co = lin[inner[0]]
                if b == mul(co, width):
                    return 'own'
                if co == mul(b, self.total()):
                    return 'own'
            raise AnalysisBroken('index %s' % show(p)[:200])
        q = qs[0]
        n = self.divisor(q, iv)
        if n is None or inner:
            raise AnalysisBroken('index %s' % show(p)[:200])
        a = add(lin[q], mul(b, n))               # p = a*quotient + b*remainder + rest
        if not a or not b:
            return 'common'
        if a == mul(b, n):
            return 'own'
        tot = self.total()
        d = div(tot, n)
        if b == mul(a, d) or not clear(sub(b, mul(a, d))):
            return 'own'
        if a == b or a == neg(b):
            return 'common'                      # both counters have more than one value
        # a*q + b*r with q < d, r < n: one step of a counter is the stride of the other
        for x, y, m in ((a, b, d), (b, a, n)):
            if x == ONE:
                gap = cval(clear(sub(y, m)))
                if gap is not None:
                    return 'common' if gap < 0 else 'own'
        raise AnalysisBroken('index %s' % show(p)[:200])

    def divisor(self, q, iv):
        """n for iv / n"""
        if q[0] in ('op', 'intop', 'int') and any(isinstance(x, str) and x in ('udiv', 'sdiv') for x in q):
            ops = [x for x in q if not isinstance(x, str)]
            return T.poly(ops[-1])
        return None

    def total(self):
        """number of iterations"""
        for i in self.f.insts():
            if i.op == 'store':
                a = self.v.addr(i.args[1])
                if a[0] == 'local' and '.omp.ub' in str(a[1]):
                    return add(self.v.num(i.args[0]), ONE)
        raise AnalysisBroken('number of iterations')


def region(c, P, r):
    parent, call, f = r
    ix = Index(P, f)
    where = owner(f)
    v = ix.v
    elements, moved = {}, {}
    und = []
    for i in f.insts():
        if i.op == 'getelementptr' and not all(isinstance(a, Const) for a in i.args[1:]):
            try:
                a = v.addr(Reg(i.res))
            except AnalysisBroken:
                continue
            idx = [T.poly(x[1]) for x in a if isinstance(x, tuple) and x and x[0] == '[]']
            for p in idx:
                try:
                    k = ix.kind(p)
                except AnalysisBroken as e:
                    und.append((i, str(e)))
                    k = 'own'
                if k == 'own':
                    elements[(f.qname, i.res)] = T.intern(p)
                    break
                if k == 'common':
                    moved[(f.qname, i.res)] = p
            # an element of an element: arrays of arrays
            if (f.qname, i.res) not in elements:
                b = a
                while b[0] == '*':
                    b = b[1]
                    own = [p for p in [T.poly(x[1]) for x in b if isinstance(x, tuple) and x and x[0] == '[]'] if any(k in ix.ivk for k in atoms(p))]
                    if own:
                        elements[(f.qname, i.res)] = T.intern(own[0])
                        break
    # what the region is given: variables and values of the function around it
    args = []
    for n, (p, t) in enumerate(zip(f.params, f.ptypes)):
        if t != 'ptr':
            args.append(NOPTR)
        elif n < 2:
            args.append(frozenset([(('L', f.qname, p), ())]))
        else:
            args.append(frozenset([(('S', p, ()), ())]))
    E = Effects(P, elements).run(f, args)
    for x in sorted(E.unresolved):
        raise AnalysisBroken('call through a pointer at %s:%s' % x)
    seen = 0
    for (o, p), at in E.writes.items():
        seen += len(at)
        c.obligation('%s: %s' % (where, describe(o, p)) if len(c.oblsamples) < 3 else None)
        g, i, crit, chain = at[0]
        if o[0] == 'E' or len({x[2] for x in at + E.reads.get((o, p), [])}) == 1 and at[0][2]:
            continue                            # one lock around every access
        if o[0] == 'G' and constant(g, o[1]):
            continue
        via = ' > '.join(chain)
        what = i.x.name if i.op == 'call' else 'a store'
        c.find('%s:%s' % (where, label(o, p, i)), 'iterations of the parallel loop of %s write the same memory, %s, by %s in %s (called through %s)' % (where, describe(o, p), what, g.name, via), g.loc(i))
    # an element written by one iteration is not read or written by another
    mine = {}
    for (o, p), at in E.writes.items():
        if o[0] == 'E':
            mine.setdefault((o[1], p), set()).add(o[2])
    for table, verb in ((E.writes, 'writes'), (E.reads, 'reads')):
        for (o, p), at in table.items():
            base, idx = (o[1], o[2]) if o[0] == 'E' else (o, None)
            for (b2, p2), ks in mine.items():
                if b2 != base or p[:len(p2)] != p2 and p2[:len(p)] != p:
                    continue
                c.obligation()
                if idx is None and at[0][1].op == 'call' and not p:
                    raise AnalysisBroken('the array %s is given to %s' % (describe(base, p), at[0][1].x))
                bad = [k for k in ks if k != idx]
                if bad and idx is not None and any(inner_only(T.poly(k), T.poly(idx), ix) for k in bad):
                    continue
                if bad:
                    g, i, crit, chain = at[0]
                    c.find('%s:element:%s' % (where, label(base, p, i)), 'an iteration of the parallel loop of %s %s elements of %s that another one writes' % (where, verb, describe(base, p)), g.loc(i))
    held = {}
    for n, at in E.calls.items():
        bad = [x for x in at if not x[2]]
        if UNSAFE.match(n):
            c.obligation()
            fam = n.split('_')[0]
            held.setdefault(fam, []).extend(at)
        if UNSAFE.match(n) and bad:
            g, i, crit, chain = bad[0]
            c.find('%s:%s' % (where, n), '%s, which uses memory common to all threads, is called in the parallel loop of %s (through %s)' % (n, where, ' > '.join(chain)), g.loc(i))
        if THREAD.match(n):
            g, i, crit, chain = at[0]
            c.find('%s:%s' % (where, n), 'what the parallel loop of %s computes depends on the thread: %s is called (through %s)' % (where, n, ' > '.join(chain)), g.loc(i))
    for fam, at in held.items():
        if all(x[2] for x in at) and len({x[2] for x in at}) > 1:
            g, i, crit, chain = at[0]
            c.find('%s:%s:locks' % (where, fam), 'calls of %s in the parallel loop of %s are protected by different locks' % (fam, where), g.loc(i))
    c.obl += seen + sum(len(x) for x in E.calls.values())
    if und:
        i, e = und[0]
        raise AnalysisBroken('%s (%d)' % (e, len(und)))


NOPTR = frozenset()


def inner_only(p, q, ix):
    """the two indices are in the block of elements of the same iteration"""
    a = {m: x for m, x in p.items() if not any(T.keys[k][0] == 'loopphi' and T.keys[k] not in ix.ivk for k, _ in m)}
    b = {m: x for m, x in q.items() if not any(T.keys[k][0] == 'loopphi' and T.keys[k] not in ix.ivk for k, _ in m)}
    return a == b and p != a and q != b


def constant(f, name):
    g = f.mod.globals.get(name) if hasattr(f.mod, 'globals') else None
    return name.startswith('.str')


def describe(o, p):
    if o[0] == 'E':
        return 'an element of ' + describe(o[1], p)
    if o[0] == 'G':
        return 'the variable ' + o[1]
    if o[0] == 'S':
        return 'memory reached from %s%s' % (o[1], ''.join('->' + '.'.join(x) for x in o[2] + ((p,) if p else ())))
    return str(o)


def label(o, p, i):
    by = i.x.name if i.op == 'call' else 'store'
    if o[0] == 'E':
        o = o[1]
    return '%s:%s' % (by, o[1])


if __name__ == '__main__':
    common.main('C09', run)
