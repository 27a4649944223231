"""C19: every table of integrals of the power spectrum holds the integral its readers take it for, and exists whenever it is read."""
import itertools, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken, Glob, Reg, Const, dominators
from val import *
from terms import *

INIT = 'coffe_integrals_init'
ARR = ('*', ('struct', 'coffe_integral_array_t', '.array'))
ONED = {'coffe_integrate_1d_prec_gsl', 'coffe_integrate_1d_prec_double_exponential', 'coffe_integrate_1d_prec'}
POWER = ('struct', PAR, '.power_spectrum_norm')
SETTING = lambda nm: A('cell', ('struct', PAR, '.' + nm))
HALF = Fraction(1, 2)
LS = range(0, 9)


class Tables:
    """the code that fills the tables, read with given values of n, l and the states"""

    def __init__(self, P, known=None):
        self.P = P
        self.f = P.funcs.get(INIT)
        if self.f is None:
            raise AnalysisBroken('no function ' + INIT)
        known = known or {}
        self.v = Val(P, self.f, bind=lambda k: known.get(k))
        self.pos = {id(i): n for n, i in enumerate(i for b in rpo(self.f) for i in b.insts)}

    def entry(self, u):
        """the construction of a table an instruction belongs to: the nearest dominating store of .n"""
        b = u.block
        while b is not None:
            c = [i for i in self.nstores() if i.block is b and (b is not u.block or i.idx <= u.idx)]
            if c:
                return c[-1]
            d = self.v.idom_block(b)
            b = None if d is b else d
        return None

    def nstores(self):
        if not hasattr(self, '_n'):
            self._n = [i for i, a in self.stores() if a[:2] == ARR and a[-1] == '.n' and len(a) == 4]
        return self._n

    def stores(self):
        if not hasattr(self, '_s'):
            self._s = [(i, self.v.addr(i.args[1])) for i in self.f.insts() if i.op == 'store']
        return self._s

    def calls(self, *names):
        return [i for i in self.f.insts() if i.op == 'call' and isinstance(i.x, Glob) and (not names or i.x.name in names)]


def rpo(f):
    """reverse postorder with the body of a loop before what follows it"""
    seen, out = set(), []
    loops = natural_loops(f)
    bodies = [{x.name if hasattr(x, 'name') else x for x in b} for _, b in (loops.items() if isinstance(loops, dict) else loops)]

    def ordered(b):
        # successors that leave a loop are visited first, so they end up last
        return sorted(b.succs, key=lambda s: sum(b.name in q and s.name in q for q in bodies))

    def go(b):
        st = [(b, iter(ordered(b)))]
        seen.add(b.name)
        while st:
            x, it = st[-1]
            for s in it:
                if s.name not in seen:
                    seen.add(s.name)
                    st.append((s, iter(ordered(s))))
                    break
            else:
                out.append(x)
                st.pop()
    go(f.blocks[0])
    return out[::-1]


def run(c):
    P = ir.Program('inline')
    c.part('arrays', helpers, c, P)
    t = Tables(P)
    ents = c.part('entries', entries, c, P, t) or []
    n = 0
    for e in ents:
        for inst in e['instances']:
            if c.part('%s' % (inst['label'],), instance, c, P, e, inst):
                n += 1
    c.part('availability', available, c, P, ents)
    c.part('divergent integral, settings file', divergent_c, c, P)
    c.part('divergent integral, Python', divergent_py, c)
    c.part('reading a table from Python', integral_py, c)
    if 'undecided' not in c.cov:
        c.need(n, 'tables', 12)
    c.cover(tables=n, explanation='every spline written into the array of integrals: the arrays it is made of are followed from their allocation, each range of their elements has to hold the separation and the value '
            'the reader expects (limit at zero, quadrature below the transform, transform scaled by r^(n-l)), for every (n, l) of the built-in list and every multipole up to %d' % LS[-1])
    c.assumptions.append('the logarithmic Fourier transform (twofast) and the quadratures return the integral they are asked for')


# ---------------------------------------------------------------- array helpers of the library
def helpers(c, P):
    v = elementwise(P, 'coffe_multiply_power_array', 3)
    want = mul(v['in'](1), powsym(v['in'](2), A('arg', 4)))
    c.obligation('coffe_multiply_power_array')
    if v['value'] != want or v['out'] != 0:
        c.find('helper:coffe_multiply_power_array', 'element %s instead of first times second to the power' % show(v['value'], 3), 'src/common.c coffe_multiply_power_array')
    v = elementwise(P, 'coffe_rescale_array', 1)
    c.obligation('coffe_rescale_array')
    if v['value'] != mul(v['in'](0), A('arg', 2)) or v['out'] != 0:
        c.find('helper:coffe_rescale_array', 'element %s instead of the element times the factor' % show(v['value'], 3), 'src/common.c coffe_rescale_array')


def powsym(x, y):
    return powf(x, y)


def elementwise(P, name, size):
    f = P.funcs.get(name)
    if f is None:
        raise AnalysisBroken('no function ' + name)
    v = Val(P, f)
    st = [(i, v.addr(i.args[1])) for i in f.insts() if i.op == 'store']
    st = [(i, a) for i, a in st if a[0] == 'arg']
    if len(st) != 1 or len(st[0][1]) != 3:
        raise AnalysisBroken(name + ' is not a single loop over an array')
    i, a = st[0]
    idx = T.poly(a[2][1])
    ks = [T.keys[x] for m in idx for x, _ in m]
    if len(ks) != 1 or not full_range(v, ks[0], A('arg', size)):
        raise AnalysisBroken(name + ' does not run over the whole array')
    return {'value': v.num(i.args[0]), 'out': a[1], 'in': lambda k: A('cell', ('arg', k, a[2]))}


# ---------------------------------------------------------------- the entries
def entries(c, P, t):
    out = []
    v = t.v
    where = 'src/integrals.c ' + INIT
    grow = {}
    for i in t.nstores():
        e = {'n': i, 'line': i.line}
        idx = v.addr(i.args[1])[2]
        for fld in ('.l', '.state_n', '.state_l'):
            s = [u for u, a in t.stores() if a == ARR + (idx, fld) and t.entry(u) is i]
            if not s:
                b = t.v.pathcond(i.block)
                s = [u for u, a in t.stores() if a == ARR + (idx, fld) and u.block is i.block]
            if len(s) != 1:
                raise AnalysisBroken('%s of a table is stored %d times' % (fld, len(s)))
            e[fld] = s[0]
        e['idx'] = idx
        e['poly'] = {k: v.num(e[k].args[0]) for k in ('n', '.l', '.state_n', '.state_l')}
        e['instances'] = concrete(P, t, e)
        # the number of tables grows by one, after this one has been filled
        size = ('struct', 'coffe_integral_array_t', '.size')
        s = [u for u, a in t.stores() if a == size and t.entry(u) is i]
        c.obligation('one more table')
        old = A('cell', size)
        if not s:
            c.find('entry:%s:size' % label(e), 'the table of %s is never counted' % label(e), where)
        for u in s:
            if v.num(u.args[0]) != add(old, ONE) or len(s) != 1:
                c.find('entry:%s:size' % label(e), 'the number of tables becomes %s after adding one' % show(v.num(u.args[0])), '%s line %d' % (where, u.line))
        if T.poly(idx[1]) != old:
            c.find('entry:%s:position' % label(e), 'the table of %s is not written behind the existing ones' % label(e), where)
        out.append(e)
    c.need(len(out), 'constructions of tables', 3)
    # space for one more
    al = {}
    for u, a in t.stores():
        if a == ('struct', 'coffe_integral_array_t', '.array'):
            x = u.args[0]
            d = v.f.defs.get(x.name) if isinstance(x, Reg) else None
            if d is None or d.op != 'call':
                continue
            nm = d.x.name
            need = v.num(d.args[-1])
            c.obligation('space for one more table')
            cnt = A('cell', ('struct', 'coffe_integral_array_t', '.size'))
            if nm == 'realloc':
                unit = sub(need, {m: q for m, q in need.items() if m})
                if cval(unit) is None or need != mul(unit, add(cnt, ONE)) or cval(unit) <= 0:
                    c.find('space:realloc', 'the array of tables is resized to %s bytes' % show(need), '%s line %d' % (where, d.line))
                al.setdefault(str(cval(unit)), []).append(d)
            else:
                al.setdefault(str(cval(need)), []).append(d)
                pc = v.pathcond(u.block)
                if mul(pc, nz(cnt)) and not any(k[0] == 'nz' and k[1][0] == 'ptr' and '.array' in str(k) for k in atoms(pc)):
                    c.find('space:fresh', 'a new array replaces the tables that were already made', '%s line %d' % (where, d.line))
    if len(al) != 1:
        if any(k == 'None' for k in al):
            raise AnalysisBroken('allocation of the array of tables')
        c.find('space:element', 'the array of tables is allocated with elements of %s bytes' % ' and '.join(sorted(al)), where)
    return out


def label(e):
    i = e.get('instances')
    return '/'.join(x['label'] for x in i[:3]) if i else 'line %d' % e['line']


def konst(P, t, key):
    """the values of a table of constants of the source, by index and field"""
    a = key[1]
    if key[0] != 'cell' or a[0] not in ('local', 'glob'):
        return None
    g = a[1] if a[0] == 'glob' else None
    if g is None:
        for i in t.calls():
            if i.x.name.startswith('llvm.memcpy') and t.v.addr(i.args[0]) == a[:2]:
                s = t.v.addr(i.args[1])
                if s[0] != 'glob' or g is not None:
                    return None
                g = s[1]
    m = next((m for m in P.mods.values() if g in m.globals), None)
    return globalvalues(m, g) if m else None


def globalvalues(m, g):
    """list of numbers or of dicts field -> number"""
    txt = m.globals[g]
    x = re.match(r'.*?\[(\d+) x (%struct\.\w+|double|i32|i64)\] (.*)$', txt)
    if not x or 'constant' not in txt.split('[')[0]:
        return None
    n, ty, body = int(x.group(1)), x.group(2), x.group(3)
    if body.startswith('zeroinitializer'):
        return [0] * n if not ty.startswith('%') else None
    if ty.startswith('%'):
        its = re.findall(re.escape(ty) + r' (zeroinitializer|\{[^}]*\})', body)
        flds = None
        for mm in (m,):
            flds = m.fields.get(ty[1:]) or m.fields.get(ty)
        out = []
        for it in its:
            vals = [int(q) for q in re.findall(r'i\d+ (-?\d+)', it)]
            out.append(vals)
        if flds is None or len(out) != n:
            return None
        return [dict(zip(['.' + q for q in flds], r or [0] * len(flds))) for r in out]
    its = re.findall(r'(?:double|i32|i64) (0x[0-9A-Fa-f]+|[-+0-9.eE]+)', body)
    if len(its) != n:
        return None
    import struct
    return [struct.unpack('>d', bytes.fromhex(q[2:].rjust(16, '0')))[0] if q.startswith('0x') else float(q) if ty == 'double' else int(q) for q in its]


def concrete(P, t, e):
    """the (n, l) the construction runs for, and the cells of the source this fixes"""
    pn, pl = e['poly']['n'], e['poly']['.l']
    sn, sl = cval(e['poly']['.state_n']), cval(e['poly']['.state_l'])
    if sn is None or sl is None:
        raise AnalysisBroken('state of a table')
    ats = {}
    for p in (pn, pl):
        for k in atoms(p):
            if k[0] in ('cell', 'loopphi'):
                ats[k] = None
    loops = [k for k in ats if k[0] == 'loopphi']
    consts = {k: konst(P, t, k) for k in ats if k[0] == 'cell'}
    consts = {k: x for k, x in consts.items() if x}
    lists = [k for k in ats if k[0] == 'cell' and k not in consts]
    out = []
    if consts:
        phi = [k for k in loops]
        if len(phi) != 1:
            raise AnalysisBroken('list of built-in integrals')
        size = {len(x) for x in consts.values()}
        if len(size) != 1:
            raise AnalysisBroken('list of built-in integrals')
        full = full_range(t.v, phi[0], const(min(size)))
        e['full'] = full
        r = counted(t.v, t.v.f.defs[phi[0][2]])
        if not full:
            if r is None or cval(r[0]) is None or cval(r[2]) is None:
                raise AnalysisBroken('loop over the built-in integrals')
        lo, hi = (0, min(size)) if full else (int(cval(r[0])), int(cval(r[2])) + (r[3] in ('ule', 'sle')))
        for q in range(lo, min(hi, min(size))):
            k = {}
            for a, x in consts.items():
                k[a] = const(x[q] if len(a[1]) == 3 else x[q].get(a[1][-1]))
            out.append(k)
    elif lists:
        if len(lists) != 1 or '.multipole_values' not in lists[0][1][1]:
            raise AnalysisBroken('multipoles the tables are made for')
        ph = [x for x in atoms(A(*lists[0])) if x[0] == 'loopphi']
        if len(ph) != 1:
            raise AnalysisBroken('loop over the multipoles')
        e['full'] = full_range(t.v, ph[0], A('cell', ('struct', PAR, '.multipole_values_len')))
        inner = [k for k in loops if k != ph[0]]
        e['multipole'] = lists[0]
        for l in LS:
            k = {lists[0]: const(l)}
            if not inner:
                out.append(k)
                continue
            if len(inner) != 1:
                raise AnalysisBroken('loops over the terms of a multipole')
            t2 = Tables(P, k)
            r = counted(t2.v, t2.f.defs[inner[0][2]])
            if r is None or cval(r[0]) is None or cval(r[2]) is None or r[1] != 1:
                raise AnalysisBroken('loop over the terms of a multipole')
            for q in range(int(cval(r[0])), int(cval(r[2])) + (r[3] in ('ule', 'sle'))):
                out.append(dict(k, **{}) | {inner[0]: const(q)})
    else:
        out.append({})
    res, seen = [], set()
    for k in out:
        g = rewriter(lambda x: k.get(x))
        n, l = cval(g(pn)), cval(g(pl))
        if n is None or l is None:
            raise AnalysisBroken('n and l of a table')
        n, l = int(n), int(l)
        if sl and l % 2 == 0:
            continue              # odd multipoles: these tables are not read (the terms are not implemented, see the flat-sky property)
        known = dict(k)
        for fld, x in (('.n', n), ('.l', l), ('.state_n', int(sn)), ('.state_l', int(sl))):
            known[('cell', ARR + (e['idx'], fld))] = const(x)
        N, L = Fraction(n, 2) if sn else Fraction(n), Fraction(l, 2) if sl else Fraction(l)
        res.append({'key': (n, l, int(sn), int(sl)), 'N': N, 'L': L, 'known': known, 'label': 'I(n=%s, l=%s)' % (N, L), 'for': cval(k[lists[0]]) if lists else None})
    return res


def sign(p):
    """sign of an expression in sizes, which are not negative; None if unknown"""
    c = [frac(q) for q in p.values()]
    if not c:
        return 0
    if all(q > 0 for q in c):
        return 1
    if all(q < 0 for q in c):
        return -1
    return None


# ---------------------------------------------------------------- arrays
class Arrays:
    """contents of the heap arrays of the function at a place of the program, as a list of ranges"""

    def __init__(self, P, t):
        self.P, self.t, self.v = P, t, t.v

    def writes(self, h, upto):
        """(position, lo, hi, function of the index and of the element before)"""
        v, out = self.v, []
        for i, a in self.t.stores():
            if a[:3] == h[:3] and a[0] == 'heap' and self.t.pos[id(i)] < upto and v.pathcond(i.block):
                out.append((self.t.pos[id(i)],) + self.store(i, a, h))
        for i in self.t.calls():
            n = i.x.name
            if n.startswith('llvm.') or n in ('free', 'coffe_init_spline', 'coffe_init_spline2d', 'fftw_free') or self.t.pos[id(i)] >= upto or not v.pathcond(i.block):
                continue
            ads = [v.addr(a) if ty == 'ptr' else None for a, ty in zip(i.args, i.argtys or [])]
            if h[:3] not in [a[:3] if a else None for a in ads]:
                continue
            num = lambda k: v.num(i.args[k])
            if n == 'twofast_1bessel' and h in ads[:2]:
                which = ads.index(h)
                what = ('fftx', T.intern(num(8)), T.intern(num(10)), T.intern(num(11)), T.intern(num(2))) if which == 0 else \
                    ('ffty', ads[3], ads[4]) + tuple(T.intern(num(k)) for k in (2, 5, 6, 7, 8, 9, 10, 11))
                out.append((self.t.pos[id(i)], ZERO, num(2), lambda x, old, what=what: A(*what, T.intern(x))))
            elif n == 'coffe_multiply_power_array' and ads[0] == h:
                out.append((self.t.pos[id(i)], ZERO, num(3), lambda x, old, i=i, ads=ads: mul(self.get(ads[1], h, x, old, self.t.pos[id(i)]),
                                                                                             powf(self.get(ads[2], h, x, old, self.t.pos[id(i)]), v.num(i.args[4])))))
            elif n == 'coffe_rescale_array' and ads[0] == h:
                out.append((self.t.pos[id(i)], ZERO, num(1), lambda x, old, i=i: mul(old, v.num(i.args[2]))))
            elif n in ('coffe_multiply_power_array',) or n == 'twofast_1bessel':
                continue                                    # only read
            else:
                raise AnalysisBroken('array is handed to ' + n)
        return sorted(out, key=lambda w: w[0])

    def get(self, a, h, x, old, upto):
        return old if a == h else self.element(a, x, upto)

    def store(self, i, a, h):
        v = self.v
        val = quadratures(self.P, self.t, v.num(i.args[0]))
        idx = a[3:]
        if not idx:
            j, ph = ZERO, None
        elif len(idx) == 1 and isinstance(idx[0], tuple):
            j = T.poly(idx[0][1])
            ph = [k for m in j for k in [T.keys[x] for x, _ in m] if k[0] == 'loopphi']
            if len(ph) > 1:
                raise AnalysisBroken('index %s' % show(j))
            ph = ph[0] if ph else None
        else:
            raise AnalysisBroken('element %s' % showaddr(a))
        cond = None
        if ph is None:
            lo, hi = j, add(j, ONE)
            shift = None
        else:
            r = counted(v, v.f.defs[ph[2]])
            if r is None or r[1] not in (1, -1):
                raise AnalysisBroken('loop over %s' % show(j))
            start, step, bound, pred, body = r
            if step == 1 and pred in ('slt', 'ult', 'ne', 'sle', 'ule'):
                s, e = start, bound if pred in ('slt', 'ult', 'ne') else add(bound, ONE)
            elif step == -1 and pred in ('sgt', 'ugt', 'ne', 'sge', 'uge'):
                s, e = (bound if pred in ('sge', 'uge') else add(bound, ONE)), add(start, ONE)
            else:
                raise AnalysisBroken('loop over %s' % show(j))
            shift = sub(j, A(*ph))
            if T.atom(*ph) in {x for m in shift for x, _ in m}:
                raise AnalysisBroken('index %s' % show(j))
            lo, hi = add(s, shift), add(e, shift)
            if i.block.name not in body:
                raise AnalysisBroken('loop over %s' % show(j))
        at = self.t.pos[id(i)]
        this = a

        def value(x, old):
            val2 = val if ph is None else substitute(val, {ph: sub(x, shift)})
            return self.resolve(val2, h, x, old, at)
        return lo, hi, value

    def resolve(self, p, h, x, old, at):
        """replace reads of heap arrays by their contents"""
        def one(k):
            if k[0] == 'cell' and k[1][0] == 'heap':
                b = k[1]
                j = T.poly(b[3][1]) if len(b) > 3 else ZERO
                if b[:3] == h[:3]:
                    return old if j == x else None
                return self.element(b[:3], j, at)
            return None
        return rewriter(one)(p)

    def ranges(self, h, upto):
        """[(lo, hi, value function)] of the array, later writes over earlier ones"""
        segs = []
        for _, lo, hi, fnc in self.writes(h, upto):
            new, done = [], False
            for s in segs:
                a, b = sign(sub(s[0], lo)), sign(sub(hi, s[1]))
                if a in (0, 1) and b in (0, 1):                                      # covered
                    new.append((s[0], s[1], lambda x, old=s[2], fnc=fnc: fnc(x, old(x))))
                    done = True
                elif sign(sub(s[1], lo)) in (0, -1) or sign(sub(hi, s[0])) in (0, -1):
                    new.append(s)
                elif a in (0, -1) and b in (0, -1):                                  # part of the old range
                    if sub(lo, s[0]):
                        new.append((s[0], lo, s[2]))
                    new.append((lo, hi, lambda x, old=s[2], fnc=fnc: fnc(x, old(x))))
                    if sub(s[1], hi):
                        new.append((hi, s[1], s[2]))
                    done = True
                else:
                    raise AnalysisBroken('overlapping ranges [%s, %s) and [%s, %s)' % tuple(show(q) for q in (lo, hi, s[0], s[1])))
            if not done:
                new.append((lo, hi, lambda x, fnc=fnc: fnc(x, A('undefined', 'element'))))
            segs = new
        return segs

    def element(self, h, x, upto):
        segs = self.ranges(h, upto)
        if len(segs) == 1:
            return segs[0][2](x)
        at = substitute(x, {('index', 'i'): ZERO})
        for lo, hi, fnc in segs:
            if sign(sub(at, lo)) in (0, 1) and sign(sub(hi, at)) == 1:
                return fnc(x)
        raise AnalysisBroken('element %s of an array with %d ranges' % (show(x), len(segs)))


# ---------------------------------------------------------------- quadratures
def bessel(k):
    """spherical and cylindrical Bessel functions under one name"""
    if k[0] == 'fn' and k[1] == 'gsl_sf_bessel_jl':
        return A('j', k[2], k[3])
    if k[0] == 'fn' and k[1].startswith('gsl_sf_bessel_j') and k[1][-1].isdigit():
        return A('j', T.intern(const(int(k[1][-1]))), k[2])
    if k[0] == 'fn' and k[1] == 'gsl_sf_bessel_Jn':
        return A('J', k[2], k[3])
    if k[0] == 'fn' and k[1].startswith('gsl_sf_bessel_J') and k[1][-1].isdigit():
        return A('J', T.intern(const(int(k[1][-1]))), k[2])
    return None


def integral_of(W, lo, hi):
    """linear in the integrand; the part that does not depend on k is taken out"""
    out = {}
    for m, q in W.items():
        dep = tuple(x for x in m if any(k == ('var', 'k') for k in atoms(A(*T.keys[x[0]]))))
        ind = tuple(x for x in m if x not in dep)
        out = add(out, mul({ind: q}, A('int', T.intern({dep: 1}), lo, hi)))
    return out


def quadratures(P, t, p):
    """p with every quadrature replaced by the integral it stands for"""
    def one(k):
        if k[0] != 'call' or k[1] not in ONED:
            return None
        if k[2][0] != 'glob':
            raise AnalysisBroken('integrand of ' + k[1])
        f = P.resolve(t.f, k[2][1])
        if f is None:
            raise AnalysisBroken('no integrand ' + k[2][1])
        flds = {}
        for path, ss in local_stores(t.v, k[3]).items():
            xs = [value(t.v, s.args[0]) for s in ss]
            if any(x != xs[0] for x in xs):
                # stores in a row: the last one stays
                if any(s.block is not ss[0].block for s in ss):
                    raise AnalysisBroken('parameter %s of an integrand' % (path,))
                xs = [value(t.v, max(ss, key=lambda s: s.idx).args[0])]
            flds[path] = xs[0]

        def path(a):
            p = a[2:]
            if p not in flds and a[0] == 'struct' and p == ('.' + (P.fields.get('struct.' + a[1]) or [''])[0],):
                return ()
            return p

        def bind(q):
            if q == ('arg', 0):
                return A('var', 'k')
            if q[0] == 'cell' and q[1][0] in ('struct', 'arg'):
                pth = path(q[1])
                if flds and pth not in flds:
                    return A('unset', pth)
                if pth in flds:
                    if flds[pth][0] != 'num':
                        raise AnalysisBroken('parameter %s' % (pth,))
                    return flds[pth][1]
            return None

        def abind(a):
            if a[0] in ('struct', 'arg') and path(a) in flds and flds[path(a)][0] == 'ptr':
                return flds[path(a)][1]
            return None
        W = rewriter(bessel)(Val(P, f, bind=bind, abind=abind).returned())
        return integral_of(W, k[4], k[5])
    return rewriter(one)(p)


def spectrum(k):
    return A('spline', POWER, T.intern(k))


def double_fact(n):
    return math.prod(range(n, 0, -2)) if n > 0 else 1


KMIN, KMAX = ('struct', PAR, '.k_min_norm'), ('struct', PAR, '.k_max_norm')


def I_of(N, L, r):
    """2 pi^2 I^N_L(r), as integral of the basis"""
    k = A('var', 'k')
    x = mul(k, r)
    lo, hi = T.intern(A('cell', KMIN)), T.intern(A('cell', KMAX))
    if L.denominator == 1:
        W = mul(mul(power(k, 2), spectrum(k)), mul(A('j', T.intern(const(L)), T.intern(x)), powf(x, const(-N))))
    else:
        W = mul(mul(power(k, 2), spectrum(k)), mul(A('J', T.intern(const(L + HALF)), T.intern(x)), powf(x, const(-N - HALF))))
        W = mul(W, fn('sqrt', scale(A('pi'), HALF)))
    return integral_of(W, lo, hi)


def limit(N, L):
    """2 pi^2 lim r^(N-L) I^N_L, r -> 0: j_L(x) -> sqrt(pi)/2 / Gamma(L+3/2) (x/2)^L"""
    if N < L:
        return ZERO
    k = A('var', 'k')
    lo, hi = T.intern(A('cell', KMIN)), T.intern(A('cell', KMAX))
    W = mul(powf(k, const(2 + L - N)), spectrum(k))
    cf = div(mul(scale(fn('sqrt', A('pi')), HALF), powf(const(HALF), const(L))), fn('gsl_sf_gamma', const(L + Fraction(3, 2))))
    return mul(cf, integral_of(W, lo, hi))


def norm():
    return scale(power(A('pi'), -2), HALF)


def positive(t, P):
    """tests on the separation of a quadrature: elements of the constant lists of separations are positive"""
    def dec(kind, d):
        for s in (1, -1):
            x = scale(d, s)
            if len(x) == 1:
                (m, q), = x.items()
                if len(m) == 1 and m[0][1] == 1 and lead(x) > 0:
                    k = T.keys[m[0][0]]
                    vals = konst(P, t, k) if k[0] == 'cell' else None
                    if vals and all(isinstance(z, (int, float)) and z > 0 for z in vals):
                        if kind == 'lt':
                            return ZERO if s == 1 else ONE
                        return ONE
        return None
    return dec


def same(a, b):
    return a == b or vanishes(sub(a, b))


def instance(c, P, e, inst):
    base = Tables(P)
    T.assume = positive(base, P)
    try:
        return instance_(c, P, e, inst)
    finally:
        T.assume = None


def instance_(c, P, e, inst):
    t = Tables(P, inst['known'])
    v = t.v
    N, L = inst['N'], inst['L']
    here = next(i for i in t.nstores() if i is e['n'])
    lab = inst['label']
    where = 'src/integrals.c %s' % INIT
    splines = [i for i in t.calls('coffe_init_spline', 'coffe_init_spline2d') if v.addr(i.args[0])[:2] == ARR and t.entry(i) is here]
    done = set()
    A_ = Arrays(P, t)
    for i in splines:
        a = v.addr(i.args[0])
        if a[2] != e['idx']:
            c.find('%s:place' % lab, 'a spline of %s is stored in another table' % lab, '%s line %d' % (where, i.line))
            continue
        fld = a[-1]
        c.obligation('%s %s' % (lab, fld))
        done.add(fld)
        if t.v.pathcond(i.block) != t.v.pathcond(here.block):
            d = sub(t.v.pathcond(i.block), t.v.pathcond(here.block))
            c.find('%s:%s:conditional' % (lab, fld), 'the spline is only made under a further condition', '%s line %d' % (where, i.line))
        if fld == '.result2d':
            continue
        if fld == '.renormalization':
            plane(c, P, t, A_, i, lab, where)
            continue
        xs, ys = v.addr(i.args[1]), v.addr(i.args[2])
        size = v.num(i.args[3])
        if v.num(i.args[4]) != SETTING('interp_method'):
            c.find('%s:%s:method' % (lab, fld), 'interpolated with %s instead of the interpolation setting' % show(v.num(i.args[4])), where)
        for nm, h in (('separations', xs), ('values', ys)):
            if h[0] != 'heap':
                raise AnalysisBroken('%s of %s' % (nm, lab))
            d = v.f.defs[h[2]]
            if d.x.name in ('coffe_malloc', 'malloc') and v.num(d.args[0]) != scale(size, 8):
                c.find('%s:%s:length' % (lab, fld), 'the array of %s has room for %s bytes, %s numbers are used' % (nm, show(v.num(d.args[0])), show(size)), where)
        at = t.pos[id(i)]
        X, Y = A_.ranges(xs, at), A_.ranges(ys, at)
        rx = [(lo, hi) for lo, hi, _ in X]
        bounds = sorted_ranges(rx, size)
        if bounds is None:
            c.find('%s:%s:range' % (lab, fld), 'the separations of %s are not set for every element: %s of %s' % (lab, ', '.join('[%s, %s)' % (show(a_), show(b_)) for a_, b_ in rx), show(size)), where)
            continue
        yb = sorted_ranges([(lo, hi) for lo, hi, _ in Y], size)
        if yb is None:
            c.find('%s:%s:range' % (lab, fld), 'the values of %s are not set for every element' % lab, where)
            continue
        if fld == '.result':
            result(c, P, t, v, lab, where, N, L, X, Y, size, inst)
        elif fld == '.renormalization_zero_separation':
            zero(c, P, t, v, lab, where, X, Y)
    need = {'.result'} | ({'.renormalization', '.renormalization_zero_separation'} if (N, L) == (4, 0) else set())
    for fld in sorted(need - done):
        c.find('%s:%s:missing' % (lab, fld), 'the table %s of %s is never filled' % (fld[1:], lab), where)
    return True


def sorted_ranges(rs, size):
    """the ranges cover [0, size) without gaps"""
    rs = list(rs)
    out, at = [], ZERO
    while rs:
        nx = [r for r in rs if r[0] == at]
        if len(nx) != 1:
            return None
        out.append(nx[0])
        rs.remove(nx[0])
        at = nx[0][1]
    return out if at == size else None


def at_range(segs, lo):
    for a, b, fnc in segs:
        if a == lo:
            return b, fnc
        d = cval(sub(lo, a))
        e = cval(sub(b, lo))
        if d is not None and d > 0 and (e is None or e > 0):
            return b, fnc
    raise AnalysisBroken('no element ' + show(lo))


def result(c, P, t, v, lab, where, N, L, X, Y, size, inst):
    extra = ONE
    if inst['key'] == (1, -1, 1, 1):
        # read as integral of k P J0, without the factors of the definition
        extra = mul(fn('sqrt', div(const(2), A('pi'))), scale(power(A('pi'), 2), 2))
    grow = powf if N >= L else (lambda x, y: ONE)
    var = A('index', 'i')
    kinds = []
    for lo, hi, fx in X:
        bhi, fy = at_range(Y, lo)
        i = lo if cval(sub(hi, lo)) == 1 else add(lo, var)
        x = fx(i)
        y = fy(i)
        und = [k for k in atoms(y) | atoms(x) if k[0] == 'undefined'] if isinstance(atoms(y), set) else [k for k in list(atoms(y)) + list(atoms(x)) if k[0] == 'undefined']
        if und:
            c.find('%s:uninitialised' % lab, 'elements [%s, %s) of %s are used before they are set' % (show(lo), show(hi), lab), where)
            continue
        ks = {k[0] for k in atoms(x)}
        if 'fftx' in ks:
            k = next(k for k in atoms(x) if k[0] == 'fftx')
            if x != A(*k):
                c.find('%s:grid' % lab, 'the separations of %s are %s instead of those of the transform' % (lab, show(x)), where)
                continue
            j = T.poly(k[-1])
            n = T.poly(k[4])
            if sub(i, lo) != j or sub(hi, lo) != n:
                c.find('%s:grid' % lab, 'the separations of %s are elements %s of the transform' % (lab, show(j)), where)
                continue
            if T.poly(k[1]) != ONE:
                start = T.poly(k[1])
            else:
                start = ONE
            if T.poly(k[2]) != A('cell', KMIN) or T.poly(k[3]) != A('cell', KMAX):
                c.find('%s:limits' % lab, 'the transform of %s runs over [%s, %s]' % (lab, show(T.poly(k[2])), show(T.poly(k[3]))), where)
            SAMPLES = ('*', POWER + ('.spline',))
            want = A('ffty', ('*', SAMPLES + ('.x',)), ('*', SAMPLES + ('.y',)), k[4], T.intern(A('cell', SAMPLES + ('.size',))),
                     T.intern(const(L)), T.intern(const(N)), k[1], T.intern(A('cell', KMIN)), k[2], k[3], T.intern(j))
            want = mul(mul(want, grow(x, const(N - L))), extra)
            kinds.append(('fft', start, lo))
        elif not x:
            want = mul(mul(norm(), limit(N, L)), extra)
            kinds.append(('zero', ZERO, lo))
        else:
            want = mul(mul(mul(norm(), I_of(N, L, x)), grow(x, const(N - L))), extra)
            kinds.append(('quad', x, lo))
        if not same(y, want):
            d = sub(y, want)
            if any(k[0] in ('opaque', 'rec', 'call') for k in atoms(y)):
                raise AnalysisBroken('%s: value %s' % (lab, show(y, 2)[:200]))
            c.find('%s:%s' % (lab, kinds[-1][0]), 'for %s the value of %s is %s instead of %s' % ({'fft': 'the transform', 'zero': 'zero separation', 'quad': 'small separations'}[kinds[-1][0]], lab,
                                                                                            show(y, 2)[:220], show(want, 2)[:220]), where)
    order(c, P, t, lab, where, kinds, inst)


def order(c, P, t, lab, where, kinds, inst):
    """separations grow: zero, the list of small ones, the transform"""
    seq = []
    base = {}
    pos = {k[0]: k for k in kinds}
    names = [k[0] for k in sorted(kinds, key=lambda k: (0 if not k[2] else 1, str(cval(k[2])) if cval(k[2]) is not None else 'z'))]
    for kind, x, lo in kinds:
        if kind == 'quad':
            ks = [k for m in x for k in [T.keys[q] for q, _ in m]]
            vals = konst(P, t, ks[0]) if len(ks) == 1 else None
            if vals is None:
                raise AnalysisBroken('list of separations of ' + lab)
            if any(a >= b for a, b in zip(vals, vals[1:])) or vals[0] <= 0:
                c.find('%s:order' % lab, 'the list of separations of %s is not increasing' % lab, where)
            j = T.poly(ks[0][1][-1][1])
            fr, to = substitute(j, {('index', 'i'): ZERO}), None
            base['quad'] = (vals, fr)
            if cval(fr) != 0:
                c.find('%s:order' % lab, 'the list of separations of %s is used from element %s' % (lab, show(fr)), where)
    if 'fft' in pos and 'quad' in base and cval(pos['fft'][1]) is not None:
        if base['quad'][0][-1] >= cval(pos['fft'][1]):
            c.find('%s:order' % lab, 'the small separations of %s reach into those of the transform' % lab, where)
    if 'fft' in pos and 'zero' not in pos and inst['key'] != (4, 0, 0, 0):
        c.find('%s:zero' % lab, '%s has no value at zero separation' % lab, where)


def zero(c, P, t, v, lab, where, X, Y):
    """int P (1 - j0(k chi)^2) / k^2 / 2 pi^2, zero at zero"""
    k = A('var', 'k')
    lo, hi = T.intern(A('cell', KMIN)), T.intern(A('cell', KMAX))
    var = A('index', 'i')
    for a, b, fx in X:
        _, fy = at_range(Y, a)
        i = a if cval(sub(b, a)) == 1 else add(a, var)
        x, y = fx(i), fy(i)
        c.obligation(lab + ' renormalised at zero separation')
        j0 = A('j', T.intern(ZERO), T.intern(mul(k, x)))
        W = mul(mul(spectrum(k), power(k, -2)), sub(ONE, mul(j0, j0)))
        want = mul(norm(), integral_of(W, lo, hi)) if x else ZERO
        if not same(y, want):
            if any(q[0] in ('opaque', 'rec', 'call') for q in atoms(y)):
                raise AnalysisBroken('%s: value %s' % (lab, show(y, 2)[:200]))
            c.find('%s:zero-separation' % lab, 'the renormalised value at zero separation is %s instead of %s' % (show(y, 3)[:200], show(want, 3)[:200]), where)


def plane(c, P, t, A_, i, lab, where):
    """int P j0(k x) j0(k y) / k^2 / 2 pi^2 on the grid of distances up to the largest redshift"""
    v = t.v
    xs, ys, zs = (v.addr(i.args[k]) for k in (1, 2, 3))
    nx, ny = v.num(i.args[4]), v.num(i.args[5])
    at = t.pos[id(i)]
    if v.num(i.args[6]) != SETTING('covariance_interpolation_method'):
        c.find(lab + ':renormalisation:method', 'interpolated with %s' % show(v.num(i.args[6])), where)
    for h, n in ((xs, nx), (ys, ny)):
        d = v.f.defs[h[2]]
        if v.num(d.args[0]) != scale(n, 8):
            c.find(lab + ':renormalisation:length', 'the array of distances has room for %s bytes' % show(v.num(d.args[0])), where)
    d = v.f.defs[zs[2]]
    if v.num(d.args[0]) != scale(mul(nx, ny), 8):
        c.find(lab + ':renormalisation:length', 'the array of values has room for %s bytes' % show(v.num(d.args[0])), where)
    X = A_.ranges(xs, at)
    if len(X) != 1 or cval(X[0][0]) != 0 or X[0][1] != nx:
        raise AnalysisBroken('grid of distances')
    g = X[0][2]
    var = A('index', 'i')
    if g(ZERO):
        c.find(lab + ':renormalisation:grid', 'the distances begin at %s instead of zero' % show(g(ZERO)), where)
    last = g(sub(nx, ONE))
    p = g(var)
    ki = T.atom('index', 'i')
    if any(dict(m).get(ki, 0) not in (0, 1) for m in p):
        raise AnalysisBroken('grid of distances %s' % show(p))
    cover_redshifts(c, P, t, last, lab, where)
    # values
    st = [(u, a) for u, a in t.stores() if a[:3] == zs[:3]]
    if len(st) != 1 or len(st[0][1]) != 4:
        raise AnalysisBroken('values of the renormalisation')
    u, a = st[0]
    idx = T.poly(a[3][1])
    val = quadratures(P, t, v.num(u.args[0]))
    val = A_.resolve(val, zs, None, None, at)
    ph = sorted({k for k in atoms(idx) if k[0] == 'loopphi'})
    if len(ph) != 2:
        raise AnalysisBroken('values of the renormalisation')
    fast = [k for k in ph if cval(coef(idx, k)) == 1]
    slow = [k for k in ph if coef(idx, k) == nx and k not in fast]
    c.obligation(lab + ' renormalisation')
    if len(fast) != 1 or len(slow) != 1 or sub(idx, add(A(*fast[0]), mul(nx, A(*slow[0])))):
        c.find(lab + ':renormalisation:index', 'the values are stored at %s' % show(idx), where)
        return
    for k, n in ((fast[0], nx), (slow[0], ny)):
        r = full_range(v, k, n)
        if r is None:
            raise AnalysisBroken('loop over the distances')
        if not r:
            c.find(lab + ':renormalisation:range', 'not all values are set', where)
    k = A('var', 'k')
    lo, hi = T.intern(A('cell', KMIN)), T.intern(A('cell', KMAX))
    chi = [A_.element(h, A(*q), at) for h, q in ((xs, fast[0]), (ys, slow[0]))]
    W = mul(mul(spectrum(k), power(k, -2)), mul(*[A('j', T.intern(ZERO), T.intern(mul(k, x))) for x in chi]))
    want = mul(norm(), integral_of(W, lo, hi))
    if not same(val, want):
        if any(q[0] in ('opaque', 'rec', 'call') for q in atoms(val)):
            raise AnalysisBroken('renormalisation: value %s' % show(val, 2)[:200])
        c.find(lab + ':renormalisation:value', 'the renormalisation is %s instead of %s' % (show(val, 2)[:200], show(want, 2)[:200]), where)


def coef(p, key):
    a = T.atom(*key)
    out = {}
    for m, q in p.items():
        d = dict(m)
        if d.get(a) == 1:
            d.pop(a)
            out[tuple(sorted(d.items()))] = q
    return out


def cover_redshifts(c, P, t, last, lab, where):
    """the last distance is that of a redshift not below any the signal is asked for"""
    v = t.v
    sp = [k for k in atoms(last) if k[0] == 'spline' and k[1] == ('struct', 'coffe_background_t', '.comoving_distance')]
    if len(sp) != 1:
        raise AnalysisBroken('largest distance %s' % show(last, 2))
    seen, todo, got = set(), [T.poly(sp[0][2])], []
    while todo:
        p = todo.pop()
        for k in atoms(p):
            if k in seen:
                continue
            seen.add(k)
            if k[0] == 'loopphi':
                d = v.f.defs[k[2]]
                for x, b in d.args:
                    q = v.num(x)
                    if q not in got:
                        got.append(q)
                        todo.append(q)
    cells = {setting(k) or '' for k in seen if k[0] == 'cell'}
    for k in seen:
        if k[0] == 'cell' and k[1][0] == '*' and isinstance(k[1][1], tuple) and k[1][1][0] == 'struct' and k[1][1][1] == PAR:
            cells.add(k[1][1][2][1:])
    for nm in ('z_mean', 'deltaz', 'zmax'):
        c.obligation('distances of ' + nm)
        if nm not in cells:
            c.find('%s:renormalisation:%s' % (lab, nm), 'the renormalisation does not reach the redshifts of %s' % nm, where)
    # every accumulation keeps the larger one, over the whole list
    for k in [k for k in seen if k[0] == 'loopphi']:
        d = v.f.defs[k[2]]
        body = next((b for n, b in v.loop_items() if n == d.block.name), set())
        if counted(v, d):
            continue
        for x, b in d.args:
            if b in body:
                q = v.num(x)
                m = A(*k)
                delta = sub(q, m)
                ok = False
                for a in {a for mm in delta for a, _ in mm if T.keys[a][0] == 'lt'}:
                    z = add(m, coef(delta, T.keys[a]))
                    if delta == mul(lt0(sub(m, z)), sub(z, m)):
                        ok = True
                    elif delta == mul(lt0(sub(z, m)), sub(z, m)):
                        c.find('%s:renormalisation:largest' % lab, 'the smaller of the redshifts is kept', where)
                        ok = True
                    # the whole list
                    for q2 in atoms(z):
                        if q2[0] == 'loopphi' and q2 != k:
                            lst = [s for s in atoms(z) if s[0] == 'cell' and q2 in atoms(A(*s)) and s[1][0] == '*']
                            if lst and not any(full_range(v, q2, A('cell', ('struct', PAR, '.' + n))) for n in ('z_mean_len', 'zmax_len')):
                                c.find('%s:renormalisation:list' % lab, 'not all redshifts are looked at', where)
                if not ok:
                    raise AnalysisBroken('largest redshift: %s' % show(delta, 3)[:160])


# ---------------------------------------------------------------- availability
NEEDS = ('d2', 'g1', 'g2', 'g3', 'g4', 'g5')


def lookups(p):
    """{monomial: the tables it reads}"""
    memo = {}

    def of(a):
        if a not in memo:
            ks = memo[a] = set()
            for k in atoms(A(*T.keys[a])):
                for part in (k[1:] if k[0] in ('spline', 'cell') else ()):
                    x = part
                    while isinstance(x, tuple) and x and x[0] == '*':
                        x = x[1]
                    if isinstance(x, tuple) and x and x[0] == 'integral':
                        ks.add(x[1:5])
        return memo[a]
    out = {}
    for m in p:
        ks = set()
        for a, _ in m:
            ks |= of(a)
        if ks:
            out[m] = ks
    return out


def made(P, t, ents, key, forl):
    """the condition under which the table exists, as alternatives"""
    out = []
    for e in ents:
        for i in e['instances']:
            if i['key'] == key and (i['for'] is None or i['for'] == forl):
                out.append(t.v.pathcond(next(b for b in [e['n'].block])))
    return out


def holds(cond, flags, out, P):
    """the condition is true whatever the other settings are, with these flags on"""
    def at(k):
        if k[0] == 'nz':
            n = setting(k)
            if n is None:
                p = T.poly(k[1])
                q = rewriter(lambda y: const(P.enums[out]) if y == ('cell', ('struct', PAR, '.output_type')) else None)(p)
                v = cval(q)
                return None if v is None else const(int(v != 0))
            n = n.replace('correlation_contrib.', '')
            if n == 'output_type':
                return const(int(P.enums[out] != 0))
            if n == 'divergent':
                return const(int(bool(set(NEEDS) & flags) or 'divergent' in flags))
            if n in flags:
                return ONE
        return None
    p = rewriter(at)(cond)
    for k in list(atoms(p)):
        pass
    ind = sorted({a for m in p for a, _ in m})
    if any(T.keys[a][0] not in ('nz', 'lt') for a in ind) or len(ind) > 12:
        return None
    free = [a for a in ind if setting(T.keys[a]) is not None]
    rest = [a for a in ind if a not in free]
    for bits in itertools.product((0, 1), repeat=len(free)):
        d = dict(zip(free, bits))
        q = rewriter(lambda k: const(d[T.atom(*k)]) if k[0] == 'nz' and T.atom(*k) in d else None)(p)
        if q == ONE:
            continue
        if cval(q) == 0:
            return False
        # a loop over a list that is not empty when the table is read
        if any('_len' in show(A(*T.keys[a])) or 'loopphi' in show(A(*T.keys[a])) for m in q for a, _ in m):
            continue
        return None
    return True


def available(c, P, ents):
    t = Tables(P)
    n = 0
    for e in ents:
        if e.get('full') is False:
            c.find('entry:%s:loop' % label(e), 'the tables are not made for the whole list of %s' % ('multipoles' if 'multipole' in e else 'integrals'), 'src/integrals.c ' + INIT)
        elif 'full' in e and e['full'] is None:
            raise AnalysisBroken('loop over the list of tables')
    sig = Signal(P)
    where = 'src/integrals.c ' + INIT
    seen = {}

    def read(keys, flags, out, forl, who):
        flags = frozenset(flags)
        for key in keys:
            q = (key, flags, out, forl)
            if q in seen:
                continue
            seen[q] = True
            c.obligation('%s reads (%s, %s)' % (who, key[0], key[1]))
            cs = made(P, t, ents, key, forl)
            res = [holds(x, set(flags), out, P) for x in cs]
            if any(r is True for r in res):
                continue
            if any(r is None for r in res):
                raise AnalysisBroken('condition of the table (%s, %s)' % key[:2])
            nm = '/'.join(sorted(x for x in flags if x in CON)) or who
            c.find('missing:%s,%s:%s:%s' % (key[0], key[1], nm, out), 'the terms of %s read the integral n=%s, l=%s%s (%s), which %s' % (
                nm, key[0], key[1], '' if not key[2] else ' (halves)', TEXTS[out], 'is only made under other conditions' if cs else 'is never made'), where)

    def keys_of(raw):
        r = set()
        for x in raw:
            v = [cval(T.poly(y)) for y in x]
            if any(y is None for y in v):
                raise AnalysisBroken('a table is looked up with unknown n, l')
            r.add(tuple(int(y) for y in v))
        return r
    for name in FAMILY:
        lk = lookups(sig.form(name))
        fl = flag_atoms()
        combos = {}
        for m, ks in lk.items():
            on = frozenset(fl[a] for a, _ in m if a in fl)
            combos.setdefault(on, set()).update(ks)
        for on, raw in combos.items():
            for out in TEXTS:
                read(keys_of(raw), on, out, None, name)
    drv = P.funcs['coffe_integrate']
    forms, reached = {}, {}
    for l in LS:
        for kind, pair in ((0, ('den', 'rsd')), (1, ('den', 'len')), (1, ('rsd', 'len')), (2, ('len',)), (2, ('len', 'g4')), (1, ('den', 'g5'))):
            def bind(k):
                if k == ('cell', ('struct', PAR, '.output_type')):
                    return const(P.enums['MULTIPOLES'])
                if k[0] == 'cell':
                    nm = setting(k) or ''
                    if nm.startswith('correlation_contrib.'):
                        return const(int(nm.split('.')[1] in pair))
                return const(l) if k == ('arg', 8) else None
            p = Val(P, drv, params={8: const(l), 9: const(kind), 10: const(P.enums['MULTIPOLES'])}, bind=bind).returned()
            fl = flag_atoms()
            for m in p:
                for a, _ in m:
                    k = T.keys[a]
                    if k[0] == 'call' and k[1] not in FAMILY:
                        on = set(pair) | {fl[x] for x, _ in m if x in fl}
                        if k not in reached:
                            reached[k] = reach(P, drv, k)
                        for g in reached[k]:
                            f = P.funcs.get(g)
                            if f is None or not any(i.op == 'call' and getattr(i.x, 'name', '') == 'coffe_find_integral' for i in f.insts()):
                                continue
                            if g in FAMILY or g not in FLAT:
                                continue
                            arg = f.params
                            li = next((n for n, ty in enumerate(f.ptypes) if ty == 'i32'), None)
                            if (g, l) not in forms:
                                forms[g, l] = lookups(summed(P, f, params={li: const(l)}, bind=no_derivatives))
                            fl2 = flag_atoms()
                            for mm, ks in forms[g, l].items():
                                if any(T.keys[x][0] == 'lt' for x, _ in mm):
                                    pass
                                read(keys_of(ks), on | {fl2[x] for x, _ in mm if x in fl2}, 'MULTIPOLES', l, g)
    c.need(len(seen), 'readings of tables', 20)
    c.cover(readings=len(seen))


TEXTS = {'CORRFUNC': 'correlation function', 'MULTIPOLES': 'multipoles', 'AVERAGE_MULTIPOLES': 'redshift-averaged multipoles'}


def reach(P, f, key):
    """functions a call of the driver evaluates: itself, or the integrand it hands to a quadrature and what that calls"""
    todo = [key[1]] + [x[1] for x in key if isinstance(x, tuple) and x[0] == 'glob']
    out = set()
    while todo:
        n = todo.pop()
        g = P.resolve(f, n)
        if g is None or g.qname in out:
            continue
        out.add(g.qname)
        todo += [i.x.name for i in g.insts() if i.op == 'call' and isinstance(i.x, Glob)]
    return {n for n in out}


# ---------------------------------------------------------------- the flag for the divergent integral
def divergent_c(c, P):
    """reading a settings file sets the flag whenever one of the contributions that need the integral is selected"""
    n = 0
    for f in P.funcs.values():
        if f.name == INIT:
            continue
        st = [i for i in f.insts() if i.op == 'store']
        v = None
        for i in st:
            if v is None:
                v = Val(P, f)
            if v.addr(i.args[1]) != ('struct', PAR, '.divergent'):
                continue
            q = v.num(i.args[0])
            if cval(q) == 0:
                continue
            n += 1
            cond = q if cval(q) is None else ONE
            if cval(q) is not None:
                r = v.region(i.block)
                if r is None or len(i.block.preds) == 1:
                    cond = v.edge(i.block.preds[0], i.block)
                else:
                    cond = ZERO
                    for x in r.values():
                        cond = add(cond, x)
            fl = flag_atoms()
            for bits in itertools.product((0, 1), repeat=len(NEEDS)):
                on = dict(zip(NEEDS, bits))
                def at(k):
                    s = setting(k) if k[0] in ('nz', 'cell') else None
                    s = s.replace('correlation_contrib.', '') if s else None
                    return const(on[s]) if s in on else None
                y = cval(rewriter(at)(cond))
                c.obligation('settings file')
                if y is None:
                    raise AnalysisBroken('condition of the flag for the divergent integral: ' + show(cond, 3)[:200])
                if any(bits) and not y:
                    who = [x for x in NEEDS if on[x]]
                    c.find('divergent:file:' + who[0], 'with %s in a settings file the integral it needs is not made' % ' and '.join(who), 'src/parser.c %s line %d' % (f.name, i.line))
                    break
    c.need(n, 'places that request the divergent integral', 1)


def divergent_py(c):
    from pysym import Model, Interp
    M = Model()
    n = 0
    for lab, fnc, kind in M.public_entries():
        if not lab.split('.')[-1].startswith('compute_'):
            continue
        for path in Interp(M).run(fnc):
            use = next((k for k, e in enumerate(path.events) if e.kind == 'ccall' and e.a in
                        ('coffe_integrate', 'coffe_integrals_init', 'coffe_corrfunc_init', 'coffe_multipoles_init', 'coffe_average_multipoles_init')), None)
            if use is None:
                continue
            n += 1
            ev = path.events[:use]
            w = [e for e in ev if e.kind == 'write' and e.a == ('_parameters', 'divergent')]
            bad = None
            for bits in itertools.product((0, 1), repeat=len(NEEDS)):
                if not any(bits):
                    continue
                for flag in (0, 1):
                    env = {('_parameters', 'correlation_contrib', x): y for x, y in zip(NEEDS, bits)}
                    env[('_parameters', 'divergent')] = flag
                    ok = True
                    for e in ev:
                        if e.kind == 'cond':
                            y = pyeval(e.a, env)
                            if y is not None and bool(y) != bool(e.b):
                                ok = False
                                break
                    if not ok:
                        continue
                    final = pyeval(w[-1].b, env) if w else flag
                    if final is None:
                        raise AnalysisBroken('%s: value of the flag for the divergent integral' % lab)
                    if not final:
                        bad = [x for x, y in zip(NEEDS, bits) if y]
                        break
                if bad:
                    break
            c.obligation(lab + ' divergent')
            if bad:
                c.find('divergent:python:%s:%s' % (lab, bad[0]), '%s with %s runs without the integral it needs' % (lab, ' and '.join(bad)), 'python/coffe/coffe.pyx ' + lab)
            # a single multipole that no table was made for
            for e in path.events:
                if e.kind == 'ccall' and e.a == 'coffe_integrate' and len(e.b) > 10 and e.b[8] == ('arg', 'l') and 'MULTIPOLES' in str(e.b[10]):
                    if not any(x.kind == 'cond' and str(x.a).count("'In'") and "('arg', 'l')" in str(x.a) for x in path.events):
                        c.find('single:l', 'a single multipole that is not among the multipoles of the settings reads flat-sky lensing integrals that were not made', 'python/coffe/coffe.pyx ' + lab)
    c.need(n, 'paths of the Python interface', 10)


def integral_py(c):
    """the entry that hands a table to the user: the integer table asked for, at the separation asked for"""
    from pysym import Model, Interp
    M = Model()
    n = 0
    for lab, fnc, kind in M.public_entries():
        if lab.split('.')[-1] in ('from_file', 'to_file', '__dealloc__') or lab.endswith('parameters.get'):
            continue
        if lab != 'integral':
            continue
        for path in Interp(M).run(fnc):
            if path.exit != 'return':
                continue
            n += 1
            c.obligation('%s returns the table asked for' % lab)
            v = bare(path.ret)
            want = ('arg', 'r')
            ok = v[0] == 'ccall' and v[1] == 'coffe_interp_spline' and len(v[2]) == 2 and bare(v[2][1]) == want
            f = None
            if ok:
                t = bare(v[2][0])
                ok = t[0] == 'addrof' and t[1][0] == 'attr' and t[1][2] == 'result'
                f = bare(t[1][1]) if ok else None
            if not ok:
                c.find('python:integral:value', 'the value returned is not the table at the separation asked for', 'python/coffe/coffe.pyx ' + lab)
                continue
            if f[0] != 'ccall' or f[1] != 'coffe_find_integral' or len(f[2]) != 5:
                c.find('python:integral:lookup', 'the table returned is not looked up by its orders', 'python/coffe/coffe.pyx ' + lab)
                continue
            a = [bare(x) for x in f[2]]
            if '_integral' not in str(a[0]) or a[1] != ('arg', 'n') or a[2] != ('arg', 'l') or any(not str(x[1]).endswith('COFFE_INTEGER') for x in a[3:]):
                c.find('python:integral:orders', 'the orders given are not the orders of the table that is read', 'python/coffe/coffe.pyx ' + lab)
    c.need(n, 'readings of a table from Python', 1)


def bare(t):
    """a term without conversions between numeric types"""
    while isinstance(t, tuple) and t and t[0] == 'call' and t[1] in ('float', 'int') and len(t[2]) == 1:
        t = t[2][0]
    return t


def pyeval(t, env):
    """value of a term of the Python front end under an assignment of the settings; None if it does not follow"""
    if not isinstance(t, tuple) or not t:
        return None
    k = t[0]
    if k == 'const':
        return t[1]
    if k == 'init':
        return env.get(t[1])
    if k == 'not':
        x = pyeval(t[1], env)
        return None if x is None else not x
    if k in ('and', 'or'):
        xs = [pyeval(x, env) for x in t[1]]
        if k == 'and':
            return False if any(x is not None and not x for x in xs) else None if None in xs else True
        return True if any(x for x in xs if x is not None) else None if None in xs else False
    if k == 'cmp':
        a, b = pyeval(t[2], env), pyeval(t[3], env)
        if a is None or b is None:
            return None
        return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}.get(t[1])
    if k in ('list', 'tuple', 'set'):
        return [pyeval(x, env) for x in t[1]]
    if k == 'bin' and t[1] in ('BitOr', 'BitAnd', 'Add', 'Mult'):
        a, b = pyeval(t[2], env), pyeval(t[3], env)
        if a is None or b is None:
            return None
        return {'BitOr': lambda: a | b, 'BitAnd': lambda: a & b, 'Add': lambda: a + b, 'Mult': lambda: a * b}[t[1]]()
    if k == 'call' and t[1] in ('bool', 'int', 'any', 'all', 'max', 'sum') and len(t[2]) == 1:
        x = pyeval(t[2][0], env)
        if x is None:
            return None
        if t[1] in ('bool', 'int'):
            return int(x) if t[1] == 'int' else bool(x)
        if t[1] == 'any':
            return True if any(y for y in x if y is not None) else None if None in x else False
        if t[1] == 'all':
            return False if any(y is not None and not y for y in x) else None if None in x else True
        return None if None in x else max(x) if t[1] == 'max' else sum(x)
    if k == 'ifexp' and len(t) == 4:
        x = pyeval(t[1], env)
        return None if x is None else pyeval(t[2] if x else t[3], env)
    return None


if __name__ == '__main__':
    common.main('C19', run)
