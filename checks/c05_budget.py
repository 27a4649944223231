"""C05: the energy budget always closes.

Inductive invariants over the reported fractions, as polynomial identities:
   cdm = matter - baryons - massive neutrinos,  dark energy = 1 - matter - photons,  massive neutrinos = m_ncdm / 93.14 / h^2.
The C defaults and the settings-file reader must establish them (forward dataflow over LLVM IR with polynomial values); every
abstract path of every public call of the Python front end must preserve them, and a path that changes the dark-energy fraction
must be guarded by a test that implies it stays non-negative."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common, poly, pysym, fields
import val as V
from ir import *

PYX = 'python/coffe/coffe.pyx'
M, B, G, CDM, DE, NU, MN, H = 'Omega0_m', 'Omega0_baryon', 'Omega0_gamma', 'Omega0_cdm', 'Omega0_de', 'Omega0_nu', 'm_ncdm', 'h'
FREE = (M, B, G, MN, H)
ALL = FREE + (CDM, DE, NU)
NAMES = {CDM: 'matter = cold dark matter + baryons + massive neutrinos', DE: 'dark energy = 1 - matter - photons', NU: 'massive neutrinos = m_ncdm / 93.14 / h^2'}
EV = Fraction = __import__('fractions').Fraction


# ---------------------------------------------------------------- Python
def atom(n): return poly.P.atom(('init', ('_parameters', n)))


def py_pre():
    s = {n: atom(n) for n in FREE}
    s[NU] = s[MN] / (poly.P.const(93.14) * s[H] * s[H])
    s[CDM] = s[M] - s[B] - s[NU]
    s[DE] = poly.P.const(1) - s[M] - s[G]
    return s


def rules(s, one, k93):
    return {NU: s[MN] / (k93 * s[H] * s[H]) if s[H].monomial() else None, CDM: s[M] - s[B] - s[NU], DE: one - s[M] - s[G]}


def python_side(c):
    Mo = pysym.Model()
    I = pysym.Interp(Mo)
    pre = py_pre()
    sub = {('init', ('_parameters', n)): pre[n] for n in ALL}
    paths = writing = guards = 0
    entries = [(n, k, d[k]) for n, d in Mo.props.items() for k in d if k in ('get', 'set')]
    entries = [('%s.%s' % (n, k), f) for n, k, f in entries if n != 'parameters']
    entries += [(n, f) for n, f in Mo.methods.items() if n not in ('__cinit__', 'from_file', 'to_file', 'set_parameters', 'parameters') and not (n.startswith('_'))]
    writers = set()
    for name, f in entries:
        loc = '%s:%s' % (PYX, f.lineno)
        try:
            ps = I.run(f)
        except AnalysisBroken:
            raise
        for p in ps:
            paths += 1
            w = {}
            snapshots = []
            for e in p.events:
                if e.kind == 'write' and len(e.a) == 2 and e.a[0] == '_parameters' and e.a[1] in ALL:
                    w[e.a[1]] = e.b
            if not w or p.exit == 'raise':
                continue
            writing += 1
            writers.add(name)
            post = {n: poly.of_term(w[n]).subst(sub) if n in w else pre[n] for n in ALL}
            one, k = poly.P.const(1), poly.P.const(93.14)
            want = rules(post, one, k)
            for n in (NU, CDM, DE):
                c.obligation({'call': name, 'relation': NAMES[n]} if n in w else None)
                if want[n] is None or not (post[n] - want[n]).close(poly.P()):
                    c.find('%s:%s' % (name, n), 'after %s the relation "%s" no longer holds' % (name, NAMES[n]), loc)
            # non-negativity of the dark energy
            if not (post[DE] - pre[DE]).close(poly.P()):
                guards += 1
                c.obligation({'call': name, 'dark energy stays non-negative': True})
                if not guarded(p, post[DE], sub):
                    c.find('%s:guard' % name, '%s can make the dark-energy fraction negative' % name, loc)
    c.need(len(writers), 'calls of the front end that change the budget', 5)
    c.cover(python_paths=paths, python_paths_writing_the_budget=writing, python_writers=sorted(writers), dark_energy_guards=guards)


def guarded(p, de, sub):
    """some test on the path implies de >= 0: sum(..) > 1 is false, and 1 - sum(..) == de"""
    for e in p.events:
        if e.kind == 'write' and e.a[0] == '_parameters' and e.a[-1] in ALL:
            break
        if e.kind != 'cond':
            continue
        t, pol = e.a, e.b
        while t[0] == 'not':
            t, pol = t[1], not pol
        if t[0] != 'cmp':
            continue
        op, a, b = t[1], poly.of_term(t[2]).subst(sub), poly.of_term(t[3]).subst(sub)
        if op in ('Gt', 'GtE') and not pol or op in ('Lt', 'LtE') and pol:
            d = b - a                    # a <= b
        elif op in ('Lt', 'LtE') and not pol or op in ('Gt', 'GtE') and pol:
            d = a - b
        else:
            continue
        if (d - de).close(poly.P()):
            return True
    return False


# ---------------------------------------------------------------- C
class Flow:
    def __init__(self, P, c):
        self.P, self.c, self.mr = P, c, fields.ModRef(P)
        self.n = 0
        self.stores = 0

    def fresh(self, *k):
        self.n += 1
        return V.A('input', self.n, *k)

    def field(self, f, v):
        p = fields.field_path(self.P, f, v)
        if p and p[0] == 'coffe_parameters_t' and len(p) == 2 and p[1] in ALL:
            return p[1]
        return None

    def derived(self, s):
        return {NU: V.div(s[MN], V.mul(V.number(93.14), V.mul(s[H], s[H]))), CDM: V.sub(V.sub(s[M], s[B]), s[NU]), DE: V.sub(V.sub(V.ONE, s[M]), s[G])}

    def holds(self, s):
        d = self.derived(s)
        return {n for n in (NU, CDM, DE) if d[n] == s[n]}

    def join(self, states, where):
        out = {}
        for n in FREE:
            v = [s[n] for s in states]
            out[n] = v[0] if all(x == v[0] for x in v) else self.fresh('join', n)
        ok = set.intersection(*[self.holds(s) for s in states])
        for n in (NU, CDM, DE):
            v = [s[n] for s in states]
            if all(x == v[0] for x in v):
                out[n] = v[0]
            else:
                out[n] = None
            if out[n] is None:
                out[n] = V.ZERO
                out[n] = self.derived(out | {k: out.get(k, V.ZERO) for k in (NU, CDM, DE)})[n] if n in ok else self.fresh('join', n)
        return out

    def run(self, f, state, depth=0):
        """state on return of f (None if it never returns)"""
        if depth > 6:
            raise AnalysisBroken('budget: call depth')
        order = rpo(f)
        pos = {b.name: k for k, b in enumerate(order)}
        ins, outs, env = {order[0].name: state}, {}, {}
        rets = []

        def num(v):
            if isinstance(v, Const):
                return V.number(v.v) if isinstance(v.v, (int, float)) else V.ZERO
            if isinstance(v, Reg) and v.name in env:
                return env[v.name]
            return V.A('opaque', f.name, getattr(v, 'name', repr(v)))
        for b in order:
            if b.name not in ins:
                ps = [outs[p.name] for p in b.preds if p.name in outs and outs[p.name] is not None]
                if not ps:
                    outs[b.name] = None
                    continue
                ins[b.name] = ps[0] if len(ps) == 1 else self.join(ps, b)
            s = dict(ins[b.name])
            dead = False
            for i in b.insts:
                if i.op == 'load':
                    n = self.field(f, i.args[0])
                    env[i.res] = s[n] if n else V.A('load', f.name, i.res)
                elif i.op == 'store':
                    n = self.field(f, i.args[1])
                    if n:
                        s[n] = num(i.args[0])
                        self.stores += 1
                elif i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'add', 'sub', 'mul'):
                    a, d = num(i.args[0]), num(i.args[1])
                    env[i.res] = {'a': V.add, 's': V.sub, 'm': V.mul, 'd': V.div}[i.op[-3]](a, d)
                elif i.op == 'fneg':
                    env[i.res] = V.scale(num(i.args[0]), -1)
                elif i.op in V.CASTS:
                    env[i.res] = num(i.args[0])
                elif i.op == 'call':
                    nm = i.x.name if isinstance(i.x, Glob) else None
                    if nm in ('exit', 'abort', '_exit'):
                        dead = True
                        break
                    if nm and (nm == 'pow' or nm.startswith('llvm.pow')):
                        env[i.res] = V.powf(num(i.args[0]), num(i.args[1]))
                        continue
                    g = self.P.resolve(f, nm) if nm else None
                    if g is not None and g is not f and self.writes(g) and any(t == 'ptr' for t in i.argtys or []):
                        s2 = self.run(g, s, depth + 1)
                        if s2 is None:
                            dead = True
                            break
                        s = s2
                    for a, t in zip(i.args, i.argtys or []):
                        if t == 'ptr':
                            n = self.field(f, a)
                            if n and not (nm or '').startswith('llvm.dbg'):
                                s[n] = self.fresh(n)
                elif i.op == 'unreachable':
                    dead = True
                elif i.op == 'ret':
                    rets.append(s)
            outs[b.name] = None if dead else s
        if not rets:
            return None
        return rets[0] if len(rets) == 1 else self.join(rets, None)

    def writes(self, g, seen=None):
        seen = set() if seen is None else seen
        if g.qname in seen:
            return False
        seen.add(g.qname)
        if not hasattr(self, '_w'):
            self._w = {}
        if g.qname in self._w:
            return self._w[g.qname]
        r = False
        for i in g.insts():
            if i.op == 'store' and self.field(g, i.args[1]) or i.op == 'call' and any(self.field(g, a) for a in i.args if isinstance(a, Reg)) and not (isinstance(i.x, Glob) and i.x.name.startswith('llvm.')):
                r = True
            elif i.op == 'call' and isinstance(i.x, Glob):
                h = self.P.resolve(g, i.x.name)
                if h is not None and self.writes(h, seen):
                    r = True
        self._w[g.qname] = r
        return r


def c_side(c):
    P = Program('inline')
    F = Flow(P, c)
    writers = []
    for f in P.funcs.values():
        direct = any(i.op == 'store' and F.field(f, i.args[1]) for i in f.insts())
        if not direct:
            continue
        writers.append(f)
    c.need(len(writers), 'C functions that set the energy budget', 2)
    roots = {f.name for f in writers} | {'coffe_parser_init', 'coffe_parse_default_parameters'}
    for n in sorted(roots):
        f = P.funcs.get(n)
        if f is None:
            continue
        # an initialiser starts from arbitrary memory; anything else from a closed budget
        est = n in ('coffe_parser_init', 'coffe_parse_default_parameters')
        s = {k: F.fresh('garbage', k) for k in ALL}
        if not est:
            for k, v in F.derived(s).items():
                s[k] = v
            s.update(F.derived(s))
        out = F.run(f, s)
        if out is None:
            continue
        ok = F.holds(out)
        for k in (NU, CDM, DE):
            c.obligation({'C function': n, 'relation': NAMES[k]})
            if k not in ok:
                site = next((i for i in f.insts() if i.op == 'store' and F.field(f, i.args[1]) == k), None)
                c.find('%s:%s' % (n, k), '%s returns with "%s" broken: %s holds %s' % (n, NAMES[k], k, V.show(out[k])), f.loc(site))
    c.cover(c_functions=sorted(roots), c_budget_stores_followed=F.stores)


def main(c):
    c_side(c)
    python_side(c)
    c.assumptions += ['floating-point rounding is ignored: identities are over the rationals',
                      'the values parsed from the settings file are arbitrary']
    c.cover(explanation='inductive polynomial invariants: established by the C initialisers (forward dataflow), preserved by every path of the Python front end')


if __name__ == '__main__':
    common.main('C05', main)
