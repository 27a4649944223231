"""contents of the arrays of one function, as functions of the place in the array"""
from ir import AnalysisBroken, Glob, Reg
from val import *

NOWRITE = {'free', 'printf', 'fprintf', 'coffe_free_spline', 'coffe_free_spline2d', 'fftw_free', 'clock'}


def flat(a):
    """(root, [place at every level of pointers]) of an address of memory the function owns; a place is a tuple of indices and fields"""
    if not isinstance(a, tuple) or not a:
        return None
    if a[0] == 'heap':
        return a[:3], [a[3:]]
    if a[0] == 'local':
        return a[:2], [a[2:]]
    if a[0] == '*':
        r = flat(a[1])
        return None if r is None else (r[0], r[1] + [a[2:]])
    return None


def place(p):
    """[index polynomials], field path"""
    return [T.poly(x[1]) for x in p if isinstance(x, tuple)], tuple(x for x in p if isinstance(x, str))


def index(p):
    ix, fl = place(p)
    r = ZERO
    if len(ix) > 1:
        raise AnalysisBroken('place with %d indices' % len(ix))
    return (ix[0] if ix else r), fl


def phis(p):
    return {T.keys[x] for m in p for x, _ in m if T.keys[x][0] == 'loopphi'}


def split(p, keys):
    """p as a linear form in the given atoms: ({key: coefficient}, rest); None if it is not linear"""
    ids = {T.atom(*k): k for k in keys}
    out, rest = {}, {}
    for m, q in p.items():
        mine = [(x, e) for x, e in m if x in ids]
        if not mine:
            rest[m] = q
            continue
        if len(mine) > 1 or mine[0][1] != 1:
            return None
        k = ids[mine[0][0]]
        mm = tuple(y for y in m if y[0] != mine[0][0])
        out[k] = add(out.get(k, {}), {mm: q})
    return out, rest


class Facts:
    """what is known of the indices of the place asked for: parametrisations with atoms that are not negative"""

    def __init__(self, maps=()):
        self.maps = list(maps)

    def positive(self, p):
        """True if p >= 1, False if p <= 0 (integers), None if not known"""
        c = cval(p)
        if c is not None:
            return c >= 1
        for m in self.maps:
            q = substitute(p, m)
            cs = [frac(x) for x in q.values()]
            if all(x >= 0 for x in cs) and frac(q.get((), 0)) >= 1:
                return True
            if all(x <= 0 for x in cs):
                return False
        return None


class Memory:
    def __init__(self, P, f, v, order, calls=None, opaque=()):
        """order: blocks in the order of the program; calls: {function: handler(mem, instruction) -> [(root, levels, fields, how)]}"""
        self.P, self.f, self.v = P, f, v
        self.pos, n = {}, 0
        self.blocks = order
        for b in order:
            for i in b.insts:
                self.pos[id(i)] = n
                n += 1
        self.calls = calls or {}
        self.opaque = set(opaque)
        self.w = None
        self.depth = 0
        self.cnt = {}
        self.hook = lambda p, pos: p

    # ------------------------------------------------ loops
    def loops_of(self, b):
        return [(h, body) for h, body in self.v.loop_items() if b.name in body]

    def range(self, key):
        """(lo, hi) of an induction variable that moves up by one"""
        if key in self.cnt:
            return self.cnt[key]
        phi = self.v.f.defs.get(key[2])
        r = counted(self.v, phi) if phi is not None else None
        out = None
        if r is not None:
            start, step, bound, pred, body = r
            if step == 1 and pred in ('slt', 'ult', 'ne', 'sle', 'ule'):
                out = start, bound if pred in ('slt', 'ult', 'ne') else add(bound, ONE)
            elif step == -1 and pred in ('sgt', 'ugt', 'sge', 'uge'):
                out = (bound if pred in ('sge', 'uge') else add(bound, ONE)), add(start, ONE)
            if out:
                out = self.norm(out[0]), self.norm(out[1])
        self.cnt[key] = out
        return out

    def counter(self, key):
        """a counter that goes up by one in the innermost of nested loops: its value as a polynomial of the induction variables"""
        f, v = self.v.f, self.v
        chain, k = [], key
        start = None
        while True:
            phi = f.defs.get(k[2])
            if phi is None or phi.op != 'phi':
                return None
            h = phi.block.name
            body = next((b for n, b in v.loop_items() if n == h), None)
            if body is None:
                return None
            ins = [x for x, n in phi.args if n in body]
            outs = [x for x, n in phi.args if n not in body]
            if len(ins) != 1 or len(outs) != 1:
                return None
            chain.append((phi, ins[0], body))
            d = f.defs.get(outs[0].name) if isinstance(outs[0], Reg) else None
            if d is not None and d.op == 'phi' and any(n == d.block.name and phi.block.name in b for n, b in v.loop_items()):
                k = ('loopphi', k[1], d.res)
                continue
            start = v.num(outs[0])
            break
        # going inward: what comes back into the outer phi is the inner phi, or a phi inside it
        inner = chain[0]
        k0 = key
        # descend to the innermost
        while True:
            phi, back, body = inner
            d = f.defs.get(back.name) if isinstance(back, Reg) else None
            if d is not None and d.op == 'phi' and d.block.name in body and any(n == d.block.name for n, _ in v.loop_items()):
                h = d.block.name
                b2 = next(b for n, b in v.loop_items() if n == h)
                ins = [x for x, n in d.args if n in b2]
                outs = [x for x, n in d.args if n not in b2]
                if len(ins) != 1 or len(outs) != 1 or not isinstance(outs[0], Reg) or outs[0].name != phi.res:
                    return None
                inner = (d, ins[0], b2)
                chain.insert(0, inner)
                continue
            break
        phi, back, body = chain[0]
        inc = sub(v.num(back), A('loopphi', k0[1], phi.res))
        if inc != ONE:
            return None
        order = [c[0] for c in reversed(chain)]                 # outermost first
        for a, b in zip(chain[1:], chain):
            if not (isinstance(a[1], Reg) and a[1].name == b[0].res):
                return None
        ind = []
        for phi in order:
            c = [x for x in phi.block.insts if x.op == 'phi' and x is not phi and self.range(('loopphi', k0[1], x.res))]
            if len(c) != 1:
                return None
            ind.append(('loopphi', k0[1], c[0].res))
        # value of the phi of level n: what the loops outside and this one have counted
        at = next(n for n, phi in enumerate(order) if phi.res == key[2])
        total = ZERO
        for n, i in enumerate(ind):
            lo, hi = self.range(i)
            if phis(lo) & set(ind) or phis(hi) & set(ind):
                return None
            total = mul(total, sub(hi, lo))
            if n <= at:
                total = add(total, sub(A(*i), lo))
        return add(start, total), ind

    def norm(self, p):
        """counters by what they count"""
        pairs = {}
        for k in phis(p):
            if self.v.f.defs.get(k[2]) is not None and self.cnt.get(k) is None and counted(self.v, self.v.f.defs[k[2]]) is None:
                r = self.counter(k)
                if r:
                    pairs[k] = r[0]
        return substitute(p, pairs) if pairs else p

    # ------------------------------------------------ guards
    def guard(self, b):
        """condition under which b is executed in its loops"""
        v, c = self.v, ONE
        while True:
            d = v.idom_block(b)
            if d is None or d is b:
                return self.norm(c)
            t = d.term
            heads = {h: body for h, body in v.loop_items()}
            r = v.region(b)
            if d.name in heads and b.name in heads[d.name] and t.op == 'br' and t.args and any(s.name not in heads[d.name] for s in d.succs):
                e = ONE                                     # the test of the loop
            elif r is None:
                fr = [p for p in b.preds if p.name in v.order and v.order[p.name] < v.order[b.name]]
                e = {}
                for p in fr:
                    e = add(e, v.edge(p, b))
                if len(fr) != 1:
                    e = ONE
            else:
                e = {}
                for x in r.values():
                    e = add(e, x)
            c = mul(c, e)
            b = d

    # ------------------------------------------------ writes
    def writes(self):
        if self.w is not None:
            return self.w
        self.w = {}
        for b in self.blocks:
            live = None
            for i in b.insts:
                if i.op == 'store':
                    r = flat(self.v.addr(i.args[1]))
                    if r is None:
                        continue
                    if live is None:
                        live = bool(self.v.pathcond(b))
                    if not live or value(self.v, i.args[0])[0] != 'num' or self.pointer(i):
                        continue
                    self.w.setdefault(r[0], []).append((self.pos[id(i)], r[1], i, None))
                elif i.op == 'call' and isinstance(i.x, Glob) and i.x.name.startswith(('llvm.memset', 'memset')):
                    r = flat(self.v.addr(i.args[0]))
                    if r is not None and all(not x for x in r[1][-1:]) and self.v.num(i.args[1]) == ZERO:
                        # the whole of a local array cleared
                        self.w.setdefault(r[0], []).append((self.pos[id(i)], len(r[1]), i, lambda ix, facts: ZERO))
                elif i.op == 'call' and isinstance(i.x, Glob) and i.x.name in self.calls:
                    if live is None:
                        live = bool(self.v.pathcond(b))
                    if live:
                        for root, nlev, how in self.calls[i.x.name](self, i):
                            self.w.setdefault(root, []).append((self.pos[id(i)], nlev, i, how))
        return self.w

    def pointer(self, i):
        return i.ty == 'ptr'

    def read(self, a, at, facts, why=''):
        """the number at address a just before position at"""
        r = flat(a)
        if r is None:
            return None
        root, lev = r
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise AnalysisBroken('contents of %s' % showaddr(a)[:80])
        try:
            out, left = ZERO, ONE
            for pos, wl, i, how in sorted(self.writes().get(root, []), key=lambda w: -w[0]):
                if pos >= at:
                    continue
                if how is not None:
                    if wl != len(lev):
                        continue
                    x = how([index(p)[0] for p in lev], facts)
                    if x is None:
                        continue
                    return add(out, mul(left, x))
                if len(wl) != len(lev):
                    continue
                m = self.match(i, wl, lev, facts)
                if m is None:
                    continue
                self.once(i, m, at)
                g = self.guard(i.block)
                val = self.hook(self.norm(self.v.num(i.args[0])), pos)
                if m:
                    g, val = substitute(g, m), substitute(val, m)
                val = self.resolve(val, pos, facts)
                g = self.resolve(g, pos, facts)
                out = add(out, mul(left, mul(g, val)))
                left = mul(left, neg(g))
                if not left:
                    return out
            return add(out, mul(left, A('unset', root, tuple(T.intern(index(p)[0]) if not index(p)[1] else index(p)[1] for p in lev))))
        finally:
            self.depth -= 1

    def once(self, i, m, at):
        """a write repeated in a loop that does not move the place is known only if every round writes the same"""
        heads = {self.v.f.defs[k[2]].block.name for k in m}
        here = next((b.name for b in self.blocks if b.insts and self.pos[id(b.insts[0])] <= at <= self.pos[id(b.insts[-1])]), None)
        for h, body in self.v.loop_items():
            if i.block.name in body and h not in heads and here not in body:
                x = self.norm(self.v.num(i.args[0]))
                own = self.v.addr(i.args[1])
                for k in atoms(x):
                    if k[0] == 'loopphi' and self.v.f.defs[k[2]].block.name == h or k[0] == 'cell' and k[1] == own:
                        raise AnalysisBroken('%s is accumulated in a loop (line %s)' % (showaddr(own)[:80], i.line))

    def resolve(self, p, at, facts):
        def one(k):
            if k[0] == 'cell' and flat(k[1]) is not None and flat(k[1])[0] not in self.opaque:
                return self.read(k[1], at, facts)
            if k[0] == 'spline' and k[1][0] == '*' and flat(k[1]) is not None and len(k[1]) == 2:
                a = self.target(k[1][1], at)
                if a is not None:
                    return A('spline', a, *k[2:])
            return None
        return rewriter(one)(p)

    def target(self, a, at):
        """what the pointer at a fixed place of a local table points to"""
        if a[0] != 'local':
            return None
        def ct(x):
            return tuple(y if isinstance(y, str) else cval(T.poly(y[1])) for y in x) or (0,)
        want = ct(a[2:])
        if None in want:
            return None
        got = set()
        for b in self.blocks:
            for i in b.insts:
                if i.op == 'store' and self.pointer(i) and self.pos[id(i)] < at:
                    w = self.v.addr(i.args[1])
                    if w[:2] == a[:2]:
                        p = ct(w[2:])
                        if None in p:
                            return None
                        if p == want:
                            x = value(self.v, i.args[0])
                            got.add(x[1] if x[0] == 'ptr' else None)
        return got.pop() if len(got) == 1 else None

    def match(self, i, wl, lev, facts):
        """{induction variable of the write: its value} for which the write is to the place read; None if there is none"""
        sub_ = {}
        for pw, pr in zip(wl, lev):
            (a, fa), (b, fb) = index(pw), index(pr)
            if fa != fb:
                return None
            a = self.norm(a)
            a = substitute(a, sub_) if sub_ else a
            b = self.norm(b)
            mine = [k for k in phis(a) if k not in sub_ and any(i.block.name in body and self.v.f.defs[k[2]].block.name == h for h, body in self.v.loop_items())]
            s = split(a, mine)
            if s is None:
                raise AnalysisBroken('index %s' % show(a))
            co, rest = s
            if not co:
                d = sub(a, b)
                if not d:
                    continue
                if facts.positive(d) or facts.positive(scale(d, -1)):
                    return None
                raise AnalysisBroken('elements %s and %s' % (show(a), show(b)))
            m = self.radix(co, sub(b, rest), facts)
            if m is None:
                raise AnalysisBroken('elements %s and %s' % (show(a), show(b)))
            sub_.update(m)
        unknown = None
        for k, x in sub_.items():
            r = self.range(k)
            if r is None:
                raise AnalysisBroken('loop over %s' % showkey(k))
            lo, hi = (substitute(q, sub_) for q in r)
            a, b = facts.positive(add(sub(x, lo), ONE)), facts.positive(sub(hi, x))
            if a is False or b is False:
                return None
            if a is None or b is None:
                unknown = k, x, lo, hi
        if unknown:
            raise AnalysisBroken('whether %s is in [%s, %s)' % tuple(show(q) for q in unknown[1:]))
        return sub_

    def radix(self, co, b, facts):
        """solve sum_k co[k] k = b for the induction variables, co being the strides of an array"""
        if len(co) == 1:
            (k, c), = co.items()
            if c == ONE:
                return {k: b}
            if len(c) != 1:
                return None
        ids = {x for c in co.values() for m in c for x, _ in m}
        parts = {}
        for m, q in b.items():
            hi = tuple(y for y in m if y[0] in ids)
            lo = tuple(y for y in m if y[0] not in ids)
            parts.setdefault(hi, {})[lo] = q
        out = {}
        for k, c in co.items():
            if len(c) != 1:
                return None
            (m, q), = c.items()
            if frac(q) != 1:
                return None
            out[k] = parts.pop(m, {})
        if parts:
            return None
        # the strides are those of nested arrays: every index stays below the next stride
        order = sorted(co, key=lambda k: len_of(co[k]))
        for a, c in zip(order, order[1:]):
            r = self.range(a)
            lo, hi = r if r else (None, None)
            if hi is None or facts is None:
                return None
            q = div(co[c], co[a])
            if q != hi and facts.positive(add(sub(q, substitute(hi, out)), ONE)) is not True:
                return None
        for a, c in zip(order, order[1:]):
            q = div(co[c], co[a])
            if facts.positive(sub(q, out[a])) is not True or facts.positive(add(out[a], ONE)) is not True:
                return None
        return out


def len_of(c):
    (m, q), = c.items()
    return sum(e for _, e in m)
