"""Which values of an argument survive the tests of an abstract path: type set, interval, not-a-number, choice set."""
INF = float('inf')
NUM = {'int': 'int', 'float': 'float', 'bool': 'bool', 'complex': 'complex', 'str': 'str', 'list': 'list', 'tuple': 'tuple'}


class Dom:
    def __init__(self):
        self.types = None            # None: anything
        self.lo, self.lo_open, self.hi, self.hi_open = -INF, False, INF, False
        self.nan = True
        self.choice = None           # None: anything
        self.length = None
        self.symbounds = []          # comparisons against something that is not a constant: (op, term)
        self.bot = False

    def copy(self):
        d = Dom()
        d.__dict__.update(self.__dict__)
        d.symbounds = list(self.symbounds)
        return d

    def meet_lo(self, v, op):
        if v > self.lo or (v == self.lo and op):
            self.lo, self.lo_open = v, op

    def meet_hi(self, v, op):
        if v < self.hi or (v == self.hi and op):
            self.hi, self.hi_open = v, op

    def empty(self):
        return self.bot or self.lo > self.hi or (self.lo == self.hi and (self.lo_open or self.hi_open)) or self.choice == frozenset() or self.types == frozenset()

    def join(self, o):
        d = Dom()
        if self.empty(): return o.copy()
        if o.empty(): return self.copy()
        d.types = None if self.types is None or o.types is None else self.types | o.types
        if (self.lo, self.lo_open) <= (o.lo, o.lo_open): d.lo, d.lo_open = self.lo, self.lo_open
        else: d.lo, d.lo_open = o.lo, o.lo_open
        if (self.hi, not self.hi_open) >= (o.hi, not o.hi_open): d.hi, d.hi_open = self.hi, self.hi_open
        else: d.hi, d.hi_open = o.hi, o.hi_open
        d.nan = self.nan or o.nan
        d.choice = None if self.choice is None or o.choice is None else self.choice | o.choice
        return d

    def __repr__(self):
        return '%s %s%s,%s%s nan=%s choice=%s%s' % (sorted(self.types) if self.types else 'any', '(' if self.lo_open else '[', self.lo, self.hi, ')' if self.hi_open else ']', self.nan, sorted(map(str, self.choice)) if self.choice else None, ' sym=%d' % len(self.symbounds) if self.symbounds else '')


NEG = {'Lt': 'GtE', 'LtE': 'Gt', 'Gt': 'LtE', 'GtE': 'Lt', 'Eq': 'NotEq', 'NotEq': 'Eq', 'In': 'NotIn', 'NotIn': 'In', 'Is': 'IsNot', 'IsNot': 'Is'}
SWAP = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE', 'Eq': 'Eq', 'NotEq': 'NotEq'}
CONV = {'float', 'int', '.__index__', 'operator.index', 'index', 'np.float64', 'list', 'tuple', 'np.array', 'np.asarray', 'np.atleast_1d', 'sorted'}


def unconv(t):
    """the argument (or element of it) a converted value stands for, with the conversions applied"""
    convs = []
    while True:
        if t[0] == 'call' and t[1] in CONV and t[2]:
            convs.append(t[1])
            t = t[2][0]
        elif t[0] == 'elem':
            b, c = unconv(t[1])
            convs += c
            if b[0] == 'each':
                return b[1], convs
            return ('elem', b), convs
        elif t[0] == 'comp' and len(t[3]) == 1:
            inner, c = unconv(t[2])
            convs += c
            if t[3][0][1]:
                return t, convs          # filtered
            return ('each', inner), convs
        elif t[0] == 'idx' and t[2][0] != 'slice':
            b, c = unconv(t[1])
            convs += c
            if t[2] in (('const', 0), ('const', -1)):
                return ('first' if t[2][1] == 0 else 'last', b), convs
            if b[0] == 'each':
                return b[1], convs
            return ('elem', b), convs
        elif t[0] == 'idx' and whole(t[2]):
            t = t[1]
        else:
            return t, convs


def whole(s):
    """a slice that selects every element (in either direction)"""
    if s[0] != 'slice' or len(s[1]) != 3:
        return False
    lo, hi, step = s[1]
    return (lo in (('const', None), ('const', 0)) and hi == ('const', None) and step in (('const', None), ('const', 1))) or \
        (lo == ('const', None) and hi == ('const', None) and step == ('const', -1))


def partial(t):
    """a collection that leaves out elements whatever its length"""
    while t[0] == 'call' and t[1] in CONV and t[2]:
        t = t[2][0]
    return t[0] == 'idx' and t[2][0] == 'slice' and len(t[2][1]) == 3 and not whole(t[2]) and all(x[0] == 'const' for x in t[2][1])


def constants(t):
    """the constant collection a term denotes, or None"""
    k = t[0]
    if k in ('list', 'tuple', 'set'):
        out = [const(x) for x in t[1]]
        return None if any(x is None for x in out) else [x[0] for x in out]
    if k == 'dict':
        out = [const(x[0]) for x in t[1]]
        return None if any(x is None for x in out) else [x[0] for x in out]
    if k == 'call' and t[1] in ('list', 'tuple', 'set', 'frozenset', 'sorted', '.keys', 'dict') and t[2]:
        return constants(t[2][0])
    if k == 'call' and t[1] == '.values' and t[2] and t[2][0][0] == 'dict':
        out = [const(x[1]) for x in t[2][0][1]]
        return None if any(x is None for x in out) else [x[0] for x in out]
    if k == 'bin' and t[1] in ('Add', 'BitOr'):
        a, b = constants(t[2]), constants(t[3])
        return None if a is None or b is None else a + b
    if k == 'call' and t[1] == 'range' and all(x[0] == 'const' for x in t[2]):
        return list(range(*[x[1] for x in t[2]]))
    return None


def const(t):
    if t[0] == 'const':
        return (t[1],)
    if t[0] == 'name':
        return (t[1].rsplit('.', 1)[-1] if t[1].startswith('ccoffe.') else t[1],)
    if t[0] == 'neg' and t[1][0] == 'const':
        return (-t[1][1],)
    if t[0] == 'un' and t[1] == 'USub' and t[2][0] == 'const':
        return (-t[2][1],)
    return None


class Reader:
    """applies path conditions to the domain of one argument: 'V' = the argument itself, 'E' = each element of it,
    'F'/'L' = its first/last element"""

    @staticmethod
    def top():
        return {k: Dom() for k in 'VEFL'}

    def __init__(self, arg, resolve=None):
        self.arg = ('arg', arg)
        self.resolve = resolve or (lambda t: None)

    def subject(self, t):
        b, convs = unconv(t)
        if b == self.arg:
            return 'V'
        if b == ('each', ('elem', self.arg)) or b == ('elem', self.arg):
            return 'E'
        if b[0] in ('first', 'last') and b[1] in (self.arg, ('each', ('elem', self.arg))):
            return 'F' if b[0] == 'first' else 'L'
        return None

    def number(self, t):
        c = const(t)
        if c and isinstance(c[0], (int, float)) and not isinstance(c[0], bool):
            return c[0]
        r = self.resolve(t)
        return r

    def apply(self, t, pol, D):
        """D: {'V': Dom, 'E': Dom}; returns True when the condition was understood"""
        k = t[0]
        if k == 'not':
            return self.apply(t[1], not pol, D)
        if k in ('and', 'or'):
            if (k == 'and') == pol:
                ok = True
                for x in t[1]:
                    ok = self.apply(x, pol, D) and ok
                return ok
            # disjunction: join of the branches
            outs, ok = [], True
            for x in t[1]:
                E = {s: d.copy() for s, d in D.items()}
                ok = self.apply(x, pol, E) and ok
                outs.append(E)
            outs = [o for o in outs if not any(d.bot for d in o.values())]
            if not outs:
                for d in D.values():
                    d.bot = True
                return ok
            for s in D:
                r = outs[0][s]
                for o in outs[1:]:
                    r = r.join(o[s])
                r.symbounds = [b for b in outs[0][s].symbounds if all(b in o[s].symbounds for o in outs)]
                D[s] = r
            return ok
        if k == 'const':
            if bool(t[1]) != pol:
                for d in D.values():
                    d.bot = True
            return True
        if k == 'call' and t[1] in ('all', 'np.all', 'any', 'np.any') and len(t[2]) == 1:
            b = t[2][0]
            every = t[1] in ('all', 'np.all')
            if b[0] == 'comp' and len(b[3]) == 1 and partial(b[3][0][0]) and 'zip' not in repr(b[3]):
                return True           # says nothing about the elements left out
            if b[0] == 'comp' and len(b[3]) == 1 and not b[3][0][1]:
                b = b[2]
            elif b[0] in ('list', 'tuple'):
                return self.apply(('and' if every else 'or', tuple(b[1])), pol, D)
            if every == pol:
                return self.apply(b, pol, D)
            return True               # says something about one element only
        if k == 'call' and t[1] == 'isinstance' and len(t[2]) == 2:
            s = self.subject(t[2][0])
            if s is None:
                return False
            ts = t[2][1]
            names = [x[1].rsplit('.', 1)[-1] for x in (ts[1] if ts[0] in ('tuple', 'list') else (ts,)) if x[0] == 'name']
            d = D[s]
            if pol:
                new = frozenset(names)
                d.types = new if d.types is None else frozenset(x for x in d.types if x in new or (x == 'bool' and 'int' in new))
                if 'float' not in names and d.types and 'float' not in d.types:
                    d.nan = False
            elif d.types is not None:
                d.types = d.types - frozenset(names)
            return True
        if k == 'call' and t[1] in ('np.isnan', 'math.isnan', 'isnan') and t[2]:
            s = self.subject(t[2][0])
            if s and not pol:
                D[s].nan = False
            return s is not None
        if k == 'call' and t[1] in ('np.isfinite', 'math.isfinite', 'isfinite') and t[2]:
            s = self.subject(t[2][0])
            if s and pol:
                D[s].nan = False
            return s is not None
        if k == 'cmp':
            op, a, b = t[1], t[2], t[3]
            if op in ('In', 'NotIn'):
                s = self.subject(a)
                cs = constants(b)
                if s is None or cs is None:
                    return False
                if (op == 'In') == pol:
                    c = frozenset(cs)
                    D[s].choice = c if D[s].choice is None else D[s].choice & c
                    D[s].nan = False
                elif D[s].choice is not None:
                    D[s].choice = D[s].choice - frozenset(cs)
                return True
            sa, sb = self.subject(a), self.subject(b)
            if sa and sb and sa == sb and a == b:
                if (op == 'NotEq') != pol:       # v == v holds
                    if op in ('Eq', 'NotEq'):
                        D[sa].nan = False
                elif op in ('Eq', 'NotEq'):
                    D[sa].bot = True             # only not-a-number gets here
                return True
            if op in ('Is', 'IsNot') and b == ('const', None) and (a[0] in ('init', 'const') or sa):
                # a C value, or an argument that the type test settles, is never None
                if a == ('const', None):
                    known = op == 'Is'
                else:
                    known = op == 'IsNot'
                if known != pol and not sa:
                    for d in D.values():
                        d.bot = True
                return True
            if sa is None and sb is None:
                la = self.length(a)
                if la and op in ('Eq', 'NotEq') and (op == 'Eq') == pol:
                    n = self.number(b)
                    if n is not None:
                        D['V'].length = n
                        return True
                return False
            if sa is None:
                a, b, sa, op = b, a, sb, SWAP.get(op, op)
            n = self.number(b)
            d = D[sa]
            if n is None:
                d.symbounds.append((op if pol else NEG[op], b))
                return True
            eff = op if pol else NEG[op]
            if pol and op != 'NotEq':
                d.nan = False
            if not pol and op == 'NotEq':
                d.nan = False
            if eff == 'Lt': d.meet_hi(n, True)
            elif eff == 'LtE': d.meet_hi(n, False)
            elif eff == 'Gt': d.meet_lo(n, True)
            elif eff == 'GtE': d.meet_lo(n, False)
            elif eff == 'Eq':
                d.meet_lo(n, False); d.meet_hi(n, False)
            return True
        return False

    def length(self, t):
        return t[0] == 'call' and t[1] == 'len' and unconv(t[2][0])[0] in (self.arg, ('each', ('elem', self.arg)))

    def mentions(self, t):
        if t == self.arg:
            return True
        return isinstance(t, tuple) and any(self.mentions(x) for x in t)
