"""C04: a settings file (or dictionary of parameters) written by one object gives an object with the same settings."""
import ast, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, poly, pysym, pxd, pyx
from ir import AnalysisBroken
from pyeval import *
from c03_readback import walk
import c05_budget as B

PYX = 'python/coffe/coffe.pyx'
BIAS = ['galaxy_bias%d' % i for i in (1, 2, 3, 4)] + ['%s_bias%d' % (n, i) for n in ('magnification', 'evolution') for i in (1, 2)]
BUDGET = ('h', 'm_ncdm', 'omega_m', 'omega_cdm', 'omega_baryon', 'omega_gamma')
CODES = {'den': 'has_density', 'rsd': 'has_rsd', 'len': 'has_lensing', 'd1': 'has_d1', 'd2': 'has_d2', 'g1': 'has_g1', 'g2': 'has_g2', 'g3': 'has_g3', 'g4': 'has_g4', 'g5': 'has_g5'}
KINDS = {'getint': ('int',), 'getfloat': ('int', 'float'), 'getboolean': ('int', 'bool'), 'getfloat_array': ('int_array', 'float_array'), 'getint_array': ('int_array',), 'getstr_array': ('str_array',),
         'get': ('int', 'float', 'bool', 'int_array', 'float_array', 'str', 'str_array')}
# the settings that the options of older versions stand for
OLDER = {'only_cross_correlations': {'has_only_cross_correlations'}, 'covariance_z_mean': {'z_mean'}, 'covariance_deltaz': {'deltaz'}, 'covariance_fsky': {'fsky'},
         'covariance_pixelsize': {'pixelsize'}, 'covariance_zmin': {'z_min'}, 'covariance_zmax': {'z_max'}, 'covariance_window': {'has_binned_covariance'},
         'covariance_density': {'number_density1', 'number_density2'}, 'multipoles': {'l'}, 'flatsky_local': {'has_flatsky_local'},
         'flatsky_local_nonlocal': {'has_flatsky_local_nonlocal'}, 'flatsky_nonlocal': {'has_flatsky_nonlocal'}}
# what a setting of each type may be given
FITS = {'bool': {'getint', 'getboolean'}, 'int': {'getint'}, 'float': {'getfloat', 'getint'}, 'float_array': {'getfloat_array', 'getint_array'}, 'int_array': {'getint_array'}, 'str': {'get', 'getint'}}


# ---------------------------------------------------------------- types of the settings
def kinds(M):
    I = pysym.Interp(M)
    decl, enums = pxd.structs()
    fields = {s: {n: t for n, t, _ in fs} for s, fs in decl.items()}

    def ckind(path):
        t = 'coffe_parameters_t' if path[0] == '_parameters' else None
        if t is None:
            return None
        for x in path[1:]:
            if not isinstance(x, str):
                continue
            t = fields.get(t.replace('const', '').strip(' *[]').split('struct ')[-1], {}).get(x)
            if t is None:
                return None
        t = t.replace('const ', '').strip(' *[]')
        return 'float' if t in ('double', 'float') else 'int'

    def kind(t):
        if t[0] == 'call' and t[1] == 'bool' or t[0] in ('cmp', 'not', 'and', 'or'):
            return 'bool'
        if t[0] == 'call' and t[1] in ('np.array', 'np.asarray', 'list', 'tuple'):
            e = kind(t[2][0])
            return e if e and e.endswith('_array') else None
        if t[0] == 'comp':
            e = kind(t[2])
            return e + '_array' if e else None
        if t[0] in ('list', 'tuple') and t[1]:
            es = {kind(x) for x in t[1]}
            return 'float_array' if es == {'float', 'int'} else es.pop() + '_array' if len(es) == 1 and None not in es else None
        if t[0] == 'init':
            return ckind(t[1])
        if t[0] == 'idx' and t[1][0] == 'dict':
            return 'str'
        if t[0] == 'call' and t[1] in ('float', 'int', 'str'):
            return t[1]
        if t[0] == 'bin':
            es = {kind(t[2]), kind(t[3])}
            return 'float' if 'float' in es or t[1] == 'Div' else 'int' if es == {'int'} else None
        if t[0] == 'const':
            return {bool: 'bool', int: 'int', float: 'float', str: 'str'}.get(type(t[1]))
        if t[0] == 'ccall':
            return 'float'
        return None
    out = {}
    for n, d in M.props.items():
        if n == 'parameters' or 'set' not in d or 'get' not in d:
            continue
        ks = {kind(p.ret) for p in I.run(d['get']) if p.exit == 'return'}
        if len(ks) != 1 or None in ks:
            raise AnalysisBroken('type of the setting %s' % n)
        out[n] = ks.pop()
    return out


# ---------------------------------------------------------------- evaluation
class Hooks:
    def __init__(self, M, types, keys=(), scenario=None):
        self.M, self.types, self.keys, self.scenario = M, types, {k.lower(): v for k, v in dict(keys).items()}, scenario
        self.events, self.writes = [], []

    # reading
    def item(self, o, i):
        if o.tag == 'parser':
            return Sym('config')
        if o.tag == 'config' and isinstance(i, str):
            return self.read('get', i, 0)
        if o.tag == 'pars':
            return Sym('value', i)
        return Sym('item', o, i)

    def read(self, how, key, line):
        if not isinstance(key, str):
            raise AnalysisBroken('option %r' % (key,))
        if key.lower() not in self.keys:
            raise Abort('the option %s is not in the file' % key, line, 'KeyError')
        k = self.keys[key.lower()]
        if how not in KINDS:
            raise AnalysisBroken('reader %s' % how)
        if k != 'any' and k not in KINDS[how]:
            raise Abort('%s cannot be read with %s' % (key, how), line, 'ValueError')
        return Sym('read', how, key)

    def contains(self, a, b):
        if b.tag == 'config' and isinstance(a, str):
            return a.lower() in self.keys
        if b.tag == 'read' and b.args[0] == 'getstr_array' and self.scenario is not None:
            return a in self.scenario
        return None

    def truth(self, v):
        if v.tag == 'op' and v.args[0] in ('Eq', 'NotEq') and any(isinstance(x, Sym) and x.tag == 'read' and str(x.args[1]).startswith('read_') for x in v.args[1:]):
            return v.args[0] == 'NotEq'              # the option that reads a file is off
        return None

    def items(self, v):
        if v.tag == 'star':
            return None
        return None

    def isinstance(self, v, cls):
        if v is None or isinstance(v, (bool, int, float, str, list, dict, tuple)) and not (isinstance(v, tuple) and v and v[0] in ('global', 'class', 'method')):
            ts = cls if isinstance(cls, (tuple, list)) and not (cls and cls[0] == 'global') else (cls,)
            return any(isinstance(t, tuple) and t[0] == 'global' and (k.__name__ == t[1]) for t in ts for k in type(v).__mro__)
        if not isinstance(v, Sym) or v.tag not in ('value', 'conv'):
            return None
        t = self.types.get(v.args[0]) if v.tag == 'value' else v.args[0]
        names = {x[1] for x in (cls if isinstance(cls, tuple) and cls and isinstance(cls[0], tuple) else (cls,)) if isinstance(x, tuple) and x[0] == 'global'}
        mine = {'bool': {'bool', 'int'}, 'int': {'int'}, 'float': {'float'}, 'str': {'str'}, 'float_array': {'np.ndarray'}, 'int_array': {'np.ndarray'}, 'list': {'list'}}[t]
        return bool(mine & names)

    def attr(self, o, name, node):
        if o.tag == 'self' and name == 'parameters':
            return {p: Sym('value', p) for p in sorted(self.types)}
        if o.tag in ('self', 'cosmo'):
            if name == '__class__':
                return Sym('cls')
            if name in self.types:
                return Sym('value', name)
            if name in self.M.props:
                return Sym('value', name)
        if o.tag == 'cls' and (name in self.M.props or name in self.M.methods):
            return Sym('descriptor', name)
        return NotImplemented

    # writing
    def setattr(self, o, name, v, line):
        if o.tag in ('cosmo', 'self', 'probe'):
            if name in self.M.props and 'set' not in self.M.props[name]:
                raise Abort('%s cannot be set' % name, line, 'AttributeError')
            if name not in self.M.props:
                raise Abort('there is no %s to set' % name, line, 'AttributeError')
            self.events.append((o.tag, 'set', name, v, line))
        else:
            raise AnalysisBroken('attribute of %r set' % o)

    def call(self, E, f, args, kw, e):
        if isinstance(f, Sym) and f.tag == 'cls' and not args:
            return Sym('probe')
        if not isinstance(f, tuple):
            return NotImplemented
        if f[0] == 'class':
            if any('Parser' in ast.unparse(b) for b in f[1].bases):
                return Sym('parser')
            if f[1].name == 'Coffe':
                return Sym('cosmo')
        if f[0] == 'global':
            n = f[1]
            if n == 'Coffe':
                return Sym('cosmo')
            if n in ('ConfigParser', 'configparser.ConfigParser'):
                return Sym('parser')
            if n == 'setattr':
                if not isinstance(args[1], str):
                    raise AnalysisBroken('name of the setting %r' % (args[1],))
                self.setattr(args[0], args[1], args[2], e.lineno)
                return None
            if n == 'getattr':
                if isinstance(args[0], Sym) and args[0].tag == 'probe':
                    return Sym('fresh', args[1])
                return E.attr(args[0], args[1], e)
            if n == 'hasattr':
                o = args[0]
                if isinstance(o, Sym) and o.tag == 'descriptor':
                    return args[1] in ('__get__', '__doc__') or args[1] in ('__set__', '__delete__') and o.args[0] in self.M.props
                if isinstance(o, Sym) and o.tag in ('self', 'cosmo', 'cls', 'probe'):
                    return args[1] in self.M.props or args[1] in self.M.methods
            if n in ('dir',) and len(args) == 1:
                return sorted(set(self.M.props) | set(self.M.methods) | {'__class__', '__init__', '__doc__'} - {'__class__', '__init__', '__doc__'})
            if n in ('vars',):
                return NotImplemented
            if n in ('bool', 'int', 'float', 'str', 'list', 'np.array', 'np.asarray', 'tuple', 'repr') and len(args) == 1 and isinstance(args[0], Sym) and args[0].tag in ('value', 'conv', 'selfcall', 'read'):
                return conv(n, args[0], self)
            if n == 'open':
                return Sym('file')
            if n == 'print' and isinstance(kw.get('file'), Sym):
                self.writes.append((list(args) + ['\n'], e.lineno))
                return None
        if f[0] == 'method' and isinstance(f[1], Sym):
            o, name = f[1], f[2]
            if o.tag == 'config' and name.startswith('get'):
                if not args:
                    raise AnalysisBroken('option read at line %s' % e.lineno)
                k = args[0].lower() if isinstance(args[0], str) else None
                if k is not None and k not in self.keys and (len(args) > 1 or 'fallback' in kw):
                    return kw.get('fallback', args[-1])
                return self.read(name, args[0], e.lineno)
            if o.tag == 'parser' and name.startswith('get'):
                return self.read(name, args[1], e.lineno)
            if o.tag == 'parser' and name == 'has_option':
                return args[1].lower() in self.keys
            if o.tag == 'parser':
                return None
            if o.tag == 'config' and name in ('keys',):
                return [k for k in self.keys]
            if o.tag in ('cosmo',):
                if name in self.M.methods:
                    self.events.append(('cosmo', 'call', name, tuple(args), e.lineno))
                    return None
                raise Abort('there is no %s' % name, e.lineno, 'AttributeError')
            if o.tag == 'self' and name in self.M.methods and not args and not kw:
                return Sym('selfcall', name)
            if o.tag == 'self' and name in self.M.methods:
                self.events.append(('self', 'call', name, tuple(args) + tuple(kw.items()), e.lineno))
                return None
            if o.tag == 'file' and name == 'write':
                self.writes.append(([args[0]], e.lineno))
                return None
            if o.tag == 'file' and name == 'writelines':
                self.writes.append((list(args[0]), e.lineno))
                return None
            if name in ('tolist', 'strip', 'rstrip', 'lstrip') and o.tag in ('value', 'conv', 'selfcall', 'read'):
                return conv('list', o, self) if name == 'tolist' else o
        return NotImplemented


def conv(n, v, h):
    if n in ('np.array', 'np.asarray', 'tuple'):
        return v
    if v.tag == 'conv' and v.args[0] == n:
        return v
    return Sym('conv', n, v)


def peel(v):
    """(conversions, value)"""
    cs = []
    while isinstance(v, Sym) and v.tag == 'conv':
        cs.append(v.args[0])
        v = v.args[1]
    return cs, v


def flat(parts):
    out = []
    for p in parts:
        if isinstance(p, Sym) and p.tag == 'text':
            out += flat(p.args)
        elif isinstance(p, Sym) and p.tag == 'op' and p.args[0] == 'Add':
            out += flat(p.args[1:])
        else:
            out.append(p)
    return out


def delimiter(text):
    at = sorted((text.index(d), d) for d in '=:' if d in text)
    return at[0][1] if at else None


def options(h):
    """key -> value of the text written"""
    parts = []
    for ws, line in h.writes:
        for p in flat(ws):
            parts.append((p, line))
    out, cur = {}, []
    order = []
    for p, line in parts:
        if isinstance(p, str):
            while True:
                a, nl, p = p.partition('\n')
                if a and cur and isinstance(cur[-1][0], str):
                    cur[-1] = (cur[-1][0] + a, cur[-1][1])
                elif a:
                    cur.append((a, line))
                if not nl:
                    break
                if cur:
                    order.append(cur)
                cur = []
        else:
            cur.append((p, line))
    if cur:
        order.append(cur)
    for l in order:
        if not isinstance(l[0][0], str) or not delimiter(l[0][0]) or len(l) > 2 and any(not isinstance(x[0], str) or x[0].strip(' ;') for x in l[2:]):
            if isinstance(l[0][0], str) and l[0][0].lstrip()[:1] in '#[;':
                continue
            raise AnalysisBroken('line of the settings file written at %s' % l[0][1])
        k, _, rest = l[0][0].partition(delimiter(l[0][0]))
        k = k.strip()
        if k.lower() in {x.lower() for x in out}:
            out['duplicate:' + k] = (None, l[0][1])
            continue
        if len(l) == 1:
            out[k] = (rest.strip(), l[0][1])
        else:
            if rest.strip(' "'):
                raise AnalysisBroken('line of the settings file written at %s' % l[0][1])
            out[k] = (l[1][0], l[0][1])
    return out


def written_kind(v, types):
    """kind of text that a value makes"""
    cs, x = peel(v)
    if not isinstance(x, Sym):
        return None
    if x.tag == 'value':
        t = types.get(x.args[0])
    elif x.tag == 'selfcall':
        t = 'float_array'
    else:
        return None
    for n in reversed(cs):
        if n == 'int' and t in ('bool', 'int', 'float'):
            t = 'int'
        elif n == 'float' and t in ('int', 'float', 'bool'):
            t = 'float'
        elif n == 'list' and t and t.endswith('_array'):
            t = 'list:' + t
        elif n in ('str', 'repr'):
            pass
        elif n.startswith('fmt:') and (t in ('int', 'bool') and n in ('fmt:d', 'fmt:n') or t == 'float' and n.startswith('fmt:.') and n[5:-1].isdigit()
                                       and int(n[5:-1]) >= (17 if n[-1] in 'gG' else 16) and n[-1] in 'gGeE'):
            t = 'float' if t == 'bool' else t
        elif n.startswith('fmt:') and t in ('int', 'float', 'bool'):
            return 'rounded'
        elif n.startswith('fmt:') and t:
            return 'unformattable'
        else:
            return None
    if t and t.endswith('_array') and not t.startswith('list:'):
        return 'blanks'              # an array prints without commas (and on several lines)
    return t[5:] if t and t.startswith('list:') else t


def run(c):
    M = pysym.Model()
    c.cover(explanation='the code that writes and reads settings files evaluated for given option names and symbolic contents: which setting is set from which option, with which conversion')
    types = []
    c.part('types of the settings', lambda c: types.append(kinds(M)), c)
    if not types:
        c.part('parsers', parsers, c, M)
        return
    types = types[0]
    c.need(len(types), 'settings', 50)
    mod = M.mod
    ff, tf = M.methods.get('from_file'), M.methods.get('to_file')
    c.need(1 if ff and tf else 0, 'settings can be written and read', 1)

    def read(keys, scenario=None):
        h = Hooks(M, types, keys, scenario)
        E = Eval(mod, h)
        try:
            r = E.run(ff, {'filename': Sym('filename')})
        except Abort as a:
            return h, a
        if not (isinstance(r, Sym) and r.tag == 'cosmo'):
            c.find('from_file:result', 'reading a settings file does not return the object that was set up', '%s:%s' % (PYX, ff.lineno))
        return h, None
    c.part('parsers', parsers, c, M)
    c.part('parameters', parameters, c, M, types)
    W = c.part('to_file', to_file, c, M, types)
    if W is None:            # not understood (recorded): the names of the settings are the names of the options
        W = {p: (types[p], Sym('value', p), 0) for p in types}
    else:
        c.part('round trip', roundtrip, c, M, types, W, read)
    c.part('single options', single, c, M, types, W, read)
    c.part('older names', older, c, M, types, W, read, ff)
    c.part('set_parameters', dictionary, c, M, types)
    c.cover(explanation='the code that writes and reads settings files evaluated for given option names and symbolic contents: which setting is set from which option, with which conversion, in which order; '
            'the settings that depend on one another composed as polynomials', settings=len(types), options_written=len(W))


# ---------------------------------------------------------------- parts
def parameters(c, M, types):
    f = M.props['parameters']['get']
    h = Hooks(M, types)
    r = Eval(M.mod, h).run(f, {'self': Sym('self')})
    if not isinstance(r, dict):
        raise AnalysisBroken('parameters')
    for p in types:
        c.obligation()
        if p not in r:
            c.find('parameters:%s' % p, 'the setting %s is not among the parameters' % p, '%s:%s' % (PYX, f.lineno))
        elif peel(r[p])[1] != Sym('value', p):
            c.find('parameters:%s:value' % p, 'the parameters give another value for %s' % p, '%s:%s' % (PYX, f.lineno))
    for p in r:
        if p not in types:
            c.find('parameters:%s:readonly' % p, 'the parameters contain %s, which cannot be set' % p, '%s:%s' % (PYX, f.lineno))


def to_file(c, M, types):
    f = M.methods['to_file']
    loc = '%s:%s' % (PYX, f.lineno)
    h = Hooks(M, types)
    try:
        Eval(M.mod, h).run(f, {'self': Sym('self'), 'filename': Sym('filename')})
    except Abort as a:
        c.find('to_file:fails', 'writing a settings file fails: %s' % a.why, '%s:%s' % (PYX, a.line))
        return None
    W = options(h)
    out = {}
    for k, (v, line) in W.items():
        c.obligation()
        if k.startswith('duplicate:'):
            c.find('to_file:%s' % k, 'the option %s is written twice' % k[10:], '%s:%s' % (PYX, line))
            continue
        t = written_kind(v, types)
        if t is None:
            if not isinstance(v, Sym):
                out[k] = ('const', v, line)
                continue
            raise AnalysisBroken('the option %s is written as %r' % (k, v))
        if t == 'rounded':
            c.find('to_file:%s:digits' % k, 'the setting %s is saved with too few digits (%s)' % (k, peel(v)[0]), '%s:%s' % (PYX, line))
            t = types.get(peel(v)[1].args[0])
        if t == 'unformattable':
            c.find('to_file:%s:format' % k, 'writing %s fails: it cannot be formatted with %s' % (k, peel(v)[0]), '%s:%s' % (PYX, line))
            t = types.get(peel(v)[1].args[0])
        out[k] = (t, peel(v)[1], line)
    for p in types:
        c.obligation()
        if p not in out:
            c.find('to_file:%s' % p, 'the setting %s is not saved' % p, loc)
        elif out[p][1] != Sym('value', p):
            c.find('to_file:%s:value' % p, 'the setting %s is saved with the value of %s' % (p, out[p][1]), '%s:%s' % (PYX, out[p][2]))
    for b in BIAS:
        for what in ('redshifts', 'values'):
            k = '%s_%s' % (b, what)
            c.obligation()
            if k not in out:
                c.find('to_file:%s' % k, 'the %s of %s are not saved' % (what, b), loc)
            elif out[k][1] != Sym('selfcall', k):
                c.find('to_file:%s:value' % k, '%s is saved with %s' % (k, out[k][1]), '%s:%s' % (PYX, out[k][2]))
    return out


def sets(h, who='cosmo'):
    return [e for e in h.events if e[0] == who]


def check_set(c, key, prop, ev, types, what):
    """the event sets prop from the option key, with a fitting conversion"""
    v, line = ev[3], ev[4]
    cs, x = peel(v)
    loc = '%s:%s' % (PYX, line)
    if not (isinstance(x, Sym) and x.tag == 'read'):
        c.find('%s:%s' % (what, prop), 'the setting %s is not set from the file (%r)' % (prop, x), loc)
        return False
    how, k = x.args
    if k.lower() != key.lower():
        c.find('%s:%s' % (what, prop), 'the setting %s is set from the option %s' % (prop, k), loc)
        return False
    for n in cs:
        how = {'int': 'getint', 'float': 'getfloat', 'bool': 'getboolean'}.get(n, how)
    if how not in FITS[types[prop]]:
        c.find('%s:%s:kind' % (what, prop), 'the setting %s is read from the file with %s' % (prop, how), loc)
        return False
    return True


def check_bias(c, b, evs, what):
    calls = [e for e in evs if e[1] == 'call' and e[2] == 'set_' + b]
    if not calls:
        c.find('%s:%s' % (what, b), '%s is not read back from the file' % b, PYX)
        return
    e = calls[-1]
    args = [peel(x)[1] for x in e[3]]
    want = [Sym('read', 'getfloat_array', '%s_%s' % (b, w)) for w in ('redshifts', 'values')]
    if args != want:
        c.find('%s:%s' % (what, b), '%s is read back from %s' % (b, ', '.join(map(str, args))), '%s:%s' % (PYX, e[4]))


def roundtrip(c, M, types, W, read):
    keys = {k: v[0] for k, v in W.items()}
    h, a = read(keys)
    if a is not None:
        c.find('from_file:%s' % a.why, 'reading a file written by to_file fails: %s' % a.why, '%s:%s' % (PYX, a.line))
        return
    evs = sets(h)
    last = {}
    for n, e in enumerate(evs):
        if e[1] == 'set':
            last[e[2]] = (n, e)
    for p in types:
        c.obligation({'setting': p, 'option': p} if p in ('sep', 'h') else None)
        if p in last:
            check_set(c, p, p, last[p][1], types, 'from_file')
        elif p not in BUDGET:
            c.find('from_file:%s' % p, 'the setting %s is saved but not read back' % p, '%s:%s' % (PYX, M.methods['from_file'].lineno))
    for b in BIAS:
        c.obligation()
        check_bias(c, b, evs, 'from_file')
    order = [e[2] for e in evs if e[1] == 'set' and e[2] in BUDGET]
    budget(c, M, order, 'from_file', 'reading a settings file')


def budget(c, M, order, key, what):
    """the interdependent settings, set in the given order to the values of another object, end as they are there"""
    I = pysym.Interp(M)
    pre = B.py_pre()
    old = {('init', ('_parameters', n)): pre[n] for n in B.ALL}          # the object that was saved
    fresh = {n: poly.P.atom(('default', n)) for n in B.FREE}
    fresh[B.NU] = fresh[B.MN] / (poly.P.const(93.14) * fresh[B.H] * fresh[B.H])
    fresh[B.CDM] = fresh[B.M] - fresh[B.B] - fresh[B.NU]
    fresh[B.DE] = poly.P.const(1) - fresh[B.M] - fresh[B.G]
    st = dict(fresh)

    def value(p, st):
        f = M.props[p]['get']
        rets = [x.ret for x in I.run(f) if x.exit == 'return']
        if len(rets) != 1:
            raise AnalysisBroken('value of %s' % p)
        return poly.of_term(rets[0]).subst({('init', ('_parameters', n)): st[n] for n in B.ALL})
    want = {p: value(p, pre) for p in BUDGET}
    for p in order:
        f = M.props[p]['set']
        arg = [a.arg for a in f.args.posonlyargs + f.args.args][1]
        stores = []
        for x in I.run(f):
            if x.exit != 'return':
                continue
            w = {}
            for e in x.events:
                if e.kind == 'write' and len(e.a) == 2 and e.a[0] == '_parameters' and e.a[1] in B.ALL:
                    w[e.a[1]] = e.b
            if w:
                stores.append(w)
        if not stores:
            raise AnalysisBroken('the setter of %s' % p)
        ends = []
        for w in stores:
            sub = {('init', ('_parameters', n)): st[n] for n in B.ALL}
            sub[('arg', arg)] = want[p]
            ends.append({n: poly.of_term(w[n]).subst(sub) if n in w else st[n] for n in B.ALL})
        if any(e != ends[0] for e in ends[1:]):
            raise AnalysisBroken('the setter of %s has several results' % p)
        st = ends[0]
    for p in BUDGET:
        c.obligation({'setting': p, 'order': order})
        got = value(p, st)
        if not (got - want[p]).close(poly.P()):
            c.find('%s:%s:order' % (key, p), '%s changes %s: the settings it depends on are set after it, or not at all (order: %s)' % (what, p, ', '.join(order)), '%s' % PYX)


def single(c, M, types, W, read):
    for p in types:
        if p not in W:
            continue
        h, a = read({p: W[p][0]})
        c.obligation()
        if a is not None:
            c.find('option %s:fails' % p, 'a settings file with the option %s alone cannot be read: %s' % (p, a.why), '%s:%s' % (PYX, a.line))
            continue
        evs = [e for e in sets(h) if e[1] == 'set']
        mine = [e for e in evs if e[2] == p]
        if not mine:
            c.find('option %s:ignored' % p, 'the option %s of a settings file is ignored' % p, '%s:%s' % (PYX, M.methods['from_file'].lineno))
        else:
            check_set(c, p, p, mine[-1], types, 'option')
        for e in evs:
            if e[2] != p:
                c.find('option %s:%s' % (p, e[2]), 'the option %s of a settings file sets %s' % (p, e[2]), '%s:%s' % (PYX, e[4]))
        for e in sets(h):
            if e[1] == 'call':
                c.find('option %s:%s' % (p, e[2]), 'the option %s of a settings file calls %s' % (p, e[2]), '%s:%s' % (PYX, e[4]))
    for b in BIAS:
        h, a = read({b + '_redshifts': 'float_array', b + '_values': 'float_array'})
        c.obligation()
        if a is not None:
            c.find('option %s:fails' % b, 'a settings file with the sampled %s alone cannot be read: %s' % (b, a.why), '%s:%s' % (PYX, a.line))
            continue
        check_bias(c, b, sets(h), 'option')
        for e in sets(h):
            if (e[1], e[2]) != ('call', 'set_' + b):
                c.find('option %s:%s' % (b, e[2]), 'the sampled %s of a settings file sets %s' % (b, e[2]), '%s:%s' % (PYX, e[4]))


def older(c, M, types, W, read, ff):
    """names of older versions"""
    names = sorted({x.value for x in ast.walk(ff) if isinstance(x, ast.Constant) and isinstance(x.value, str)})
    n = 0
    for k in names:
        if k in W or not k.replace('_', 'a').isalnum():
            continue
        h, a = read({k: 'any'}, ())
        c.obligation()
        if a is not None:
            if a.cls == 'AttributeError' or 'cannot be read' in a.why:
                c.find('older %s:fails' % k, 'a settings file with the older option %s cannot be read: %s' % (k, a.why), '%s:%s' % (PYX, a.line))
            continue
        for e in sets(h):
            if e[1] != 'set':
                continue
            n += 1
            cs, x = peel(e[3])
            if isinstance(x, Sym) and x.tag == 'read':
                how = x.args[0]
                if how not in FITS[types[e[2]]]:
                    c.find('older %s:kind' % k, 'the older option %s is read with %s, which %s does not accept' % (k, how, e[2]), '%s:%s' % (PYX, e[4]))
            # the present name wins
            h2, a2 = read({k: 'any', e[2]: W[e[2]][0]} if e[2] in W else {k: 'any'}, ())
            if a2 is None:
                m = [y for y in sets(h2) if y[1] == 'set' and y[2] == e[2]]
                v = peel(m[-1][3])[1]
                if e[2] in W and not (isinstance(v, Sym) and v.tag == 'read' and v.args[1] == e[2]):
                    c.find('older %s:wins' % k, 'the older option %s overrides %s' % (k, e[2]), '%s:%s' % (PYX, m[-1][4]))
    for k, ps in OLDER.items():
        h, a = read({k: 'any'}, ())
        c.obligation()
        if a is None:
            got = {e[2] for e in sets(h) if e[1] == 'set'}
            if got != ps:
                c.find('older %s:target' % k, 'the older option %s sets %s instead of %s' % (k, ', '.join(sorted(got)) or 'nothing', ', '.join(sorted(ps))), '%s:%s' % (PYX, ff.lineno))
    for code, p in CODES.items():
        h, a = read({'correlation_contributions': 'str_array'}, (code,))
        c.obligation()
        if a is not None:
            c.find('contributions:%s' % code, 'a list of contributions cannot be read: %s' % a.why, '%s:%s' % (PYX, a.line))
            continue
        on = [(e[2], e[3]) for e in sets(h) if e[1] == 'set']
        if not on:
            c.find('contributions:%s' % code, 'the contribution %s of a settings file is ignored' % code, '%s:%s' % (PYX, ff.lineno))
        for q, v in on:
            if v in (True, 1) and q != p or v in (False, 0) and q == p:
                c.find('contributions:%s' % code, 'the contribution %s of a settings file sets %s' % (code, q), '%s:%s' % (PYX, ff.lineno))
    c.cover(older_options=n)


def dictionary(c, M, types):
    f = M.methods['set_parameters']
    loc = '%s:%s' % (PYX, f.lineno)
    arg = f.args.kwarg.arg if f.args.kwarg else None
    if arg is None:
        raise AnalysisBroken('arguments of set_parameters')
    h = Hooks(M, types)
    vals = {p: Sym('given', p) for p in sorted(types)}
    try:
        Eval(M.mod, h).run(f, {'self': Sym('self'), arg: dict(vals)})
    except Abort as a:
        c.find('set_parameters:fails', 'setting all parameters fails: %s' % a.why, '%s:%s' % (PYX, a.line))
        return
    last = {}
    for e in h.events:
        if e[1] == 'set' and e[0] == 'self':
            last[e[2]] = e
    for p in types:
        c.obligation()
        if p not in last:
            c.find('set_parameters:%s' % p, 'set_parameters ignores %s' % p, loc)
        elif last[p][3] != vals[p]:
            c.find('set_parameters:%s' % p, 'set_parameters sets %s to %r' % (p, last[p][3]), loc)
    budget(c, M, [e[2] for e in h.events if e[1] == 'set' and e[0] == 'self' and e[2] in BUDGET], 'set_parameters', 'setting all parameters of another object')
    # an unknown name
    h = Hooks(M, types)
    try:
        Eval(M.mod, h).run(f, {'self': Sym('self'), arg: {'h': Sym('given', 'h'), 'no_such_setting': Sym('given', 'no')}})
        c.find('set_parameters:unknown', 'set_parameters accepts a name that is no setting', loc)
    except Abort as a:
        c.obligation()
        if h.events:
            c.find('set_parameters:partial', 'set_parameters changes settings before it rejects an unknown name', loc)
    g = M.methods.get('__cinit__') or M.methods.get('__init__')
    kw = g.args.kwarg.arg if g is not None and g.args.kwarg else None
    c.obligation()
    ok = kw and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'set_parameters' and any(k.arg is None and any(isinstance(y, ast.Name) and y.id == kw for y in ast.walk(k.value)) for k in x.keywords)
                    for x in ast.walk(g))
    if not ok:
        if kw and any(isinstance(x, ast.Call) and ast.unparse(x.func) == 'setattr' for x in ast.walk(g)):
            raise AnalysisBroken('arguments of the constructor')
        c.find('constructor', 'the settings given to the constructor are not set', '%s:%s' % (PYX, g.lineno if g else 0))


def parsers(c, M):
    """lists of the file become lists of the right type, element by element, an empty one included"""
    cls = [s for s in M.mod.body if isinstance(s, ast.ClassDef) and any('Parser' in ast.unparse(b) for b in s.bases)]
    fns = {s.name: s for k in cls for s in k.body if isinstance(s, ast.FunctionDef)}
    for name, el in (('getfloat_array', 'float'), ('getint_array', 'int'), ('getstr_array', 'str')):
        f = fns.get(name)
        if f is None:
            raise AnalysisBroken('reader %s' % name)
        loc = '%s:%s' % (PYX, f.lineno)
        ns = [a.arg for a in f.args.args]
        T = TextHooks()
        env = {'self': Sym('parser'), ns[1]: Sym('section'), ns[2]: Sym('option')}
        if f.args.vararg:
            env[f.args.vararg.arg] = ()
        if f.args.kwarg:
            env[f.args.kwarg.arg] = {}
        r = Eval(M.mod, T).run(f, env)
        c.obligation({'reader': name})
        if not (isinstance(r, Sym) and r.tag == 'each'):
            raise AnalysisBroken('reader %s: %r' % (name, r))
        body, it, conds = r.args[0], r.args[1], r.args[2:]
        if not (isinstance(it, Sym) and it.tag == 'split'):
            raise AnalysisBroken('reader %s: %r' % (name, it))
        if it.args[1] != ',':
            c.find('%s:separator' % name, 'lists of a settings file are split at %r' % (it.args[1],), loc)
        base, strips = it.args[0], ''
        while isinstance(base, Sym) and base.tag == 'strip':
            strips += base.args[1]
            base = base.args[0]
        if base != Sym('raw'):
            raise AnalysisBroken('reader %s: %r' % (name, base))
        if not {'[', ']'} <= set(strips):
            c.find('%s:brackets' % name, 'the brackets of a list of a settings file are not removed', loc)
        b = body
        if isinstance(b, Sym) and b.tag == 'as':
            if b.args[0] != el:
                c.find('%s:element' % name, 'the elements of a list of a settings file are read as %s instead of %s' % (b.args[0], el), loc)
            b = b.args[1]
        elif el != 'str':
            c.find('%s:element' % name, 'the elements of a list of a settings file are not converted to %s' % el, loc)
        while isinstance(b, Sym) and b.tag == 'strip':
            b = b.args[0]
        if not (isinstance(b, Sym) and b.tag == 'element'):
            raise AnalysisBroken('reader %s: %r' % (name, b))
        if el != 'str' and not any(isinstance(x, Sym) and x.tag == 'strip' for x in conds):
            c.find('%s:empty' % name, 'an empty list of a settings file cannot be read', loc)
        for x in conds:
            if not (isinstance(x, Sym) and x.tag == 'strip' and isinstance(x.args[0], Sym) and x.args[0].tag == 'element'):
                raise AnalysisBroken('reader %s: %r' % (name, x))


class TextHooks:
    def item(self, o, i): return Sym('item', o, i)

    def contains(self, a, b): return None

    def truth(self, v): return None

    def items(self, v): return None

    def isinstance(self, v, cls): return None

    def attr(self, o, name, node): return NotImplemented

    def setattr(self, o, name, v, line): raise AnalysisBroken('assignment')

    def call(self, E, f, args, kw, e):
        if isinstance(f, tuple) and f[0] == 'method' and isinstance(f[1], Sym):
            o, n = f[1], f[2]
            if o.tag == 'parser' and n == 'get':
                return Sym('raw')
            if n in ('strip', 'rstrip', 'lstrip'):
                return Sym('strip', o, args[0] if args else ' ')
            if n == 'split':
                return Sym('split', o, args[0] if args else ' ')
        if isinstance(f, tuple) and f[0] == 'global' and f[1] in ('float', 'int', 'str', 'bool') and len(args) == 1:
            return Sym('as', f[1], args[0])
        if isinstance(f, tuple) and f[0] == 'global' and f[1] == 'list' and len(args) == 1 and isinstance(args[0], Sym) and args[0].tag == 'each':
            return args[0]
        if isinstance(f, tuple) and f[0] == 'global' and f[1] == 'map' and len(args) == 2 and args[0][0] == 'global':
            return Sym('each', Sym('as', args[0][1], Sym('element', args[1])), args[1])
        return NotImplemented


if __name__ == '__main__':
    common.main('C04', run)
