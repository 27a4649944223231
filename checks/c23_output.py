"""C23: what the command line writes: which file, which columns, in the order the header names them, for every element of the result.

The writer is followed from the source once per kind of output (and per selected contribution); the calls that write are compared with the documented
columns. File names, headers and formats are evaluated, so it does not matter how they are put together."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import common, ir, rounds
from ir import AnalysisBroken, Reg, Glob
from scenario import Run, one, UNDEF

OUT = {
    1: ('correlation function', 2, 'corrfunc.dat', 'struct.coffe_corrfunc'),
    2: ('multipoles', 3, 'multipoles.dat', 'struct.coffe_multipoles'),
    3: ('averaged multipoles', 4, 'average_multipoles.dat', 'struct.coffe_average_multipoles'),
    4: ('covariance of multipoles', 5, 'covariance_multipoles.dat', 'struct.coffe_covariance'),
    5: ('covariance of averaged multipoles', 6, 'covariance_average_multipoles.dat', 'struct.coffe_average_covariance'),
}
# column name in a header -> field of the result
COLUMN = {'z_mean': 'z_mean', 'sep': 'separation', 'mu': 'mu', 'l': 'l', 'value': 'value', 'z_min': 'z_min', 'z_max': 'z_max', 'l1': 'l1', 'l2': 'l2',
          'sep1': 'separation1', 'sep2': 'separation2', 'separation': 'separation', 'separation1': 'separation1', 'separation2': 'separation2'}
FULL = {1: {'z_mean', 'separation', 'mu', 'value'}, 2: {'z_mean', 'separation', 'l', 'value'}, 3: {'z_min', 'z_max', 'separation', 'l', 'value'},
        4: {'z_mean', 'l1', 'l2', 'separation1', 'separation2', 'value'}, 5: {'l1', 'l2', 'separation1', 'separation2', 'z_min', 'z_max', 'value'}}
CONTRIB = ('den', 'rsd', 'd1', 'd2', 'g1', 'g2', 'g3', 'g4', 'g5', 'len')
BACKGROUND = {'z': ('a', 'x'), 'a': ('a', 'y'), 'H': ('Hz', 'y'), 'conformal_H': ('conformal_Hz', 'y'), 'conformal_H_prime': ('conformal_Hz_prime', 'y'), 'D1': ('D1', 'y'),
              'f': ('f', 'y'), 'comoving_distance': ('comoving_distance', 'y')}
WRITES = ('fprintf', 'fputs', 'fputc', 'fwrite', 'fopen', 'fclose', 'write_ncol_null', 'write_ncol', 'config_write_file', 'vfprintf')
PAR = ('arg', 0)


_P = []


def program():
    if not _P:
        _P.append(ir.Program('inline'))
    return _P[0]


class Follow:
    """one run of the writer, with the texts as they are when a call is made"""

    def __init__(self, T, contribs=(), background=None, prefix='PRE', path='DIR/'):
        self.P = program()
        self.f = self.P.funcs.get('coffe_output_init')
        if self.f is None:
            raise AnalysisBroken('no coffe_output_init')
        self.T = T
        fixed = {(PAR, ()): one(('c', T)), (PAR, ('.output_path',)): one(('c', path)), (PAR, ('.output_prefix',)): one(('c', prefix)), (PAR, ('.timestamp',)): one(('c', 'NOW')),
                 (PAR, ('.divergent',)): one(('c', 0))}
        for n in CONTRIB:
            fixed[(PAR, ('.correlation_contrib',) if n == 'den' else ('.correlation_contrib', '.' + n))] = one(('c', 1 if n in contribs else 0))
        if background is None:
            fixed[(PAR, ('.type_bg_len',))] = one(('c', 0))
        self.calls = {}
        known = {n: self.record for n in WRITES}
        known['strcmp'] = self.compare
        self.background = background
        self.run = Run(self.P, self.f, fixed=fixed, returns=known, known={'coffe_find_integral': lambda run, i, A, st: one(('integral',))})
        if self.run.final is None:
            raise AnalysisBroken('the writer does not return')
        live = self.run.events
        self.live = {b for e in self.run.edges for b in e}
        order = {b: n for n, b in enumerate(ir.rpo(self.f))}
        self.seq = sorted((i for i in self.calls if i in live), key=lambda i: (order[i.block], i.idx))

    def record(self, run, i, A, st):
        self.calls[i] = (i.x.name, A, [frozenset(t for p in a for t in (run.text(p, st) if p[0] in ('p', 'g') else one(p))) for a in A])
        if i.x.name == 'write_ncol_null':
            self.columns = [frozenset().union(*[run.content(t, st) if t[0] == 'p' else one(t) for t in a] or [frozenset()]) for a in A[4:]]
        return one(('file', i)) if i.x.name == 'fopen' else one(('c', 0))

    def compare(self, run, i, A, st):
        out = set()
        for x in A[0]:
            for y in A[1]:
                for a in run.text(x, st):
                    for b in run.text(y, st):
                        p, q = (self.word(t) for t in (a, b))
                        out.add(('c', 0 if p == q else 1) if p is not None and q is not None else ('op', 'strcmp', a, b))
        return frozenset(out)

    def word(self, t):
        if t[0] == 'c' and isinstance(t[1], str):
            return t[1]
        if t[0] == 'in' and self.background is not None and 'type_bg' in repr(t):
            return self.background
        return None

    def files(self):
        """the files opened for this kind of output: name -> calls"""
        out = []
        for i in self.seq:
            n, A, texts = self.calls[i]
            if n == 'fopen':
                nm = texts[0]
                if len(nm) != 1 or next(iter(nm))[0] != 'c':
                    raise AnalysisBroken('name of a file: %s' % str(nm)[:80])
                out.append((next(iter(nm))[1], i, [j for j in self.seq if self.calls[j][0] in ('fprintf', 'fputs', 'fputc', 'fwrite') and
                                                   (self.calls[j][1][0] if self.calls[j][0] == 'fprintf' else self.calls[j][1][-1]) == one(('file', i))]))
        return out


def text(s, what):
    if len(s) != 1 or next(iter(s))[0] != 'c' or not isinstance(next(iter(s))[1], str):
        raise AnalysisBroken('%s: %s' % (what, str(s)[:100]))
    return next(iter(s))[1]


def data(F, T):
    """the file of the result: name, header, rows"""
    w = F.f
    res = [x for x in F.files()]
    got = []
    for name, i, calls in res:
        rows = [j for j in calls if rounds.innermost(F.run, j.block)]
        got.append((name, i, [j for j in calls if j not in rows], rows))
    return got


def header(F, calls):
    out = ''
    for j in calls:
        n, A, texts = F.calls[j]
        if n == 'fprintf':
            fm = text(texts[1], 'header')
            if '%' in fm:
                args = [text(t, 'header') for t in texts[2:]]
                if re.findall(r'%[^%s]', fm) or fm.count('%s') != len(args):
                    raise AnalysisBroken('header: ' + fm)
                fm = fm % tuple(args)
            out += fm
        elif n == 'fputs':
            out += text(texts[0], 'header')
        else:
            raise AnalysisBroken('header written by ' + n)
    return out


def leaf(F, T, t):
    """the field of the result a term is, or None"""
    tag, arg, _, struct = OUT[T]
    if t[0] != 'in' or t[1][0] != 'obj':
        return None
    base = t[1][1]
    if base[0] != 'in' or base[1] != ('arg', arg):
        return ('other', repr(base))
    path = [x for x in t[2]]
    if not path or not path[0].startswith('['):
        return None
    idx, path = path[0], path[1:]
    fields = F.f.mod.fields
    names = [x for x in path if x != '.0']
    if names:
        return ('field', names[-1].strip('.'), idx)
    return ('field', fields[struct + '_coords_t'][0], idx)


def loc(F, i):
    return F.f.loc(i)


def kind(c, T):
    F = Follow(T)
    tag, arg, suffix, struct = OUT[T]
    files = data(F, T)
    where = 'src/output.c (coffe_output_init)'
    if not files:
        c.find('file:%d' % T, 'output of the %s: no file is written' % tag, where)
        return
    if len(files) != 1:
        raise AnalysisBroken('%s: several files: %s' % (tag, [x[0] for x in files]))
    name, op, head, rows = files[0]
    if name != 'DIR/PRE' + suffix:
        c.find('file:%d:name' % T, 'output of the %s: it is written to <path><prefix>%s, documented as <path><prefix>%s' % (tag, name.replace('DIR/PRE', ''), suffix), loc(F, op))
    c.obligation('output of the %s: the file is %s' % (tag, suffix))
    c.part('name with the time (%s)' % tag, stamped, c, T)
    c.part('columns (%s)' % tag, columns, c, F, T, tag, head, rows)
    c.part('all elements (%s)' % tag, whole, c, F, T, tag, rows)


def stamped(c, T):
    F = Follow(T, prefix='$TIME')
    tag, arg, suffix, struct = OUT[T]
    for name, op, head, rows in data(F, T):
        if name != 'DIR/NOW_' + suffix:
            c.find('file:%d:time' % T, 'output of the %s with the prefix $TIME: it is written to %s, documented as <path><time>_%s' % (tag, name, suffix), loc(F, op))
        c.obligation('output of the %s: the file with the time in its name' % tag)


def joined(F, rows):
    """the line of one element, which one or several calls write one after another"""
    if not rows or len({j.block for j in rows}) != 1 or any(F.calls[j][0] != 'fprintf' for j in rows):
        raise AnalysisBroken('%d writes in a loop' % len(rows))
    rows = sorted(rows, key=lambda j: j.idx)
    fm, args, tx = '', [], []
    for j in rows:
        n, A, texts = F.calls[j]
        fm += text(texts[1], 'format')
        args += A[2:]
        tx += texts[2:]
    A, texts = F.calls[rows[0]][1], F.calls[rows[0]][2]
    return rows[0], list(A[:1]) + [one(('c', fm))] + args, list(texts[:1]) + [one(('c', fm))] + tx


def columns(c, F, T, tag, head, rows):
    j, A, texts = joined(F, rows)
    h = header(F, head)
    lines = [x[1:].strip() for x in h.split('\n') if x.startswith('#')]
    if h and not h.endswith('\n') or any(x and not x.startswith('#') for x in h.split('\n')):
        c.find('header:%d:shape' % T, 'output of the %s: the header is not made of comment lines' % tag, loc(F, j))
    if not lines:
        c.find('header:%d:none' % T, 'output of the %s: there is no header' % tag, loc(F, j))
        return
    names = [x.strip() for x in re.split(r'[,\t]+', lines[-1]) if x.strip()]
    fm = text(texts[1], 'format')
    if not fm.endswith('\n') or fm.count('\n') != 1:
        c.find('row:%d:line' % T, 'output of the %s: an element is not written on a line of its own' % tag, loc(F, j))
    conv = re.findall(r'%[-+ #0]*\d*(?:\.\d+)?(?:l|ll|z|h)?[a-zA-Z]', fm)
    seps = re.split(r'%[-+ #0]*\d*(?:\.\d+)?(?:l|ll|z|h)?[a-zA-Z]', fm)
    if any(not s.strip(' \t,') == '' or s == '' for s in seps[1:-1]):
        c.find('row:%d:separator' % T, 'output of the %s: columns are not separated' % tag, loc(F, j))
    if len(conv) != len(A) - 2:
        c.find('row:%d:format' % T, 'output of the %s: %d conversions for %d values' % (tag, len(conv), len(A) - 2), loc(F, j))
        return
    got = []
    for k, a in enumerate(A[2:]):
        if len(a) != 1:
            raise AnalysisBroken('column %d: %s' % (k + 1, str(a)[:80]))
        x = leaf(F, T, next(iter(a)))
        if x is None:
            raise AnalysisBroken('column %d: %s' % (k + 1, str(a)[:80]))
        if x[0] == 'other':
            c.find('column:%d:%d:source' % (T, k + 1), 'output of the %s: column %d is not taken from the result' % (tag, k + 1), loc(F, j))
            return
        got.append(x[1])
        real = not x[1].startswith('l')
        if real != (conv[k][-1] in 'eEfgGa'):
            c.find('column:%d:%d:format' % (T, k + 1), 'output of the %s: column %d (%s) is written with %s' % (tag, k + 1, x[1], conv[k]), loc(F, j))
        m = re.search(r'\.(\d+)', conv[k])
        if real and (conv[k][-1] in 'f' or (int(m.group(1)) if m else 6) < 6):
            c.find('column:%d:%d:digits' % (T, k + 1), 'output of the %s: column %d (%s) is written with %s, which loses digits' % (tag, k + 1, x[1], conv[k]), loc(F, j))
        c.obligation('output of the %s: column %d' % (tag, k + 1))
    if len({x for a in A[2:] for x in [leaf(F, T, next(iter(a)))[2]]}) != 1:
        c.find('row:%d:mixed' % T, 'output of the %s: the columns of one line come from different elements' % tag, loc(F, j))
    want = [COLUMN.get(x) for x in names]
    if want != got:
        c.find('header:%d' % T, 'output of the %s: the header names %s, the columns are %s' % (tag, ', '.join(names), ', '.join(got)), loc(F, j))
    if set(got) != FULL[T]:
        c.find('columns:%d' % T, 'output of the %s: the columns are %s; a line needs %s' % (tag, ', '.join(got), ', '.join(sorted(FULL[T]))), loc(F, j))
    c.obligation('output of the %s: header and columns agree' % tag)


def whole(c, F, T, tag, rows):
    """every element is written, once"""
    arg = OUT[T][1]
    j, A, texts = joined(F, rows)
    # the index of the element
    idx = {leaf(F, T, next(iter(a)))[2] for a in A[2:] if len(a) == 1 and leaf(F, T, next(iter(a)))}
    if len(idx) != 1:
        raise AnalysisBroken('index of an element')
    idx = next(iter(idx))
    m = re.match(r"\[\('phi', '([^']+)'\)\]$", idx)
    if not m:
        raise AnalysisBroken('index of an element: ' + idx)
    size = ('in', ('arg', arg), ('.size',))
    for k, what in rounds.covers(F.run, F.f, m.group(1), j, lambda t: t == size):
        c.find('whole:%d:%s' % (T, k), 'output of the %s: the loop over the elements %s' % (tag, what), loc(F, j))
    c.obligation('output of the %s: every element is written once' % tag)


def contributions(c, T, n):
    F = Follow(T, contribs=(n,) if n in CONTRIB else CONTRIB if n == 'all' else ())
    tag = OUT[T][0]
    files = data(F, T)
    if len(files) != 1:
        raise AnalysisBroken('files')
    h = header(F, files[0][2])
    lines = [x for x in h.split('\n') if 'contributions' in x]
    if T == 5 and not lines:
        return                      # this file does not list them
    if len(lines) != 1:
        c.find('contributions:%d' % T, 'output of the %s: the header does not list the contributions' % tag, loc(F, files[0][1]))
        return
    got = set(lines[0].split(':', 1)[1].split())
    want = {n} if n in CONTRIB else set(CONTRIB) if n == 'all' else set()
    if got != want:
        c.find('contributions:%d:%s' % (T, n), 'output of the %s: with %s selected the header lists %s' % (tag, ', '.join(sorted(want)) or 'nothing', ', '.join(sorted(got)) or 'nothing'), loc(F, files[0][1]))
    c.obligation('output of the %s: the header lists the contributions selected (%s)' % (tag, n))


def background(c, name):
    F = Follow(2, background=name)
    calls = [i for i in F.seq if F.calls[i][0] == 'write_ncol_null']
    if len(calls) != 1:
        raise AnalysisBroken('background written by %d calls' % len(calls))
    i = calls[0]
    n, A, texts = F.calls[i]
    w = loc(F, i)
    nm = text(texts[0], 'file of the background')
    if nm != 'DIR/PREbackground.dat':
        c.find('background:file', 'the background is written to %s' % nm, w)
    st, part = BACKGROUND[name]
    spline, pth = 'struct.coffe_background_t', None
    col = F.columns[0]
    terms = {t for t in col if t not in (UNDEF, ('c', 0))}
    if not terms:
        if any(t[0] == 'p' for t in A[4]):
            raise AnalysisBroken('background quantity %s: content not known' % name)
        c.find('background:%s' % name, 'the background quantity %s is not written' % name, w)
        return
    srcs = set()
    for t in terms:
        m = re.findall(r"\('in', \('arg', 1\), \(([^)]*)\)\)", repr(t))
        if not m:
            raise AnalysisBroken('background quantity %s: %s' % (name, str(t)[:100]))
        flds = [re.sub(r"[',\s]", ' ', x).split() for x in m]
        srcs.add((flds[-1][0].strip('.') if flds[-1] else '', repr(t)))
    for fld, r in srcs:
        fld = fld if fld != '0' else F.f.mod.fields['struct.coffe_background_t'][0]
        if name == 'z':
            ok = leafname(F, r) == 'x'
        else:
            ok = fld == st and leafname(F, r) == 'y'
        if not ok:
            c.find('background:%s' % name, 'the background quantity %s is written from %s.%s' % (name, fld, leafname(F, r)), w)
    c.obligation('background quantity %s' % name)
    ln = A[1]
    if not any(x in repr(ln) for x in ('background_bins', 'size')):
        raise AnalysisBroken('number of lines of the background: %s' % str(ln)[:80])
    if any(t[0] == 'op' for t in ln):
        c.find('background:lines', 'the number of lines of the background is not the number of its points', w)
    # the columns in order, each from its own place
    places = []
    for k, a in enumerate(i.args[4:]):
        d = [x for x in F.f.insts() if x.res == a.name] if isinstance(a, Reg) else []
        if not d or d[0].op != 'load':
            raise AnalysisBroken('column %d of the background' % (k + 1))
        p = F.run.val(d[0].args[0], F.run.env)
        if len(p) != 1 or next(iter(p))[0] != 'p':
            raise AnalysisBroken('column %d of the background' % (k + 1))
        q = next(iter(p))
        last = q[2][-1] if q[2] else '[0]'
        m = re.match(r'\[(\d+)\]$', last)
        places.append((q[1], int(m.group(1)) if m else None))
    if None in [x[1] for x in places] or len({x[0] for x in places}) != 1:
        raise AnalysisBroken('places of the columns of the background')
    if [x[1] for x in places] != list(range(len(places))):
        k = [n for n, x in enumerate(places) if x[1] != n][0]
        c.find('background:order', 'column %d of the background is taken from place %d' % (k + 1, places[k][1] + 1), w)
    c.obligation('the columns of the background are in the order they were asked for (%d)' % len(places))
    heading(c, F, name, texts[2], w)
    copied(c, F, name, srcs, places, w)


UNITS = {'H': '[1/Mpc]', 'conformal_H': '[1/Mpc]', 'conformal_H_prime': '[1/Mpc^2]', 'comoving_distance': '[Mpc]'}


def render(t, F, phi):
    """a text in which the position in the list and its entry may occur"""
    if t[0] == 'c':
        return str(t[1])
    if t[0] == 'cat':
        return render(t[1], F, phi) + render(t[2], F, phi)
    if t[0] == 'in' and 'type_bg' in repr(t[1]) and len(t[2]) == 1:
        m = re.match(r"\[\('phi', '([^']+)'\)\]$", t[2][0])
        if not m:
            raise AnalysisBroken('header of the background: %s' % str(t)[:80])
        phi.add(m.group(1))
        return F.background
    if t[0] == 'phi':
        phi.add(t[1])
        return '{k}'
    if t[0] == 'op' and t[1] == 'add' and len(t) == 4:
        a, b = sorted(t[2:], key=lambda x: x[0])
        if a[0] == 'c' and b[0] == 'phi':
            phi.add(b[1])
            return '{k%+d}' % a[1] if a[1] else '{k}'
    if t[0] == 'op' and t[1] == 'sub' and len(t) == 4 and t[2][0] == 'phi' and t[3][0] == 'c':
        phi.add(t[2][1])
        return '{k%+d}' % -t[3][1]
    if t[0] == 'print' and t[1][0] == 'c':
        parts = list(t[2])
        out = ''
        for x in re.split(r'(%(?:zu|lu|d|u|i|s|ld|%))', t[1][1]):
            if x == '%%':
                out += '%'
            elif x.startswith('%'):
                if len(x) == 1 or not parts:
                    raise AnalysisBroken('header of the background: %s' % (t[1],))
                p = parts.pop(0)
                if len(p) != 1:
                    raise AnalysisBroken('header of the background: %s' % (t[1],))
                out += render(next(iter(p)), F, phi)
            else:
                out += x
        return out
    raise AnalysisBroken('header of the background: %s' % str(t)[:100])


def heading(c, F, name, h, w):
    """the header names the column by its position, counted from 1, its name and its unit"""
    phi = set()
    full = set()
    for t in h:
        r = render(t, F, phi)
        if not r.startswith('#') or not r.endswith('\n') or r.count('\n') != 1:
            c.find('background:%s:header' % name, 'the header of the background is not one comment line', w)
        words = r[1:].split()
        if words:
            full.add(' '.join(words))
    want = '{k+1})' + name + UNITS.get(name, '')
    if full != {want}:
        c.find('background:%s:header' % name, 'the header of the background announces %s as %s, documented as %s' % (name, ', '.join(sorted(full)) or 'nothing', want), w)
    if len(phi) > 1:
        raise AnalysisBroken('header of the background: several counters')
    c.obligation('header of the background quantity %s' % name)


def copied(c, F, name, srcs, places, w):
    """element n of the column is element n of the table, for every n; and the column is the one asked for"""
    run, f = F.run, F.f
    base = places[0][0]
    fills, slots = [], []
    for i in f.insts():
        if i.op != 'store' or i not in run.events and i.block not in F.live:
            continue
        v, p = run.val(i.args[0], run.env), run.val(i.args[1], run.env)
        if len(v) != 1 or len(p) != 1 or next(iter(p))[0] != 'p':
            continue
        v, p = next(iter(v)), next(iter(p))
        if p[1] == base and len(p[2]) == 1 and v[0] == 'p':
            slots.append((i, v[1], p[2][0]))
        if any(repr(v) == r for _, r in srcs):
            fills.append((i, v, p))
    whole = [i for i in run.events if i.op == 'call' and re.match(r'(llvm\.)?mem(cpy|move)', getattr(i.x, 'name', '')) and len(slots) == 1 and run.events[i][0] == one(('p', slots[0][1], ()))]
    if len(slots) == 1 and not fills and len(whole) == 1:
        i = whole[0]
        room(c, F, name, slots[0][1])
        room(c, F, name, slots[0][1], i, run.events[i][2])
        place(c, F, slots[0][0], slots[0][2])
        c.obligation('background quantity %s, as a whole' % name)
        return
    if len(slots) != 1 or len(fills) != 1:
        raise AnalysisBroken('column of the background: %d, %d' % (len(slots), len(fills)))
    (s, heap, at), (i, v, p) = slots[0], fills[0]
    if p[1] != heap or len(p[2]) != 1 or len(v) != 3 or not v[2]:
        raise AnalysisBroken('column of the background')
    src, dst = v[2][-1], p[2][-1]
    m = re.match(r"\[\('phi', '([^']+)'\)\]$", src)
    if src != dst:
        c.find('background:%s:shift' % name, 'the background quantity %s is not copied point by point' % name, loc(F, i))
    elif not m:
        raise AnalysisBroken('column of the background: ' + src)
    else:
        for k, what in rounds.covers(run, f, m.group(1), i, lambda t: t[0] == 'in' and t[2] and t[2][-1] == '.size' and "('arg', 1)" in repr(t) or t == ('in', PAR, ('.background_bins',))):
            c.find('background:%s:%s' % (name, k), 'the loop over the points of the background quantity %s %s' % (name, what), loc(F, i))
    room(c, F, name, heap)
    place(c, F, s, at)
    c.obligation('background quantity %s, point by point' % name)


def room(c, F, name, heap, copy=None, amount=None):
    """the column has room for every point"""
    d = [i for i in F.f.insts() if i.res == heap[1] and i.op == 'call']
    if heap[0] != 'heap' or len(d) != 1 or d[0] not in F.run.events:
        raise AnalysisBroken('storage of a column')
    i = d[0]
    A = F.run.events[i]
    if any(len(a) != 1 for a in A):
        raise AnalysisBroken('storage of a column')
    if copy is not None:
        if len(amount) != 1:
            raise AnalysisBroken('amount of a column that is copied')
        i, A = copy, (amount,)
    t = [next(iter(a)) for a in A]
    size = lambda x: x[0] == 'in' and x[2] and x[2][-1] == '.size' or x == ('in', PAR, ('.background_bins',))
    if len(t) == 2:
        ok = size(t[0]) and t[1] == ('c', 8) or size(t[1]) and t[0] == ('c', 8)
    else:
        t = t[0]
        if t[0] != 'op' or len(t) != 4:
            ok = t[0] in ('c',) or size(t)
            if not ok:
                raise AnalysisBroken('storage of a column: %s' % str(t)[:80])
            ok = False
        else:
            x = [y for y in t[2:] if size(y)]
            k = [y[1] for y in t[2:] if y[0] == 'c']
            if len(x) != 1 or len(k) != 1:
                raise AnalysisBroken('storage of a column: %s' % str(t)[:80])
            ok = t[1] == 'mul' and k[0] >= 8 or t[1] == 'shl' and t[2] == x[0] and k[0] >= 3
    if not ok:
        c.find('background:%s:room' % name, 'the storage of the background quantity %s is too small for its points' % name if copy is None else 'not all points of the background quantity %s are copied' % name, loc(F, i))
    c.obligation('storage of the background quantity %s' % name)


def place(c, F, s, at):
    """the place of a column is the place of its name in the list"""
    run, f = F.run, F.f
    m = re.match(r"\[\('phi', '([^']+)'\)\]$", at)
    if not m:
        raise AnalysisBroken('column of the background: ' + at)
    for k, what in rounds.covers(run, f, m.group(1), s, lambda t: t == ('in', PAR, ('.type_bg_len',))):
        if k != 'skipped':          # other quantities take other ways
            c.find('background:list:' + k, 'the loop over the list of background quantities %s' % what, loc(F, s))


def leafname(F, r):
    """x or y of the table inside a term"""
    m = re.findall(r"'\.(x|y)'", r)
    if len(set(m)) != 1:
        raise AnalysisBroken('table: ' + r[:100])
    return m[0]


def copy(c):
    F = Follow(2)
    calls = [i for i in F.seq if F.calls[i][0] == 'config_write_file']
    if len(calls) != 1:
        c.find('settings', 'the settings are not written next to the results', 'src/output.c (coffe_output_init)')
        return
    n, A, texts = F.calls[calls[0]]
    nm = text(texts[1], 'copy of the settings')
    if nm != 'DIR/PREsettings.cfg':
        c.find('settings:file', 'the copy of the settings is written to %s' % nm, loc(F, calls[0]))
    if A[0] != one(('in', PAR, ('.conf',))):
        c.find('settings:what', 'what is written as the settings is not what was read', loc(F, calls[0]))
    c.obligation('the settings are written next to the results')


def run(c):
    c.assumptions += ['printf and its relatives write what their format says', 'a file can be opened (failures of the file system are not modelled)', 'at most 20 background columns are asked for']
    program()
    jobs = [('output %d' % T, kind, (T,)) for T in OUT]
    jobs += [('contributions %d %s' % (T, n), contributions, (T, n)) for T in OUT for n in CONTRIB + ('all', 'none')]
    jobs += [('background ' + n, background, (n,)) for n in BACKGROUND]
    jobs.append(('settings', copy, ()))
    c.parallel(jobs)


if __name__ == '__main__':
    common.main('C23', run)
