"""C13: exchanging the two populations and reversing mu leaves every prediction unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import common, ir
from ir import AnalysisBroken
from val import *
from terms import *

SW = {'galaxy_bias1': 'galaxy_bias2', 'magnification_bias1': 'magnification_bias2', 'evolution_bias1': 'evolution_bias2', 'G1': 'G2',
      'density1': 'density2'}
SW.update({v: k for k, v in SW.items()})


def swapped(mu, x1=None, x2=None):
    def g(k):
        if k == mu:
            return scale(A(*k), -1)
        if x1 is not None and k in (x1, x2):
            return A(*(x2 if k == x1 else x1))
        return tables(k)
    return g


def tables(k):
    if k[0] == 'spline':
        if k[1][-1] == '.renormalization':
            return A(*k[:2], *sorted(k[2:]))
        if k[1][-1] == '.renormalization_zero_separation':
            return A(*k[:2])             # only looked up where the two distances coincide
        if k[1][0] == 'struct' and str(k[1][2])[1:] in SW:
            return A('spline', k[1][:2] + ('.' + SW[k[1][2][1:]],) + k[1][3:], *k[2:])
    return None


def canon(k):
    if k[0] == 'spline':
        if k[1][-1] == '.renormalization':
            return A(*k[:2], *sorted(k[2:]))
        if k[1][-1] == '.renormalization_zero_separation':
            return A(*k[:2])
    return None


def relabel(x1, x2):
    def g(k):
        if k in (x1, x2):
            return A(*(x2 if k == x1 else x1))
        return None
    return g


def args(P, f, names):
    return [('arg', f.params.index(n)) if n in f.params else None for n in names]


def run(c):
    P = ir.Program('inline')
    S = Signal(P)
    nt = 0
    und = []
    for n in FAMILY + FLAT:
        f = P.funcs.get(n)
        if f is None:
            raise AnalysisBroken('no function ' + n)
        # the position of the angle, of the point and of the integration variables is fixed by the interface of the function
        mu = ('arg', 4) if n in FAMILY else ('arg', -1)
        x1, x2 = (('arg', 6), ('arg', 7)) if n == FAMILY[2] else (None, None)
        p = rewriter(canon)(S.form(n))
        nt += len(p)
        g = S.groups(p)
        rw = rewriter(swapped(mu, x1, x2))
        rl = rewriter(relabel(x1, x2)) if x1 else None
        for (cs, oth), q in sorted(g.items()):
            label = '%s:%s%s' % (n, '-'.join(cs) if len(cs) != 1 else cs[0] + '-' + cs[0], ''.join('+' + x for x in oth))
            c.obligation(label)
            d = sub(rw(q), q)
            if d and rl:
                d = add(d, rl(d))        # integrals over both line-of-sight variables: their names do not matter
            if not d:
                continue
            if opaque(d):
                und.append(label)
                continue
            what = '-'.join(NAMES[x] for x in cs) if cs else n
            c.find(label, 'the %s term%s changes when the two populations are exchanged and mu is reversed (e.g. %s)' % (
                what, ' (%s)' % ', '.join(oth) if oth else '', show(d, 1)[:220]), 'src/functions.c ' + n)
    populations(c, P)
    projections(c, P)
    c.need(nt, 'terms of the signal', 1000)
    c.cover(terms=nt, undecided=und, explanation='polynomial normal form of every pair term; substitution of the populations, the sign of mu and the line-of-sight variables; the difference must be the zero polynomial')
    c.assumptions += ['the table of renormalisation integrals is symmetric in its two distances', 'where two points coincide their distances are equal']


def populations(c, P):
    """the per-population columns of the background are the same function of their own population"""
    f = P.funcs.get('coffe_background_init')
    if f is None:
        raise AnalysisBroken('no function coffe_background_init')
    v = Val(P, f)
    cols = {}
    for i in f.insts():
        if i.op == 'store':
            a = v.addr(i.args[1])
            for x in column(a):
                if x in ('G1', 'G2'):
                    cols.setdefault(x, []).append(v.num(i.args[0]))
    rw = rewriter(tables)
    c.obligation('background column G1 <-> G2')
    if not cols.get('G1') or not cols.get('G2'):
        c.cover(undecided_background='columns not found')
        return
    s = lambda k: sorted(repr(sorted(p.items())) for p in k)
    if s([rw(p) for p in cols['G1']]) != s(cols['G2']):
        d = sub(rw(cols['G1'][0]), cols['G2'][0])
        c.find('coffe_background_init:G1-G2', 'the Doppler factors of the two populations are different functions of their settings (%s)' % show(d, 1)[:200], 'src/background.c coffe_background_init')


def column(a):
    out = []
    for x in a:
        if isinstance(x, str) and x.startswith('.'):
            out.append(x[1:])
        elif isinstance(x, tuple):
            out += column(x)
    return out


def projections(c, P):
    """nothing between the signal functions and the result looks at one population only"""
    for n in sorted(P.funcs):
        f = P.funcs[n]
        if f.mod.base not in ('signal', 'corrfunc', 'multipoles', 'average_multipoles'):
            continue
        v = Val(P, f)
        for i in f.insts():
            if i.op == 'getelementptr':
                for x in column(v.addr(Reg(i.res))):
                    if x in SW:
                        c.find('%s:%s' % (n, x), '%s uses a setting of one population (%s)' % (n, x), n)
        c.obligation()


if __name__ == '__main__':
    common.main('C13', run)
