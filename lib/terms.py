"""The signal as a polynomial: every term of functions.c by the pair of contributions it belongs to."""
from collections import defaultdict
from val import *
from ir import AnalysisBroken

CON = ('den', 'rsd', 'len', 'd1', 'd2', 'g1', 'g2', 'g3', 'g4', 'g5')
NAMES = dict(den='density', rsd='rsd', len='lensing', d1='d1', d2='d2', g1='g1', g2='g2', g3='g3', g4='g4', g5='g5')
INTEGRATED = ('len', 'g4', 'g5')
FAMILY = ('functions_nonintegrated', 'functions_single_integrated', 'functions_double_integrated')
FLAT = ('functions_flatsky_density_lensing_multipoles', 'functions_flatsky_lensing_lensing_multipoles')
DERIV = ('.b_derivative', '.f_derivative', '.b_tilde_derivative', '.f_tilde_derivative')
PAR = 'coffe_parameters_t'


def no_derivatives(key):
    if key[0] == 'cell' and key[1][0] == 'struct' and key[1][1] == PAR and key[1][-1] in DERIV:
        return ZERO
    return None


def family_of(pair):
    return FAMILY[sum(x in INTEGRATED for x in pair)]


def setting(key):
    """the dotted name of a settings cell, from the key of its 'nonzero' indicator or of the cell itself"""
    if key[0] == 'nz' and key[1][0] == 'P':
        p = T.poly(key[1])
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if len(m) != 1 or m[0][1] != 1 or c != 1:
            return None
        key = T.keys[m[0][0]]
    if key[0] == 'cell' and key[1][0] == 'struct' and key[1][1] == PAR:
        return '.'.join(x[1:] if isinstance(x, str) else '[]' for x in key[1][2:])
    return None


def flag_atoms():
    out = {}
    for a, k in enumerate(T.keys):
        if k[0] == 'nz':
            n = setting(k)
            if n:
                out[a] = n.replace('correlation_contrib.', '')
    return out


def symmetric_tables(k):
    """the table of renormalisation integrals depends on its two distances symmetrically (see C16)"""
    if k[0] == 'spline' and k[1][-1] == '.renormalization':
        return A(*k[:2], *sorted(k[2:]))
    return None


class Signal:
    def __init__(self, P, bind=no_derivatives):
        self.P, self.bind = P, bind
        self.forms = {}

    def form(self, name, **kw):
        if name not in self.forms:
            if name not in self.P.funcs:
                raise AnalysisBroken('no function ' + name)
            self.forms[name] = Val(self.P, self.P.funcs[name], bind=self.bind, **kw).returned()
        return self.forms[name]

    def groups(self, p):
        """(pair of contributions, other flags) -> polynomial of the terms with exactly these flags"""
        fl = flag_atoms()
        con = {a for a, n in fl.items() if n in CON}
        out = defaultdict(dict)
        memo = {}
        for m, c in p.items():
            f, rest = [], []
            for x in m:
                (f if x[0] in fl else rest).append(x)
            f = tuple(f)
            g = memo.get(f)
            if g is None:
                cs = tuple(sorted((fl[a] for a, _ in f if a in con), key=CON.index))
                g = memo[f] = (cs, tuple(sorted({fl[a] for a, _ in f if a not in con})))
            out[g][tuple(rest)] = c
        return out


def opaque(p):
    """atoms whose value the normal form does not describe (a difference between such values is not a proof of one)"""
    bad = []
    for k in atoms(p):
        if k[0] in ('loopphi', 'opaque', 'rec', 'select') or k[0] == 'cell' and k[1][0] not in ('struct', 'glob', 'integral'):
            bad.append(k)
        elif k[0] == 'call':
            bad.append(k)
    return bad
