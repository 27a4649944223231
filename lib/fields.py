"""Struct-field paths of pointers, and which parts of the settings a computation depends on."""
from collections import defaultdict
from ir import *
import sccp as S

PRINTERS = {'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'putc', 'fflush', 'clock', 'time', 'perror', 'fwrite', 'vfprintf', 'difftime',
            'localtime', 'strftime', 'omp_get_wtime', 'print_parameters'}
PRINTERS.discard('print_parameters')


def struct_of(ty): return ty[1:] if ty.startswith('%struct.') else None


def field_path(P, f, v, depth=0):
    """pointer value -> ('coffe_parameters_t', 'field', ...) when it addresses a field of a known struct, else None"""
    if not isinstance(v, Reg) or depth > 20:
        return None
    i = f.defs.get(v.name)
    if i is None:
        return None
    if i.op in ('bitcast', 'freeze'):
        return field_path(P, f, i.args[0], depth + 1)
    if i.op != 'getelementptr':
        return None
    st = struct_of(i.ty)
    if st is None:
        if i.ty.startswith('['):
            return field_path(P, f, i.args[0], depth + 1)      # element of an embedded array
        return None
    if len(i.args) < 3:
        return field_path(P, f, i.args[0], depth + 1)
    base = field_path(P, f, i.args[0], depth + 1)
    path = list(base) if base else [st.split('.', 1)[1]]
    cur = st
    for ix in i.args[2:]:
        if not isinstance(ix, Const) or cur not in P.fields:
            break
        k = ix.v
        path.append(P.fields[cur][k])
        t = None
        for m in P.mods.values():
            if cur in m.structs and m.structs[cur]:
                t = m.structs[cur][k]
                break
        cur = struct_of(t) if t else None
        if cur is None:
            break
    return tuple(path)


def base_pointer(f, v, depth=0):
    """strip GEPs/casts -> root value"""
    while isinstance(v, Reg) and depth < 50:
        i = f.defs.get(v.name)
        if i is None or i.op not in ('getelementptr', 'bitcast', 'freeze'):
            return v
        v = i.args[0]
        depth += 1
    return v


class ModRef:
    """For every repo function and parameter: may it write / read memory reachable from that parameter?
    Externals: the listed read-only ones are reads; everything else reads and writes."""
    READONLY = {'gsl_spline_eval', 'gsl_spline_eval_deriv', 'gsl_spline_eval_integ', 'gsl_spline2d_eval', 'gsl_interp_eval', 'strlen', 'strcmp', 'strncmp',
                'printf', 'fprintf', 'atof', 'atoi', 'strtol', 'strtod', 'llvm.memcpy.src'}

    WRITES = {'gsl_spline_init': {0}, 'gsl_spline2d_init': {0}, 'gsl_interp_init': {0}, 'gsl_integration_qag': {6, 7, 8}, 'gsl_integration_qagiu': {5, 6, 7},
              'gsl_integration_qags': {6, 7, 8}, 'gsl_integration_cquad': {5, 6, 7, 8}, 'strncpy': {0}, 'strcpy': {0}, 'strncat': {0}, 'strcat': {0}, 'snprintf': {0}, 'sprintf': {0},
              'gsl_vector_get': set(), 'gsl_matrix_get': set(), 'gsl_vector_set': {0}, 'gsl_matrix_set': {0}, 'gsl_multifit_linear': {2, 3, 4, 5}}

    def ext_writes(self, name, k):
        if name in self.WRITES:
            return k in self.WRITES[name]
        return not (name in self.READONLY or (name or '').startswith(('gsl_spline_eval', 'gsl_spline2d_eval', 'gsl_interp_eval')))

    def __init__(self, P):
        self.P = P
        self.mod = defaultdict(set)   # qname -> param indices whose reachable memory may be written
        self.ref = defaultdict(set)
        self.gstore = set()
        changed = True
        funcs = list(P.funcs.values())
        while changed:
            changed = False
            for f in funcs:
                m, r = self.scan(f)
                if m - self.mod[f.qname] or r - self.ref[f.qname]:
                    self.mod[f.qname] |= m
                    self.ref[f.qname] |= r
                    changed = True

    def roots(self, f, v, seen=None):
        """parameters from which pointer v may be derived (through arithmetic and loads)"""
        seen = seen if seen is not None else set()
        if not isinstance(v, Reg) or v.name in seen:
            return set()
        seen.add(v.name)
        if v.name in f.params:
            return {f.params.index(v.name)}
        i = f.defs.get(v.name)
        if i is None:
            return set()
        if i.op in ('getelementptr', 'bitcast', 'freeze', 'load'):
            return self.roots(f, i.args[0], seen)
        if i.op == 'phi':
            return set().union(*[self.roots(f, a, seen) for a, _ in i.args]) if i.args else set()
        if i.op == 'select':
            return self.roots(f, i.args[1], seen) | self.roots(f, i.args[2], seen)
        return set()

    def scan(self, f):
        m, r = set(), set()
        for i in f.insts():
            if i.op == 'load':
                r |= self.roots(f, i.args[0])
            elif i.op == 'store':
                m |= self.roots(f, i.args[1])
            elif i.op == 'call':
                g = self.P.resolve(f, i.x.name) if isinstance(i.x, Glob) else None
                name = i.x.name if isinstance(i.x, Glob) else None
                for k, a in enumerate(i.args):
                    if i.argtys and i.argtys[k] != 'ptr':
                        continue
                    rs = self.roots(f, a)
                    if not rs:
                        continue
                    if g is not None:
                        if k in self.mod[g.qname]:
                            m |= rs
                        if k in self.ref[g.qname]:
                            r |= rs
                    elif name and name.startswith('llvm.memcpy'):
                        (m if k == 0 else r).update(rs)
                    elif name == 'free':
                        continue
                    else:
                        if self.ext_writes(name, k):
                            m |= rs
                        r |= rs
        return m, r


class Effects:
    def __init__(self, P):
        self.P = P
        self.mr = ModRef(P)
        self.printonly = self._printonly()
        self.dead = set()
        self.dead = self._dead_fields()

    def _printonly(self):
        """functions whose only effect is printing"""
        P = self.P
        res = set()
        changed = True
        while changed:
            changed = False
            for f in P.funcs.values():
                if f.qname in res:
                    continue
                ok = True
                for i in f.insts():
                    if i.op == 'store' and not self._local(f, i.args[1]):
                        ok = False
                        break
                    if i.op == 'call':
                        g = P.resolve(f, i.x.name) if isinstance(i.x, Glob) else None
                        n = g.qname if g is not None else (i.x.name if isinstance(i.x, Glob) else None)
                        if g is None and (n in PRINTERS or (n or '').startswith('llvm.')):
                            continue
                        if g is not None and n in res:
                            continue
                        ok = False
                        break
                    if i.op == 'ret' and i.args:
                        ok = ok and isinstance(i.args[0], Const)
                if ok:
                    res.add(f.qname)
                    changed = True
        return res

    def _local(self, f, v):
        b = base_pointer(f, v)
        return isinstance(b, Reg) and b.name in f.defs and f.defs[b.name].op == 'alloca'

    def _dead_fields(self):
        """settings fields that nothing reads except to release them"""
        P = self.P
        written, read = set(), set()
        for f in P.funcs.values():
            for i in f.insts():
                if i.op == 'getelementptr':
                    p = field_path(P, f, Reg(i.res))
                    if p is None or p[0] != 'coffe_parameters_t' or len(p) < 2:
                        continue
                    for u in f.uses().get(i.res, ()):
                        if u.op == 'load':
                            used = [w for w in f.uses().get(u.res, ()) if not (w.op == 'call' and isinstance(w.x, Glob) and w.x.name == 'free')
                                    and not (w.op == 'icmp' and Const(None) in w.args)]
                            (read if used else written).add(p)
                        elif u.op == 'store' and u.args[1] == Reg(i.res):
                            written.add(p)
                        elif u.op == 'getelementptr':
                            pass
                        elif u.op == 'call':
                            k = [n for n, a in enumerate(u.args) if a == Reg(i.res)]
                            g = P.resolve(f, u.x.name) if isinstance(u.x, Glob) else None
                            for n in k:
                                if g is not None and (self.releaser(g) or self.output_slot(g, n)):
                                    written.add(p)
                                else:
                                    read.add(p)
                        else:
                            read.add(p)
        return {p for p in written if not any(p[:len(r)] == r or r[:len(p)] == p for r in read)}

    def releaser(self, g, seen=()):
        """g only frees memory and stores constants (a release or a reset function)"""
        if g.qname in seen:
            return True
        for i in g.insts():
            if i.op == 'store' and not isinstance(i.args[0], Const) and not self._local(g, i.args[1]):
                return False
            if i.op == 'call':
                h = self.P.resolve(g, i.x.name) if isinstance(i.x, Glob) else None
                if h is not None:
                    if not self.releaser(h, tuple(seen) + (g.qname,)):
                        return False
                elif not isinstance(i.x, Glob) or not (i.x.name == 'free' or i.x.name.endswith('_free') or i.x.name.startswith('llvm.')):
                    return False
        return True

    def output_slot(self, g, n):
        """parameter n of g: every field is stored before it is loaded (the slot's old contents do not matter)"""
        if n >= len(g.params):
            return False
        pn = g.params[n]
        idom = None
        slots = defaultdict(lambda: ([], []))
        for u in g.uses().get(pn, ()):
            if u.op == 'getelementptr':
                key = field_path(self.P, g, Reg(u.res))
                for w in g.uses().get(u.res, ()):
                    if w.op == 'load':
                        slots[key][0].append(w)
                    elif w.op == 'store' and w.args[1] == Reg(u.res):
                        slots[key][1].append(w)
                    else:
                        return False
            elif u.op == 'load':
                slots[None][0].append(u)
            elif u.op == 'store' and u.args[1] == Reg(pn):
                slots[None][1].append(u)
            elif u.op == 'call' and isinstance(u.x, Glob):
                h = self.P.resolve(g, u.x.name)
                if h is None or not self.releaser(h):
                    return False
            elif u.op != 'icmp':
                return False
        idom = dominators(g)
        for loads, stores in slots.values():
            for l in loads:
                if not any((s.block is l.block and s.idx < l.idx) or (s.block is not l.block and dominates(idom, s.block, l.block)) for s in stores):
                    return False
        return True

    # -------------------------------------------------------- relevance
    def irrelevant_call(self, f, i):
        name = i.x.name if isinstance(i.x, Glob) else None
        g = self.P.resolve(f, name) if name else None
        if g is None:
            return name in PRINTERS or (name or '').startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.stack'))
        if g.qname in self.printonly:
            return True
        if i.res is not None and f.uses().get(i.res):
            return False
        # every written argument is a dead settings field
        if self._touches_globals(g):
            return False
        for k, a in enumerate(i.args):
            if i.argtys and i.argtys[k] == 'ptr' and k in self.mr.mod[g.qname]:
                p = field_path(self.P, f, a)
                if p is None or not any(p[:len(d)] == d for d in self.dead):
                    return False
        return bool(i.args)

    def _touches_globals(self, g, seen=None):
        seen = seen or set()
        if g.qname in seen:
            return False
        seen.add(g.qname)
        for i in g.insts():
            if i.op == 'store':
                b = base_pointer(g, i.args[1])
                if isinstance(b, (Glob, CExpr)):
                    return True
        return any(isinstance(h, Func) and self._touches_globals(h, seen) for _, h in self.P.callees(g))

    def live(self, f, reach):
        """instructions that can influence anything but printed progress messages (aggressive DCE)"""
        cd = control_deps(f)
        live = set()
        work = []

        def mark(i):
            if i is not None and id(i) not in live and i.block in reach:
                live.add(id(i))
                work.append(i)
        for b in f.blocks:
            if b not in reach:
                continue
            for i in b.insts:
                if i.op in ('store', 'ret', 'atomicrmw', 'cmpxchg'):
                    if i.op == 'store':
                        p = field_path(self.P, f, i.args[1])
                        if p is not None and p in self.dead:
                            continue
                    mark(i)
                elif i.op == 'unreachable':
                    mark(i)
                elif i.op == 'call' and not self.irrelevant_call(f, i):
                    mark(i)
        liveb = set()
        while work:
            i = work.pop()
            for a in operands(i):
                if isinstance(a, Reg):
                    mark(f.defs.get(a.name))
            if i.op == 'phi':
                for v, bn in i.args:
                    pb = f.bmap[bn]
                    if pb in reach:
                        mark(pb.term)
            if i.block not in liveb:
                liveb.add(i.block)
                for c in cd.get(i.block, ()):
                    mark(c.term)
        return live

    # -------------------------------------------------------- dependency of a computation on fields
    def deps(self, root, structs, oracle_vals=None, args=None, want_sites=True):
        """fields of the given structs that the function may read in a way that matters.
        oracle_vals: {field path: constant} known configuration. -> {path: [loc]} """
        P = self.P
        oracle_vals = oracle_vals or {}
        out = defaultdict(list)
        seen = set()
        work = [(root, tuple(sorted((args or {}).items())))]

        def oracle(f, i):
            p = field_path(P, f, i.args[0])
            if p in oracle_vals:
                return (oracle_vals[p],)
            return None
        ncalls = 0
        while work:
            f, a = work.pop()
            if (f.qname, a) in seen:
                continue
            seen.add((f.qname, a))
            reach, val, edges = S.sccp(P, f, dict(a), oracle)
            lv = self.live(f, reach)
            for b in f.blocks:
                if b not in reach:
                    continue
                for i in b.insts:
                    if id(i) not in lv:
                        continue
                    if i.op == 'getelementptr':
                        p = field_path(P, f, Reg(i.res))
                        if p is not None and p[0] in structs and len(p) > 1:
                            if self._is_read(f, i, lv):
                                out[p].append(f.loc(i))
                    if i.op == 'call':
                        g = P.resolve(f, i.x.name) if isinstance(i.x, Glob) else None
                        if g is not None and g.blocks:
                            ca = {}
                            for k, v in enumerate(i.args):
                                if k < len(g.params) and g.ptypes[k] in ('i32', 'i64', 'i1'):
                                    c = v.v if isinstance(v, Const) and isinstance(v.v, int) else (val.get(v.name) if isinstance(v, Reg) else None)
                                    if isinstance(c, int):
                                        ca[g.params[k]] = c
                            work.append((g, tuple(sorted(ca.items()))))
                    for o in operands(i):
                        if isinstance(o, Glob) and not (i.op == 'call' and o is i.x):
                            g = P.resolve(f, o.name)
                            if g is not None:
                                work.append((g, ()))
        self.last_contexts = len(seen)
        self.last_funcs = {q for q, _ in seen}
        return out

    def _is_read(self, f, i, lv):
        for u in f.uses().get(i.res, ()):
            if id(u) not in lv:
                continue
            if u.op == 'load':
                return True
            if u.op == 'call':
                g = self.P.resolve(f, u.x.name) if isinstance(u.x, Glob) else None
                for k, a in enumerate(u.args):
                    if a == Reg(i.res):
                        if g is None or k in self.mr.ref[g.qname]:
                            return True
            if u.op in ('phi', 'select', 'ptrtoint', 'icmp'):
                return True
            if u.op == 'store' and u.args[0] == Reg(i.res):
                return True
        return False
