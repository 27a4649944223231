"""Backward value slices inside one function: which settings fields reach a given memory cell.

Memory is split into cells (root object, struct field). A root is a parameter, a local, an allocation, or the object a
stored pointer points to; roots that are stored into a pointer cell are merged with what that cell points to.
Calls are handled through mod/ref sets of the callee. Control dependences are part of the slice.
"""
from collections import defaultdict
from ir import *
import fields as F


class Slicer:
    def __init__(self, P, E, f):
        self.P, self.E, self.f = P, E, f
        self.parent = {}
        self.cd = control_deps(f)
        self.ptr_stores = []
        self.writers = defaultdict(list)     # root -> [(path, inst, kind)]
        self.stored_ptrs = defaultdict(list)  # root -> [value]
        for _ in range(3):
            for i in f.insts():
                if i.op == 'store' and i.ty == 'ptr' and not isinstance(i.args[0], Const):
                    c = self.cell(i.args[1])
                    r = self.root(i.args[0])
                    if c and r:
                        self.union(('l', self.ckey(c)), r)
        for i in f.insts():
            if i.op == 'store':
                c = self.cell(i.args[1])
                if c:
                    self.writers[self.find(c[0])].append((c[1], i))
                    if i.ty == 'ptr':
                        self.stored_ptrs[self.find(c[0])].append((c[1], i.args[0]))
            elif i.op == 'call':
                for c in self.call_writes(i):
                    self.writers[self.find(c[0])].append((c[1], i))

    # ---- union find on roots
    def find(self, r):
        while r in self.parent:
            r = self.parent[r]
        return r

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            if a[0] == 'l' and b[0] != 'l':
                self.parent[a] = b
            else:
                self.parent[b] = a

    def ckey(self, c): return (self.find(c[0]), c[1])

    def root(self, v, depth=0):
        c = self.cell(v, depth)
        return c[0] if c else None

    def cell(self, v, depth=0):
        """pointer value -> (root, field path)"""
        if depth > 40:
            return None
        if isinstance(v, Glob):
            return (('g', v.name), ())
        if isinstance(v, CExpr) or isinstance(v, Const):
            return None
        if v.name in self.f.params:
            return (('p', self.f.params.index(v.name)), ())
        i = self.f.defs.get(v.name)
        if i is None:
            return None
        if i.op == 'alloca':
            return (('a', v.name), ())
        if i.op in ('bitcast', 'freeze'):
            return self.cell(i.args[0], depth + 1)
        if i.op == 'getelementptr':
            c = self.cell(i.args[0], depth + 1)
            if c is None:
                return None
            fp = F.field_path(self.P, self.f, v)
            if i.ty.startswith('%struct.') and len(i.args) > 2 and fp:
                n = i.ty[8:]
                names = []
                cur = i.ty[1:]
                for ix in i.args[2:]:
                    if not isinstance(ix, Const) or cur not in self.P.fields:
                        break
                    names.append(self.P.fields[cur][ix.v])
                    t = None
                    for m in self.P.mods.values():
                        if cur in m.structs and m.structs[cur]:
                            t = m.structs[cur][ix.v]
                            break
                    cur = F.struct_of(t) if t else None
                    if cur is None:
                        break
                return (c[0], c[1] + tuple(names))
            return c
        if i.op == 'load':
            c = self.cell(i.args[0], depth + 1)
            return (('l', self.ckey(c)), ()) if c else None
        if i.op == 'call':
            return (('m', v.name), ())
        if i.op in ('phi', 'select'):
            ops = [a for a, _ in i.args] if i.op == 'phi' else i.args[1:]
            cs = [self.cell(a, depth + 10) for a in ops]
            cs = [c for c in cs if c]
            if not cs:
                return None
            for c in cs[1:]:
                self.union(cs[0][0], c[0])
            return (cs[0][0], cs[0][1] if all(c[1] == cs[0][1] for c in cs) else ())
        return None

    # ---- calls
    def callee(self, i):
        return self.P.resolve(self.f, i.x.name) if isinstance(i.x, Glob) else None

    def call_writes(self, i):
        g = self.callee(i)
        name = i.x.name if isinstance(i.x, Glob) else ''
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name in ('free',) or name in F.PRINTERS:
            return
        if g is not None and g.qname in self.E.printonly:
            return
        for k, a in enumerate(i.args):
            if not (i.argtys and i.argtys[k] == 'ptr'):
                continue
            if name.startswith('llvm.memcpy') and k != 0:
                continue
            if g is None and not name.startswith('llvm.memcpy') and not self.E.mr.ext_writes(name, k):
                continue
            if g is not None and k not in self.E.mr.mod[g.qname]:
                continue
            c = self.cell(a)
            if c:
                yield c

    def reach(self, cell, seen):
        """cells reachable from a cell through pointers stored in it"""
        root, path = self.find(cell[0]), cell[1]
        if (root, path) in seen:
            return seen
        seen.add((root, path))

        def over(p):
            n = min(len(p), len(path))
            return p[:n] == path[:n]
        for p, v in self.stored_ptrs.get(root, ()):
            c = self.cell(v) if over(p) else None
            if c:
                self.reach(c, seen)
        for q in list(self.writers):
            if q[0] == 'l' and self.find(q[1][0]) == root and over(q[1][1]):
                self.reach((q, ()), seen)
        return seen

    # ---- the slice
    def run(self, seeds):
        """seeds: [(value, [cells])] -> (set of instruction ids, {(root, path)} cells read, [(call, callee)])"""
        self.insts, self.cells, self.calls = {}, set(), []
        work = list(seeds)
        while work:
            x = work.pop()
            if x[0] == 'v':
                v = x[1]
                if isinstance(v, Reg):
                    d = self.f.defs.get(v.name)
                    if d is not None:
                        work.append(('i', d))
            elif x[0] == 'c':
                c = (self.find(x[1][0]), x[1][1])
                if c in self.cells:
                    continue
                self.cells.add(c)
                for path, w in self.writers.get(c[0], ()):
                    n = min(len(path), len(c[1]))
                    if path[:n] == c[1][:n]:
                        work.append(('i', w))
            else:
                i = x[1]
                if id(i) in self.insts:
                    continue
                self.insts[id(i)] = i
                for b in self.cd.get(i.block, ()):
                    work.append(('i', b.term))
                if i.op == 'phi':
                    for v, bn in i.args:
                        work.append(('v', v))
                        pb = self.f.bmap[bn]
                        for b in self.cd.get(pb, ()):
                            work.append(('i', b.term))
                        if len(pb.succs) > 1:
                            work.append(('i', pb.term))
                    continue
                for v in i.args:
                    work.append(('v', v))
                if i.op == 'load':
                    c = self.cell(i.args[0])
                    if c:
                        work.append(('c', c))
                elif i.op == 'call':
                    g = self.callee(i)
                    name = i.x.name if isinstance(i.x, Glob) else ''
                    if name in ('free',) or name in F.PRINTERS:
                        continue
                    self.calls.append((i, g))
                    for k, a in enumerate(i.args):
                        if not (i.argtys and i.argtys[k] == 'ptr'):
                            continue
                        if name.startswith('llvm.memcpy') and k != 1:
                            continue
                        if g is not None and k not in self.E.mr.ref[g.qname]:
                            continue
                        c = self.cell(a)
                        if c is None:
                            continue
                        if g is not None and c[0][0] == 'p' and not c[1]:
                            continue                      # the whole settings object: handled by deps of the callee
                        work.append(('c', c))
                        for r, path in self.reach(c, set()):
                            work.append(('c', (r, path)))
                            for p, v in self.stored_ptrs.get(r, ()):
                                n = min(len(p), len(path))
                                if p[:n] == path[:n] and isinstance(v, Glob):
                                    h = self.P.resolve(self.f, v.name)
                                    if h is not None:
                                        self.calls.append((i, h))
                    for a in i.args:
                        if isinstance(a, Glob):
                            h = self.P.resolve(self.f, a.name)
                            if h is not None:
                                self.calls.append((i, h))
        return self.insts, self.cells, self.calls


def param_struct_fields(P, E, f, struct, seeds_of):
    """{name: {field paths of the parameter of type `struct`}} where seeds_of(slicer) yields (name, seeds)"""
    s = Slicer(P, E, f)
    out = {}
    for name, seeds in seeds_of(s):
        insts, cells, calls = s.run(seeds)
        deps = set()
        for root, path in cells:
            if root[0] == 'p' and path:
                deps.add((root[1], path))
        for i in insts.values():
            if i.op == 'load':
                c = s.cell(i.args[0])
        for i, g in calls:
            if g is not None:
                for p in E.deps(g, {struct}):
                    deps.add((None, p[1:]))
        out[name] = deps
    return out
