"""Sparse conditional constant propagation over the parsed IR, with an oracle for loads of configuration fields.

sccp(P, f, args, oracle) -> (reachable blocks, {reg: constant}); constants are ints/floats/None and ('fn', qname).
"""
from ir import *

TOP, BOT = ('top',), ('bot',)
MASK = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def wrap(v, ty):
    n = MASK.get(ty)
    if n is None or not isinstance(v, int):
        return v
    v &= (1 << n) - 1
    if n > 1 and v >> (n - 1):
        v -= 1 << n
    return v


def unsigned(v, ty):
    n = MASK.get(ty, 64)
    return v & ((1 << n) - 1)


def fold_inst(i, vals):
    op, ty = i.op, i.ty
    try:
        if op in ('icmp',):
            a, b = vals
            if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
                if i.x in ('eq', 'ne'):
                    return int((a == b) == (i.x == 'eq'))
                return BOT
            if i.x[0] == 'u':
                a, b = unsigned(a, ty), unsigned(b, ty)
            return int({'eq': a == b, 'ne': a != b, 'sgt': a > b, 'sge': a >= b, 'slt': a < b, 'sle': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'ult': a < b, 'ule': a <= b}[i.x])
        if op == 'fcmp':
            a, b = vals
            p = i.x
            if p in ('true', 'false'):
                return int(p == 'true')
            if p in ('ord', 'uno'):
                r = (a == a and b == b)
                return int(r if p == 'ord' else not r)
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            a, b = vals
            return wrap({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                         'xor': lambda: a ^ b, 'shl': lambda: a << b}[op](), ty)
        if op in ('sdiv', 'srem'):
            a, b = vals
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return wrap(q if op == 'sdiv' else a - q * b, ty)
        if op in ('udiv', 'urem'):
            a, b = unsigned(vals[0], ty), unsigned(vals[1], ty)
            return wrap(a // b if op == 'udiv' else a % b, ty)
        if op in ('lshr', 'ashr'):
            a, b = vals
            return wrap((unsigned(a, ty) if op == 'lshr' else a) >> b, ty)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = vals
            return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b, 'fdiv': lambda: a / b}[op]()
        if op == 'fneg':
            return -vals[0]
        if op in ('sext', 'trunc'):
            v = vals[0]
            src = i.argtys[0]
            return wrap(-v if (op == 'sext' and src == 'i1') else v, ty)
        if op == 'zext':
            return unsigned(vals[0], i.argtys[0])
        if op in ('sitofp', 'uitofp'):
            return float(vals[0] if op == 'sitofp' else unsigned(vals[0], i.argtys[0]))
        if op in ('fptosi', 'fptoui'):
            return wrap(int(vals[0]), ty)
        if op in ('freeze', 'bitcast', 'fpext', 'fptrunc'):
            return vals[0]
    except Exception:
        return BOT
    return BOT


def cval(P, f, v):
    if isinstance(v, Const):
        return BOT if v.v in ('undef', 'zero') else v.v
    if isinstance(v, Glob):
        g = P.resolve(f, v.name)
        if g is not None:
            return ('fn', g.qname)
        return ('glob', v.name)
    return BOT


def sccp(P, f, args=None, oracle=None, call_oracle=None):
    args = args or {}
    val = {}
    for p in f.params:
        val[p] = args.get(p, BOT)
    reach = set()
    edges = set()
    uses = f.uses()
    work_b = [(None, f.blocks[0])]
    work_i = []

    def get(v):
        if isinstance(v, Reg):
            return val.get(v.name, TOP)
        return cval(P, f, v)

    def visit(i):
        if i.op == 'phi':
            acc = TOP
            for v, bn in i.args:
                pb = f.bmap[bn]
                if (pb, i.block) in edges:
                    x = get(v)
                    if isinstance(v, Const) and v.v == 'undef':
                        continue
                    if x == TOP:
                        continue
                    if acc == TOP:
                        acc = x
                    elif acc != x or type(acc) != type(x):
                        acc = BOT
            new = acc
        elif i.op in ('br', 'switch'):
            b = i.block
            if i.op == 'br':
                if not i.args:
                    outs = [f.bmap[i.x[0]]]
                else:
                    c = get(i.args[0])
                    if c == TOP:
                        outs = []
                    elif c == BOT or isinstance(c, tuple):
                        outs = b.succs
                    else:
                        outs = [f.bmap[i.x[0] if c else i.x[1]]]
            else:
                c = get(i.args[0])
                if c == TOP:
                    outs = []
                elif c == BOT:
                    outs = b.succs
                else:
                    outs = [f.bmap[dict(i.x[1]).get(c, i.x[0])]]
            for o in outs:
                if (b, o) not in edges:
                    edges.add((b, o))
                    work_b.append((b, o))
            return
        elif i.res is None:
            return
        elif i.op == 'load':
            new = oracle(f, i) if oracle else None
            new = BOT if new is None else new[0]
        elif i.op == 'select':
            c = get(i.args[0])
            if c == TOP:
                new = TOP
            elif c == BOT or isinstance(c, tuple):
                a, b2 = get(i.args[1]), get(i.args[2])
                new = a if a == b2 and type(a) == type(b2) else BOT
            else:
                new = get(i.args[1] if c else i.args[2])
        elif i.op == 'call':
            new = BOT
            if call_oracle:
                r = call_oracle(f, i, [get(a) for a in i.args])
                if r is not None:
                    new = r[0]
        elif i.op in ('getelementptr', 'alloca', 'extractvalue', 'insertvalue'):
            new = BOT
        else:
            vs = [get(a) for a in i.args]
            if any(v == TOP for v in vs):
                new = TOP
            elif any(v == BOT for v in vs):
                new = BOT
                # absorbing elements
                if i.op == 'and' and any(v == 0 and v is not None and not isinstance(v, tuple) for v in vs):
                    new = 0
                elif i.op in ('mul',) and any(v == 0 and v is not None and not isinstance(v, tuple) for v in vs):
                    new = 0
                elif i.op == 'fmul' and any(isinstance(v, float) and v == 0.0 for v in vs):
                    new = BOT
                elif i.op == 'or' and i.ty == 'i1' and any(v == 1 for v in vs):
                    new = 1
            else:
                new = fold_inst(i, vs)
        old = val.get(i.res, TOP)
        if new == TOP or (old == new and type(old) == type(new)):
            return
        if old == BOT:
            return
        if old != TOP:
            new = BOT
        val[i.res] = new
        for u in uses.get(i.res, ()):
            if u.block in reach:
                work_i.append(u)

    while work_b or work_i:
        if work_i:
            visit(work_i.pop())
            continue
        pb, b = work_b.pop()
        first = b not in reach
        reach.add(b)
        for i in b.insts:
            if i.op == 'phi' or first:
                visit(i)
    return reach, {k: v for k, v in val.items() if v not in (TOP, BOT)}, edges
