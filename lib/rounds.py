"""Loops over the elements of something, in a followed function: from which element to which, and whether every one is dealt with."""
from ir import AnalysisBroken
from scenario import one


def innermost(run, b):
    """the loop a block is in: (header, body, blocks that go back), or None"""
    best = None
    for h, (body, back) in run.loops.items():
        if b in body and (best is None or len(body) < len(best[1])):
            best = (h, body, back)
    return best


def single(s, what):
    if s is None or len(s) != 1:
        raise AnalysisBroken(what + ': %s' % str(s)[:100])
    return next(iter(s))


def covers(run, f, phi, at, good):
    """what is wrong with the loop that counts with phi (a result name) as a loop over all elements, `at` being the instruction that deals with one element and
    `good(term)` telling whether a term is the number of elements: a list of (kind, text)"""
    ph = [i for i in f.insts() if i.op == 'phi' and i.res == phi]
    if not ph or ph[0].block not in run.loops:
        raise AnalysisBroken('the index is not the counter of a loop')
    ph = ph[0]
    h = ph.block
    body, back = run.loops[h]
    if at.block not in body:
        raise AnalysisBroken('an element is dealt with outside of the loop')
    env = run.env
    start = frozenset().union(*[run.val(v, env) for v, l in ph.args if f.bmap[l] not in back])
    nxt = frozenset().union(*[run.val(v, env) for v, l in ph.args if f.bmap[l] in back])
    a, b = single(start, 'counter of a loop'), single(nxt, 'counter of a loop')
    P = ('phi', phi)
    out = []
    if a[0] != 'c' or b[0] != 'op' or b[1] not in ('add', 'sub') or len(b) != 4 or P not in b[2:] or not any(x[0] == 'c' for x in b[2:]):
        raise AnalysisBroken('counter of a loop: %s, %s' % (str(a)[:60], str(b)[:60]))
    inc = [x[1] for x in b[2:] if x[0] == 'c'][0]
    if b[1] == 'sub':
        if b[2] != P:
            raise AnalysisBroken('counter of a loop')
        inc = -inc
    if inc < 0:
        raise AnalysisBroken('a loop that counts down')
    if a[1] != 0:
        out.append(('first', 'starts at element %s' % (a[1],)))
    if inc != 1:
        out.append(('step', 'takes every %s-th element' % inc))
    exits = [x for bb in body for x in bb.insts if x.op in ('br', 'switch') and x.args and any(y not in body for y in bb.succs)]
    live = [x for x in exits if x in run.events and any((x.block, y) in run.edges for y in x.block.succs if y not in body)]
    if not live:
        raise AnalysisBroken('no way out of a loop')
    main = [x for x in live if P in flat(single(run.events[x][0], 'end of a loop'))]
    if len(main) != 1 or len(live) != 1:
        raise AnalysisBroken('%d ends of a loop' % len(live))
    x = main[0]
    t = single(run.events[x][0], 'end of a loop')
    if t[0] != 'op' or not t[1].startswith('icmp') or len(t) != 4:
        raise AnalysisBroken('end of a loop: %s' % str(t)[:100])
    n = t[3] if t[2] == P else t[2] if t[3] == P else None
    op = t[1].split()[1]
    stay = x.block.succs[0] in body
    if n is None or x.block is not h:
        raise AnalysisBroken('end of a loop: %s' % str(t)[:100])
    if t[3] == P:
        op = {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(op, op)
    if not stay:
        op = {'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'slt': 'sge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'eq': 'ne', 'ne': 'eq'}[op]
    if not good(n):
        if 'phi' in repr(n) or n[0] in ('undef', 'many'):
            raise AnalysisBroken('end of a loop: %s' % str(t)[:100])
        out.append(('last', 'does not end at the number of elements'))
    elif op in ('ule', 'sle'):
        out.append(('last', 'runs one element too far'))
    elif op not in ('ult', 'slt', 'ne'):
        raise AnalysisBroken('end of a loop: %s' % str(t)[:100])
    # in every round
    if h is not at.block:
        seen, todo = set(), [y for y in h.succs if y in body]
        while todo:
            y = todo.pop()
            if y in seen or y is at.block:
                continue
            seen.add(y)
            todo += [z for z in y.succs if z in body and z is not h and (y, z) in run.edges]
        if any(y in seen for y in back):
            out.append(('skipped', 'leaves elements out'))
    return out


def flat(t):
    return t[2:] if t[0] == 'op' else ()

