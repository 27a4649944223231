"""A reader for the textual LLVM 18 IR produced by irbuild, with CFG, dominators, post-dominators and
struct-field names recovered from the debug info."""
import re
from collections import defaultdict

import irbuild


class AnalysisBroken(Exception):
    """The analysis could not be carried out (an error exit: neither pass nor violation)."""


# ---------------------------------------------------------------- values
class Val:
    __slots__ = ()


class Reg(Val):
    __slots__ = ('name',)

    def __init__(self, name): self.name = name

    def __repr__(self): return '%' + self.name

    def __eq__(self, o): return isinstance(o, Reg) and o.name == self.name

    def __hash__(self): return hash(('r', self.name))


class Const(Val):
    """v: int, float, None (null), 'undef', 'zero', or ('cstr', text)"""
    __slots__ = ('v',)

    def __init__(self, v): self.v = v

    def __repr__(self): return 'C(%r)' % (self.v,)

    def __eq__(self, o): return isinstance(o, Const) and o.v == self.v and type(o.v) == type(self.v)

    def __hash__(self): return hash(('c', self.v))


class Glob(Val):
    __slots__ = ('name',)

    def __init__(self, name): self.name = name

    def __repr__(self): return '@' + self.name

    def __eq__(self, o): return isinstance(o, Glob) and o.name == self.name

    def __hash__(self): return hash(('g', self.name))


class CExpr(Val):
    __slots__ = ('text',)

    def __init__(self, text): self.text = text

    def __repr__(self): return 'CE(%s)' % self.text

    def __eq__(self, o): return isinstance(o, CExpr) and o.text == self.text

    def __hash__(self): return hash(('ce', self.text))


class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'line', 'block', 'idx', 'func', 'argtys')

    def __init__(self, op, res=None, ty=None, args=(), x=None):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, list(args), x
        self.line = 0
        self.argtys = None

    def __repr__(self):
        return '%s%s %s %s %s @%d' % (('%%%s = ' % self.res) if self.res else '', self.op, self.ty, self.args, self.x, self.line)


class Block:
    def __init__(self, name):
        self.name, self.insts, self.preds, self.succs = name, [], [], []

    @property
    def term(self): return self.insts[-1]

    def __repr__(self): return '<%s>' % self.name


class Func:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.params, self.ptypes, self.ret = [], [], None
        self.blocks, self.bmap = [], {}
        self.internal = False
        self.defs = {}
        self.line = 0
        self.vararg = False
        self._uses = None
        self.varnames = {}

    @property
    def qname(self):
        return self.name + ('@' + self.mod.base if self.internal else '')

    @property
    def file(self): return self.mod.srcfile

    def loc(self, inst=None):
        return 'src/%s.c:%d' % (self.mod.base, (inst.line if inst is not None and inst.line else self.line))

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for i in self.insts():
                for a in operands(i):
                    if isinstance(a, Reg):
                        u[a.name].append(i)
            self._uses = u
        return self._uses

    def const_name(self, res):
        return self.varnames.get(res)


def operands(i):
    if i.op == 'phi':
        return [v for v, _ in i.args]
    return i.args


# ---------------------------------------------------------------- parsing
TYPE_RE = re.compile(r'\s*(void|ptr|i\d+|double|float|x86_fp80|fp128|half|metadata|label|%[\w.]+|%"[^"]+"|\[|\{|<\{|<)')


def split_top(s):
    out, depth, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                depth += 1
            elif ch in ')]}>':
                depth -= 1
            elif ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def read_type(s):
    """-> (type text, rest)"""
    s = s.lstrip()
    m = TYPE_RE.match(s)
    if not m:
        raise AnalysisBroken('cannot read an IR type in %r' % s[:80])
    t = m.group(1)
    if t in ('[', '{', '<{', '<'):
        depth, k = 0, 0
        for k, ch in enumerate(s):
            if ch in '[{<(':
                depth += 1
            elif ch in ']}>)':
                depth -= 1
                if depth == 0:
                    break
        return s[:k + 1], s[k + 1:].lstrip()
    rest = s[m.end():]
    return t, rest.lstrip()


ATTRS = {'dead_on_unwind', 'writable', 'noundef', 'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'returned',
         'immarg', 'inreg', 'nofree', 'nosync', 'readnone', 'noreturn', 'nounwind', 'allocptr', 'swiftself'}
ATTR_RE = re.compile(r'(byval|sret|align|dereferenceable|dereferenceable_or_null|elementtype|range|captures)\s*(\([^()]*(\([^()]*\)[^()]*)*\)|\d+)')
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'volatile', 'atomic', 'tail', 'musttail', 'notail'}


def hexfloat(t):
    import struct
    return struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]


def parse_val(t):
    t = t.strip()
    if t.startswith('%'):
        return Reg(t[1:].strip('"'))
    if t.startswith('@'):
        return Glob(t[1:].strip('"'))
    if t in ('null',):
        return Const(None)
    if t in ('undef', 'poison'):
        return Const('undef')
    if t == 'zeroinitializer':
        return Const('zero')
    if t == 'true':
        return Const(1)
    if t == 'false':
        return Const(0)
    if re.fullmatch(r'-?\d+', t):
        return Const(int(t))
    if re.fullmatch(r'0x[0-9A-Fa-f]+', t):
        return Const(hexfloat(t))
    if re.fullmatch(r'-?\d+\.\d*(e[+-]?\d+)?', t):
        return Const(float(t))
    return CExpr(t)


def typed_val(s):
    """'double noundef %x' -> (type, value)"""
    ty, rest = read_type(s)
    while True:
        m = ATTR_RE.match(rest)
        if m and m.end():
            rest = rest[m.end():].lstrip()
            continue
        w = rest.split(None, 1)
        if len(w) == 2 and w[0] in ATTRS:
            rest = w[1]
        else:
            break
    return ty, parse_val(rest)


DBG_RE = re.compile(r', !dbg !(\d+)')
META_TAIL = re.compile(r'(, ![\w.]+ !\d+)+\s*$')


class Module:
    def __init__(self, base, text, srcdir='src'):
        self.base = base
        self.srcfile = 'src/%s.c' % base
        self.structs = {}      # name -> [types]
        self.fields = {}       # struct name -> [field names]
        self.ftypes = {}       # struct name -> [C type text]
        self.enums = {}        # enumerator -> value
        self.enum_types = {}   # enum type name -> {enumerator: value}
        self.globals = {}      # name -> (type, init text, constant?)
        self.strings = {}
        self.funcs = {}
        self.decls = {}
        self._parse(text)

    # -- metadata
    def _meta(self, lines):
        md = {}
        for l in lines:
            m = re.match(r'!(\d+) = (?:distinct )?(.*)$', l)
            if m:
                md[int(m.group(1))] = m.group(2)
        self.md = md
        self.dl = {}
        for k, v in md.items():
            if v.startswith('!DILocation('):
                m = re.search(r'line: (\d+)', v)
                self.dl[k] = int(m.group(1)) if m else 0

    def _mdnode(self, k): return self.md.get(k, '')

    def _mdlist(self, k):
        v = self.md.get(k, '')
        return [int(x) for x in re.findall(r'!(\d+)', v)] if v.startswith('!{') else []

    @staticmethod
    def _attr(v, name):
        m = re.search(r'\b%s: (?:!(\d+)|"([^"]*)"|([-\w]+))' % name, v)
        if not m:
            return None
        return int(m.group(1)) if m.group(1) is not None else (m.group(2) if m.group(2) is not None else m.group(3))

    def ctype(self, k, depth=0):
        if k is None or k == 'null' or depth > 8:
            return 'void'
        v = self.md.get(k, '')
        if v.startswith('!DIBasicType'):
            return self._attr(v, 'name')
        if v.startswith('!DICompositeType'):
            tag = self._attr(v, 'tag')
            name = self._attr(v, 'name')
            if tag == 'DW_TAG_array_type':
                els = self._mdlist(self._attr(v, 'elements'))
                dims = ''
                for e in els:
                    c = self._attr(self.md[e], 'count')
                    dims += '[%s]' % c
                return self.ctype(self._attr(v, 'baseType'), depth + 1) + dims
            pre = {'DW_TAG_structure_type': 'struct ', 'DW_TAG_enumeration_type': 'enum ', 'DW_TAG_union_type': 'union '}.get(tag, '')
            return pre + (name or '')
        if v.startswith('!DIDerivedType'):
            tag = self._attr(v, 'tag')
            b = self._attr(v, 'baseType')
            if tag == 'DW_TAG_pointer_type':
                return self.ctype(b, depth + 1) + ' *'
            if tag == 'DW_TAG_typedef':
                return self._attr(v, 'name')
            if tag in ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type'):
                return self.ctype(b, depth + 1)
            return self.ctype(b, depth + 1)
        if v.startswith('!DISubroutineType'):
            return 'fn'
        return '?'

    def _structs_from_md(self):
        named = {}
        for k, v in self.md.items():
            if v.startswith('!DICompositeType') and 'DW_TAG_structure_type' in v and 'elements:' in v:
                names, types = [], []
                for e in self._mdlist(self._attr(v, 'elements')):
                    ev = self.md[e]
                    names.append(self._attr(ev, 'name'))
                    types.append(self.ctype(self._attr(ev, 'baseType')))
                n = self._attr(v, 'name')
                if n:
                    named.setdefault('struct.' + n, (names, types))
                else:
                    for k2, v2 in self.md.items():
                        if v2.startswith('!DIDerivedType') and 'DW_TAG_typedef' in v2 and self._attr(v2, 'baseType') == k:
                            named.setdefault('struct.' + self._attr(v2, 'name'), (names, types))
            elif v.startswith('!DICompositeType') and 'DW_TAG_enumeration_type' in v and 'elements:' in v:
                d = {}
                for e in self._mdlist(self._attr(v, 'elements')):
                    ev = self.md[e]
                    d[self._attr(ev, 'name')] = int(self._attr(ev, 'value'))
                self.enums.update(d)
                if self._attr(v, 'name'):
                    self.enum_types[self._attr(v, 'name')] = d
        for s, tys in self.structs.items():
            if s in named and len(named[s][0]) == len(tys):
                self.fields[s], self.ftypes[s] = named[s]
        self.named = named

    def _parse(self, text):
        lines = text.split('\n')
        self._meta(l for l in lines if l.startswith('!'))
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                n, t = l.split(' = type ', 1)
                n = n[1:].strip('"')
                t = t.strip()
                if t.startswith('{'):
                    self.structs[n] = split_top(t[1:-1].strip())
                else:
                    self.structs[n] = []
            elif l.startswith('@'):
                m = re.match(r'@([\w.$]+|"[^"]+") = (.*)$', l)
                if m:
                    name = m.group(1).strip('"')
                    body = m.group(2)
                    self.globals[name] = body
                    ms = re.search(r'c"((?:[^"\\]|\\[0-9A-F]{2}|\\\\)*)"', body)
                    if ms:
                        s = re.sub(r'\\([0-9A-F]{2})', lambda q: chr(int(q.group(1), 16)), ms.group(1))
                        self.strings[name] = s.rstrip('\0')
                    elif ' zeroinitializer' in body and re.search(r'\[1 x i8\]', body):
                        self.strings[name] = ''
        self._structs_from_md()
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self._parse_func(lines[i:j])
                i = j
            elif l.startswith('declare '):
                m = re.search(r'@([\w.$]+)\((.*)\)', l)
                if m:
                    self.decls[m.group(1)] = l
            i += 1

    def _parse_func(self, lines):
        head = lines[0]
        m = re.match(r'define (.*?)@([\w.$]+)\((.*)\)([^()]*)\{$', head)
        if not m:
            raise AnalysisBroken('cannot read function header %r' % head[:200])
        f = Func(m.group(2), self)
        f.internal = ' internal ' in ' ' + m.group(1)
        pre = [w for w in m.group(1).split() if w not in ('dso_local', 'internal', 'hidden', 'zeroext', 'signext', 'noundef', 'noalias', 'local_unnamed_addr')]
        f.ret = ' '.join(pre)
        for p in split_top(m.group(3)):
            if p == '...':
                f.vararg = True
                continue
            ty, v = typed_val(p)
            f.ptypes.append(ty)
            if not isinstance(v, Reg):
                raise AnalysisBroken('cannot read parameter %r' % p)
            f.params.append(v.name)
        md = re.search(r'!dbg !(\d+)', head)
        if md:
            f.line = int(self._attr(self.md[int(md.group(1))], 'line') or 0)
        cur = None
        k = 1
        while k < len(lines):
            l = lines[k]
            k += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if not l.startswith(' '):
                nm = l.split(':', 1)[0].strip('"')
                cur = Block(nm)
                f.blocks.append(cur)
                f.bmap[nm] = cur
                continue
            if cur is None:
                cur = Block('0')
                f.blocks.append(cur)
                f.bmap['0'] = cur
            s = l.strip()
            if s.startswith('switch '):
                while not s.rstrip().endswith(']') and ']' not in lines[k]:
                    s += ' ' + lines[k].strip()
                    k += 1
                if ']' not in s:
                    s += ' ' + lines[k].strip()
                    k += 1
            if 'llvm.dbg.' in s:
                self._dbg_value(f, s)
                continue
            inst = self._parse_inst(s)
            if inst is None:
                continue
            inst.func, inst.block, inst.idx = f, cur, len(cur.insts)
            cur.insts.append(inst)
            if inst.res is not None:
                f.defs[inst.res] = inst
        self._one_way(f)
        for b in f.blocks:
            t = b.term
            if t.op == 'br':
                b.succs = [f.bmap[x] for x in t.x]
            elif t.op == 'switch':
                b.succs = list(dict.fromkeys([f.bmap[t.x[0]]] + [f.bmap[x] for _, x in t.x[1]]))
            for s in b.succs:
                if b not in s.preds:
                    s.preds.append(b)
        self.funcs[f.name] = f

    def _one_way(self, f):
        """a phi with one incoming value is that value"""
        same = {i.res: i.args[0][0] for i in f.insts() if i.op == 'phi' and len(i.args) == 1}
        if not same:
            return

        def of(x):
            while isinstance(x, Reg) and x.name in same:
                x = same[x.name]
            return x
        for b in f.blocks:
            b.insts = [i for i in b.insts if i.res not in same]
            for n, i in enumerate(b.insts):
                i.idx = n
                if i.op == 'phi':
                    i.args = [(of(v), l) for v, l in i.args]
                else:
                    i.args = [of(v) for v in i.args]
                if isinstance(i.x, Reg):
                    i.x = of(i.x)
        for r in same:
            f.defs.pop(r, None)

    def _dbg_value(self, f, s):
        m = re.search(r'@llvm\.dbg\.(?:value|declare)\(metadata (.*?), metadata !(\d+),', s)
        if not m:
            return
        var = self.md.get(int(m.group(2)), '')
        name = self._attr(var, 'name')
        try:
            ty, v = typed_val(m.group(1))
        except AnalysisBroken:
            return
        if isinstance(v, Reg) and name:
            f.varnames.setdefault(v.name, name)

    def _parse_inst(self, s):
        md = DBG_RE.search(s)
        line = self.dl.get(int(md.group(1)), 0) if md else 0
        s = META_TAIL.sub('', s)
        res = None
        m = re.match(r'%([\w.$-]+|"[^"]+") = (.*)$', s)
        if m:
            res, s = m.group(1).strip('"'), m.group(2)
        w = s.split(None, 1)
        op, rest = w[0], (w[1] if len(w) > 1 else '')
        while op in ('tail', 'musttail', 'notail'):
            w = rest.split(None, 1)
            op, rest = w[0], w[1]
        inst = self._decode(op, res, rest)
        if inst is not None:
            inst.line = line
        return inst

    def _strip_flags(self, rest):
        while True:
            w = rest.split(None, 1)
            if len(w) == 2 and w[0] in FLAGS:
                rest = w[1]
            else:
                return rest

    def _decode(self, op, res, rest):
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or',
                  'xor', 'shl', 'lshr', 'ashr'):
            rest = self._strip_flags(rest)
            ty, r = read_type(rest)
            a, b = split_top(r)[:2]
            return Inst(op, res, ty, [parse_val(a), parse_val(b)])
        if op == 'fneg':
            ty, r = read_type(self._strip_flags(rest))
            return Inst(op, res, ty, [parse_val(r)])
        if op in ('icmp', 'fcmp'):
            rest = self._strip_flags(rest)
            pred, r = rest.split(None, 1)
            r = self._strip_flags(r)
            ty, r = read_type(r)
            a, b = split_top(r)[:2]
            return Inst(op, res, ty, [parse_val(a), parse_val(b)], pred)
        if op in ('sext', 'zext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
                  'bitcast', 'addrspacecast'):
            a, to = self._strip_flags(rest).rsplit(' to ', 1)
            ty, v = typed_val(a)
            i = Inst(op, res, to.strip(), [v])
            i.argtys = [ty]
            return i
        if op == 'load':
            rest = self._strip_flags(rest)
            parts = split_top(rest)
            _, v = typed_val(parts[1])
            return Inst(op, res, parts[0], [v])
        if op == 'store':
            rest = self._strip_flags(rest)
            parts = split_top(rest)
            t1, v1 = typed_val(parts[0])
            _, v2 = typed_val(parts[1])
            return Inst(op, None, t1, [v1, v2])
        if op == 'getelementptr':
            rest = self._strip_flags(rest)
            parts = split_top(rest)
            vals = [typed_val(p) for p in parts[1:]]
            return Inst(op, res, parts[0], [v for _, v in vals])
        if op == 'alloca':
            parts = split_top(rest)
            n = None
            for p in parts[1:]:
                if not p.startswith('align'):
                    _, n = typed_val(p)
            return Inst(op, res, parts[0], [n] if n is not None else [])
        if op == 'call':
            # ... ret [fnty] callee(args) attrs
            rest = self._strip_flags(rest)
            m = re.search(r'((?:@|%)[\w.$-]+|@"[^"]+")\(', rest)
            asm = ' asm ' in ' ' + rest
            if asm or not m:
                return Inst('call', res, '?', [], 'asm')
            pre = rest[:m.start()].strip()
            callee = parse_val(m.group(1))
            depth, k = 0, m.end() - 1
            for k in range(m.end() - 1, len(rest)):
                if rest[k] == '(':
                    depth += 1
                elif rest[k] == ')':
                    depth -= 1
                    if depth == 0:
                        break
            args = split_top(rest[m.end():k])
            words = pre
            for a in ATTRS:
                words = re.sub(r'\b%s\b' % a, '', words)
            words = ATTR_RE.sub('', words)
            rt = read_type(words)[0] if words.strip() else 'void'
            vals = []
            for a in args:
                if a.startswith('metadata'):
                    vals.append(('metadata', Const('undef')))
                else:
                    vals.append(typed_val(a))
            i = Inst('call', res, rt, [v for _, v in vals], callee)
            i.argtys = [t for t, _ in vals]
            return i
        if op == 'br':
            if rest.startswith('label'):
                return Inst('br', None, None, [], [re.search(r'%([\w.$-]+|"[^"]+")', rest).group(1).strip('"')])
            parts = split_top(rest)
            _, c = typed_val(parts[0])
            return Inst('br', None, None, [c], [p.split('%', 1)[1].strip('"') for p in parts[1:3]])
        if op == 'switch':
            m = re.match(r'(\S+) (\S+), label %([\w.$-]+) \[(.*)\]', rest)
            cases = re.findall(r'i\d+ (-?\d+), label %([\w.$-]+)', m.group(4))
            return Inst('switch', None, m.group(1), [parse_val(m.group(2))], (m.group(3), [(int(a), b) for a, b in cases]))
        if op == 'ret':
            if rest.startswith('void'):
                return Inst('ret', None, 'void', [])
            ty, v = typed_val(rest)
            return Inst('ret', None, ty, [v])
        if op == 'unreachable':
            return Inst('unreachable')
        if op == 'phi':
            rest = self._strip_flags(rest)
            ty, r = read_type(rest)
            inc = []
            for p in split_top(r):
                p = p.strip()[1:-1]
                v, b = split_top(p)
                inc.append((parse_val(v), b.strip()[1:].strip('"')))
            return Inst('phi', res, ty, inc)
        if op == 'select':
            rest = self._strip_flags(rest)
            return Inst('select', res, None, [typed_val(p)[1] for p in split_top(rest)[:3]])
        if op in ('extractvalue', 'insertvalue'):
            parts = split_top(rest)
            k = 1 if op == 'extractvalue' else 2
            vals = [typed_val(p) for p in parts[:k]]
            return Inst(op, res, vals[0][0], [v for _, v in vals], [int(p) for p in parts[k:]])
        if op == 'freeze':
            ty, v = typed_val(rest)
            return Inst('freeze', res, ty, [v])
        if op in ('atomicrmw', 'cmpxchg', 'fence'):
            return Inst(op, res, None, [parse_val(x) for x in re.findall(r'%[\w.]+', rest)], rest)
        if op in ('extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            return Inst(op, res, None, [parse_val(x) for x in re.findall(r'%[\w.]+', rest)], rest)
        raise AnalysisBroken('unsupported IR instruction %r %r' % (op, rest[:100]))


# ---------------------------------------------------------------- CFG utilities
def rpo(f):
    seen, order = set(), []
    stack = [(f.blocks[0], iter(f.blocks[0].succs))]
    seen.add(f.blocks[0])
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(s.succs)))
                break
        else:
            order.append(b)
            stack.pop()
    return order[::-1]


def _dom(nodes, entry, preds):
    order = {n: i for i, n in enumerate(nodes)}
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in nodes:
            if b is entry:
                continue
            ps = [p for p in preds(b) if p in idom]
            if not ps:
                continue
            new = ps[0]
            for p in ps[1:]:
                a, c = new, p
                while a is not c:
                    while order[a] > order[c]:
                        a = idom[a]
                    while order[c] > order[a]:
                        c = idom[c]
                new = a
            if idom.get(b) is not new:
                idom[b] = new
                changed = True
    return idom


def dominators(f):
    nodes = rpo(f)
    return _dom(nodes, f.blocks[0], lambda b: b.preds)


class _Exit:
    name = '<exit>'
    insts = []


def postdominators(f):
    """idom map on the reversed CFG; the virtual exit is EXIT. Blocks that never reach an exit are absent."""
    ex = _Exit()
    exits = [b for b in f.blocks if not b.succs]
    # reverse postorder of reversed graph
    seen, order = {ex}, []
    succs = lambda b: exits if b is ex else b.preds
    stack = [(ex, iter(succs(ex)))]
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(s))))
                break
        else:
            order.append(b)
            stack.pop()
    nodes = order[::-1]
    exs = set(exits)
    return _dom(nodes, ex, lambda b: (list(b.succs) + ([ex] if b in exs else []))), ex


def control_deps(f):
    """block -> set of branch blocks it is control dependent on"""
    ip, ex = postdominators(f)
    cd = defaultdict(set)
    for b in f.blocks:
        if len(b.succs) < 2:
            continue
        for s in b.succs:
            r = s
            stop = ip.get(b)
            while r is not stop and r is not None and r in ip:
                cd[r].add(b)
                nr = ip.get(r)
                if nr is r:
                    break
                r = nr
    return cd


def dominates(idom, a, b):
    while True:
        if a is b:
            return True
        p = idom.get(b)
        if p is None or p is b:
            return False
        b = p


def natural_loops(f):
    """-> list of (header, set(blocks))"""
    idom = dominators(f)
    loops = {}
    for b in f.blocks:
        if b not in idom:
            continue
        for s in b.succs:
            if s in idom and dominates(idom, s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(x.preds)
    return list(loops.items())


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, mode='serial', repo=None, extra_sources=(), only=None):
        texts = irbuild.compile_all(mode, repo, extra_sources, only)
        self.mods = {b: Module(b, t) for b, t in sorted(texts.items())}
        self.funcs = {}
        for m in self.mods.values():
            for f in m.funcs.values():
                self.funcs[f.qname] = f
        if len(self.funcs) < 10:
            raise AnalysisBroken('only %d functions in the IR' % len(self.funcs))
        self.enums = {}
        self.fields, self.ftypes = {}, {}
        for m in self.mods.values():
            self.enums.update(m.enums)
            self.fields.update(m.fields)
            self.ftypes.update(m.ftypes)
            for k, (n, t) in m.named.items():
                self.fields.setdefault(k, n)
                self.ftypes.setdefault(k, t)

    def resolve(self, f, name):
        """callee called `name` from function f -> Func or None (external)"""
        if name in f.mod.funcs:
            return f.mod.funcs[name]
        return self.funcs.get(name)

    def callees(self, f):
        """[(inst, Func or external name)] for direct calls"""
        for i in f.insts():
            if i.op == 'call':
                if isinstance(i.x, Glob):
                    g = self.resolve(f, i.x.name)
                    yield i, (g if g is not None else i.x.name)
                else:
                    yield i, None

    def func_refs(self, f):
        """functions whose address is taken in f (stored or passed)"""
        for i in f.insts():
            for a in operands(i):
                if isinstance(a, Glob):
                    g = self.resolve(f, a.name)
                    if g is not None:
                        yield i, g

    def strtab(self, f, v):
        if isinstance(v, Glob):
            return f.mod.strings.get(v.name)
        return None
