"""A parser for the textual LLVM IR that rustc emits (the subset safe, scalar
Rust compiles to).  Anything it does not know raises Unsupported."""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types ----
# ('i', n) | ('ptr',) | ('void',) | ('arr', n, t) | ('struct', packed, (t,..))
# | ('vec', n, t)
PTR = ('ptr',)
VOID = ('void',)

_int_cache = {}


def ity(n):
    t = _int_cache.get(n)
    if t is None:
        t = _int_cache[n] = ('i', n)
    return t


def size_align(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        b = (n + 7) // 8
        # round up to power of two storage
        s = 1
        while s < b:
            s *= 2
        return s, min(s, 16)
    if k == 'ptr':
        return 8, 8
    if k == 'arr':
        s, a = size_align(t[2])
        return s * t[1], a
    if k == 'vec':
        bits = t[1] * (t[2][1] if t[2][0] == 'i' else 64)
        return (bits + 7) // 8, 16
    if k == 'struct':
        off = 0
        al = 1
        for f in t[2]:
            s, a = size_align(f)
            if not t[1]:
                off = (off + a - 1) // a * a
                al = max(al, a)
            off += s
        if not t[1]:
            off = (off + al - 1) // al * al
        return off, al
    raise Unsupported('size of %r' % (t,))


def struct_offsets(t):
    off = 0
    res = []
    for f in t[2]:
        s, a = size_align(f)
        if not t[1]:
            off = (off + a - 1) // a * a
        res.append(off)
        off += s
    return res


TOK = re.compile(r'''
   c"(?:[^"]*)"              # string const
 | "(?:[^"]*)"
 | [%@](?:"[^"]*"|[-\w$.]+)   # names
 | -?0x[0-9A-Fa-f]+
 | -?\d+(?:\.\d+(?:e[+-]?\d+)?)?
 | \#\d+
 | !\w*
 | \.\.\.
 | [A-Za-z_][\w.]*
 | <\{ | \}>
 | [\[\]{}()<>,=*:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, module):
        self.t = toks
        self.i = 0
        self.m = module

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.eat(x):
            raise Unsupported('expected %r at %r' % (x, self.t[self.i:self.i + 6]))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = ity(int(x[1:]))
        elif x == 'ptr':
            t = PTR
        elif x == 'void':
            t = VOID
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('struct', False, tuple(fs))
        elif x == '<{':
            fs = []
            if not self.eat('}>'):
                while True:
                    fs.append(self.type())
                    if self.eat('}>'):
                        break
                    self.expect(',')
            t = ('struct', True, tuple(fs))
        elif x == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('vec', n, e)
        elif x[0] == '%' and x in self.m.types:
            t = self.m.types[x]
        elif x == 'metadata':
            t = ('metadata',)
        else:
            raise Unsupported('type %r' % x)
        return t

    ATTR_PAREN = {'range', 'dereferenceable', 'dereferenceable_or_null', 'captures', 'initializes',
                  'sret', 'byval', 'align', 'nofpclass', 'memory', 'elementtype', 'dead_on_return',
                  'inalloca', 'byref', 'preallocated', 'allocsize'}
    ATTRS = {'noundef', 'zeroext', 'signext', 'noalias', 'nofree', 'readonly', 'writeonly', 'readnone',
             'nonnull', 'writable', 'dead_on_unwind', 'returned', 'inreg', 'immarg', 'noreturn',
             'nocapture', 'allocptr', 'allocalign', 'dead_on_return'}

    def skip_attrs(self):
        """skip parameter/return attributes; returns the sret type if seen"""
        sret = None
        while True:
            x = self.peek()
            if x in self.ATTR_PAREN or x in self.ATTRS:
                self.next()
                if x == 'align' and self.peek() != '(':
                    self.next()
                    continue
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
            else:
                return sret

    def value(self, t):
        """parse a value of type t -> operand
        operands: ('r', name) register, ('g', name) global, ('c', int),
        ('null',), ('undef',), ('agg', [ops]), ('zero',), ('gep', ...)..."""
        x = self.next()
        c = x[0]
        if c == '%':
            return ('r', x)
        if c == '@':
            return ('g', x)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if c == '-' or c.isdigit():
            if t[0] != 'i':
                raise Unsupported('const %s of %r' % (x, t))
            return ('c', int(x, 0) & ((1 << t[1]) - 1))
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if c == 'c' and x[1:2] == '"':
            return ('bytes', parse_cstr(x[2:-1]))
        if x in ('[', '{', '<{', '<'):
            end = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[x]
            vals = []
            if not self.eat(end):
                while True:
                    et = self.type()
                    vals.append((et, self.value(et)))
                    if self.eat(end):
                        break
                    self.expect(',')
            return ('agg', vals)
        if x == 'splat':
            self.expect('(')
            et = self.type()
            v = self.value(et)
            self.expect(')')
            return ('agg', [(et, v)] * t[1])
        if x == 'getelementptr':
            while self.peek() != '(':
                y = self.next()
                if y == 'inrange':
                    self.expect('(')
                    while not self.eat(')'):
                        self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', bt, base, idx)
        if x in ('inttoptr', 'ptrtoint', 'trunc', 'zext', 'bitcast'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            tt = self.type()
            self.expect(')')
            return ('ccast', x, ft, v, tt)
        if x in ('add', 'sub'):
            while self.peek() != '(':
                self.next()
            self.expect('(')
            ft = self.type()
            a = self.value(ft)
            self.expect(',')
            self.type()
            b = self.value(ft)
            self.expect(')')
            return ('cbin', x, ft, a, b)
        raise Unsupported('value %r' % x)

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def parse_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'ret', 'params', 'lines', 'blocks', 'order', 'entry', 'rpo', 'noreturn', 'headers')


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (type, operand or None)
        self.gtext = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.attrs = {}
        self._split(text)

    def _split(self, text):
        cur = None
        for line in text.split('\n'):
            if cur is not None:
                if line == '}':
                    cur = None
                else:
                    cur.lines.append(line)
                continue
            if line.startswith('define '):
                f = Func()
                f.lines = []
                f.blocks = None
                name = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
                f.name = '@' + name.group(1)
                f.params = line
                f.ret = None
                self.funcs[f.name] = f
                cur = f
            elif line.startswith('@'):
                nm = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', line)
                n, rest = '@' + nm.group(1), nm.group(2)
                m = re.match(r'.*?\balias\b\s+.*?,\s*ptr\s+(@("[^"]*"|[-\w$.]+))', rest)
                if m and ' alias ' in ' ' + rest:
                    self.aliases[n] = m.group(1)
                else:
                    self.gtext[n] = rest
            elif line.startswith('declare '):
                nm = re.search(r'@("[^"]*"|[-\w$.]+)\(', line)
                self.decls['@' + nm.group(1)] = line
            elif line.startswith('%'):
                nm = re.match(r'(%("[^"]*"|[-\w$.]+)) = type (.*)$', line)
                if nm and nm.group(3) != 'opaque':
                    self.types[nm.group(1)] = P(tokenize(nm.group(3)), self).type()
            elif line.startswith('attributes '):
                nm = re.match(r'attributes (#\d+) = \{(.*)\}', line)
                self.attrs[nm.group(1)] = nm.group(2)

    def global_init(self, name):
        g = self.globals.get(name)
        if g is None:
            rest = self.gtext.get(name)
            if rest is None:
                return None
            m = re.match(r'(.*?)\b(constant|global)\s+(.*)$', rest)
            toks = tokenize(m.group(3))
            p = P(toks, self)
            t = p.type()
            ext = 'external' in m.group(1)
            v = None if ext or p.peek() is None or p.peek() == ',' else p.value(t)
            g = self.globals[name] = (t, v)
        return g

    def is_noreturn_decl(self, name):
        d = self.decls.get(name)
        if d is None:
            return False
        for a in re.findall(r'#\d+', d):
            if 'noreturn' in self.attrs.get(a, ''):
                return True
        return ' noreturn' in d

    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            f = self.funcs.get(self.aliases[name])
        if f is None:
            return None
        if f.blocks is None:
            parse_func(self, f)
        return f


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'inbounds', 'nusw', 'samesign', 'volatile', 'fast',
         'tail', 'musttail', 'notail'}


def parse_func(m, f):
    # header
    hdr = f.params
    toks = tokenize(hdr)
    # find the '(' directly after the function name
    k = toks.index(f.name)
    p = P(toks, m)
    p.i = 1
    # skip linkage etc. up to the type that precedes name: parse attrs then type
    LINK = {'internal', 'private', 'hidden', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'fastcc',
            'linkonce_odr', 'weak_odr', 'protected', 'noundef', 'external', 'available_externally', 'weak',
            'coldcc', 'default'}
    while p.i < k:
        x = p.peek()
        if x in LINK:
            p.next()
        elif x in P.ATTRS or x in P.ATTR_PAREN:
            p.skip_attrs()
        else:
            break
    f.ret = p.type()
    p.i = k + 1
    p.expect('(')
    params = []
    if not p.eat(')'):
        while True:
            t = p.type()
            p.skip_attrs()
            params.append((t, p.next()))
            if p.eat(')'):
                break
            p.expect(',')
    f.params = params
    blocks = {}
    order = []
    cur = None
    i = 0
    lines = f.lines
    while i < len(lines):
        line = lines[i]
        i += 1
        if not line or line.startswith(';'):
            continue
        if line[0] not in ' \t':
            lab = re.match(r'("[^"]*"|[-\w$.]+):', line)
            cur = '%' + lab.group(1)
            blocks[cur] = []
            order.append(cur)
            continue
        s = line.strip()
        if not s or s.startswith(';') or s.startswith('#dbg'):
            continue
        if cur is None:
            cur = '%__entry'
            blocks[cur] = []
            order.append(cur)
        if s.startswith('switch') and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ]'
            i += 1
        ins = parse_inst(m, s)
        if ins is not None:
            blocks[cur].append(ins)
    f.blocks = blocks
    f.order = order
    f.entry = order[0]
    f.rpo = compute_order(f)
    # targets of retreating edges: every cycle passes through one of them
    f.headers = {t for b, ins in blocks.items() if ins for t in succs(ins[-1]) if f.rpo[t] <= f.rpo[b]}
    f.lines = None


def succs(ins):
    op = ins[0]
    if op == 'br':
        return [ins[1]]
    if op == 'cbr':
        return [ins[2], ins[3]]
    if op == 'switch':
        return [ins[3]] + [l for _, l in ins[4]]
    return []


def compute_order(f):
    """A block priority in which all blocks of a loop precede the blocks after
    the loop, so that smallest-first scheduling finishes loops before exits."""
    succ = {b: succs(ins[-1]) if ins else [] for b, ins in f.blocks.items()}
    entry = f.entry

    def order_region(nodes, entry):
        # topological order of SCC condensation restricted to nodes; recursive
        sccs = tarjan(nodes, entry, succ)
        # tarjan returns reverse topological order
        out = []
        for comp in reversed(sccs):
            if len(comp) == 1 and comp[0] not in succ[comp[0]]:
                out.append(comp[0])
            else:
                cs = set(comp)
                # header(s): entry if in comp, else the node with a pred outside comp
                if entry in cs:
                    h = entry
                else:
                    h = None
                    for n in comp:
                        if any(n in succ[q] for q in nodes if q not in cs):
                            h = n
                            break
                    if h is None:
                        h = comp[0]
                out.append(h)
                rest = cs - {h}
                if rest:
                    # order the rest as a region reachable from h
                    out.extend(order_region(rest, None))
        return out

    o = order_region(set(f.blocks), entry)
    return {b: k for k, b in enumerate(o)}


def tarjan(nodes, entry, succ):
    idx = {}
    low = {}
    st = []
    on = set()
    res = []
    cnt = [0]
    roots = [entry] if entry is not None else []
    roots += [n for n in sorted(nodes) if n != entry]
    for r in roots:
        if r in idx:
            continue
        work = [(r, iter([s for s in succ[r] if s in nodes]))]
        idx[r] = low[r] = cnt[0]
        cnt[0] += 1
        st.append(r)
        on.add(r)
        while work:
            n, it = work[-1]
            adv = False
            for s in it:
                if s not in idx:
                    idx[s] = low[s] = cnt[0]
                    cnt[0] += 1
                    st.append(s)
                    on.add(s)
                    work.append((s, iter([q for q in succ[s] if q in nodes])))
                    adv = True
                    break
                elif s in on:
                    low[n] = min(low[n], idx[s])
            if adv:
                continue
            work.pop()
            if work:
                q = work[-1][0]
                low[q] = min(low[q], low[n])
            if low[n] == idx[n]:
                comp = []
                while True:
                    x = st.pop()
                    on.discard(x)
                    comp.append(x)
                    if x == n:
                        break
                res.append(comp)
    return res


def parse_inst(m, s):
    toks = tokenize(s)
    p = P(toks, m)
    dst = None
    if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
        dst = toks[0]
        p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BINOPS:
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('bin', dst, op, t, a, b)
    if op == 'icmp':
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return ('icmp', dst, pred, t, a, b)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        ft = p.type()
        v = p.value(ft)
        p.expect('to')
        tt = p.type()
        return ('cast', dst, op, ft, v, tt)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        return ('select', dst, t, c, a, b, ct)
    if op == 'phi':
        t = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc[b] = v
            if not p.eat(','):
                break
        return ('phi', dst, t, inc)
    if op == 'load':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        p.expect(',')
        p.type()
        v = p.value(PTR)
        return ('load', dst, t, v)
    if op == 'store':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.type()
        a = p.value(PTR)
        return ('store', t, v, a)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        p.expect(',')
        p.type()
        base = p.value(PTR)
        idx = []
        while p.eat(','):
            if p.peek() and p.peek().startswith('!'):
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return ('gep', dst, t, base, idx)
    if op == 'alloca':
        t = p.type()
        return ('alloca', dst, t)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return ('br', p.next())
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return ('cbr', c, a, b)
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return ('switch', t, v, d, cases)
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', None, None)
        return ('ret', t, p.value(t))
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'call':
        while p.peek() in ('fastcc', 'coldcc', 'ccc'):
            p.next()
        p.skip_attrs()
        rt = p.type()
        if p.peek() == '(':        # full function type (varargs) unsupported
            raise Unsupported('call type ' + s)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                t = p.type()
                p.skip_attrs()
                if t[0] == 'metadata':
                    while p.peek() not in (',', ')'):
                        p.next()
                    args.append((t, None))
                else:
                    args.append((t, p.value(t)))
                if p.eat(')'):
                    break
                p.expect(',')
        rest = p.t[p.i:]
        return ('call', dst, rt, callee, args, tuple(x for x in rest if x[0] == '#'))
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.eat(','):
            if p.peek() and p.peek().startswith('!'):
                break
            idx.append(int(p.next()))
        return ('extractvalue', dst, t, v, idx)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        et, e = p.tv()
        idx = []
        while p.eat(','):
            if p.peek() and p.peek().startswith('!'):
                break
            idx.append(int(p.next()))
        return ('insertvalue', dst, t, v, et, e, idx)
    if op == 'freeze':
        t, v = p.tv()
        return ('freeze', dst, t, v)
    if op == 'extractelement':
        t, v = p.tv()
        p.expect(',')
        _, i = p.tv()
        return ('extractelement', dst, t, v, i)
    if op == 'insertelement':
        t, v = p.tv()
        p.expect(',')
        _, e = p.tv()
        p.expect(',')
        _, i = p.tv()
        return ('insertelement', dst, t, v, e, i)
    if op == 'shufflevector':
        t, a = p.tv()
        p.expect(',')
        _, b = p.tv()
        p.expect(',')
        mt, mv = p.tv()
        return ('shufflevector', dst, t, a, b, mt, mv)
    raise Unsupported('instruction: ' + s[:120])
