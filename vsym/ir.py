"""Parser for textual LLVM IR (LLVM 18, opaque pointers), enough for clang-compiled C++17."""
import re
import struct

TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>![\w.]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 |(?P<word>[A-Za-z_$.][\w.$-]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n\r':
            i += 1
            continue
        if c == ';':
            j = s.find('\n', i)
            if j < 0:
                break
            i = j
            continue
        m = TOK.match(s, i)
        if not m:
            raise IRError("cannot tokenize: " + s[i:i + 40])
        k = m.lastgroup
        if k == 'dots':
            out.append(('word', '...'))
        else:
            out.append((k, m.group()))
        i = m.end()
    return out


# ---- types -------------------------------------------------------------------------------
class Ty:
    __slots__ = ("k", "a", "b", "_size", "_align", "_offs")

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._size = self._align = self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return f"i{self.a}"
        if self.k in ('arr', 'vec'):
            return f"{'[' if self.k=='arr' else '<'}{self.a} x {self.b}{']' if self.k=='arr' else '>'}"
        if self.k == 'struct':
            return "{" + ", ".join(map(repr, self.a)) + "}"
        return self.k

    def __eq__(self, o):
        return isinstance(o, Ty) and self.k == o.k and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.k, str(self.a)))


VOID, PTR, F32, F64, LABEL, META = Ty('void'), Ty('ptr'), Ty('f32'), Ty('f64'), Ty('label'), Ty('meta')
FP80 = Ty('fp80')
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('int', n)
    return t


class NamedTypes(dict):
    pass


def align_of(t):
    if t._align is None:
        k = t.k
        if k == 'int':
            n = (t.a + 7) // 8
            a = 1
            while a < n:
                a *= 2
            t._align = min(a, 16)
        elif k == 'f32':
            t._align = 4
        elif k in ('f64', 'ptr'):
            t._align = 8
        elif k == 'fp80':
            t._align = 16
        elif k == 'arr':
            t._align = align_of(t.b)
        elif k == 'vec':
            n = size_of(t.b) * t.a
            a = 1
            while a < n:
                a *= 2
            t._align = a
        elif k == 'struct':
            t._align = 1 if t.b else max([align_of(x) for x in t.a], default=1)
        else:
            raise IRError("align of " + repr(t))
    return t._align


def size_of(t):
    if t._size is None:
        k = t.k
        if k == 'int':
            n = (t.a + 7) // 8
            a = align_of(t)
            t._size = (n + a - 1) // a * a
        elif k == 'f32':
            t._size = 4
        elif k in ('f64', 'ptr'):
            t._size = 8
        elif k == 'fp80':
            t._size = 16
        elif k == 'arr':
            t._size = t.a * size_of(t.b)
        elif k == 'vec':
            n = size_of(t.b) * t.a
            a = 1
            while a < n:
                a *= 2
            t._size = a
        elif k == 'struct':
            offs = offsets(t)
            if not t.a:
                t._size = 0
            else:
                e = offs[-1] + size_of(t.a[-1])
                a = align_of(t)
                t._size = (e + a - 1) // a * a
        else:
            raise IRError("size of " + repr(t))
    return t._size


def offsets(t):
    if t._offs is None:
        o = 0
        r = []
        for x in t.a:
            a = 1 if t.b else align_of(x)
            o = (o + a - 1) // a * a
            r.append(o)
            o += size_of(x)
        t._offs = r
    return t._offs


# ---- operands ----------------------------------------------------------------------------
# ('reg', name) ('glob', name) ('int', value, ty) ('fp', bits64, ty) ('zero', ty) ('undef', ty)
# ('agg', [(ty, operand)], ty) ('bytes', b) ('gep', ...) ('cast', op, operand, from, to) ('null',)

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'signext', 'zeroext',
               'inreg', 'returned', 'immarg', 'noreturn', 'nofree', 'swiftself', 'nest', 'allocptr', 'allocalign',
               'dead_on_unwind', 'writable', 'noext'}
PARAM_ATTRS_PAREN = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca', 'preallocated',
                     'elementtype', 'nofpclass', 'range', 'initializes', 'captures', 'memory'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc', 'cc'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x[1]

    def acc(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        if self.peek() != s:
            raise IRError(f"expected {s}, got {self.peek()} in {' '.join(x[1] for x in self.t)[:300]}")
        self.i += 1

    def ty(self):
        t = self.ty0()
        # function types "T (args)" as in call with signature
        while self.peek() == '(' and self.allow_fn:
            d = 0
            while True:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        return t

    allow_fn = False

    def ty0(self):
        k = self.kind()
        x = self.next()
        if k == 'word':
            if x == 'void':
                return VOID
            if x == 'ptr':
                if self.peek() == 'addrspace':
                    self.next(); self.exp('('); self.next(); self.exp(')')
                return PTR
            if x == 'float':
                return F32
            if x == 'double':
                return F64
            if x == 'x86_fp80':
                return FP80
            if x == 'label':
                return LABEL
            if x == 'metadata':
                return META
            if x == 'opaque':
                return Ty('struct', [], False)
            if re.fullmatch(r'i\d+', x):
                return INT(int(x[1:]))
            raise IRError("type? " + x)
        if k == 'loc':
            return self.m.named(x)
        if x == '[':
            n = int(self.next()); self.exp('x'); e = self.ty0(); self.exp(']')
            return Ty('arr', n, e)
        if x == '<':
            if self.peek() == '{':
                self.next()
                l = self.tylist('}')
                self.exp('>')
                return Ty('struct', l, True)
            n = int(self.next()); self.exp('x'); e = self.ty0(); self.exp('>')
            return Ty('vec', n, e)
        if x == '{':
            return Ty('struct', self.tylist('}'), False)
        raise IRError("type? " + x)

    def tylist(self, end):
        l = []
        if self.acc(end):
            return l
        while True:
            l.append(self.ty0())
            if self.acc(end):
                return l
            self.exp(',')

    def attrs(self):
        r = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.next()
            elif x in PARAM_ATTRS_PAREN:
                self.next()
                if self.peek() == '(':
                    self.next()
                    if x in ('sret', 'byval', 'byref', 'elementtype', 'inalloca'):
                        r[x] = self.ty0()
                        self.exp(')')
                    else:
                        d = 1
                        while d:
                            y = self.next()
                            if y == '(':
                                d += 1
                            elif y == ')':
                                d -= 1
            elif x == 'align':
                self.next()
                if self.acc('('):
                    self.next(); self.exp(')')
                else:
                    self.next()
            elif self.kind() == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return r

    def val(self, t):
        """operand of known type t"""
        k = self.kind()
        x = self.next()
        if k == 'loc':
            return ('reg', x)
        if k == 'glob':
            return ('glob', x)
        if k == 'num':
            if t.k == 'int':
                return ('int', int(x) & ((1 << t.a) - 1), t)
            if t.k in ('f32', 'f64'):
                if x.startswith('0x'):
                    bits = int(x[2:], 16)
                    return ('fp', struct.unpack('<d', struct.pack('<Q', bits))[0], t)
                return ('fp', float(x), t)
            if t.k == 'fp80':
                return ('undef', t)
            raise IRError(f"number {x} for type {t}")
        if k == 'str':
            if x.startswith('c"'):
                return ('bytes', unescape(x[2:-1]), t)
        if k == 'meta':
            # metadata operand: skip
            while self.peek() not in (',', ')', None):
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    self.next()
            return ('undef', t)
        if k == 'word':
            if x == 'true':
                return ('int', 1, t)
            if x == 'false':
                return ('int', 0, t)
            if x == 'null':
                return ('int', 0, t)
            if x in ('undef', 'poison'):
                return ('undef', t)
            if x == 'zeroinitializer':
                return ('zero', t)
            if x == 'none':
                return ('zero', t)
            if x == 'getelementptr':
                while self.peek() in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                if self.peek() == 'inrange':
                    self.next()
                    self.exp('(')
                    while self.next() != ')':
                        pass
                self.exp('(')
                bt = self.ty0(); self.exp(',')
                l = []
                while True:
                    while self.peek() == 'inrange':
                        self.next()
                    tt = self.ty0()
                    l.append((tt, self.val(tt)))
                    if self.acc(')'):
                        break
                    self.exp(',')
                return ('gep', bt, l)
            if x in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'addrspacecast'):
                self.exp('(')
                ft = self.ty0(); v = self.val(ft); self.exp('to'); tt = self.ty0(); self.exp(')')
                return ('cast', x, v, ft, tt)
            if x in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek() in ('nsw', 'nuw'):
                    self.next()
                self.exp('(')
                at = self.ty0(); a = self.val(at); self.exp(','); bt = self.ty0(); b = self.val(bt); self.exp(')')
                return ('cbin', x, a, b, at)
            if x in ('dso_local_equivalent', 'no_cfi'):
                return self.val(t)
            if x == 'splat':
                self.exp('('); et = self.ty0(); v = self.val(et); self.exp(')')
                return ('agg', [(et, v)] * t.a, t)
        if x == '{' or x == '[' or x == '<':
            packed = False
            if x == '<' and self.peek() == '{':
                self.next(); packed = True
                x = '{'
            end = {'{': '}', '[': ']', '<': '>'}[x]
            l = []
            if not self.acc(end):
                while True:
                    tt = self.ty0()
                    l.append((tt, self.val(tt)))
                    if self.acc(end):
                        break
                    self.exp(',')
            if packed:
                self.exp('>')
            return ('agg', l, t)
        raise IRError(f"operand? {x} in {' '.join(y[1] for y in self.t)[:200]}")

    def tval(self):
        t = self.ty0()
        self.attrs()
        if t.k == 'meta':
            # metadata argument
            d = 0
            while True:
                y = self.peek()
                if y is None or (d == 0 and y in (',', ')')):
                    break
                if y == '(':
                    d += 1
                elif y == ')':
                    d -= 1
                self.next()
            return (t, ('undef', t))
        return (t, self.val(t))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Func:
    __slots__ = ("name", "ret", "params", "blocks", "entry", "vararg")


class Module:
    def __init__(self):
        self.types = {}
        self.typedefs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = []

    def named(self, n):
        t = self.types.get(n)
        if t is None:
            t = Ty('struct', None, False)
            self.types[n] = t
        return t


def logical_lines(text):
    """join multi-line constructs (switch tables)"""
    buf = None
    for line in text.split('\n'):
        if buf is not None:
            buf += ' ' + line.strip()
            if line.strip().startswith(']'):
                yield buf
                buf = None
            continue
        s = line.rstrip()
        if re.match(r'\s+switch .*\[$', s):
            buf = s
            continue
        yield s


INTBIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FPBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint',
         'inttoptr', 'addrspacecast'}


def unq(n):
    return n


def parse_instr(toks, mod):
    p = P(toks, mod)
    dst = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dst = p.next()
        p.exp('=')
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in INTBIN:
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            p.next()
        t = p.ty0(); a = p.val(t); p.exp(','); b = p.val(t)
        return ('ibin', dst, op, t, a, b)
    if op in FPBIN:
        while p.peek() in FMF:
            p.next()
        t = p.ty0(); a = p.val(t); p.exp(','); b = p.val(t)
        return ('fbin', dst, op, t, a, b)
    if op == 'fneg':
        while p.peek() in FMF:
            p.next()
        t = p.ty0(); a = p.val(t)
        return ('fneg', dst, t, a)
    if op == 'icmp':
        pr = p.next(); t = p.ty0(); a = p.val(t); p.exp(','); b = p.val(t)
        return ('icmp', dst, pr, t, a, b)
    if op == 'fcmp':
        while p.peek() in FMF:
            p.next()
        pr = p.next(); t = p.ty0(); a = p.val(t); p.exp(','); b = p.val(t)
        return ('fcmp', dst, pr, t, a, b)
    if op in CASTS:
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        ft = p.ty0(); a = p.val(ft); p.exp('to'); tt = p.ty0()
        return ('cast', dst, op, ft, tt, a)
    if op == 'select':
        while p.peek() in FMF:
            p.next()
        ct, c = p.tval(); p.exp(','); t, a = p.tval(); p.exp(','); _, b = p.tval()
        return ('select', dst, ct, t, c, a, b)
    if op == 'phi':
        while p.peek() in FMF:
            p.next()
        t = p.ty0()
        inc = []
        while True:
            p.exp('['); v = p.val(t); p.exp(','); l = p.next(); p.exp(']')
            inc.append((v, l))
            if not p.acc(','):
                break
            if p.kind() == 'meta':
                break
        return ('phi', dst, t, inc)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.ty0()
        n = ('int', 1, INT(64))
        while p.acc(','):
            if p.peek() == 'align' or p.kind() == 'meta':
                break
            nt, n = p.tval()
        return ('alloca', dst, t, n)
    if op == 'load':
        p.acc('volatile'); p.acc('atomic')
        t = p.ty0(); p.exp(','); _, a = p.tval()
        return ('load', dst, t, a)
    if op == 'store':
        p.acc('volatile'); p.acc('atomic')
        t, v = p.tval(); p.exp(','); _, a = p.tval()
        return ('store', None, t, v, a)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.ty0()
        l = []
        while p.acc(','):
            if p.kind() == 'meta':
                break
            l.append(p.tval())
        return ('gep', dst, bt, l)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return ('br', None, p.next())
        t, c = p.tval(); p.exp(','); p.exp('label'); a = p.next(); p.exp(','); p.exp('label'); b = p.next()
        return ('cbr', None, c, a, b)
    if op == 'switch':
        t, v = p.tval(); p.exp(','); p.exp('label'); d = p.next()
        p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.ty0(); cv = p.val(ct); p.exp(','); p.exp('label'); cs.append((cv[1], p.next()))
        return ('switch', None, t, v, d, cs)
    if op == 'ret':
        if p.peek() == 'void':
            return ('ret', None, None, None)
        t, v = p.tval()
        return ('ret', None, t, v)
    if op == 'unreachable':
        return ('unreachable', None)
    if op in ('call', 'invoke'):
        while p.peek() in FMF:
            p.next()
        while p.peek() in CCONV:
            p.next()
        p.attrs()
        p.allow_fn = True
        # return attrs may precede the type
        p.attrs()
        t = p.ty()
        p.allow_fn = False
        ck = p.kind()
        callee = p.val(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                at = p.ty0()
                pa = p.attrs()
                if at.k == 'meta':
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (',', ')'):
                            break
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                        p.next()
                    args.append((at, ('undef', at), pa))
                else:
                    args.append((at, p.val(at), pa))
                if p.acc(')'):
                    break
                p.exp(',')
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.exp('to'); p.exp('label'); l = p.next()
            return ('invoke', dst, t, callee, args, l)
        return ('call', dst, t, callee, args)
    if op == 'extractvalue':
        t, a = p.tval()
        ix = []
        while p.acc(','):
            if p.kind() == 'meta':
                break
            ix.append(int(p.next()))
        return ('extractvalue', dst, t, a, ix)
    if op == 'insertvalue':
        t, a = p.tval(); p.exp(','); et, e = p.tval()
        ix = []
        while p.acc(','):
            if p.kind() == 'meta':
                break
            ix.append(int(p.next()))
        return ('insertvalue', dst, t, a, et, e, ix)
    if op == 'extractelement':
        t, a = p.tval(); p.exp(','); it, i = p.tval()
        return ('extractelement', dst, t, a, i)
    if op == 'insertelement':
        t, a = p.tval(); p.exp(','); et, e = p.tval(); p.exp(','); it, i = p.tval()
        return ('insertelement', dst, t, a, e, i)
    if op == 'shufflevector':
        t, a = p.tval(); p.exp(','); _, b = p.tval(); p.exp(','); mt, m = p.tval()
        return ('shufflevector', dst, t, a, b, mt, m)
    if op == 'freeze':
        t, a = p.tval()
        return ('freeze', dst, t, a)
    if op == 'fence':
        return ('nop', None)
    if op in ('cmpxchg', 'atomicrmw', 'landingpad', 'resume', 'va_arg', 'cleanupret', 'catchpad', 'indirectbr'):
        return ('unsupported', dst, op)
    raise IRError("instr? " + op)


def parse(text):
    mod = Module()
    cur = None
    blk = None
    lines = logical_lines(text)
    glines = []
    for line in lines:
        if not line or line.lstrip().startswith(';'):
            continue
        if cur is None:
            if line.startswith('define'):
                cur = parse_define(line, mod)
                mod.funcs[cur.name] = cur
                # first block label may be implicit
                nparams = sum(1 for x in cur.params if re.fullmatch(r'%\d+', x[1] or ''))
                blk = None
                cur.entry = None
                implicit = '%' + str(nparams)
                continue
            if line.startswith('declare'):
                p = P(tokenize(line), mod)
                m = re.search(r'@("[^"]*"|[-\w.$]+)\s*\(', line)
                mod.decls['@' + m.group(1)] = line
                continue
            if line.startswith('%'):
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$', line)
                t = mod.named(m.group(1))
                r = P(tokenize(m.group(2)), mod).ty0()
                t.a, t.b = r.a, r.b
                continue
            if line.startswith('@'):
                parse_global(line, mod)
                continue
            continue
        if line.startswith('}'):
            cur = None
            continue
        if not line.startswith(' '):
            m = re.match(r'("[^"]*"|[-\w.$]+):', line)
            name = '%' + m.group(1)
            blk = []
            cur.blocks[name] = blk
            if cur.entry is None:
                cur.entry = name
            continue
        if blk is None:
            blk = []
            cur.blocks[implicit] = blk
            cur.entry = implicit
        blk.append(line)
    return mod


def parse_blocks(f, mod):
    """lazy instruction parsing"""
    for n, b in f.blocks.items():
        if b and isinstance(b[0], str):
            f.blocks[n] = [parse_instr(tokenize(l), mod) for l in b]


LINKAGE = {'dso_local', 'linkonce_odr', 'internal', 'private', 'weak_odr', 'weak', 'available_externally', 'external',
           'hidden', 'protected', 'default', 'linkonce', 'common', 'appending', 'local_unnamed_addr', 'unnamed_addr',
           'dso_preemptable', 'noundef', 'extern_weak', 'thread_local'}


def parse_define(line, mod):
    p = P(tokenize(line), mod)
    p.exp('define')
    while p.peek() in LINKAGE or p.peek() in CCONV:
        p.next()
    p.attrs()
    f = Func()
    f.ret = p.ty0()
    f.name = p.next()
    f.vararg = False
    p.exp('(')
    f.params = []
    if not p.acc(')'):
        while True:
            if p.acc('...'):
                f.vararg = True
            else:
                t = p.ty0()
                a = p.attrs()
                n = p.next() if p.kind() == 'loc' else '%' + str(len(f.params))
                f.params.append((t, n, a))
            if p.acc(')'):
                break
            p.exp(',')
    f.blocks = {}
    f.entry = None
    return f


def parse_global(line, mod):
    p = P(tokenize(line), mod)
    name = p.next()
    p.exp('=')
    ext = False
    while p.peek() in LINKAGE:
        if p.peek() in ('external', 'extern_weak'):
            ext = True
        if p.next() == 'thread_local' and p.acc('('):
            p.next(); p.exp(')')
    if p.peek() == 'addrspace':
        p.next(); p.exp('('); p.next(); p.exp(')')
    if p.peek() == 'alias':
        p.next()
        t = p.ty0(); p.exp(',')
        _, v = p.tval()
        mod.aliases[name] = v
        return
    k = p.next()
    if k not in ('global', 'constant'):
        return
    t = p.ty0()
    init = None
    if not ext and p.peek() is not None and p.peek() != ',':
        init = p.val(t)
    if name == '@llvm.global_ctors' and init and init[0] == 'agg':
        for et, ev in init[1]:
            mod.ctors.append(ev[1][1][1][1])
        return
    mod.globals[name] = (t, init, k == 'constant')
