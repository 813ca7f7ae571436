"""Symbolic interpreter for LLVM IR."""
import bisect
import math
import re
import struct
import time
import z3
from . import ir
from .ir import size_of, offsets
from .core import Unsupported, BoundExceeded, PathEnd, Infeasible, MemError, MergeFail, Local
from .real import RawBits, IntOf, Rat, Special


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Pack:
    """several memory cells read as one wide integer; parts = [(size, ty, value)] little endian"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


class Obj:
    __slots__ = ("addr", "size", "cells", "alive", "name", "zero", "const", "kind")

    def __init__(self, addr, size, name, kind):
        self.addr, self.size, self.name, self.kind = addr, size, name, kind
        self.cells = {}
        self.alive = True
        self.zero = False
        self.const = False


def is_conc(x):
    return isinstance(x, int)


MASK64 = (1 << 64) - 1


def ite_condition(t):
    """the condition of an outermost selection in t that has no selection in its condition's way, or None"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop(0)
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if len(seen) > 200:
            return None
        if z3.is_app_of(x, z3.Z3_OP_ITE) and isinstance(x, z3.BitVecRef):
            return x.arg(0)
        if isinstance(x, z3.BitVecRef):
            todo.extend(x.children())
    return None


class Interp:
    def __init__(self, mod, ctx, dom, stubs=None):
        self.mod, self.ctx, self.dom = mod, ctx, dom
        self.real = dom.name == 'real'
        self.objs = []
        self.addrs = []
        self.top = 0x10000
        self.gaddr = {}
        self.faddr = {}
        self.fname = {}
        self.maxsteps = ctx.cfg.get('max_steps', 2000000)
        self.depth = 0
        self.stubs = stubs or {}
        self.guards = {}
        self.nomerge = set()
        self.journal = []      # stack of {obj: saved cells}
        self.merge = (not self.real) and ctx.cfg.get('merge', 1)

    # ------------------------------------------------------------------ memory
    def alloc(self, size, name, kind):
        a = (self.top + 31) & ~15
        o = Obj(a, size, name, kind)
        self.top = a + max(size, 1) + 64
        self.objs.append(o)
        self.addrs.append(a)
        return o

    def find(self, addr, n, what):
        if not is_conc(addr):
            addr = self.concretise(addr, 64)
        i = bisect.bisect_right(self.addrs, addr) - 1
        if i >= 0:
            o = self.objs[i]
            off = addr - o.addr
            if off + n <= o.size or (n == 0 and off <= o.size):
                if not o.alive:
                    raise MemError(f"{what} of dead {o.kind} {o.name}")
                return o, off
            raise MemError(f"{what} of {n} bytes at offset {off} of {o.kind} {o.name} ({o.size} bytes)")
        raise MemError(f"{what} through invalid pointer {addr:#x}")

    def is_scalar(self, t):
        return t.k in ('int', 'f32', 'f64', 'ptr')

    def load(self, t, addr):
        if t.k == 'struct':
            offs = offsets(t)
            return [self.load(x, addr + o) for x, o in zip(t.a, offs)]
        if t.k in ('arr', 'vec'):
            s = size_of(t.b)
            return [self.load(t.b, addr + i * s) for i in range(t.a)]
        n = size_of(t)
        o, off = self.find(addr, n, "read")
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.conv(c[1], c[2], t)
        parts = self.slice(o, off, n)
        if parts is None:
            return UNDEF
        if len(parts) == 1:
            return self.conv(parts[0][1], parts[0][2], t)
        v = self.join(parts)
        return self.conv(ir.INT(n * 8), v, t)

    def conv(self, ct, v, t):
        """value v stored with type ct, read with type t of the same size"""
        if v is UNDEF:
            return v
        if ct is t or ct.k == t.k and ct.k != 'int':
            return v
        cf, tf = ct.k in ('f32', 'f64'), t.k in ('f32', 'f64')
        if cf and tf:
            if ct.k == t.k:
                return v
            raise Unsupported("type punning between float sizes")
        if cf:
            r = self.dom.to_bits(v, ct.k == 'f32')
            if isinstance(r, RawBits) and isinstance(r.v, float):
                return self.dom.bits_bv(r)
            return r
        if tf:
            if isinstance(v, Pack):
                raise Unsupported("pack as float")
            return self.dom.from_bits(v, t.k == 'f32')
        # int/ptr
        if t.k == 'int':
            sz = size_of(t) * 8
            if t.a < sz:
                # i1 / odd width stored in bytes
                if is_conc(v):
                    return v & ((1 << t.a) - 1)
                if isinstance(v, z3.BoolRef):
                    return v
                if isinstance(v, z3.BitVecRef):
                    if v.size() == t.a:
                        return v
                    e = z3.Extract(t.a - 1, 0, v)
                    return z3.simplify(e) == 1 if t.a == 1 else e
            elif isinstance(v, z3.BoolRef):
                return self.b2bv(v, t.a)
        return v

    def b2bv(self, v, n):
        if self.real:
            return 1 if self.ctx.decide(v) else 0
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))

    def piece(self, size, ty, v, lo, n):
        """bytes [lo, lo+n) of a cell"""
        if lo == 0 and n == size:
            return (size, ty, v)
        if v is UNDEF:
            return (n, ir.INT(8 * n), UNDEF)
        if isinstance(v, Pack):
            out = []
            p = 0
            for ps, pt, pv in v.parts:
                a, b = max(lo, p), min(lo + n, p + ps)
                if a < b:
                    out.append(self.piece(ps, pt, pv, a - p, b - a))
                p += ps
            return out[0] if len(out) == 1 else (n, ir.INT(8 * n), Pack(out))
        if ty.k in ('f32', 'f64'):
            v = self.dom.to_bits(v, ty.k == 'f32')
        if isinstance(v, RawBits):
            if self.real:
                if v.v.__class__ is Rat and v.v.is_const():
                    q = v.v.num.const_value()
                    v = struct.unpack('<I', struct.pack('<f', float(q)))[0] if v.t == 'f32' else \
                        struct.unpack('<Q', struct.pack('<d', float(q)))[0]
                else:
                    raise Unsupported("partial access to a floating point value")
            else:
                v = self.dom.bits_bv(v)
        if isinstance(v, z3.BoolRef):
            v = self.b2bv(v, size * 8)
        if is_conc(v):
            return (n, ir.INT(8 * n), (v >> (8 * lo)) & ((1 << (8 * n)) - 1))
        if isinstance(v, z3.BitVecRef):
            return (n, ir.INT(8 * n), z3.simplify(z3.Extract(8 * (lo + n) - 1, 8 * lo, v)))
        raise Unsupported("partial access")

    def slice(self, o, off, n):
        """parts covering [off, off+n) or None if (partly) undefined"""
        cells = o.cells
        parts = []
        p = off
        end = off + n
        if not cells:
            return [(n, ir.INT(8 * n), 0)] if o.zero else None
        while p < end:
            c = cells.get(p)
            if c is not None:
                k = min(c[0], end - p)
                parts.append(self.piece(c[0], c[1], c[2], 0, k))
                p += k
                continue
            # a cell containing p?
            found = False
            for d in range(1, 33):
                c = cells.get(p - d)
                if c is not None:
                    if c[0] > d:
                        k = min(c[0] - d, end - p)
                        parts.append(self.piece(c[0], c[1], c[2], d, k))
                        p += k
                        found = True
                    break
            if found:
                continue
            # undefined byte
            if o.zero:
                parts.append((1, ir.INT(8), 0))
            else:
                parts.append((1, ir.INT(8), UNDEF))
            p += 1
        return parts

    def join(self, parts):
        if any(v is UNDEF for _, _, v in parts):
            if all(v is UNDEF for _, _, v in parts):
                return UNDEF
            # trailing padding undefined: keep as pack
            return Pack(parts)
        if all(is_conc(v) for _, _, v in parts):
            r = 0
            sh = 0
            for s, t, v in parts:
                r |= v << sh
                sh += 8 * s
            return r
        if not self.real and all(is_conc(v) or isinstance(v, z3.BitVecRef) for _, _, v in parts):
            return z3.Concat(*[(z3.BitVecVal(v, 8 * s) if is_conc(v) else v) for s, t, v in reversed(parts)])
        return Pack(parts)

    def clear(self, o, off, n):
        """remove/trim cells overlapping [off, off+n)"""
        cells = o.cells
        if off in cells and cells[off][0] == n:
            return
        end = off + n
        # a cell starting before
        for d in range(1, 33):
            c = cells.get(off - d)
            if c is not None:
                if c[0] > d:
                    s = off - d
                    del cells[s]
                    a = self.piece(c[0], c[1], c[2], 0, d)
                    cells[s] = a
                    if c[0] > d + n:
                        b = self.piece(c[0], c[1], c[2], d + n, c[0] - d - n)
                        cells[end] = b
                break
        if n > 64:
            hits = [p for p in cells if off <= p < end]
        else:
            hits = [p for p in range(off, end) if p in cells]
        for p in hits:
            c = cells.pop(p)
            if p + c[0] > end:
                cells[end] = self.piece(c[0], c[1], c[2], end - p, p + c[0] - end)

    def store(self, t, v, addr):
        if t.k == 'struct':
            if v is UNDEF:
                return
            for x, o, e in zip(t.a, offsets(t), v):
                self.store(x, e, addr + o)
            return
        if t.k in ('arr', 'vec'):
            if v is UNDEF:
                v = [UNDEF] * t.a
            s = size_of(t.b)
            for i in range(t.a):
                self.store(t.b, v[i], addr + i * s)
            return
        n = size_of(t)
        o, off = self.find(addr, n, "write")
        if o.const:
            raise MemError(f"write to constant {o.name}")
        if self.journal:
            self.note(o)
        self.clear(o, off, n)
        if isinstance(v, Pack) and len(v.parts) > 0:
            o.cells.pop(off, None)
            p = off
            for s, ty, x in v.parts:
                o.cells[p] = (s, ty, x)
                p += s
            return
        if isinstance(v, RawBits):
            o.cells[off] = (n, ir.F32 if v.t == 'f32' else ir.F64, v.v)
            return
        o.cells[off] = (n, t, v)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        so, soff = self.find(s, n, "read")
        do, doff = self.find(d, n, "write")
        if self.journal:
            self.note(do)
        parts = []
        p = soff
        if len(so.cells) and n <= 1 << 16:
            cells = so.cells
            end = soff + n
            # leading partial
            pp = self.slice(so, soff, n)
            p = doff
            self.clear(do, doff, n)
            for k in [k for k in do.cells if doff <= k < doff + n] if n > 64 else [k for k in range(doff, doff + n) if k in do.cells]:
                del do.cells[k]
            for sz, ty, v in pp:
                if v is not UNDEF or True:
                    do.cells[p] = (sz, ty, v)
                p += sz
            return
        self.clear(do, doff, n)
        for k in [k for k in do.cells if doff <= k < doff + n]:
            del do.cells[k]
        if so.zero:
            for i in range(n):
                do.cells[doff + i] = (1, ir.INT(8), 0)

    def memset(self, d, b, n):
        if n == 0:
            return
        o, off = self.find(d, n, "write")
        if self.journal:
            self.note(o)
        self.clear(o, off, n)
        for k in [k for k in o.cells if off <= k < off + n]:
            del o.cells[k]
        if not is_conc(b):
            for i in range(n):
                o.cells[off + i] = (1, ir.INT(8), b)
            return
        p = off
        end = off + n
        while p < end:
            if p % 4 == 0 and p + 4 <= end:
                w = 8 if (p % 8 == 0 and p + 8 <= end) else 4
            else:
                w = 1
            o.cells[p] = (w, ir.INT(8 * w), int.from_bytes(bytes([b & 255]) * w, 'little'))
            p += w

    def note(self, o):
        for base, saved in self.journal:
            if o.addr < base and o not in saved:
                saved[o] = dict(o.cells)

    def cstr(self, addr):
        out = bytearray()
        while True:
            b = self.load(ir.INT(8), addr)
            if not is_conc(b):
                raise Unsupported("symbolic C string")
            if b == 0:
                return out.decode('latin1')
            out.append(b)
            addr += 1

    # ------------------------------------------------------------------ globals
    def glob(self, name):
        a = self.gaddr.get(name)
        if a is not None:
            return a
        if name in self.mod.aliases:
            return self.operand(self.mod.aliases[name], None)
        if name in self.mod.funcs or name in self.mod.decls:
            o = self.alloc(1, name, 'function')
            self.gaddr[name] = o.addr
            self.fname[o.addr] = name
            return o.addr
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported("unknown global " + name)
        t, init, const = g
        try:
            sz = size_of(t)
        except Exception:
            sz = 1024
        o = self.alloc(sz, name, 'global')
        self.gaddr[name] = o.addr
        if init is None:
            o.zero = True
        else:
            self.init_global(o.addr, t, init)
            o.const = const
        return o.addr

    def init_global(self, addr, t, v):
        k = v[0]
        if k == 'zero':
            self.memset(addr, 0, size_of(t))
        elif k == 'undef':
            pass
        elif k == 'bytes':
            for i, b in enumerate(v[1]):
                self.store(ir.INT(8), b, addr + i)
        elif k == 'agg':
            if t.k == 'struct':
                for (et, ev), o in zip(v[1], offsets(t)):
                    self.init_global(addr + o, et, ev)
            else:
                s = size_of(t.b)
                for i, (et, ev) in enumerate(v[1]):
                    self.init_global(addr + i * s, et, ev)
        else:
            self.store(t, self.operand(v, t), addr)

    # ------------------------------------------------------------------ operands
    def operand(self, v, regs):
        k = v[0]
        if k == 'reg':
            return regs[v[1]]
        if k == 'int':
            return v[1]
        if k == 'fp':
            return self.dom.const(v[1], v[2].k == 'f32')
        if k == 'glob':
            return self.glob(v[1])
        if k == 'zero':
            return self.zero(v[1])
        if k == 'undef':
            return self.undef(v[1])
        if k == 'agg':
            return [self.operand(x, regs) for _, x in v[1]]
        if k == 'bytes':
            return list(v[1])
        if k == 'gep':
            l = v[2]
            return self.gep(v[1], self.operand(l[0][1], regs), [(t, self.operand(x, regs)) for t, x in l[1:]])
        if k == 'cast':
            a = self.operand(v[2], regs)
            return self.cast(v[1], v[3], v[4], a)
        if k == 'cbin':
            return self.ibin(v[1], v[4], self.operand(v[2], regs), self.operand(v[3], regs))
        raise Unsupported("operand " + str(k))

    def zero(self, t):
        if t.k == 'struct':
            return [self.zero(x) for x in t.a]
        if t.k in ('arr', 'vec'):
            return [self.zero(t.b) for _ in range(t.a)]
        if t.k in ('f32', 'f64'):
            return self.dom.const(0.0, t.k == 'f32')
        return 0

    def undef(self, t):
        if t.k == 'struct':
            return [self.undef(x) for x in t.a]
        if t.k in ('arr', 'vec'):
            return [self.undef(t.b) for _ in range(t.a)]
        return UNDEF

    def gep(self, bt, base, idx):
        a = base
        t = bt
        first = True
        for it, i in idx:
            if i is UNDEF:
                raise MemError("address computed from an uninitialised value")
            if is_conc(i):
                n = it.a
                if i >> (n - 1):
                    i -= 1 << n
            elif isinstance(i, (IntOf,)):
                raise Unsupported("symbolic index in Real mode")
            else:
                i = self.concretise(i, it.a)
                if i >> (it.a - 1):
                    i -= 1 << it.a
            if first:
                a = self.padd(a, i * size_of(t))
                first = False
            elif t.k == 'struct':
                a = self.padd(a, offsets(t)[i])
                t = t.a[i]
            else:
                a = self.padd(a, i * size_of(t.b))
                t = t.b
        return a

    def padd(self, a, k):
        if is_conc(a):
            return (a + k) & MASK64
        if a is UNDEF:
            raise MemError("address computed from an uninitialised value")
        raise Unsupported("symbolic pointer")

    def concretise(self, bv, n):
        if is_conc(bv):
            return int(bv)
        if bv is UNDEF:
            raise MemError("use of an uninitialised value as an address or index")
        if isinstance(bv, z3.BoolRef):
            return 1 if self.ctx.decide(bv) else 0
        if not isinstance(bv, z3.BitVecRef):
            raise Unsupported("cannot concretise")
        bv = z3.simplify(bv)
        if z3.is_bv_value(bv):
            return bv.as_long()
        if self.ctx.local:
            raise MergeFail()
        # a selection among constants is split along its conditions
        for _ in range(64):
            c = ite_condition(bv)
            if c is None:
                break
            d = self.ctx.decide(c)
            bv = z3.simplify(z3.substitute(bv, (c, z3.BoolVal(d))))
            if z3.is_bv_value(bv):
                return bv.as_long()
        for _ in range(300):
            r, m = self.dom.run(self.dom.pc, 5000)
            if r != 'sat':
                raise Unsupported("concretisation")
            v = m.eval(bv, model_completion=True).as_long()
            # deterministic choice matters for re-execution: take the smallest feasible value
            lo = v
            while lo > 0:
                r, m = self.dom.run(self.dom.pc + [z3.ULT(bv, lo)], 5000)
                if r != 'sat':
                    break
                lo = m.eval(bv, model_completion=True).as_long()
            if self.ctx.decide(bv == lo):
                return lo
        raise BoundExceeded("too many index values")

    # ------------------------------------------------------------------ integer operations
    def tobv(self, x, n):
        if is_conc(x):
            return z3.BitVecVal(int(x), n)
        if isinstance(x, z3.BoolRef):
            return z3.If(x, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
        if isinstance(x, RawBits):
            if self.real:
                raise Unsupported("bit manipulation of a real value")
            r = self.dom.bits_bv(x)
            return z3.BitVecVal(r, n) if is_conc(r) else r
        if isinstance(x, z3.BitVecRef):
            return x
        raise Unsupported("integer operand " + type(x).__name__)

    def ibin(self, op, t, a, b):
        if t.k == 'vec':
            return [self.ibin(op, t.b, x, y) for x, y in zip(a, b)]
        n = t.a
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if n == 1:
            return self.bbin(op, a, b)
        if is_conc(a) and is_conc(b):
            m = (1 << n) - 1
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < n else 0
            if op == 'lshr':
                return a >> b if b < n else 0
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            if op == 'ashr':
                return (sa >> min(b, n - 1)) & m
            if b == 0:
                raise MemError("integer division by zero")
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (sa - q * sb) & m
        # opaque bit patterns
        if isinstance(a, (RawBits, Pack)) or isinstance(b, (RawBits, Pack)):
            r = self.opaque(op, n, a, b)
            if r is not None:
                return r
        if isinstance(a, IntOf) or isinstance(b, IntOf):
            return self.intof_bin(op, n, a, b)
        x, y = self.tobv(a, n), self.tobv(b, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if self.ctx.decide(y == 0):
                raise MemError("integer division by zero")
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
             'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y), 'sdiv': lambda: x / y,
             'srem': lambda: z3.SRem(x, y)}[op]()
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def intof_bin(self, op, n, a, b):
        if op in ('add', 'sub', 'mul'):
            x = self.dom.sitofp(a, n, True, False)
            y = self.dom.sitofp(b, n, True, False)
            r = {'add': self.dom.add, 'sub': self.dom.sub, 'mul': self.dom.mul}[op](x, y)
            return IntOf(r, n)
        raise Unsupported("integer operation on a converted real")

    def opaque(self, op, n, a, b):
        top = 1 << (n - 1)
        if isinstance(a, RawBits) and is_conc(b):
            if op == 'and' and b == top - 1:
                return RawBits(self.dom.fabs(a.v), a.t)
            if op == 'xor' and b == top:
                return RawBits(self.dom.neg(a.v), a.t)
        # assemble packs:  zext/shl/or
        if op == 'shl' and is_conc(b) and b % 8 == 0:
            k = b // 8
            parts = self.parts_of(a, n // 8)
            if parts is not None:
                out = [(k, ir.INT(8 * k), 0)]
                p = k
                for s, t, v in parts:
                    if p >= n // 8:
                        break
                    if p + s > n // 8:
                        out.append(self.piece(s, t, v, 0, n // 8 - p))
                        p = n // 8
                        break
                    out.append((s, t, v))
                    p += s
                return Pack(out)
        if op == 'lshr' and is_conc(b) and b % 8 == 0:
            parts = self.parts_of(a, n // 8)
            k = b // 8
            if parts is not None:
                s, t, v = self.piece(n // 8, ir.INT(n), Pack(parts), k, n // 8 - k)
                rest = v.parts if isinstance(v, Pack) else [(s, t, v)]
                return Pack(rest + [(k, ir.INT(8 * k), 0)])
        if op == 'or':
            pa, pb = self.parts_of(a, n // 8), self.parts_of(b, n // 8)
            if pa is not None and pb is not None:
                # byte-wise merge where one side is concrete zero
                cuts = {0, n // 8}
                for ps in (pa, pb):
                    p = 0
                    for s, _, _ in ps:
                        p += s
                        cuts.add(p)
                cuts = sorted(cuts)
                out = []
                A, B = Pack(pa), Pack(pb)
                i = 0
                while i + 1 < len(cuts):
                    lo, hi = cuts[i], cuts[i + 1]
                    x = self.piece(n // 8, ir.INT(n), A, lo, hi - lo) if True else None
                    y = self.piece(n // 8, ir.INT(n), B, lo, hi - lo)
                    if is_conc(x[2]) and x[2] == 0:
                        out.append(y)
                    elif is_conc(y[2]) and y[2] == 0:
                        out.append(x)
                    else:
                        return None
                    i += 1
                return Pack(out)
        return None

    def parts_of(self, v, nbytes):
        if isinstance(v, Pack):
            return v.parts
        if isinstance(v, RawBits):
            k = 4 if v.t == 'f32' else 8
            r = [(k, ir.F32 if k == 4 else ir.F64, v.v)]
            if nbytes > k:
                r.append((nbytes - k, ir.INT(8 * (nbytes - k)), 0))
            return r
        if is_conc(v):
            return [(nbytes, ir.INT(8 * nbytes), v)]
        if isinstance(v, z3.BitVecRef):
            return [(nbytes, ir.INT(8 * nbytes), v)]
        return None

    def bbin(self, op, a, b):
        D = self.dom

        def nb(x):
            return bool(x) if is_conc(x) else (x if isinstance(x, z3.BoolRef) else x == 1)
        a, b = nb(a), nb(b)
        if op == 'and' or op == 'mul':
            return D.band(a, b)
        if op == 'or':
            return D.bor(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, bool) and isinstance(b, bool):
                return a != b
            if isinstance(a, bool):
                a, b = b, a
            if isinstance(b, bool):
                return D.bnot(a) if b else a
            return z3.Xor(a, b)
        raise Unsupported("i1 " + op)

    def icmp(self, pr, t, a, b):
        if t.k == 'vec':
            return [self.icmp(pr, t.b, x, y) for x, y in zip(a, b)]
        n = 64 if t.k == 'ptr' else t.a
        if a is UNDEF or b is UNDEF:
            raise MemError("comparison of an uninitialised value")
        if is_conc(a) and is_conc(b):
            if pr == 'eq':
                return a == b
            if pr == 'ne':
                return a != b
            if pr[0] == 's':
                a = a - (1 << n) if a >> (n - 1) else a
                b = b - (1 << n) if b >> (n - 1) else b
            return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[1:]]
        if n == 1:
            x = self.bbin('xor', a, b)
            if pr == 'ne':
                return x
            if pr == 'eq':
                return self.dom.bnot(x)
        if isinstance(a, IntOf) or isinstance(b, IntOf):
            x = self.dom.sitofp(a, n, True, False)
            y = self.dom.sitofp(b, n, True, False)
            return self.dom.cmp({'eq': 'oeq', 'ne': 'one'}.get(pr, 'o' + pr[1:]), x, y)
        if isinstance(a, RawBits) and self.real:
            raise Unsupported("bit comparison of a real value")
        x, y = self.tobv(a, n), self.tobv(b, n)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def cast(self, op, ft, tt, a):
        if a is UNDEF:
            return self.undef(tt)
        if ft.k == 'vec' and tt.k == 'vec' and op != 'bitcast':
            return [self.cast(op, ft.b, tt.b, x) for x in a]
        D = self.dom
        if op == 'bitcast':
            if self.is_scalar(ft) and self.is_scalar(tt):
                return self.conv(ft, a, tt)
            # through memory
            o = self.alloc(max(size_of(ft), size_of(tt)), 'bitcast', 'temp')
            self.store(ft, a, o.addr)
            return self.load(tt, o.addr)
        if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            if is_conc(a):
                n = 64 if tt.k == 'ptr' else tt.a
                return a & ((1 << n) - 1)
            return a
        if op == 'trunc':
            n = tt.a
            if is_conc(a):
                return a & ((1 << n) - 1)
            if isinstance(a, (Pack, RawBits)):
                parts = self.parts_of(a, ft.a // 8)
                if n % 8 == 0:
                    s, t, v = self.piece(ft.a // 8, ft, Pack(parts), 0, n // 8)
                    return self.conv(t, v, tt) if not isinstance(v, Pack) else v
                s, t, v = self.piece(ft.a // 8, ft, Pack(parts), 0, 1)
                a = v
                ft = ir.INT(8)
                if is_conc(a):
                    return a & 1
            if isinstance(a, IntOf):
                return IntOf(a.r, n)
            if isinstance(a, z3.BoolRef):
                return a if n == 1 else self.tobv(a, n)
            r = z3.simplify(z3.Extract(n - 1, 0, a))
            if z3.is_bv_value(r):
                return r.as_long()
            return z3.simplify(r == 1) if n == 1 else r
        if op in ('zext', 'sext'):
            n = tt.a
            if is_conc(a):
                a = int(a)
                if op == 'sext' and a >> (ft.a - 1):
                    a |= ((1 << n) - 1) ^ ((1 << ft.a) - 1)
                return a
            if isinstance(a, z3.BoolRef):
                if self.real:
                    d = self.ctx.decide(a)
                    return (1 if op == 'zext' else (1 << n) - 1) if d else 0
                one = 1 if op == 'zext' else (1 << n) - 1
                return z3.If(a, z3.BitVecVal(one, n), z3.BitVecVal(0, n))
            if isinstance(a, (Pack, RawBits)) and op == 'zext':
                parts = self.parts_of(a, ft.a // 8)
                k = (n - ft.a) // 8
                return Pack(list(parts) + [(k, ir.INT(8 * k), 0)])
            if isinstance(a, IntOf):
                return IntOf(a.r, n)
            return z3.ZeroExt(n - ft.a, a) if op == 'zext' else z3.SignExt(n - ft.a, a)
        if op in ('fptrunc', 'fpext'):
            if 'fp80' in (ft.k, tt.k):
                raise Unsupported("x86_fp80")
            return D.convert(a, tt.k == 'f32')
        if op in ('fptosi', 'fptoui'):
            return D.fptosi(a, tt.a, op == 'fptosi')
        if op in ('sitofp', 'uitofp'):
            if isinstance(a, z3.BoolRef) and self.real:
                a = 1 if self.ctx.decide(a) else 0
            return D.sitofp(int(a) if is_conc(a) else a, ft.a, op == 'sitofp', tt.k == 'f32')
        raise Unsupported("cast " + op)

    def select(self, ct, t, c, a, b):
        if c is UNDEF:
            raise MemError("branch on an uninitialised value")
        if isinstance(c, list):
            return [self.select(ct.b, t.b, x, y, z) for x, y, z in zip(c, a, b)]
        if is_conc(c):
            return a if c else b
        if t.k == 'int' and t.a == 1:
            D = self.dom

            def nb(x):
                if x is UNDEF:
                    return UNDEF
                return bool(x) if is_conc(x) else x
            x, y = nb(a), nb(b)
            if x is UNDEF or y is UNDEF:
                return a if self.ctx.decide(c) else b
            if isinstance(x, bool) and isinstance(y, bool):
                if x == y:
                    return x
                return c if x else D.bnot(c)
            if x is False or y is True or x is True or y is False:
                if y is False:
                    return D.band(c, x)
                if x is True:
                    return D.bor(c, y)
                if x is False:
                    return D.band(D.bnot(c), y)
                return D.bor(D.bnot(c), x)
            return D.bor(D.band(c, x), D.band(D.bnot(c), y))
        if self.real or t.k not in ('int', 'f32', 'f64') or a is UNDEF or b is UNDEF:
            return a if self.ctx.decide(c) else b
        if t.k == 'int':
            if isinstance(a, (RawBits, Pack)) or isinstance(b, (RawBits, Pack)):
                return a if self.ctx.decide(c) else b
            return z3.simplify(z3.If(c, self.tobv(a, t.a), self.tobv(b, t.a)))
        return self.dom.select(c, a, b, t.k == 'f32')

    def fbin(self, op, t, a, b):
        if t.k == 'vec':
            return [self.fbin(op, t.b, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            return UNDEF
        D = self.dom
        if self.real:
            if op == 'fadd':
                return D.add(a, b)
            if op == 'fsub':
                return D.sub(a, b)
            if op == 'fmul':
                return D.mul(a, b)
            if op == 'fdiv':
                return D.div(a, b)
            raise Unsupported(op)
        return D.bin(op, a, b, t.k == 'f32')

    def fcmp(self, pr, t, a, b):
        if t.k == 'vec':
            return [self.fcmp(pr, t.b, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF:
            raise MemError("comparison of an uninitialised value")
        r = self.dom.cmp(pr, a, b) if self.real else self.dom.cmp(pr, a, b, t.k == 'f32')
        return r

    # ------------------------------------------------------------------ execution
    def call_function(self, name, args):
        if name in self.stubs:
            name = self.stubs[name]
        f = self.mod.funcs.get(name)
        if f is None:
            return self.external(name, args)
        if f.blocks and isinstance(next(iter(f.blocks.values()))[0], str):
            ir.parse_blocks(f, self.mod)
        self.ctx.funcs[name] = self.ctx.funcs.get(name, 0) + 1
        if self.merge and name not in self.nomerge and ('2vm' in name):
            ok, r = self.call_merged(f, args)
            if ok:
                return r
            self.nomerge.add(name)
        return self.enter(f, args)

    # ---- summarising a call: all paths through it become one if-then-else result
    def call_merged(self, f, args):
        ctx = self.ctx
        stack = [()]
        done = []
        base = self.top
        try:
            while stack:
                pf = stack.pop()
                loc = Local(pf)
                ctx.local.append(loc)
                saved = {}
                self.journal.append((base, saved))
                d0 = self.depth
                try:
                    r = self.enter(f, args)
                finally:
                    ctx.local.pop()
                    self.journal.pop()
                    self.depth = d0
                    after = {}
                    for o, c in saved.items():
                        after[o] = o.cells
                        o.cells = c
                if not loc.trace and not stack and not done:
                    # no decision was made: keep the effects
                    for o, c in after.items():
                        if self.journal:
                            self.note(o)
                        o.cells = c
                    return True, r
                done.append((loc.trace, r, after))
                stack.extend(loc.alts)
                if len(done) + len(stack) > 160:
                    raise MergeFail()
        except (MergeFail, MemError, Infeasible, Unsupported):
            return False, None
        try:
            objs = []
            for _, _, af in done:
                for o in af:
                    if o not in objs:
                        objs.append(o)
            merged = {}
            for o in objs:
                keys = {}
                for _, _, af in done:
                    cells = af.get(o, o.cells)
                    for off, c in cells.items():
                        keys.setdefault(off, []).append(c)
                out = {}
                for off, cs in keys.items():
                    if len(cs) != len(done):
                        raise MergeFail()
                    if any(c[0] != cs[0][0] for c in cs):
                        raise MergeFail()
                    ty = cs[0][1]
                    if all(c[2] is cs[0][2] and c[1].k == ty.k for c in cs):
                        out[off] = cs[0]
                        continue
                    if any(c[1].k != ty.k for c in cs):
                        raise MergeFail()
                    vals = [af.get(o, o.cells)[off][2] for _, _, af in done]
                    v = self.tree([(t, x) for (t, _, _), x in zip(done, vals)], 0, ty)
                    out[off] = (cs[0][0], ty, v)
                merged[o] = out
            r = None
            if f.ret.k != 'void':
                r = self.tree([(t, x) for t, x, _ in done], 0, f.ret)
        except MergeFail:
            return False, None
        for o, c in merged.items():
            if self.journal:
                self.note(o)
            o.cells = c
        return True, r

    def tree(self, items, k, ty):
        if len(items) == 1:
            return items[0][1]
        yes = [it for it in items if it[0][k][1]]
        no = [it for it in items if not it[0][k][1]]
        a, b = self.tree(yes, k + 1, ty), self.tree(no, k + 1, ty)
        return self.mergeval(ty, yes[0][0][k][0], a, b)

    def mergeval(self, ty, c, a, b):
        if a is b:
            return a
        if isinstance(a, list):
            if ty.k == 'struct':
                return [self.mergeval(t, c, x, y) for t, x, y in zip(ty.a, a, b)]
            return [self.mergeval(ty.b, c, x, y) for x, y in zip(a, b)]
        if a is UNDEF or b is UNDEF or isinstance(a, (RawBits, Pack)) or isinstance(b, (RawBits, Pack)):
            raise MergeFail()
        if is_conc(a) and is_conc(b) and a == b:
            return a
        if ty.k == 'ptr':
            raise MergeFail()
        return self.select(ir.INT(1), ty, c, a, b)

    def enter(self, f, args):
        name = f.name
        self.depth += 1
        if self.depth > 400:
            self.depth -= 1
            raise BoundExceeded("recursion depth 400 in " + name)
        regs = {}
        for (t, n, a), v in zip(f.params, args):
            regs[n] = v
        stack0 = []
        try:
            return self.run_blocks(f, regs, stack0)
        finally:
            self.depth -= 1
            for o in stack0:
                o.alive = False

    def run_blocks(self, f, regs, stack):
        ctx = self.ctx
        op_ = self.operand
        cur = f.entry
        prev = None
        while True:
            blk = f.blocks[cur]
            # phis first
            i = 0
            n = len(blk)
            if blk[0][0] == 'phi':
                vals = []
                while blk[i][0] == 'phi':
                    ins = blk[i]
                    for v, l in ins[3]:
                        if l == prev:
                            vals.append((ins[1], op_(v, regs)))
                            break
                    else:
                        raise Unsupported("phi without matching predecessor")
                    i += 1
                for d, v in vals:
                    regs[d] = v
            ctx.steps += n
            if ctx.steps > self.maxsteps:
                raise BoundExceeded("step bound %d in %s" % (self.maxsteps, f.name))
            if ctx.deadline and time.time() > ctx.deadline:
                raise BoundExceeded("time budget of the harness")
            nxt = None
            while i < n:
                ins = blk[i]
                i += 1
                k = ins[0]
                if k == 'call':
                    r = self.do_call(ins, regs)
                    if ins[1]:
                        regs[ins[1]] = r
                elif k == 'load':
                    regs[ins[1]] = self.load(ins[2], self.ptr(op_(ins[3], regs)))
                elif k == 'store':
                    self.store(ins[2], op_(ins[3], regs), self.ptr(op_(ins[4], regs)))
                elif k == 'gep':
                    l = ins[3]
                    regs[ins[1]] = self.gep(ins[2], self.ptr(op_(l[0][1], regs)), [(t, op_(x, regs)) for t, x in l[1:]])
                elif k == 'ibin':
                    regs[ins[1]] = self.ibin(ins[2], ins[3], op_(ins[4], regs), op_(ins[5], regs))
                elif k == 'fbin':
                    regs[ins[1]] = self.fbin(ins[2], ins[3], op_(ins[4], regs), op_(ins[5], regs))
                elif k == 'icmp':
                    regs[ins[1]] = self.icmp(ins[2], ins[3], op_(ins[4], regs), op_(ins[5], regs))
                elif k == 'fcmp':
                    regs[ins[1]] = self.fcmp(ins[2], ins[3], op_(ins[4], regs), op_(ins[5], regs))
                elif k == 'br':
                    nxt = ins[2]
                    break
                elif k == 'cbr':
                    c = op_(ins[2], regs)
                    if c is UNDEF:
                        raise MemError("branch on an uninitialised value")
                    nxt = ins[3] if ctx.decide(c) else ins[4]
                    break
                elif k == 'ret':
                    return None if ins[3] is None else op_(ins[3], regs)
                elif k == 'cast':
                    regs[ins[1]] = self.cast(ins[2], ins[3], ins[4], op_(ins[5], regs))
                elif k == 'select':
                    regs[ins[1]] = self.select(ins[2], ins[3], op_(ins[4], regs), op_(ins[5], regs), op_(ins[6], regs))
                elif k == 'fneg':
                    a = op_(ins[3], regs)
                    if isinstance(a, list):
                        regs[ins[1]] = [UNDEF if x is UNDEF else self.dom.neg(x) for x in a]
                    else:
                        regs[ins[1]] = UNDEF if a is UNDEF else self.dom.neg(a)
                elif k == 'alloca':
                    cnt = op_(ins[3], regs)
                    o = self.alloc(size_of(ins[2]) * cnt, f.name + ins[1], 'stack')
                    stack.append(o)
                    regs[ins[1]] = o.addr
                elif k == 'extractvalue':
                    v = op_(ins[3], regs)
                    for x in ins[4]:
                        v = v[x]
                    regs[ins[1]] = v
                elif k == 'insertvalue':
                    v = op_(ins[3], regs)
                    e = op_(ins[5], regs)
                    regs[ins[1]] = self.insval(v, e, ins[6])
                elif k == 'extractelement':
                    v = op_(ins[3], regs)
                    regs[ins[1]] = v[self.concretise(op_(ins[4], regs), 64)]
                elif k == 'insertelement':
                    v = list(op_(ins[3], regs))
                    v[self.concretise(op_(ins[5], regs), 64)] = op_(ins[4], regs)
                    regs[ins[1]] = v
                elif k == 'shufflevector':
                    a, b = op_(ins[3], regs), op_(ins[4], regs)
                    m = op_(ins[6], regs)
                    ab = list(a) + list(b)
                    regs[ins[1]] = [UNDEF if x is UNDEF else ab[x] for x in m]
                elif k == 'freeze':
                    regs[ins[1]] = op_(ins[3], regs)
                elif k == 'switch':
                    v = op_(ins[3], regs)
                    nxt = ins[4]
                    if v is UNDEF:
                        raise MemError("branch on an uninitialised value")
                    for cv, l in ins[5]:
                        if ctx.decide(self.icmp('eq', ins[2], v, cv)):
                            nxt = l
                            break
                    break
                elif k == 'unreachable':
                    raise MemError("unreachable code reached in " + f.name)
                elif k == 'nop':
                    pass
                elif k == 'phi':
                    raise Unsupported("late phi")
                elif k == 'invoke':
                    r = self.do_call(ins, regs)
                    if ins[1]:
                        regs[ins[1]] = r
                    nxt = ins[5]
                    break
                else:
                    raise Unsupported("instruction " + str(k) + " " + str(ins[-1]))
            prev, cur = cur, nxt

    def insval(self, v, e, ix):
        v = list(v)
        if len(ix) == 1:
            v[ix[0]] = e
        else:
            v[ix[0]] = self.insval(v[ix[0]], e, ix[1:])
        return v

    def ptr(self, p):
        if p is UNDEF:
            raise MemError("access through an uninitialised pointer")
        return p

    def do_call(self, ins, regs):
        callee = ins[3]
        args = []
        for t, v, a in ins[4]:
            x = self.operand(v, regs) if t.k != 'meta' else None
            if 'byval' in a:
                bt = a['byval']
                o = self.alloc(size_of(bt), 'byval', 'stack')
                self.memcpy(o.addr, x, size_of(bt))
                x = o.addr
            args.append(x)
        if callee[0] == 'glob':
            name = callee[1]
            if name in self.mod.aliases:
                name = self.mod.aliases[name][1]
        else:
            p = self.operand(callee, regs)
            name = self.fname.get(p)
            if name is None:
                raise Unsupported("indirect call")
        return self.call_function_typed(name, args, ins)

    def call_function_typed(self, name, args, ins):
        if name in self.stubs:
            name = self.stubs[name]
        m = '@vp_ext_' + name[1:]           # model of a C or C++ library function, written in the harness
        if m in self.mod.funcs:
            name = m
        if name in self.mod.funcs:
            return self.call_function(name, args)
        return self.external(name, args, ins)

    # ------------------------------------------------------------------ external functions
    def external(self, name, args, ins=None):
        n = name[1:].strip('"')
        h = EXT.get(n)
        if h is not None:
            return h(self, args)
        if n.startswith('llvm.'):
            return self.intrinsic(n, args, ins)
        if n.startswith('_ZSt') and '__throw' in n:
            raise MemError("exception " + n)
        raise Unsupported("external function " + n)

    def intrinsic(self, n, args, ins):
        D = self.dom
        base = n.split('.')
        if base[1] in ('lifetime', 'dbg', 'experimental', 'invariant', 'prefetch', 'donothing', 'stacksave',
                       'stackrestore', 'var', 'annotation', 'assume'):
            return 0
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.memcpy(args[0], args[1], self.concretise(args[2], 64))
            return None
        if n.startswith('llvm.memset'):
            self.memset(args[0], args[1], self.concretise(args[2], 64))
            return None
        k = base[1]
        if k in ('trap', 'ubsantrap', 'debugtrap'):
            raise MemError("trap")
        if k in ('sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'rint', 'nearbyint', 'roundeven'):
            k = {'nearbyint': 'rint', 'roundeven': 'rint'}.get(k, k)
            if isinstance(args[0], list):
                return [UNDEF if x is UNDEF else self.unary(k, x) for x in args[0]]
            return UNDEF if args[0] is UNDEF else self.unary(k, args[0])
        if k == 'fmuladd' or k == 'fma':
            return self.fma(args[0], args[1], args[2], ins[2].k == 'f32')
        if k == 'pow':
            return self.binary('pow', args[0], args[1])
        if k == 'copysign':
            return self.copysign(args[0], args[1])
        if k in ('minnum', 'maxnum'):
            return self.fminmax(k == 'minnum', args[0], args[1], ins[2].k == 'f32')
        if k in ('umin', 'umax', 'smin', 'smax'):
            t = ins[2]
            pr = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k]
            return self.select(ir.INT(1), t, self.icmp(pr, t, args[0], args[1]), args[0], args[1])
        if k == 'abs':
            t = ins[2]
            neg = self.ibin('sub', t, 0, args[0])
            return self.select(ir.INT(1), t, self.icmp('slt', t, args[0], 0), neg, args[0])
        if k in ('uadd', 'sadd', 'usub', 'ssub', 'umul', 'smul') and base[2] == 'with':
            t = ins[2].a[0]
            op = k[1:]
            r = self.ibin(op, t, args[0], args[1])
            if is_conc(args[0]) and is_conc(args[1]):
                nb = t.a
                a, b = args
                if k[0] == 's':
                    a = a - (1 << nb) if a >> (nb - 1) else a
                    b = b - (1 << nb) if b >> (nb - 1) else b
                x = a + b if op == 'add' else (a - b if op == 'sub' else a * b)
                lo, hi = (-(1 << (nb - 1)), 1 << (nb - 1)) if k[0] == 's' else (0, 1 << nb)
                return [r, not (lo <= x < hi)]
            raise Unsupported("symbolic overflow intrinsic")
        if k in ('usub', 'uadd') and base[2] == 'sat':
            t = ins[2]
            if k == 'usub':
                return self.select(ir.INT(1), t, self.icmp('ugt', t, args[0], args[1]),
                                   self.ibin('sub', t, args[0], args[1]), 0)
        if k == 'ctlz' and is_conc(args[0]):
            nb = ins[2].a
            return nb - args[0].bit_length()
        if k == 'cttz' and is_conc(args[0]):
            nb = ins[2].a
            return nb if args[0] == 0 else (args[0] & -args[0]).bit_length() - 1
        if k == 'ctpop' and is_conc(args[0]):
            return bin(args[0]).count('1')
        if k == 'expect':
            return args[0]
        if k == 'objectsize':
            return MASK64
        if k == 'is' and base[2] == 'constant':
            return False
        if k == 'is' and base[2] == 'fpclass':
            if self.real:
                return self.fpclass_real(args[0], args[1])
            return self.fpclass(args[0], args[1])
        if k == 'bswap' and is_conc(args[0]):
            nb = ins[2].a // 8
            return int.from_bytes(args[0].to_bytes(nb, 'little'), 'big')
        if k == 'fshl' and is_conc(args[0]) and is_conc(args[1]) and is_conc(args[2]):
            nb = ins[2].a
            s = args[2] % nb
            return (((args[0] << nb) | args[1]) >> (nb - s)) & ((1 << nb) - 1) if s else args[0]
        raise Unsupported("intrinsic " + n)

    def fma(self, a, b, c, f32):
        D = self.dom
        if self.real:
            return D.add(D.mul(a, b), c)
        return z3.fpFMA(z3.RNE(), D.lift(a, f32), D.lift(b, f32), D.lift(c, f32))

    def fpclass_real(self, v, mask):
        if isinstance(v, Special):
            if v.n == 'nan':
                return bool(mask & 3)
            return bool(mask & (4 if v.n == '-inf' else 512))
        neg, zero, pos = bool(mask & 8), bool(mask & 96), bool(mask & 256)
        if neg == zero == pos:
            return neg
        sg = self.dom.sgn(v)
        return neg if sg < 0 else (pos if sg > 0 else zero)

    def fpclass(self, v, mask):
        D = self.dom
        x = v
        if isinstance(x, float):
            x = z3.FPVal(x, z3.Float64())
        r = z3.BoolVal(False)
        neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
        if mask & 3:
            r = z3.Or(r, z3.fpIsNaN(x))
        for bit, c in ((4, z3.And(z3.fpIsInf(x), neg)), (8, z3.And(z3.fpIsNormal(x), neg)),
                       (16, z3.And(z3.fpIsSubnormal(x), neg)), (32, z3.And(z3.fpIsZero(x), neg)),
                       (64, z3.And(z3.fpIsZero(x), pos)), (128, z3.And(z3.fpIsSubnormal(x), pos)),
                       (256, z3.And(z3.fpIsNormal(x), pos)), (512, z3.And(z3.fpIsInf(x), pos))):
            if mask & bit:
                r = z3.Or(r, c)
        return z3.simplify(r)

    def unary(self, k, a):
        f = getattr(self.dom, k, None)
        if f is None:
            raise Unsupported(k)
        return f(a)

    def binary(self, k, a, b):
        f = getattr(self.dom, k, None)
        if f is None:
            raise Unsupported(k)
        return f(a, b)

    def copysign(self, a, b):
        D = self.dom
        if self.real:
            m = D.fabs(a)
            if isinstance(b, Special) and b.n == 'nan':
                raise Unsupported("copysign nan")
            return D.neg(m) if D.sgn(b) < 0 else m
        if isinstance(a, float) and isinstance(b, float):
            return math.copysign(a, b)
        f32 = D.f32of(a, b)
        x, y = D.lift(a, f32), D.lift(b, f32)
        m = z3.fpAbs(x)
        return z3.If(z3.fpIsNegative(y), z3.fpNeg(m), m)

    def fminmax(self, mn, a, b, f32):
        D = self.dom
        if self.real:
            if isinstance(a, Special) and a.n == 'nan':
                return b
            if isinstance(b, Special) and b.n == 'nan':
                return a
            lt = self.ctx.decide(D.cmp('olt', a, b))
            return (a if lt else b) if mn else (b if lt else a)
        x, y = D.lift(a, f32), D.lift(b, f32)
        lt = z3.fpLT(x, y) if mn else z3.fpGT(x, y)
        return z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(lt, x, y)))

    # ------------------------------------------------------------------ entry
    def run_harness(self, name):
        for c in self.mod.ctors:
            f = self.mod.funcs.get(c)
            if f is not None:
                self.call_function(c, [])
        self.call_function(name, [])


# ---------------------------------------------------------------------------------------------
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def _mk_unary(k, names):
    def h(I, a):
        return UNDEF if a[0] is UNDEF else I.unary(k, a[0])
    for n in names:
        EXT[n] = h


for _k in ('sqrt', 'fabs', 'floor', 'ceil', 'trunc', 'round', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'cbrt', 'rint'):
    _mk_unary(_k, [_k, _k + 'f'])
EXT['nearbyint'] = EXT['rint']
EXT['nearbyintf'] = EXT['rint']
for _k in ('atan2', 'pow', 'nextafter'):
    def _h(I, a, _k=_k):
        return I.binary(_k, a[0], a[1])
    EXT[_k] = _h
    EXT[_k + 'f'] = _h


@ext('hypot', 'hypotf')
def _(I, a):
    if not I.real:
        raise Unsupported('hypot')
    D = I.dom
    return D.sqrt(D.add(D.mul(a[0], a[0]), D.mul(a[1], a[1])))


@ext('fmod', 'fmodf')
def _(I, a):
    if not I.real:
        raise Unsupported('fmod')
    D = I.dom
    q = D.trunc(D.div(a[0], a[1]))
    return D.sub(a[0], D.mul(q, a[1]))


@ext('fma')
def _(I, a):
    return I.fma(a[0], a[1], a[2], False)


@ext('fmaf')
def _(I, a):
    return I.fma(a[0], a[1], a[2], True)


@ext('copysign', 'copysignf')
def _(I, a):
    return I.copysign(a[0], a[1])


@ext('fmin')
def _(I, a):
    return I.fminmax(True, a[0], a[1], False)


@ext('fmax')
def _(I, a):
    return I.fminmax(False, a[0], a[1], False)


@ext('fminf')
def _(I, a):
    return I.fminmax(True, a[0], a[1], True)


@ext('fmaxf')
def _(I, a):
    return I.fminmax(False, a[0], a[1], True)


@ext('modf')
def _(I, a):
    D = I.dom
    t = D.trunc(a[0])
    I.store(ir.F64, t, a[1])
    return D.sub(a[0], t) if I.real else D.bin('fsub', a[0], t, False)


@ext('_Znwm', '_Znam', 'malloc')
def _(I, a):
    n = I.concretise(a[0], 64)
    if n > 1 << 24:
        raise BoundExceeded("allocation of %d bytes" % n)
    return I.alloc(n, 'heap', 'heap').addr


@ext('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def _(I, a):
    if a[0] == 0:
        return None
    o, off = I.find(a[0], 0, 'free')
    if off != 0 or o.kind != 'heap':
        raise MemError("invalid free")
    o.alive = False
    return None


@ext('memcpy', 'memmove')
def _(I, a):
    I.memcpy(a[0], a[1], I.concretise(a[2], 64))
    return a[0]


@ext('memset')
def _(I, a):
    b = a[1]
    I.memset(a[0], b & 255 if is_conc(b) else z3.Extract(7, 0, b), I.concretise(a[2], 64))
    return a[0]


@ext('strlen')
def _(I, a):
    p = a[0]
    n = 0
    while True:
        b = I.load(ir.INT(8), p + n)
        if I.ctx.decide(I.icmp('eq', ir.INT(8), b, 0)):
            return n
        n += 1


@ext('memcmp', 'bcmp')
def _(I, a):
    for i in range(I.concretise(a[2], 64)):
        x, y = I.load(ir.INT(8), a[0] + i), I.load(ir.INT(8), a[1] + i)
        if not I.ctx.decide(I.icmp('eq', ir.INT(8), x, y)):
            return 0xffffffff if I.ctx.decide(I.icmp('ult', ir.INT(8), x, y)) else 1
    return 0


@ext('memchr')
def _(I, a):
    c = a[1] & 255 if is_conc(a[1]) else z3.Extract(7, 0, a[1])
    n = I.concretise(a[2], 64)
    xs = [I.load(ir.INT(8), a[0] + i) for i in range(n)]
    if not is_conc(c) and all(is_conc(x) for x in xs):
        # one case distinction: found or not (the position is the first match, as an expression)
        if not n or not I.ctx.decide(z3.Or([c == z3.BitVecVal(x, 8) for x in xs])):
            return 0
        r = z3.BitVecVal(a[0] + n - 1, 64)
        for i in range(n - 2, -1, -1):
            r = z3.If(c == z3.BitVecVal(xs[i], 8), z3.BitVecVal(a[0] + i, 64), r)
        return r
    for i in range(n):
        x = xs[i]
        if I.ctx.decide(I.icmp('eq', ir.INT(8), x, c)):
            return a[0] + i
    return 0


@ext('abort', '_ZSt9terminatev', '__cxa_pure_virtual', '__assert_fail')
def _(I, a):
    raise MemError("abort")


@ext('__cxa_guard_acquire')
def _(I, a):
    return 0 if I.guards.get(a[0]) else 1


@ext('__cxa_guard_release')
def _(I, a):
    I.guards[a[0]] = True


@ext('__cxa_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def _(I, a):
    return 0


# ---- harness intrinsics
@ext('vp_f64')
def _(I, a):
    return I.dom.input(I.cstr(a[0]), 'f64')


@ext('vp_f32')
def _(I, a):
    return I.dom.input(I.cstr(a[0]), 'f32')


@ext('vp_i32')
def _(I, a):
    return I.dom.input(I.cstr(a[0]), 'i32')


@ext('vp_i64')
def _(I, a):
    return I.dom.input(I.cstr(a[0]), 'i64')


@ext('vp_i8')
def _(I, a):
    return I.dom.input(I.cstr(a[0]), 'i8')


@ext('vp_choose')
def _(I, a):
    n = I.concretise(a[1], 32)
    v = I.ctx.choose(n)
    I.ctx.inputs.append((I.cstr(a[0]), 'c', v))
    return v


@ext('vp_assume')
def _(I, a):
    if a[0] is UNDEF:
        raise MemError("assumption on an uninitialised value")
    I.dom.assume(a[0])


@ext('vp_check')
def _(I, a):
    cid = I.cstr(a[1])
    I.ctx.reached.add(cid)
    if a[0] is UNDEF:
        raise MemError("check of an uninitialised value: " + cid)
    I.dom.check(a[0], cid)


def _eq(I, a):
    cid = I.cstr(a[2])
    I.ctx.reached.add(cid)
    if a[0] is UNDEF or a[1] is UNDEF:
        raise MemError("check of an uninitialised value: " + cid)
    I.dom.check_eq(a[0], a[1], cid)


def _le(I, a):
    cid = I.cstr(a[2])
    I.ctx.reached.add(cid)
    if a[0] is UNDEF or a[1] is UNDEF:
        raise MemError("check of an uninitialised value: " + cid)
    I.dom.check_le(a[0], a[1], cid)


EXT['vp_eq_f64'] = EXT['vp_eq_f32'] = _eq
EXT['vp_le_f64'] = EXT['vp_le_f32'] = _le


@ext('vp_reach')
def _(I, a):
    I.ctx.reached.add('reach:' + I.cstr(a[0]))


@ext('vp_and', 'vp_or', 'vp_implies')
def _(I, a):
    raise Unsupported("vp bool")


@ext('vp_is_replay')
def _(I, a):
    return 0
