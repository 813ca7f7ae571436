"""Bit-exact IEEE-754 domain: floating point values are python floats (concrete) or z3 FP terms,
integers are python ints or z3 bit-vectors."""
import math
import struct
import time
import random
import z3
from .core import Unsupported, Infeasible, Obligation
from .real import RawBits, round_to
from . import solver

RNE, RTZ, RTP, RTN, RNA = z3.RNE(), z3.RTZ(), z3.RTP(), z3.RTN(), z3.RNA()
S32, S64 = z3.Float32(), z3.Float64()


def isc(x):
    return isinstance(x, float)


class FpDom:
    name = "fp"

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.dom = self
        self.pc = []
        self.n = 0
        self.eqc = {}

    def sort(self, f32):
        return S32 if f32 else S64

    def input(self, name, ty):
        nm = f"{name}#{self.n}"
        self.n += 1
        if ty in ('f32', 'f64'):
            v = z3.FP(nm, self.sort(ty == 'f32'))
        else:
            v = z3.BitVec(nm, int(ty[1:]))
        self.ctx.inputs.append((name, ty, v))
        return v

    def const(self, v, f32):
        return float(v)

    def lift(self, a, f32):
        if isc(a):
            if a != a:
                return z3.fpNaN(self.sort(f32))
            return z3.FPVal(a, self.sort(f32)) if not (a == 0 and math.copysign(1, a) < 0) else z3.fpMinusZero(self.sort(f32))
        return a

    def f32of(self, a, b=None):
        for x in (a, b):
            if x is not None and not isc(x):
                return x.sort() == S32
        return None

    def bin(self, op, a, b, f32):
        if isc(a) and isc(b):
            try:
                if op == 'fadd':
                    r = a + b
                elif op == 'fsub':
                    r = a - b
                elif op == 'fmul':
                    r = a * b
                elif op == 'fdiv':
                    if b == 0:
                        if a == 0 or a != a:
                            r = math.nan
                        else:
                            r = math.copysign(math.inf, a) * math.copysign(1, b)
                    else:
                        r = a / b
                else:
                    r = math.fmod(a, b) if b != 0 and not math.isinf(a) else math.nan
            except OverflowError:
                r = math.copysign(math.inf, a)
            return round_to(r, f32)
        # exact identities (they keep multiplier/adder circuits out of the encoding)
        if op == 'fmul':
            for u, w in ((a, b), (b, a)):
                if isc(u) and u == 1.0:
                    return w
                if isc(u) and u == -1.0:
                    return z3.fpNeg(w)
        elif op == 'fdiv' and isc(b) and abs(b) == 1.0:
            return a if b > 0 else z3.fpNeg(a)
        elif op in ('fadd', 'fsub'):
            if isc(b) and b == 0.0:
                neg = math.copysign(1, b) < 0
                if (op == 'fsub') != neg:
                    return a                      # x - (+0), x + (-0)
                return z3.If(z3.fpIsZero(a), z3.fpPlusZero(self.sort(f32)), a)
            if op == 'fadd' and isc(a) and a == 0.0:
                if math.copysign(1, a) < 0:
                    return b
                return z3.If(z3.fpIsZero(b), z3.fpPlusZero(self.sort(f32)), b)
        x, y = self.lift(a, f32), self.lift(b, f32)
        if op == 'fadd':
            return z3.fpAdd(RNE, x, y)
        if op == 'fsub':
            return z3.fpSub(RNE, x, y)
        if op == 'fmul':
            return z3.fpMul(RNE, x, y)
        if op == 'fdiv':
            return z3.fpDiv(RNE, x, y)
        raise Unsupported("frem")

    def neg(self, a):
        return -a if isc(a) else z3.fpNeg(a)

    def fabs(self, a):
        return abs(a) if isc(a) else z3.fpAbs(a)

    def sqrt(self, a):
        if isc(a):
            return math.sqrt(a) if a >= 0 else (a if a == 0 else math.nan)
        return z3.fpSqrt(RNE, a)

    def _ri(self, a, mode, f):
        if isc(a):
            if a != a or math.isinf(a):
                return a
            r = float(f(a))
            return math.copysign(r, a) if r == 0 else r
        return z3.fpRoundToIntegral(mode, a)

    def floor(self, a):
        return self._ri(a, RTN, math.floor)

    def ceil(self, a):
        return self._ri(a, RTP, math.ceil)

    def trunc(self, a):
        return self._ri(a, RTZ, math.trunc)

    def round(self, a):
        return self._ri(a, RNA, lambda x: math.trunc(x) + (math.copysign(1, x) if abs(x - math.trunc(x)) >= 0.5 else 0))

    def rint(self, a):
        return self._ri(a, RNE, lambda x: round(x))

    def cmp(self, pred, a, b, f32=None):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if isc(a) and isc(b):
            nan = a != a or b != b
            if pred == 'ord':
                return not nan
            if pred == 'uno':
                return nan
            if nan:
                return pred[0] == 'u'
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        if f32 is None:
            f32 = self.f32of(a, b)
        x, y = self.lift(a, f32), self.lift(b, f32)
        nan = []
        for t, o in ((x, a), (y, b)):
            if isc(o):
                if o != o:
                    nan.append(z3.BoolVal(True))
            else:
                nan.append(z3.fpIsNaN(t))
        un = nan[0] if len(nan) == 1 else (z3.Or(*nan) if nan else z3.BoolVal(False))
        if not isc(a) and not isc(b) and a.eq(b):
            un = z3.fpIsNaN(x)
        if pred == 'uno':
            return un
        if pred == 'ord':
            return z3.Not(un)
        k = pred[1:]
        base = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[k](x, y)
        if pred[0] == 'o':
            if k == 'ne':
                return z3.And(z3.Not(un), base)
            return base
        if k == 'ne':
            return base           # fpNEQ is true on NaN
        return z3.Or(un, base)

    def fptosi(self, a, bits, signed=True):
        if isc(a):
            if a != a or math.isinf(a) or not (-(2.0 ** (bits - 1)) <= a < 2.0 ** (bits - (1 if signed else 0))):
                return (1 << (bits - 1)) if signed else 0
            return math.trunc(a) & ((1 << bits) - 1)
        f32 = a.sort() == S32
        if signed:
            lo, hi = -(2.0 ** (bits - 1)), 2.0 ** (bits - 1)
            ok = z3.And(z3.fpGEQ(a, self.lift(lo, f32)), z3.fpLT(a, self.lift(hi, f32)))
            return z3.If(ok, z3.fpToSBV(RTZ, a, z3.BitVecSort(bits)), z3.BitVecVal(1 << (bits - 1), bits))
        return z3.fpToUBV(RTZ, a, z3.BitVecSort(bits))

    def sitofp(self, i, bits, signed, f32):
        if isinstance(i, int):
            if signed and i >> (bits - 1):
                i -= 1 << bits
            return round_to(float(i), f32)
        if isinstance(i, z3.BoolRef):
            i = z3.If(i, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
        return z3.fpSignedToFP(RNE, i, self.sort(f32)) if signed else z3.fpUnsignedToFP(RNE, i, self.sort(f32))

    def convert(self, a, f32):
        if isc(a):
            return round_to(a, f32)
        if (a.sort() == S32) == f32:
            return a
        return z3.fpFPToFP(RNE, a, self.sort(f32))

    def from_bits(self, i, f32):
        if isinstance(i, RawBits):
            return i.v
        if isinstance(i, int):
            return struct.unpack('<f', struct.pack('<I', i))[0] if f32 else struct.unpack('<d', struct.pack('<Q', i))[0]
        return z3.fpBVToFP(i, self.sort(f32))

    def to_bits(self, v, f32):
        return RawBits(v, 'f32' if f32 else 'f64')

    def bits_bv(self, rb):
        """materialise RawBits as an integer / bit-vector"""
        f32 = rb.t == 'f32'
        if isc(rb.v):
            return struct.unpack('<I', struct.pack('<f', rb.v))[0] if f32 else struct.unpack('<Q', struct.pack('<d', rb.v))[0]
        return z3.fpToIEEEBV(rb.v)

    def nextafter(self, a, b):
        if isc(a) and isc(b):
            return math.nextafter(a, b)
        if not (isc(b) and math.isinf(b)):
            raise Unsupported("nextafter towards a finite value")
        f32 = self.f32of(a)
        n = 32 if f32 else 64
        bv = z3.fpToIEEEBV(a)
        up = b > 0
        tiny = z3.fpBVToFP(z3.BitVecVal(1 if up else (1 << (n - 1)) + 1, n), self.sort(f32))
        toward_zero = z3.fpIsNegative(a) if up else z3.fpIsPositive(a)
        stepped = z3.fpBVToFP(z3.If(toward_zero, bv - 1, bv + 1), self.sort(f32))
        lim = self.lift(b, f32)
        return z3.If(z3.Or(z3.fpIsNaN(a), z3.fpEQ(a, lim)), a, z3.If(z3.fpIsZero(a), tiny, stepped))

    def copysign(self, a, b):
        raise Unsupported("copysign")

    def select(self, c, a, b, f32):
        if isc(a) and isc(b) and (a == b and math.copysign(1, a) == math.copysign(1, b)):
            return a
        return z3.If(c, self.lift(a, f32), self.lift(b, f32))

    # ---- formulas
    def simp(self, e):
        return z3.simplify(e)

    def band(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(a, b)

    def bor(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(a, b)

    def bnot(self, a):
        if isinstance(a, bool):
            return not a
        return z3.Not(a)

    def add_pc(self, e):
        if not z3.is_true(e):
            self.pc.append(e)

    def run(self, cons, ms, how='z3'):
        import os
        if os.environ.get('VP_DUMP'):
            ss = z3.Solver()
            ss.add(*cons)
            open(os.environ['VP_DUMP'] + '/%d_%d.smt2' % (os.getpid(), self.ctx.stats.queries), 'w').write(ss.to_smt2())
        st = self.ctx.stats
        t0 = time.time()
        try:
            if how == 'z3':
                r = solver.z3_check(cons, ms)
            elif how == 'qf':
                r = solver.z3_check(cons, ms, 'QF_FPBV' if True else None)
            else:
                r = solver.cvc5_check(cons, ms, 'QF_BVFP')
        except z3.Z3Exception:
            r = ('unknown', None)
        st.time += time.time() - t0
        st.queries += 1
        setattr(st, r[0], getattr(st, r[0]) + 1)
        return r

    def feasible(self, cond, quick=False):
        if isinstance(cond, bool):
            return cond
        r, _ = self.run(self.pc + [cond], self.ctx.cfg.get('feas_ms', 3000))
        return r != 'unsat'

    def assume(self, cond):
        if isinstance(cond, int):
            if not cond:
                raise Infeasible()
            return
        cond = self.simp(cond)
        if z3.is_false(cond):
            raise Infeasible()
        self.add_pc(cond)
        self.ctx.assumed += 1

    def check(self, cond, cid):
        ctx = self.ctx
        if isinstance(cond, int):
            cond = z3.BoolVal(bool(cond))
        neg = z3.simplify(z3.Not(cond))
        big = ctx.cfg.get('check_ms', 8000)
        status, m = 'unknown', None
        if z3.is_false(neg):
            status, m = self.run([neg], 1000)
        else:
            for how, ms in (('z3', big), ('qf', big * 2), ('cvc5', big * 2)):
                status, m = self.run(self.pc + [neg], ms, how)
                if status != 'unknown' and not (status == 'sat' and m is None):
                    break
        if status == 'unsat':
            ctx.proved[cid] = ctx.proved.get(cid, 0) + 1
            return
        if ctx.cfg.get('first_bad') and cid in ctx.cfg['first_bad']:
            return
        if status == 'sat' and m is not None:
            models = [self.values(m)]
            # a second, different model helps when the first one does not reproduce
            block = []
            for (nm, ty, v) in ctx.inputs:
                if ty == 'c':
                    continue
                x = m.eval(v, model_completion=True)
                block.append(v != x)
            if block:
                r, m2 = self.run(self.pc + [neg, z3.Or(*block)], big)
                if r == 'sat':
                    models.append(self.values(m2))
            ctx.bad.append(Obligation(cid, 'sat', models, prefix=tuple(ctx.trace)))
        else:
            ctx.bad.append(Obligation(cid, 'unknown', None, why=status, prefix=tuple(ctx.trace)))

    def find_models(self, neg, seeds=2):
        r, m = self.run(self.pc + [neg], self.ctx.cfg.get('check_ms', 8000))
        return [self.values(m)] if r == 'sat' else []

    def values(self, m):
        out = []
        for (name, ty, v) in self.ctx.inputs:
            if ty == 'c':
                out.append((name, ty, v))
                continue
            x = m.eval(v, model_completion=True)
            if ty in ('f32', 'f64'):
                out.append((name, ty, self.fpval(x)))
            else:
                out.append((name, ty, x.as_long()))
        return out

    def fpval(self, x):
        x = z3.simplify(x)
        if z3.is_fp_value(x):
            if x.isNaN():
                return math.nan
            if x.isInf():
                return -math.inf if x.isNegative() else math.inf
            if x.isZero():
                return -0.0 if x.isNegative() else 0.0
            f32 = x.sort() == S32
            bv = z3.simplify(z3.fpToIEEEBV(x)).as_long()
            return struct.unpack('<f', struct.pack('<I', bv))[0] if f32 else struct.unpack('<d', struct.pack('<Q', bv))[0]
        return 0.0

    def same(self, a, b, f32):
        """bitwise identity up to NaN payload"""
        x, y = self.lift(a, f32), self.lift(b, f32)
        return x == y

    def check_eq(self, a, b, cid):
        f32 = self.f32of(a, b)
        if f32 is None:
            self.check((a == b) or (a != a and b != b), cid)
            return
        x, y = self.lift(a, f32), self.lift(b, f32)
        self.check(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))), cid)

    def check_le(self, a, b, cid):
        self.check(self.cmp('ole', a, b), cid)
