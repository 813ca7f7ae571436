"""Real-arithmetic domain: floating point values are extended reals (a rational function of the
symbolic inputs, or one of NaN/+inf/-inf), decided with z3 (nlsat / nla) and cvc5."""
import math
import random
import struct
import time
from fractions import Fraction
from math import gcd, isqrt
import z3
from .poly import Poly, Rat, ZERO, ONE, norm_c
from .core import Unsupported, Infeasible, Restart, Obligation
from . import solver


class Special:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN, PINF, NINF = Special('nan'), Special('+inf'), Special('-inf')
R0, R1 = Rat(ZERO), Rat(ONE)


def rconst(c):
    return Rat(Poly.const(c))


class RawBits:
    """the bit pattern of a floating point value, kept opaque"""
    __slots__ = ("v", "t")

    def __init__(self, v, t):
        self.v, self.t = v, t


class IntOf:
    """the integer equal to an integral real value (result of fptosi)"""
    __slots__ = ("r", "bits")

    def __init__(self, r, bits):
        self.r, self.bits = r, bits


def round_to(x, f32):
    if f32:
        try:
            return struct.unpack('<f', struct.pack('<f', x))[0]
        except OverflowError:
            return math.copysign(math.inf, x)
    return float(x)


_const_cache = {}


def recognise(v, f32):
    """rational (or multiple of pi) a floating point literal stands for: ('q', Fraction) or ('pi', Fraction)"""
    k = (v, f32)
    if k in _const_cache:
        return _const_cache[k]
    r = _recognise(v, f32)
    _const_cache[k] = r
    return r


def _recognise(v, f32):
    ex = Fraction(v)
    if ex.denominator <= 4096:
        return ('q', ex)
    for lim in (10, 100, 1000, 4096, 100000, 10 ** 6):
        if lim == 4096:
            q = Fraction(v / math.pi).limit_denominator(12)
            if q != 0 and round_to(q.numerator * round_to(math.pi, f32) / q.denominator, f32) == v:
                return ('pi', q)
        c = ex.limit_denominator(lim)
        if round_to(c.numerator / c.denominator, f32) == v:
            return ('q', c)
    # small decimals such as 1e-9
    for e in range(4, 16):
        n = round(v * 10 ** e)
        if n != 0 and abs(n) <= 1000 and round_to(float(f"{n}e-{e}"), f32) == v:
            return ('q', Fraction(n, 10 ** e))
    # multiples of pi (or of 1/pi is not needed)
    q = Fraction(v / math.pi).limit_denominator(720)
    if q != 0:
        w = q.numerator * math.pi / q.denominator
        tol = abs(v) * (6e-7 if f32 else 1e-15)
        if abs(w - v) <= tol:
            return ('pi', q)
    q = Fraction(v * math.pi).limit_denominator(720)
    if q != 0 and q.denominator <= 4:
        w = q.numerator / q.denominator / math.pi
        tol = abs(v) * (6e-7 if f32 else 1e-15)
        if abs(w - v) <= tol:
            return ('ipi', q)
    return ('q', ex)


def slack_of(c, d):
    """a strengthening of the comparison c by the distance d, or None"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    k = c.decl().kind() if z3.is_app(c) else None
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not z3.is_real(c.arg(0)):
        return None
    a, b = c.arg(0), c.arg(1)
    less = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) != neg
    return b - a >= d if less else a - b >= d


class RealDom:
    name = "real"

    def __init__(self, ctx):
        self.ctx = ctx
        ctx.dom = self
        self.names = []
        self.z = []
        self.kind = []
        self.rules = {}
        self.defs = {}       # var -> list of (z3 expr)
        self.pc = []         # z3 exprs
        self.atom = {}       # z3 id -> (Poly, rel)
        self.keep = []
        self.vcache = {}
        self.pz = {}
        self.sqrtc = {}
        self.cbrtc = {}
        self.fsign = {}
        self.angles = {}
        self.pi = None
        self.lemmas = []
        self.fz = {}
        self.counts = {}
        self.ident = []
        self.lincache, self.monos, self.monopos = {}, {}, []

    def akey(self, mono):
        return ('angle',) + tuple(self.ident[v] + (e,) for v, e in mono)

    # ---------------------------------------------------------------- variables
    def new_var(self, name, kind='input'):
        v = len(self.names)
        nm = f"{name}#{v}"
        self.names.append(nm)
        self.kind.append(kind)
        c = self.counts.get(name, 0)
        self.counts[name] = c + 1
        self.ident.append((name, c))
        self.z.append(z3.ToReal(z3.Int(nm)) if kind == 'int' else z3.Real(nm))
        return v

    def input(self, name, ty):
        v = self.new_var(name)
        self.ctx.inputs.append((name, ty, v))
        return Rat(Poly.var(v))

    def pivar(self):
        if self.pi is None:
            self.pi = self.new_var('pi', 'aux')
            z = self.z[self.pi]
            self.defs[self.pi] = [z > z3.Q(314159265, 100000000), z < z3.Q(314159266, 100000000)]
        return self.pi

    # ---------------------------------------------------------------- normalisation
    def reduce(self, p):
        rules = self.rules
        if not rules:
            return p
        if rules.keys().isdisjoint(p.variables()):
            return p
        it = 0
        while True:
            hit = False
            out = {}
            for m, c in p.t.items():
                rv = None
                for v, e in m:
                    r = rules.get(v)
                    if r is not None and e >= r[0]:
                        rv = (v, e, r)
                        break
                if rv is None:
                    n = out.get(m, 0) + c
                    if n == 0:
                        out.pop(m, None)
                    else:
                        out[m] = norm_c(n)
                    continue
                hit = True
                v, e, (k, rep) = rv
                q, rem = divmod(e, k)
                rest = tuple(x for x in m if x[0] != v)
                if rem:
                    rest = tuple(sorted(rest + ((v, rem),)))
                term = Poly({rest: c})
                for _ in range(q):
                    term = term.mul(rep)
                for mm, cc in term.t.items():
                    n = out.get(mm, 0) + cc
                    if n == 0:
                        out.pop(mm, None)
                    else:
                        out[mm] = norm_c(n)
            p = Poly(out)
            if not hit:
                return p
            it += 1
            if it > 200:
                raise Unsupported("rewriting did not terminate")

    def pmul(self, a, b):
        if len(a.t) * len(b.t) > 60000:
            if len(a.t) >= len(b.t):
                a = self.cut(a)
            else:
                b = self.cut(b)
        return self.reduce(a.mul(b))

    def cut(self, p):
        v = self.new_var('cut', 'aux')
        z = self.z[v]
        self.defs[v] = [z == self.pz3(p)]
        return Poly.var(v)

    def mk(self, num, den):
        num = self.reduce(num)
        if num.is_zero():
            return R0
        if not den:
            return Rat(num)
        nd = {}
        k = 1
        for f, e in den.items():
            if len(f.t) == 1:
                # single variable factor with a rule: s^k -> P
                (m, c), = f.t.items()
                if len(m) == 1 and m[0][0] in self.rules and m[0][1] == 1:
                    v = m[0][0]
                    kk, rep = self.rules[v]
                    if e >= kk:
                        q, rem = divmod(e, kk)
                        if rem:
                            nd[f] = nd.get(f, 0) + rem
                        rep = self.reduce(rep)
                        if rep.is_const():
                            cv = rep.const_value()
                            if cv == 0:
                                nd[f] = e
                                continue
                            k = k * Fraction(1) / (Fraction(cv) ** q)
                        else:
                            cf, kc = rep.canon()
                            k = k * Fraction(1) / (Fraction(kc) ** q)
                            nd[cf] = nd.get(cf, 0) + q
                        continue
            r = f
            if self.rules and not self.rules.keys().isdisjoint(f.variables()):
                r = self.reduce(f)
            if r is not f and r != f:
                if r.is_const():
                    cv = r.const_value()
                    if cv == 0:
                        nd[f] = nd.get(f, 0) + e
                        continue
                    k = k * Fraction(1) / (Fraction(cv) ** e)
                else:
                    cf, kc = r.canon()
                    k = k * Fraction(1) / (Fraction(kc) ** e)
                    nd[cf] = nd.get(cf, 0) + e
            else:
                nd[f] = nd.get(f, 0) + e
        if k != 1:
            num = num.scale(k)
        out = {}
        for f, e in nd.items():
            while e > 0:
                q = num.exact_div(f)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                out[f] = e
        return Rat(num, out)

    # ---------------------------------------------------------------- arithmetic
    def const(self, v, f32):
        if v != v:
            return NAN
        if v == math.inf:
            return PINF
        if v == -math.inf:
            return NINF
        k, q = recognise(v, f32)
        if k == 'q':
            return rconst(q)
        if k == 'pi':
            return Rat(Poly.var(self.pivar()).scale(q))
        f, kk = Poly.var(self.pivar()).canon()
        return Rat(Poly.const(q), {f: 1})

    def neg(self, a):
        if isinstance(a, Special):
            return {NAN: NAN, PINF: NINF, NINF: PINF}[a]
        return Rat(a.num.scale(-1), a.den)

    def add(self, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN:
                return NAN
            if isinstance(a, Special) and isinstance(b, Special):
                return a if a is b else NAN
            return a if isinstance(a, Special) else b
        if not a.den and not b.den:
            return Rat(self.reduce(a.num.add(b.num)))
        if a.num.is_zero():
            return b
        if b.num.is_zero():
            return a
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = max(den.get(f, 0), e)
        na, nb = a.num, b.num
        for f, e in den.items():
            for _ in range(e - a.den.get(f, 0)):
                na = self.pmul(na, f)
            for _ in range(e - b.den.get(f, 0)):
                nb = self.pmul(nb, f)
        return self.mk(na.add(nb), den)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def sgn(self, a):
        """sign of a value by decision: -1, 0, 1"""
        if a is PINF:
            return 1
        if a is NINF:
            return -1
        if a.is_const():
            c = a.num.const_value()
            return (c > 0) - (c < 0)
        if self.ctx.decide(self.cmp0(a, '>')):
            return 1
        if self.ctx.decide(self.cmp0(a, '<')):
            return -1
        return 0

    def mul(self, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            if a is NAN or b is NAN:
                return NAN
            s = self.sgn(a) * self.sgn(b)
            return NAN if s == 0 else (PINF if s > 0 else NINF)
        num = self.pmul(a.num, b.num)
        if not a.den and not b.den:
            return Rat(num)
        den = dict(a.den)
        for f, e in b.den.items():
            den[f] = den.get(f, 0) + e
        return self.mk(num, den)

    def div(self, a, b):
        if a is NAN or b is NAN:
            return NAN
        if isinstance(b, Special):
            return NAN if isinstance(a, Special) else R0
        if isinstance(a, Special):
            s = self.sgn(a) * (self.sgn(b) or 1)
            return PINF if s > 0 else NINF
        bz = self.cmp0(b, '==')
        if self.ctx.decide(bz):
            s = self.sgn(a)
            return NAN if s == 0 else (PINF if s > 0 else NINF)
        b = self.mk(b.num, b.den)
        if b.num.is_zero():
            raise Infeasible()
        # a.num/a.den * b.den/b.num
        num = a.num
        den = dict(a.den)
        for f, e in b.den.items():
            h = den.get(f, 0)
            c = min(h, e)
            if c:
                if h == c:
                    del den[f]
                else:
                    den[f] = h - c
            for _ in range(e - c):
                num = self.pmul(num, f)
        if b.num.is_const():
            num = num.scale(Fraction(1) / b.num.const_value())
        else:
            bn = b.num
            f, k = bn.canon()
            # split monomial content
            common = None
            for m in f.t:
                d = dict(m)
                common = d if common is None else {v: min(e, d[v]) for v, e in common.items() if v in d}
                if not common:
                    break
            if common:
                mono = tuple(sorted(common.items()))
                f = f.exact_div(Poly({mono: 1}))
                for v, e in common.items():
                    pv = Poly.var(v)
                    den[pv] = den.get(pv, 0) + e
            num = num.scale(Fraction(1) / k)
            if not f.is_const():
                den[f] = den.get(f, 0) + 1
        return self.mk(num, den)

    def fabs(self, a):
        if isinstance(a, Special):
            return PINF if a is NINF else a
        if a.is_const():
            return rconst(abs(a.num.const_value()))
        if self.ctx.decide(self.cmp0(a, '<')):
            return self.neg(a)
        return a

    # ---------------------------------------------------------------- comparison
    def pz3(self, p):
        k = p.key()
        e = self.pz.get(k)
        if e is None:
            terms = []
            for m, c in sorted(p.t.items()):
                fs = []
                if c != 1 or not m:
                    c = Fraction(c)
                    fs.append(z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator))
                for v, ex in m:
                    fs.extend([self.z[v]] * ex)
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t)
            e = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else z3.RealVal(0))
            self.pz[k] = e
        return e

    def mkatom(self, p, rel):
        """z3 bool (or python bool) for  p rel 0,  rel in < <= == > >= !="""
        if p.is_const():
            c = p.const_value()
            return {'<': c < 0, '<=': c <= 0, '==': c == 0, '>': c > 0, '>=': c >= 0, '!=': c != 0}[rel]
        if rel == '>':
            return self.mkatom(p.scale(-1), '<')
        if rel == '>=':
            return self.mkatom(p.scale(-1), '<=')
        if rel == '!=':
            x = self.mkatom(p, '==')
            return (not x) if isinstance(x, bool) else z3.Not(x)
        # definite sums of even powers
        if all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in p.t.items()):
            if rel == '<':
                return False
            if () in p.t:
                return False
        if rel == '<=' and False:
            pass
        if all(c < 0 and all(e % 2 == 0 for _, e in m) for m, c in p.t.items()):
            if rel == '<=':
                return True
            if () in p.t:
                return rel == '<'
        cp, k = p.canon()
        if rel == '==':
            p = cp
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][1] > 1:
                    p = Poly.var(m[0][0])
        else:
            p = cp if k > 0 else cp.scale(-1)
        z = self.pz3(p)
        e = z < 0 if rel == '<' else (z <= 0 if rel == '<=' else z == 0)
        i = e.get_id()
        if i not in self.atom:
            self.atom[i] = (p, rel)
            self.keep.append(e)
            self.vcache[i] = frozenset(p.variables())
        return e

    def factor_sign(self, f):
        """+1/-1 if the path condition fixes the sign of the (nonzero) factor, else 0"""
        s = self.fsign.get(f)
        if s is not None:
            return s
        s = 0
        if len(f.t) == 1:
            (m, c), = f.t.items()
            if len(m) == 1 and self.kind[m[0][0]] == 'nonneg':
                s = 1
        if s == 0 and all(c > 0 and all(e % 2 == 0 or self.kind[v] == 'nonneg' for v, e in m) for m, c in f.t.items()):
            s = 1
        if s == 0:
            neg = self.mkatom(f, '<')
            if neg is False or (neg is not True and not self.feasible(neg, quick=True)):
                s = 1
            else:
                pos = self.mkatom(f, '>')
                if pos is False or (pos is not True and not self.feasible(pos, quick=True)):
                    s = -1
        if s != 0:
            self.fsign[f] = s
        return s

    def cmp0(self, a, rel):
        """a rel 0 as formula"""
        num = self.reduce(a.num)
        if rel in ('==', '!='):
            return self.mkatom(num, rel)
        p = num
        for f, e in a.den.items():
            if e % 2:
                s = self.factor_sign(f)
                if s == 0:
                    p = self.pmul(p, f)
                elif s < 0:
                    p = p.scale(-1)
        return self.mkatom(p, rel)

    def cmp(self, pred, a, b):
        """fcmp predicate; returns python bool or z3 bool"""
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        nan = a is NAN or b is NAN
        if pred == 'ord':
            return not nan
        if pred == 'uno':
            return nan
        if nan:
            return pred[0] == 'u'
        op = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[1:]]
        if isinstance(a, Special) or isinstance(b, Special):
            def rank(x):
                return 1 if x is PINF else (-1 if x is NINF else 0)
            ra, rb = rank(a), rank(b)
            return {'==': ra == rb, '!=': ra != rb, '<': ra < rb, '<=': ra <= rb, '>': ra > rb, '>=': ra >= rb}[op]
        return self.cmp0(self.sub(a, b), op)

    # ---------------------------------------------------------------- algebraic functions
    def sqrt(self, a):
        if isinstance(a, Special):
            return NAN if a is NINF else a
        if a.is_const():
            c = Fraction(a.num.const_value())
            if c < 0:
                return NAN
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return rconst(Fraction(n, d))
        elif self.ctx.decide(self.cmp0(a, '<')):
            return NAN
        a = self.mk(a.num, a.den)
        num = a.num
        if num.is_zero():
            return R0
        den = {}
        sgn = 1
        for f, e in a.den.items():
            if e % 2:
                num = self.pmul(num, f)
                e += 1
            h = e // 2
            den[f] = h
            if h % 2:
                s = self.factor_sign(f)
                if s == 0:
                    s = 1 if self.ctx.decide(self.mkatom(f, '>')) else -1
                    self.fsign[f] = s
                sgn *= s
        # extract square constant content
        cp, k = num.canon()
        k = Fraction(k)
        if k < 0:
            cp, k = cp.scale(-1), -k
        # k = s^2 * r with r squarefree-ish (small factors only)
        s = Fraction(1)
        n, d = k.numerator, k.denominator
        n *= d
        s = Fraction(1, d)
        i = 2
        while i * i <= n and i < 50:
            while n % (i * i) == 0:
                n //= i * i
                s *= i
            i += 1
        r = isqrt(n)
        if r * r == n:
            s *= r
            n = 1
        base = cp.scale(n)
        # perfect square of a polynomial (single monomial)
        if len(base.t) == 1:
            (m, c), = base.t.items()
            rc = isqrt(c) if isinstance(c, int) and c >= 0 else -1
            if rc >= 0 and rc * rc == c and all(e % 2 == 0 for _, e in m):
                root = Poly({tuple((v, e // 2) for v, e in m): rc})
                rr = Rat(root)
                if self.sgn(rr) < 0:
                    rr = self.neg(rr)
                return self.mk(rr.num.scale(s * sgn), den)
        pr = self.poly_sqrt(base)
        if pr is not None:
            rr = Rat(pr)
            if self.sgn(rr) < 0:
                rr = self.neg(rr)
            return self.mk(rr.num.scale(s * sgn), den)
        v = self.sqrtc.get(base)
        if v is None:
            v = self.new_var('sqrt', 'nonneg')
            self.sqrtc[base] = v
            z = self.z[v]
            self.defs[v] = [z >= 0, z * z == self.pz3(base)]
            self.rules[v] = (2, base)
        return self.mk(Poly.var(v).scale(s * sgn), den)

    def poly_sqrt(self, p):
        """q with q*q == p as polynomials, or None (greedy leading-term algorithm)"""
        if len(p.t) > 60 or p.degree() % 2:
            return None
        order = sorted(p.variables())
        idx = {v: i for i, v in enumerate(order)}

        def vec(m):
            r = [0] * len(order)
            for v, e in m:
                r[idx[v]] = e
            return tuple(r)
        rem = {vec(m): Fraction(c) for m, c in p.t.items()}
        l = max(rem)
        c = rem[l]
        if c <= 0 or any(e % 2 for e in l):
            return None
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        lead = tuple(e // 2 for e in l)
        lc = Fraction(n, d)
        q = {lead: lc}
        del rem[l]
        for _ in range(40):
            if not rem:
                return Poly({tuple((order[i], e) for i, e in enumerate(v) if e): norm_c(c) for v, c in q.items()})
            l = max(rem)
            diff = tuple(a - b for a, b in zip(l, lead))
            if min(diff) < 0:
                return None
            c = rem[l] / (2 * lc)
            # subtract 2*c*x^diff*q + c^2 x^(2diff)
            for m, k in q.items():
                mm = tuple(a + b for a, b in zip(m, diff))
                x = rem.get(mm, 0) - 2 * c * k
                if x == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = x
            mm = tuple(2 * a for a in diff)
            x = rem.get(mm, 0) - c * c
            if x == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = x
            if diff in q:
                return None
            q[diff] = c
        return None

    def cbrt(self, a):
        if isinstance(a, Special):
            return a
        if a.is_const():
            c = Fraction(a.num.const_value())

            def icbrt(n):
                s = -1 if n < 0 else 1
                n = abs(n)
                r = round(n ** (1 / 3))
                for k in (r - 1, r, r + 1):
                    if k >= 0 and k ** 3 == n:
                        return s * k
                return None
            n, d = icbrt(c.numerator), icbrt(c.denominator)
            if n is not None and d is not None:
                return rconst(Fraction(n, d))
        a = self.mk(a.num, a.den)
        num = a.num
        den = {}
        for f, e in a.den.items():
            while e % 3:
                num = self.pmul(num, f)
                e += 1
            den[f] = e // 3
        cp, k = num.canon()
        base = num
        v = self.cbrtc.get(base)
        if v is None:
            v = self.new_var('cbrt', 'aux')
            self.cbrtc[base] = v
            z = self.z[v]
            b = self.pz3(base)
            self.defs[v] = [z * z * z == b, (z > 0) == (b > 0), (z < 0) == (b < 0)]
            self.rules[v] = (3, base)
        return self.mk(Poly.var(v), den)

    # ---------------------------------------------------------------- trigonometry
    EXACT = None

    def exact_pi(self, r):
        """(sin, cos) of r*pi for r a multiple of 1/12... (only 1/6, 1/4 grid)"""
        r = r % 2
        # reduce to first octant style table
        def s(rr):
            rr = rr % 2
            if rr >= 1:
                return self.neg(s(rr - 1))
            if rr > Fraction(1, 2):
                rr = 1 - rr
            if rr == 0:
                return R0
            if rr == Fraction(1, 2):
                return R1
            if rr == Fraction(1, 6):
                return rconst(Fraction(1, 2))
            if rr == Fraction(1, 4):
                return self.div(self.sqrt(rconst(2)), rconst(2))
            if rr == Fraction(1, 3):
                return self.div(self.sqrt(rconst(3)), rconst(2))
            raise Unsupported("sine of %s*pi" % rr)
        return s(r), s(r + Fraction(1, 2))

    def unit(self, mono, c):
        """registry entry (step, sin, cos) for base angle mono, first used with coefficient c"""
        ent = self.angles.get(mono)
        if ent is None:
            hint = self.ctx.hints.get(self.akey(mono))
            step = hint if hint is not None else abs(c)
            sv = self.new_var('sin', 'aux')
            cv = self.new_var('cos', 'aux')
            zs, zc = self.z[sv], self.z[cv]
            self.defs[sv] = [zs * zs + zc * zc == 1]
            self.defs[cv] = [zs * zs + zc * zc == 1]
            self.rules[sv] = (2, ONE.add(Poly.var(cv).mul(Poly.var(cv)), -1))
            ent = [step, Rat(Poly.var(sv)), Rat(Poly.var(cv)), sv, cv]
            self.angles[mono] = ent
        step = ent[0]
        k = c / step
        if k.denominator != 1:
            # refine: new step = gcd
            num = gcd((c.numerator * step.denominator), (step.numerator * c.denominator))
            den = c.denominator * step.denominator
            self.ctx.hints[self.akey(mono)] = abs(Fraction(num, den))
            raise Restart()
        return ent, k.numerator

    def multiple(self, s, c, k):
        if k < 0:
            ss, cc = self.multiple(s, c, -k)
            return self.neg(ss), cc
        rs, rc = R0, R1
        for _ in range(k):
            rs, rc = (self.add(self.mul(rs, c), self.mul(rc, s)), self.sub(self.mul(rc, c), self.mul(rs, s)))
        return rs, rc

    def sincos(self, x):
        if isinstance(x, Special):
            return NAN, NAN
        if x.den:
            raise Unsupported("trigonometric function of a quotient")
        s, c = R0, R1
        pim = ((self.pi, 1),) if self.pi is not None else None
        for m, co in x.num.t.items():
            co = Fraction(co)
            if m == ():
                if co == 0:
                    continue
                ent, k = self.unit(m, co)
                s2, c2 = self.multiple(ent[1], ent[2], k)
            elif m == pim:
                s2, c2 = self.exact_pi(co)
            else:
                ent, k = self.unit(m, co)
                s2, c2 = self.multiple(ent[1], ent[2], k)
            s, c = (self.add(self.mul(s, c2), self.mul(c, s2)), self.sub(self.mul(c, c2), self.mul(s, s2)))
        return s, c

    def sin(self, x):
        return self.sincos(x)[0]

    def cos(self, x):
        return self.sincos(x)[1]

    def tan(self, x):
        s, c = self.sincos(x)
        return self.div(s, c)

    def new_angle(self, name, s, c, lo, hi):
        """an angle with known sine and cosine, lo*pi <= angle <= hi*pi"""
        v = self.new_var(name, 'aux')
        pi = self.z[self.pivar()]
        z = self.z[v]
        self.defs[v] = [z >= z3.Q(lo.numerator, lo.denominator) * pi, z <= z3.Q(hi.numerator, hi.denominator) * pi]
        mono = ((v, 1),)
        hint = self.ctx.hints.get(self.akey(mono))
        if hint is None or hint == 1:
            self.angles[mono] = [Fraction(1), s, c, None, None]
        elif hint == Fraction(1, 2):
            # cos(t/2) = +-sqrt((1+c)/2): t/2 in [lo/2,hi/2]*pi within (-pi/2, pi/2] => cos >= 0
            half = rconst(Fraction(1, 2))
            c2 = self.sqrt(self.mul(half, self.add(R1, c)))
            s2 = self.sqrt(self.mul(half, self.sub(R1, c)))
            if lo < 0 and self.ctx.decide(self.cmp0(s, '<')):
                s2 = self.neg(s2)
            self.angles[mono] = [hint, s2, c2, None, None]
        elif hint == Fraction(1, 3) and lo == 0 and hi == 1:
            cv = self.new_var('cos3', 'aux')
            sv = self.new_var('sin3', 'nonneg')
            zc, zs = self.z[cv], self.z[sv]
            # 4c^3 - 3c = w, c in [1/2,1]
            cr = Rat(Poly.var(cv))
            w = c
            e = self.sub(self.sub(self.mul(rconst(4), self.mul(cr, self.mul(cr, cr))), self.mul(rconst(3), cr)), w)
            eq = self.mkatom(e.num, '==')
            self.defs[cv] = [zc >= z3.Q(1, 2), zc <= 1, eq]
            if not w.den:
                self.rules[cv] = (3, cr.num.scale(Fraction(3, 4)).add(w.num.scale(Fraction(1, 4))))
            self.defs[sv] = [zs >= 0, zs * zs + zc * zc == 1]
            self.rules[sv] = (2, ONE.add(Poly.var(cv).mul(Poly.var(cv)), -1))
            self.angles[mono] = [hint, Rat(Poly.var(sv)), cr, None, None]
        else:
            raise Unsupported("angle fraction %s" % hint)
        return Rat(Poly.var(v))

    def acos(self, w):
        if isinstance(w, Special):
            return NAN
        if w.is_const():
            c = w.num.const_value()
            t = {1: Fraction(0), -1: Fraction(1), 0: Fraction(1, 2), Fraction(1, 2): Fraction(1, 3),
                 Fraction(-1, 2): Fraction(2, 3)}.get(c)
            if t is not None:
                return Rat(Poly.var(self.pivar()).scale(t)) if t else R0
        if not self.ctx.decide(self.band(self.cmp('ole', w, R1), self.cmp('oge', w, rconst(-1)))):
            return NAN
        s = self.sqrt(self.sub(R1, self.mul(w, w)))
        return self.new_angle('acos', s, w, Fraction(0), Fraction(1))

    def asin(self, w):
        if isinstance(w, Special):
            return NAN
        if w.is_const():
            c = w.num.const_value()
            t = {1: Fraction(1, 2), -1: Fraction(-1, 2), 0: Fraction(0), Fraction(1, 2): Fraction(1, 6),
                 Fraction(-1, 2): Fraction(-1, 6)}.get(c)
            if t is not None:
                return Rat(Poly.var(self.pivar()).scale(t)) if t else R0
        if not self.ctx.decide(self.band(self.cmp('ole', w, R1), self.cmp('oge', w, rconst(-1)))):
            return NAN
        c = self.sqrt(self.sub(R1, self.mul(w, w)))
        return self.new_angle('asin', w, c, Fraction(-1, 2), Fraction(1, 2))

    def atan2(self, y, x):
        if isinstance(y, Special) or isinstance(x, Special):
            raise Unsupported("atan2 of a non-finite value")
        sy = self.sgn(y)
        sx = self.sgn(x)
        if sy == 0:
            return R0 if sx >= 0 else Rat(Poly.var(self.pivar()))
        if sx == 0:
            return Rat(Poly.var(self.pivar()).scale(Fraction(sy, 2)))
        r = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)))
        lo = {(1, 1): 0, (1, -1): Fraction(1, 2), (-1, 1): Fraction(-1, 2), (-1, -1): -1}[(sy, sx)]
        lo = Fraction(lo)
        return self.new_angle('atan2', self.div(y, r), self.div(x, r), lo, lo + Fraction(1, 2))

    def atan(self, a):
        if isinstance(a, Special):
            raise Unsupported("atan")
        return self.atan2(a, R1)

    # ---------------------------------------------------------------- integer-valued functions
    def floor(self, a):
        if isinstance(a, Special):
            return a
        if a.is_const():
            return rconst(math.floor(Fraction(a.num.const_value())))
        a = self.mk(a.num, a.den)
        if not a.den and a.num.t and all(self.kind[v] == 'int' for v in a.num.variables()) and \
                all(isinstance(c, int) for c in a.num.t.values()):
            return a
        key = ('floor', a.num, tuple(sorted(((f.key().__hash__(), e) for f, e in a.den.items()))))
        if key in self.fz:
            return self.fz[key]
        v = self.new_var('floor', 'int')
        n = Rat(Poly.var(v))
        lo = self.cmp('ole', n, a)
        hi = self.cmp('olt', a, self.add(n, R1))
        self.defs[v] = [lo, hi]
        self.fz[key] = n
        return n

    def ceil(self, a):
        if isinstance(a, Special):
            return a
        return self.neg(self.floor(self.neg(a)))

    def trunc(self, a):
        if isinstance(a, Special):
            return a
        if a.is_const():
            return rconst(math.trunc(Fraction(a.num.const_value())))
        return self.floor(a) if self.sgn(a) >= 0 else self.ceil(a)

    def round(self, a):
        if isinstance(a, Special):
            return a
        h = rconst(Fraction(1, 2))
        if a.is_const():
            c = Fraction(a.num.const_value())
            return rconst(math.floor(c + Fraction(1, 2)) if c >= 0 else math.ceil(c - Fraction(1, 2)))
        return self.floor(self.add(a, h)) if self.sgn(a) >= 0 else self.ceil(self.sub(a, h))

    def fptosi(self, a, bits, signed=True):
        if isinstance(a, Special):
            raise Unsupported("conversion of a non-finite value to an integer")
        t = self.trunc(a)
        if t.is_const():
            return int(t.num.const_value()) & ((1 << bits) - 1)
        return IntOf(t, bits)

    def sitofp(self, i, bits, signed, f32):
        if isinstance(i, IntOf):
            return i.r
        if isinstance(i, int):
            if signed and i >> (bits - 1):
                i -= 1 << bits
            return rconst(i)
        raise Unsupported("symbolic integer to floating point in Real mode")

    def convert(self, a, f32):
        return a

    def pow(self, a, b):
        if isinstance(b, Rat) and b.is_const():
            e = Fraction(b.num.const_value())
            if e.denominator == 1 and abs(e) <= 16:
                r = R1
                for _ in range(abs(e.numerator)):
                    r = self.mul(r, a)
                return r if e >= 0 else self.div(R1, r)
            if e == Fraction(1, 2):
                return self.sqrt(a)
        raise Unsupported("pow")

    # ---------------------------------------------------------------- booleans
    def band(self, a, b):
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return z3.And(a, b)

    def bor(self, a, b):
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
        return z3.Or(a, b)

    def bnot(self, a):
        if isinstance(a, bool):
            return not a
        return z3.Not(a)

    def simp(self, e):
        """re-normalise the atoms of a formula under the current rewriting rules"""
        i = e.get_id()
        at = self.atom.get(i)
        if at is not None:
            p = at[0]
            if self.rules.keys().isdisjoint(p.variables()):
                return e
            r = self.reduce(p)
            if r == p:
                return e
            x = self.mkatom(r, at[1])
            return z3.BoolVal(x) if isinstance(x, bool) else x
        if z3.is_not(e):
            c = self.simp(e.arg(0))
            if z3.is_true(c):
                return z3.BoolVal(False)
            if z3.is_false(c):
                return z3.BoolVal(True)
            return z3.Not(c)
        if z3.is_and(e) or z3.is_or(e):
            cs = [self.simp(c) for c in e.children()]
            return z3.simplify(z3.And(*cs) if z3.is_and(e) else z3.Or(*cs))
        if e.num_args() == 0:
            return e
        return e

    def vars_of(self, e):
        i = e.get_id()
        r = self.vcache.get(i)
        if r is not None:
            return r
        s = set()
        st = [e]
        seen = set()
        while st:
            x = st.pop()
            xi = x.get_id()
            if xi in seen:
                continue
            seen.add(xi)
            c = self.vcache.get(xi)
            if c is not None:
                s |= c
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s.add(int(x.decl().name().rsplit('#', 1)[1]))
            else:
                st.extend(x.children())
        r = frozenset(s)
        self.vcache[i] = r
        self.keep.append(e)
        return r

    # ---------------------------------------------------------------- path condition
    def add_pc(self, e):
        if z3.is_and(e):
            for c in e.children():
                self.add_pc(c)
            return
        if z3.is_not(e) and z3.is_or(e.arg(0)):
            for c in e.arg(0).children():
                self.add_pc(z3.Not(c))
            return
        if z3.is_not(e) and z3.is_not(e.arg(0)):
            return self.add_pc(e.arg(0).arg(0))
        if z3.is_true(e):
            return
        self.pc.append(e)
        at = self.atom.get(e.get_id())
        if at is not None and at[1] == '==':
            self.install_rule(at[0])

    def rule_cycle(self, v, p):
        """would a rule for v with the other variables of p on the right hand side be cyclic?"""
        seen, todo = set(), [x for x in p.variables() if x != v]
        while todo:
            x = todo.pop()
            if x == v:
                return True
            if x in seen:
                continue
            seen.add(x)
            if x in self.rules:
                todo.extend(self.rules[x][1].variables())
        return False

    def install_rule(self, p):
        p = self.reduce(p)
        if p.is_const():
            return
        cnt = {}
        for m in p.t:
            for v, e in m:
                cnt[v] = cnt.get(v, 0) + 1
        best = None
        for m, c in p.t.items():
            if len(m) == 1:
                v, e = m[0]
                if cnt[v] == 1 and v not in self.rules and self.kind[v] in ('input',) and not self.rule_cycle(v, p):
                    if best is None or (e, -v) < (best[1], -best[0]):
                        best = (v, e, c)
        if best is None:
            return
        v, e, c = best
        rest = Poly({m: k for m, k in p.t.items() if m != ((v, e),)}).scale(-Fraction(1) / c)
        self.rules[v] = (e, rest)

    def closure(self, exprs, use_pc=True):
        """constraints (path condition + definitions) connected to exprs"""
        vs = set()
        for e in exprs:
            vs |= self.vars_of(e)
        out = []
        used = set()
        done_defs = set()
        changed = True
        while changed:
            changed = False
            for v in list(vs):
                if v in self.defs and v not in done_defs:
                    done_defs.add(v)
                    for d in self.defs[v]:
                        if isinstance(d, bool):
                            continue
                        out.append(d)
                        n = self.vars_of(d) - vs
                        if n:
                            vs |= n
                            changed = True
            if use_pc:
                for i, c in enumerate(self.pc):
                    if i in used:
                        continue
                    w = self.vars_of(c)
                    if w & vs:
                        used.add(i)
                        out.append(c)
                        if w - vs:
                            vs |= w
                            changed = True
        return out

    def all_cons(self):
        return self.closure(list(self.pc) + [z3.BoolVal(True)], True)

    def run(self, cons, ms, how):
        st = self.ctx.stats
        t0 = time.time()
        try:
            if how == 'nlsat':
                r = solver.z3_check(cons, ms, 'QF_NRA')
            elif how == 'smt':
                r = solver.z3_check(cons, ms)
            else:
                r = solver.cvc5_check(cons, ms)
        except z3.Z3Exception:
            r = ('unknown', None)
        st.time += time.time() - t0
        st.queries += 1
        setattr(st, r[0], getattr(st, r[0]) + 1)
        return r

    # ---------------------------------------------------------------- linear abstraction
    def lin(self, e):
        """e with every nonlinear monomial replaced by a fresh real (an over-approximation), or None"""
        i = e.get_id()
        k = (i, len(self.rules))
        if k in self.lincache:
            return self.lincache[k]
        r = None
        at = self.atom.get(i)
        if at is not None:
            p = self.reduce(at[0])
            z = self.plin(p)
            r = z < 0 if at[1] == '<' else (z <= 0 if at[1] == '<=' else z == 0)
        elif z3.is_not(e):
            c = self.lin(e.arg(0))
            r = None if c is None else z3.Not(c)
        elif z3.is_and(e) or z3.is_or(e):
            cs = [self.lin(c) for c in e.children()]
            if all(c is not None for c in cs):
                r = z3.And(*cs) if z3.is_and(e) else z3.Or(*cs)
            elif z3.is_and(e) and any(c is not None for c in cs):
                r = None
        elif z3.is_true(e) or z3.is_false(e):
            r = e
        self.lincache[k] = r
        self.keep.append(e)
        return r

    def plin(self, p):
        terms = []
        for m, c in sorted(p.t.items()):
            c = Fraction(c)
            q = z3.Q(c.numerator, c.denominator)
            if not m:
                terms.append(q)
                continue
            if len(m) == 1 and m[0][1] == 1:
                x = self.z[m[0][0]]
            else:
                x = self.monos.get(m)
                if x is None:
                    x = z3.Real('mono!%d' % len(self.monos))
                    self.monos[m] = x
                    if all(ex % 2 == 0 or self.kind[v] == 'nonneg' for v, ex in m):
                        self.monopos.append(x >= 0)
            terms.append(q * x)
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def lin_unsat(self, cons):
        t0 = time.time()
        out = []
        for c in cons:
            l = self.lin(c)
            if l is not None:
                out.append(l)
        s = z3.SimpleSolver()
        s.set('timeout', 500)
        s.add(*out)
        s.add(*self.monopos)
        r = s.check()
        st = self.ctx.stats
        st.time += time.time() - t0
        st.queries += 1
        if r == z3.unsat:
            st.unsat += 1
            return True
        st.unknown += 1
        return False

    def feasible(self, cond, quick=False):
        if isinstance(cond, bool):
            return cond
        cons = self.closure([cond]) + [cond]
        if self.lin_unsat(cons):
            return False
        ms = self.ctx.cfg.get('feas_ms', 400)
        if quick:
            ms = min(ms, 150)
        r, _ = self.run(cons, ms, 'smt')
        if r == 'unknown':
            r, _ = self.run(cons, ms * 2, 'nlsat')
        return r != 'unsat'

    # ---------------------------------------------------------------- obligations
    def check(self, cond, cid):
        ctx = self.ctx
        if isinstance(cond, int) and not isinstance(cond, bool):
            cond = bool(cond)
        if isinstance(cond, bool):
            neg = z3.BoolVal(not cond)
        else:
            cond = self.simp(cond)
            neg = z3.Not(cond)
        big = ctx.cfg.get('check_ms', 8000)
        if z3.is_true(neg) or (isinstance(cond, bool) and not cond):
            status = 'sat'
        else:
            status = 'unknown'
            if isinstance(cond, bool) or z3.is_true(cond):
                status, _ = self.run([z3.BoolVal(False)], 1000, 'smt')
            else:
                base = self.closure([neg], use_pc=False) + [neg]
                cons = self.closure([neg]) + [neg]
                plan = []
                if len(base) < len(cons):
                    plan.append((base, 300, 'smt'))
                plan += [(cons, 1000, 'smt'), (cons, 2000, 'nlsat'), (cons, big, 'nlsat'), (cons, big, 'smt'),
                         (cons, big, 'cvc5')]
                if self.lin_unsat(cons):
                    status, plan = 'unsat', []
                for cs, ms, how in plan:
                    r, m = self.run(cs, ms, how)
                    if r == 'unsat' or (r == 'sat' and cs is cons):
                        status = r
                        break
        if status == 'unsat':
            ctx.proved[cid] = ctx.proved.get(cid, 0) + 1
            if not isinstance(cond, bool) and not z3.is_true(cond) and ctx.cfg.get('lemmas', True):
                self.add_pc(cond)
            return
        if ctx.cfg.get('first_bad') and cid in ctx.cfg['first_bad']:
            return
        # a candidate counterexample (or undecided): get concrete inputs on the whole path condition
        models = self.find_models(neg)
        if models:
            ctx.bad.append(Obligation(cid, 'sat', models, prefix=tuple(ctx.trace)))
        else:
            # status 'sat' without a model on the whole path condition, or unknown
            if status == 'sat' and self.pc_unsat(neg):
                ctx.proved[cid] = ctx.proved.get(cid, 0) + 1
                return
            ctx.bad.append(Obligation(cid, 'unknown', None, why=status, prefix=tuple(ctx.trace)))

    def pc_unsat(self, neg):
        cons = self.closure(list(self.pc) + [neg]) + [neg]
        for how in ('smt', 'nlsat', 'cvc5'):
            r, _ = self.run(cons, self.ctx.cfg.get('check_ms', 8000), how)
            if r == 'unsat':
                return True
            if r == 'sat':
                return False
        return False

    def zval(self, m, v):
        x = m.eval(self.z[v], model_completion=True)
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_algebraic_value(x):
            a = x.approx(25)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return None

    def find_models(self, neg, seeds=3):
        """several candidate input assignments satisfying pc & neg, preferably with small dyadic values"""
        ctx = self.ctx
        cons = self.closure(list(self.pc) + [neg]) + list() + ([neg] if not z3.is_true(neg) else [])
        t_end = time.time() + ctx.cfg.get('model_s', 25)
        out = []
        inputs = [v for (_, t, v) in ctx.inputs if t != 'c']
        used = set()
        for c in cons:
            used |= self.vars_of(c)
        used = [v for v in inputs if v in used]

        def solve(extra, ms):
            for how in ('nlsat', 'smt'):
                r, m = self.run(cons + extra, ms, how)
                if r != 'unknown':
                    return r, m
            return 'unknown', None
        r, m0 = solve([], 4000)
        if r == 'unsat':
            return []
        rng = random.Random(ctx.cfg.get('seed', 1) * 7919 + 13)
        # first a candidate that keeps its distance from the boundaries of the path condition, where rounding decides
        slack, ms = [], None
        atoms = [x for x in (slack_of(c, z3.Q(1, 16)) for c in cons) if x is not None] if seeds > 1 else []
        if atoms:
            t_slack = time.time() + 5
            rr, ms = solve(atoms, 1500)
            if rr == 'sat':
                slack = atoms
            else:
                ms = None
                for x in reversed(atoms):
                    if time.time() > t_slack:
                        break
                    rr, mm = solve(slack + [x], 200)
                    if rr == 'sat':
                        slack.append(x)
                        ms = mm
        for att in range(-1 if ms is not None else 0, 12):
            if time.time() > t_end or len(out) >= seeds:
                break
            m = ms if att < 0 else m0 if att == 0 else None
            fixed = list(slack) if att < 0 else []
            order = list(used)
            rng.shuffle(order)
            if m is None and att > 0:
                # partial concretisation to get diverse / easier queries
                keepfree = max(0, min(len(order), 1 + att % 3))
                if m0 is None or att % 2:
                    for v in order[keepfree:]:
                        val = rng.choice([0, 1, 2, 3, -1, -2, 4, 5, -3, 7, -4])
                        e = self.z[v] == val
                        rr, mm = solve(fixed + [e], 300)
                        if rr == 'sat':
                            fixed.append(e)
                            m = mm
                if m is None:
                    if m0 is None:
                        rr, m = solve(fixed, 3000)
                        if rr != 'sat':
                            m = None
                    else:
                        m = m0
            if m is None:
                continue
            # round the model to nice values
            for v in order:
                if time.time() > t_end:
                    break
                x = self.zval(m, v)
                if x is None:
                    continue
                done = False
                if x.denominator == 1 and abs(x) < 1000:
                    cands = [x]
                else:
                    cands = []
                    for d in (1, 2, 8, 64):
                        c = Fraction(round(x * d), d)
                        if c not in cands:
                            cands.append(c)
                for c in cands:
                    e = self.z[v] == z3.Q(c.numerator, c.denominator)
                    rr, mm = solve(fixed + [e], 250)
                    if rr == 'sat':
                        fixed.append(e)
                        m = mm
                        break
            vals = []
            for (name, ty, v) in ctx.inputs:
                if ty == 'c':
                    vals.append((name, ty, v))
                    continue
                vals.append((name, ty, self.input_value(m, v)))
            key = str(vals)
            if key not in [str(o) for o in out]:
                out.append(vals)
        return out

    def input_value(self, m, v):
        # an angle input: recover the angle from the values of its sine and cosine
        for mono, ent in self.angles.items():
            if ent[3] is None:
                continue
            d = dict(mono)
            if v in d and d[v] == 1 and all(w == v or w == self.pi for w in d):
                if self.pi in d and d[self.pi] != 1:
                    continue
                s, c = float(self.zval(m, ent[3])), float(self.zval(m, ent[4]))
                a = math.atan2(s, c) / float(ent[0])
                if self.pi in d:
                    a /= math.pi
                # respect the value's own constraints modulo full turns
                x = self.zval(m, v)
                if x is not None:
                    per = 2 * math.pi / float(ent[0]) / (math.pi if self.pi in d else 1)
                    a += per * round((float(x) - a) / per)
                return Fraction(a)
        return self.zval(m, v)

    def assume(self, cond):
        if isinstance(cond, int):
            if not cond:
                raise Infeasible()
            return
        cond = self.simp(cond)
        if z3.is_false(cond):
            raise Infeasible()
        if z3.is_true(cond):
            return
        self.add_pc(cond)
        self.ctx.assumed += 1

    def check_eq(self, a, b, cid):
        if isinstance(a, Special) or isinstance(b, Special):
            self.check(a is b, cid)
            return
        self.check(self.cmp0(self.sub(a, b), '=='), cid)

    def check_le(self, a, b, cid):
        if isinstance(a, Special) or isinstance(b, Special):
            self.check(self.cmp('ole', a, b), cid)
            return
        self.check(self.cmp0(self.sub(a, b), '<='), cid)

    # conversions between bits and values
    def from_bits(self, i, f32):
        if isinstance(i, RawBits):
            return i.v
        if isinstance(i, int):
            v = struct.unpack('<f', struct.pack('<I', i))[0] if f32 else struct.unpack('<d', struct.pack('<Q', i))[0]
            return self.const(v, f32)
        raise Unsupported("bit pattern reinterpreted as floating point in Real mode")

    def to_bits(self, v, f32):
        return RawBits(v, 'f32' if f32 else 'f64')

    def select(self, c, a, b):
        return None
