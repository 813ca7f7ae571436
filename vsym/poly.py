"""Multivariate polynomials over Q in normal form, and rational functions with factored
denominators.  This is the term representation of the Real-mode encoder: every floating point
value of the program under analysis is a rational function of the symbolic inputs and of the
auxiliary variables introduced for square roots, cube roots and sines/cosines."""
from fractions import Fraction
import z3


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def mono_deg(m):
    return sum(e for _, e in m)


class Poly:
    __slots__ = ("t", "_key", "_vars")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._vars = None

    @staticmethod
    def const(c):
        c = norm_c(c)
        return Poly({(): c} if c != 0 else {})

    @staticmethod
    def var(v):
        return Poly({((v, 1),): 1})

    def key(self):
        if self._key is None:
            self._key = frozenset(self.t.items())
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def variables(self):
        if self._vars is None:
            s = set()
            for m in self.t:
                for v, _ in m:
                    s.add(v)
            self._vars = s
        return self._vars

    def degree(self):
        return max((mono_deg(m) for m in self.t), default=0)

    def add(self, o, k=1):
        if len(o.t) > len(self.t) and k == 1:
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + k * c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = norm_c(n)
        return Poly(t)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: norm_c(c * k) for m, c in self.t.items()})

    def mul(self, o):
        if self.is_const():
            return o.scale(self.const_value())
        if o.is_const():
            return self.scale(o.const_value())
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                n = t.get(m, 0) + c1 * c2
                if n == 0:
                    t.pop(m, None)
                else:
                    t[m] = n
        return Poly({m: norm_c(c) for m, c in t.items()})

    def lead(self):
        # graded lexicographic leading term
        return max(self.t.items(), key=lambda mc: (mono_deg(mc[0]), mc[0]))

    def exact_div(self, d):
        """self / d if d divides self, otherwise None."""
        if d.is_const():
            return self.scale(Fraction(1) / d.const_value())
        if self.is_zero():
            return self
        if len(d.t) > len(self.t) * 4 or d.degree() > self.degree():
            return None
        if not d.variables() <= self.variables():
            return None
        # use pure lex order for division
        def lex_lead(t, order):
            return max(t, key=lambda m: tuple(dict(m).get(v, 0) for v in order))
        order = sorted(self.variables())
        idx = {v: i for i, v in enumerate(order)}
        n = len(order)

        def vec(m):
            r = [0] * n
            for v, e in m:
                r[idx[v]] = e
            return tuple(r)
        num = {vec(m): c for m, c in self.t.items()}
        den = {vec(m): c for m, c in d.t.items()}
        dl = max(den)
        dc = den[dl]
        q = {}
        steps = 0
        limit = 4 * len(num) + 50
        while num:
            steps += 1
            if steps > limit:
                return None
            l = max(num)
            diff = tuple(a - b for a, b in zip(l, dl))
            if min(diff) < 0:
                return None
            c = Fraction(num[l]) / dc
            c = norm_c(c)
            q[diff] = c
            for m, k in den.items():
                mm = tuple(a + b for a, b in zip(m, diff))
                x = num.get(mm, 0) - c * k
                if x == 0:
                    num.pop(mm, None)
                else:
                    num[mm] = norm_c(x)
        return Poly({tuple((order[i], e) for i, e in enumerate(v) if e): c for v, c in q.items()})

    def canon(self):
        """(canonical primitive poly, constant factor k) with self = k * canonical."""
        if self.is_zero():
            return self, 1
        cs = [Fraction(c) for c in self.t.values()]
        from math import gcd
        g = 0
        l = 1
        for c in cs:
            g = gcd(g, abs(c.numerator))
            l = l * c.denominator // gcd(l, c.denominator)
        k = Fraction(g, l)
        _, lc = self.lead()
        if lc < 0:
            k = -k
        return self.scale(1 / k), norm_c(k)

    def evalf(self, env):
        s = Fraction(0)
        for m, c in self.t.items():
            p = Fraction(c)
            for v, e in m:
                p *= env[v] ** e
            s += p
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(
            f"{c}" + "".join(f"*v{v}" + (f"^{e}" if e > 1 else "") for v, e in m)
            for m, c in sorted(self.t.items()))


ZERO = Poly({})
ONE = Poly.const(1)


class Rat:
    """num / prod(f**e for f,e in den)"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def __repr__(self):
        if not self.den:
            return f"({self.num})"
        return f"({self.num})/({self.den})"

    def is_const(self):
        return not self.den and self.num.is_const()
