"""Path context: decisions, path condition, obligations.  Paths are explored by re-execution
from a decision prefix."""
import time
import z3


class PathEnd(Exception):
    pass


class Infeasible(PathEnd):
    pass


class Unsupported(Exception):
    pass


class BoundExceeded(Exception):
    pass


class Restart(Exception):
    """re-run the harness with refined hints"""


class MemError(Exception):
    pass


class MergeFail(Exception):
    """a call could not be summarised as one merged result; it is explored path by path instead"""


class Local:
    """decisions inside a call that is being summarised"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.alts = []
        self.trace = []      # [(cond, bool)]
        self.known = {}


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0

    def add(self, o):
        self.queries += o.queries
        self.sat += o.sat
        self.unsat += o.unsat
        self.unknown += o.unknown
        self.time += o.time


class Obligation:
    """an undischarged check: status 'sat' (with model) or 'unknown'"""

    def __init__(self, cid, status, model=None, why="", prefix=()):
        self.cid, self.status, self.model, self.why, self.prefix = cid, status, model, why, prefix


class Ctx:
    def __init__(self, prefix, cfg, hints):
        self.prefix = prefix
        self.pos = 0
        self.alts = []
        self.trace = []
        self.cfg = cfg
        self.hints = hints
        self.inputs = []          # (name, type, key)
        self.stats = Stats()
        self.proved = {}          # check id -> count
        self.bad = []             # Obligation
        self.reached = set()
        self.steps = 0
        self.funcs = {}
        self.assumed = 0
        self.dom = None
        self.deadline = None
        self.local = []

    # -- decisions
    def decide(self, cond, what=""):
        if cond is True or cond is False:
            return cond
        if isinstance(cond, int):
            return bool(cond)
        cond = self.dom.simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.local:
            return self.decide_local(cond)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
            self.dom.add_pc(cond if d else z3.Not(cond))
            return d
        if self.deadline and time.time() > self.deadline:
            raise BoundExceeded("time budget of the harness")
        t = self.dom.feasible(cond)
        f = self.dom.feasible(z3.Not(cond)) if t else True
        if t and f:
            self.alts.append(tuple(self.trace) + (False,))
            if len(self.trace) > self.cfg.get('max_decisions', 400):
                raise BoundExceeded("decision depth")
        d = bool(t)
        self.pos += 1
        self.trace.append(d)
        # prefix positions must match on re-execution even when only one side was feasible
        self.dom.add_pc(cond if d else z3.Not(cond))
        return d

    def decide_local(self, cond):
        for l in self.local:
            k = l.known.get(cond.get_id())
            if k is not None:
                return k
        loc = self.local[-1]
        if loc.pos < len(loc.prefix):
            d = loc.prefix[loc.pos]
        else:
            if len(loc.trace) >= 40:
                raise MergeFail()
            loc.alts.append(tuple(x[1] for x in loc.trace) + (False,))
            d = True
        loc.pos += 1
        loc.trace.append((cond, d))
        loc.known[cond.get_id()] = d
        n = z3.simplify(z3.Not(cond))
        loc.known[n.get_id()] = not d
        loc.trace[-1] = (cond, d, n)
        return d

    def choose(self, n):
        """n-way unconstrained choice 0..n-1 (used for small harness integers)"""
        if self.local:
            raise MergeFail()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for k in range(1, n):
                self.alts.append(tuple(self.trace) + (k,))
            d = 0
        self.pos += 1
        self.trace.append(d)
        return int(d)
