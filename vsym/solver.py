"""Solver back ends: z3 (in process) and cvc5 (in process) on the same z3 terms."""
import os
import time
import z3


def z3_check(cons, timeout_ms, logic=None, want_model=False):
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", int(timeout_ms))
    for c in cons:
        s.add(c)
    r = s.check()
    if r == z3.sat:
        try:
            return 'sat', s.model()
        except z3.Z3Exception:
            return 'unknown', None
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def tactic_check(cons, timeout_ms, tactic):
    s = tactic.solver()
    s.set("timeout", int(timeout_ms))
    for c in cons:
        s.add(c)
    r = s.check()
    if r == z3.sat:
        return 'sat', s.model()
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def cvc5_check(cons, timeout_ms, logic='QF_NRA'):
    """unsat/sat/unknown only (no model); uses the cvc5 python API with SMT-LIB text"""
    try:
        import cvc5
    except ImportError:
        return 'unknown', None
    s = z3.Solver()
    for c in cons:
        s.add(c)
    txt = s.to_smt2()
    txt = "\n".join(l for l in txt.split("\n") if not l.startswith("(set-info") and not l.startswith("; "))
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption("tlimit-per", str(int(timeout_ms)))
    slv.setOption("nl-cov", "true")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic %s)\n" % logic + txt, "q")
    sm = p.getSymbolManager()
    res = 'unknown'
    while True:
        try:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = str(cmd.invoke(slv, sm)).strip()
        except Exception:       # e.g. an operator outside the logic
            return 'unknown', None
        if out.startswith('(error'):
            return 'unknown', None
        if out in ('sat', 'unsat', 'unknown'):
            res = out
    return res, None
