"""Solving the programs that the library's constraints define."""
import numpy as np
import cvxpy as cp

from .core import Inconclusive

OK = ("optimal", "optimal_inaccurate")


def solve(prob, solvers=(cp.CLARABEL, cp.SCS)):
    """Solve with the first solver that gives a definite answer."""
    last = None
    for s in solvers:
        kw = {}
        if s == cp.SCS:
            kw = dict(eps=1e-7, max_iters=20000)
        try:
            prob.solve(solver=s, **kw)
        except cp.error.SolverError as e:
            last = str(e)
            continue
        except Exception as e:  # PanicException and the like from a solver
            if "Dimension" in str(e) or isinstance(e, (TypeError, ValueError, AttributeError)):
                raise
            last = str(e)
            continue
        if prob.status in ("optimal", "infeasible", "unbounded"):
            return prob.status, prob.value
        last = prob.status
        if prob.status == "optimal_inaccurate" and s == solvers[-1]:
            return prob.status, prob.value
    raise Inconclusive(f"no definite answer: {last}")


def maximize(obj, cons):
    p = cp.Problem(cp.Maximize(obj), cons)
    return solve(p)


def minimize(obj, cons):
    p = cp.Problem(cp.Minimize(obj), cons)
    return solve(p)


def judge(prob, ok, agree):
    """Judge an optimum, but only on an answer that is definite.

    ``ok(status, value)`` is the oracle. An answer that fails it counts only if
    a second solver gives the same answer to within ``agree``: interior point
    methods sometimes call a wrong answer to an ill-posed program optimal.
    Returns (verdict, status, value)."""
    st, v = solve(prob, (cp.CLARABEL,))
    if ok(st, v):
        return True, st, v
    try:
        prob.solve(solver=cp.SCS, eps=1e-8, max_iters=40000)
        st2, v2 = prob.status, prob.value
    except cp.error.SolverError as e:
        raise Inconclusive(f"unconfirmed: {e}")
    if st2 not in ("optimal", "infeasible", "unbounded"):
        raise Inconclusive(f"unconfirmed: {st2}")
    if ok(st2, v2):
        return True, st2, v2
    if st != st2 or (st == "optimal" and not abs(v - v2) <= agree):
        raise Inconclusive(f"solvers disagree: {st} {v}, {st2} {v2}")
    return False, st, v
