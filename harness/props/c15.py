"""C15: integer and binary technology choices are honoured."""
from hypothesis import strategies as st

from harness import core, fast, helper, lpcase, mg, milp, reflp
from harness.core import require

PID = "C15"
RULE = (
    "Random small energy systems as in C14 with integer-capacity technologies (units bought, "
    "units operating per step, capacity and storage per unit, purchase costs, systemwide unit "
    "limits, minimum part load, asynchronous flows), built with the integer math. The built "
    "mixed-integer problem and one written from the spec are compared by minimising random "
    "objectives over both with HiGHS, the reported optimum with the reference optimum, and every "
    "row and integrality is evaluated at the reported solution. Non-trivial: an optimum in which "
    "some units are bought or some asynchronous switch matters."
)
IID_ONLY = True
EXAMPLES = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 36, "thorough": 900}


def setup(tier):
    fast.all()


def strategy(tier):
    forces = [(), ("storage",), ("conversion",), ("supply", "storage")]
    return st.one_of(*[milp.milp_spec(max_extra=2, tmax=4, force=f) for f in forces])


def run(spec, rec):
    spec = lpcase.repair(spec, milp)
    lp = reflp.build(spec, milp)
    times = mg.times(spec)
    m = lpcase.build_model(spec, {"init": {"extra_math": ["milp"]}})
    ex = lpcase.extract(m.backend, times)
    lpcase.same_region(ex, lp, core.case_hash(spec), n=5)
    ref = helper.solve(lp.dump())
    if ref["status"] == "limit":
        return
    m.solve()
    tc = str(m.runtime.termination_condition)
    rec.label("status " + ref["status"])
    lpcase.label_spec(spec, rec)
    if ref["status"] != "optimal":
        require(tc != "optimal", "solved to optimality although the documented problem is {}",
                ref["status"])
        return
    if tc == "maxTimeLimit":
        return
    require(tc == "optimal", "termination '{}' although the documented problem has optimum {}",
            tc, ref["obj"] + lp.obj0)
    x = lpcase.check_solution(m, spec, lp, times, 1e-4)
    got, want = lpcase.reported_objective(m, spec), ref["obj"] + lp.obj0
    require(lpcase.close(got, want, 1e-4, 1e-3),
            "optimum {} but the documented problem has optimum {}", got, want)
    rec.nontrivial(any(v > 0.5 for k, v in x.items() if k[0] in (
        "purchased_units", "async_flow_switch")))
    rec.label("several units", any(v > 1.5 for k, v in x.items() if k[0] == "purchased_units"))
    rec.label("fewer operating than bought", any(
        v < x["purchased_units", k[1], k[2]] - 0.5 for k, v in x.items()
        if k[0] == "operating_units"))
