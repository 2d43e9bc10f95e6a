"""C14: the optimum equals that of the documented optimisation problem."""
from hypothesis import strategies as st

from harness import core, fast, helper, lpcase, mg, reflp
from harness.core import require

PID = "C14"
RULE = (
    "Random small energy systems (<= 3 nodes, <= 8 technologies of all base types, 2-5 possibly "
    "irregular steps, ~60 parameters incl. time series, node-level values and cost classes). The "
    "problem built by calliope and one written from the spec alone are compared by minimising 6 "
    "random linear objectives over both feasible sets with HiGHS, and calliope's own solve status "
    "and objective with the reference optimum. Infeasible specs are mostly repaired by dropping "
    "limits. Non-trivial: the reference problem has an optimum other than zero."
)
IID_ONLY = True
EXAMPLES = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 36, "thorough": 900}


def setup(tier):
    fast.all()


def strategy(tier):
    forces = [(), ("storage",), ("storage", "conversion"), ("conversion", "supply"),
              ("storage", "supply", "conversion")]
    return st.one_of(
        *[mg.energy_spec(max_extra=4, force=f) for f in forces],
        mg.clustered_spec(max_extra=2, force=("storage",)),
    )


def run(spec, rec):
    spec = lpcase.repair(spec)
    lp = reflp.build(spec)
    times = mg.times(spec)
    m = lpcase.build_model(spec)
    ex = lpcase.extract(m.backend, times)
    lpcase.same_region(ex, lp, core.case_hash(spec))
    ref = helper.solve(lp.dump())
    if ref["status"] == "limit":
        return
    m.solve()
    tc = str(m.runtime.termination_condition)
    rec.label("status " + ref["status"])
    lpcase.label_spec(spec, rec)
    if ref["status"] != "optimal":
        require(tc != "optimal", "solved to optimality although the documented problem is {}",
                ref["status"])
        return
    require(tc == "optimal", "termination '{}' although the documented problem has optimum {}",
            tc, ref["obj"] + lp.obj0)
    got, want = lpcase.reported_objective(m, spec), ref["obj"] + lp.obj0
    tol = 1e-5 * max(1.0, spec["bigM"] / 1e3)
    require(lpcase.close(got, want, 1e-5, tol),
            "optimum {} but the documented problem has optimum {}", got, want)
    rec.nontrivial(abs(want) > 1e-9)
    rec.label("unmet or unused penalised", abs(want) > 100 and spec["ensure"])
