"""C13: every reported solution is physically and financially consistent."""
from hypothesis import strategies as st

from harness import fast, lpcase, mg, reflp
from harness.core import require

PID = "C13"
RULE = (
    "Random small energy systems (as C14, each solver cbc/glpk/gurobi, ensure_feasibility on/off) "
    "are built and solved; every reference row (balances, efficiencies, limits, storage, ramping, "
    "area, export, systemwide), variable bound and cost expression is evaluated at the reported "
    "values, and the objective recomputed. Non-trivial: optimal with some non-zero flow."
)
IID_ONLY = True
EXAMPLES = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 36, "thorough": 900}


def setup(tier):
    fast.all()


@st.composite
def _case(draw):
    spec = draw(mg.energy_spec(max_extra=6, force=draw(st.sampled_from([
        (), ("storage",), ("conversion",), ("storage", "conversion", "supply")]))))
    if draw(st.integers(0, 5)) == 5:
        spec = draw(mg.clustered_spec(max_extra=2, force=("storage",)))
    spec["backend"] = draw(st.sampled_from(["pyomo", "pyomo", "gurobi"]))
    return spec


def strategy(tier):
    return _case()


def run(spec, rec):
    spec = lpcase.repair(spec)
    lp = reflp.build(spec)
    times = mg.times(spec)
    opts = {}
    if spec.get("backend") == "gurobi":
        opts = {"build": {"backend": "gurobi"}, "solve": {"solver": "gurobi"}}
    m = lpcase.build_model(spec, opts)
    m.solve()
    lpcase.label_spec(spec, rec)
    rec.label("backend " + spec.get("backend", "pyomo"))
    if str(m.runtime.termination_condition) != "optimal":
        require(not len(m.results.data_vars), "results reported without an optimum")
        rec.label("not optimal")
        return
    x = lpcase.check_solution(m, spec, lp, times)
    got = lpcase.reported_objective(m, spec)
    want = sum(v * x[k] for k, v in lp.obj.items()) + lp.obj0
    require(lpcase.close(got, want, 1e-5, 1e-4 * spec["bigM"] / 1e3),
            "reported costs and penalties give {} but the decisions give {}", got, want)
    obj = m.runtime.model_dump().get("objective_function_value")
    rec.nontrivial(any(abs(v) > 1e-6 for k, v in x.items() if k[0].startswith("flow_")))
