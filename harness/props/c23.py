"""C23: shadow prices are the marginal values of constraints."""
import math
import random

from hypothesis import strategies as st

from harness import core, fast, helper, lpcase, mg, milp
from harness.core import require

PID = "C23"
RULE = (
    "Random linear energy systems (as C13), plus user constraints written in four orientations and "
    "optionally a maximising objective, go through a history of 1-3 solves, each with its own "
    "solver (glpk, gurobi, cbc), set of requested constraints (existing, unknown, none) and input "
    "changes in between. A price y of a row with optimum v must satisfy v(b+e) >= v(b)+y*e for "
    "e in +-0.02, +-1 (reversed when maximising), each v(b+e) solved by HiGHS on the problem read "
    "from the backend. Non-trivial: at least one non-zero price verified."
)
IID_ONLY = True
EXAMPLES = {"quick": 150, "thorough": 10000}
SECONDS = {"quick": 36, "thorough": 900}
NAMES = [
    "system_balance", "balance_demand_equals", "balance_demand_max", "flow_out_max", "flow_in_max",
    "storage_max", "balance_storage", "balance_supply_no_storage", "source_availability_supply",
    "balance_conversion", "balance_transmission", "export_balance", "cap_all", "cap_rev",
    "share", "floor",
]


def setup(tier):
    fast.all()


def user_math(c):
    m = {"constraints": {
        "cap_all": {
            "foreach": ["nodes", "techs", "timesteps"], "where": "base_tech==supply",
            "equations": [{"expression": f"sum(flow_out, over=carriers) <= {c['cap']}"}]},
        "cap_rev": {
            "foreach": ["nodes", "carriers"], "where": "carrier_out",
            "equations": [{"expression":
                           f"{c['cap'] * 3} >= sum(sum(flow_out, over=timesteps), over=techs)"}]},
        "share": {
            "foreach": ["nodes", "techs"], "where": "base_tech==supply",
            "equations": [{"expression": "sum(sum(flow_out, over=timesteps), over=carriers)"
                           " >= 0.1 * sum(flow_cap, over=carriers) - 0.5"}]},
        "floor": {
            "where": "True",
            "equations": [{"expression": "-3 <= sum(flow_cap, over=[nodes, techs, carriers]) - 1"}]},
    }, "objectives": {
        "negative": {
            "sense": "maximise",
            "equations": [
                {"where": "any(cost, over=[nodes, techs, costs])",
                 "expression": "-1 * sum(sum(cost, over=[nodes, techs])"
                 " * objective_cost_weights, over=costs) + $unmet"},
                {"where": "NOT any(cost, over=[nodes, techs, costs])", "expression": "$unmet"}],
            "sub_expressions": {"unmet": [
                {"where": "config.ensure_feasibility==True",
                 "expression": "-1 * sum(sum(unmet_demand - unused_supply, over=[carriers, nodes])"
                 " * timestep_weights, over=timesteps) * bigM"},
                {"where": "NOT config.ensure_feasibility==True", "expression": "0"}]}}}}
    for n in list(m["constraints"]):
        if n not in c["user"]:
            del m["constraints"][n]
    if not c["maximise"]:
        del m["objectives"]
    return {k: v for k, v in m.items() if v}


@st.composite
def _case(draw):
    kind = draw(st.integers(0, 9))
    if kind == 9:
        spec = draw(milp.milp_spec())
    elif kind == 8:
        spec = draw(mg.clustered_spec(max_extra=1))
    else:
        spec = draw(mg.energy_spec(max_extra=3, force=draw(st.sampled_from(
            [(), ("storage",), ("conversion",)]))))
    backend = draw(st.sampled_from(["pyomo", "pyomo", "gurobi"]))
    steps = []
    for i in range(draw(st.sampled_from([1, 1, 2, 3]))):
        solver = "gurobi" if backend == "gurobi" else draw(st.sampled_from(
            ["glpk", "glpk", "glpk", "cbc"]))
        tracked = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=6))
        if draw(st.integers(0, 3)) == 3:
            tracked.append("no_such_constraint")
        if draw(st.integers(0, 5)):
            tracked += [x for x in ("system_balance", "balance_demand") if x not in tracked]
        steps.append({"solver": solver, "tracked": tracked,
                      "scale": draw(st.sampled_from([None, None, 0.5, 2])) if i else None})
    return {"spec": spec, "backend": backend, "steps": steps, "milp": kind == 9,
            "user": draw(st.lists(st.sampled_from(["cap_all", "cap_rev", "share", "floor"]),
                                  unique=True, max_size=2)),
            "cap": draw(st.sampled_from([1, 2.5, 6])), "maximise": draw(st.integers(0, 3)) == 3,
            "rows": draw(st.integers(0, 10**6))}


def strategy(tier):
    return _case()


def linear(p):
    """`lpcase.problem` as a HiGHS problem, with the position of every row."""
    keys = list(p["vars"])
    pos = {k: i for i, k in enumerate(keys)}
    rows, where = [], {}
    for k, (c, lo, hi) in p["rows"].items():
        where[k] = len(rows)
        rows.append(([pos[x] for x in c], list(c.values()), lo, hi))
    c, k0, sense = p["obj"]
    return {
        "lo": [p["vars"][k][0] for k in keys], "hi": [p["vars"][k][1] for k in keys],
        "int": [int(p["vars"][k][2]) for k in keys], "rows": rows,
        "obj": {pos[k]: sense * v for k, v in c.items()},
    }, where, k0, sense


def shifted(prob, i, e):
    rows = list(prob["rows"])
    c, v, lo, hi = rows[i]
    rows[i] = (c, v, lo + e, hi + e)
    return dict(prob, rows=rows)


def prices(res, name):
    return {k: float(v) for k, v in lpcase._cells(res[name]).items()}


def verify(m, case, step, rec):
    res = m.results
    p = lpcase.problem(m.backend)
    prob, where, k0, sense = linear(p)
    base = helper.solve(prob)
    if base["status"] == "limit":
        return 0
    tc = str(m.runtime.termination_condition)
    require((tc == "optimal") == (base["status"] == "optimal"),
            "solved with tracking: {}, but the problem is {}", tc, base["status"])
    if tc != "optimal":
        require(not len(res.data_vars), "results without an optimum")
        return 0
    v = base["obj"]
    active = "negative" if case["maximise"] else "min_cost_optimisation"
    require(active in res, "the objective is not reported")
    got = float(res[active])
    require(lpcase.close(got, sense * v + k0, 1e-5, 1e-4),
            "objective {} with prices requested, {} for the problem", got, sense * v + k0)
    has = {str(n)[13:] for n in res.data_vars if str(n).startswith("shadow_price_")}
    integer = any(prob["int"])
    exist = {k[0] for k in where if p["rows"][k][0]}
    if step["solver"] == "cbc" or integer:
        require(not has, "shadow prices reported with {}: {}",
                "cbc" if step["solver"] == "cbc" else "integer variables", sorted(has))
        rec.label("not available")
        return 0
    want = {n for n in step["tracked"] if n in exist}
    require(has <= {n for n in step["tracked"]}, "untracked shadow prices reported: {}",
            sorted(has - set(step["tracked"])))
    require(want <= has, "requested shadow prices missing: {}", sorted(want - has))
    rng = random.Random(case["rows"])
    nz = 0
    todo = []
    for n in sorted(want):
        got = prices(res, "shadow_price_" + n)
        rows = {k[1] for k in where if k[0] == n}
        full = {k[1] for k in where if k[0] == n and p["rows"][k][0]}
        require(set(got) <= rows, "shadow price of {} reported at {} where it does not exist", n,
                sorted(set(got) - rows)[:3])
        require(full <= set(got), "shadow price of {} missing at {}", n,
                sorted(full - set(got))[:3])
        require(all(math.isfinite(x) for x in got.values()), "shadow price of {} not finite", n)
        direct = {k: float(x) for k, x in lpcase._cells(m.backend.shadow_prices.get(n)).items()}
        for k, x in got.items():
            require(k in direct and lpcase.same(direct[k], x, 1e-6) or abs(x) < 1e-9,
                    "price of {} at {} is {} in the results, {} in the backend", n, k, x,
                    direct.get(k))
        ks = sorted(full)
        nonzero = [k for k in ks if abs(got[k]) > 1e-7]
        zero = [k for k in ks if abs(got[k]) <= 1e-7]
        pick = rng.sample(nonzero, min(4, len(nonzero))) + rng.sample(zero, min(2, len(zero)))
        for k in pick:
            todo.append((n, k, got[k]))
            nz += abs(got[k]) > 1e-7
    eps = (0.02, -0.02, 1.0, -1.0)
    ans = helper.ask([shifted(prob, where[n, k], e) for n, k, _ in todo for e in eps])
    for j, (n, k, y) in enumerate(todo):
        for i, e in enumerate(eps):
            a = ans[4 * j + i]
            if a["status"] in ("infeasible", "limit"):
                continue
            require(a["status"] == "optimal", "problem {} after shifting {}", a["status"], n)
            slope = sense * y
            tol = 2e-5 + 1e-7 * abs(v) + 1e-5 * abs(y * e)
            require(a["obj"] >= v + slope * e - tol,
                    "the shadow price of {} at {} is {}, but moving that constraint by {} changes"
                    " the optimum by {}", n, k, y, e, sense * (a["obj"] - v))
    return nz


def run(case, rec):
    spec = case["spec"]
    if not case["milp"]:
        spec = lpcase.repair(spec)
    # a larger penalty would turn solver tolerances on constraints into differences of the optimum
    spec = dict(spec, bigM=100)
    init = {"extra_math": ["user"]}
    if case["milp"]:
        init["extra_math"] = ["milp", "user"]
    math_def = user_math(case)
    if not math_def:
        init["extra_math"].remove("user")
    build = {"backend": case["backend"]}
    if case["maximise"]:
        build["objective"] = "negative"
    opts = {"init": init, "build": build}
    m = mg.read(spec, opts, math_dict={"user": math_def} if math_def else None)
    try:
        m.build()
    except Exception as exc:  # noqa: BLE001 - e.g. an expression without any variable
        rec.label("not built: " + type(exc).__name__)
        return
    lpcase.label_spec(spec, rec, detail=False)
    rec.label("backend " + case["backend"])
    rec.label("maximise", case["maximise"])
    nz = 0
    for i, s in enumerate(case["steps"]):
        if s["scale"] is not None:
            for q in ("cost_flow_out", "sink_use_equals", "cost_flow_cap"):
                if q in m.inputs and m.inputs[q].dtype.kind == "f":
                    m.backend.update_input(q, m.inputs[q] * s["scale"])
                    rec.label("input changed between solves")
        if case["backend"] == "gurobi":
            m.solve(force=True, solver="gurobi", shadow_prices=list(s["tracked"]))
        else:
            m.solve(force=True, solver=s["solver"], shadow_prices=list(s["tracked"]))
        rec.label(f"solve {i} {s['solver']}")
        nz += verify(m, case, s, rec)
    rec.nontrivial(nz > 0)
