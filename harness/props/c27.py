"""C27: all solver backends build and solve the same problem."""
import os
import re
import subprocess
import tempfile

from hypothesis import strategies as st

from harness import fast, helper, lpcase, mg, milp
from harness.core import require

PID = "C27"
RULE = (
    "Random small energy systems (continuous, clustered and integer) are built with the Pyomo and "
    "the Gurobi backend; variables, constraints, expressions and objective are compared cell by "
    "cell (indices, bounds, integrality, coefficients), also after the same input or bound "
    "updates. The problem is then inspected (names, components, LP export) in a generated order "
    "and compared with itself; exported LP files are solved by glpsol and the model by every "
    "solver, and all optima compared with HiGHS. Non-trivial: the optimum is not zero."
)
IID_ONLY = True
EXAMPLES = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 36, "thorough": 900}
INSPECT = ["verbose", "lp", "get_variable", "get_constraint", "get_expr", "bounds", "param",
           "objective"]
UPDATES = ["flow_cap_max", "sink_use_equals", "cost_flow_cap", "source_use_max", "flow_out_eff",
           "storage_cap_max", "cost_flow_out", "bigM", "storage_loss"]


def setup(tier):
    fast.all()


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(["lp", "lp", "cluster", "milp"]))
    kw = {"max_extra": 3, "tmax": 4, "force": draw(st.sampled_from([(), ("storage",),
                                                                    ("conversion",)]))}
    if kind == "lp":
        spec = draw(mg.energy_spec(**kw))
    elif kind == "cluster":
        spec = draw(mg.clustered_spec(max_extra=2, max_nodes=2))
    else:
        spec = draw(milp.milp_spec(**kw))
    spec["kind"] = kind
    spec["inspect"] = draw(st.lists(st.sampled_from(INSPECT), max_size=4))
    spec["updates"] = [[draw(st.sampled_from(UPDATES)), draw(st.sampled_from([0.5, 2, 3]))]
                       for _ in range(draw(st.integers(0, 2)))]
    spec["pyomo_solver"] = draw(st.sampled_from(["cbc", "glpk"]))
    spec["upper"] = draw(st.sampled_from([None, 4.0, 0.0]))
    return spec


def strategy(tier):
    return _case()


def inspect(b, what, tmp):
    pyomo = type(b).__name__.startswith("Pyomo")
    if what == "verbose":
        b.verbose_strings()
    elif what == "lp":
        b.to_lp(os.path.join(tmp, "inspect.lp"))
    elif what == "get_variable":
        for n in b.variables.data_vars:
            b.get_variable(n, as_backend_objs=False)
    elif what == "get_constraint" and pyomo:
        for n in list(b.constraints.data_vars)[:6]:
            b.get_constraint(n, as_backend_objs=False)
            b.get_constraint(n, as_backend_objs=False, eval_body=True)
    elif what == "get_expr":
        for n in b.global_expressions.data_vars:
            b.get_global_expression(n, as_backend_objs=False)
    elif what == "bounds":
        for n in list(b.variables.data_vars)[:6]:
            b.get_variable_bounds(n)
    elif what == "param":
        for n in list(b.parameters.data_vars)[:20]:
            b.get_parameter(n, as_backend_objs=False) if pyomo else b.get_parameter(n)
    elif what == "objective":
        b.set_objective(b.objective)


def glpsol(path):
    out = path + ".out"
    r = subprocess.run(["glpsol", "--lp", path, "-o", out, "--tmlim", "60"], capture_output=True,
                       text=True)
    if not os.path.exists(out):
        return None, r.stdout[-300:]
    txt = open(out).read()
    status = re.search(r"Status:\s+(.*)", txt).group(1).strip()
    obj = float(re.search(r"Objective:\s+\S* ?= (\S+)", txt.replace("\n", "\n")).group(1))
    return status, obj


def gurobi_file(path):
    import gurobipy

    env = gurobipy.Env(empty=True)
    env.setParam("OutputFlag", 0)
    env.start()
    with env, gurobipy.read(path, env=env) as m:
        m.optimize()
        return ("OPTIMAL", m.ObjVal) if m.Status == 2 else (str(m.Status), None)


def run(spec, rec):
    ext = milp if spec["kind"] == "milp" else None
    spec = lpcase.repair(spec, ext)
    opts = {"init": {"extra_math": ["milp"]}} if ext else {}
    m = lpcase.build_model(spec, opts)
    g = None
    try:
        import gurobipy  # noqa: F401
    except ImportError:
        pass
    else:
        g = lpcase.build_model(spec, {**opts, "build": {"backend": "gurobi"},
                                      "solve": {"solver": "gurobi"}})
    a = lpcase.problem(m.backend, exprs=True)
    if g is not None:
        lpcase.compare_problems(a, lpcase.problem(g.backend, exprs=True), "pyomo", "gurobi")
    models = [x for x in (m, g) if x is not None]
    for name, f in spec["updates"]:
        if name in m.inputs and m.inputs[name].dtype.kind == "f":
            for x in models:
                x.backend.update_input(name, x.inputs[name] * f)
            rec.label("updated " + name)
    if spec["upper"] is not None:
        for v in ("storage", "unmet_demand"):
            if v in m.backend.variables:
                for x in models:
                    x.backend.update_variable_bounds(v, max=spec["upper"])
    if spec["updates"] or spec["upper"] is not None:
        a = lpcase.problem(m.backend, exprs=True)
        if g is not None:
            lpcase.compare_problems(a, lpcase.problem(g.backend, exprs=True), "pyomo (updated)",
                                    "gurobi (updated)")
    with tempfile.TemporaryDirectory() as tmp:
        for x in models if spec["inspect"] else ():
            nm = type(x.backend).__name__
            for what in spec["inspect"]:
                inspect(x.backend, what, tmp)
                rec.label("inspect " + what)
            b = lpcase.problem(x.backend, exprs=True)
            lpcase.compare_problems(a, b, nm, nm + " after " + ", ".join(spec["inspect"]))
        dump, _ = lpcase.as_dump(a)
        ref = helper.solve(dump)
        if ref["status"] == "limit":
            return
        want = ref.get("obj", 0) + a["obj"][1] * a["obj"][2] if ref["status"] == "optimal" else None
        rec.label("status " + ref["status"])
        rec.nontrivial(want is not None and abs(want) > 1e-9)
        tol = 1e-3 if ext else 1e-5 * max(1, spec["bigM"] / 1e3)
        if want is not None and a["rows"]:
            for x in models:
                path = os.path.join(tmp, "m.lp")
                x.backend.to_lp(path)
                # glpsol accepts neither the brackets of Gurobi's verbose names nor its way of
                # writing an empty objective
                own = x is g and ("verbose" in spec["inspect"] or not a["obj"][0])
                status, obj = gurobi_file(path) if own else glpsol(path)
                require(status is not None, "exported LP file cannot be read: {}", obj)
                require("OPTIMAL" in status, "exported LP file is {} but the problem has optimum {}",
                        status, want)
                require(lpcase.close(obj, want, 1e-5, tol),
                        "exported LP file ({}) has optimum {} instead of {}",
                        type(x.backend).__name__, obj, want)
    for x, solver in [(m, spec["pyomo_solver"])] + ([(g, "gurobi")] if g is not None else []):
        x.solve(force=True, solver=solver)
        tc = str(x.runtime.termination_condition)
        require((tc == "optimal") == (want is not None), "{} ends '{}' but the problem is {}",
                solver, tc, ref["status"])
        if want is None:
            continue
        res = x.results
        got = objective_from(a, res)
        require(lpcase.close(got, want, 1e-4 if ext else 1e-5, tol),
                "{} reports a solution of value {} instead of {}", solver, got, want)
        rec.label("solver " + solver)


def objective_from(p, res):
    c, k0, s = p["obj"]
    total = k0
    for (name, idx), f in c.items():
        if name not in res:
            continue
        a = res[name]
        lab = dict(idx)
        if "timesteps" in lab:
            import pandas as pd

            lab["timesteps"] = pd.Timestamp(lab["timesteps"])
        v = float(a.sel({d: v for d, v in lab.items()}))
        total += f * v
    return total * s
