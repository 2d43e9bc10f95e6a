"""Shared steps of the checks that build and solve generated models."""
import copy
import math
import random

from harness import core, helper, mg, reflp
from harness.core import Violation, require

# variables / expressions -> dimensions in the order reflp uses for its keys
DIMS = {
    "flow_cap": "ntc", "link_flow_cap": "t", "flow_out": "ntcs", "flow_in": "ntcs",
    "flow_export": "ntcs", "area_use": "nt", "source_use": "nts", "source_cap": "nt",
    "storage_cap": "nt", "storage": "nts", "unmet_demand": "ncs", "unused_supply": "ncs",
    "cost_investment_flow_cap": "ntck", "cost_investment_storage_cap": "ntk",
    "cost_investment_source_cap": "ntk", "cost_investment_area_use": "ntk",
    "cost_investment": "ntk", "cost_investment_annualised": "ntk",
    "cost_operation_fixed": "ntk", "cost_operation_variable": "ntks", "cost": "ntk",
    # integer math
    "purchased_units": "nt", "operating_units": "nts", "available_flow_cap": "ntcs",
    "async_flow_switch": "nts", "cost_investment_purchase": "ntk",
}
STATS = {"capacity_factor", "systemwide_capacity_factor", "total_generation", "unmet_sum",
         "systemwide_levelised_cost", "total_levelised_cost", "curtailment", "total_curtailment"}
LONG = {"n": "nodes", "t": "techs", "c": "carriers", "k": "costs", "s": "timesteps"}

RESTRICT = [
    "flow_cap_min", "flow_ramping", "area_use_min", "area_use_per_flow_cap", "storage_cap_min",
    "storage_initial", "storage_discharge_depth", "flow_cap_per_storage_cap_min",
    "flow_cap_per_storage_cap_max", "sink_use_equals", "sink_use_min", "sink_use_max",
    "source_use_min", "source_use_equals", "source_cap_min", "source_cap_equals_flow_cap",
    "flow_out_min_relative", "flow_cap_min_systemwide", "flow_cap_max_systemwide",
    "storage_cap_max", "flow_cap_max", "source_use_max", "area_use_max", "export_min",
    "sink_unit", "source_unit", "source_cap_max",
    # integer math
    "purchased_units_min", "purchased_units_min_systemwide", "purchased_units_max_systemwide",
]


def feasible(spec, milp=None):
    return helper.solve(reflp.build(spec, milp).dump(obj={}))["status"] == "optimal"


def repair(spec, milp=None):
    """The spec itself if it has a solution, else with as many limits as still allow one.

    One spec in five is left infeasible.
    """
    if feasible(spec, milp) or int(core.case_hash(spec)[:4], 16) % 5 == 0:
        return spec
    s = copy.deepcopy(spec)
    removed = []
    for t, d in s["techs"].items():
        for p in RESTRICT:
            if p in d["p"] and not (p == "flow_cap_max" and d["cexp"]):
                pn = {n: x.pop(p) for n, x in d["pn"].items() if p in x}
                removed.append((t, p, d["p"].pop(p), pn))
    if not feasible(s, milp):
        return spec
    for t, p, v, pn in removed:
        d = s["techs"][t]
        d["p"][p] = v
        for n, x in pn.items():
            d["pn"].setdefault(n, {})[p] = x
        if not feasible(s, milp):
            del d["p"][p]
            for n in pn:
                del d["pn"][n][p]
    # area units need the area variable
    for d in s["techs"].values():
        d["pn"] = {n: x for n, x in d["pn"].items() if x}
    return s


def keyed(arr, name, times):
    """Non-missing cells of a result array -> {reflp key: value}."""
    dims = [LONG[x] for x in DIMS[name]]
    have = [d for d in dims if d in arr.dims]
    if have != dims:
        if arr.ndim == 0 and bool(arr.isnull()):
            return {}
        raise Violation(f"{name} is indexed over {arr.dims} instead of {dims}")
    arr = arr.transpose(*dims)
    labels = []
    for d in dims:
        if d == "timesteps":
            pos = {t: i for i, t in enumerate(times)}
            vals = arr[d].to_index()
            if list(vals) != list(times):
                raise Violation(f"{name} covers time steps {list(vals)} instead of {list(times)}")
            labels.append([pos[t] for t in vals])
        else:
            labels.append([str(x) for x in arr[d].values])
    import numpy as np
    import pandas as pd

    out = {}
    isnull = pd.isnull(arr.values)
    for pos in np.argwhere(~isnull):
        out[(name,) + tuple(labels[j][p] for j, p in enumerate(pos))] = arr.values[tuple(pos)]
    return out


def solution(model, lp, times):
    """Reported value of every reference variable; also checks where they are reported."""
    res = model.results
    x = {}
    known = {n for n in map(str, res.data_vars) if n in DIMS and not n.startswith("cost")} - STATS
    for name in sorted({k[0] for k in lp.vars} | known):
        if name.startswith("cost"):
            continue
        require(name in res, "results lack {}", name)
        got = {k: float(v) for k, v in keyed(res[name], name, times).items()}
        want = {k for k in lp.vars if k[0] == name}
        require(set(got) == want, "{} reported at {} but expected at {}", name,
                sorted(map(str, set(got) - want))[:4] or "too few places",
                sorted(map(str, want - set(got)))[:4] or "fewer places")
        x.update(got)
    return x


def close(a, b, rel=1e-5, abs_=1e-5):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def reported_objective(model, spec):
    """Objective recomputed from what is reported."""
    res = model.results
    total = 0.0
    if "cost" in res:
        for k in res.costs.values if "costs" in res.cost.dims else []:
            w = (spec.get("weights") or {}).get(str(k), 1.0)
            total += float(res.cost.sel(costs=k).sum()) * w
    if spec["ensure"]:
        w = reflp.Spec(mg.effective(spec)).w
        d = (res.unmet_demand.fillna(0) - res.unused_supply.fillna(0)).sum(["nodes", "carriers"])
        total += math.fsum(float(v) * f for v, f in zip(d.values, w)) * spec["bigM"]
    return total


def check_solution(model, spec, lp, times, tol=1e-5):
    """Everything C13 says about one optimal solution."""
    x = solution(model, lp, times)
    bad = lp.violations(x, tol)
    if bad:
        name, v, lo, hi = bad[0]
        raise Violation(f"reported solution breaks '{name}': {v} outside [{lo}, {hi}]"
                        f" ({len(bad)} broken)")
    res = model.results
    for name in sorted({k[0] for k in lp.exprs}):
        require(name in res, "results lack {}", name)
        got = {k: float(v) for k, v in keyed(res[name], name, times).items()}
        want = {k: e.at(x) for k, e in lp.exprs.items() if k[0] == name}
        for k, v in want.items():
            g = got.get(k)
            require(g is not None, "{} is missing at {}", name, k)
            require(close(g, v, 1e-5, 1e-6 * max(1, spec["bigM"] / 1e3)),
                    "{} at {} is {} but the reported decisions give {}", name, k[1:], g, v)
        for k, g in got.items():
            require(k in want or abs(g) < 1e-9, "{} reported at {} although nothing costs there: {}",
                    name, k[1:], g)
    return x


def extract(backend, times):
    """Linear problem of a built backend as {keys, lo, hi, int, rows, obj}; variables known to
    reflp get its keys, others a key of their own."""
    import numpy as np
    from pyomo.repn.standard_repn import generate_standard_repn

    keys, pos, lo, hi, integer = [], {}, [], [], []

    def add(key, obj):
        pos[id(obj)] = len(keys)
        keys.append(key)
        lb, ub = obj.lb, obj.ub
        lo.append(-math.inf if lb is None else float(lb))
        hi.append(math.inf if ub is None else float(ub))
        integer.append(int(obj.is_integer() or obj.is_binary()))
        if obj.fixed:
            lo[-1] = hi[-1] = float(obj.value)

    objs = []
    for name in backend.variables.data_vars:
        arr = backend.get_variable(name, as_backend_objs=True)
        if name in DIMS:
            cells = keyed(arr, name, times)
        else:
            cells = {(name, *map(str, np.atleast_1d(i))): v
                     for i, v in np.ndenumerate(arr.values) if v is not None and v == v}
        for k, o in cells.items():
            objs.append(o)
            add(k, o)
    rows = []
    for name in backend.constraints.data_vars:
        arr = backend.get_constraint(name, as_backend_objs=True)
        for v in arr.values.flat:
            if v is None or v is np.nan or (isinstance(v, float) and v != v):
                continue
            if not v.active:
                continue
            r = generate_standard_repn(v.body, compute_values=True)
            if not r.is_linear():
                raise Violation(f"constraint {name} is not linear")
            k0 = float(r.constant or 0)
            a = -math.inf if v.lb is None else float(v.lb) - k0
            b = math.inf if v.ub is None else float(v.ub) - k0
            cols, vals = [], []
            for o, c in zip(r.linear_vars, r.linear_coefs):
                if id(o) not in pos:
                    add((str(o),), o)
                cols.append(pos[id(o)])
                vals.append(float(c))
            rows.append((cols, vals, a, b))
    obj = {}
    for name in backend.objectives.data_vars:
        o = backend.objectives[name].item()
        if o.active:
            r = generate_standard_repn(o.expr, compute_values=True)
            obj = {pos[id(v)]: float(c) for v, c in zip(r.linear_vars, r.linear_coefs)}
            obj0 = float(r.constant or 0)
    return {"keys": keys, "lo": lo, "hi": hi, "int": integer, "rows": rows, "obj": obj,
            "obj0": obj0, "sense": 1}


def same_region(ex, lp, seed, n=6, box=1000.0, require_vars=True):
    """Compares two problems by minimising the same random objectives over both.

    Both are cut to |x| <= box for the reference variables, so every problem is bounded.
    """
    pos = {k: i for i, k in enumerate(ex["keys"])}
    missing = [k for k in lp.vars if k not in pos]
    extra = [k for k in pos if k[0] in {x[0] for x in lp.vars} and k not in lp.vars]
    require(not missing, "decision variables missing from the problem: {}", missing[:4])
    require(not extra, "unexpected decision variables in the problem: {}", extra[:4])
    rng = random.Random(seed)
    ref = lp.dump(box=box)
    refkeys = list(lp.vars)
    mine = {k: ex[k] for k in ("int", "rows", "obj")}
    mine["lo"] = [max(v, -box) if k in lp.vars else v for k, v in zip(ex["keys"], ex["lo"])]
    mine["hi"] = [min(v, box) if k in lp.vars else v for k, v in zip(ex["keys"], ex["hi"])]
    # variables with a lower bound beyond the box make the cut problem infeasible in both
    probs, objs = [], []
    names = sorted({k[0] for k in refkeys})
    for j in range(n):
        if j == 0:
            o = {}
        else:
            o = {}
            for _ in range(rng.choice([1, 2, 3, 6])):
                nm = rng.choice(names)
                k = rng.choice([x for x in refkeys if x[0] == nm])
                o[k] = rng.choice([-2.0, -1.0, 1.0, 3.0])
        objs.append(o)
        rp = {refkeys.index(k): v for k, v in o.items()}
        probs.append(dict(ref, obj=rp))
        probs.append(dict(mine, obj={pos[k]: v for k, v in o.items()}))
    ans = helper.ask(probs)
    for j, o in enumerate(objs):
        a, b = ans[2 * j], ans[2 * j + 1]
        if "limit" in (a["status"], b["status"]):
            continue
        require(a["status"] == b["status"],
                "the built problem is {} where the documented one is {}", b["status"], a["status"])
        if a["status"] == "optimal":
            require(close(a["obj"], b["obj"], 1e-5, 1e-4),
                    "minimising {} over the built problem gives {}, over the documented one {}",
                    {str(k): v for k, v in o.items()}, b["obj"], a["obj"])
    return ans[0]["status"]


def label_spec(spec, rec, detail=True):
    for t in spec["techs"].values():
        rec.label("tech " + t["base"])
        if detail:
            for p in t["p"]:
                rec.label("param " + p)
        rec.label("node-level value", bool(t["pn"]))
    rec.label("several nodes", len(spec["nodes"]) > 1)
    rec.label("irregular steps", len({b - a for a, b in zip(spec["offs"], spec["offs"][1:])}) > 1)
    rec.label("ensure_feasibility", spec["ensure"])


def build_model(spec, mode_opts=None, **kw):
    m = mg.read(spec, mode_opts, **kw)
    m.build()
    return m


# ------------------------------------------------------- cell-by-cell view of a built problem


def _cells(arr):
    """{(coordinate labels by dimension name): object} of the non-missing cells."""
    import numpy as np

    dims = list(arr.dims)
    labels = []
    for d in dims:
        labels.append([str(x) for x in arr[d].values])
    out = {}
    vals = np.asarray(arr.values, dtype=object)
    for pos in np.ndindex(vals.shape):
        v = vals[pos]
        if v is None or (isinstance(v, float) and v != v):
            continue
        key = tuple(sorted((dims[i], labels[i][p]) for i, p in enumerate(pos)))
        out[key] = v
    return out


def problem(backend, exprs=False):
    """{"vars": {key: (lo, hi, int)}, "rows": {key: (coefs, lo, hi)}, "obj": (coefs, const, sense),
    "exprs": {key: (coefs, const)}} with key = (component name, ((dim, label), ...))."""
    gurobi = type(backend).__name__.startswith("Gurobi")
    if gurobi:
        import gurobipy

        backend._instance.update()
    else:
        from pyomo.repn.standard_repn import generate_standard_repn
    out = {"vars": {}, "rows": {}, "obj": None, "exprs": {}, "objs": {}}
    ids = {}

    def ident(o):
        return o.index if gurobi else id(o)

    for name in backend.variables.data_vars:
        for k, o in _cells(backend.get_variable(name, as_backend_objs=True)).items():
            ids[ident(o)] = (name, k)
            if gurobi:
                lo, hi, integer = o.LB, o.UB, o.VType != "C"
                lo, hi = (-math.inf if lo <= -1e30 else lo), (math.inf if hi >= 1e30 else hi)
            else:
                lo = -math.inf if o.lb is None else float(o.lb)
                hi = math.inf if o.ub is None else float(o.ub)
                integer = o.is_integer() or o.is_binary()
                if o.fixed:
                    lo = hi = float(o.value)
            out["vars"][name, k] = (lo, hi, bool(integer))

    def lin(o):
        """-> (coefs, const) of an expression, variable or number"""
        c, k = {}, 0.0
        if gurobi:
            if isinstance(o, gurobipy.Var):
                return {ids[o.index]: 1.0}, 0.0
            if not isinstance(o, gurobipy.LinExpr):
                return {}, float(o)
            for i in range(o.size()):
                key = ids[o.getVar(i).index]
                c[key] = c.get(key, 0.0) + o.getCoeff(i)
            k = o.getConstant()
        else:
            r = generate_standard_repn(o, compute_values=True)
            if not r.is_linear():
                raise Violation("a component is not linear")
            k = float(r.constant or 0)
            for v, f in zip(r.linear_vars, r.linear_coefs):
                key = ids.get(id(v), (str(v), ()))
                c[key] = c.get(key, 0.0) + float(f)
        return {a: b for a, b in c.items() if b != 0}, k

    for name in backend.constraints.data_vars:
        for k, o in _cells(backend.get_constraint(name, as_backend_objs=True)).items():
            if gurobi:
                c, k0 = lin(backend._instance.getRow(o))
                b = o.RHS - k0
                lo = -math.inf if o.Sense == "<" else b
                hi = math.inf if o.Sense == ">" else b
            else:
                if not o.active:
                    continue
                c, k0 = lin(o.body)
                lo = -math.inf if o.lb is None else float(o.lb) - k0
                hi = math.inf if o.ub is None else float(o.ub) - k0
            out["rows"][name, k] = (c, lo, hi)
    if exprs:
        for name in backend.global_expressions.data_vars:
            for k, o in _cells(backend.get_global_expression(name, as_backend_objs=True)).items():
                out["exprs"][name, k] = lin(o)
    for name in backend.objectives.data_vars:
        o = backend.objectives[name].item()
        if gurobi:
            out["objs"][name] = lin(o)
        else:
            out["objs"][name] = lin(o.expr)
            if o.active:
                out["obj"] = (*out["objs"][name], 1 if o.is_minimizing() else -1)
    if gurobi:
        m = backend._instance
        out["obj"] = (*lin(m.getObjective()), int(m.ModelSense))
    return out


def same(a, b, rel=1e-9):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b), 1e-6)


def same_lin(a, b):
    return set(a) == set(b) and all(same(v, b[k]) for k, v in a.items())


def same_row(a, b):
    (c, lo, hi), (d, lo2, hi2) = a, b
    if same_lin(c, d) and same(lo, lo2) and same(hi, hi2):
        return True
    return same_lin({k: -v for k, v in c.items()}, d) and same(-hi, lo2) and same(-lo, hi2)


def compare_problems(a, b, na, nb, skip_empty=True):
    """Raises a Violation at the first difference between two `problem`s."""
    for part, what in (("vars", "variable"), ("rows", "constraint"), ("exprs", "expression")):
        x, y = a[part], b[part]
        if part == "rows" and skip_empty:
            x = {k: v for k, v in x.items() if v[0]}
            y = {k: v for k, v in y.items() if v[0]}
        d = sorted(set(x) - set(y), key=str)
        require(not d, "{} {} exists with {} but not with {}", what, d[0] if d else "", na, nb)
        d = sorted(set(y) - set(x), key=str)
        require(not d, "{} {} exists with {} but not with {}", what, d[0] if d else "", nb, na)
        for k, v in x.items():
            w = y[k]
            if part == "vars":
                ok = same(v[0], w[0]) and same(v[1], w[1]) and v[2] == w[2]
            elif part == "rows":
                ok = same_row(v, w)
            else:
                ok = same_lin(v[0], w[0]) and same(v[1], w[1])
            require(ok, "{} {} is {} with {} but {} with {}", what, k, v, na, w, nb)
    (c, k, s), (d, l, t) = a["obj"], b["obj"]
    require(same_lin(c, d) and same(k, l) and s == t,
            "the objective differs between {} and {}: {}", na, nb,
            sorted(((k, c.get(k), d.get(k)) for k in set(c) | set(d)
                    if not same(c.get(k, 0), d.get(k, 0))), key=str)[:3] or ((k, s), (l, t)))


def as_dump(p):
    """`problem` -> problem for helper.solve (minimisation)."""
    keys = list(p["vars"])
    extra = sorted({k for c, *_ in p["rows"].values() for k in c if k not in p["vars"]}, key=str)
    keys += extra
    pos = {k: i for i, k in enumerate(keys)}
    v = [p["vars"].get(k, (1.0, 1.0, False)) for k in keys]
    c, k0, s = p["obj"]
    return {
        "lo": [x[0] for x in v], "hi": [x[1] for x in v], "int": [int(x[2]) for x in v],
        "rows": [([pos[k] for k in c], list(c.values()), lo, hi) for c, lo, hi in
                 p["rows"].values()],
        "obj": {pos[k]: f * s for k, f in c.items()},
    }, keys
