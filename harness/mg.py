"""Generator of small energy-system models as JSON specs, and their translation to calliope.

A spec is independent of calliope's data structures; `to_calliope` writes it down as a model
definition and `reflp` reads the spec itself, so the two never share preprocessing.

value kinds: number | str | bool | {"c": {cost: x}} | {"ts": [x per step]} | {"carr": {carrier: x}}
"""
import copy

from hypothesis import strategies as st

CARRIERS = ["elec", "heat", "gas"]
COSTS = ["monetary", "co2"]

EFFS = [0.5, 0.8, 0.9, 0.95]
PRICES = [0.1, 0.5, 1, 2, 3.5, 7]


def one_of(*xs):
    return st.sampled_from(list(xs))


@st.composite
def maybe(draw, strategy, p=4):
    """None three times out of four (p=4) etc."""
    return draw(strategy) if draw(st.integers(0, p - 1)) == p - 1 else None


@st.composite
def cost_val(draw, costs, vals=PRICES):
    ks = draw(st.sampled_from([[k] for k in costs] + ([costs] if len(costs) > 1 else [])))
    return {"c": {k: draw(st.sampled_from(vals)) for k in ks}}


@st.composite
def ts_val(draw, T, vals):
    return {"ts": [draw(st.sampled_from(vals)) for _ in range(T)]}


@st.composite
def scalar_or_ts(draw, T, vals):
    if draw(st.integers(0, 2)) == 2:
        return draw(ts_val(T, vals))
    return draw(st.sampled_from(vals))


class P:
    """Draws parameters with a probability each."""

    def __init__(self, draw, feats):
        self.draw, self.p, self.feats = draw, {}, feats

    def add(self, name, strategy, p=4):
        if self.draw(st.integers(0, p - 1)) == p - 1:
            self.p[name] = self.draw(strategy)


def draw_common(P_, T, costs, is_link=False, is_demand=False):
    P_.add("flow_cap_max", one_of(5, 10, 20, 50), 2)
    P_.add("flow_cap_min", one_of(0, 0.5, 1, 2), 6)
    if not is_demand:
        P_.add("flow_out_eff", scalar_or_ts(T, EFFS), 3)
        P_.add("flow_out_parasitic_eff", scalar_or_ts(T, EFFS), 6)
    P_.add("cost_flow_cap", cost_val(costs), 2)
    P_.add("cost_om_annual", cost_val(costs), 5)
    P_.add("cost_om_annual_investment_fraction", cost_val(costs, [0.05, 0.1, 0.3]), 6)
    k = P_.draw(st.integers(0, 4))
    if k == 0:
        P_.p["lifetime"] = P_.draw(one_of(10, 25, 40))
    elif k == 1:
        P_.p["lifetime"] = P_.draw(one_of(10, 25, 40))
        P_.p["cost_interest_rate"] = P_.draw(cost_val(costs, [0, 0.05, 0.1]))
    elif k == 2:
        P_.p["cost_depreciation_rate"] = P_.draw(cost_val(costs, [0.1, 0.5, 1]))
    elif k == 3:
        P_.p["lifetime"] = P_.draw(one_of(10, 25, 40))
        P_.p["cost_interest_rate"] = P_.draw(cost_val(costs, [0.05, 0.1]))
        P_.p["cost_depreciation_rate"] = P_.draw(cost_val(costs, [0.1, 0.5, 1]))
    P_.add("flow_ramping", one_of(0.1, 0.3, 0.5), 8)


def draw_area(P_, costs):
    k = P_.draw(st.integers(0, 9))
    if k >= 8:
        P_.p["area_use_max"] = P_.draw(one_of(0, 4, 8, 30))
        P_.add("area_use_min", one_of(0, 1, 2), 3)
    if k in (7, 8):
        P_.p["area_use_per_flow_cap"] = P_.draw(one_of(0.5, 1, 2))
    if k >= 7:
        P_.add("cost_area_use", cost_val(costs), 2)


def draw_storage(P_, T, costs, allow_cyclic=True):
    P_.add("storage_cap_max", one_of(0, 5, 10, 40), 2)
    P_.add("storage_cap_min", one_of(0, 1, 2), 6)
    P_.add("storage_loss", scalar_or_ts(T, [0, 0.01, 0.1, 0.5]), 2)
    P_.add("storage_initial", one_of(0, 0.2, 0.5, 1), 2)
    P_.add("storage_discharge_depth", one_of(0, 0.1, 0.2, 0.5), 4)
    P_.add("cost_storage_cap", cost_val(costs), 2)
    P_.add("flow_cap_per_storage_cap_min", one_of(0, 0.1, 0.25), 5)
    P_.add("flow_cap_per_storage_cap_max", one_of(0.25, 0.5, 1), 4)
    if allow_cyclic:
        P_.add("cyclic_storage", st.booleans(), 2)
    else:
        P_.p["cyclic_storage"] = False


@st.composite
def tech(draw, base, T, costs, carriers, links=None, opts=None):
    opts = opts or {}
    P_ = P(draw, opts)
    t = {"base": base, "cin": [], "cout": [], "cexp": []}
    cyc = opts.get("cyclic", True)
    if base == "demand":
        t["cin"] = [draw(st.sampled_from(carriers))]
        if draw(st.integers(0, 7)) == 7 and len(carriers) > 1:
            t["cin"] = carriers[:2]
        kind = draw(one_of("equals", "equals", "equals", "max", "min", "free"))
        if kind == "equals":
            P_.p["sink_use_equals"] = draw(scalar_or_ts(T, [0, 1, 2, 3, 4.5]))
            P_.add("sink_use_max", one_of(1), 8)
            P_.add("sink_use_min", one_of(5), 10)
        elif kind == "max":
            P_.p["sink_use_max"] = draw(scalar_or_ts(T, [0, 1, 2, 3, 4.5]))
            P_.add("sink_use_min", scalar_or_ts(T, [0, 0.5]), 2)
        elif kind == "min":
            P_.p["sink_use_min"] = draw(scalar_or_ts(T, [0, 0.5, 1, 2]))
        u = draw(st.integers(0, 9))
        if u == 9:
            P_.p["sink_unit"] = "per_area"
            P_.p["area_use_max"] = draw(one_of(1, 2))
            P_.p["area_use_min"] = draw(one_of(0.5, 1))
        elif u == 8:
            P_.p["sink_unit"] = "per_cap"
            P_.p["flow_cap_max"] = draw(one_of(2, 4))
            P_.p["flow_cap_min"] = draw(one_of(0.5, 1))
        elif u == 7:
            P_.p["sink_unit"] = "absolute"
        P_.add("flow_in_eff", scalar_or_ts(T, EFFS), 6)
        P_.add("cost_flow_in", cost_val(costs), 6)
        P_.add("cost_flow_cap", cost_val(costs), 8)
        if "cost_flow_cap" in P_.p:
            P_.p["lifetime"] = 10
        P_.add("flow_ramping", one_of(0.3, 0.5), 12)
    elif base == "supply":
        t["cout"] = [draw(st.sampled_from(carriers))]
        if draw(st.integers(0, 9)) == 9 and len(carriers) > 1:
            t["cout"] = carriers[:2]
        draw_common(P_, T, costs)
        draw_area(P_, costs)
        kind = draw(one_of("none", "none", "max", "max", "equals", "min"))
        if kind == "max":
            P_.p["source_use_max"] = draw(scalar_or_ts(T, [0, 1, 2, 5, 8]))
            P_.add("source_use_min", scalar_or_ts(T, [0, 0.2]), 4)
        elif kind == "equals":
            P_.p["source_use_equals"] = draw(scalar_or_ts(T, [0, 1, 2, 3]))
            P_.add("source_use_max", one_of(1), 8)
        elif kind == "min":
            P_.p["source_use_min"] = draw(scalar_or_ts(T, [0, 0.5, 1]))
        u = draw(st.integers(0, 7))
        if u == 7:
            P_.p["source_unit"] = "per_area"
            P_.p.setdefault("area_use_max", draw(one_of(2, 6)))
        elif u == 6:
            P_.p["source_unit"] = "per_cap"
        P_.add("source_eff", scalar_or_ts(T, EFFS), 4)
        P_.add("source_cap_max", one_of(0, 4, 12), 5)
        P_.add("source_cap_min", one_of(0, 1), 8)
        P_.add("source_cap_equals_flow_cap", st.booleans(), 6)
        P_.add("cost_source_cap", cost_val(costs), 5)
        P_.add("cost_source_use", cost_val(costs), 3)
        P_.add("cost_flow_out", cost_val(costs), 3)
        P_.add("flow_out_min_relative", one_of(0, 0.1, 0.3), 8)
        P_.add("flow_cap_max_systemwide", one_of(3, 8, 15), 6)
        P_.add("flow_cap_min_systemwide", one_of(0, 1, 2), 8)
        if draw(st.integers(0, 4)) == 4:
            P_.p["include_storage"] = draw(one_of(True, True, False))
            draw_storage(P_, T, costs, cyc)
    elif base == "storage":
        c = draw(st.sampled_from(carriers))
        t["cin"], t["cout"] = [c], [c]
        draw_common(P_, T, costs)
        draw_area(P_, costs)
        P_.add("flow_in_eff", scalar_or_ts(T, EFFS), 3)
        P_.add("cost_flow_out", cost_val(costs), 4)
        P_.add("cost_flow_in", cost_val(costs), 4)
        draw_storage(P_, T, costs, cyc)
    elif base == "conversion":
        if len(carriers) == 1:
            t["cin"], t["cout"] = list(carriers), list(carriers)
        else:
            i = draw(st.integers(0, len(carriers) - 1))
            t["cin"] = [carriers[i]]
            rest = [c for c in carriers if c != carriers[i]]
            t["cout"] = rest if draw(st.integers(0, 3)) == 3 else [draw(st.sampled_from(rest))]
        draw_common(P_, T, costs)
        draw_area(P_, costs)
        P_.add("flow_in_eff", scalar_or_ts(T, EFFS), 3)
        P_.add("cost_flow_out", cost_val(costs), 4)
        P_.add("cost_flow_in", cost_val(costs), 4)
        if draw(st.integers(0, 9)) == 9:
            # (given for all carriers it would force the capacity to zero: known finding)
            P_.p["flow_out_min_relative"] = {
                "carr": {c: draw(one_of(0, 0.1, 0.3)) for c in t["cout"]}}
        if draw(st.integers(0, 7)) == 7:
            P_.p["include_storage"] = True
            draw_storage(P_, T, costs, cyc)
    elif base == "transmission":
        c = draw(st.sampled_from(carriers))
        t["cin"], t["cout"] = [c], [c]
        t["link"] = list(links)
        draw_common(P_, T, costs, is_link=True)
        P_.add("flow_in_eff", scalar_or_ts(T, EFFS), 4)
        P_.add("distance", one_of(0.5, 2, 3), 2)
        P_.add("flow_out_eff_per_distance", one_of(0.8, 0.95), 3)
        P_.add("flow_in_eff_per_distance", one_of(0.8, 0.95), 5)
        P_.add("cost_flow_cap_per_distance", cost_val(costs), 3)
        P_.add("one_way", st.booleans(), 3)
        P_.add("cost_flow_out", cost_val(costs), 4)
        P_.add("cost_flow_in", cost_val(costs), 6)
    if base in ("supply", "conversion", "storage") and draw(st.integers(0, 4)) == 4:
        t["cexp"] = [draw(st.sampled_from(t["cout"]))]
        P_.p["flow_cap_max"] = draw(one_of(2, 5, 10))
        P_.add("export_max", scalar_or_ts(T, [0, 1, 3]), 2)
        P_.add("export_min", scalar_or_ts(T, [0, 0.2]), 8)
        P_.p["cost_export"] = {
            "c": {costs[0]: draw(one_of(-1, -0.5, 0.5))}
        }
        if draw(st.integers(0, 3)) == 3:
            P_.p["cost_export"] = draw(ts_cost(T, costs[0]))
    if len(t["cin"] + t["cout"]) > 1 and isinstance(P_.p.get("flow_cap_max"), (int, float)) \
            and "area_use_max" not in P_.p and draw(st.integers(0, 4)) == 4:
        cs = sorted(set(t["cin"] + t["cout"]))
        P_.p["flow_cap_max"] = {"carr": {c: draw(one_of(5, 10, 20)) for c in cs}}
    t["p"] = P_.p
    return t


@st.composite
def ts_cost(draw, T, cost):
    return {"ct": {cost: [draw(one_of(-1, -0.5, 0.2)) for _ in range(T)]}}


NODE_OVERRIDABLE = {
    "flow_cap_max": [0, 3, 7, 15], "cost_flow_cap": "cost", "cost_flow_out": "cost",
    "flow_out_eff": EFFS, "storage_cap_max": [3, 12], "source_use_max": [1, 4],
    "sink_use_equals": [0, 1, 2.5], "storage_loss": [0, 0.2], "area_use_max": [2, 9],
    "source_eff": EFFS, "flow_in_eff": EFFS, "storage_initial": [0, 0.3],
}


@st.composite
def energy_spec(draw, max_nodes=3, tmin=2, tmax=5, irregular=True, links=True, ncarriers=(1, 2),
                ensure=None, opts=None, max_extra=3, bases=None, force=(), minlinks=0):
    opts = opts or {}
    T = draw(st.integers(tmin, tmax))
    if irregular and draw(st.integers(0, 3)) == 3:
        steps = [draw(st.sampled_from([1, 2, 3])) for _ in range(T - 1)]
    else:
        steps = [draw(st.sampled_from([1, 1, 2, 6]))] * (T - 1)
    offs = [0]
    for s in steps:
        offs.append(offs[-1] + s)
    nn = draw(st.sampled_from([x for x in (1, 2, 2, 3, 3) if 1 + bool(minlinks) <= x <= max_nodes]))
    nodes = [f"n{i}" for i in range(nn)]
    carriers = CARRIERS[: draw(st.sampled_from(ncarriers))]
    costs = COSTS[: draw(st.sampled_from([1, 1, 2]))]
    techs = {}

    def place(name, t, at_least=1):
        t["nodes"] = sorted(
            draw(st.sets(st.sampled_from(nodes), min_size=min(at_least, nn), max_size=nn))
        )
        t["pn"] = {}
        if t["nodes"] and draw(st.integers(0, 2)) == 2:
            node = draw(st.sampled_from(t["nodes"]))
            cands = [
                k for k in NODE_OVERRIDABLE
                if k in t["p"] and not isinstance(t["p"][k], dict) or
                (k in t["p"] and NODE_OVERRIDABLE[k] == "cost")
            ]
            if cands:
                k = draw(st.sampled_from(cands))
                if NODE_OVERRIDABLE[k] == "cost":
                    if set(t["p"][k]) == {"c"}:
                        t["pn"][node] = {
                            k: {"c": {c: draw(one_of(0.2, 4)) for c in t["p"][k]["c"]}}
                        }
                else:
                    t["pn"][node] = {k: draw(st.sampled_from(NODE_OVERRIDABLE[k]))}
        techs[name] = t

    bases = bases or ["supply", "demand", "storage", "conversion"]
    place("dem0", draw(tech("demand", T, costs, carriers, opts=opts)))
    place("sup0", draw(tech("supply", T, costs, carriers, opts=opts)))
    for i, b in enumerate(force):
        place(f"{b[:3]}_f{i}", draw(tech(b, T, costs, carriers, opts=opts)))
    for i in range(draw(st.sampled_from(range(max_extra + 1)))):
        b = draw(st.sampled_from(bases))
        place(f"{b[:3]}{i + 1}", draw(tech(b, T, costs, carriers, opts=opts)))
    if links and nn > 1:
        pairs = [(a, b) for a in nodes for b in nodes if a != b]
        for i in range(draw(one_of(*(x + minlinks for x in (0, 1, 1, 2, 2))))):
            t = draw(
                tech("transmission", T, costs, carriers, links=draw(st.sampled_from(pairs)),
                     opts=opts)
            )
            t["nodes"], t["pn"] = sorted(t["link"]), {}
            techs[f"lnk{i}"] = t
    node_p = {n: {} for n in nodes}
    if any("area_use_max" in t["p"] or "area_use_per_flow_cap" in t["p"] for t in techs.values()):
        for n in nodes:
            if draw(st.integers(0, 2)) == 2:
                node_p[n]["available_area"] = draw(one_of(3, 6, 20))
    if any(isinstance(t["p"].get("storage_loss"), dict) for t in techs.values()) and any(
        "storage_initial" in t["p"] and t["p"].get("cyclic_storage", True)
        for t in techs.values()
    ):
        # does not build: known finding
        for t in techs.values():
            if isinstance(t["p"].get("storage_loss"), dict):
                t["p"]["storage_loss"] = t["p"]["storage_loss"]["ts"][0]
    if any("cyclic_storage" in t["p"] for t in techs.values()):
        # given for one technology only, it would be false for the others: known finding
        for t in techs.values():
            if t["base"] == "storage" or t["p"].get("include_storage"):
                t["p"].setdefault("cyclic_storage", True)
    used = {n for t in techs.values() for n in t["nodes"]}
    nodes = [n for n in nodes if n in used]
    spec = {
        "offs": offs, "nodes": nodes, "node_p": {n: node_p[n] for n in nodes},
        "carriers": carriers, "costs": costs, "techs": techs,
        "ensure": draw(st.sampled_from([True, True, False])) if ensure is None else ensure,
        "bigM": draw(st.sampled_from([1e6, 1e3, 1e3])),
    }
    if draw(st.integers(0, 3)) == 3:
        spec["weights"] = {c: draw(one_of(0, 0.5, 2)) for c in costs}
    if draw(st.integers(0, 5)) == 5:
        spec["solver"] = "glpk"
    return spec


# ------------------------------------------------------------------ translation to calliope


def effective(spec):
    """The spec a clustered spec stands for: only the steps of representative days, weighted."""
    cl = spec.get("cluster")
    if not cl:
        return spec
    k, mp = cl["per_day"], cl["map"]
    reps = sorted(set(mp))
    keep = [d * k + j for d in reps for j in range(k)]
    out = copy.deepcopy(spec)
    del out["cluster"]
    out["offs"] = [spec["offs"][i] for i in keep]
    out["res"] = [24 / k] * len(keep)
    out["tw"] = [mp.count(d) for d in reps for _ in range(k)]
    out["wrap"] = {i * k: i * k + k - 1 for i in range(len(reps))}
    if cl.get("inter"):
        out["days"], out["per_day"] = [reps.index(d) for d in mp], k

    def cut(p):
        for name, v in p.items():
            if isinstance(v, dict) and "ts" in v:
                p[name] = {"ts": [v["ts"][i] for i in keep]}
            elif isinstance(v, dict) and "ct" in v:
                p[name] = {"ct": {c: [x[i] for i in keep] for c, x in v["ct"].items()}}

    for t in out["techs"].values():
        cut(t["p"])
        for p in t["pn"].values():
            cut(p)
    return out


@st.composite
def clustered_spec(draw, **kw):
    """A spec over whole days, mapped to representative days."""
    k = draw(one_of(2, 3, 4))
    days = draw(one_of(2, 3, 3, 4))
    spec = draw(energy_spec(tmin=k * days, tmax=k * days, irregular=False, **kw))
    spec["offs"] = [i * (24 // k) for i in range(k * days)]
    reps = sorted(draw(st.sets(st.integers(0, days - 1), min_size=1, max_size=days)))
    mp = [draw(st.sampled_from(reps)) for _ in range(days)]
    for d in reps:
        if d not in mp:
            mp[d] = d
    spec["cluster"] = {"per_day": k, "map": mp}
    for t in spec["techs"].values():
        # cyclic storage needs the inter-cluster math
        if t["base"] == "storage" or "include_storage" in t["p"]:
            t["p"]["cyclic_storage"] = False
    return spec


def all_times(spec):
    import pandas as pd

    t0 = pd.Timestamp(spec.get("start", "2020-01-01"))
    return [t0 + pd.Timedelta(hours=h) for h in spec["offs"]]


def times(spec):
    """Time steps of the model (after clustering)."""
    import pandas as pd

    spec = effective(spec)
    t0 = pd.Timestamp(spec.get("start", "2020-01-01"))
    return [t0 + pd.Timedelta(hours=h) for h in spec["offs"]]


def yaml_val(v):
    if isinstance(v, dict):
        if "c" in v:
            ks = list(v["c"])
            return {"data": [v["c"][k] for k in ks], "index": ks, "dims": "costs"}
        if "carr" in v:
            ks = list(v["carr"])
            return {"data": [v["carr"][k] for k in ks], "index": ks, "dims": "carriers"}
        raise KeyError(v)
    return v


def lst(xs):
    return xs[0] if len(xs) == 1 else list(xs)


def to_calliope(spec, mode_opts=None):
    """-> (definition dict, {table name: DataFrame})"""
    import numpy as np
    import pandas as pd

    techs, nodes = {}, {n: {"techs": {}, **spec["node_p"].get(n, {})} for n in spec["nodes"]}
    ts = {}  # param -> {(node, tech[, cost]): values}

    def put(target, name, node_list, p):
        # data of transmission technologies may not be given per node
        keys = [(name,)] if spec["techs"][name]["base"] == "transmission" else [
            (n, name) for n in node_list
        ]
        for k, v in p.items():
            if isinstance(v, dict) and "ts" in v:
                for key in keys:
                    ts.setdefault(k, {})[("",) + key] = v["ts"]
            elif isinstance(v, dict) and "ct" in v:
                for key in keys:
                    for c, vals in v["ct"].items():
                        ts.setdefault(k, {})[("c",) + key + (c,)] = vals
            else:
                target[k] = yaml_val(v)

    for name, t in spec["techs"].items():
        d = {"base_tech": t["base"]}
        if t["cin"]:
            d["carrier_in"] = lst(t["cin"])
        if t["cout"]:
            d["carrier_out"] = lst(t["cout"])
        if t["cexp"]:
            d["carrier_export"] = lst(t["cexp"])
        if t["base"] == "transmission":
            d["link_from"], d["link_to"] = t["link"]
        put(d, name, t["nodes"], t["p"])
        techs[name] = d
        if t["base"] != "transmission":
            for n in t["nodes"]:
                nd = {}
                put(nd, name, [n], t["pn"].get(n, {}))
                nodes[n]["techs"][name] = nd or None
    defs, tables, dfs = {}, {}, {}
    if spec.get("weights"):
        ks = list(spec["weights"])
        defs["objective_cost_weights"] = {
            "data": [spec["weights"][k] for k in ks], "index": ks, "dims": "costs"
        }
    defs["bigM"] = spec["bigM"]
    idx = pd.Index(all_times(spec), name="timesteps")
    # a table every model has, so that the time axis always exists
    ts_all = dict(ts)
    for k, cols in ts_all.items():
        groups = {}
        for c, v in cols.items():
            names = ["nodes", "techs"][3 - len(c) - (0 if not c[0] else -1):]
            names = names + (["costs"] if c[0] else [])
            groups.setdefault(tuple(names), {})[c[1:]] = v
        for names, sub in sorted(groups.items()):
            df = pd.DataFrame(
                np.array(list(sub.values()), dtype=float).T, index=idx,
                columns=pd.MultiIndex.from_tuples(list(sub), names=names),
            )
            tname = f"t_{k}_{'_'.join(names)}"
            dfs[tname] = df
            tables[tname] = {
                "table": tname, "rows": "timesteps", "columns": list(names),
                "add_dims": {"inputs": k},
            }
    if spec.get("cluster"):
        k, mp = spec["cluster"]["per_day"], spec["cluster"]["map"]
        dfs["t_cluster"] = pd.DataFrame(
            [str(idx[d * k].date()) for d in mp],
            index=pd.Index([idx[i * k] for i in range(len(mp))], name="timesteps"),
            columns=pd.Index(["cluster_days"], name="inputs"),
        )
        tables["t_cluster"] = {"table": "t_cluster", "rows": "timesteps", "columns": "inputs"}
    if not set(tables) - {"t_cluster"}:
        df = pd.DataFrame({"x": [1.0] * len(idx)}, index=idx)
        df.columns.name = "inputs"
        df.columns = pd.Index(["dummy_ts"], name="inputs")
        dfs["t_dummy"] = df
        tables["t_dummy"] = {"table": "t_dummy", "rows": "timesteps", "columns": "inputs"}
    d = {
        "config": {
            "init": {"name": "m"},
            "build": {"ensure_feasibility": bool(spec["ensure"])},
            "solve": {"solver": spec.get("solver", "cbc")},
        },
        "techs": techs, "nodes": nodes, "data_definitions": defs, "data_tables": tables,
    }
    if spec.get("cluster"):
        d["config"]["init"]["time_cluster"] = "cluster_days"
    for sec, o in (mode_opts or {}).items():
        d["config"][sec].update(o)
    return d, dfs


def read(spec, mode_opts=None, **kw):
    import calliope

    d, dfs = to_calliope(spec, mode_opts)
    return calliope.read_dict(d, data_table_dfs=dfs, **kw)
