"""C28: results do not depend on names, order or units."""
import copy
import random

from hypothesis import strategies as st

from harness import fast, hashserver, helper, lpcase, mg, milp, reflp
from harness.core import HarnessError, Violation, require

PID = "C28"
RULE = (
    "A random small energy system (continuous, clustered or integer) is built as it is and "
    "transformed: all nodes, technologies, carriers and cost classes renamed (also reversing "
    "their alphabetical order), every mapping and table shuffled, inactive and unused content "
    "added, the calendar shifted, costs or quantities multiplied, a demand split in two, built "
    "twice, built in a process with another hash seed. The two problems are compared cell by cell "
    "under the expected mapping (optima for the split). Non-trivial: the transformation changes "
    "the definition and the problem has an objective."
)
IID_ONLY = True
EXAMPLES = {"quick": 600, "thorough": 30000}
SECONDS = {"quick": 36, "thorough": 900}
KINDS = ["rename", "rename", "reorder", "inactive", "shift", "hash", "twice", "costs",
         "quantities", "split"]
NAMES = ["zz", "a", "Mid_1", "techs", "b2", "Ä", "n1", "base", "c", "y", "wind", "B", "k",
         "supply", "inf", "nan", "e1", "storage", "x0"]


def setup(tier):
    fast.all()


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(KINDS))
    src = draw(st.sampled_from(["lp", "lp", "cluster", "milp"]))
    kw = {"max_extra": 3, "tmax": 4, "force": draw(st.sampled_from([(), ("storage",),
                                                                    ("conversion",)]))}
    if src == "lp" or kind in ("quantities", "split"):
        src, spec = "lp", draw(mg.energy_spec(**kw))
    elif src == "cluster":
        spec = draw(mg.clustered_spec(max_extra=2, max_nodes=2))
    else:
        spec = draw(milp.milp_spec(**kw))
    spec["src"], spec["kind"] = src, kind
    spec["seed"] = draw(st.integers(0, 10**6))
    spec["factor"] = draw(st.sampled_from([0.5, 2.0, 10.0, 3.7]))
    spec["shift"] = draw(st.sampled_from(["2019-12-31", "2024-02-28", "1999-06-15", "2020-03-29"]))
    if kind == "split":
        names = [t for t, d in spec["techs"].items() if d["base"] == "demand"]
        t = spec["techs"][names[0]]
        t["p"] = {k: v for k, v in t["p"].items()
                  if k in ("sink_use_equals", "flow_in_eff", "cost_flow_in")}
        t["p"].setdefault("sink_use_equals", 2)
        t["pn"] = {n: {k: v for k, v in x.items() if k in t["p"]} for n, x in t["pn"].items()}
        t["pn"] = {n: x for n, x in t["pn"].items() if x}
    return spec


def strategy(tier):
    return _case()


OPTS = {"milp": {"init": {"extra_math": ["milp"]}}}


# ------------------------------------------------------------------ transformations


def rename(spec, seed):
    rng = random.Random(seed)
    maps = {}
    pool = NAMES
    for dim, old in (("nodes", spec["nodes"]), ("techs", list(spec["techs"])),
                     ("carriers", spec["carriers"]), ("costs", spec["costs"])):
        if dim == "costs":
            # the objective weights of the base math name the monetary class
            new = rng.sample([x for x in pool if x not in ("techs", "base")], len(old))
        else:
            new = rng.sample(pool, len(old))
        if rng.random() < 0.4 and dim != "costs":  # same names, permuted
            new = list(old)
            rng.shuffle(new)
        maps[dim] = dict(zip(old, new))
    N, T, C, K = maps["nodes"], maps["techs"], maps["carriers"], maps["costs"]

    def val(v):
        if isinstance(v, dict):
            (k, x), = v.items()
            if k in ("c", "ct"):
                return {k: {K[a]: b for a, b in x.items()}}
            if k == "carr":
                return {k: {C[a]: b for a, b in x.items()}}
        return v

    s = copy.deepcopy(spec)
    s["nodes"] = [N[n] for n in s["nodes"]]
    s["node_p"] = {N[n]: x for n, x in s["node_p"].items()}
    s["carriers"] = [C[c] for c in s["carriers"]]
    s["costs"] = [K[c] for c in s["costs"]]
    if s.get("weights"):
        s["weights"] = {K[c]: v for c, v in s["weights"].items()}
    techs = {}
    for t, d in s["techs"].items():
        for k in ("cin", "cout", "cexp"):
            d[k] = [C[c] for c in d[k]]
        d["nodes"] = [N[n] for n in d["nodes"]]
        if "link" in d:
            d["link"] = [N[n] for n in d["link"]]
        d["p"] = {k: val(v) for k, v in d["p"].items()}
        d["pn"] = {N[n]: {k: val(v) for k, v in x.items()} for n, x in d["pn"].items()}
        techs[T[t]] = d
    s["techs"] = techs
    return s, maps


def mapped(p, maps, times=None):
    def key(k):
        name, idx = k
        new = []
        for d, lab in idx:
            if d in maps:
                lab = maps[d][lab]
            new.append((d, lab))
        return (name, tuple(new))

    def lin(c):
        return {key(k): v for k, v in c.items()}

    return {
        "vars": {key(k): v for k, v in p["vars"].items()},
        "rows": {key(k): (lin(c), lo, hi) for k, (c, lo, hi) in p["rows"].items()},
        "exprs": {key(k): (lin(c), x) for k, (c, x) in p["exprs"].items()},
        "obj": (lin(p["obj"][0]),) + tuple(p["obj"][1:]),
    }


def shuffled(d, rng):
    if isinstance(d, dict):
        if set(d) == {"data", "index", "dims"} and isinstance(d["index"], list):
            o = list(range(len(d["index"])))
            rng.shuffle(o)
            return {"dims": d["dims"], "index": [d["index"][i] for i in o],
                    "data": [d["data"][i] for i in o]}
        ks = list(d)
        rng.shuffle(ks)
        return {k: shuffled(d[k], rng) for k in ks}
    return d


def junk(d, rng):
    d = copy.deepcopy(d)
    first = next(iter(d["nodes"]))
    d["techs"]["aa_off"] = {"base_tech": "supply", "carrier_out": "nowhere", "active": False,
                            "flow_cap_max": 1e9}
    d["nodes"]["a_off"] = {"active": False, "techs": {t: None for t in list(d["techs"])[:2]
                           if d["techs"][t].get("base_tech") != "transmission"}}
    d["nodes"][first]["techs"]["aa_off"] = None
    d["techs"]["aa_lnk"] = {"base_tech": "transmission", "carrier_in": "nowhere",
                            "carrier_out": "nowhere", "link_from": first, "link_to": "a_off"}
    d["techs"]["ab_lnk"] = {"base_tech": "transmission", "carrier_in": "nowhere", "active": False,
                            "carrier_out": "nowhere", "link_from": first, "link_to": first}
    d["templates"] = {"unused": {"flow_cap_max": 0, "base_tech": "demand"}}
    d["overrides"] = {"unused": {"techs": {"aa_off": {"active": True}}}}
    d["scenarios"] = {"s": ["unused"]}
    return d


def scaled(p, rows, obj):
    """Problem with all right-hand sides and bounds multiplied / all costs multiplied."""
    return {
        "vars": {k: (v[0] * rows, v[1] * rows, v[2]) for k, v in p["vars"].items()},
        "rows": {k: (c, lo * rows, hi * rows) for k, (c, lo, hi) in p["rows"].items()},
        "exprs": {k: ({a: b * (obj if k[0].startswith("cost") else 1) for a, b in c.items()},
                      x * rows) for k, (c, x) in p["exprs"].items()},
        "obj": ({k: v * (1 if k[0] in ("unmet_demand", "unused_supply") else obj)
                 for k, v in p["obj"][0].items()},) + tuple(p["obj"][1:]),
    }


def times_all(v, f):
    if isinstance(v, dict):
        return {k: times_all(x, f) for k, x in v.items()}
    if isinstance(v, list):
        return [times_all(x, f) for x in v]
    return v * f


QUANT = {"flow_cap_max", "flow_cap_min", "flow_cap_max_systemwide", "flow_cap_min_systemwide",
         "storage_cap_max", "storage_cap_min", "area_use_max", "area_use_min", "source_cap_max",
         "source_cap_min", "export_max", "export_min"}
FRACTION = {"cost_interest_rate", "cost_depreciation_rate", "cost_om_annual_investment_fraction"}


def rescale(spec, kind, f):
    s = copy.deepcopy(spec)
    for t in s["techs"].values():
        for p in [t["p"], *t["pn"].values()]:
            for k in list(p):
                if kind == "costs":
                    go = k.startswith("cost_") and k not in FRACTION
                else:
                    go = k in QUANT or (
                        k.startswith("source_use") and t["p"].get("source_unit", "absolute")
                        == "absolute") or (
                        k.startswith("sink_use") and t["p"].get("sink_unit", "absolute")
                        == "absolute")
                if go:
                    p[k] = times_all(p[k], f)
    if kind == "quantities":
        for p in s["node_p"].values():
            if "available_area" in p:
                p["available_area"] *= f
    return s


def split(spec, share):
    s = copy.deepcopy(spec)
    t = next(t for t, d in s["techs"].items() if d["base"] == "demand")
    other = copy.deepcopy(s["techs"][t])
    for d, f in ((s["techs"][t], share), (other, 1 - share)):
        for p in [d["p"], *d["pn"].values()]:
            if "sink_use_equals" in p:
                p["sink_use_equals"] = times_all(p["sink_use_equals"], f)
    s["techs"]["a_" + t] = other
    return s


# ------------------------------------------------------------------


def read(spec, change=None):
    import calliope

    d, dfs = mg.to_calliope(spec, OPTS.get(spec["src"]))
    if change:
        d, dfs = change(d, dfs)
    m = calliope.read_dict(d, data_table_dfs=dfs)
    m.build()
    return m


def run(spec, rec):
    ext = milp if spec["src"] == "milp" else None
    spec = lpcase.repair(spec, ext)
    kind, f, rng = spec["kind"], spec["factor"], random.Random(spec["seed"])
    m = read(spec)
    a = lpcase.problem(m.backend, exprs=True)
    rec.label(kind)
    rec.label("from " + spec["src"])
    maps = {}
    if kind == "rename":
        other, maps = rename(spec, spec["seed"])
        m2 = read(other)
    elif kind == "reorder":
        def change(d, dfs):
            import numpy as np

            out = {}
            for k in sorted(dfs, key=lambda _: rng.random()):
                df = dfs[k]
                df = df.iloc[:, rng.sample(range(df.shape[1]), df.shape[1])]
                out[k] = df.iloc[np.random.default_rng(spec["seed"]).permutation(len(df))] \
                    if rng.random() < 0.5 else df
            return shuffled(d, rng), out
        m2 = read(spec, change)
    elif kind == "inactive":
        m2 = read(spec, lambda d, dfs: (junk(d, rng), dfs))
    elif kind == "shift":
        other = dict(spec, start=spec["shift"])
        old = [str(x) for x in m.inputs.timesteps.values]
        m2 = read(other)
        maps = {"timesteps": dict(zip(old, [str(x) for x in m2.inputs.timesteps.values]))}
    elif kind in ("costs", "quantities"):
        m2 = read(rescale(spec, kind, f))
    elif kind == "split":
        m2 = read(split(spec, rng.choice([0.5, 0.3, 1.0])))
    elif kind == "twice":
        m2 = read(spec)
        require(m.inputs.identical(m2.inputs), "inputs differ when the same model is read twice")
    if kind == "hash":
        b = hashserver.ask(rng.choice([1, 2]), spec, OPTS.get(spec["src"]))
        if "error" in b:
            raise Violation("with another hash seed the model fails: " + b["error"])
    else:
        b = lpcase.problem(m2.backend, exprs=True)
    rec.nontrivial(bool(a["obj"][0]))
    if kind == "split":
        x = helper.ask([lpcase.as_dump(a)[0], lpcase.as_dump(b)[0]])
        if "limit" in (x[0]["status"], x[1]["status"]):
            return
        require(x[0]["status"] == x[1]["status"], "{} became {} when a demand was split",
                x[0]["status"], x[1]["status"])
        if x[0]["status"] == "optimal":
            require(lpcase.close(x[0]["obj"], x[1]["obj"], 1e-6, 1e-5 * spec["bigM"] / 1e3),
                    "optimum {} became {} when a demand was split", x[0]["obj"], x[1]["obj"])
        return
    if maps:
        a = mapped(a, maps)
    if kind == "costs":
        a = scaled(a, 1, f)
    elif kind == "quantities":
        a = scaled(a, f, 1)
    lpcase.compare_problems(a, b, "the original", "'" + kind + "'")
    if kind == "rename":
        m2.solve()
        if str(m2.runtime.termination_condition) == "optimal":
            eff = dict(other)
            lp = reflp.build(eff, ext)
            lpcase.check_solution(m2, eff, lp, mg.times(eff), 1e-4)
            rec.label("renamed and solved")
