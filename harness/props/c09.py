"""C09: time clustering keeps representative days and weights consistent."""
import copy
import datetime as dt
import random
import warnings

from hypothesis import strategies as st

from harness import fast, helper, inputs, lpcase, mg, reflp
from harness.core import require

PID = "C09"
RULE = (
    "Two kinds of cases. (1) A definition with time-dependent data on 2-7 days of drawn step "
    "length and start (also not at midnight, incomplete first or last day, optionally subset or "
    "resampled first) is clustered by a drawn map from days to representative days, given as "
    "text, date or datetime data, from a table or YAML; time axis, all input cells, weights, "
    "weighted hours and every lookup are compared with the map. (2) Small systems with storage "
    "are clustered and solved with the inter-cluster math; stored energy is rebuilt over all "
    "original days and checked, with every other constraint, against a reference that models "
    "each original day, and the optimum against that reference's. Non-trivial: some day is "
    "represented by another."
)
IID_ONLY = True
EXAMPLES = {"quick": 5000, "thorough": 100000}
SECONDS = {"quick": 36, "thorough": 900}


def setup(tier):
    fast.all()


@st.composite
def _inputs_case(draw):
    step = draw(st.sampled_from([60, 120, 180, 240, 360, 480, 720, 1440]))
    days = draw(st.integers(2, 6))
    per = 1440 // step
    first = draw(st.sampled_from([0, 0, 0, step // 2, 30])) % step
    cut0 = draw(st.sampled_from([0, 0, 0, 1, 2])) % per if days > 2 else 0
    cut1 = draw(st.sampled_from([0, 0, 0, 1])) % per
    offs = [first + i * step for i in range(days * per)][cut0:]
    offs = offs[:len(offs) - cut1]
    times = inputs.stamps(draw(st.sampled_from(["2005-01-01", "2004-12-30", "2005-02-27"])), offs)
    s = draw(inputs.spec(times=times, max_techs=2, links=draw(st.booleans()), inactive=False,
                         none_ok=False))
    for p in ("my_num", "my_top"):
        for x in (s["defs"],):
            x.pop(p, None)
    ds = sorted({x[:10] for x in times})
    if draw(st.integers(0, 4)) == 0 and len(ds) > 2:
        i = draw(st.integers(0, len(ds) - 2))
        j = draw(st.integers(i + 1, len(ds) - 1))
        s["sub"] = [ds[i], ds[j]]
        ds = ds[i:j + 1]
    s["resample"] = None
    if per > 1 and first == 0 and draw(st.integers(0, 4)) == 0 and step <= 360:
        s["resample"] = f"{step // 30}h"
    reps = sorted(draw(st.sets(st.sampled_from(ds), min_size=1, max_size=len(ds))))
    s["map"] = {d: d if d in reps and draw(st.booleans()) else draw(st.sampled_from(reps)) for d in ds}
    for r in set(reps):
        if r not in s["map"].values():
            s["map"][r] = r
    s["as"] = draw(st.sampled_from(["yaml", "table", "table", "stamp"]))
    s["dtype"] = draw(st.sampled_from([None, "string", "date"]))
    s["seed"] = draw(st.integers(0, 99))
    return {"inputs": s}


@st.composite
def _solved_case(draw):
    s = draw(mg.clustered_spec(max_extra=1, force=("storage",), ncarriers=(1, 1, 2)))
    if draw(st.booleans()):
        # supply and demand at different times
        T = len(s["offs"])
        p = s["techs"]["sup0"]["p"]
        for x in ("source_use_equals", "source_use_min"):
            p.pop(x, None)
        p["source_use_max"] = {"ts": [draw(st.sampled_from([0, 0, 4, 12])) for _ in range(T)]}
        p["source_unit"] = "absolute"
        s["techs"]["sup0"]["pn"] = {}
        p = s["techs"]["dem0"]["p"]
        for x in ("sink_use_equals", "sink_use_min", "sink_use_max"):
            p.pop(x, None)
        p["sink_use_equals"] = {"ts": [draw(st.sampled_from([0, 1, 2, 5])) for _ in range(T)]}
        p["sink_unit"] = "absolute"
        s["techs"]["dem0"]["pn"] = {}
    inter = draw(st.integers(0, 3)) != 0
    s["cluster"]["inter"] = inter
    if inter:
        for t in s["techs"].values():
            if t["base"] != "storage" and not t["p"].get("include_storage"):
                continue
            for x in (t["p"], *t["pn"].values()):
                x.pop("storage_loss", None)
                x.pop("storage_discharge_depth", None)
            t["p"]["cyclic_storage"] = draw(st.booleans())
            if t["p"]["cyclic_storage"]:
                for x in (t["p"], *t["pn"].values()):
                    x.pop("storage_initial", None)
            elif draw(st.booleans()):
                t["p"]["storage_initial"] = draw(st.sampled_from([0.25, 0.5, 1]))
    return {"solved": s}


def strategy(tier):
    return st.sampled_from([0, 0, 1, 1]).flatmap(
        lambda k: _solved_case() if k else _inputs_case())


class Cut(inputs.Reference):
    bins = None

    def get(self, p, q):
        if self.bins and "timesteps" in q and "timesteps" in self.dims(p):
            vals = [super(Cut, self).get(p, dict(q, timesteps=x)) for x in self.bins[q["timesteps"]]]
            vals = [v for v in vals if not inputs.is_missing(v)]
            if not vals:
                return None
            how = {"source_use_max": "sum", "sink_use_equals": "sum", "flow_out_eff": "mean",
                   "cost_flow_out": "mean"}[p]
            return sum(vals) if how == "sum" else sum(vals) / len(vals)
        return super().get(p, q)


def run(case, rec):
    if "solved" in case:
        return run_solved(case["solved"], rec)
    import calliope
    import pandas as pd

    from harness.props import c08

    s = case["inputs"]
    if any("timesteps" in v["dims"] for x in s["techs"].values()
           for v in [x["p"].get("my_num")] if isinstance(v, dict)) and s["resample"]:
        return
    d = inputs.definition(s, random.Random(s["seed"]))
    init = d["config"]["init"]
    times = [t for t in s["times"] if t[:10] in s["map"]]
    if s.get("sub"):
        init["subset"] = {"timesteps": list(s["sub"])}
    firsts = {}
    for t in times:
        firsts.setdefault(t[:10], t)
    ref = Cut(s)
    init["time_cluster"] = "days_like"
    dfs = {}
    rows = [firsts[x] for x in s["map"]]
    vals = list(s["map"].values())
    if s["as"] == "yaml":
        d.setdefault("data_definitions", {})["days_like"] = {
            "data": vals, "index": [[t] for t in rows], "dims": ["timesteps"]}
    else:
        dfs["dl"] = pd.DataFrame(
            {"v": pd.to_datetime(vals) if s["as"] == "stamp" else vals},
            index=pd.Index(pd.to_datetime(rows), name="timesteps"))
        dfs["dl"].columns = pd.Index(["days_like"], name="inputs")
        d["data_tables"] = {"dl": {"table": "dl", "rows": "timesteps", "columns": "inputs"}}
    mathdef = {"base": {"lookups": {}}}
    kind = s["dtype"]
    if s["as"] == "stamp":
        kind = "datetime" if s["dtype"] else None
    if s["resample"] or kind:
        mathdef["base"]["lookups"]["days_like"] = {
            "dtype": kind or ("datetime" if s["as"] == "stamp" else "string")}
    old = times
    if s["resample"]:
        init["resample"] = {"timesteps": s["resample"]}
        c08.LENGTH.setdefault(s["resample"], int(s["resample"][:-1]) * 60)
        ref.bins = c08.bins(times, s["resample"])
        times = list(ref.bins)
        # (a bin may start in the day before the steps it covers)
        if {t[:10] for t in times} != set(s["map"]):
            return
        firsts = {}
        for t in times:
            firsts.setdefault(t[:10], t)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = calliope.read_dict(d, data_table_dfs=dfs, math_dict=mathdef)
    ds = m.inputs
    reps = sorted(set(s["map"].values()))
    want = [t for t in times if t[:10] in reps]
    got = inputs.labels_of(ds, "timesteps")
    require(got == want, "time steps {}, representative days {} have {}", got, reps, want)
    inputs.check(ds, ref, approx=1e-9, members=False, skip=(
        "days_like", "timestep_cluster", "lookup_datestep_cluster", "cluster_first_timestep",
        "lookup_cluster_last_timestep", "lookup_datestep_last_cluster_timestep"))
    # lookups
    gs = lambda name: ds[name].to_series().dropna()  # noqa: E731
    text = lambda t: pd.Timestamp(t).strftime("%Y-%m-%d %H:%M")  # noqa: E731
    tc = {text(t): float(v) for t, v in gs("timestep_cluster").items()}
    ident = {}
    for t in want:
        require(t in tc, "time step {} has no cluster", t)
        ident.setdefault(t[:10], tc[t])
        require(ident[t[:10]] == tc[t], "steps of {} are in different clusters {}", t[:10], tc)
    require(len(set(ident.values())) == len(reps), "clusters {} for days {}", ident, reps)
    require(sorted(map(float, ds.clusters.values)) == sorted(ident.values()), "clusters are {}",
            ds.clusters.values)
    last = {}
    for t in want:
        last[t[:10]] = t
    dc = {text(t)[:10]: float(v) for t, v in gs("lookup_datestep_cluster").items()}
    require(dc == {x: ident[y] for x, y in s["map"].items()},
            "days map to clusters {}, expected {} with {}", dc, s["map"], ident)
    require(len(ds.datesteps) == len(s["map"]), "{} original days for {}", len(ds.datesteps),
            len(s["map"]))
    dl = {text(t)[:10]: text(v) for t, v in gs("lookup_datestep_last_cluster_timestep").items()}
    require(dl == {x: last[y] for x, y in s["map"].items()},
            "days map to last steps {}, expected {}", dl, {x: last[y] for x, y in s["map"].items()})
    fl = {text(t): bool(v) for t, v in gs("cluster_first_timestep").items()}
    require({t for t, v in fl.items() if v} == {firsts[r] for r in reps},
            "first steps {}, expected {}", fl, [firsts[r] for r in reps])
    cl = {text(t): text(v) for t, v in gs("lookup_cluster_last_timestep").items()}
    require(cl == {firsts[r]: last[r] for r in reps}, "first to last steps {}, expected {}", cl,
            {firsts[r]: last[r] for r in reps})
    # weights
    w = {text(t): float(v) for t, v in gs("timestep_weights").items()}
    count = {r: sum(1 for v in s["map"].values() if v == r) for r in reps}
    require(w == {t: count[t[:10]] for t in want}, "weights {} for map {}", w, s["map"])
    stamps = [c08.stamp(t) for t in times]
    gaps = [(b - a).total_seconds() / 3600 for a, b in zip(stamps, stamps[1:])]
    gaps.append(gaps[-1])
    res = {text(t): float(v) for t, v in gs("timestep_resolution").items()}
    require(res == {t: g for t, g in zip(times, gaps) if t in want}, "durations {}", res)
    full = {}
    for t, g in zip(times, gaps):
        full[t[:10]] = full.get(t[:10], 0) + g
    if len(set(full.values())) == 1:
        require(abs(sum(res[t] * w[t] for t in want) - sum(gaps)) < 1e-6,
                "weighted hours differ from the {} hours of the period", sum(gaps))
        rec.label("weighted hours checked")
    rec.label("days not starting at midnight", any(not t.endswith("00:00") for t in firsts.values()))
    rec.label("resampled", s["resample"])
    rec.label("subset", s.get("sub"))
    rec.label("map as " + s["as"])
    rec.label("map declared", kind)
    rec.nontrivial(any(a != b for a, b in s["map"].items()))


def run_solved(spec, rec):
    inter = spec["cluster"]["inter"]
    spec = lpcase.repair(spec)
    lp = reflp.build(spec)
    m = lpcase.build_model(
        spec, {"init": {"extra_math": ["storage_inter_cluster"]}} if inter else None)
    m.solve()
    want = helper.solve(lp.dump())
    rec.label("inter-cluster" if inter else "solved")
    status = str(m.runtime.termination_condition)
    if want["status"] != "optimal" or status != "optimal":
        require(want["status"] != "optimal", "{} although the reference has an optimum {}", status,
                want.get("obj"))
        if want["status"] == "infeasible":
            require(status != "optimal", "optimal although the reference is infeasible")
        rec.label("not optimal")
        return
    times = mg.times(spec)
    eff = mg.effective(spec)
    x = {}
    if not inter:
        x = lpcase.check_solution(m, spec, lp, times)
    else:
        for name in sorted({k[0] for k in lp.vars} - {"level"}):
            x.update({k: float(v) for k, v in lpcase.keyed(m.results[name], name, times).items()})
        S = reflp.Spec(eff)
        sti = m.results["storage_inter_cluster"]
        sta = m.results["storage"]
        for n, t in sorted({k[1:3] for k in lp.vars if k[0] == "level"}):
            start = sti.sel(nodes=n, techs=t).values
            within = sta.sel(nodes=n, techs=t).values
            require(len(start) == len(eff["days"]), "{} days of storage for {}", len(start),
                    len(eff["days"]))
            for d, j, i in reflp.inter_steps(S):
                x["level", n, t, d, j] = float(start[d]) + float(within[i])
        bad = lp.violations(x)
        require(not bad, "rebuilt solution breaks {}", bad[:1])
    obj = want["obj"] + lp.obj0
    got = lpcase.reported_objective(m, spec)
    require(lpcase.close(got, obj, 1e-5, 1e-4 * max(1, spec["bigM"] / 1e3)),
            "objective {} but the reference over all days gives {}", got, obj)
    rec.label("stores something", any(v > 1e-6 for k, v in x.items() if k[0] in ("level", "storage")))
    mp = spec["cluster"]["map"]
    rec.nontrivial(any(i != v for i, v in enumerate(mp)))
