"""C22: derived statistics follow from the solution they summarise."""
import math

from hypothesis import strategies as st

from harness import fast, lpcase, mg, reflp
from harness.core import Violation, require

PID = "C22"
RULE = (
    "Random small energy systems (one in three clustered to weighted representative days) are "
    "solved without a zero threshold; every capacity factor, systemwide capacity factor, total "
    "generation, levelised cost, unmet sum and curtailment is recomputed in plain Python from "
    "reported flows, capacities, costs and weights, including where it must be missing. The model "
    "is then re-solved with a generated zero threshold (and with postprocessing off) and compared "
    "value by value. Non-trivial: some generation is non-zero."
)
IID_ONLY = True
EXAMPLES = {"quick": 400, "thorough": 20000}
SECONDS = {"quick": 36, "thorough": 900}
STATS = {"capacity_factor": "ntcs", "systemwide_capacity_factor": "tc", "total_generation": "tc",
         "systemwide_levelised_cost": "tck", "total_levelised_cost": "ck", "unmet_sum": "ncs",
         "curtailment": "nts", "total_curtailment": "nt"}


def setup(tier):
    fast.all()
    lpcase.DIMS.update(STATS)


@st.composite
def _case(draw):
    if draw(st.integers(0, 2)) == 2:
        spec = draw(mg.clustered_spec(max_extra=3))
    else:
        spec = draw(mg.energy_spec(max_extra=4))
    spec["zt"] = draw(st.sampled_from([1e-10, 0.05, 0.5, 1.0, 3.0]))
    spec["post"] = draw(st.integers(0, 3)) != 0
    return spec


def strategy(tier):
    return _case()


def stats(spec, lp, x, cost):
    S = lp.S
    base = {t: d["base"] for t, d in spec["techs"].items()}
    T = range(S.T)
    out = {k: {} for k in STATS}
    skip = set()  # presence undecidable (value within noise of the limit)
    g = {}
    tcs = {}
    for (n, t), cs in lp.cs.items():
        for c in cs:
            if c in lp.co[n, t]:
                tcs.setdefault((t, c), []).append(n)
                cap = x["flow_cap", n, t, c]
                if cap > 0:
                    for i in T:
                        out["capacity_factor"]["capacity_factor", n, t, c, i] = (
                            x["flow_out", n, t, c, i] / (cap * S.res[i]))
    hours = math.fsum(r * w for r, w in zip(S.res, S.w))
    for (t, c), ns in tcs.items():
        allcap = math.fsum(v for k, v in x.items() if k[0] == "flow_cap" and k[2:] == (t, c))
        if any(x["flow_cap", n, t, c] > 0 for n in ns):
            tot = math.fsum(x["flow_out", n, t, c, i] * S.w[i] for n in ns for i in T)
            out["systemwide_capacity_factor"]["systemwide_capacity_factor", t, c] = (
                tot / (allcap * hours))
        if base[t] != "demand":
            g[t, c] = math.fsum(
                (x["flow_out", n, t, c, i] + x.get(("flow_export", n, t, c, i), 0.0)) * S.w[i]
                for n in ns for i in T)
            out["total_generation"]["total_generation", t, c] = g[t, c]
    for k in spec["costs"]:
        for (t, c), v in g.items():
            here = [v2 for key, v2 in cost.items() if key[2] == t and key[3] == k]
            key = ("systemwide_levelised_cost", t, c, k)
            if abs(v) < 1e-9:
                skip.add(key)
            elif v > 0 and here:
                out["systemwide_levelised_cost"][key] = math.fsum(here) / v
        for c in spec["carriers"]:
            gg = [v for (t, c2), v in g.items() if c2 == c]
            key = ("total_levelised_cost", c, k)
            if gg and abs(math.fsum(gg)) < 1e-9:
                skip.add(key)
            elif gg and math.fsum(gg) > 0:
                here = [v for kk, v in cost.items() if kk[3] == k]
                if here:
                    out["total_levelised_cost"][key] = math.fsum(here) / math.fsum(gg)
                else:  # no cost of this class at all: missing and 0 both say so
                    skip.add(key)
    if spec["ensure"]:
        for key, v in x.items():
            if key[0] == "unmet_demand":
                out["unmet_sum"][("unmet_sum",) + key[1:]] = v + x[("unused_supply",) + key[1:]]
    for n, t in lp.cs:
        if base[t] != "supply" or not x["source_cap", n, t] > 0:
            continue
        unit = S.at(t, "source_unit", n) or "absolute"
        if unit == "absolute":
            sc = 1.0
        else:
            sc = (x["area_use", n, t] if unit == "per_area" else
                  math.fsum(x["flow_cap", n, t, c] for c in lp.cs[n, t]))
            if not sc > 0:
                sc = None
        mx = [S.at(t, "source_use_max", n, None, i) for i in T]
        if sc is None:
            continue
        for i in T:
            if mx[i] is not None and mx[i] > 0:
                out["curtailment"]["curtailment", n, t, i] = (
                    1 - x["source_use", n, t, i] / (mx[i] * sc))
        if any(m is not None and m > 0 for m in mx):
            out["total_curtailment"]["total_curtailment", n, t] = 1 - math.fsum(
                x["source_use", n, t, i] * S.w[i] for i in T) / math.fsum(
                m * sc * w for m, w in zip(mx, S.w))
    return out, skip


def run(spec, rec):
    spec = lpcase.repair(spec)
    times = mg.times(spec)
    eff = mg.effective(spec)
    lp = reflp.build(spec)
    m = lpcase.build_model(spec)
    m.solve(zero_threshold=0)
    if str(m.runtime.termination_condition) != "optimal":
        return
    x = lpcase.solution(m, lp, times)
    res = m.results.copy(deep=True)
    cost = {k: float(v) for k, v in lpcase.keyed(res["cost"], "cost", times).items()} \
        if "cost" in res and res.cost.ndim else {}
    want, skip = stats(eff, lp, x, cost)
    for name, vals in want.items():
        if name not in res:
            require(not vals, "results lack {}", name)
            continue
        got = {k: float(v) for k, v in lpcase.keyed(res[name], name, times).items()}
        for k, v in vals.items():
            if k in skip:
                continue
            require(k in got, "{} is missing at {} (expected {})", name, k[1:], v)
            require(lpcase.close(got[k], v, 1e-6, 1e-7),
                    "{} at {} is {} but the solution gives {}", name, k[1:], got[k], v)
        for k, v in got.items():
            require(k in vals or k in skip, "{} reported as {} at {} where it is undefined", name,
                    v, k[1:])
    rec.nontrivial(any(v > 1e-6 for v in want["total_generation"].values()))
    for name, vals in want.items():
        rec.label(name, bool(vals))
    rec.label("weighted", any(w != 1 for w in lp.S.w))
    zt = spec.get("zt", 1e-10)
    post = spec.get("post", True)
    m.solve(force=True, zero_threshold=zt, postprocessing_active=post)
    require(str(m.runtime.termination_condition) == "optimal", "not optimal when solved again")
    zeroed = False
    for name in res.data_vars:
        if name in STATS and not post:
            require(name not in m.results, "{} reported although postprocessing is off", name)
            continue
        require(name in m.results, "{} vanished when solved again", name)
        a, b = res[name], m.results[name]
        if a.dtype.kind not in "fi":
            continue
        b = b.transpose(*a.dims).reindex_like(a)
        for u, v in zip(a.values.flat, b.values.flat):
            if u != u or v != v:
                require((u != u) == (v != v), "{}: {} became {} with a zero threshold", name, u, v)
            elif abs(u) < zt * (1 - 1e-9):
                zeroed = zeroed or u != 0
                require(v == 0, "{}: {} is below the threshold {} but reported as {}", name, u, zt,
                        v)
            elif abs(u) > zt * (1 + 1e-9):
                require(lpcase.close(u, v, 1e-9, 1e-12),
                        "{}: {} is above the threshold {} but reported as {}", name, u, zt, v)
    rec.label("values below the threshold", zeroed)
    rec.label("no postprocessing", not post)
