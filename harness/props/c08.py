"""C08: subsetting and resampling preserve the meaning of time series."""
import copy
import datetime as dt
import itertools
import math
import random
import warnings

from hypothesis import strategies as st

from harness import fast, inputs
from harness.core import Violation, require

PID = "C08"
RULE = (
    "A case is a definition with time-dependent parameters (base ones, and declared user ones with "
    "a drawn resampling method, also with missing steps, text and flags) on a time axis of drawn "
    "start, step (1 min to 1 day, or irregular) and length, a second datetime dimension and an "
    "integer ordered one; with subsets of any dimension (time ranges written at year to second "
    "resolution) and resampling to drawn lengths (also longer than the data, not dividing it, "
    "finer than it, or months). Every cell of the inputs, the time axis, time-step durations and "
    "total hours are compared with a plain-Python reference. Non-trivial: the axis changed."
)
EXAMPLES = {"quick": 5000, "thorough": 100000}
SECONDS = {"quick": 36, "thorough": 900}
METHOD = {"flow_out_eff": "mean", "source_use_max": "sum", "cost_flow_out": "mean",
          "sink_use_equals": "sum", "my_flag": "first", "my_text": "first"}
LENGTH = {"1h": 60, "2h": 120, "3h": 180, "4h": 240, "5h": 300, "6h": 360, "12h": 720, "D": 1440,
          "1D": 1440, "90min": 90, "30min": 30, "2D": 2880, "24h": 1440}
FMT = {"year": "%Y", "month": "%Y-%m", "day": "%Y-%m-%d", "hour": "%Y-%m-%d %H", "minute":
       "%Y-%m-%d %H:%M", "second": "%Y-%m-%d %H:%M:%S", "T": "%Y-%m-%dT%H:%M"}


def setup(tier):
    fast.all()


def stamp(t):
    return dt.datetime.fromisoformat(t)


@st.composite
def _case(draw):
    start = draw(st.sampled_from(["2005-01-01 00:00", "2005-01-01 03:30", "2004-12-31 20:00",
                                  "2005-02-28 22:00", "2005-01-31 12:00", "2005-03-07 00:00"]))
    step = draw(st.sampled_from([15, 30, 60, 60, 60, 60, 120, 180, 360, 1440, 1, 45]))
    n = draw(st.integers(2, 26))
    if draw(st.integers(0, 3)) == 0:
        offs = list(itertools.accumulate(
            [0] + draw(st.lists(st.sampled_from([step, 2 * step, 5 * step]), min_size=n - 1,
                                max_size=n - 1))))
    else:
        offs = [i * step for i in range(n)]
    times = inputs.stamps(start, offs)
    s = draw(inputs.spec(times=times, max_techs=2, links=draw(st.booleans()), inactive=False,
                         none_ok=False))
    num = lambda: draw(st.sampled_from([0.0, 1.0, 2.0, 3.5, 7.0, 0.25]))  # noqa: E731

    def over(*dims, labels, frac=True):
        every = list(itertools.product(*labels))
        idx = [i for i in every if not frac or draw(st.integers(0, 3))] or every[:1]
        return {"data": [num() for _ in idx], "index": [list(i) for i in idx], "dims": list(dims)}

    d = s["defs"]
    s["method"] = {p: draw(st.sampled_from(["sum", "mean", "first"]))
                   for p in ("my_num", "my_top", "my_sum", "my_day")}
    d["my_sum"] = over("timesteps", labels=[times], frac=draw(st.booleans()))
    days = inputs.stamps(draw(st.sampled_from(["2030-01-01", "2030-01-30"])),
                         [1440 * i for i in range(draw(st.integers(2, 5)))])
    d["my_day"] = over("daysteps", labels=[days])
    s["eras"] = draw(st.sampled_from([[2020, 2030, 2040], [1, 2, 3, 5], [10, 20]]))
    d["my_era"] = over("eras", labels=[s["eras"]], frac=False)
    if draw(st.booleans()):
        d["my_flag"] = {"data": [draw(st.booleans()) for _ in times],
                        "index": [[t] for t in times], "dims": ["timesteps"]}
    if draw(st.booleans()):
        d["my_text"] = {"data": [draw(st.sampled_from(["a", "b"])) for _ in times],
                        "index": [[t] for t in times], "dims": ["timesteps"]}
    if draw(st.integers(0, 3)) == 0:
        d["my_both"] = over("timesteps", "daysteps", labels=[times, days], frac=False)
        s["method"]["my_both"] = draw(st.sampled_from(["sum", "mean", "first"]))
    sub = {}

    def rng(labels):
        i, j = sorted(draw(st.lists(st.integers(0, len(labels) - 1), min_size=2, max_size=2)))
        out = []
        for x, edge in ((labels[i], -1), (labels[j], 1)):
            t = stamp(x) + dt.timedelta(minutes=draw(st.sampled_from([0, 0, 0, 7, -7])))
            if draw(st.integers(0, 9)) == 0:
                t += edge * dt.timedelta(days=400)
            out.append(t.strftime(FMT[draw(st.sampled_from(
                ["day", "day", "day", "hour", "minute", "second", "month", "year", "T"]))]))
        return out

    if draw(st.booleans()):
        sub["timesteps"] = rng(times)
    if draw(st.integers(0, 4)) == 0:
        sub["daysteps"] = rng(sorted({i[0] for i in d["my_day"]["index"]}))
    if draw(st.integers(0, 3)) == 0:
        a, b = sorted([draw(st.sampled_from(s["eras"])), draw(st.sampled_from(s["eras"]))])
        sub["eras"] = [a + draw(st.sampled_from([0, 0, -1])), b + draw(st.sampled_from([0, 0, 1]))]
    ref = inputs.Reference(s)
    for dim, keep in (("carriers", ref.C), ("nodes", ref.N), ("costs", None)):
        if keep is None:
            keep = {lab for p in ref.layers for la in ref.layers[p] for k in la for dd, lab in k
                    if dd == dim}
        if keep and draw(st.integers(0, 5)) == 0:
            sub[dim] = draw(st.lists(st.sampled_from(sorted(keep)), min_size=1, unique=True))
            for x in {"carriers": "elec", "nodes": "n0"}.get(dim, ""), :
                if x and x not in sub[dim]:
                    sub[dim].append(x)
    if draw(st.integers(0, 9)) == 0:
        sub["nosuchdim"] = ["a"]
    s["sub"] = sub
    s["res"] = {}
    if draw(st.integers(0, 3)) or not sub:
        s["res"]["timesteps"] = draw(st.sampled_from(
            [k for k in sorted(LENGTH) if offs[-1] / LENGTH[k] < 120] + ["MS"]))
    if draw(st.integers(0, 4)) == 0:
        s["res"]["daysteps"] = draw(st.sampled_from(["2D", "3D", "D"]))
    if s["res"] and draw(st.integers(0, 11)) == 0:
        s["bad"] = draw(st.sampled_from(["undeclared", "freq", "dim"]))
    s["seed"] = draw(st.integers(0, 99))
    return s


def strategy(tier):
    return _case()


def bounds(texts):
    """First and last moment a range covers; each end stands for its whole period."""
    out = []
    for k, x in enumerate(texts):
        for name, f in FMT.items():
            if len(x) == len(dt.datetime(2000, 10, 10, 10, 10, 10).strftime(f)) and (
                    ("T" in x) == (name == "T")):
                t = dt.datetime.strptime(x, f)
                break
        if k:
            if name == "year":
                t = t.replace(year=t.year + 1)
            elif name == "month":
                t = (t + dt.timedelta(days=32)).replace(day=1)
            else:
                t += {"day": dt.timedelta(days=1), "hour": dt.timedelta(hours=1), "second":
                      dt.timedelta(seconds=1)}.get(name, dt.timedelta(minutes=1))
            t -= dt.timedelta(microseconds=1)
        out.append(t)
    return out


def bins(labels, freq):
    """{new label: labels of the steps it covers}, in order."""
    ts = [stamp(x) for x in labels]
    out = {}
    if freq == "MS":
        t = ts[0].replace(day=1, hour=0, minute=0)
        while t <= ts[-1]:
            nxt = (t + dt.timedelta(days=32)).replace(day=1)
            out[t] = [x for x, y in zip(labels, ts) if t <= y < nxt]
            t = nxt
    else:
        L = dt.timedelta(minutes=LENGTH[freq] if freq in LENGTH else int(freq[:-1]) * 1440)
        t = ts[0].replace(hour=0, minute=0)
        t += (ts[0] - t) // L * L
        while t <= ts[-1]:
            out[t] = [x for x, y in zip(labels, ts) if t <= y < t + L]
            t += L
    return {t.strftime("%Y-%m-%d %H:%M"): v for t, v in out.items()}


class Changed(inputs.Reference):
    """The reference after subset and resampling."""

    axes = {}
    method = {}

    def get(self, p, q):
        on = [d for d in self.axes if d in self.dims(p) and d in q]
        return self._get(p, q, on)

    def _get(self, p, q, on):
        if not on:
            return super().get(p, q)
        d, rest = on[0], on[1:]
        vals = [self._get(p, dict(q, **{d: x}), rest) for x in self.axes[d].get(q[d], [])]
        vals = [v for v in vals if not inputs.is_missing(v)]
        if not vals:
            return None
        how = self.method[p]
        if len(self.axes[d].get(q[d])) == 1 and self.axes[d].get(q[d]) == [q[d]]:
            return vals[0]
        if how == "first":
            return vals[0]
        tot = math.fsum(vals)
        return tot if how == "sum" else tot / len(vals)


def run(s, rec):
    import calliope

    d = inputs.definition(s, random.Random(s["seed"]))
    init = d["config"]["init"]
    if s["sub"]:
        init["subset"] = copy.deepcopy(s["sub"])
    if s["res"]:
        init["resample"] = dict(s["res"])
    params = {p: {"resample_method": m} for p, m in s["method"].items()}
    if s.get("bad") == "undeclared" and "timesteps" not in s["sub"] and "timesteps" in s["res"]:
        del params["my_sum"]
    elif s.get("bad") == "freq":
        d["config"]["init"]["resample"]["timesteps"] = "3parsecs"
    elif s.get("bad") == "dim":
        d["config"]["init"]["resample"]["techs"] = "1D"
    mathdef = {"base": {
        "dimensions": {"daysteps": {"dtype": "datetime", "ordered": True, "iterator": "dayst"},
                       "eras": {"dtype": "integer", "ordered": True, "iterator": "era"},
                       "things": {"dtype": "string", "iterator": "thing"}},
        "parameters": {**params, "my_era": {}},
        "lookups": {"my_flag": {"dtype": "bool"}, "my_text": {"dtype": "string"}},
    }}
    ref = Changed(s)
    ref.method = {**METHOD, **s["method"]}
    axes, empty = {}, None
    for dim, labels in (("timesteps", s["times"]),
                        ("daysteps", sorted({lab for p in ref.layers for la in ref.layers[p]
                                             for k in la for dd, lab in k if dd == "daysteps"}))):
        if dim in s["sub"]:
            lo, hi = bounds(s["sub"][dim])
            outside = hi.date() < stamp(labels[0]).date() or lo.date() > stamp(labels[-1]).date()
            labels = [x for x in labels if lo <= stamp(x) <= hi]
            if not labels:
                empty = outside
        axes[dim] = {x: [x] for x in labels}
        if labels and dim in s["res"]:
            axes[dim] = bins(labels, s["res"][dim])
    if empty is not None:
        rec.label("range outside the data" if empty else "range between two steps")
        if not empty:
            return
        try:
            _load(calliope, d, mathdef)
        except calliope.exceptions.ModelError:
            return
        raise Violation(f"subset {s['sub']} outside the time axis accepted")
    if s.get("bad") == "freq" or s.get("bad") == "dim" or (
            s.get("bad") == "undeclared" and "my_sum" not in params):
        rec.label("refused: " + s["bad"])
        rec.nontrivial()
        try:
            _load(calliope, d, mathdef)
        except calliope.exceptions.ModelError:
            return
        raise Violation(f"accepted: {s['bad']}")
    ref.axes = axes
    sub = s["sub"]
    ref.defmat = {x for x in ref.defmat if all(
        x[i] in sub.get(k, [x[i]]) for i, k in enumerate(("nodes", "techs", "carriers")))}
    ends = {}
    for n, t, c in ref.defmat:
        ends.setdefault(t, set()).add(n)
    ref.defmat = {x for x in ref.defmat if "link" not in s["techs"][x[1]] or len(ends[x[1]]) == 2}
    ref.cin &= ref.defmat
    ref.cout &= ref.defmat
    ref.refresh()
    ds = _load(calliope, d, mathdef).inputs
    for dim, ax in axes.items():
        if dim not in ds.dims:
            require(all(ref.get("my_day", {dim: x}) is None for x in ax),
                    "dimension {} is gone although data for it remain", dim)
            continue
        got = inputs.labels_of(ds, dim)
        require(got == list(ax), "{} are {}, expected {} (subset {}, resample {})", dim, got,
                list(ax), sub.get(dim), s["res"].get(dim))
        require(ds[dim].dtype.kind == "M", "{} is not a date dimension", dim)
    if "eras" in ds.dims:
        want = [x for x in s["eras"] if "eras" not in sub or sub["eras"][0] <= x <= sub["eras"][1]]
        require(inputs.labels_of(ds, "eras") == want, "eras {} for subset {}",
                inputs.labels_of(ds, "eras"), sub.get("eras"))
    if "costs" in sub and "costs" in ds.dims:
        require(sorted(inputs.labels_of(ds, "costs")) == sorted(sub["costs"]), "costs {} for subset {}",
                inputs.labels_of(ds, "costs"), sub["costs"])
    inputs.check(ds, ref, approx=1e-9, members=False)
    # durations
    new = [stamp(x) for x in axes["timesteps"]]
    res = ds["timestep_resolution"]
    require(res.dims == ("timesteps",), "durations over {}", res.dims)
    res = [float(x) for x in res.values]
    gaps = [(b - a).total_seconds() / 3600 for a, b in zip(new, new[1:])]
    f = s["res"].get("timesteps")
    if gaps:
        gaps.append(gaps[-1])
    elif f in LENGTH:
        gaps = [LENGTH[f] / 60]
    elif f == "MS":
        gaps = [((new[0] + dt.timedelta(days=32)).replace(day=1) - new[0]).days * 24]
    else:
        gaps = [1.0]
    require(len(res) == len(gaps) and all(abs(a - b) < 1e-9 for a, b in zip(res, gaps)),
            "durations {} for time steps {}", res, list(axes["timesteps"]))
    require(bool((ds["timestep_weights"] == 1).all()), "weights differ from 1 without clustering")
    if f in LENGTH:
        old = [x for v in axes["timesteps"].values() for x in v]
        o = [stamp(x) for x in old]
        g = {(b - a).total_seconds() / 60 for a, b in zip(o, o[1:])}
        if len(g) == 1 and LENGTH[f] % min(g) == 0:
            total = min(g) * len(o)
            if total % LENGTH[f] == 0 and new[0] == o[0]:
                require(abs(sum(res) - total / 60) < 1e-9, "{} hours modelled instead of {}",
                        sum(res), total / 60)
                rec.label("total hours kept")
    rec.label("subset time", "timesteps" in sub)
    rec.label("subset other", set(sub) - {"timesteps"})
    rec.label("resample", f)
    rec.label("finer than the data", any(not v for v in axes["timesteps"].values()))
    rec.label("single step", len(new) == 1)
    rec.label("second datetime dimension resampled", "daysteps" in s["res"])
    rec.nontrivial(list(axes["timesteps"]) != s["times"])


def _load(calliope, d, mathdef):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return calliope.read_dict(d, math_dict=mathdef)
