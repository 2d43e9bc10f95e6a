"""Integer extension of the reference problem (reflp) and of the generator (mg)."""
from hypothesis import strategies as st

from harness import mg
from harness.mg import one_of
from harness.reflp import INF, Lin, fin

V = Lin.v


def integer(S, n, t):
    return S.at(t, "cap_method", n) == "integer"


def dispatch(S, n, t):
    return integer(S, n, t) and S.at(t, "integer_dispatch", n) is True


def dflt(v, d):
    return d if v is None or v != v else v


def flow_rules(S, n, t, c):
    return {"units": dispatch(S, n, t)}


def prepare(S, lp, places):
    """Variables; lower bounds of capacities become rows that may depend on the units."""
    for n, t in places:
        if not integer(S, n, t):
            continue
        lp.var(("purchased_units", n, t), dflt(S.at(t, "purchased_units_min", n), 0.0),
               dflt(S.at(t, "purchased_units_max", n), INF), True)


def investment(S, lp, n, t, k):
    a = S.at(t, "cost_purchase", n, None, None, k)
    d = S.at(t, "cost_purchase_per_distance", n, None, None, k)
    if not integer(S, n, t):
        return {}
    link = S.s["techs"][t]["base"] == "transmission"
    if not (fin(a) or (link and fin(d))):
        return {}
    f = dflt(a, 0.0)
    if link:
        f = (f + dflt(d, 0.0) * dflt(S.at(t, "distance", n), 1.0)) * 0.5
    if ("purchased_units", n, t) not in lp.vars:
        lp.var(("purchased_units", n, t), dflt(S.at(t, "purchased_units_min", n), 0.0),
               dflt(S.at(t, "purchased_units_max", n), INF), True)
    return {("cost_investment_purchase", None): V(("purchased_units", n, t), f)}


def rows(S, lp, places, cs, ci, co):
    T = range(S.T)
    at = S.at
    big = S.s["bigM"]
    prepare(S, lp, [p for p in places if ("purchased_units",) + p not in lp.vars])

    def total(keys):
        r = Lin()
        for k in keys:
            if k in lp.vars:
                r = r + V(k)
        return r

    for n, t in places:
        if at(t, "force_async_flow", n) is True:
            for i in T:
                sw = lp.var(("async_flow_switch", n, t, i), 0, 1, True)
                lp.row(f"async in {n} {t} {i}",
                       total(("flow_in", n, t, c, i) for c in cs[n, t]) + V(sw, big), hi=big)
                lp.row(f"async out {n} {t} {i}",
                       total(("flow_out", n, t, c, i) for c in cs[n, t]) - V(sw, big), hi=0)
        if not integer(S, n, t):
            continue
        u = V(("purchased_units", n, t))
        per = {c: at(t, "flow_cap_per_unit", n, c) for c in cs[n, t]}
        for c in cs[n, t]:
            cap = V(("flow_cap", n, t, c))
            if fin(per[c]):
                lp.row(f"capacity of units {n} {t} {c}", cap - u * per[c], 0, 0)
            mx = at(t, "flow_cap_max", n, c)
            lp.row(f"capacity only if purchased {n} {t} {c}", cap - u * (mx if fin(mx) else big),
                   hi=0)
            mn = at(t, "flow_cap_min", n, c)
            lp.vars["flow_cap", n, t, c][0] = 0.0
            if fin(mn):
                lp.row(f"capacity minimum if purchased {n} {t} {c}", cap - u * mn, lo=0)
        for v, p in (("storage_cap", "storage_cap_min"), ("area_use", "area_use_min"),
                     ("source_cap", "source_cap_min")):
            if (v, n, t) in lp.vars:
                lp.vars[v, n, t][0] = 0.0
                mn = at(t, p, n)
                if fin(mn):
                    lp.row(f"{p} if purchased {n} {t}", V((v, n, t)) - u * mn, lo=0)
        if ("storage_cap", n, t) in lp.vars:
            sc = V(("storage_cap", n, t))
            x = at(t, "storage_cap_per_unit", n)
            if fin(x):
                lp.row(f"storage of units {n} {t}", sc - u * x, 0, 0)
            x = at(t, "storage_cap_max", n)
            if fin(x):
                lp.row(f"storage only if purchased {n} {t}", sc - u * x, hi=0)
        if not dispatch(S, n, t):
            continue
        for i in T:
            o = V(lp.var(("operating_units", n, t, i), 0, INF, True))
            lp.row(f"commitment {n} {t} {i}", o - u, hi=0)
            for c in cs[n, t]:
                cap = V(("flow_cap", n, t, c))
                mx = at(t, "flow_cap_max", n, c)
                # a carrier with neither kind of capacity limit is not limited by the units
                limit = least = None
                if fin(per[c]):
                    limit = least = o * per[c]
                elif fin(mx):
                    a = limit = least = V(lp.var(("available_flow_cap", n, t, c, i)))
                    lp.row(f"available <= cap {n} {t} {c} {i}", a - cap, hi=0)
                    lp.row(f"available only if operating {n} {t} {c} {i}", a - o * mx, hi=0)
                    lp.row(f"available if operating {n} {t} {c} {i}", a - cap - (o - u) * mx,
                           lo=0)
                par = dflt(at(t, "flow_out_parasitic_eff", n, c, i), 1.0)
                if limit is None:
                    continue
                if c in co[n, t]:
                    lp.row(f"flow_out max of units {n} {t} {c} {i}",
                           V(("flow_out", n, t, c, i)) - limit * (S.res[i] * par), hi=0)
                    r = at(t, "flow_out_min_relative", n, c, i)
                    if fin(r):
                        lp.row(f"flow_out min of units {n} {t} {c} {i}",
                               V(("flow_out", n, t, c, i)) - least * (S.res[i] * r), lo=0)
                if c in ci[n, t]:
                    lp.row(f"flow_in max of units {n} {t} {c} {i}",
                           V(("flow_in", n, t, c, i)) - limit * S.res[i], hi=0)
    for t, d in S.s["techs"].items():
        units = [("purchased_units", n, t) for n in d["nodes"]
                 if ("purchased_units", n, t) in lp.vars]
        if units:
            for p, kw in (("max", "hi"), ("min", "lo")):
                v = d["p"].get(f"purchased_units_{p}_systemwide")
                if fin(v):
                    lp.row(f"units systemwide {p} {t}", total(units), **{kw: v})
        v = d["p"].get("flow_cap_min_systemwide")
        if fin(v) and units:
            lp.rows = [r for r in lp.rows if not r[0].startswith(f"systemwide min {t} ")]
            for c in sorted({c for n in d["nodes"] for c in cs[n, t]}):
                lp.row(f"systemwide min {t} {c}",
                       total(("flow_cap", n, t, c) for n in d["nodes"]) - total(units) * v, lo=0)


@st.composite
def milp_spec(draw, **kw):
    spec = draw(mg.energy_spec(**kw))
    spec["bigM"] = 1e3
    spec.pop("solver", None)
    names = [t for t, d in spec["techs"].items() if d["base"] != "demand"]
    costs = spec["costs"]
    for t in names:
        d = spec["techs"][t]
        p = d["p"]
        # more than half of the technologies are integer ones
        if draw(st.integers(0, 4)) >= 3 and t != "sup0":
            if len(set(d["cin"]) | set(d["cout"])) and d["base"] in (
                    "storage", "transmission", "conversion") and draw(st.integers(0, 1)):
                p["force_async_flow"] = draw(one_of(True, True, False))
            continue
        p["cap_method"] = "integer"
        P_ = mg.P(draw, {})
        P_.p = p

        def drop(*ks):
            for k in ks:
                p.pop(k, None)
                for x in d["pn"].values():
                    x.pop(k, None)

        per = draw(st.integers(0, 1)) and not d["cexp"]
        if per:
            drop("flow_cap_max", "flow_cap_min")
            p["flow_cap_per_unit"] = draw(one_of(1, 2, 3, 7.5))
            if d["base"] == "conversion" and d["cin"] != d["cout"] and draw(st.integers(0, 2)) == 2:
                p["flow_cap_per_unit"] = {
                    "carr": {c: draw(one_of(1, 2, 4)) for c in sorted({*d["cin"], *d["cout"]})}}
        if draw(st.integers(0, 2)):
            p["purchased_units_max"] = draw(one_of(1, 1, 2, 4))
        P_.add("purchased_units_min", one_of(0, 1), 5)
        P_.add("integer_dispatch", one_of(True, True, False), 2)
        if d["base"] in ("supply", "conversion") and "flow_out_min_relative" not in p:
            if d["base"] == "supply":
                P_.add("flow_out_min_relative", one_of(0.2, 0.5, 0.9), 2)
            elif draw(st.integers(0, 1)):
                p["flow_out_min_relative"] = {
                    "carr": {c: draw(one_of(0.1, 0.5)) for c in d["cout"]}}
        P_.add("cost_purchase", mg.cost_val(costs, [0.5, 2, 10]), 2)
        if "cost_purchase" in p and not ("lifetime" in p or "cost_depreciation_rate" in p):
            p["lifetime"] = 10
        if d["base"] == "transmission":
            P_.add("cost_purchase_per_distance", mg.cost_val(costs, [0.5, 3]), 2)
            P_.add("force_async_flow", st.booleans(), 3)
        if "storage_cap_max" in p or d["base"] == "storage" or p.get("include_storage"):
            if draw(st.integers(0, 2)) == 2:
                drop("storage_cap_max", "storage_cap_min")
                p["storage_cap_per_unit"] = draw(one_of(2, 5))
            P_.add("force_async_flow", st.booleans(), 3)
        P_.add("purchased_units_max_systemwide", one_of(1, 2, 3), 4)
        P_.add("purchased_units_min_systemwide", one_of(1, 2), 4)
        P_.add("flow_cap_min_systemwide", one_of(1, 2), 8)
        d["pn"] = {n: x for n, x in d["pn"].items() if x}
    return spec
