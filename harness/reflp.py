"""The documented plan-mode problem written down directly from a spec (see mg.py).

Nothing of calliope is used here: rows are built with plain loops over nodes, technologies,
carriers and steps.  `build(spec)` returns an `LP`; `LP.solve` hands it to HiGHS in a helper
process (helper.py), `LP.violations(values)` evaluates every row at a reported solution.
"""
import math

from harness.mg import effective

INF = math.inf


class LP:
    def __init__(self):
        self.vars = {}  # key -> [lo, hi, integer]
        self.rows = []  # (name, {key: coef}, lo, hi)
        self.obj = {}
        self.obj0 = 0.0
        self.exprs = {}  # reported expressions: key -> ({key: coef}, const)

    def var(self, key, lo=0.0, hi=INF, integer=False):
        self.vars[key] = [lo, hi, integer]
        return key

    def row(self, name, lin, lo=-INF, hi=INF):
        """lin: Lin; bounds on the whole expression."""
        self.rows.append((name, dict(lin.c), lo - lin.k, hi - lin.k))

    def dump(self, obj=None, box=None):
        keys = list(self.vars)
        pos = {k: i for i, k in enumerate(keys)}
        return {
            "lo": [max(self.vars[k][0], -box) if box else self.vars[k][0] for k in keys],
            "hi": [min(self.vars[k][1], box) if box else self.vars[k][1] for k in keys],
            "int": [int(self.vars[k][2]) for k in keys],
            "rows": [([pos[k] for k in c], list(c.values()), lo, hi)
                     for _, c, lo, hi in self.rows],
            "obj": {pos[k]: v for k, v in (self.obj if obj is None else obj).items()},
        }

    def violations(self, x, tol=1e-5):
        """Rows and bounds broken at x (key -> value); tolerance relative to the terms."""
        out = []
        for k, (lo, hi, integer) in self.vars.items():
            v = x[k]
            s = tol * max(1, abs(v))
            if v < lo - s or v > hi + s:
                out.append((f"bounds {k}", v, lo, hi))
            if integer and abs(v - round(v)) > 1e-4:
                out.append((f"integer {k}", v, lo, hi))
        for name, c, lo, hi in self.rows:
            terms = [f * x[k] for k, f in c.items()]
            v = math.fsum(terms)
            s = tol * max([1.0] + [abs(t) for t in terms])
            if v < lo - s or v > hi + s:
                out.append((name, v, lo, hi))
        return out


class Lin:
    """Linear expression."""

    __slots__ = ("c", "k")

    def __init__(self, c=None, k=0.0):
        self.c, self.k = c or {}, k

    @staticmethod
    def v(key, f=1.0):
        return Lin({key: f})

    def __add__(self, o):
        if not isinstance(o, Lin):
            return Lin(dict(self.c), self.k + o)
        c = dict(self.c)
        for k, f in o.c.items():
            c[k] = c.get(k, 0.0) + f
        return Lin(c, self.k + o.k)

    __radd__ = __add__

    def __mul__(self, f):
        return Lin({k: v * f for k, v in self.c.items()}, self.k * f)

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o if isinstance(o, Lin) else -o)

    def at(self, x):
        return math.fsum([self.k] + [f * x[k] for k, f in self.c.items()])


def fin(v):
    """A bare parameter in a condition: defined and finite (or true)."""
    if v is None or v is False:
        return False
    return v is True or isinstance(v, str) or (v == v and abs(v) != INF)


class Spec:
    """Parameter access on a spec."""

    def __init__(self, s):
        self.s = s
        offs = s["offs"]
        d = [b - a for a, b in zip(offs, offs[1:])]
        self.T = len(offs)
        self.res = s.get("res") or (d + [d[-1]] if d else [1.0])
        # first step of each representative day -> its last step
        self.wrap = s.get("wrap") or {}
        self.w = s.get("tw") or [1.0] * self.T
        self.costs = s["costs"]

    def at(self, t, p, n, c=None, i=None, k=None):
        """Value of parameter p of technology t at node n (carrier c, step i, cost k) or None."""
        tech = self.s["techs"][t]
        v = tech["pn"].get(n, {}).get(p, tech["p"].get(p))
        if isinstance(v, dict):
            base = tech["p"].get(p)
            kind = next(iter(v))
            if kind == "c":
                r = v["c"].get(k)
                if r is None and p in tech["pn"].get(n, {}) and isinstance(base, dict):
                    r = base.get("c", {}).get(k)
                return r
            if kind == "ts":
                return v["ts"][i]
            if kind == "ct":
                return v["ct"][k][i] if k in v["ct"] else None
            if kind == "carr":
                return v["carr"].get(c)
        return v

    def carr(self, t, n):
        """(carriers in, out, export) of t at node n."""
        tech = self.s["techs"][t]
        cin, cout = list(tech["cin"]), list(tech["cout"])
        if tech["base"] == "transmission" and tech["p"].get("one_way"):
            a, b = tech["link"]
            if n == a:
                cout = []
            if n == b:
                cin = []
        return cin, cout, tech["cexp"]


def inter_steps(S):
    """(original day, step of the day, clustered step) of an inter-cluster spec."""
    k = S.s.get("per_day")
    return [(d, j, c * k + j) for d, c in enumerate(S.s.get("days") or ()) for j in range(k)]


def build(spec, milp=None):
    spec = effective(spec)
    S = Spec(spec)
    lp = LP()
    V = Lin.v
    T = range(S.T)
    at = S.at
    places = [(n, t) for t, d in spec["techs"].items() for n in d["nodes"]]
    base = {t: d["base"] for t, d in spec["techs"].items()}

    def dflt(v, d):
        return d if v is None or v != v else v

    cs, ci, co, cx = {}, {}, {}, {}
    for n, t in places:
        a, b, x = S.carr(t, n)
        ci[n, t], co[n, t], cx[n, t] = a, b, [c for c in x if c in set(a) | set(b)]
        cs[n, t] = [c for c in spec["carriers"] if c in a or c in b]

    def has_storage(n, t):
        return base[t] == "storage" or at(t, "include_storage", n) is True

    def has_area(n, t):
        return (fin(at(t, "area_use_min", n)) or fin(at(t, "area_use_max", n))
                or fin(at(t, "area_use_per_flow_cap", n))
                or at(t, "sink_unit", n) == "per_area" or at(t, "source_unit", n) == "per_area")

    for t in base:
        if base[t] == "transmission":
            lp.var(("link_flow_cap", t))
    for n, t in places:
        for c in cs[n, t]:
            lp.var(("flow_cap", n, t, c), dflt(at(t, "flow_cap_min", n, c), 0.0),
                   dflt(at(t, "flow_cap_max", n, c), INF))
        for c in co[n, t]:
            for i in T:
                lp.var(("flow_out", n, t, c, i))
        for c in ci[n, t]:
            for i in T:
                lp.var(("flow_in", n, t, c, i))
        for c in cx[n, t]:
            for i in T:
                lp.var(("flow_export", n, t, c, i), dflt(at(t, "export_min", n, c, i), 0.0),
                       dflt(at(t, "export_max", n, c, i), INF))
        if has_area(n, t):
            lp.var(("area_use", n, t), dflt(at(t, "area_use_min", n), 0.0),
                   dflt(at(t, "area_use_max", n), INF))
        if base[t] == "supply":
            for i in T:
                lp.var(("source_use", n, t, i))
            lp.var(("source_cap", n, t), dflt(at(t, "source_cap_min", n), 0.0),
                   dflt(at(t, "source_cap_max", n), INF))
        if has_storage(n, t):
            lp.var(("storage_cap", n, t), dflt(at(t, "storage_cap_min", n), 0.0),
                   dflt(at(t, "storage_cap_max", n), INF))
            for i in T:
                if not S.s.get("days"):
                    lp.var(("storage", n, t, i))
    pairs = sorted({(n, c) for (n, t), x in cs.items() for c in x})
    if spec["ensure"]:
        for n, c in pairs:
            for i in T:
                lp.var(("unmet_demand", n, c, i))
                lp.var(("unused_supply", n, c, i), -INF, 0.0)

    def var(*key):
        return V(key) if key in lp.vars else Lin()

    def per_dist(n, t, p):
        d = dflt(at(t, "distance", n), 1.0)
        return dflt(at(t, p, n), 1.0) ** d

    def out_eff(n, t, c, i):
        e = dflt(at(t, "flow_out_eff", n, c, i), 1.0) * dflt(
            at(t, "flow_out_parasitic_eff", n, c, i), 1.0)
        if base[t] == "transmission":
            e *= per_dist(n, t, "flow_out_eff_per_distance")
        return e

    def in_eff(n, t, c, i):
        e = dflt(at(t, "flow_in_eff", n, c, i), 1.0)
        if base[t] == "transmission":
            e *= per_dist(n, t, "flow_in_eff_per_distance")
        return e

    def fout(n, t, c, i):
        return var("flow_out", n, t, c, i) * (1 / out_eff(n, t, c, i))

    def fin_(n, t, c, i):
        return var("flow_in", n, t, c, i) * in_eff(n, t, c, i)

    def total(xs):
        r = Lin()
        for x in xs:
            r = r + x
        return r

    def scaler(n, t, unit):
        if unit == "per_area":
            return var("area_use", n, t)
        if unit == "per_cap":
            return total(var("flow_cap", n, t, c) for c in cs[n, t])
        return Lin({}, 1.0)

    for n, t in places:
        for c in cs[n, t]:
            cap = var("flow_cap", n, t, c)
            m = milp.flow_rules(S, n, t, c) if milp else None
            if has_storage(n, t):
                r = at(t, "flow_cap_per_storage_cap_min", n)
                if fin(r):
                    lp.row(f"flow_cap/storage_cap min {n} {t} {c}",
                           cap - var("storage_cap", n, t) * r, lo=0)
                r = at(t, "flow_cap_per_storage_cap_max", n)
                if fin(r):
                    lp.row(f"flow_cap/storage_cap max {n} {t} {c}",
                           cap - var("storage_cap", n, t) * r, hi=0)
            if base[t] == "supply" and at(t, "source_cap_equals_flow_cap", n) is True:
                lp.row(f"source_cap==flow_cap {n} {t} {c}", var("source_cap", n, t) - cap, 0, 0)
            r = at(t, "area_use_per_flow_cap", n)
            if has_area(n, t) and fin(r):
                lp.row(f"area_use per flow_cap {n} {t} {c}",
                       var("area_use", n, t) - cap * r, 0, 0)
            for i in T:
                par = dflt(at(t, "flow_out_parasitic_eff", n, c, i), 1.0)
                r = at(t, "flow_out_min_relative", n, c, i)
                if c in co[n, t] and not (m and m["units"]):
                    lp.row(f"flow_out_max {n} {t} {c} {i}",
                           var("flow_out", n, t, c, i) - cap * (S.res[i] * par), hi=0)
                    if fin(r):
                        lp.row(f"flow_out_min {n} {t} {c} {i}",
                               var("flow_out", n, t, c, i) - cap * (S.res[i] * r), lo=0)
                if c in ci[n, t] and not (m and m["units"]):
                    lp.row(f"flow_in_max {n} {t} {c} {i}",
                           var("flow_in", n, t, c, i) - cap * S.res[i], hi=0)
                if c in cx[n, t]:
                    lp.row(f"export_balance {n} {t} {c} {i}",
                           var("flow_out", n, t, c, i) - var("flow_export", n, t, c, i), lo=0)
            r = at(t, "flow_ramping", n)
            if fin(r):
                def flow(i):
                    f = Lin()
                    if c in co[n, t]:
                        f = f + var("flow_out", n, t, c, i)
                    if c in ci[n, t]:
                        f = f - var("flow_in", n, t, c, i) if c in co[n, t] else \
                            f + var("flow_in", n, t, c, i)
                    return f * (1 / S.res[i])

                for i in T:
                    if i:
                        dlt = flow(i) - flow(i - 1)
                        lp.row(f"ramping up {n} {t} {c} {i}", dlt - cap * r, hi=0)
                        lp.row(f"ramping down {n} {t} {c} {i}", dlt + cap * r, lo=0)
        if has_area(n, t) and any(at(t, "flow_cap_max", n, c) == 0 for c in cs[n, t]):
            lp.row(f"zero area {n} {t}", var("area_use", n, t), 0, 0)
        if base[t] == "conversion" and not has_storage(n, t):
            for i in T:
                lp.row(f"balance_conversion {n} {t} {i}",
                       total(fout(n, t, c, i) for c in cs[n, t])
                       - total(fin_(n, t, c, i) for c in cs[n, t]), 0, 0)
        if base[t] == "supply":
            for i in T:
                su = var("source_use", n, t, i)
                lp.row(f"source_max {n} {t} {i}",
                       su - var("source_cap", n, t) * S.res[i], hi=0)
                if not has_storage(n, t):
                    for c in cs[n, t]:
                        lp.row(f"balance_supply {n} {t} {c} {i}",
                               fout(n, t, c, i) - su * dflt(at(t, "source_eff", n, c, i), 1.0),
                               0, 0)
                sc = scaler(n, t, at(t, "source_unit", n) or "absolute")
                eq, mx, mn = (at(t, f"source_use_{x}", n, None, i)
                              for x in ("equals", "max", "min"))
                if fin(eq):
                    lp.row(f"source_use equals {n} {t} {i}", su - sc * eq, 0, 0)
                elif fin(mx):
                    lp.row(f"source_use max {n} {t} {i}", su - sc * mx, hi=0)
                if fin(mn) and not fin(eq):
                    lp.row(f"source_use min {n} {t} {i}", su - sc * mn, lo=0)
        if base[t] == "demand":
            for i in T:
                sc = scaler(n, t, at(t, "sink_unit", n) or "absolute")
                eq, mx, mn = (at(t, f"sink_use_{x}", n, None, i)
                              for x in ("equals", "max", "min"))
                for c in cs[n, t]:
                    f = fin_(n, t, c, i)
                    if fin(eq):
                        lp.row(f"sink equals {n} {t} {c} {i}", f - sc * eq, 0, 0)
                    elif fin(mx):
                        lp.row(f"sink max {n} {t} {c} {i}", f - sc * mx, hi=0)
                    if fin(mn) and not fin(eq):
                        lp.row(f"sink min {n} {t} {c} {i}", f - sc * mn, lo=0)
        if has_storage(n, t):
            cyc = at(t, "cyclic_storage", n)
            cyc = True if cyc is None else cyc
            sc = var("storage_cap", n, t)
            init = at(t, "storage_initial", n)
            for d, j, i in inter_steps(S):
                # levels over all original days (no losses)
                st = V(lp.var(("level", n, t, d, j)))
                lp.row(f"level max {n} {t} {d} {j}", st - sc, hi=0)
                last = len(S.s["days"]) - 1, S.s["per_day"] - 1
                before = (d, j - 1) if j else (d - 1, last[1]) if d else last
                lp.var(("level", n, t, *before))
                prev = sc * dflt(init, 0.0) if d == j == 0 and not cyc else V(
                    ("level", n, t, *before))
                src = Lin() if base[t] != "supply" else var("source_use", n, t, i)
                for c in cs[n, t] if base[t] == "supply" else ():
                    src = src * dflt(at(t, "source_eff", n, c, i), 1.0)
                lp.row(f"level balance {n} {t} {d} {j}",
                       st - prev - src + total(fout(n, t, c, i) for c in cs[n, t])
                       - total(fin_(n, t, c, i) for c in (ci[n, t] if base[t] != "supply" else ())),
                       0, 0)
            for i in T if not S.s.get("days") else ():
                st = var("storage", n, t, i)
                lp.row(f"storage_max {n} {t} {i}", st - sc, hi=0)
                dd = at(t, "storage_discharge_depth", n, None, i)
                if fin(dd):
                    lp.row(f"discharge depth {n} {t} {i}", st - sc * dd, lo=0)
                loss = dflt(at(t, "storage_loss", n, None, i), 0.0)
                if i == 0 and not cyc:
                    prev = sc * dflt(init, 0.0)
                else:
                    j = S.wrap.get(i, i - 1 if i else S.T - 1)
                    prev = var("storage", n, t, j) * ((1 - loss) ** S.res[j])
                if base[t] == "supply":
                    for c in cs[n, t]:
                        lp.row(f"storage balance {n} {t} {c} {i}",
                               st - prev - var("source_use", n, t, i)
                               * dflt(at(t, "source_eff", n, c, i), 1.0) + fout(n, t, c, i), 0, 0)
                else:
                    lp.row(f"storage balance {n} {t} {i}",
                           st - prev + total(fout(n, t, c, i) for c in cs[n, t])
                           - total(fin_(n, t, c, i) for c in cs[n, t]), 0, 0)
            if cyc and fin(init) and not S.s.get("days"):
                i = S.T - 1
                loss = dflt(at(t, "storage_loss", n, None, 0), 0.0)
                lp.row(f"storage initial {n} {t}",
                       var("storage", n, t, i) * ((1 - loss) ** S.res[i]) - sc * init, 0, 0)
        if base[t] == "transmission":
            lp.row(f"symmetric {n} {t}", total(var("flow_cap", n, t, c) for c in cs[n, t])
                   - var("link_flow_cap", t), 0, 0)
    for t, b in base.items():
        if b == "transmission":
            ns = spec["techs"][t]["nodes"]
            for i in T:
                lp.row(f"balance_transmission {t} {i}",
                       total(fout(n, t, c, i) for n in ns for c in cs[n, t])
                       - total(fin_(n, t, c, i) for n in ns for c in cs[n, t]), 0, 0)
        d = spec["techs"][t]
        for p, kw in (("max", "hi"), ("min", "lo")):
            v = d["p"].get(f"flow_cap_{p}_systemwide")
            if fin(v):
                for c in sorted({c for n in d["nodes"] for c in cs[n, t]}):
                    lp.row(f"systemwide {p} {t} {c}",
                           total(var("flow_cap", n, t, c) for n in d["nodes"]), **{kw: v})
    for n in spec["nodes"]:
        av = spec["node_p"].get(n, {}).get("available_area")
        areas = [var("area_use", m, t) for m, t in places if m == n and has_area(m, t)]
        if fin(av) and areas:
            lp.row(f"available_area {n}", total(areas), hi=av)
    for n, c in pairs:
        for i in T:
            here = [t for m, t in places if m == n and c in cs[n, t]]
            bal = total(var("flow_out", n, t, c, i) - var("flow_in", n, t, c, i)
                        - var("flow_export", n, t, c, i) for t in here)
            bal = bal + var("unmet_demand", n, c, i) + var("unused_supply", n, c, i)
            lp.row(f"system_balance {n} {c} {i}", bal, 0, 0)

    # costs
    annual = math.fsum(r * w for r, w in zip(S.res, S.w)) / 8760
    obj = Lin()
    for n, t in places:
        for k in S.costs:
            parts = {}
            inv = {}
            for c in cs[n, t]:
                a = at(t, "cost_flow_cap", n, c, None, k)
                d = at(t, "cost_flow_cap_per_distance", n, c, None, k)
                if fin(a) or fin(d):
                    f = dflt(a, 0.0)
                    if base[t] == "transmission":
                        f = (f + dflt(d, 0.0) * dflt(at(t, "distance", n), 1.0)) * 0.5
                    inv["cost_investment_flow_cap", c] = var("flow_cap", n, t, c) * f
            for p in ("storage_cap", "source_cap", "area_use"):
                f = at(t, f"cost_{p}", n, None, None, k)
                if fin(f) and (p, n, t) in lp.vars:
                    inv[f"cost_investment_{p}", None] = var(p, n, t) * f
            if milp:
                inv.update(milp.investment(S, lp, n, t, k))
            for (p, c), x in inv.items():
                key = (p, n, t, c, k) if c else (p, n, t, k)
                lp.exprs[key] = x
            if inv:
                parts["investment"] = total(inv.values())
                lp.exprs["cost_investment", n, t, k] = parts["investment"]
                dep = at(t, "cost_depreciation_rate", n, None, None, k)
                rate = at(t, "cost_interest_rate", n, None, None, k)
                life = dflt(at(t, "lifetime", n), INF)
                if not fin(dep):
                    if not fin(rate) or rate == 0:
                        dep = 1 / life
                    else:
                        g = (1 + rate) ** life
                        dep = rate * g / (g - 1)
                parts["ann"] = parts["investment"] * (annual * dep)
                lp.exprs["cost_investment_annualised", n, t, k] = parts["ann"]
            om = at(t, "cost_om_annual", n, None, None, k)
            fr = at(t, "cost_om_annual_investment_fraction", n, None, None, k)
            if fin(om) or (inv and fin(fr)):
                parts["fix"] = (total(var("flow_cap", n, t, c) for c in cs[n, t]) * dflt(om, 0.0)
                                + parts.get("investment", Lin()) * dflt(fr, 0.0)) * annual
                lp.exprs["cost_operation_fixed", n, t, k] = parts["fix"]
            variable = []
            for i in T:
                f = Lin()
                on = False
                for p, name in (("cost_export", "flow_export"), ("cost_flow_out", "flow_out"),
                                ("cost_flow_in", "flow_in")):
                    v = at(t, p, n, None, i, k)
                    on = on or fin(v)
                    if p == "cost_flow_in" and base[t] == "supply":
                        continue
                    f = f + total(var(name, n, t, c, i) for c in cs[n, t]) * dflt(v, 0.0)
                v = at(t, "cost_source_use", n, None, i, k)
                on = on or fin(v)
                if base[t] == "supply":
                    f = f + var("source_use", n, t, i) * dflt(v, 0.0)
                if on:
                    lp.exprs["cost_operation_variable", n, t, k, i] = f * S.w[i]
                    variable.append(f * S.w[i])
            if variable or "ann" in parts or "fix" in parts:
                cost = (parts.get("ann", Lin()) + parts.get("fix", Lin()) + total(variable))
                lp.exprs["cost", n, t, k] = cost
                w = (spec.get("weights") or {}).get(k)
                obj = obj + cost * dflt(w, 1.0)
    if spec["ensure"]:
        for n, c in pairs:
            for i in T:
                obj = obj + (var("unmet_demand", n, c, i) - var("unused_supply", n, c, i)) * (
                    S.w[i] * spec["bigM"])
    lp.obj, lp.obj0 = dict(obj.c), obj.k
    lp.S = S
    lp.cs, lp.ci, lp.co = cs, ci, co
    if milp:
        milp.rows(S, lp, places, cs, ci, co)
    return lp
