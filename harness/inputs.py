"""Model definitions seen as data: generator, YAML writer, and the input table they should give.

value of a parameter: scalar (number | str | bool | None) or an indexed value
{"data": x | [x...], "index": [[label...]...], "dims": [dim...]}.

A spec is {"nodes": {n: {"active", "p", "techs": {t: None | {"active"?, "p"}}}},
"techs": {t: {"base", "cin", "cout", "active", "p", "link"?, "one_way"?}},
"defs": {param: value}, "times": [...], "dim_of": {param: [dims]}}.
"""
import copy
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import require

CARR = ["elec", "heat", "gas"]
COSTS = ["monetary", "co2"]
# name -> (kinds of values, alternatives of dims)
PARAMS = {
    "flow_cap_max": ("num", [[], ["carriers"]]),
    "flow_cap_min": ("num", [["carriers"]]),
    "flow_out_eff": ("num", [[], ["carriers"], ["timesteps"], ["carriers", "timesteps"]]),
    "lifetime": ("num", [[]]),
    "area_use_max": ("num", [[]]),
    "source_unit": ("str", [[]]),
    "include_storage": ("bool", [[]]),
    "source_use_max": ("num", [[], ["timesteps"]]),
    "cost_flow_cap": ("num", [["costs"]]),
    "cost_interest_rate": ("num", [["costs"]]),
    "cost_flow_out": ("num", [["costs"], ["carriers", "costs"], ["costs", "timesteps"]]),
    "name": ("str", [[]]),
    "my_num": ("num", [[], ["costs"], ["things"], ["things", "timesteps"]]),
    "my_str": ("str", [[]]),
    "storage_cap_max": ("num", [[]]),
    "flow_ramping": ("num", [[], ["carriers"]]),
}
NODE_PARAMS = {
    "available_area": ("num", [[]]),
    "my_node": ("num", [[], ["things"]]),
    "my_node_str": ("str", [[]]),
}
TOP = {
    "bigM": ("num", [[]]),
    "objective_cost_weights": ("num", [["costs"]]),
    "my_top": ("num", [["nodes", "techs"], ["techs"], ["nodes"], ["things"], ["carriers"],
                       ["nodes", "techs", "carriers"], ["costs", "techs"], ["timesteps"],
                       ["techs", "timesteps"], ["techs", "carriers"]]),
    "flow_cap_min_systemwide": ("num", [["techs"], ["techs", "carriers"]]),
    "my_scalar": ("num", [[]]),
    "my_top_str": ("str", [[], ["nodes"]]),
}
VALS = {"num": [0, 1, 2, 3.5, 7, 0.25], "str": ["per_area", "per_cap", "absolute", "x y"],
        "bool": [True, False]}
THINGS = ["q1", "q2"]


def stamps(start, offs):
    import datetime

    t0 = datetime.datetime.fromisoformat(start)
    return [(t0 + datetime.timedelta(minutes=int(m))).strftime("%Y-%m-%d %H:%M") for m in offs]


@st.composite
def value(draw, kind, dims, labels, full=False):
    """A value over `dims` (scalar if there are none)."""
    if not dims:
        return draw(st.sampled_from(VALS[kind]))
    every = list(itertools.product(*[labels[d] for d in dims]))
    n = len(every) if full else draw(st.integers(1, len(every)))
    idx = draw(st.permutations(every))[:n]
    if draw(st.integers(0, 3)) == 0:
        data = draw(st.sampled_from(VALS[kind]))
    else:
        data = [draw(st.sampled_from(VALS[kind])) for _ in idx]
    return {"data": data, "index": [list(i) for i in idx], "dims": list(dims)}


@st.composite
def spec(draw, links=True, top=True, coords=False, inactive=True, nodes_min=1, times=None,
         none_ok=True, max_techs=4, maxlinks=3, minlinks=0):
    N = [f"n{i}" for i in range(draw(st.integers(nodes_min, max(3, nodes_min))))]
    if times is None:
        times = stamps("2005-01-01", [60 * i for i in range(draw(st.integers(2, 3)))])
    labels = {"carriers": CARR, "costs": COSTS, "timesteps": times, "things": THINGS}
    dim_of = {}
    names = draw(st.lists(st.sampled_from(sorted(PARAMS)), unique=True, max_size=7))
    for p in names:
        dim_of[p] = draw(st.sampled_from(PARAMS[p][1]))
    node_names = draw(st.lists(st.sampled_from(sorted(NODE_PARAMS)), unique=True, max_size=2))
    for p in node_names:
        dim_of[p] = draw(st.sampled_from(NODE_PARAMS[p][1]))

    def act(k=6):
        return not (inactive and draw(st.integers(0, k)) == 0)

    flat = {}

    def params(nmax, tech=None):
        out = {}
        for p in draw(st.lists(st.sampled_from(names), unique=True, max_size=nmax)) if names else []:
            # (one technology may give a plain number where another gives indexed data)
            # provided that the others cover their whole index: known finding
            if p not in flat:
                flat[p] = [] in PARAMS[p][1] and draw(st.integers(0, 2)) == 0
            if flat[p] and (tech, p) not in flat:
                flat[tech, p] = draw(st.booleans())
            out[p] = draw(value(PARAMS[p][0], [] if flat.get((tech, p)) else dim_of[p], labels,
                                full=flat[p]))
        return out

    techs = {}
    techs["dem"] = {"base": "demand", "cin": ["elec"], "cout": [], "active": True,
                    "p": params(2, "dem")}
    techs["dem"]["p"]["sink_use_equals"] = {
        "data": [float(i) for i in range(len(times))], "index": [[t] for t in times],
        "dims": ["timesteps"]}
    dim_of["sink_use_equals"] = ["timesteps"]
    techs["sup"] = {"base": "supply", "cin": [], "cout": ["elec"], "active": True,
                    "p": params(2, "sup")}
    for i in range(draw(st.integers(1, max_techs))):
        b = draw(st.sampled_from(["supply", "storage", "conversion", "supply", "demand"]))
        c = draw(st.permutations(CARR))
        cin, cout = [], []
        if b == "supply":
            cout = list(c[:draw(st.integers(1, 2))])
        elif b == "demand":
            cin = list(c[:1])
        elif b == "storage":
            cin = cout = [c[0]]
        else:
            cin, cout = [c[0]], list(c[1:1 + draw(st.integers(1, 2))])
        techs[f"t{i}"] = {"base": b, "cin": cin, "cout": cout, "active": act(),
                         "p": params(4, f"t{i}")}
        if cout and draw(st.integers(0, 4)) == 0:
            techs[f"t{i}"]["cexp"] = cout[:1]
    nodes = {}
    for n in N:
        d = {"active": act(), "p": {}, "techs": {}}
        for p in draw(st.lists(st.sampled_from(node_names), unique=True)) if node_names else []:
            d["p"][p] = draw(value(NODE_PARAMS[p][0], dim_of[p], labels))
        for t in draw(st.lists(st.sampled_from(sorted(techs)), unique=True,
                               min_size=1 if n == "n0" else 0)):
            k = draw(st.integers(0, 5))
            if k <= 2:
                d["techs"][t] = None
            elif k == 3 and inactive:
                d["techs"][t] = {"active": False, "p": {}}
            else:
                d["techs"][t] = {"p": params(2, t)}
                if draw(st.integers(0, 5)) == 0:
                    d["techs"][t]["active"] = True
                if none_ok and d["techs"][t]["p"] and draw(st.integers(0, 9)) == 0:
                    q = sorted(d["techs"][t]["p"])[0]
                    if q in techs[t]["p"]:
                        d["techs"][t]["p"][q] = None
        nodes[n] = d
    nodes["n0"]["active"] = True
    nodes["n0"]["techs"]["dem"] = None
    nodes["n0"]["techs"]["sup"] = None
    if links:
        ends = N + ["ghost"]
        for i in range(draw(st.integers(minlinks, maxlinks))):
            a = draw(st.sampled_from(ends if draw(st.integers(0, 5)) == 0 else N))
            b = draw(st.sampled_from(ends if draw(st.integers(0, 5)) == 0 else N))
            if a == b:
                continue
            c = draw(st.sampled_from(CARR))
            techs[f"l{i}"] = {"base": "transmission", "cin": [c], "cout": [c], "active": act(),
                              "p": params(3, f"l{i}"), "link": [a, b]}
            if draw(st.integers(0, 2)) == 0:
                techs[f"l{i}"]["one_way"] = draw(st.booleans())
            if draw(st.integers(0, 2)) == 0:
                techs[f"l{i}"]["p"]["distance"] = draw(st.sampled_from([1, 20.5, 300]))
    if coords:
        for n in N:
            if draw(st.integers(0, 5)) or coords == "all":
                nodes[n]["p"]["latitude"] = draw(st.sampled_from(
                    [0, -89.9, 52.37, 45.1, -12, 89, 12.5]))
                nodes[n]["p"]["longitude"] = draw(st.sampled_from(
                    [0, 179.9, -179.9, 4.9, -70, 100.25, 12.5]))
    defs = {}
    if top:
        tl = dict(labels, nodes=N, techs=sorted(techs))
        for p in draw(st.lists(st.sampled_from(sorted(TOP)), unique=True, max_size=3)):
            dim_of[p] = draw(st.sampled_from(TOP[p][1]))
            defs[p] = draw(value(TOP[p][0], dim_of[p], tl))
        if names and draw(st.integers(0, 2)) == 0:
            # a technology parameter given again at the top level, over techs (and nodes)
            p = draw(st.sampled_from(names))
            if PARAMS[p][0] == "num":
                defs[p] = draw(value("num", draw(st.sampled_from([["techs"], ["nodes", "techs"]]))
                                     + dim_of[p], tl))
                if draw(st.booleans()):
                    defs[p]["dims"], defs[p]["index"] = (
                        defs[p]["dims"][::-1], [i[::-1] for i in defs[p]["index"]])
    return {"nodes": nodes, "techs": techs, "defs": defs, "times": times, "dim_of": dim_of}


# ------------------------------------------------------------------ writing


def yaml_value(v, rng=None):
    if not isinstance(v, dict):
        return v
    v = copy.deepcopy(v)
    if len(v["dims"]) == 1:
        if rng is None or rng.random() < 0.5:
            v["index"] = [i[0] for i in v["index"]]
            if len(v["index"]) == 1 and rng is not None and rng.random() < 0.5:
                v["index"] = v["index"][0]
                if isinstance(v["data"], list):
                    v["data"] = v["data"][0]
        if rng is None or rng.random() < 0.5:
            v["dims"] = v["dims"][0]
    return v


def listed(xs, rng=None):
    return xs[0] if len(xs) == 1 and (rng is None or rng.random() < 0.7) else list(xs)


def definition(s, rng=None):
    d = {"config": {"init": {"name": "m", "broadcast_input_data": True}},
         "techs": {}, "nodes": {}}
    for t, x in s["techs"].items():
        y = {"base_tech": x["base"]}
        if x["cin"]:
            y["carrier_in"] = listed(x["cin"], rng)
        if x["cout"]:
            y["carrier_out"] = listed(x["cout"], rng)
        if x.get("cexp"):
            y["carrier_export"] = listed(x["cexp"], rng)
        if "link" in x:
            y["link_from"], y["link_to"] = x["link"]
        if "one_way" in x:
            y["one_way"] = x["one_way"]
        if not x["active"]:
            y["active"] = False
        elif rng is not None and rng.random() < 0.1:
            y["active"] = True
        for p, v in x["p"].items():
            y[p] = yaml_value(v, rng)
        d["techs"][t] = y
    for n, x in s["nodes"].items():
        y = {p: yaml_value(v, rng) for p, v in x["p"].items()}
        if not x["active"]:
            y["active"] = False
        y["techs"] = {}
        for t, o in x["techs"].items():
            if o is None:
                y["techs"][t] = None
                continue
            y["techs"][t] = {p: yaml_value(v, rng) for p, v in o["p"].items()}
            if "active" in o:
                y["techs"][t]["active"] = o["active"]
        d["nodes"][n] = y
    if s["defs"]:
        d["data_definitions"] = {p: yaml_value(v, rng) for p, v in s["defs"].items()}
    if s.get("init"):
        d["config"]["init"].update(copy.deepcopy(s["init"]))
    return d


# ------------------------------------------------------------------ reference


def is_missing(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def cells(v, base):
    """[(frozenset of (dim, label)), value] of a value, on top of `base` coordinates."""
    if not isinstance(v, dict):
        return [(frozenset(base), v)]
    data = v["data"] if isinstance(v["data"], list) else [v["data"]] * len(v["index"])
    return [(frozenset(list(base) + list(zip(v["dims"], i))), x) for i, x in zip(v["index"], data)]


class Reference:
    """Expected model inputs."""

    def __init__(self, s):
        self.s = s
        nodes, techs = s["nodes"], s["techs"]
        self.cin, self.cout, self.cexp = set(), set(), set()
        self.placed = []
        base = {}
        live_nodes = [n for n in nodes if nodes[n]["active"]]

        def put(n, t, pvals):
            for p, v in pvals.items():
                for k, x in cells(v, [("nodes", n), ("techs", t)]):
                    if not is_missing(x):
                        base.setdefault(p, {})[k] = x

        for n in live_nodes:
            for t, o in nodes[n]["techs"].items():
                tech = techs[t]
                if not tech["active"] and "active" not in (o or {}):
                    continue
                if o is not None and not o.get("active", True):
                    continue
                self.placed.append((n, t))
                self.cin |= {(n, t, c) for c in tech["cin"]}
                self.cout |= {(n, t, c) for c in tech["cout"]}
                self.cexp |= {(n, t, c) for c in tech.get("cexp", [])}
                own = {p: v for p, v in ((o or {}).get("p") or {}).items()
                       # (null does not replace an indexed value: rule of definition layers)
                       if not (v is None and isinstance(tech["p"].get(p), dict))}
                put(n, t, {**tech["p"], "base_tech": tech["base"], **own})
        for t, tech in techs.items():
            if "link" not in tech or not tech["active"]:
                continue
            a, b = tech["link"]
            if a not in live_nodes or b not in live_nodes:
                continue
            one = tech.get("one_way", False)
            for n in (a, b):
                self.placed.append((n, t))
                if not (one and n == b):
                    self.cin |= {(n, t, c) for c in tech["cin"]}
                if not (one and n == a):
                    self.cout |= {(n, t, c) for c in tech["cout"]}
                extra = {"base_tech": "transmission"}
                if "one_way" in tech:
                    extra["one_way"] = one
                put(n, t, {**tech["p"], **extra})
        for n in live_nodes:
            for p, v in nodes[n]["p"].items():
                for k, x in cells(v, [("nodes", n)]):
                    if not is_missing(x):
                        base.setdefault(p, {})[k] = x
        self.layers = {p: [v] for p, v in base.items()}
        for p, v in s["defs"].items():
            top = {k: x for k, x in cells(v, []) if not is_missing(x)}
            self.layers[p] = [top, *self.layers.get(p, [])]
        self.defmat = self.cin | self.cout
        self.refresh()

    def refresh(self):
        self.N = {x[0] for x in self.defmat}
        self.T = {x[1] for x in self.defmat}
        self.C = {x[2] for x in self.defmat}
        self.proj = {}

    def allowed(self, q):
        """Whether the node/tech/carrier part of q is part of the model."""
        dims = tuple(d for d in ("nodes", "techs", "carriers") if d in q)
        if not dims:
            return True
        if dims not in self.proj:
            pos = [("nodes", "techs", "carriers").index(d) for d in dims]
            self.proj[dims] = {tuple(x[i] for i in pos) for x in self.defmat}
        return tuple(q[d] for d in dims) in self.proj[dims]

    def get(self, p, q):
        if not self.allowed(q):
            return None
        qs = set(q.items())
        for layer in self.layers.get(p, []):
            for k, x in layer.items():
                if k <= qs:
                    return x
        return None

    def dims(self, p):
        return {d for layer in self.layers.get(p, []) for k in layer for d, _ in k}


# ------------------------------------------------------------------ comparison

AUTO = {"definition_matrix", "carrier_in", "carrier_out", "carrier_export", "color",
        "timestep_resolution", "timestep_weights", "active"}


def label(x):
    if isinstance(x, np.datetime64):
        return str(x)[:16].replace("T", " ")
    return x.item() if hasattr(x, "item") else x


def labels_of(ds, d):
    return [label(x) for x in ds[d].values]


def same_value(a, b):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    return float(a) == float(b)


def triples(ds, name):
    if name not in ds:
        return set()
    da = (ds[name] & (ds["carrier_in"].astype(bool) | ds["carrier_out"].astype(bool))).transpose(
        "nodes", "techs", "carriers")
    lab = [labels_of(ds, d) for d in da.dims]
    return {tuple(l[i] for l, i in zip(lab, ix)) for ix in np.argwhere(da.values.astype(bool))}


def check(ds, ref, skip=(), approx=None, members=True):
    """Raise unless `ds` holds exactly what the reference says."""
    for d, want in (("nodes", ref.N), ("techs", ref.T), ("carriers", ref.C)):
        got = labels_of(ds, d)
        require(sorted(got) == sorted(want), "{} are {}, defined and active are {}", d,
                sorted(got), sorted(want))
    for name, want in (("definition_matrix", ref.defmat), ("carrier_in", ref.cin),
                       ("carrier_out", ref.cout), ("carrier_export", ref.cexp & ref.defmat)):
        got = triples(ds, name)
        require(got == want, "{} holds {} beyond and lacks {}", name, sorted(got - want),
                sorted(want - got))
    coords = {d: labels_of(ds, d) for d in ds.dims}
    n = 0
    for p in sorted((set(ref.layers) | {str(v) for v in ds.data_vars}) - AUTO - set(skip)):
        dims = ref.dims(p) | ({str(d) for d in ds[p].dims} if p in ds else set())
        order = sorted(dims)
        lists = [coords.get(d, []) for d in order]
        if p in ds:
            da = ds[p]
            vals, own = da.values, [str(d) for d in da.dims]
            pos = {d: {x: i for i, x in enumerate(coords[d])} for d in own}
            isbool = da.dtype.kind == "b"
        for combo in itertools.product(*lists):
            q = dict(zip(order, combo))
            want = ref.get(p, q)
            if p in ds:
                got = vals[tuple(pos[d][q[d]] for d in own)] if own else vals.item()
                got = None if (got is None or got != got) else got
                if not ref.allowed(q) and not set(order) <= set(own):
                    continue  # (array does not have all the dimensions)
                if isbool:
                    got, want = bool(got), bool(want)
            else:
                got = None
            n += 1
            if is_missing(want) or is_missing(got):
                require(is_missing(want) == is_missing(got), "{} at {} is {}, defined as {}", p, q,
                        got, want)
            elif approx and isinstance(want, float):
                require(abs(float(got) - want) <= approx * max(1, abs(want)),
                        "{} at {} is {}, defined as {}", p, q, got, want)
            else:
                require(same_value(got, want), "{} at {} is {}, defined as {}", p, q, got, want)
    for d in coords if members else ():
        if d in ("nodes", "techs", "carriers", "timesteps"):
            continue
        want = {lab for p, layers in ref.layers.items() for la in layers for k in la
                for dd, lab in k if dd == d}
        extra = set(coords[d]) - want
        require(not extra, "dimension {} has members {} nobody defined", d, sorted(extra))
    return n
