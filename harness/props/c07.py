"""C07: transmission links connect exactly their two end nodes."""
import copy
import math
import random
import warnings

from hypothesis import strategies as st

from harness import fast, inputs, lpcase, mg, reflp
from harness.core import require

PID = "C07"
RULE = (
    "Two kinds of cases. (1) Definitions with up to 4 nodes and 6 links: one-way or not, with and "
    "without distance (given per link or at the top level), inactive links, inactive or undefined "
    "end nodes, nodes and technologies removed by a subset, coordinates anywhere on the globe, "
    "distance unit km or m; the whole inputs are compared with a reference that computes "
    "distances with its own ellipsoid geodesic. (2) Small systems with links (distances given or from "
    "coordinates) are solved; arrival, capacities, directions and all other rows of the "
    "reference problem are evaluated at the solution. Non-trivial: some active link."
)
IID_ONLY = True
EXAMPLES = {"quick": 5000, "thorough": 100000}
SECONDS = {"quick": 36, "thorough": 900}


def setup(tier):
    fast.all()


@st.composite
def _inputs_case(draw):
    coords = draw(st.sampled_from([False, "all", "all"]))
    s = draw(inputs.spec(coords=coords, nodes_min=2, maxlinks=6, minlinks=1, max_techs=2,
                         top=draw(st.integers(0, 2)) == 0))
    s["coords"] = bool(coords)
    s["unit"] = draw(st.sampled_from([None, "km", "m"]))
    s["seed"] = draw(st.integers(0, 99))
    links = sorted(t for t, x in s["techs"].items() if "link" in x)
    if links and draw(st.integers(0, 3)) == 0:
        idx = draw(st.lists(st.sampled_from(links), min_size=1, unique=True))
        s["defs"]["distance"] = {"data": [draw(st.sampled_from([2, 0.5, 44])) for _ in idx],
                                 "index": [[i] for i in idx], "dims": ["techs"]}
    ref = inputs.Reference(s)
    if draw(st.integers(0, 3)) == 0:
        keep = draw(st.lists(st.sampled_from(sorted(ref.N - {"n0"}) + ["n0"]), unique=True))
        s["keep"] = {"nodes": sorted({*keep, "n0"})}
    if draw(st.integers(0, 5)) == 0:
        keep = draw(st.lists(st.sampled_from(sorted(ref.T)), unique=True))
        s.setdefault("keep", {})["techs"] = sorted({*keep, "sup", "dem"})
    return {"inputs": s}


@st.composite
def _solved_case(draw):
    s = draw(mg.energy_spec(max_extra=2, minlinks=1, opts={}))
    s["pos"] = None
    if draw(st.integers(0, 2)):
        # supply at one end, demand at the other
        ends = s["techs"]["lnk0"]["link"]
        for t, n in (("sup0", ends[0]), ("dem0", ends[1])):
            x = s["techs"][t]
            x["nodes"], x["pn"] = [n], {k: v for k, v in x["pn"].items() if k == n}
        used = {n for t in s["techs"].values() for n in t["nodes"]}
        s["nodes"] = [n for n in s["nodes"] if n in used]
        s["node_p"] = {n: s["node_p"][n] for n in s["nodes"]}
    if draw(st.integers(0, 2)):
        s["unit"] = draw(st.sampled_from(["km", "m"]))
        s["pos"] = {n: [draw(st.sampled_from([0.001, 0.01, 10.02])) + 10 * (n == "x"),
                        draw(st.sampled_from([-30.005, -30.0, -30.013]))] for n in s["nodes"]}
        for t in s["techs"].values():
            if t["base"] == "transmission" and draw(st.integers(0, 2)):
                t["p"].pop("distance", None)
            if t["base"] == "transmission" and s["unit"] == "m":
                # (powers of hundreds of metres: everything vanishes)
                for p in ("flow_out_eff_per_distance", "flow_in_eff_per_distance"):
                    if p in t["p"]:
                        t["p"][p] = 0.9999
        for n, (a, b) in s["pos"].items():
            if a > 5:
                s["pos"][n] = [0.02, b]
    return {"solved": s}


def strategy(tier):
    return st.sampled_from([0, 0, 0, 0, 0, 1]).flatmap(
        lambda k: _solved_case() if k else _inputs_case())


def geodesic(lat1, lon1, lat2, lon2):
    """Distance in metres on the WGS84 ellipsoid (Vincenty's inverse formula); None: no answer."""
    a, f = 6378137.0, 1 / 298.257223563
    b = (1 - f) * a
    L = math.radians(lon2 - lon1)
    U1, U2 = (math.atan((1 - f) * math.tan(math.radians(x))) for x in (lat1, lat2))
    s1, c1, s2, c2 = math.sin(U1), math.cos(U1), math.sin(U2), math.cos(U2)
    lam = L
    for _ in range(500):
        sl, cl = math.sin(lam), math.cos(lam)
        ss = math.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl)
        if ss == 0:
            return 0.0
        cs = s1 * s2 + c1 * c2 * cl
        sig = math.atan2(ss, cs)
        sa = c1 * c2 * sl / ss
        ca2 = 1 - sa * sa
        cm = cs - 2 * s1 * s2 / ca2 if ca2 > 1e-15 else 0.0
        C = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
        new = L + (1 - C) * f * sa * (sig + C * ss * (cm + C * cs * (2 * cm * cm - 1)))
        if abs(new) > math.pi * 1.05:
            return None
        if abs(new - lam) < 1e-13:
            break
        lam = new
    else:
        return None
    u2 = ca2 * (a * a - b * b) / (b * b)
    A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
    B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
    ds = B * ss * (cm + B / 4 * (cs * (2 * cm * cm - 1)
                                 - B / 6 * cm * (4 * ss * ss - 3) * (4 * cm * cm - 3)))
    return b * A * (sig - ds)


def dist(p, q, unit):
    d1 = ((q[1] - p[1] + 180) % 360) - 180
    d = geodesic(p[0], 0.0, q[0], d1)
    if d is None:
        # (nearly opposite points on the globe)
        from geographiclib import geodesic as gl

        d = gl.Geodesic.WGS84.Inverse(*p, *q)["s12"]
    return d / 1000 if unit in (None, "km") else d


def run(case, rec):
    if "solved" in case:
        return run_solved(case["solved"], rec)
    import calliope

    s = case["inputs"]
    d = inputs.definition(s, random.Random(s["seed"]))
    if s["unit"]:
        d["config"]["init"]["distance_unit"] = s["unit"]
    ref = inputs.Reference(s)
    keep = s.get("keep", {})
    if keep:
        d["config"]["init"]["subset"] = copy.deepcopy(keep)
        sel = {x for x in ref.defmat if all(
            x[i] in keep.get(k, [x[i]]) for i, k in enumerate(("nodes", "techs")))}
        ends = {}
        for n, t, _ in sel:
            ends.setdefault(t, set()).add(n)
        ref.defmat = {x for x in sel if "link" not in s["techs"][x[1]] or len(ends[x[1]]) == 2}
        ref.cin &= ref.defmat
        ref.cout &= ref.defmat
        ref.refresh()
    auto = 0
    if s["coords"]:
        pos = {n: (x["p"]["latitude"], x["p"]["longitude"]) for n, x in s["nodes"].items()}
        far = {}
        for t, x in s["techs"].items():
            if "link" in x and t in ref.T:
                far[frozenset([("techs", t)])] = dist(*(pos[n] for n in x["link"]), s["unit"])
                auto += "distance" not in x["p"]
        ref.layers.setdefault("distance", []).append(far)
        if not far:
            ref.layers.pop("distance")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = calliope.read_dict(d)
    # (a member of a dimension of the user may be left without data by a subset)
    inputs.check(m.inputs, ref, approx=1e-9, members=False)
    live = [t for t in ref.T if "link" in s["techs"][t]]
    dead = [t for t, x in s["techs"].items() if "link" in x and t not in ref.T]
    rec.label("links", live)
    rec.label("links gone", dead)
    rec.label("computed distance", auto)
    rec.label("one-way", any(s["techs"][t].get("one_way") for t in live))
    rec.label("subset", keep)
    rec.nontrivial(bool(live))


def run_solved(spec, rec):
    import calliope

    ref = copy.deepcopy(spec)
    if spec["pos"]:
        for t in ref["techs"].values():
            if t["base"] == "transmission" and "distance" not in t["p"]:
                t["p"]["distance"] = dist(*(spec["pos"][n] for n in t["link"]), spec["unit"])
    ref = lpcase.repair(ref)
    d, dfs = mg.to_calliope(ref)
    if spec["pos"]:
        d["config"]["init"]["distance_unit"] = spec["unit"]
        for n, (lat, lon) in spec["pos"].items():
            if n in d["nodes"]:
                d["nodes"][n].update(latitude=lat, longitude=lon)
        for t, x in spec["techs"].items():
            if x["base"] == "transmission" and "distance" not in x["p"]:
                del d["techs"][t]["distance"]
                rec.label("solved with computed distance")
    lp = reflp.build(ref)
    m = calliope.read_dict(d, data_table_dfs=dfs)
    m.build()
    m.solve()
    if str(m.runtime.termination_condition) != "optimal":
        rec.label("not optimal")
        return
    times = mg.times(ref)
    x = lpcase.check_solution(m, ref, lp, times)
    moved = False
    for t, tech in ref["techs"].items():
        if tech["base"] != "transmission":
            continue
        a, b = tech["link"]
        c = tech["cin"][0]
        one = bool(tech["p"].get("one_way"))
        caps = [x.get(("flow_cap", n, t, c)) for n in (a, b)]
        require(None not in caps and lpcase.close(*caps, 1e-6, 1e-6),
                "link {}: capacities {} at its ends {}", t, caps, (a, b))
        for key, v in x.items():
            if key[0] in ("flow_in", "flow_out") and key[2] == t:
                require(key[1] in (a, b), "{} of link {} at {}, not one of its ends", key[0], t, key[1])
                if one:
                    require(key[1] == (a if key[0] == "flow_in" else b),
                            "one-way link {} from {} to {} has {} at {}", t, a, b, key[0], key[1])
                moved = moved or v > 1e-6
    rec.label("solved")
    rec.label("solved with flow on a link", moved)
    rec.nontrivial()
