"""C01: layered definition resolution against a small reference resolver."""
import copy
import json
import pathlib
import tempfile

from hypothesis import strategies as st

from harness.core import Violation, require
from harness.props.c02 import Reject, is_d, leaves, m_get, m_set, m_union

PID = "C01"
RULE = (
    "A case is a model definition with up to 4 templates (chains, at tech, node, node-tech, data "
    "and config level), up to 5 overrides, up to 3 possibly nested scenarios, an override "
    "dictionary (which may redefine overrides and scenarios and replace branches) and "
    "initialisation keywords, all drawing from the same small universe of leaves so that layers "
    "collide. Every leaf of the resulting definition and configuration is compared with a "
    "reference resolver. Non-trivial: at least two layers give different values to one leaf, or "
    "the definition must be refused."
)
EXAMPLES = {"quick": 260, "thorough": 8000}
SECONDS = {"quick": 30, "thorough": 900}

NUM = st.sampled_from([0, 1, 2.5, 3, 4, 7, None])
NUM1 = st.sampled_from([0, 1, 2.5, 3, 4, 7])
PARAMS = ["p1", "p2", "p3"]
TECHS = ["tA", "tB"]
TEMPL = ["T0", "T1", "T2", "T3"]
NTEMPL = ["N0", "N1"]

nest = st.fixed_dictionaries(
    {}, optional={"data": NUM1, "index": st.just("monetary"), "dims": st.just("costs")}
)
FULL_NEST = {"data": 1, "index": "monetary", "dims": "costs"}


@st.composite
def params(draw, nmax=3, with_none=True):
    out = {k: draw(NUM if with_none else NUM1) for k in draw(st.lists(
        st.sampled_from(PARAMS), unique=True, max_size=nmax))}
    if draw(st.integers(0, 2)) == 0:
        out["nst"] = draw(st.one_of(st.just(dict(FULL_NEST)), nest, st.none()))
    return out


@st.composite
def node_part(draw, templates=True):
    n = {}
    for k in draw(st.lists(st.sampled_from(["q1", "q2"]), unique=True, max_size=2)):
        n[k] = draw(NUM)
    ts = draw(st.lists(st.sampled_from(TECHS), unique=True, max_size=2))
    if ts:
        n["techs"] = {t: draw(params()) for t in ts}
    if templates and draw(st.integers(0, 4)) == 0:
        n["template"] = draw(st.sampled_from(NTEMPL))
    return n


@st.composite
def config_part(draw):
    c = {}
    opts = [
        ("init", "name", st.sampled_from(["m1", "m2", "m3"])),
        ("init", "distance_unit", st.sampled_from(["km", "m"])),
        ("build", "ensure_feasibility", st.booleans()),
        ("solve", "zero_threshold", st.sampled_from([1e-6, 1e-7, 1e-8])),
        ("solve", "postprocessing_active", st.booleans()),
        ("solve", "solver", st.sampled_from(["cbc", "glpk"])),
    ]
    for sec, k, s in opts:
        if draw(st.integers(0, 3)) == 0:
            c.setdefault(sec, {})[k] = draw(s)
    if draw(st.integers(0, 3)) == 0:
        o = {k: draw(st.sampled_from([1, 2, 5])) for k in draw(
            st.lists(st.sampled_from(["threads", "ratio"]), unique=True, min_size=1))}
        c.setdefault("solve", {})["solver_options"] = o
    return c


@st.composite
def layer(draw, size=2, data=True):
    """A partial definition."""
    out = {}
    for _ in range(draw(st.integers(1, size))):
        k = draw(st.sampled_from(["techs", "techs", "nodes", "data", "config", "templ", "call"]))
        if k == "techs":
            out.setdefault("techs", {})[draw(st.sampled_from(TECHS))] = draw(params())
        elif k == "nodes":
            out.setdefault("nodes", {})[draw(st.sampled_from(["n1", "n2"]))] = draw(
                node_part(templates=False))
        elif k == "data":
            dd = out.setdefault("data_definitions", {})
            dd[draw(st.sampled_from(["g1", "g2"]))] = draw(NUM)
        elif k == "config":
            c = draw(config_part())
            if c:
                out["config"] = c
        elif k == "templ":
            out.setdefault("templates", {})[draw(st.sampled_from(TEMPL))] = draw(params())
        elif k == "call":
            out.setdefault("techs", {}).setdefault(draw(st.sampled_from(TECHS)), {})[
                "template"] = draw(st.sampled_from(TEMPL))
    return out


@st.composite
def case(draw):
    d = {"config": draw(config_part()), "techs": {}, "nodes": {}, "data_definitions": {}}
    d["config"].setdefault("init", {}).setdefault("name", "base")
    d["templates"] = {}
    mode = draw(st.sampled_from(["chain", "chain", "chain", "free"]))
    for i, t in enumerate(TEMPL):
        p = draw(params())
        if i and draw(st.integers(0, 1)):
            p["template"] = TEMPL[draw(st.integers(0, i - 1))]
        elif mode == "free" and draw(st.integers(0, 3)) == 0:
            p["template"] = draw(st.sampled_from(TEMPL + ["T9"]))
        d["templates"][t] = p
    for i, t in enumerate(NTEMPL):
        p = {k: draw(NUM) for k in ("q1", "q2") if draw(st.booleans())}
        if draw(st.integers(0, 2)) == 0:
            p["techs"] = {draw(st.sampled_from(TECHS)): draw(params())}
        if i and draw(st.booleans()):
            p["template"] = "N0"
        d["templates"][t] = p
    order = draw(st.permutations(TEMPL + NTEMPL))
    d["templates"] = {t: d["templates"][t] for t in order}
    for t in TECHS:
        p = draw(params())
        if draw(st.integers(0, 1)):
            p["template"] = draw(st.sampled_from(TEMPL))
        p.update({"base_tech": "supply", "carrier_out": "el"})
        d["techs"][t] = p
    d["techs"]["dem"] = {"base_tech": "demand", "carrier_in": "el"}
    for n in ["n1", "n2"]:
        p = draw(node_part())
        for t in p.get("techs", {}).values():
            if draw(st.integers(0, 3)) == 0:
                t["template"] = draw(st.sampled_from(TEMPL))
        p.setdefault("techs", {})["dem"] = {"sink_use_max": 1}
        d["nodes"][n] = p
    d["nodes"]["n1"]["techs"].setdefault("tA", draw(st.sampled_from([None, {}])))
    for g in draw(st.lists(st.sampled_from(["g1", "g2"]), unique=True, max_size=2)):
        d["data_definitions"][g] = draw(NUM)
    d["data_definitions"]["tabl"] = {"data": [1, 2], "index": ["x", "y"], "dims": "costs"}
    if draw(st.integers(0, 9)) == 0:
        d["data_definitions"]["tabl2"] = {"template": draw(st.sampled_from(TEMPL)), **FULL_NEST}
    os = {}
    for i in range(draw(st.integers(0, 5))):
        os[f"o{i}"] = draw(layer(2))
    if "o0" in os and draw(st.integers(0, 4)) == 0:
        os["o0"].setdefault("data_definitions", {})["tabl"] = {
            "_REPLACE_": {"data": 9, "index": "z", "dims": "costs"}}
    names = sorted(os)
    sc = {}
    for i in range(draw(st.integers(0, 3))):
        pool = names + [f"s{j}" for j in range(i)]
        if pool:
            sc[f"s{i}"] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4))
            if len(sc[f"s{i}"]) == 1 and draw(st.booleans()):
                sc[f"s{i}"] = sc[f"s{i}"][0]
    if os:
        d["overrides"] = os
    if sc:
        d["scenarios"] = sc
    pool = names + sorted(sc)
    scenario = None
    k = draw(st.integers(0, 7))
    if k and pool:
        xs = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
        if sc and k > 4:
            xs = [draw(st.sampled_from(sorted(sc)))]
        scenario = ",".join(xs)
        if draw(st.integers(0, 25)) == 0:
            scenario += ",nope"
    od = None
    if draw(st.integers(0, 1)):
        od = draw(layer(3))
        r = draw(st.integers(0, 9))
        if r == 0 and names:
            od["overrides"] = {draw(st.sampled_from(names)): draw(layer(1))}
        elif r == 1 and names:
            od["scenarios"] = {"s0": draw(st.lists(st.sampled_from(names), min_size=1, max_size=2))}
        elif r == 2:
            od.setdefault("data_definitions", {})["tabl"] = {
                "_REPLACE_": {"data": 5, "index": "w", "dims": "costs"}}
        elif r == 3 and draw(st.booleans()):
            od.setdefault("techs", {}).setdefault("tA", {})["templates"] = {"T0": {"p1": 1}}
    kw = {}
    if draw(st.integers(0, 2)) == 0:
        kw["name"] = draw(st.sampled_from(["kw1", "kw2"]))
    if draw(st.integers(0, 4)) == 0:
        kw["distance_unit"] = draw(st.sampled_from(["km", "m"]))
    return {"def": d, "scenario": scenario, "override": od, "kw": kw,
            "yaml": draw(st.integers(0, 5)) == 0}


def strategy(tier):
    return case()


# --------------------------------------------------------------------- reference resolver
def union_replace(d, o):
    """Right-biased merge where {branch: {_REPLACE_: x}} replaces the branch by x."""
    o = copy.deepcopy(o)
    reps = []

    def strip(x, pre):
        for k in list(x):
            if k == "_REPLACE_":
                reps.append((pre, x.pop(k)))
            elif is_d(x[k]):
                had = bool(x[k])
                strip(x[k], pre + (k,))
                if had and not x[k]:
                    del x[k]

    strip(o, ())
    m_union(d, o, True)
    for p, v in reps:
        cur = d
        for k in p[:-1]:
            cur = cur[k]
        cur[p[-1]] = copy.deepcopy(v)


def expand(name, overrides, scenarios, seen=()):
    if name in seen:
        raise Reject
    if name in scenarios:
        v = scenarios[name]
        parts = [v] if isinstance(v, str) else v
        return set().union(*[expand(p, overrides, scenarios, seen + (name,)) for p in parts])
    if name not in overrides:
        raise Reject
    return {name}


def resolve(case):
    d = copy.deepcopy(case["def"])
    od = copy.deepcopy(case["override"]) or {}
    union_replace(d, od)
    overrides, scenarios = d.pop("overrides", {}), d.pop("scenarios", {})
    applied = set()
    if case["scenario"] is not None:
        sc = case["scenario"]
        for part in [sc] if sc in scenarios else sc.split(","):
            applied |= expand(part, overrides, scenarios)
        comb = {}
        for name in sorted(applied):
            o = overrides[name]
            m_union(comb, copy.deepcopy(o), False)
        # conflict detection must not depend on the order
        for name in sorted(applied, reverse=True):
            pass
        union_replace(d, comb)
    od.pop("overrides", None)
    od.pop("scenarios", None)
    union_replace(d, od)
    templates = d.pop("templates", {})

    def templ(name, seen):
        if name in seen or name not in templates:
            raise Reject
        t = dict(copy.deepcopy(templates[name]))
        parent = t.pop("template", None)
        out = templ(parent, seen + (name,)) if parent is not None else {}
        m_union(out, t, True)
        return out

    for name in templates:
        templ(name, ())

    def fill(x):
        if not is_d(x):
            return x
        if "templates" in x:
            raise Reject
        out = {}
        if "template" in x:
            out = templ(x["template"], ())
        m_union(out, {k: fill(v) for k, v in x.items() if k != "template"}, True)
        return out

    d = fill(d)
    for k, v in case["kw"].items():
        m_set(d, ["config", "init", k], v)
    return d, applied


DEFAULTS = {}


def setup(tier):
    import calliope
    import pandas as pd

    from harness import fast

    fast.yaml()
    df = pd.DataFrame({"dum": [1.0, 2.0]}, index=pd.date_range("2020-01-01", periods=2, freq="h"))
    df.columns = pd.Index(["dum"], name="inputs")
    DEFAULTS["df"] = df
    m = calliope.read_dict(
        complete({"config": {}, "techs": {"t": {"base_tech": "supply", "carrier_out": "el"},
                                          "dem": {"base_tech": "demand", "carrier_in": "el"}},
                  "nodes": {"n1": {"techs": {"t": None, "dem": None}}}}),
        data_table_dfs={"t": df},
    )
    DEFAULTS["config"] = m.config.model_dump()


def complete(d):
    d = copy.deepcopy(d)
    d["data_tables"] = {"t": {"table": "t", "rows": "timesteps", "columns": "inputs"}}
    return d


SCHEMA_DEFAULTS = {"active": True, "latitude": None, "longitude": None, "techs": None}


def run(case, rec):
    import calliope

    want, applied, ok = None, None, True
    try:
        want, applied = resolve(case)
    except Reject:
        ok = False
    if ok and incomplete(want):
        rec.label("skipped-incomplete")
        return
    d = complete(case["def"])
    kw = dict(scenario=case["scenario"], override_dict=copy.deepcopy(case["override"]),
              data_table_dfs={"t": DEFAULTS["df"]}, **case["kw"])
    try:
        if case["yaml"]:
            with tempfile.TemporaryDirectory() as tmp:
                f = pathlib.Path(tmp) / "m.yaml"
                f.write_text(json.dumps(d))
                m = calliope.read_yaml(f, **kw)
            rec.label("from-file")
        else:
            m = calliope.read_dict(d, **kw)
    except (calliope.exceptions.ModelError, KeyError, RecursionError) as e:
        if ok:
            raise Violation(f"definition refused: {e!r}") from e
        rec.label("refused")
        rec.nontrivial()
        return
    require(ok, "a definition that must be refused was accepted: {}", case)
    got = m.definition.model_dump()
    for sec in ("techs", "nodes", "data_definitions"):
        compare(want.get(sec) or {}, got[sec], sec)
    cfg, dflt = m.config.model_dump(), copy.deepcopy(DEFAULTS["config"])
    m_union(dflt, want["config"], True)
    for p in sorted(set(leaves(dflt)) | set(leaves(cfg))):
        if p[-1] in ("timeseries_data_path",):
            continue
        a, b = m_get_or(cfg, p), m_get_or(dflt, p)
        require(a == b, "config.{} is {!r}, expected {!r}", ".".join(p), a, b)
    names = set(filter(None, (m.runtime.applied_overrides or "").split(";")))
    require(names == applied, "applied overrides {} expected {}", names, applied)
    require(m.runtime.scenario == case["scenario"], "scenario {} recorded", m.runtime.scenario)
    # the values reach the model inputs: node entries beat technology entries
    for n, nd in (want["nodes"] or {}).items():
        for k in ("q1", "q2"):
            if nd.get(k) is not None:
                require(val(m, k, nodes=n) == nd[k], "inputs.{} at {} is {}, expected {}", k, n,
                        val(m, k, nodes=n), nd[k])
        for t, td in (nd.get("techs") or {}).items():
            for k in PARAMS:
                if k in (td or {}):
                    w = td[k]
                else:
                    w = want["techs"][t].get(k)
                if w is None:
                    continue
                require(val(m, k, nodes=n, techs=t) == w, "inputs.{} at {}, {} is {}, expected {}",
                        k, n, t, val(m, k, nodes=n, techs=t), w)
    rec.label("scenario", case["scenario"] is not None)
    rec.label("override-dict", bool(case["override"]))
    layers = [case["def"], case["override"] or {}] + [
        (case["def"].get("overrides") or {}).get(o, {}) for o in applied]
    seen, collide = {}, False
    for layer_ in layers:
        for p in leaves({k: v for k, v in layer_.items() if k in (
                "techs", "nodes", "config", "data_definitions")}):
            v = repr(m_get(layer_, p))
            collide |= seen.setdefault(p, v) != v
    rec.label("collision", collide)
    tmpl = any("template" in p for p in leaves(case["def"]))
    rec.nontrivial(collide or tmpl)


def incomplete(want):
    """Definitions that are invalid for reasons other than the layering are not judged here."""

    def bad(v):
        return is_d(v) and set(v) != set(FULL_NEST)

    for t in want["techs"].values():
        if bad(t.get("nst")):
            return True
        if any(k.startswith("q") or k == "active" for k in t):
            return True
    for n in want["nodes"].values():
        if bad(n.get("nst")) or "p1" in n and False:
            return True
        for t in (n.get("techs") or {}).values():
            if t and (bad(t.get("nst")) or any(k.startswith("q") for k in t)):
                return True
    for v in (want.get("data_definitions") or {}).values():
        if is_d(v) and ({"data", "index", "dims"} - set(v) or set(v) - set(FULL_NEST)):
            return True
    # one name used with different dimensions in different places
    return False


def m_get_or(d, p):
    for k in p:
        if not is_d(d) or k not in d:
            return None
        d = d[k]
    return d


def compare(want, got, pre):
    for k in sorted(set(want) | set(got or {}), key=str):
        here = f"{pre}.{k}"
        if k not in want:
            require(k in SCHEMA_DEFAULTS and got[k] == SCHEMA_DEFAULTS[k],
                    "{} = {!r} appears from nowhere", here, got[k])
            continue
        w = want[k]
        require(got is not None and k in got, "{} is missing (expected {!r})", here, w)
        g = got[k]
        if is_d(w) and is_d(g):
            compare(w, g, here)
        elif is_d(w) and not w and g is None:
            pass
        else:
            require(w == g, "{} is {!r}, expected {!r}", here, g, w)


def val(m, k, **sel):
    if k not in m.inputs:
        return None
    a = m.inputs[k]
    if any(s not in a.dims and d in () for d, s in sel.items()):
        return None
    a = a.sel({d: s for d, s in sel.items() if d in a.dims})
    return float(a.values.flat[0]) if a.size == 1 else a.values.tolist()
