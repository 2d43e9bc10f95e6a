"""C05: tables and YAML that say the same thing give the same inputs."""
import copy
import itertools
import os
import random
import shutil
import tempfile
import warnings

import pandas as pd
from hypothesis import strategies as st

from harness import fast, inputs
from harness.core import Violation, require

PID = "C05"
RULE = (
    "A case is a generated definition of which a random part is moved from YAML into 1-4 data "
    "tables with random layouts: any dimensions in rows, columns or added constants, extra "
    "columns/rows selected and dropped, renamed dimensions, named or unnamed axes, CSV file or "
    "data frame, several tables for one parameter, decoy values overridden by later tables or by "
    "YAML. The inputs must equal the reference table of the original definition. Some cases break "
    "a rule for tables and must be refused. Non-trivial: at least one value comes from a table."
)
EXAMPLES = {"quick": 4000, "thorough": 80000}
SECONDS = {"quick": 34, "thorough": 900}
BREAK = ["duplicate", "no inputs", "protected", "levels", "axis name", "series", "overlap",
         "nothing left"]


def setup(tier):
    fast.all()


@st.composite
def _case(draw):
    s = draw(inputs.spec(none_ok=False, max_techs=3))
    s["seed"] = draw(st.integers(0, 10**6))
    s["break"] = draw(st.sampled_from([None] * 12 + BREAK))
    return s


def strategy(tier):
    return _case()


def whole(s):
    """Cells that can be moved to tables: {param: {key: value}} by parameter."""
    ref = inputs.Reference(s)
    return ref


def frame(rows, rng, rule):
    """Lay out rows [(coords dict incl. inputs, value)] as a table definition and a frame."""
    dims = sorted(rows[0][0])
    cons = {d: {r[0][d] for r in rows} for d in dims}
    add, rest = {}, list(dims)
    rng.shuffle(rest)
    # dimensions with one member may become added constants
    for d in list(rest):
        if len(cons[d]) == 1 and len(rest) > 1 and d != "timesteps" and rng.random() < 0.5:
            v = next(iter(cons[d]))
            add[d] = v if rng.random() < 0.6 else [v]
            rest.remove(d)
    # dimensions over which the values repeat may become added lists
    for d in list(rest):
        if len(rest) < 2 or len(cons[d]) < 2 or d == "timesteps":
            continue
        groups = {}
        for q, v in rows:
            groups.setdefault(q[d], {})[tuple(sorted((k, x) for k, x in q.items() if k != d))] = v
        g = list(groups.values())
        if all(x == g[0] and [type(y) for y in x.values()] == [type(g[0][k]) for k in x]
               for x in g):
            add[d] = sorted(groups)
            rng.shuffle(add[d])
            rest.remove(d)
            keep = add[d][0]
            rows = [(q, v) for q, v in rows if q[d] == keep]
    k = rng.randrange(0, len(rest) + 1)
    if rule == "no columns" or (k == len(rest) and rng.random() < 0.3):
        k = len(rest)
    r, c = rest[:k], rest[k:]
    if not r:
        r, c = c, r  # columns only: same thing on the other axis
    flip = rng.random() < 0.5
    if flip and c:
        r, c = c, r
    t = {"rows": r, "columns": c, "add_dims": add}
    # metadata dimension selected and dropped
    rows = [(dict(q), v) for q, v in rows]
    sel = {}
    if rng.random() < 0.3:
        name = rng.choice(["comment", "year"])
        good = {"comment": "use", "year": "first"}[name]
        bad = "other"
        more = [(dict(q, **{name: bad}), wrong(v, rng)) for q, v in rows if rng.random() < 0.7]
        for q, _ in rows:
            q[name] = good
        if rng.random() < 0.7 or more:
            sel[name] = good if rng.random() < 0.5 else [good]
            rows += more
        t["drop"] = name if rng.random() < 0.5 else [name]
        (t["rows"] if rng.random() < 0.5 or not t["columns"] else t["columns"]).append(name)
    # select on a real dimension
    if rng.random() < 0.25:
        d = rng.choice(t["rows"] + t["columns"])
        if d not in ("timesteps",) and d not in sel:
            labs = sorted({q[d] for q, _ in rows})
            extra = {"inputs": "lifetime_of_pi", "techs": "not_me", "nodes": "nowhere",
                     "carriers": "coal", "costs": "none", "things": "q9"}.get(d)
            if extra:
                rows += [(dict(q, **{d: extra}), wrong(v, rng)) for q, v in rows
                         if rng.random() < 0.5]
                sel[d] = labs if len(labs) > 1 or rng.random() < 0.5 else labs[0]
    if sel:
        t["select"] = sel
    seen = {}
    for q, v in rows:
        seen.setdefault(tuple(sorted(q.items())), (q, v))
    rows = list(seen.values())
    rng.shuffle(rows)
    own = t["rows"] + t["columns"]
    s = pd.Series([v for _, v in rows], dtype=object,
                  index=pd.MultiIndex.from_tuples([tuple(q[d] for d in own) for q, _ in rows],
                                                  names=own))
    names = {d: d for d in own}
    rename = {}
    for d in own:
        if rng.random() < 0.2 and d not in ("comment", "year"):
            names[d] = f"the {d}" if rng.random() < 0.5 else f"my{d}"
            if " " in names[d]:
                names[d] = f"my_{d}"
            rename[names[d]] = d
    if t["columns"]:
        df = s.unstack(t["columns"])
    else:
        df = s.to_frame("value")
    if not t["rows"]:
        df = s.to_frame("value").T
        if not isinstance(df.columns, pd.MultiIndex) and t["columns"]:
            df.columns.name = t["columns"][0]
    for ax in ("index", "columns"):
        i = getattr(df, ax)
        if isinstance(i, pd.MultiIndex) and i.nlevels == 1:
            setattr(df, ax, i.get_level_values(0))
    df = df.infer_objects()
    return t, df, names, rename


def wrong(v, rng):
    if v in ("supply", "demand", "storage", "conversion"):
        return "conversion" if v == "supply" else "supply"
    if v == "transmission":
        return v  # (tables may not give node-specific data for links, even overridden)
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return v + "x"
    return v + rng.choice([1, 10.5])


def to_table(rows, rng, tmp, k):
    """Table definition dictionary; the frame goes into a CSV file or the returned frame dict."""
    t, df, names, rename = frame(rows, rng, None)
    dfs = {}
    csv = rng.random() < 0.45 and bool(t["rows"])
    named = rng.random() < 0.6 or bool(rename)
    rn = [names[d] if named else None for d in t["rows"]]
    cn = [names[d] if named else None for d in t["columns"]]
    if t["rows"]:
        df.index = df.index.set_names(rn)
    else:
        df.index = pd.Index(["value"])
    if t["columns"]:
        df.columns = df.columns.set_names(cn)
    d = {"rows": listed(t["rows"], rng), "columns": listed(t["columns"], rng),
         "add_dims": t["add_dims"], "select": t.get("select"), "drop": t.get("drop"),
         "rename_dims": None}
    if rename:
        used = {a: b for a, b in rename.items() if b in t["rows"]}
        used_c = {a: b for a, b in rename.items() if b in t["columns"]}
        if csv:  # pandas keeps the names of several header rows only
            used_c = used_c if len(t["columns"]) > 1 else {}
        d["rename_dims"] = {**used, **used_c} or None
    if csv:
        path = os.path.join(tmp, f"t{k}.csv")
        if len(t["columns"]) > 1:
            df.to_csv(path)
        else:
            out = df.copy()
            if not named:
                out.index = out.index.set_names([f"c{i}" if False else None
                                                 for i in range(out.index.nlevels)])
            out.to_csv(path, index_label=None)
        d["table"] = path if rng.random() < 0.5 else os.path.basename(path)
    else:
        d["table"] = f"frame{k}"
        dfs[f"frame{k}"] = df
    return {a: b for a, b in d.items() if b not in (None, {}, [])}, dfs


def listed(xs, rng):
    return xs[0] if len(xs) == 1 and rng.random() < 0.6 else list(xs)


def split(s, rng):
    """(yaml spec, [rows per table]): moves a random part of the data to tables."""
    y = copy.deepcopy(s)
    groups = {}  # (param, where) -> rows

    def rows_of(p, v, base):
        out = []
        for k, x in inputs.cells(v, base):
            out.append((dict(k, inputs=p), x))
        return out

    placed_live = {(n, t) for n, t in inputs.Reference(s).placed}
    share = rng.choice([0.3, 0.6, 1.0])
    params = sorted({p for x in s["techs"].values() for p in x["p"]}
                    | {p for n in s["nodes"].values() for o in n["techs"].values() if o
                       for p in o["p"]})
    for p in params:
        if rng.random() > share or p in s["defs"]:
            continue
        mixed = {isinstance(v, dict) for x in s["techs"].values() for q, v in x["p"].items()
                 if q == p} | {isinstance(v, dict) for n in s["nodes"].values()
                               for o in n["techs"].values() if o for q, v in o["p"].items()
                               if q == p}
        if len(mixed) > 1:
            continue
        at_nodes = any(o and p in o["p"] for n in s["nodes"].values() for o in n["techs"].values())
        if not at_nodes:
            rows = []
            for t, x in y["techs"].items():
                if p in x["p"]:
                    v = x["p"].pop(p)
                    rows += rows_of(p, v, [("techs", t)])
            groups[p, "techs"] = rows
            continue
        # node-specific values are in the table too, so all combinations are spelled out
        rows, ok = [], True
        for n, x in s["nodes"].items():
            for t, o in x["techs"].items():
                v = ((o or {}).get("p") or {}).get(p, s["techs"][t]["p"].get(p))
                if v is not None:
                    rows += rows_of(p, v, [("nodes", n), ("techs", t)])
        for t, x in s["techs"].items():
            if "link" in x and p in x["p"]:
                ok = False  # (a link cannot be given at nodes in tables)
        if not ok:
            continue
        for x in y["techs"].values():
            x["p"].pop(p, None)
        for x in y["nodes"].values():
            for o in x["techs"].values():
                if o:
                    o["p"].pop(p, None)
        groups[p, "nodes"] = rows
    for p in sorted({p for x in s["nodes"].values() for p in x["p"]}):
        if rng.random() < share:
            rows = []
            for n, x in y["nodes"].items():
                if p in x["p"]:
                    v = x["p"].pop(p)
                    rows += rows_of(p, v, [("nodes", n)])
            groups[p, "node params"] = rows
    for p in sorted(s["defs"]):
        if rng.random() < share and not any(
                p in x["p"] for x in s["techs"].values()) and not any(
                o and p in o["p"] for x in s["nodes"].values() for o in x["techs"].values()):
            v = s["defs"][p]
            dims = v["dims"] if isinstance(v, dict) else []
            if "techs" in dims and "nodes" in dims:
                continue  # (would place the technology at the node)
            if isinstance(v, dict) and "techs" in dims and any(
                    i[dims.index("techs")] not in s["techs"] for i in v["index"]):
                continue
            y["defs"].pop(p)
            groups[p, "top"] = rows_of(p, v, [])
    if rng.random() < 0.3:
        rows = []
        for t, x in y["techs"].items():
            if "base" in x:
                rows.append(({"techs": t, "inputs": "base_tech"}, x["base"]))
                x["nobase"] = True
        groups["base_tech", "techs"] = rows
    links = [t for t, x in y["techs"].items() if "link" in x]
    if links and rng.random() < 0.3:
        for k, name in enumerate(("link_from", "link_to")):
            if rng.random() < 0.7:
                groups[name, "techs"] = [
                    ({"techs": t, "inputs": name}, y["techs"][t]["link"][k]) for t in links]
                for t in links:
                    y["techs"][t]["no" + name] = True
        ow = [t for t in links if "one_way" in y["techs"][t]]
        if ow and rng.random() < 0.7:
            groups["one_way", "techs"] = [
                ({"techs": t, "inputs": "one_way"}, y["techs"][t].pop("one_way")) for t in ow]
    for which, name in (("cout", "carrier_out"), ("cin", "carrier_in"), ("cexp", "carrier_export")):
        if rng.random() < 0.2:
            rows = []
            for t, x in y["techs"].items():
                for c in x.get(which, []):
                    rows.append(({"techs": t, "carriers": c, "inputs": name}, True))
                x["no" + which] = True
            if rows:
                groups[name, "techs"] = rows
    return y, {k: v for k, v in groups.items() if v}, placed_live


def definition(y, rng):
    d = inputs.definition(y, rng)
    for t, x in y["techs"].items():
        for flag, key in (("nobase", "base_tech"), ("nocout", "carrier_out"),
                          ("nocin", "carrier_in"), ("nocexp", "carrier_export"),
                          ("nolink_from", "link_from"), ("nolink_to", "link_to")):
            if x.get(flag):
                d["techs"][t].pop(key, None)
    return d


LOOK = {"carrier_in", "carrier_out", "carrier_export"}


def tables_of(groups, rng, s):
    """Put groups with the same dimensions together sometimes; add decoys. -> [rows]."""
    items = sorted(groups.items())
    rng.shuffle(items)
    tabs = []
    for (p, where), rows in items:
        rows = list(rows)
        dims = frozenset(rows[0][0])
        same = [t for t in tabs if frozenset(t["dims"]) == dims]
        kinds = {type(v) for _, v in rows}
        same = [t for t in same if t["kinds"] == kinds or rng.random() < 0.5]
        if same and rng.random() < 0.5:
            t = rng.choice(same)
            t["rows"] += rows
            t["kinds"] |= kinds
            continue
        tabs.append({"dims": dims, "rows": rows, "kinds": kinds})
    # one parameter spread over two tables
    for t in list(tabs):
        if len(t["rows"]) > 1 and rng.random() < 0.25:
            k = rng.randrange(1, len(t["rows"]))
            rng.shuffle(t["rows"])
            look = [r for r in t["rows"] if r[0]["inputs"] in LOOK]
            a = [r for r in t["rows"] if r[0]["inputs"] not in LOOK]
            if len(a) > 1:
                k = rng.randrange(1, len(a))
                tabs.append({"dims": t["dims"], "rows": a[k:], "kinds": t["kinds"]})
                t["rows"] = look + a[:k]
    # an earlier table with wrong values for some of the same cells
    out = []
    for t in tabs:
        a = [(q, wrong(v, rng)) for q, v in t["rows"]
             if q["inputs"] not in LOOK and rng.random() < 0.5]
        if a and rng.random() < 0.3:
            out.append(a)
    rng.shuffle(out)
    n = len(out)
    out += [t["rows"] for t in tabs]
    return out, n


def yaml_decoys(y, s, rng):
    """Rows for a table that YAML values override."""
    rows = {}
    for t, x in y["techs"].items():
        for p, v in x["p"].items():
            # (node-specific indexed data replace the index as a whole)
            if rng.random() < 0.5 and not any(
                    p in o["p"] for n in s["nodes"].values() for o in n["techs"].values() if o):
                for k, val in inputs.cells(v, [("techs", t)]):
                    if not inputs.is_missing(val):
                        rows.setdefault((p, isinstance(v, dict)), []).append(
                            (dict(k, inputs=p), wrong(val, rng)))
    return list(rows.values())


def run(s, rec):
    import calliope

    rng = random.Random(s["seed"])
    for x in s["nodes"].values():
        for t, o in x["techs"].items():
            if o and o.get("active") and not s["techs"][t]["active"]:
                del o["active"]  # switched off everywhere but on here: known finding
    ref = inputs.Reference(s)
    if "literal" in s:  # (known findings keep their exact table)
        m = calliope.read_dict(s["literal"]["d"], data_table_dfs={
            k: pd.DataFrame(**v) for k, v in s["literal"]["dfs"].items()})
        inputs.check(m.inputs, inputs.Reference(s["literal"]["spec"]), members=False)
        return
    y, groups, _ = split(s, rng)
    rows, ndecoy = tables_of(groups, rng, s)
    kinds = {(p, isinstance(v, dict)) for x in s["techs"].values() for p, v in x["p"].items()}
    over = []
    if rng.random() < 0.3:
        over = [r for r in yaml_decoys(y, s, rng)
                if (r[0][0]["inputs"], len(r[0][0]) <= 2) not in kinds]
        rows = over + rows
    tmp = tempfile.mkdtemp(prefix="c05-")
    open(os.path.join(tmp, "model.yaml"), "w").close()
    try:
        tabs, dfs = {}, {}
        for i, r in enumerate(rows):
            t, f = to_table(r, rng, tmp, i)
            tabs[f"tab{i}"] = t
            dfs.update(f)
        d = definition(y, rng)
        if tabs:
            d["data_tables"] = tabs
        if s["break"] and tabs:
            broken(s["break"], d, dfs, tabs, rows, rng, rec, tmp)
            return
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = calliope.read_dict(d, data_table_dfs=dfs,
                                   definition_path=os.path.join(tmp, "model.yaml"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    inputs.check(m.inputs, ref, members=False, skip=("link_from", "link_to"))
    rec.nontrivial(bool(tabs))
    rec.label(f"{len(tabs)} tables")
    if ndecoy:
        rec.label("later table overrides")
    if over:
        rec.label("YAML overrides a table")
    if any(t["table"].endswith(".csv") for t in tabs.values()):
        rec.label("from a file")
    for k in ("select", "drop", "add_dims", "rename_dims"):
        if any(k in t for t in tabs.values()):
            rec.label(k)


def broken(kind, d, dfs, tabs, rows, rng, rec, tmp):
    import calliope

    base = pd.DataFrame({"my_num": [1.0, 2.0]}, index=pd.Index(["sup", "dem"], name="techs"))
    t = {"table": "bad", "rows": "techs", "columns": "inputs"}
    if kind == "duplicate":
        base = pd.DataFrame({"my_num": [1.0, 2.0]}, index=pd.Index(["sup", "sup"], name="techs"))
    elif kind == "no inputs":
        t = {"table": "bad", "rows": "techs", "columns": "nodes"}
        base = pd.DataFrame({"n0": [1.0, 2.0]}, index=base.index)
    elif kind == "protected":
        p = rng.choice(["active", "definition_matrix", "template", "templates"])
        base = base.rename(columns={"my_num": p})
    elif kind == "levels":
        t["rows"] = ["nodes", "techs"]
    elif kind == "axis name":
        base.index.name = "nodes"
    elif kind == "series":
        base = base["my_num"]
    elif kind == "overlap":
        t["add_dims"] = {"techs": "sup"}
    elif kind == "nothing left":
        t["drop"] = ["techs", "inputs"]
    d["data_tables"] = {**d.get("data_tables", {}), "bad": t}
    dfs["bad"] = base
    rec.label("must refuse: " + kind)
    rec.nontrivial()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            calliope.read_dict(d, data_table_dfs=dfs,
                               definition_path=os.path.join(tmp, "model.yaml"))
    except (calliope.exceptions.ModelError, ValueError) as exc:
        return
    raise Violation(f"a malformed table was accepted: {kind}")
