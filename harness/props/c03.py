"""C03: YAML imports, re-saving and duplicate keys."""
import copy
import json
import math
import os
import pathlib
import tempfile

from hypothesis import strategies as st

from harness.core import require
from harness.props.c02 import Reject, leaves, m_get, m_set, m_union, plain

PID = "C03"
RULE = (
    "Three kinds of case: (import) a tree of up to 7 YAML files in nested directories, relative or "
    "absolute imports, dotted or nested keys, with and without conflicting leaves; (resave) a "
    "definition with arbitrary scalar/list/numpy/path leaves; (dup) a file with a repeated key at "
    "a random depth. Non-trivial: an import tree of depth>=2 or with a conflict, a definition with "
    "a value YAML could misread, or a duplicate below the top level."
)
EXAMPLES = {"quick": 700, "thorough": 30000}
SECONDS = {"quick": 25, "thorough": 600}

KEYS = ["a", "b", "c", "tech1", "nodes", "x_y"]
scal = st.sampled_from([1, 2, 0, -3, 0.25, 1e6, "s", "two words", True, False, None, "5", "yes"])
leaf = st.one_of(scal, st.lists(scal, max_size=3))
small = st.recursive(leaf, lambda c: st.dictionaries(st.sampled_from(KEYS), c, max_size=3),
                     max_leaves=6)
content = st.dictionaries(st.sampled_from(KEYS), small, min_size=1, max_size=3)
DIRS = ["", "sub", "sub/deep", "other", "with space"]


@st.composite
def import_case(draw):
    n = draw(st.integers(1, 7))
    files = []
    style = draw(st.sampled_from(["disjoint", "disjoint", "any"]))
    base = draw(content)
    for i in range(n):
        kids = []
        files.append({"dir": draw(st.sampled_from(DIRS)), "kids": kids, "data": {},
                      "dotted": draw(st.booleans()), "abs": draw(st.integers(0, 3)) == 0,
                      "flow": draw(st.booleans())})
        if i:
            parent = draw(st.integers(0, i - 1))
            files[parent]["kids"].append(i)
    if style == "disjoint":
        for k, p in enumerate(sorted(leaves(base))):
            f = files[draw(st.integers(0, n - 1))]
            m_set(f["data"], list(p), copy.deepcopy(m_get(base, p)))
    else:
        for f in files:
            f["data"] = draw(content)
    return {"kind": "import", "files": files, "override": draw(st.booleans()),
            "aspath": draw(st.booleans())}


WEIRD = ["yes", "no", "on", "null", "~", "", " ", "1", "1.0", "1e5", "0x1F", "0o7", ".inf", "-.inf",
         ".nan", "2005-01-01", "2005-01-01 00:00:00", "12:30:45", "# c", "a: b", "- x", "{a}", "[x",
         "'q'", '"dq"', "&a", "*a", "!t", "%d", "@x", "multi\nline", "trail ", "é ü", "|", ">", "true",
         "True", "NULL", "a#b", "a #b", ",", "?", "1_000", "=", "<<"]
text = st.text(
    alphabet=st.characters(codec="utf-8", exclude_categories=["Cc", "Cs", "Zl", "Zp"],
                           exclude_characters=["\ufeff", "\ufffe", "\uffff"]), max_size=8)
rscal = st.one_of(
    st.none(), st.booleans(), st.integers(-(10**12), 10**12),
    st.floats(allow_nan=False), st.sampled_from(WEIRD), text,
)
typed = st.one_of(
    rscal.map(lambda v: {"t": "py", "v": repr(v)} if isinstance(v, float) else {"t": "py", "v": v}),
    st.floats(-1e6, 1e6).map(lambda v: {"t": "npf", "v": v}),
    st.integers(-1000, 1000).map(lambda v: {"t": "npi", "v": v}),
    st.booleans().map(lambda v: {"t": "npb", "v": v}),
    st.sampled_from(["a/b.yaml", "x"]).map(lambda v: {"t": "path", "v": v}),
    st.lists(st.one_of(st.integers(-9, 9), st.sampled_from(WEIRD), st.booleans()), max_size=4).map(
        lambda v: {"t": "list", "v": v}),
    st.just({"t": "empty", "v": 0}),
)
paths = st.lists(st.sampled_from(KEYS + ["yes", "1", "null", "on", "k é", "2005-01-01"]),
                 min_size=1, max_size=3)


def strategy(tier):
    resave = st.fixed_dictionaries({
        "kind": st.just("resave"),
        "leaves": st.lists(st.tuples(paths, typed), min_size=1, max_size=8),
    })
    dup = st.fixed_dictionaries({
        "kind": st.just("dup"), "data": content, "at": st.integers(0, 60), "val": scal,
        "style": st.sampled_from(["block", "flow"]), "imported": st.booleans(),
    })
    return st.one_of(import_case(), import_case(), resave, dup)


def block(d, ind=0):
    """Block-style YAML of a nested dict with JSON scalars."""
    out = []
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.append(" " * ind + f"{k}:")
            out += block(v, ind + 2)
        else:
            out.append(" " * ind + f"{k}: {json.dumps(v)}")
    return out


def dotted(d, draw_seed=0):
    """Collapses single-child branches into dotted keys."""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            v = dotted(v)
            if len(v) == 1:
                kk, vv = next(iter(v.items()))
                out[f"{k}.{kk}"] = vv
                continue
        out[k] = v
    return out


def eq(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys() and all(
            eq(a[k], b[k]) for k in a)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(
            map(eq, a, b))
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, str) != isinstance(b, str):
        return False
    if (isinstance(a, float) or isinstance(b, float)) and type(a) is not type(b):
        return False
    return a == b


def run(case, rec):
    with tempfile.TemporaryDirectory() as tmp:
        globals()["run_" + case["kind"]](case, rec, pathlib.Path(tmp))
    rec.label(case["kind"])


def resolve(files, i, override):
    cur = copy.deepcopy(files[i]["data"])
    for k in files[i]["kids"]:
        imp = resolve(files, k, override)
        m_union(imp, cur, override)
        cur = imp
    return cur


def depth(files, i=0):
    return 1 + max([depth(files, k) for k in files[i]["kids"]], default=0)


def run_import(case, rec, tmp):
    from calliope import io

    files = case["files"]
    where = [tmp / f["dir"] / f"f{i}.yaml" for i, f in enumerate(files)]
    for i, f in enumerate(files):
        where[i].parent.mkdir(parents=True, exist_ok=True)
        data = dotted(f["data"]) if f["dotted"] else f["data"]
        if f["kids"]:
            data = dict(data)
            data["import"] = [
                str(where[k]) if files[k]["abs"]
                else os.path.relpath(where[k], where[i].parent) for k in f["kids"]
            ]
        where[i].write_text(
            (json.dumps(data) if f["flow"] or not data else "\n".join(block(data))) + "\n"
        )
    try:
        want = resolve(files, 0, case["override"])
        ok = True
    except Reject:
        want, ok = None, False
    target = where[0] if case["aspath"] else str(where[0])
    try:
        got, done = io.read_rich_yaml(target, allow_override=case["override"]), True
    except KeyError:
        got, done = None, False
    require(done == ok, "import tree {}: loaded={} expected {}", files, done, ok)
    if ok:
        require(eq(plain(got), want), "import tree {}: {} expected {}", files, plain(got), want)
    conflict = not ok
    if ok and case["override"]:
        try:
            resolve(files, 0, False)
        except Reject:
            conflict = True
    rec.label("conflict", conflict)
    rec.label("refused", not ok)
    rec.nontrivial(len(files) > 1 and (conflict or depth(files) > 2))
    if ok and not case["override"]:
        # the model entry point sees the same definition
        single = tmp / "single.yaml"
        single.write_text(json.dumps(want))
        require(eq(plain(io.read_rich_yaml(single)), want), "single file differs: {}", want)
    # a definition given as a string cannot import
    if files[0]["kids"] and ok:
        try:
            io.read_rich_yaml(where[0].read_text(), allow_override=True)
            require(False, "imports in a YAML string were silently ignored or resolved")
        except ValueError:
            pass


def build(x):
    import numpy as np

    t, v = x["t"], x["v"]
    if t == "py":
        return v
    return {
        "npf": lambda: np.float64(v), "npi": lambda: np.int64(v), "npb": lambda: np.bool_(v),
        "path": lambda: pathlib.Path(v), "list": lambda: list(v), "empty": lambda: {},
    }[t]()


def run_resave(case, rec, tmp):
    from calliope import AttrDict, io

    data, want = {}, {}
    for p, x in case["leaves"]:
        if x["t"] == "py" and isinstance(x["v"], str) and _isfloat(x["v"]):
            val = float(x["v"]) if "t" in x and x["v"] not in WEIRD else x["v"]
        else:
            val = build(x)
        plain_val = x["v"] if x["t"] in ("npf", "npi", "npb", "path", "list") else val
        try:
            m_set(want, p, copy.deepcopy(plain_val))
        except Reject:
            continue
        m_set(data, p, val)
    for as_attr in (True, False):
        src = AttrDict(copy.deepcopy(data)) if as_attr else copy.deepcopy(data)
        txt = io.to_yaml(src)
        require(plain(src) == data or _nan_safe(plain(src), data), "to_yaml changed its input")
        back = io.read_rich_yaml(txt) if not os.path.exists(txt) else None
        require(eq(plain(back), want), "re-read {!r}: {} expected {}", txt, plain(back), want)
        out = tmp / f"o{as_attr}.yaml"
        txt2 = io.to_yaml(src, path=out)
        require(txt2 == txt, "text returned differs when saving to file")
        require(eq(plain(io.read_rich_yaml(out)), want), "re-read file {!r} expected {}",
                out.read_text(), want)
        again = io.to_yaml(io.read_rich_yaml(out))
        require(eq(plain(io.read_rich_yaml(again)), want), "second round trip differs: {!r}", again)
    rec.nontrivial(
        any(x["t"] != "py" or isinstance(x["v"], str) for _, x in case["leaves"]) and len(want) > 1
    )


def _nan_safe(a, b):
    return repr(a) == repr(b)


def _isfloat(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def run_dup(case, rec, tmp):
    from ruamel.yaml.error import YAMLError

    from calliope import io

    data = case["data"]
    branches = [()] + sorted({p[:i] for p in leaves(data) for i in range(1, len(p))})
    b = branches[case["at"] % len(branches)]
    node = m_get(data, b)
    key = sorted(node)[case["at"] % len(node)]

    def emit(d, pre, ind):
        lines = []
        for k, v in d.items():
            if isinstance(v, dict) and v:
                if case["style"] == "block":
                    lines.append(" " * ind + f"{k}:")
                    lines += emit(v, pre + (k,), ind + 2)
                else:
                    lines.append(f"{k}: {{" + ", ".join(emit(v, pre + (k,), 0)) + "}")
            else:
                lines.append((" " * ind if case["style"] == "block" else "")
                             + f"{k}: {json.dumps(v)}")
        if pre == b:
            lines.append((" " * ind if case["style"] == "block" else "")
                         + f"{key}: {json.dumps(case['val'])}")
        return lines

    lines = emit(data, (), 0)
    txt = "\n".join(lines) if case["style"] == "block" else "{" + ", ".join(lines) + "}"
    clean = "\n".join(block(data))
    require(eq(plain(io.read_rich_yaml(clean + "\n")), data), "plain file {!r} expected {}", clean,
            data)
    f = tmp / "d.yaml"
    f.write_text(txt + "\n")
    target = f
    if case["imported"]:
        target = tmp / "main.yaml"
        target.write_text("import: ['d.yaml']\nzz: 1\n")
    for override in (False, True):
        try:
            got = io.read_rich_yaml(target, allow_override=override)
        except (YAMLError, KeyError, ValueError):
            continue
        require(False, "key {} repeated under {} was dropped: {!r} -> {}", key, b, txt, plain(got))
    rec.nontrivial(len(b) > 0)
