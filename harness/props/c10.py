"""C10: conditions select exactly the cells their logic describes."""
from hypothesis import strategies as st

from harness import mathlab as ml
from harness import wgen
from harness.core import Violation, require

PID = "C10"
RULE = (
    "Random where strings (bare inputs/results, comparisons with arithmetic, helper functions, "
    "subsets, config options, bracketed not/and/or chains of depth <= 3) as top-level and "
    "equation-level conditions of variables, global expressions and constraints over random "
    "foreach lists of 16 generated worlds; plus corrupted strings that must be rejected. "
    "Non-trivial: the predicted selection is neither empty nor everything, or the string is "
    "corrupted."
)
EXAMPLES = {"quick": 1500, "thorough": 40000}
SECONDS = {"quick": 28, "thorough": 600}
BAD = ["trailing", "lead", "double", "paren", "paren2", "op", "unknown", "unknowncmp", "bang",
       "emptylist", "amp", "single", "helper", "badin", "two"]


@st.composite
def _case(draw):
    c = {"k": draw(st.sampled_from(ml.worlds())), "foreach": draw(wgen.foreachs),
         "where": draw(wgen.cond(3)), "kind": draw(st.sampled_from(["variable", "variable", "expression", "constraint"])),
         "eqwhere": None}
    if c["kind"] != "variable" and draw(st.booleans()):
        c["eqwhere"] = draw(wgen.cond(1))
    if draw(st.integers(0, 9)) == 0:
        c["bad"] = draw(st.sampled_from(BAD))
    return c


def strategy(tier):
    return _case()


def corrupt(s, how):
    return {
        "trailing": s + " and", "lead": "or " + s, "double": f"{s} and or {s}",
        "paren": f"({s}", "paren2": f"{s})", "op": "p_n = 3", "unknown": f"{s} and nosuchthing",
        "unknowncmp": f"nosuchthing>1 or {s}", "bang": "p_n != 3", "emptylist": "[] in nodes",
        "amp": f"({s}) & ({s})", "single": f"{s} not", "helper": "nosuchhelper(p_n, over=nodes)",
        "badin": "[na] in nosuchdim", "two": f"{s} {s}",
    }[how]


def build(w, c, name, where, eqwhere):
    b = w.backend
    if c["kind"] == "variable":
        b.add_variable(name, {"foreach": c["foreach"], "where": where,
                              "bounds": {"min": 0, "max": 1}})
        return b.get_variable(name, as_backend_objs=True)
    eq = {"expression": "1 + 1"} if c["kind"] == "expression" else {"expression": "v_0 <= 3"}
    if eqwhere is not None:
        eq["where"] = eqwhere
    d = {"foreach": c["foreach"], "where": where, "equations": [eq]}
    if c["kind"] == "expression":
        b.add_global_expression(name, d)
        return b.get_global_expression(name)
    b.add_constraint(name, d)
    return b.get_constraint(name)


def run(c, rec):
    w = ml.World.get(c["k"])
    where = ml.render_w(c["where"])
    eqwhere = None if c["eqwhere"] is None else ml.render_w(c["eqwhere"])
    name = w.name()
    kind = {"variable": "variables", "expression": "global_expressions",
            "constraint": "constraints"}[c["kind"]]
    if c.get("bad"):
        bad = corrupt(where, c["bad"])
        rec.label("corrupted")
        rec.nontrivial()
        c2 = dict(c, foreach=["nodes", "techs"])
        try:
            build(w, c2, name, bad, None)
        except Exception:  # noqa: BLE001
            return
        raise Violation(f"condition outside the grammar accepted: {bad}")
    wheres = [c["where"]] + ([c["eqwhere"]] if c["eqwhere"] is not None else [])
    try:
        # top-level and equation conditions are reduced to foreach one after the other
        top = w.exists(c["foreach"], [c["where"]])
        want = set()
        if c["eqwhere"] is None:
            want = top
        else:
            extra = sorted(w.cdims(c["eqwhere"]) - set(c["foreach"]))
            for idx in top:
                env = dict(zip(c["foreach"], idx))
                if any(w.cond(c["eqwhere"], dict(env, **dict(zip(extra, x))))
                       for x in ml._grid(extra, w.members)):
                    want.add(idx)
    except ml.Undefined:
        return
    except IndexError:
        return  # get_val_at_index beyond the dimension
    arr = build(w, c, name, where, eqwhere)
    try:
        require(arr.ndim == 0 or set(arr.dims) == set(c["foreach"]),
                "{}: built over {} instead of {}", where, arr.dims, c["foreach"])
        if not c["foreach"]:
            got = {()} if arr.notnull().any() else set()
        elif arr.ndim == 0 and arr.isnull().all():
            got = set()
        else:
            got = set(w.keyed(arr, c["foreach"]))
    finally:
        w.backend.delete_component(name, kind)
    total = len(ml._grid(c["foreach"], w.members)) if all(
        d in w.members for d in c["foreach"]) else 0
    if got != want:
        raise Violation(
            f"foreach {c['foreach']} where '{where}' / '{eqwhere}' ({c['kind']}, world {c['k']}): "
            f"missing {sorted(map(str, want - got))[:5]}, unexpected {sorted(map(str, got - want))[:5]}"
        )
    rec.nontrivial(0 < len(want) < total)
    for x in wheres:
        _labels(x, rec)
    rec.label("kind " + c["kind"])
    rec.label("empty selection", not want)


def _labels(w, rec):
    if w[0] in ("chain",):
        rec.label("and/or")
        for x in w[1][::2]:
            _labels(x, rec)
    elif w[0] == "not":
        rec.label("not")
        _labels(w[1], rec)
    else:
        rec.label("condition " + w[0])
