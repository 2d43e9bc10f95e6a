"""C11: math expressions evaluate to their mathematical meaning."""
from hypothesis import strategies as st

from harness import mathcomp as mc
from harness import mathlab as ml
from harness.core import Violation, require

PID = "C11"
RULE = (
    "Random expression trees (arithmetic chains with brackets, signs, powers, slices by name, "
    "list, lookup or date, sums, sub-expressions and slices with conditional options, several "
    "conditional equations) as global expressions and constraints over 17 foreach shapes in 16 "
    "generated worlds, compared cell by cell at random variable values; variable bounds by "
    "parameter or number; corrupted strings that must be rejected. Non-trivial: at least one "
    "cell is compared (or rejected) and the expression is not a bare name or number."
)
ASSUMPTIONS = [
    "-a**b and a**b**c are not generated: the documentation fixes no reading for them.",
    "Arithmetic inside a sum over a dimension that is also in foreach is not generated.",
]
EXAMPLES = {"quick": 1200, "thorough": 30000}
SECONDS = {"quick": 35, "thorough": 600}
BAD = ["trailing", "lead", "double", "paren", "paren2", "unknown", "eq", "caret", "slice", "slice2", "empty",
       "undefsub", "undefslice", "helper", "two", "nocompare"]


@st.composite
def _case(draw):
    t = draw(st.integers(0, 11))
    if t == 0:
        c = draw(mc.component(False))
        c["bad"] = draw(st.sampled_from(BAD))
        return c
    if t == 1:
        b = st.sampled_from(["p_n", "p_nt", "p_ntd", "p_t", "p_inf", "p_gone", "p_void", -2, 0, 3, float("inf"), float("-inf")])
        return {"k": draw(st.sampled_from(ml.worlds())), "bounds": [draw(b), draw(b)],
                "foreach": draw(st.sampled_from([["nodes", "techs"], ["techs", "nodes", "carriers"]]))}
    return draw(mc.component(False))


def strategy(tier):
    return _case()


def corrupt(s, how, cons):
    if cons and how not in ("paren", "paren2", "nocompare"):
        s = s.split("=")[0].rstrip("<>") if "[" not in s else "v_0"
    x = {
        "trailing": s + " +", "lead": "* " + s, "double": f"{s} * / {s}", "paren": f"({s}",
        "paren2": f"{s})", "unknown": f"{s} + nosuchthing", "eq": f"{s} = 1", "caret": f"({s}) ^ 2",
        "slice": "p_n[nodes=]", "slice2": "p_n[nodes na]", "empty": "", "undefsub": f"{s} + $nosuchsub",
        "undefslice": "p_n[nodes=$nosuchslice]", "helper": f"nosuchhelper({s})", "two": f"{s} ({s})",
        "nocompare": "v_0" if cons else "v_0 <= 1",
    }[how]
    if cons and how not in ("paren", "paren2", "nocompare", "eq"):
        x += " <= 1"
    return x


def run(c, rec):
    w = ml.World.get(c["k"])
    if "bounds" in c:
        return run_bounds(w, c, rec)
    if "bad" not in c:
        return mc.run_component(c, rec)
    d = mc.definition(c)
    d["where"] = "True"
    d["foreach"] = c["foreach"] if c["foreach"] in ([], ["nodes", "techs"]) else ["nodes", "techs"]
    d["equations"][0].pop("where", None)
    d["equations"] = d["equations"][:1]
    cons = c["kind"] == "constraint"
    s = corrupt(d["equations"][0]["expression"], c["bad"], cons)
    d["equations"][0]["expression"] = s
    rec.label("corrupted")
    rec.nontrivial()
    name = w.name()
    try:
        (w.backend.add_constraint if cons else w.backend.add_global_expression)(name, d)
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"expression outside the grammar accepted: {s}")


def run_bounds(w, c, rec):
    name = w.name()
    lo, hi = c["bounds"]
    w.backend.add_variable(name, {"foreach": c["foreach"], "bounds": {"min": lo, "max": hi}})
    try:
        ds = w.backend.get_variable_bounds(name)
        lb, ub = w.keyed(ds["lb"], c["foreach"]), w.keyed(ds["ub"], c["foreach"])
    finally:
        w.backend.delete_component(name, "variables")
    exist = w.exists(c["foreach"], [])
    for idx in exist:
        env = dict(zip(c["foreach"], idx))
        for got, b, free in ((lb.get(idx), lo, float("-inf")), (ub.get(idx), hi, float("inf"))):
            want = w.filled(b, env) if isinstance(b, str) else float(b)
            want = free if want is None else want
            got = free if got is None or got != got else float(got)
            require(got == want or mc.close(got, want),
                    "bounds {}: at {} bound {} instead of {}", c["bounds"], idx, got, want)
    rec.label("bounds")
    rec.nontrivial(isinstance(lo, str) or isinstance(hi, str))
