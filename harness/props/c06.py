"""C06: the inputs of a model are exactly what its definition says."""
import random
import warnings

from hypothesis import strategies as st

from harness import fast, inputs

PID = "C06"
RULE = (
    "A case is a definition with up to 3 nodes, 6 technologies and 3 links, technology-wide and "
    "node-specific parameters (scalar or indexed over carriers, costs, timesteps or a user "
    "dimension, broadcast or listed, in any accepted spelling), node parameters, top-level data "
    "over any dimensions, unset (null) values, and nodes, technologies, links and "
    "technologies-at-nodes switched off. Every cell of every input array is compared with a "
    "reference table computed from the definition. Non-trivial: some node-specific or top-level "
    "value overrides another, or something is switched off."
)
EXAMPLES = {"quick": 5000, "thorough": 100000}
SECONDS = {"quick": 34, "thorough": 900}


def setup(tier):
    fast.all()


@st.composite
def _case(draw):
    s = draw(inputs.spec())
    s["seed"] = draw(st.integers(0, 99))
    return s


def strategy(tier):
    return _case()


def run(s, rec):
    import calliope

    d = inputs.definition(s, random.Random(s["seed"]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = calliope.read_dict(d)
    ref = inputs.Reference(s)
    n = inputs.check(m.inputs, ref)
    rec.label(f"{min(n // 100 * 100, 1000)}+ cells")
    off = (
        [1 for x in s["nodes"].values() if not x["active"]]
        + [1 for x in s["techs"].values() if not x["active"]]
        + [1 for x in s["nodes"].values() for o in x["techs"].values()
           if o and not o.get("active", True)]
    )
    over = [1 for x in s["nodes"].values() for t, o in x["techs"].items()
            if o and set(o["p"]) & set(s["techs"][t]["p"])]
    both = [p for p, la in ref.layers.items() if len(la) > 1]
    for name, x in (("switched off", off), ("node overrides", over), ("top-level overrides", both)):
        if x:
            rec.label(name)
    rec.nontrivial(bool(off or over or both))
