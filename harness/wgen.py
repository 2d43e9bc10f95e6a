"""Hypothesis strategies for condition and expression ASTs over the mathlab world."""
from hypothesis import strategies as st

from harness import mathlab as ml

DIMS = ["nodes", "techs", "carriers", "timesteps", "buckets", "years", "month"]
MEMB = {"nodes": ml.N, "techs": ml.T, "carriers": ml.C, "buckets": ml.B}
NUMP = [p for p, v in ml.PARAMS.items()]
NUMS = st.sampled_from([-2, -1, 0, 0.5, 1, 2, 3, 3.5, 4, 5, 1.5])
ALLIN = NUMP + list(ml.LOOKUPS) + ["carrier_in", "carrier_out", "base_tech"]


def pdims(p):
    if p in ml.PARAMS:
        return list(ml.PARAMS[p][0])
    if p in ml.LOOKUPS:
        return list(ml.LOOKUPS[p][0])
    if p in ml.VARS:
        return list(ml.VARS[p][0])
    if p in ml.EXPRS:
        return list(ml.EXPRS[p][0])
    return {"base_tech": ["techs"], "carrier_in": ["nodes", "techs", "carriers"],
            "carrier_out": ["nodes", "techs", "carriers"]}[p]


foreachs = st.lists(st.sampled_from(DIMS), min_size=1, max_size=4, unique=True).filter(
    lambda x: len(set(x) & {"timesteps", "years", "buckets", "month"}) <= 1
) | st.sampled_from([["nodes", "techs"], ["nodes", "techs", "carriers"], ["techs", "nodes"], []])


@st.composite
def arith_where(draw, depth=2):
    """Arithmetic allowed on the left-hand side of a where comparison."""
    kind = draw(st.sampled_from(["name"] * 6 + ["sum", "num"] + (["chain", "chain", "sign"] if depth else [])))
    if kind == "name":
        return ["name", draw(st.sampled_from(NUMP))]
    if kind == "num":
        return ["num", draw(st.sampled_from([0, 1, 2, 3]))]
    if kind == "sum":
        p = draw(st.sampled_from([x for x in NUMP if ml.PARAMS[x][0] and x not in ("p_inf", "p_minf")]))
        over = draw(st.lists(st.sampled_from(pdims(p) + ["techs", "nodes"]), min_size=1, max_size=2, unique=True))
        return ["sum", p, over]
    if kind == "sign":
        return ["sign", draw(st.sampled_from("+-")), draw(arith_where(0))]
    n = draw(st.integers(2, 3))
    items = []
    for i in range(n):
        if i:
            items.append(draw(st.sampled_from(["+", "-", "*", "/"])))
            items.append(["num", draw(st.sampled_from([1, 2, 4]))] if items[-1] == "/"
                         else draw(arith_where(depth - 1)))
        else:
            items.append(draw(arith_where(depth - 1)))
    return ["chain", items]


@st.composite
def atom(draw):
    kind = draw(st.sampled_from(
        ["in"] * 5 + ["res"] * 2 + ["cmp"] * 6 + ["strcmp"] * 3 + ["dimcmp"] * 2 + ["subset"] * 3
        + ["any"] * 3 + ["defined"] * 2 + ["config", "bool", "boolcmp"]
    ))
    if kind == "in":
        return ["in", draw(st.sampled_from([*ALLIN, "p_minf", "p_inf"]))]
    if kind == "res":
        return ["res", draw(st.sampled_from(list(ml.VARS) + list(ml.EXPRS)))]
    if kind == "bool":
        return ["bool", draw(st.sampled_from(["True", "False", "true", "FALSE"]))]
    op = draw(st.sampled_from(["<", ">", "==", "<=", ">="]))
    sp = draw(st.sampled_from(["", " "]))
    if kind == "cmp":
        lhs = draw(arith_where())
        r = draw(st.sampled_from(["num"] * 5 + ["inf", "sum"]))
        if r == "num":
            rhs = ["num", draw(NUMS)]
        elif r == "inf":
            rhs = ["num", float("inf")]
        else:
            p = draw(st.sampled_from(["p_n", "p_t", "p_y", "p_ts", "p_b"]))
            rhs = ["sum", p, [pdims(p)[0]]]
        return ["cmp", lhs, op, rhs, sp]
    if kind == "strcmp":
        lk = draw(st.sampled_from(["l_cat", "l_catnt", "l_nn", "l_tt", "base_tech", "l_ntb"]))
        val = draw(st.sampled_from(
            ["supply", "demand", "storage"] if lk == "base_tech"
            else [*ml.LOOKUPS[lk][2], "zz"]))
        return ["cmp", ["name", lk], "==", ["str", val], sp]
    if kind == "boolcmp":
        return ["cmp", ["name", draw(st.sampled_from(["l_bool", "l_flag", "carrier_in"]))], "==",
                ["bool", draw(st.sampled_from(["True", "False", "true"]))], sp]
    if kind == "dimcmp":
        d = draw(st.sampled_from(["timesteps", "years", "nodes", "techs", "years"]))
        if d in MEMB:
            return ["cmp", ["dim", d], "==", ["str", draw(st.sampled_from(MEMB[d]))], sp]
        if d == "years" and draw(st.booleans()):
            return ["cmp", ["dim", d], op, ["num", draw(st.sampled_from([1, 3, 5, 7]))], sp]
        return ["cmp", ["dim", d], op, ["at", d, draw(st.integers(-4, 3))], sp]
    if kind == "config":
        k = draw(st.sampled_from(["backend", "ensure_feasibility"]))
        rhs = (["str", draw(st.sampled_from(["pyomo", "gurobi"]))] if k == "backend"
               else ["bool", draw(st.sampled_from(["True", "False"]))])
        return ["cmp", ["config", k], "==", rhs, sp]
    if kind == "subset":
        d = draw(st.sampled_from(["nodes", "techs", "carriers", "years", "buckets"]))
        if d == "years":
            items = draw(st.lists(st.sampled_from([1, 3, 5, 7]), min_size=1, max_size=3, unique=True))
        else:
            items = draw(st.lists(st.sampled_from(MEMB[d] + ["qq"]), min_size=1, max_size=3, unique=True))
        return ["subset", items, d]
    if kind == "any":
        p = draw(st.sampled_from([x for x in ALLIN if pdims(x)] + list(ml.VARS)[1:]))
        over = draw(st.lists(st.sampled_from(pdims(p) + ["nodes", "techs"]), min_size=1, max_size=2, unique=True))
        return ["any", ["res" if p in ml.VARS else "in", p], over]
    core = ["nodes", "techs", "carriers"]
    within = draw(st.sampled_from(core))
    keys = draw(st.lists(st.sampled_from([x for x in core if x != within]), min_size=1, max_size=2, unique=True))
    return ["defined", {k: draw(st.lists(st.sampled_from(MEMB[k]), min_size=1, max_size=3, unique=True)) for k in keys},
            within, draw(st.sampled_from(["any", "all"]))] + (["l"] if draw(st.booleans()) else [])


@st.composite
def cond(draw, depth=2):
    kind = draw(st.sampled_from(["atom", "atom", "not", "chain", "chain"] if depth else ["atom"]))
    if kind == "atom":
        return draw(atom())
    if kind == "not":
        return ["not", draw(cond(depth - 1)), draw(st.sampled_from(["not", "NOT", "Not"]))]
    n = draw(st.integers(2, 3))
    items = []
    for i in range(n):
        if i:
            items.append(draw(st.sampled_from(["and", "or", "AND", "OR", "And"])))
        items.append(draw(cond(depth - 1)))
    return ["chain", items]


def simplecond():
    """A single condition, mostly cheap, used inside equation lists."""
    return cond(1)


# ---- expressions --------------------------------------------------------------------
COMPS = [p for p in NUMP if p not in ("p_inf", "p_minf")] + list(ml.VARS) + list(ml.EXPRS)
POSITIVE = ["p_pos"]
SLICELK = {"buckets": ("l_nbfull", ["nodes"]), "years": ("l_tyfull", ["techs"])}


@st.composite
def leaf(draw, D, F, slices=None):
    """A number, component, or sliced component whose dimensions are within D."""
    fit = [x for x in COMPS if set(pdims(x)) <= D]
    kind = draw(st.sampled_from(["name"] * 5 + ["num"] + ["slice"] * 3))
    if kind == "num":
        return ["num", draw(st.sampled_from([0, 0.5, 1, 2, 3, 10, "1e1", "2.5"]))]
    if kind == "name":
        rich = [x for x in fit if pdims(x)]
        return ["name", draw(st.sampled_from(rich if rich and draw(st.integers(0, 4)) else fit))]
    cands = [x for x in COMPS if pdims(x) and x not in ("p_gone", "p_void")]
    x = draw(st.sampled_from(cands))
    over, through = {}, set()
    for d in pdims(x):
        if d in through:
            continue
        must = d not in D
        if not must and draw(st.booleans()):
            continue
        opts = []
        if d in MEMB:
            opts += ["lit", "lit"]
        if d == "years":
            opts += ["lit"]
        if d in SLICELK and slices is not None and set(SLICELK[d][1]) <= D and not set(over) & set(SLICELK[d][1]):
            opts += ["lookup"]
        if d == "timesteps" and slices is not None:
            opts += ["at"]
        if slices is not None and d in MEMB:
            opts += ["ref"]
        if not must and d in MEMB and d in F:
            opts += ["list"]
        if not opts:
            if must:
                return ["num", 1]
            continue
        o = draw(st.sampled_from(opts))
        m = MEMB.get(d) or ml.Y
        if o == "lit":
            over[d] = ["lit", draw(st.sampled_from(m))]
        elif o == "list":
            over[d] = ["list", draw(st.lists(st.sampled_from(m), min_size=1, max_size=3, unique=True))]
        elif o == "ref":
            r = f"r{len(slices)}"
            slices[r] = [[None, ["lit", v]] for v in draw(st.lists(st.sampled_from(m), min_size=1, max_size=2, unique=True))]
            over[d] = ["ref", r]
        elif o == "lookup":
            r = f"r{len(slices)}"
            slices[r] = [[None, ["lookup", SLICELK[d][0]]]]
            through |= set(SLICELK[d][1])
            over[d] = ["ref", r]
        elif o == "at":
            r = f"r{len(slices)}"
            slices[r] = [[None, ["at", draw(st.integers(-2, 2))]]]
            over[d] = ["ref", r]
    return ["slice", x, over] if over else ["name", x]


SP = st.sampled_from([" ", "", "  "])


@st.composite
def chain(draw, item):
    n = draw(st.integers(2, 4))
    items = [draw(item)]
    for _ in range(n - 1):
        op = draw(st.sampled_from(["+", "-", "*", "+", "-", "*", "/", "**"]))
        if op == "**":
            if items[-1][0] == "num" and False:
                op = "*"
            # an exponent binds to the item before it: keep both ends simple
            if len(items) > 1 and items[-2] == "**" or items[-1][0] == "sign":
                op = "*"
        items.append(op)
        if op == "/":
            items.append(draw(st.sampled_from([["num", 2], ["num", 4], ["num", 0.5], ["name", "p_pos"]])))
        elif op == "**":
            items.append(["num", draw(st.sampled_from([0, 1, 2, 3]))])
        else:
            items.append(draw(item))
    return ["chain", items, draw(SP)]


@st.composite
def expr(draw, D, F, depth, helpers, slices=None, subs=None):
    D, F = frozenset(D), frozenset(F)
    kinds = ["leaf"] * 3
    if depth:
        kinds += ["chain"] * 3 + ["sign"] + ["sum"]
        if subs:
            kinds += ["sub"] * 3
        if helpers:
            kinds += ["helper"] * 6
    kind = draw(st.sampled_from(kinds))
    if kind == "leaf":
        e = draw(leaf(D, F, slices))
        return e if not uses_pos(e, D) else ["num", 2]
    if kind == "sub":
        return ["sub", draw(st.sampled_from(sorted(subs)))]
    if kind == "sign":
        e = draw(leaf(D, F, slices))
        return ["sign", draw(st.sampled_from("+-")), e]
    if kind == "chain":
        item = expr(D, F, depth - 1, helpers, slices, subs)
        e = draw(chain(item))
        return fix_pos(e, D)
    if kind == "sum":
        return draw(sumof(D, F, depth, helpers, slices))
    return draw(helper(D, F, depth, slices))


def uses_pos(e, D):
    return "nodes" not in D and "p_pos" in str(e)


def fix_pos(e, D):
    if "nodes" in D:
        return e
    items = [["num", 2] if x == ["name", "p_pos"] else x for x in e[1]]
    return ["chain", items, *e[2:]]


@st.composite
def sumof(draw, D, F, depth, helpers, slices):
    free = [d for d in ["nodes", "techs", "carriers", "timesteps", "buckets", "years"]]
    over = draw(st.lists(st.sampled_from(free), min_size=1, max_size=2, unique=True))
    inner_d = D | set(over)
    if set(over) & F:
        # arithmetic under a sum over a foreach dimension is masked: use a bare component
        names = [x for x in COMPS if set(pdims(x)) <= inner_d]
        best = [x for x in names if set(over) & set(pdims(x))]
        e = ["name", draw(st.sampled_from(best or names))]
    else:
        e = draw(expr(inner_d, F, min(depth - 1, 1), False, slices))
    return ["sum", e, over]


@st.composite
def helper(draw, D, F, depth, slices=None):
    """A helper-function call whose result is indexed within D."""
    opts = ["sum", "sum", "where"]
    if {"nodes", "techs"} <= D:
        opts += ["reduce", "reduce", "select2"]
    roll = [d for d in ("timesteps", "years", "nodes", "techs") if d in D]
    if roll:
        opts += ["roll", "roll", "sumnext", "sumnext"]
    if "nodes" in D or "techs" in D:
        opts += ["select", "select"]
    if "buckets" in D or "years" in D:
        opts += ["group"] * 3
    if "month" in D:
        opts += ["groupdt"] * 3
    k = draw(st.sampled_from(opts))
    if k == "sum":
        return draw(sumof(D, F, depth, True, None))

    def named(must, within):
        xs = [x for x in COMPS if set(must) <= set(pdims(x)) <= set(within)
              and not (must and x in ("p_gone", "p_void"))]
        return ["name", draw(st.sampled_from(xs))] if xs else None

    if k == "where":
        cs = [c for c in ["l_bool", "l_flag", "p_ntd", "p_nt", "p_n", "carrier_in", "p_t"]
              if set(pdims(c)) <= D]
        if not cs:
            return draw(sumof(D, F, depth, True, None))
        inner = draw(expr(D, F, depth - 1, False, None)) if draw(st.booleans()) else (named([], D) or ["num", 1])
        return ["where", inner, draw(st.sampled_from(cs))]
    if k == "reduce":
        e = named(["carriers"], D | {"carriers"}) if draw(st.integers(0, 2)) or "carriers" in F else None
        if e is None:
            e = draw(expr(D | {"carriers"}, F, max(depth - 1, 0), False, None)) if "carriers" not in F else ["name", "v_ntc"]
        return ["reduce", e, draw(st.sampled_from(["in", "out"]))]
    if k == "roll":
        ds = draw(st.lists(st.sampled_from(roll), min_size=1, max_size=2, unique=True))
        e = named(ds, D)
        if e is None:
            ds = ds[:1]
            e = named(ds, D)
        if e is None:
            return ["num", 1]
        if draw(st.integers(0, 3)) == 0:
            e = ["chain", [e, draw(st.sampled_from("+-*")), draw(leaf(D, F, None))], " "]
            if uses_pos(e, D):
                e = e[1][0]
        return ["roll", e, {d: draw(st.integers(-3, 3)) for d in ds}]
    if k == "sumnext":
        d = draw(st.sampled_from(roll))
        e = named([d], D)
        return ["sumnext", e, d, draw(st.integers(1, 4))] if e else ["num", 1]
    if k == "select":
        lk, d = draw(st.sampled_from([x for x in [("l_nn", "nodes"), ("l_nnfull", "nodes"), ("l_tt", "techs")] if x[1] in D]))
        return ["select", named([d], D), {d: lk}]
    if k == "select2":
        return ["select", named(["nodes", "techs"], D), {"nodes": "l_2n", "techs": "l_2t"}]
    if k == "group":
        g = draw(st.sampled_from([x for x in ("buckets", "years") if x in D]))
        lk = draw(st.sampled_from(["l_nb", "l_ntb", "l_nbfull"] if g == "buckets" else ["l_ty", "l_tyfull"]))
        within = (D - {g}) | set(pdims(lk))
        e = named(pdims(lk), within)
        if draw(st.integers(0, 2)) == 0:
            e = ["chain", [e, draw(st.sampled_from("+-*")), named([], within)], " "]
        return ["group", e, lk, g]
    within = (D - {"month"}) | {"timesteps"}
    e = named(["timesteps"], within)
    if draw(st.integers(0, 2)) == 0:
        e = ["chain", [e, draw(st.sampled_from("+-*")), named([], within)], " "]
    return ["groupdt", e, "month"]
