"""Shared by C11 and C12: builds one generated component and compares it cell by cell."""
import itertools
import math

from hypothesis import strategies as st

from harness import mathlab as ml
from harness import wgen
from harness.core import Violation, require

UNSET = object()


@st.composite
def component(draw, helpers):
    foreach = draw(st.sampled_from([
        ["nodes", "techs"], ["nodes", "techs"], ["techs", "nodes", "carriers"], ["nodes"], ["techs"], [],
        ["nodes", "timesteps"], ["nodes", "techs", "timesteps"], ["timesteps"], ["buckets", "nodes"],
        ["years"], ["buckets", "techs"], ["years", "nodes"], ["month", "nodes"], ["month", "nodes", "techs"],
        ["buckets"], ["timesteps", "techs"],
    ]))
    F = frozenset(foreach)
    c = {"k": draw(st.sampled_from(ml.worlds())), "foreach": foreach,
         "kind": draw(st.sampled_from(["expression", "expression", "constraint"])),
         "where": draw(st.none() | st.none() | wgen.cond(1)), "subs": {}, "slices": {}}
    multi = not helpers and draw(st.integers(0, 2)) == 0
    slices = {} if not helpers else None
    if not helpers and draw(st.integers(0, 2)) == 0:
        for i in range(draw(st.integers(1, 2))):
            opts = []
            split = draw(wgen.cond(0)) if draw(st.booleans()) else None
            e1 = draw(wgen.expr(F, F, 1, False, slices))
            if split is None:
                opts = [[None, e1]]
            else:
                opts = [[split, e1], [["not", split], draw(wgen.expr(F, F, 1, False, slices))]]
                if draw(st.integers(0, 5)) == 0:
                    opts = opts[:1] if draw(st.booleans()) else [opts[0], [None, opts[1][1]]]
            c["subs"][f"s{i}"] = opts
    depth = draw(st.integers(1, 3)) if not helpers else draw(st.integers(1, 2))

    def top():
        if helpers and draw(st.integers(0, 3)):
            return draw(wgen.helper(F, F, depth))
        return draw(wgen.expr(F, F, depth, helpers, slices, c["subs"]))

    wheres = [None]
    if multi:
        w = draw(wgen.cond(1))
        shape = draw(st.sampled_from(["split", "split", "gap", "three", "overlap"]))
        wheres = {"split": [w, ["not", w]], "gap": [w], "overlap": [w, draw(wgen.cond(1))],
                  "three": None}[shape]
        if wheres is None:
            v = draw(wgen.cond(0))
            wheres = [["chain", [w, "and", v]], ["chain", [w, "and", ["not", v]]], ["not", w]]
    c["eqs"] = []
    for w in wheres:
        e = top()
        if c["kind"] == "constraint":
            other = ["name", "v_0"] if not draw(st.integers(0, 2)) else draw(
                wgen.expr(F, F, 1, False, slices, c["subs"]))
            lhs = ["chain", [e, "+", ["name", "v_0"]], " "]
            pair = [lhs, other] if draw(st.booleans()) else [other, lhs]
            c["eqs"].append([w, pair[0], draw(st.sampled_from(["<=", ">=", "=="])), pair[1]])
        else:
            c["eqs"].append([w, e])
    # slices found while drawing; some options become conditional
    for r, opts in (slices or {}).items():
        if len(opts) == 2:
            w = draw(wgen.cond(0))
            opts[0][0], opts[1][0] = w, ["not", w]
        c["slices"][r] = opts
    return c


def ropt(o):
    if o[0] == "at":
        return f"get_val_at_index(timesteps={o[1]})"
    return str(o[1]) if o[0] != "list" else ml._lst(o[1])


def definition(c):
    def wh(d, w):
        if w is not None:
            d["where"] = ml.render_w(w)
        return d

    eqs = []
    for eq in c["eqs"]:
        if c["kind"] == "constraint":
            s = f"{ml.render_e(eq[1])} {eq[2]} {ml.render_e(eq[3])}"
        else:
            s = ml.render_e(eq[1])
        eqs.append(wh({"expression": s}, eq[0]))
    d = wh({"foreach": c["foreach"], "equations": eqs}, c["where"])
    if c["subs"]:
        d["sub_expressions"] = {n: [wh({"expression": ml.render_e(e)}, w) for w, e in o]
                                for n, o in c["subs"].items()}
    if c["slices"]:
        d["slices"] = {n: [wh({"expression": ropt(e)}, w) for w, e in o]
                       for n, o in c["slices"].items()}
    return d


def refs(e, out):
    if isinstance(e, list):
        if e and e[0] in ("sub", "ref") and len(e) == 2 and isinstance(e[1], str):
            out.add((e[0], e[1]))
        for x in e:
            refs(x, out)
    elif isinstance(e, dict):
        for x in e.values():
            refs(x, out)
    return out


def subst(e, choice):
    if isinstance(e, list):
        if e and e[0] in ("sub", "ref") and len(e) == 2 and (e[0], e[1]) in choice:
            return choice[(e[0], e[1])]
        return [subst(x, choice) for x in e]
    if isinstance(e, dict):
        return {k: subst(x, choice) for k, x in e.items()}
    return e


def combos(w, c):
    """Every (conditions, resolved equation) the definition expands to."""
    out = []
    for eq in c["eqs"]:
        base = [eq[0]] if eq[0] is not None else []
        subs = sorted(n for k, n in refs(eq[1:], set()) if k == "sub")
        for opts in itertools.product(*[c["subs"][s] for s in subs]):
            ch = {("sub", s): o[1] for s, o in zip(subs, opts)}
            ws = base + [o[0] for o in opts if o[0] is not None]
            body = subst(eq[1:], ch)
            sl = sorted(n for k, n in refs(body, set()) if k == "ref")
            for so in itertools.product(*[c["slices"][s] for s in sl]):
                ch2 = {}
                for s, o in zip(sl, so):
                    opt = o[1]
                    if opt[0] == "at":
                        opt = ["lit", w.members["timesteps"][opt[1]]]
                    ch2[("ref", s)] = opt
                out.append((ws + [o[0] for o in so if o[0] is not None], subst(body, ch2)))
    return out


def holds(w, c, ws, env):
    dims = set()
    for x in ws:
        dims |= w.cdims(x)
    extra = sorted(dims - set(c["foreach"]))
    return any(all(w.cond(x, e) for x in ws)
               for e in (dict(env, **dict(zip(extra, g))) for g in ml._grid(extra, w.members)))


def expected(w, c):
    """index -> list of values of the combinations that hold there (None = undefined)."""
    top = w.exists(c["foreach"], [c["where"]] if c["where"] is not None else [])
    cs = combos(w, c)
    out = {}
    for idx in top:
        env = dict(zip(c["foreach"], idx))
        vals = []
        for ws, body in cs:
            if holds(w, c, ws, env):
                if c["kind"] == "constraint":
                    a, b = w.val(body[0], env), w.val(body[2], env)
                    vals.append(None if a is None or b is None else (a, body[1], b))
                else:
                    vals.append(w.val(body[0], env))
        if vals:
            out[idx] = vals
    return out


def close(a, b, scale=0.0):
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b), scale)


def run_component(c, rec):
    w = ml.World.get(c["k"])
    try:
        want = expected(w, c)
    except ml.Undefined:
        rec.label("skipped: no ordinary value")
        return
    except IndexError:
        return
    name = w.name()
    d = definition(c)
    kind = "constraints" if c["kind"] == "constraint" else "global_expressions"
    overlap = any(len([v for v in vs if v is not None]) > 1 for vs in want.values())
    blurred = any(len(vs) > 1 and None in vs for vs in want.values())
    undefined = any(None in vs for vs in want.values())
    text = f"world {c['k']} {d}"
    try:
        if c["kind"] == "constraint":
            w.backend.add_constraint(name, d)
        else:
            w.backend.add_global_expression(name, d)
    except Exception as exc:
        if overlap or undefined:
            rec.label("rejected: overlap" if overlap else "rejected: undefined where selected")
            rec.nontrivial()
            return
        if isinstance(exc, (MemoryError, KeyboardInterrupt)):
            raise
        raise Violation(f"{text}: refused with {type(exc).__name__}: {str(exc)[:500]}") from exc
    try:
        if overlap and not undefined:
            raise Violation(f"{text}: two equations hold at the same index and are not refused")
        if blurred or (overlap and undefined):
            return
        if c["kind"] == "constraint":
            ds = w.backend.get_constraint(name, as_backend_objs=False, eval_body=True) \
                if w.backend.get_constraint(name).notnull().any() else None
            got = {}
            if ds is not None:
                body = w.keyed(ds["body"].astype(float), c["foreach"])
                lb = w.keyed(ds["lb"], c["foreach"])
                ub = w.keyed(ds["ub"], c["foreach"])
                got = {k: (lb.get(k), v, ub.get(k)) for k, v in body.items()}
        else:
            arr = w.backend.get_global_expression(name, as_backend_objs=False, eval_body=True)
            got = w.keyed(arr, c["foreach"]) if arr.notnull().any() else {}
    finally:
        w.backend.delete_component(name, kind)
    want = {k: v[0] for k, v in want.items() if v[0] is not None}
    if undefined and c["kind"] == "constraint":
        return
    if set(got) != set(want):
        raise Violation(
            f"{text}: missing at {sorted(map(str, set(want) - set(got)))[:4]}, "
            f"unexpected at {sorted(map(str, set(got) - set(want)))[:4]}"
        )
    for k, v in want.items():
        g = got[k]
        if c["kind"] == "expression":
            require(close(float(g), v), "{}: at {} value {} instead of {}", text, k, g, v)
            continue
        lhs, op, rhs = v
        lb, body, ub = g
        if op == "==":
            require(lb is not None and ub is not None and close(lb, ub), "{}: at {} not an equality: {}", text, k, g)
            gap = body - lb
            require(close(abs(gap), abs(lhs - rhs), abs(lhs)), "{}: at {} gap {} instead of ±{}", text, k, gap, lhs - rhs)
            continue
        # slack >= 0 means satisfied
        slack = rhs - lhs if op == "<=" else lhs - rhs
        fin = [x for x in ((ub - body) if _fin(ub) else None, (body - lb) if _fin(lb) else None) if x is not None]
        require(len(fin) == 1, "{}: at {} expected one bound, got {}", text, k, g)
        require(close(fin[0], slack, abs(lhs)), "{}: at {} slack {} instead of {}", text, k, fin[0], slack)
    rec.nontrivial(len(want) > 0 and nontriv(c))
    label(c, rec)


def _fin(x):
    return x is not None and not math.isnan(x) and abs(x) != math.inf


def nontriv(c):
    return any(x[0] in ("chain", "sum", "slice", "sign", "sub") or x[0] in HELP
               for eq in c["eqs"] for x in eq[1:] if isinstance(x, list))


HELP = {"sum", "reduce", "roll", "sumnext", "select", "where", "group", "groupdt"}


def label(c, rec):
    def walk(e):
        if isinstance(e, list):
            if e and isinstance(e[0], str) and e[0] in HELP | {"slice", "sub", "sign", "ref", "lookup", "at", "list"}:
                rec.label("term " + e[0])
            for x in e:
                walk(x)
        elif isinstance(e, dict):
            for x in e.values():
                walk(x)
    walk([eq[1:] for eq in c["eqs"]])
    walk(list(c["slices"].values()))
    rec.label(c["kind"])
    rec.label("several equations", len(c["eqs"]) > 1)
    rec.label("conditional sub-expression", any(len(o) > 1 for o in c["subs"].values()))
