"""C02: AttrDict against a plain nested-dict reference model, over operation histories."""
import copy

from hypothesis import strategies as st

from harness.core import require

PID = "C02"
RULE = (
    "A case is a random nested dictionary (depth<=4, int and str keys, None/empty/list leaves) "
    "plus a history of up to 25 set/get/delete/merge/copy/flatten operations, each compared "
    "with a plain-dict reference model. Non-trivial: at least one operation reached below the "
    "top level and at least one merge or delete changed something."
)
EXAMPLES = {"quick": 1200, "thorough": 40000}
SECONDS = {"quick": 25, "thorough": 600}

KEYS = ["a", "b", "c", "d1", "x y"]
SCALARS = [0, 1, 2, -1, 0.5, "s", "", True, False, None, "a.b"]

leaf = st.one_of(
    st.sampled_from(SCALARS),
    st.sampled_from(SCALARS),
    st.lists(st.sampled_from([1, 2, "q", None]), max_size=3),
    st.lists(st.dictionaries(st.sampled_from(KEYS[:2]), st.integers(0, 3), max_size=2), max_size=2),
)
tree = st.recursive(
    leaf, lambda ch: st.dictionaries(st.sampled_from(KEYS), ch, max_size=4), max_leaves=9
)
root = st.dictionaries(st.sampled_from(KEYS), tree, max_size=4)
path = st.lists(st.sampled_from(KEYS), min_size=1, max_size=4).map(".".join)
op = st.one_of(
    st.tuples(st.just("set"), path, tree),
    st.tuples(st.just("set"), path, leaf),
    st.tuples(st.just("get"), path),
    st.tuples(st.just("getd"), path, leaf),
    st.tuples(st.just("del"), path),
    st.tuples(st.just("deleaf"), st.integers(0, 50)),
    st.tuples(st.just("union"), root, st.booleans(), st.booleans()),
    st.tuples(st.just("unionsub"), st.integers(0, 7), root),
    st.tuples(st.just("replace"), st.integers(0, 50), tree, root),
    st.tuples(st.just("copy"), path, leaf, st.booleans()),
    st.tuples(st.just("flat")),
)


def strategy(tier):
    return st.fixed_dictionaries(
        {"root": root, "intkeys": st.booleans(), "ops": st.lists(op, max_size=25)}
    )


# ------------------------------------------------------------------- reference model
class Reject(Exception):
    pass


def is_d(x):
    return isinstance(x, dict)


def m_set(d, keys, v):
    """Sets a leaf, or merges a branch into the branch that is there."""
    k = keys[0]
    if len(keys) > 1:
        if k not in d or d[k] is None:
            d[k] = {}
        if not is_d(d[k]):
            raise Reject
        m_set(d[k], keys[1:], v)
    elif is_d(v) and k in d:
        if not v:
            return
        if not is_d(d[k]):
            raise Reject
        for kk, vv in v.items():
            m_set(d[k], [kk], vv)
    else:
        d[k] = copy.deepcopy(v)


def m_get(d, keys):
    for k in keys:
        if not is_d(d) or k not in d:
            raise Reject
        d = d[k]
    return d


def m_del(d, keys):
    if len(keys) == 1:
        del d[keys[0]]
        return
    m_del(d[keys[0]], keys[1:])
    if not d[keys[0]]:
        del d[keys[0]]


def leaves(d, pre=()):
    """Leaf paths; an empty branch is a leaf."""
    for k, v in d.items():
        if is_d(v) and v:
            yield from leaves(v, pre + (k,))
        else:
            yield pre + (k,)


def m_union(d, o, override):
    mine = set(leaves(d))
    if not override:
        for p in leaves(o):
            if p in mine:
                raise Reject
            below = any(q[: len(p)] == p and len(q) > len(p) for q in mine)
            v = m_get(o, p)
            if below and v is not None and not is_d(v):
                raise Reject  # a branch would be replaced by a value
    for p in leaves(o):
        v = m_get(o, p)
        try:
            cur = m_get(d, p)
        except Reject:
            cur = 0
        if v is None and is_d(cur):
            continue
        m_set(d, list(p), v)


def plain(x):
    """Plain-dict view of anything, independent of AttrDict's own methods."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in dict.items(x)}
    if isinstance(x, list):
        return [plain(i) for i in x]
    return x


def same(a, b):
    if is_d(a) or is_d(b):
        return is_d(a) and is_d(b) and list(sorted(a)) == list(sorted(b)) and all(
            same(a[k], b[k]) for k in a
        )
    if isinstance(a, list) or isinstance(b, list):
        return (
            isinstance(a, list) and isinstance(b, list) and len(a) == len(b)
            and all(same(x, y) for x, y in zip(a, b))
        )
    return type(a) is type(b) and a == b


def all_attr(x):
    from calliope import AttrDict

    if isinstance(x, dict):
        return isinstance(x, AttrDict) and all(all_attr(v) for v in x.values())
    return True


REJECTS = (KeyError, AttributeError)


def run(case, rec):
    from calliope import AttrDict

    src = copy.deepcopy(case["root"])
    if case["intkeys"]:
        src[7] = {3: {"a": 1}}
    model = copy.deepcopy(case["root"])
    if case["intkeys"]:
        model["7"] = {"3": {"a": 1}}
    d = AttrDict(src)
    require(same(plain(d), model), "AttrDict({}) != source", case["root"])
    deep = changed = False
    for o in case["ops"]:
        kind = o[0]
        before = copy.deepcopy(model)
        rec.label(kind)
        if kind == "set":
            keys = o[1].split(".")
            arg = copy.deepcopy(o[2])
            try:
                m_set(model, keys, o[2])
                rejected = False
            except Reject:
                rejected, model = True, before
            try:
                d.set_key(o[1], arg)
                got = False
            except REJECTS:
                got = True
            if is_d(o[2]) and got and not rejected:
                # writing a branch over an existing None entry may be refused
                try:
                    old = m_get(before, keys)
                except Reject:
                    old = 0
                require(_none_conflict(old, o[2]), "set_key({}, {}) refused on {}", o[1], o[2],
                        before)
                d, model = AttrDict(copy.deepcopy(before)), before
                continue
            require(got == rejected, "set_key({!r}, {!r}) on {}: rejected={} expected {}", o[1],
                    o[2], before, got, rejected)
            if rejected:
                rec.label("set-rejected")
                if is_d(o[2]):
                    d = AttrDict(copy.deepcopy(before))
            deep |= len(keys) > 1
        elif kind in ("get", "getd"):
            keys = o[1].split(".")
            try:
                want, found = m_get(model, keys), True
            except Reject:
                want, found = None, False
            if kind == "get":
                try:
                    got, gf = d.get_key(o[1]), True
                except REJECTS:
                    got, gf = None, False
                require(gf == found, "get_key({!r}) on {}: found={}", o[1], model, gf)
                if found:
                    require(same(plain(got), want), "get_key({!r}) = {!r}, expected {!r}", o[1],
                            got, want)
            else:
                got = d.get_key(o[1], o[2])
                want = want if found else o[2]
                require(same(plain(got), want), "get_key({!r}, {!r}) on {} = {!r}, expected {!r}",
                        o[1], o[2], model, got, want)
            deep |= found and len(keys) > 1
        elif kind in ("del", "deleaf"):
            if kind == "deleaf":
                ls = list(leaves(model))
                if not ls:
                    continue
                keys = list(ls[o[1] % len(ls)])
            else:
                keys = o[1].split(".")
            try:
                m_get(model, keys)
                ok = True
            except Reject:
                ok = False
            try:
                d.del_key(".".join(keys))
                done = True
            except REJECTS + (TypeError,):
                done = False
            require(done == ok, "del_key({!r}) on {}: done={} expected {}", keys, model, done, ok)
            if ok:
                m_del(model, keys)
                changed = True
                deep |= len(keys) > 1
        elif kind in ("union", "unionsub"):
            if kind == "union":
                other, override, as_attr = o[1], o[2], o[3]
            else:  # merge that touches an existing top-level branch
                ks = sorted(model)
                if not ks:
                    continue
                other, override, as_attr = {ks[o[1] % len(ks)]: o[2]}, True, True
            other = copy.deepcopy(other)
            arg = AttrDict(copy.deepcopy(other)) if as_attr else copy.deepcopy(other)
            try:
                m_union(model, other, override)
                rejected = False
            except Reject:
                rejected, model = True, before
            try:
                d.union(arg, allow_override=override)
                got = False
            except REJECTS:
                got = True
            require(got == rejected, "{}.union({}, allow_override={}): rejected={} expected {}",
                    before, other, override, got, rejected)
            require(same(plain(arg), other), "union changed its argument {} -> {}", other, arg)
            if rejected:
                rec.label("union-rejected")
                d = AttrDict(copy.deepcopy(before))
            else:
                changed |= model != before
                # writing to the result must not write through to the argument
                require(same(plain(d), model), "{}.union({}): {} expected {}", before, other,
                        plain(d), model)
                scribble(d)
                require(same(plain(arg), other), "the result shares branches with the dictionary "
                        "merged in: {}", other)
                d = AttrDict(copy.deepcopy(model))
        elif kind == "replace":
            branches = sorted({p[:i] for p in leaves(model) for i in range(1, len(p) + 1)})
            if not branches:
                continue
            p = branches[o[1] % len(branches)]
            rest = {k: v for k, v in o[3].items() if k != p[0]}
            other = copy.deepcopy(rest)
            m_set(other, list(p) + ["_REPLACE_"], copy.deepcopy(o[2]))
            snapshot = copy.deepcopy(other)
            # expected: everything else merged, the branch replaced as a whole
            try:
                m_union(model, rest, True)
                rejected = False
            except Reject:
                rejected, model = True, before
            if rejected:
                continue
            cur = model
            for k in p[:-1]:
                cur = cur[k]
            cur[p[-1]] = copy.deepcopy(o[2])
            arg = AttrDict(other)
            d.union(arg, allow_override=True, allow_replacement=True)
            require(same(plain(arg), snapshot), "union with _REPLACE_ changed its argument")
            require(same(plain(d), model), "{}.union({}): {} expected {}", before, snapshot,
                    plain(d), model)
            scribble(d)
            require(same(plain(arg), snapshot), "the result shares the replacement branch")
            d = AttrDict(copy.deepcopy(model))
            changed = True
            deep |= len(p) > 1
            rec.label("replaced")
        elif kind == "copy":
            c = copy.deepcopy(d) if o[3] else d.copy()
            require(type(c) is AttrDict and same(plain(c), model), "copy differs")
            try:
                c.set_key(o[1], o[2])
            except REJECTS:
                pass
            for k in list(c):
                if isinstance(c[k], list):
                    c[k].append("probe")
            for p in list(leaves(plain(c))):
                c.del_key(".".join(p))
            require(same(plain(d), model), "changing a copy changed the original: {} -> {}", model,
                    plain(d))
        elif kind == "flat":
            flat = d.as_dict(flat=True)
            want = {".".join(p): m_get(model, p) for p in leaves(model)}
            require(type(flat) is dict and same(plain(flat), want), "flat form {} expected {}",
                    flat, want)
            require(d.keys_nested() == list(flat), "keys_nested {} != {}", d.keys_nested(), flat)
            back = AttrDict(copy.deepcopy(flat))
            require(same(plain(back), model), "re-nested {} expected {}", back, model)
            nested = d.as_dict()
            require(same(nested, model), "as_dict {} expected {}", nested, model)
            require(not _has_attr(nested), "as_dict leaves AttrDict inside: {}", nested)
        require(same(plain(d), model), "after {} on {}: {} expected {}", o, before, plain(d), model)
        require(all_attr(d), "after {}: a nested dictionary is not an AttrDict: {}", o, plain(d))
        for k, v in d.items():
            require(getattr(d, k) is v, "attribute access to {} differs", k)
    rec.nontrivial(deep and changed)


def scribble(d):
    for v in list(dict.values(d)):
        if isinstance(v, dict):
            scribble(v)
        elif isinstance(v, list):
            v.append("probe")
    dict.__setitem__(d, "zz", 1)


def _none_conflict(old, new):
    if is_d(new) and old is None:
        return True
    if is_d(old) and is_d(new):
        return any(_none_conflict(old[k], new[k]) for k in new if k in old)
    return False


def _has_attr(x):
    from calliope import AttrDict

    if isinstance(x, AttrDict):
        return True
    if isinstance(x, dict):
        return any(_has_attr(v) for v in x.values())
    if isinstance(x, list):
        return any(_has_attr(v) for v in x)
    return False
