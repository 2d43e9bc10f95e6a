"""Process-local memoisation of pure text parsing, so that more cases fit in the time budget.

`yaml()` memoises the parsing of YAML text, `math()` memoises the grammar objects and the parse
results of math strings.  Both are keyed by the full input text and hand out copies, so they do
not change what the code computes.  The checks about YAML and about the math language itself do
not use them.  If the functions are not there (refactored), nothing is patched.
"""
import copy
import functools
import pickle


def yaml():
    try:
        from calliope import io

        orig = io._yaml_load
    except Exception:  # noqa: BLE001
        return
    cache = {}

    @functools.wraps(orig)
    def load(src, *a, **k):
        if a or k or not isinstance(src, str) or len(src) < 5000:
            return orig(src, *a, **k)
        if src not in cache:
            cache[src] = pickle.dumps(orig(src))
        return pickle.loads(cache[src])

    io._yaml_load = load


def _norm(x):
    if isinstance(x, (set, frozenset)):
        return ("s",) + tuple(sorted(map(str, x)))
    if isinstance(x, dict):
        return ("d",) + tuple(sorted(map(str, x)))
    if isinstance(x, (list, tuple)):
        return ("l",) + tuple(map(str, x))
    if x is None or isinstance(x, (str, int, bool)):
        return ("v", x)
    return ("i",) + tuple(sorted(map(str, x)))


def math():
    import pyparsing as pp

    try:
        from calliope.backend import expression_parser as ep
        from calliope.backend import where_parser as wp
    except Exception:  # noqa: BLE001
        return
    gram = {}

    def memo(mod, name):
        f = getattr(mod, name, None)
        if f is None:
            return

        @functools.wraps(f)
        def g(*a, **k):
            try:
                key = (mod.__name__, name, tuple(_norm(x) for x in a),
                       tuple((kk, _norm(v)) for kk, v in sorted(k.items())))
            except TypeError:
                return f(*a, **k)
            if key not in gram:
                gram[key] = f(*a, **k)
            return gram[key]

        setattr(mod, name, g)

    memo(wp, "generate_where_string_parser")
    for n in ["generate_slice_parser", "generate_sub_expression_parser",
              "generate_arithmetic_parser", "generate_equation_parser"]:
        memo(ep, n)
    orig = pp.ParserElement.parse_string
    res = {}

    @functools.wraps(orig)
    def parse_string(self, s, parse_all=False, **k):
        if k:
            return orig(self, s, parse_all, **k)
        key = (id(self), s, parse_all)
        if key not in res:
            res[key] = (self, orig(self, s, parse_all))
        return copy.deepcopy(res[key][1])

    pp.ParserElement.parse_string = parse_string


def all():
    yaml()
    math()
