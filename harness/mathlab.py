"""A small model whose base math is replaced by a generated one, and a cell-by-cell reference
evaluator for where strings and math expressions.

A *world* is a pure function of an integer: dimensions, parameters and lookups with missing
cells, decision variables and global expressions.  Conditions and expressions are JSON ASTs;
`render_*` turns them into calliope strings, `World.cond` / `World.val` evaluate them at one
index (a dict dimension -> member) by the documented rules, without xarray.
"""
import json
import math
import os
import random
import tempfile

import numpy as np
import pandas as pd

from harness.core import HarnessError

N = ["nb", "na", "nc"]
T = ["t2", "t1", "t4", "t3"]
C = ["cy", "cx", "cz"]
B = ["b1", "b3", "b2"]
Y = [3, 1, 7, 12]
DIMDEF = {
    "nodes": {"dtype": "string", "iterator": "node"},
    "techs": {"dtype": "string", "iterator": "tech"},
    "carriers": {"dtype": "string", "iterator": "carrier"},
    "timesteps": {"dtype": "datetime", "iterator": "timestep", "ordered": True},
    "buckets": {"dtype": "string", "iterator": "bucket"},
    "years": {"dtype": "integer", "iterator": "year", "ordered": True},
    "month": {"dtype": "integer", "iterator": "mnth", "ordered": True},
    "nodims": {"dtype": "string", "iterator": "nodim"},
}
# name -> (dims, default, kind of values)
PARAMS = {
    "p_0": ((), None, "num"),
    "p_n": (("nodes",), 3.5, "num"),
    "p_t": (("techs",), None, "num"),
    "p_nt": (("nodes", "techs"), None, "num"),
    "p_ntd": (("nodes", "techs"), 2.0, "num"),
    "p_ntc": (("nodes", "techs", "carriers"), -1.5, "num"),
    "p_c": (("carriers",), None, "num"),
    "p_nts": (("nodes", "timesteps"), None, "num"),
    "p_ts": (("timesteps",), None, "full"),
    "p_b": (("buckets",), 1.0, "num"),
    "p_nb": (("nodes", "buckets"), None, "num"),
    "p_y": (("years",), None, "full"),
    "p_m": (("month",), None, "num"),
    "p_inf": (("nodes", "techs"), math.inf, "inf"),
    "p_minf": (("nodes", "techs"), None, "minf"),
    "p_pos": (("nodes",), None, "pos"),
    "p_gone": (("nodes",), 4.0, "none"),
    "p_void": (("nodes",), None, "none"),
}
# lookups: name -> (dims, dtype, values)
LOOKUPS = {
    "l_cat": (("nodes",), "string", ["red", "green"]),
    "l_catnt": (("nodes", "techs"), "string", ["red", "blue"]),
    "l_bool": (("nodes", "techs"), "bool", [True, False]),
    "l_flag": (("techs",), "bool", [True, False]),
    "l_nn": (("nodes",), "string", N),
    "l_nnfull": (("nodes",), "string", N),
    "l_tt": (("techs",), "string", T),
    "l_2n": (("nodes", "techs"), "string", N),
    "l_2t": (("nodes", "techs"), "string", T),
    "l_nb": (("nodes",), "string", B),
    "l_ntb": (("nodes", "techs"), "string", B),
    "l_nbfull": (("nodes",), "string", B),
    "l_tyfull": (("techs",), "float", Y),
    "l_ty": (("techs",), "float", Y),
}
VARS = {
    "v_0": ((), None, None),
    "v_n": (("nodes",), None, None),
    "v_t": (("techs",), None, "p_t"),
    "v_nt": (("nodes", "techs"), None, None),
    "v_ntd": (("nodes", "techs"), 0, "p_nt"),
    "v_ntc": (("nodes", "techs", "carriers"), None, None),
    "v_ntcd": (("nodes", "techs", "carriers"), 0, "l_bool"),
    "v_nts": (("nodes", "techs", "timesteps"), None, None),
    "v_ts": (("nodes", "timesteps"), None, "p_n"),
    "v_y": (("years",), None, None),
}
EXPRS = {
    "g_nt": (("nodes", "techs"), 1.25, "p_ntd>1", "v_nt * 2 - 1"),
    "g_ts": (("nodes", "timesteps"), None, "v_ts", "v_ts + sum(v_nts, over=techs)"),
}
RES_TIMES = {"month": lambda t: t.month}


def _grid(dims, members):
    out = [()]
    for d in dims:
        out = [x + (m,) for x in out for m in members[d]]
    return out


def worlds():
    """World numbers this worker draws from: two each (quick) or six (thorough), all disjoint."""
    i, n = int(os.environ.get("VERIF_WIDX", "0")), 6 if os.environ.get("VERIF_TIER") == "thorough" else 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return [seed * 1000 + i * n + j for j in range(n)]


class World:
    cache = {}

    @classmethod
    def get(cls, k):
        if k not in cls.cache:
            cls.cache[k] = World(k)
        return cls.cache[k]

    def __init__(self, k):
        import calliope

        rng = random.Random(f"world{k}")
        n, t, c = (rng.sample(x, len(x)) for x in (N, T, C))
        b = rng.sample(B, len(B))
        start = pd.Timestamp("2005-01-30 00:00")
        nts = rng.choice([4, 5, 6])
        step = rng.choice([11, 13, 17])
        times = [start + pd.Timedelta(hours=step * i) for i in range(nts)]
        members = {
            "nodes": n, "techs": t, "carriers": c, "timesteps": times, "buckets": b,
            "years": sorted(Y), "month": [1, 2],
        }
        # technologies
        bases = rng.sample(["supply", "demand", "conversion", "storage"], 4)
        techs = {}
        for i, (tech, base) in enumerate(zip(t, bases)):
            d = {"base_tech": base}
            ins, outs = rng.sample(C, rng.choice([1, 2])), rng.sample(C, rng.choice([1, 2]))
            if base in ("demand", "conversion", "storage"):
                d["carrier_in"] = ins
            if base in ("supply", "conversion", "storage"):
                d["carrier_out"] = ins if base == "storage" else outs
            techs[tech] = d
        missing = [x for x in C if not any(x in d.get(k, []) for d in techs.values()
                                           for k in ("carrier_in", "carrier_out"))]
        conv = t[bases.index("conversion")]
        for x in missing:
            techs[conv]["carrier_out"].append(x)
        nodes = {}
        for node in n:
            here = rng.sample(t, rng.choice([2, 3, 4]))
            nodes[node] = {"techs": {x: {} for x in here}}
        for tech in t:
            if not any(tech in v["techs"] for v in nodes.values()):
                nodes[rng.choice(n)]["techs"][tech] = {}
        data = {}

        def val(kind):
            if kind == "pos":
                return rng.choice([0.5, 2.0, 4.0])
            if kind == "inf" and rng.random() < 0.4:
                return math.inf
            if kind == "minf" and rng.random() < 0.4:
                return -math.inf
            return rng.choice([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0, 4.0, 5.0])

        frames, tables = {}, {}
        for name, (dims, _, kind) in PARAMS.items():
            if kind == "none":
                continue
            if dims == ():
                data[name] = val(kind)
                continue
            idx = _grid(dims, members)
            if kind not in ("full", "pos"):
                idx = [i for i in idx if rng.random() < 0.65] or idx[:1]
            vals = [val(kind) for _ in idx]
            if "timesteps" in dims:
                s = pd.Series(vals, index=pd.MultiIndex.from_tuples(idx, names=dims)
                              if len(dims) > 1 else pd.Index([i[0] for i in idx], name=dims[0]))
                if len(dims) > 1:
                    df = s.unstack([d for d in dims if d != "timesteps"])
                else:
                    df = s.to_frame("x")
                    df.columns.name = None
                frames[name] = df
                tables[name] = {"table": name, "rows": "timesteps",
                                "add_dims": {"inputs": name}}
                if len(dims) > 1:
                    tables[name]["columns"] = [d for d in dims if d != "timesteps"]
                else:
                    df.columns = pd.Index([name], name="inputs")
                    tables[name] = {"table": name, "rows": "timesteps", "columns": "inputs"}
                continue
            data[name] = {"data": vals, "dims": list(dims),
                          "index": [i[0] if len(dims) == 1 else list(i) for i in idx]}
        for name, (dims, dtype, pool) in LOOKUPS.items():
            idx = _grid(dims, members)
            if not name.endswith("full"):
                idx = [i for i in idx if rng.random() < 0.7] or idx[:1]
            vals = [rng.choice(pool) for _ in idx]
            if name in ("l_nb", "l_ntb") and len(idx) >= len(B):
                vals[: len(B)] = B  # every group has a member
            data[name] = {"data": vals, "dims": list(dims),
                          "index": [i[0] if len(dims) == 1 else list(i) for i in idx]}
        params = {k_: ({} if v[1] is None else {"default": v[1]}) for k_, v in PARAMS.items()}
        params["timestep_resolution"] = {"default": 1}
        params["timestep_weights"] = {"default": 1}
        lookups = {
            "base_tech": {"dtype": "string"},
            "carrier_in": {"dtype": "bool", "default": False, "pivot_values_to_dim": "carriers"},
            "carrier_out": {"dtype": "bool", "default": False, "pivot_values_to_dim": "carriers"},
            "definition_matrix": {"dtype": "bool", "default": False},
        }
        for name, (_, dtype, _v) in LOOKUPS.items():
            lookups[name] = {"dtype": dtype}
            if dtype == "bool":
                lookups[name]["default"] = False
        base = {
            "dimensions": DIMDEF, "parameters": params, "lookups": lookups,
            "variables": {
                k_: {"foreach": list(d), "where": w or "True",
                     "bounds": {"min": -100, "max": 100},
                     **({} if df_ is None else {"default": df_})}
                for k_, (d, df_, w) in VARS.items()
            },
            "global_expressions": {
                k_: {"foreach": list(d), "where": w, "equations": [{"expression": e}],
                     **({} if df_ is None else {"default": df_})}
                for k_, (d, df_, w, e) in EXPRS.items()
            },
            "objectives": {
                "min_cost_optimisation": {"sense": "minimise",
                                          "equations": [{"expression": "v_0"}]}
            },
        }
        self.members = members
        self.feas = rng.random() < 0.5
        fd, path = tempfile.mkstemp(suffix=".yaml", dir=os.environ.get("VERIF_WDIR"))
        with os.fdopen(fd, "w") as f:
            json.dump(base, f)
        try:
            self.model = calliope.read_dict(
                {
                    "config": {"init": {"math_paths": {"base": path},
                                        "pre_validate_math_strings": False},
                               "build": {"ensure_feasibility": self.feas}},
                    "nodes": nodes, "techs": techs, "data_definitions": data,
                    "data_tables": tables,
                },
                data_table_dfs=frames,
            )
            self.model.build()
        finally:
            os.unlink(path)
        self.backend = self.model.backend
        self.counter = 0
        self._read(rng)

    # ---- reference data -------------------------------------------------------------
    def _read(self, rng):
        inp = self.model.inputs
        self.members = {}
        for d in DIMDEF:
            if d in inp.coords:
                self.members[d] = [self._py(d, x) for x in inp[d].values]
        self.dims, self.cells, self.default, self.kind = {}, {}, {}, {}
        for name in ["definition_matrix", "carrier_in", "carrier_out", "base_tech", *LOOKUPS]:
            self._take(name, inp.get(name), "lookup")
        for name in ["carrier_in", "carrier_out", "l_bool", "l_flag"]:
            self.default[name] = False
        self.default.update({k: None for k in LOOKUPS if k not in ("l_bool", "l_flag")})
        self.default["base_tech"] = None
        for name, (_, df, _k) in PARAMS.items():
            self._take(name, inp.get(name), "param")
            self.default[name] = df
        vrng = random.Random(rng.random())
        self.objs = {}
        for name, (dims, df, _w) in VARS.items():
            arr = self.backend.get_variable(name, as_backend_objs=True)
            cells = {}
            for key, obj in self._iter(arr):
                v = vrng.choice([-3.0, -1.0, 0.5, 1.0, 2.0, 2.5, 4.0])
                obj.value = v
                cells[key] = v
            self.dims[name], self.cells[name] = tuple(arr.dims), cells
            self.default[name], self.kind[name] = df, "var"
        for name, (dims, df, _w, _e) in EXPRS.items():
            arr = self.backend.get_global_expression(name, as_backend_objs=False, eval_body=True)
            self.dims[name] = tuple(arr.dims)
            self.cells[name] = {k: float(v) for k, v in self._iter(arr)}
            self.default[name], self.kind[name] = df, "var"

    def _py(self, dim, x):
        if dim == "timesteps":
            return pd.Timestamp(x)
        if dim in ("years", "month"):
            return int(x)
        return str(x)

    def _iter(self, arr):
        """(key, value) of every non-missing cell."""
        if arr.ndim == 0:
            v = arr.item() if arr.dtype == object or arr.dtype.kind != "M" else arr.values
            return [((), v)] if not self._null(v) else []
        labels = [[self._py(d, x) for x in arr[d].values] for d in arr.dims]
        out = []
        for pos in np.ndindex(*arr.shape):
            v = arr.values[pos]
            if not self._null(v):
                out.append((tuple(labels[i][p] for i, p in enumerate(pos)), v))
        return out

    @staticmethod
    def _null(v):
        try:
            return bool(pd.isnull(v))
        except (TypeError, ValueError):
            return False

    def _take(self, name, arr, kind):
        self.kind[name] = kind
        self.default.setdefault(name, None)
        if arr is None:
            self.dims[name], self.cells[name] = (), {}
            return
        self.dims[name] = tuple(arr.dims)
        cells = {}
        for k, v in self._iter(arr):
            if isinstance(v, (bool, np.bool_)):
                v = bool(v)
            elif isinstance(v, (int, float, np.number)):
                v = float(v)
            else:
                v = str(v)
            cells[k] = v
        self.cells[name] = cells

    def raw(self, name, env):
        return self.cells[name].get(tuple(env[d] for d in self.dims[name]))

    def filled(self, name, env):
        v = self.raw(name, env)
        return self.default[name] if v is None else v

    # ---- expressions ----------------------------------------------------------------
    def edims(self, e):
        """Dimensions an expression is indexed over."""
        op = e[0]
        if op == "num":
            return set()
        if op == "name":
            return set(self.dims[e[1]])
        if op == "sign":
            return self.edims(e[2])
        if op == "chain":
            out = set()
            for x in e[1][::2]:
                out |= self.edims(x)
            return out
        if op == "sum":
            return self.edims(e[1]) - set(e[2])
        if op == "reduce":
            return (self.edims(e[1]) | {"nodes", "techs"}) - {"carriers"}
        if op in ("roll", "sumnext", "select"):
            return self.edims(e[1])
        if op == "where":
            return self.edims(e[1]) | set(self.dims[e[2]])
        if op == "group":
            return (self.edims(e[1]) - set(self.dims[e[2]])) | {e[3]}
        if op == "groupdt":
            return (self.edims(e[1]) - {"timesteps"}) | {e[2]}
        if op == "slice":
            d = set(self.dims[e[1]])
            for dim, s in e[2].items():
                d -= {dim}
                if s[0] == "lookup" or s[0] == "reflookup":
                    d |= set(self.dims[s[-1]])
                if s[0] in ("list", "reflist"):
                    d |= {dim}
            return d
        raise HarnessError(f"unknown expression {e}")

    def allowed(self, e, dim):
        """Members of `dim` that remain in the array (a list slice shortens a dimension)."""
        if e[0] == "slice" and dim in e[2] and e[2][dim][0] in ("list", "reflist"):
            return list(e[2][dim][-1])
        return self.members[dim]

    def val(self, e, env):
        """Value at one index, None if undefined there."""
        op = e[0]
        if op == "num":
            return float(e[1])
        if op == "name":
            return self.filled(e[1], env)
        if op == "sign":
            v = self.val(e[2], env)
            return v if v is None or e[1] == "+" else -v
        if op == "chain":
            return self._chain(e[1], env)
        if op == "sum":
            dims = [d for d in e[2] if d in self.edims(e[1])]
            return self._sum(e[1], [dict(env, **dict(zip(dims, x)))
                                    for x in self._members(e[1], dims)])
        if op == "reduce":
            if not self.edims(e[1]):
                raise Undefined  # reduces nothing: out of scope
            lk = f"carrier_{e[2]}"
            envs = []
            for c in self.members["carriers"]:
                en = dict(env, carriers=c)
                if self.raw(lk, en) is True:
                    envs.append(en)
            return self._sum(e[1], envs)
        if op == "roll":
            en = dict(env)
            for d, k in e[2].items():
                m = self.members[d]
                en[d] = m[(m.index(env[d]) - k) % len(m)]
            return self.val(e[1], en)
        if op == "sumnext":
            m = self.members[e[2]]
            i = m.index(env[e[2]])
            return self._sum(e[1], [dict(env, **{e[2]: x}) for x in m[i : i + e[3]]])
        if op == "select":
            en = dict(env)
            for d, lk in e[2].items():
                to = self.raw(lk, env)
                if to is None:
                    return None
                en[d] = to
            return self.val(e[1], en)
        if op == "where":
            c = self.filled(e[2], env)
            return self.val(e[1], env) if c not in (None, False, 0.0) else None
        if op == "group":
            dims = self.dims[e[2]]
            envs = [dict(env, **dict(zip(dims, key))) for key, v in self.cells[e[2]].items()
                    if self._groupkey(e[3], v) == env[e[3]]]
            return self._sum(e[1], envs)
        if op == "groupdt":
            envs = [dict(env, timesteps=x) for x in self.members["timesteps"]
                    if RES_TIMES[e[2]](x) == env[e[2]]]
            return self._sum(e[1], envs)
        if op == "slice":
            en = dict(env)
            for dim, s in e[2].items():
                if s[0] in ("lit", "ref"):
                    en[dim] = s[-1]
                elif s[0] in ("lookup", "reflookup"):
                    en[dim] = self.raw(s[-1], env)
                elif env.get(dim) not in s[-1]:
                    return None
            return self.filled(e[1], en)
        raise HarnessError(f"unknown expression {e}")

    def _groupkey(self, dim, v):
        return int(v) if dim == "years" else v

    def _members(self, e, dims):
        out = [()]
        for d in dims:
            out = [x + (m,) for x in out for m in self.allowed(e, d)]
        return out

    def _sum(self, e, envs):
        vals = [v for v in (self.val(e, x) for x in envs) if v is not None]
        return math.fsum(vals) if vals else None

    def _chain(self, items, env):
        vals = [self.val(x, env) for x in items[::2]]
        if any(v is None for v in vals):
            if "**" in items[1::2] or any(v is not None and hasvar(x) for v, x in zip(vals, items[::2])):
                # an undefined value inside an optimisation expression: documented as invalid
                raise Undefined
            return None
        return arith(vals, items[1::2])

    # ---- conditions -----------------------------------------------------------------
    def cdims(self, w):
        op = w[0]
        if op == "bool":
            return set()
        if op in ("in", "res"):
            return set(self.dims[w[1]])
        if op == "cmp":
            return self.adims(w[1])
        if op == "subset":
            return {w[2]} if w[2] in self.members else set()
        if op == "not":
            return self.cdims(w[1])
        if op == "chain":
            out = set()
            for x in w[1][::2]:
                out |= self.cdims(x)
            return out
        if op == "any":
            return self.cdims(w[1]) - set(w[2])
        if op == "defined":
            return {w[2]}
        raise HarnessError(f"unknown condition {w}")

    def adims(self, a):
        op = a[0]
        if op in ("num", "config"):
            return set()
        if op == "name":
            return set(self.dims[a[1]])
        if op == "dim":
            return {a[1]}
        if op == "sign":
            return self.adims(a[2])
        if op == "sum":
            return set(self.dims[a[1]]) - set(a[2])
        if op == "chain":
            out = set()
            for x in a[1][::2]:
                out |= self.adims(x)
            return out
        raise HarnessError(f"unknown arithmetic {a}")

    def aval(self, a, env):
        op = a[0]
        if op == "num":
            return float(a[1])
        if op == "config":
            return {"backend": "pyomo", "objective": "min_cost_optimisation",
                    "ensure_feasibility": self.feas}[a[1]]
        if op == "name":
            return self.filled(a[1], env)
        if op == "dim":
            return env[a[1]]
        if op == "sign":
            v = self.aval(a[2], env)
            return None if v is None else (-v if a[1] == "-" else v)
        if op == "sum":
            dims = [d for d in a[2] if d in self.dims[a[1]]]
            vals = [self.filled(a[1], dict(env, **dict(zip(dims, x))))
                    for x in _grid(dims, self.members)]
            vals = [v for v in vals if v is not None]
            return math.fsum(vals) if vals else None
        if op == "chain":
            vals = [self.aval(x, env) for x in a[1][::2]]
            return None if any(v is None for v in vals) else arith(vals, a[1][1::2])
        raise HarnessError(f"unknown arithmetic {a}")

    def cond(self, w, env):
        op = w[0]
        if op == "bool":
            return w[1].lower() == "true"
        if op == "in":
            v = self.raw(w[1], env)
            if isinstance(v, bool):
                return v
            return v is not None and v not in (math.inf, -math.inf)
        if op == "res":
            return self.raw(w[1], env) is not None
        if op == "cmp":
            a, b = self.aval(w[1], env), self._rhs(w[3])
            if a is None or b is None:
                return False
            if isinstance(a, float) and (a != a):
                return False
            return {"<": lambda: a < b, ">": lambda: a > b, "==": lambda: a == b,
                    "<=": lambda: a <= b, ">=": lambda: a >= b}[w[2]]()
        if op == "subset":
            items = ["pyomo" if x == "config.backend" else x for x in w[1]]
            return w[2] in env and env[w[2]] in items
        if op == "not":
            return not self.cond(w[1], env)
        if op == "chain":
            out = self.cond(w[1][0], env)
            for o, x in zip(w[1][1::2], w[1][2::2]):
                y = self.cond(x, env)
                out = (out and y) if o.lower() == "and" else (out or y)
            return out
        if op == "any":
            dims = [d for d in w[2] if d in self.cdims(w[1])]
            return any(self.cond(w[1], dict(env, **dict(zip(dims, x))))
                       for x in _grid(dims, self.members))
        if op == "defined":
            keys = list(w[1])
            res = []
            for combo in _grid(keys, w[1]):
                fix = dict(zip(keys, combo), **{w[2]: env[w[2]]})
                rest = [d for d in ("nodes", "techs", "carriers") if d not in fix]
                res.append(any(
                    self.raw("definition_matrix", dict(fix, **dict(zip(rest, x))))
                    for x in _grid(rest, self.members)
                ))
            return all(res) if w[3] == "all" else any(res)
        raise HarnessError(f"unknown condition {w}")

    def _rhs(self, r):
        if r[0] == "bool":
            return r[1].lower() == "true"
        if r[0] == "num":
            return float(r[1])
        if r[0] == "str":
            return r[1]
        if r[0] == "at":
            return self.members[r[1]][r[2]]
        if r[0] == "sum":
            return self.aval(r, {})
        raise HarnessError(f"unknown rhs {r}")

    # ---- components -----------------------------------------------------------------
    def exists(self, foreach, wheres):
        """Indices (in foreach order) where a component with these conditions exists.

        `wheres` are and-ed; dimensions outside foreach are reduced by any().
        """
        if any(d not in self.members for d in foreach):
            return set()
        wd = set()
        for w in wheres:
            wd |= self.cdims(w)
        order = list(foreach) + sorted((wd | {"nodes", "techs", "carriers"}) - set(foreach))
        out = set()
        for key in _grid(order, self.members):
            idx = key[: len(foreach)]
            if idx in out:
                continue
            env = dict(zip(order, key))
            if self.raw("definition_matrix", env) is not True:
                continue
            if all(self.cond(w, env) for w in wheres):
                out.add(idx)
        return out

    def name(self):
        self.counter += 1
        return f"test_{self.counter}"

    def keyed(self, arr, foreach):
        """Non-missing cells of an array as {index in foreach order: value}."""
        pos = [list(arr.dims).index(d) for d in foreach] if arr.ndim else []
        return {tuple(k[p] for p in pos): v for k, v in self._iter(arr)}


def arith(vals, ops):
    """Ordinary arithmetic over a flat chain with the usual precedence."""
    vals, ops = list(vals), list(ops)
    for level in (("**",), ("*", "/"), ("+", "-")):
        i = 0
        while i < len(ops):
            if ops[i] in level:
                a, b = vals[i], vals[i + 1]
                try:
                    r = {"**": lambda: a**b, "*": lambda: a * b, "/": lambda: a / b,
                         "+": lambda: a + b, "-": lambda: a - b}[ops[i]]()
                except (ZeroDivisionError, OverflowError) as exc:
                    raise Undefined from exc
                if isinstance(r, complex) or r != r or abs(r) > 1e12:
                    raise Undefined
                vals[i : i + 2] = [r]
                del ops[i]
            else:
                i += 1
    return vals[0]


def hasvar(e):
    """Whether a value of this expression is a backend object (variable, parameter or compound)."""
    if e[0] in ("name", "slice"):
        return True
    if e[0] == "chain":
        return any(hasvar(x) for x in e[1][::2])
    return any(isinstance(x, list) and x and isinstance(x[0], str) and hasvar(x)
               for x in e[1:] if not isinstance(x, dict))


class Undefined(Exception):
    """A cell has no ordinary value (division by zero, overflow): such cases are skipped."""


# ---- rendering ----------------------------------------------------------------------
def num(x):
    return x if isinstance(x, str) else f"{x:g}"


def _lst(xs):
    return "[" + ", ".join(str(x) for x in xs) + "]"


def dimsarg(ds):
    return ds[0] if len(ds) == 1 else _lst(ds)


def render_e(e, top=True):
    """Expression AST -> string; chains inside chains and signs get parentheses."""
    op = e[0]
    if op == "num":
        return num(e[1])
    if op == "name":
        return e[1]
    if op == "sign":
        inner = render_e(e[2], False)
        s = f"{e[1]}{inner}"
        return s if top else f"({s})"
    if op == "chain":
        parts = [render_e(x, False) if i % 2 == 0 else x for i, x in enumerate(e[1])]
        sp = e[2] if len(e) > 2 else " "
        s = sp.join(parts)
        return s if top else f"({s})"
    if op == "sum":
        return f"sum({render_e(e[1])}, over={dimsarg(e[2])})"
    if op == "reduce":
        return f"reduce_carrier_dim({render_e(e[1])}, flow_direction={e[2]})"
    if op == "roll":
        return f"roll({render_e(e[1])}, {', '.join(f'{d}={k}' for d, k in e[2].items())})"
    if op == "sumnext":
        return f"sum_next_n({render_e(e[1])}, {e[2]}, {e[3]})"
    if op == "select":
        return ("select_from_lookup_arrays(" + render_e(e[1]) + ", "
                + ", ".join(f"{d}={k}" for d, k in e[2].items()) + ")")
    if op == "where":
        return f"where({render_e(e[1])}, {e[2]})"
    if op == "group":
        return f"group_sum({render_e(e[1])}, {e[2]}, {e[3]})"
    if op == "groupdt":
        return f"group_datetime({render_e(e[1])}, timesteps, {e[2]})"
    if op == "slice":
        ss = []
        for d, s in e[2].items():
            if s[0] in ("lit", "lookup"):
                ss.append(f"{d}={s[1]}")
            elif s[0] == "list":
                ss.append(f"{d}={_lst(s[1])}")
            else:  # reference to a slice
                ss.append(f"{d}=${s[1]}")
        return f"{e[1]}[{', '.join(ss)}]"
    if op == "sub":
        return f"${e[1]}"
    raise HarnessError(f"unknown expression {e}")


def render_a(a, top=True):
    op = a[0]
    if op == "num":
        return num(a[1])
    if op in ("name", "dim"):
        return a[1]
    if op == "config":
        return f"config.{a[1]}"
    if op == "sign":
        s = f"{a[1]}{render_a(a[2], False)}"
        return s if top else f"({s})"
    if op == "sum":
        return f"sum({a[1]}, over={dimsarg(a[2])})"
    if op == "chain":
        s = " ".join(render_a(x, False) if i % 2 == 0 else x for i, x in enumerate(a[1]))
        return s if top else f"({s})"
    raise HarnessError(f"unknown arithmetic {a}")


def render_w(w, top=True):
    op = w[0]
    if op == "bool":
        return w[1]
    if op in ("in", "res"):
        return w[1]
    if op == "cmp":
        r = w[3]
        if r[0] == "at":
            rs = f"get_val_at_index({r[1]}={r[2]})"
        elif r[0] == "sum":
            rs = render_a(r)
        else:
            rs = num(r[1]) if r[0] == "num" else r[1]
        sp = w[4] if len(w) > 4 else ""
        return f"{render_a(w[1])}{sp}{w[2]}{sp}{rs}"
    if op == "subset":
        return f"{_lst([num(x) if not isinstance(x, str) else x for x in w[1]])} in {w[2]}"
    if op == "not":
        inner = render_w(w[1], False)
        return f"{w[2] if len(w) > 2 else 'not'} {inner}"
    if op == "chain":
        s = " ".join(render_w(x, False) if i % 2 == 0 else x for i, x in enumerate(w[1]))
        return s if top else f"({s})"
    if op == "any":
        return f"any({w[1][1]}, over={dimsarg(w[2])})"
    if op == "defined":
        ks = ", ".join(f"{k}={_lst(v) if len(v) > 1 or w[4:] else v[0]}" for k, v in w[1].items())
        return f"defined({ks}, within={w[2]}, how={w[3]})"
    raise HarnessError(f"unknown condition {w}")
