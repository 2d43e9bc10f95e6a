"""Shared runner: turns a property module into a seeded, sharded, shrinking search.

A property module defines
  PID, RULE                 property id; how cases are made and what makes one non-trivial
  strategy(tier)            hypothesis strategy producing a JSON-able case
  run(case, rec)            checks one case; raises Violation; uses rec.label()/rec.nontrivial
  EXAMPLES, SECONDS         per-worker case count and time budget for each tier
"""
import hashlib
import importlib
import json
import os
import pathlib
import shutil
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
HARNESS = str(ROOT / "harness")
# another tree than /repo is used during development only
REPO = os.environ.get("VERIF_REPO", "/repo")
REPO_SRC = f"{REPO}/src/calliope"


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation."""


class _Stop(KeyboardInterrupt):
    """Leaves hypothesis when the time budget is used up."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


class Rec:
    """Collects what one case exercised."""

    def __init__(self):
        self.labels = {}
        self.is_nontrivial = False

    def label(self, name, on=True):
        if on:
            self.labels[str(name)] = 1

    def nontrivial(self, on=True):
        if on:
            self.is_nontrivial = True


def dumps(case):
    return json.dumps(case, sort_keys=True, default=str)


def case_hash(case):
    return hashlib.sha1(dumps(case).encode()).hexdigest()


def load(pid):
    return importlib.import_module(f"harness.props.{pid.lower()}")


def classify(exc):
    """An exception raised while running a case -> ('violation'|'harness', message).

    A crash that comes out of the code under test on an input it must accept breaks the
    property.  Anything raised by the machinery itself is a harness error.
    """
    if isinstance(exc, Violation):
        return "violation", str(exc)
    if isinstance(exc, HarnessError):
        return "harness", "".join(traceback.format_exception(exc))
    frames = traceback.extract_tb(exc.__traceback__)
    last_harness = max(
        (i for i, f in enumerate(frames) if f.filename.startswith(HARNESS)), default=-1
    )
    after = [f for f in frames[last_harness + 1 :] if f.filename.startswith(REPO_SRC)]
    text = f"{type(exc).__name__}: {exc}"[:1500]
    if after:
        # a wrong call signature (or a missing attribute) is raised in the harness frame itself
        where = f"{pathlib.Path(after[-1].filename).name}:{after[-1].name}"
        return "violation", f"unexpected {text} (from {where})"
    if isinstance(exc, (KeyError, IndexError, ValueError, ZeroDivisionError, AssertionError)):
        # the oracle could not make sense of what the code under test produced
        return "violation", "output not interpretable: " + "".join(
            traceback.format_exception(exc)
        )[-1500:]
    return "harness", "".join(traceback.format_exception(exc))


def quiet():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)


def run_one(mod, case):
    rec = Rec()
    mod.run(case, rec)
    return rec


def worker(pid, idx, nworkers, seed, tier, out):
    from harness import boot

    boot.ensure()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t0 = time.time()
    quiet()
    mod = load(pid)
    import calliope

    if not calliope.__file__.startswith(REPO_SRC):
        raise HarnessError(f"calliope imported from {calliope.__file__}")
    if hasattr(mod, "setup"):
        mod.setup(tier)
    budget = mod.SECONDS[tier]
    budget = float(os.environ.get("VERIF_SECONDS", budget))
    shrink_budget = 60 if tier == "quick" else 300
    examples = mod.EXAMPLES[tier]
    st = {
        "evaluations": 0, "nontrivial": {}, "labels": {}, "samples": [],
        "violation": None, "harness_error": None, "stopped_early": False,
    }
    best = {"len": None, "case": None, "msg": None, "t": None}

    def one(case):
        now = time.time()
        if best["t"] is None:
            if now - t0 > budget:
                st["stopped_early"] = True
                raise _Stop
        elif now - best["t"] > shrink_budget:
            raise _Stop
        rec = Rec()
        try:
            mod.run(case, rec)
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as exc:  # noqa: BLE001
            kind, msg = classify(exc)
            if kind == "harness":
                st["harness_error"] = {"msg": msg, "case": case}
                raise _Stop from exc
            size = len(dumps(case))
            if best["len"] is None or size < best["len"]:
                best.update(len=size, case=case, msg=msg)
            if best["t"] is None:
                best["t"] = time.time()
                # let the parent know early
                pathlib.Path(out + ".hit").write_text("1")
            raise
        finally:
            if best["t"] is None:
                st["evaluations"] += 1
                for k in rec.labels:
                    st["labels"][k] = st["labels"].get(k, 0) + 1
                if rec.is_nontrivial:
                    h = case_hash(case)
                    if h not in st["nontrivial"]:
                        st["nontrivial"][h] = 1
                        n = len(st["nontrivial"])
                        if n in (1, 3, 10):
                            st["samples"].append(json.loads(dumps(case)))

    def finish():
        if best["case"] is not None:
            st["violation"] = {"case": best["case"], "msg": best["msg"]}
        st["wall"] = time.time() - t0
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(st, f, default=str)
        os.replace(tmp, out)

    try:
        # regression tier: saved minimal cases of earlier findings
        corpus = sorted((ROOT / "corpus" / pid).glob("*.json"))
        for i, path in enumerate(corpus):
            if i % nworkers == idx:
                one(json.loads(path.read_text())["case"])
        hseed = int(hashlib.sha256(f"{seed}:{pid}:{idx}".encode()).hexdigest()[:12], 16)
        conf = settings(
            max_examples=examples, database=None, deadline=None,
            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink), print_blob=False,
        )
        if idx % 4 == 3 and not getattr(mod, "IID_ONLY", False):
            # hypothesis' own search: small and mutated cases
            conf(hypothesis.seed(hseed)(given(mod.strategy(tier))(one)))()
        else:
            independent(mod.strategy(tier), one, examples, hseed, conf)
    except _Stop:
        pass
    except Exception as exc:  # noqa: BLE001
        if best["case"] is None and st["harness_error"] is None:
            st["harness_error"] = {
                "msg": "".join(traceback.format_exception(exc)), "case": None
            }
    finish()


def independent(strategy, one, examples, hseed, conf):
    """Draws cases independently of each other; a failing one is shrunk by hypothesis."""
    from random import Random

    from hypothesis.control import BuildContext
    from hypothesis.internal.conjecture.data import ConjectureData, StopTest
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    from hypothesis.internal.escalation import InterestingOrigin
    from hypothesis.errors import UnsatisfiedAssumption

    def draw(data):
        with BuildContext(data, is_final=False, wrapped_test=lambda: None):
            return data.draw(strategy)

    rng = Random(hseed)
    for _ in range(examples):
        data = ConjectureData(prefix=(), random=Random(rng.getrandbits(64)))
        try:
            case = draw(data)
        except (StopTest, UnsatisfiedAssumption):
            continue
        try:
            one(case)
        except _Stop:
            raise
        except Exception as exc:  # noqa: BLE001
            origin = InterestingOrigin.from_exception(exc)
            break
    else:
        return

    def again(d):
        try:
            case = draw(d)
        except UnsatisfiedAssumption:
            d.mark_invalid()
        try:
            one(case)
        except _Stop:
            raise
        except Exception:  # noqa: BLE001
            d.mark_interesting(origin)

    runner = ConjectureRunner(again, settings=conf, random=Random(0))
    runner.cached_test_function(data.choices)
    runner.shrink_interesting_test_cases()


def scratch_clean(path):
    shutil.rmtree(path, ignore_errors=True)
