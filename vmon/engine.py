"""Scenario registry, case context, and the verdict machinery."""

import hashlib
import json
import os
import random
import re
import signal
import sys
import time
import traceback
from collections import Counter

HANG_SECONDS = 240


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(f"[{key}] {message}")
        self.key = key
        self.message = message


class Hang(BaseException):
    pass


class Inconclusive(Exception):
    """The harness could not observe what it has to observe (no verdict)."""


class Scenario:
    def __init__(self, prop, fn, quick, thorough, needs, ray, hang):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.needs = tuple(needs)
        self.ray = ray
        self.hang = hang


REGISTRY = {}
RULES = {}


def scenario(prop, *, quick, thorough=None, needs=(), ray=False, hang=HANG_SECONDS):
    """Register a scenario: a function of a case context that runs real code under monitors.

    needs: names of events that must have been observed at least once over all cases of the run.
    """

    def deco(fn):
        t = quick * 20 if thorough is None else thorough
        REGISTRY.setdefault(prop, []).append(Scenario(prop, fn, quick, t, needs, ray, hang))
        return fn

    return deco


def rule(prop, text):
    RULES[prop] = text


def case_seed(prop, scenario_name, seed, index):
    h = hashlib.sha256(f"{prop}/{scenario_name}/{seed}/{index}".encode()).digest()
    return int.from_bytes(h[:6], "big")


class Ctx:
    """Everything a case needs: random choices, counters and the assertion interface."""

    def __init__(self, prop, scen, cseed, index, tier):
        import numpy as np
        import torch

        from . import poison

        self.prop = prop
        self.scenario = scen
        self.case_seed = cseed
        self.index = index
        self.tier = tier
        self.rng = random.Random(cseed)
        self.np = np.random.default_rng(cseed)
        self.gen = torch.Generator()
        self.gen.manual_seed(cseed)
        torch.manual_seed(cseed ^ 0x5A5A5A)
        random.seed(cseed ^ 0x123)
        np.random.seed((cseed ^ 0x77) % (2**32))
        self.events = Counter()
        self.states = set()
        self.samples = []
        self.trace = []
        self.poison = poison.MODES[cseed % 4]
        poison.set_mode(self.poison)
        self.events["cases_with_poisoned_memory"] += int(self.poison != "none")

    # --- choices -----------------------------------------------------------------
    def choice(self, xs):
        return self.rng.choice(list(xs))

    def randint(self, a, b):
        """inclusive"""
        return self.rng.randint(a, b)

    def flip(self, p=0.5):
        return self.rng.random() < p

    def uniform(self, a, b):
        return self.rng.uniform(a, b)

    # --- observation bookkeeping -------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def state(self, *key):
        self.states.add(hashlib.blake2b(repr((self.scenario,) + key).encode(), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({"scenario": self.scenario, **{k: _short(v) for k, v in kw.items()}})

    def note(self, *what):
        """Append to the trace that is printed with a violation."""
        self.trace.append(" ".join(_short(w) for w in what))
        if len(self.trace) > 60:
            del self.trace[0]

    # --- verdicts ------------------------------------------------------------------
    def check(self, cond, key, message=""):
        self.events["oracle_evaluations"] += 1
        if not bool(cond):
            if callable(message):
                message = message()
            raise Violation(key, message)

    def fail(self, key, message=""):
        raise Violation(key, message)

    def close(self, actual, expected, key, what="", rtol=1e-4, atol=1e-5):
        from .compare import mismatch

        self.events["oracle_evaluations"] += 1
        m = mismatch(actual, expected, rtol=rtol, atol=atol)
        if m is not None:
            raise Violation(key, f"{what}: {m}")

    def same(self, actual, expected, key, what=""):
        """Exact equality (NaN equals NaN), including shape."""
        from .compare import mismatch

        self.events["oracle_evaluations"] += 1
        m = mismatch(actual, expected, rtol=0.0, atol=0.0)
        if m is not None:
            raise Violation(key, f"{what}: {m}")

    def raises(self, exc, fn, key, what=""):
        self.events["oracle_evaluations"] += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(key, f"{what}: expected {exc}, got {type(e).__name__}: {e}")
        raise Violation(key, f"{what}: expected {exc}, but the call returned {_short(r)}")


def _short(v):
    s = v if isinstance(v, str) else repr(v)
    s = re.sub(r"\s+", " ", s)
    return s if len(s) <= 400 else s[:400] + "..."


def _crash_key(exc):
    """Key of an unexpected exception: type plus the innermost function of the library it came through."""
    where = "outside"
    src = os.path.realpath(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")) + os.sep
    for fr in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(fr.filename).startswith(src):
            where = os.path.relpath(fr.filename, src) + ":" + fr.name
    return f"crash:{type(exc).__name__}:{where}"


def run_case(scen, cseed, index, tier):
    ctx = Ctx(scen.prop, scen.name, cseed, index, tier)

    def on_alarm(signum, frame):
        raise Hang()

    result = {"violation": None, "inconclusive": None}
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(scen.hang)
    try:
        scen.fn(ctx)
    except Violation as v:
        result["violation"] = (v.key, v.message, "".join(traceback.format_tb(v.__traceback__)[-3:]))
    except Inconclusive as e:
        result["inconclusive"] = str(e)
    except Hang as e:
        result["violation"] = (
            "hang",
            f"the case did not finish within {scen.hang} s",
            "".join(traceback.format_tb(e.__traceback__)[-6:]),
        )
    except (MemoryError, KeyboardInterrupt) as e:
        result["inconclusive"] = repr(e)
    except Exception as e:
        result["violation"] = (
            _crash_key(e),
            f"unexpected {type(e).__name__}: {e}",
            "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:]),
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    result["events"] = ctx.events
    result["states"] = ctx.states
    result["sig"] = hashlib.blake2b(b"".join(sorted(ctx.states)), digest_size=8).digest() if ctx.states else None
    result["samples"] = ctx.samples
    result["trace"] = ctx.trace
    return result
