"""C18: the search loop runs hooks once in order and reports a truthful status."""

import copy

import numpy as np
import torch
from evotorch import Problem
from evotorch.algorithms import Cosyne, GeneticAlgorithm, SearchAlgorithm
from evotorch.algorithms.searchalgorithm import LazyReporter, SinglePopulationAlgorithmMixin
from evotorch.operators import GaussianMutation
from evotorch.tools.hook import Hook

from vmon import zoo
from vmon.compare import mismatch, to_np
from vmon.engine import rule, scenario

rule("C18", "A case is one search with hooks of every kind, driven by a random mix of step() and run(n); the recorded event trace is compared with the prescribed one and every status item read is recomputed from the population and from the log of all evaluations.")
ASSUMPTIONS = ["the status is compared from the end of the first generation on", "for an even number of solutions, any value between the two middle ones is accepted as median"]


def run_outcome(search, fn):
    """the type of the exception with which a degenerate search ends, or None"""
    try:
        fn()
    except Exception as e:
        return e
    return None


class History:
    """every evaluation the problem made"""

    def __init__(self):
        self.x, self.y = [], []

    def wrap(self, f):
        def g(x):
            y = f(x)
            self.x.append(to_np(x).copy())
            self.y.append(to_np(y).copy())
            return y

        return g


def facts(made, hist, senses):
    """what the status must say, recomputed"""
    p = zoo.population(made)
    Y = np.concatenate(hist.y).astype(np.float64)
    X = np.concatenate(hist.x)
    if p is None:
        # a fresh inner search which has not made a step
        return None, Y[:0], X, Y
    ev = to_np(p.evals).astype(np.float64).copy()
    va = to_np(p.values).copy()
    return va, ev, X, Y


def check_item(ctx, made, hist, senses, key, value, kind):
    va, ev, X, Y = facts(made, hist, senses)
    restarter = made.kind in ("Restart", "IPOP")
    j, name = made.obj, key
    if key.startswith("obj") and key[3:4].isdigit():
        head, name = key.split("_", 1)
        j = int(head[3:])
    up = senses[j] == "max"
    col, allcol = ev[:, j], Y[:, j]
    tag = f"{name}:{kind}"
    if name == "iter":
        ctx.check(value == made.search.step_count, f"status:{tag}", f"iter is {value} after {made.search.step_count} steps")
    elif name in ("mean_eval", "median_eval", "pop_best_eval", "pop_best") and not restarter:
        if not np.isfinite(col).all():
            return
        if name == "mean_eval":
            ctx.close(value, col.mean(), f"status:{tag}", key, rtol=1e-4)
        elif name == "median_eval":
            s = np.sort(col)
            lo, hi = s[(len(s) - 1) // 2], s[len(s) // 2]
            ctx.check(lo <= value <= hi, f"status:{tag}", f"{key} is {value}, the middle values are {lo} and {hi}")
        elif name == "pop_best_eval":
            ctx.check(value == (col.max() if up else col.min()), f"status:{tag}", lambda: f"{key} is {value}, fitnesses {col.tolist()} ({senses[j]})")
        else:
            e = to_np(value.evals).astype(np.float64)
            ctx.check(e[j] == (col.max() if up else col.min()), f"status:{tag}", lambda: f"{key} has {e}, fitnesses {col.tolist()} ({senses[j]})")
            ctx.check(any(np.array_equal(to_np(value.values), v) and np.array_equal(e, w) for v, w in zip(va, ev)), f"status:{tag}", f"{key} is not a member of the population")
    elif not np.isfinite(Y).all():
        # a search which diverged; other checks look at such records
        return
    elif name in ("best_eval", "worst_eval"):
        top = up == (name == "best_eval")
        ctx.check(float(value) == (allcol.max() if top else allcol.min()), f"status:{tag}", lambda: f"{key} is {value}, evaluated so far: best {allcol.max() if up else allcol.min()}, worst {allcol.min() if up else allcol.max()}")
    elif name in ("best", "worst"):
        for jj, sol in enumerate(value if isinstance(value, (list, tuple)) else [value]):
            jj = jj if isinstance(value, (list, tuple)) else j
            up = senses[jj] == "max"
            top = up == (name == "best")
            c = Y[:, jj]
            e = to_np(sol.evals).astype(np.float64)
            ctx.check(e[jj] == (c.max() if top else c.min()), f"status:{tag}", f"{key} of objective {jj} has {e}, the extremes so far are {c.min()} and {c.max()}")
            ctx.check(any(np.array_equal(to_np(sol.values), v) for v in X[c == e[jj]]), f"status:{tag}", f"{key} of objective {jj} has other decision values than the solution with that fitness")
    else:
        return
    ctx.event(f"item:{name}")
    ctx.event("items_checked")


ITEMS = ["iter", "mean_eval", "median_eval", "pop_best_eval", "pop_best", "best_eval", "worst_eval", "best", "worst"]


@scenario("C18", quick=420, thorough=9000, needs=["steps", "runs", "empty_runs", "hooks_added_later", "hooks_removed", "merged_items", "vanished_items", "items_checked", "snapshots_compared", "several_objectives", "read_in_hooks", "end_of_run"] + [f"kind:{k}" for k in zoo.KINDS] + [f"item:{k}" for k in ITEMS])
def loop(ctx):
    kind = zoo.KINDS[ctx.index % len(zoo.KINDS)]
    hist = History()
    meta = {}

    def problem(senses, f, n, dtype, **kw):
        meta["senses"] = senses
        return zoo.make_problem(senses, hist.wrap(f), n, dtype, seed=7, **kw)

    m = zoo.make(ctx, problem, kind)
    s, p, senses = m.search, m.problem, meta["senses"]
    ctx.event(f"kind:{kind}")
    if len(senses) > 1:
        ctx.event("several_objectives")
    ctx.note(m.about)
    trace = []
    # the functions registered now, by hook
    live = {"before_step": [], "before_eval": [], "after_eval": [], "after_step": [], "log": [], "end": []}
    hooks = {"before_step": s.before_step_hook, "before_eval": p.before_eval_hook, "after_eval": p.after_eval_hook, "after_step": s.after_step_hook, "log": s.log_hook, "end": s.end_of_run_hook}
    counter = [0]
    held = []

    def add(where, front=False):
        counter[0] += 1
        name = f"{where}{counter[0]}"
        gives = where in ("after_eval", "after_step") and ctx.flip(0.7)
        # some keys are shared between functions: the later one decides
        keys = [f"{where}:own{counter[0]}"] + (["shared"] if ctx.flip() else []) + ([f"{where}:shared"] if ctx.flip() else [])
        sometimes = ctx.flip(0.3)
        reads = where in ("after_step", "log", "end") and ctx.flip()

        def fn(*args):
            arg = args[0] if args else None
            entry = [where, name, arg, s.step_count, len(args), None]
            trace.append(entry)
            if reads and where == "after_step":
                k = [k for k in ("iter", "mean_eval", "pop_best_eval", "best_eval") if k in s.status]
                for q in k:
                    check_item(ctx, m, hist, senses, q, s.status[q], kind)
                ctx.event("read_in_hooks")
            if gives and not (sometimes and s.step_count % 2 == 0):
                entry[5] = {k: (name, len(trace)) for k in keys}
                return dict(entry[5])
            return None

        if front:
            hooks[where].insert(0, fn)
            live[where].insert(0, name)
        else:
            hooks[where].append(fn)
            live[where].append(name)

    for w in live:
        for _ in range(ctx.choice([0, 1, 1, 2])):
            add(w)
    steps = 0

    def parse_step(ev, k):
        """consume the events of one generation, return the rest"""
        def take(where):
            nonlocal ev
            want = live[where]
            got = [e[1] for e in ev[: len(want)]]
            ctx.check(got == want, f"hook-order:{where}:{kind}", lambda: f"step {k}: expected {where} functions {want}, the trace goes on with {[e[1] for e in ev[:6]]}")
            out = ev[: len(want)]
            ev = ev[len(want) :]
            return out

        for e in take("before_step"):
            ctx.check(e[3] == k - 1 and e[4] == 0, f"before-step:{kind}", f"{e}")
        evals = 0
        while ev and ev[0][0] in ("before_eval", "after_eval") and ev[0][3] == k - 1:
            b = take("before_eval")
            a = take("after_eval")
            ctx.check(len({id(e[2]) for e in b + a}) <= 1, f"eval-batch:{kind}", "the functions of one evaluation got different batches")
            evals += 1
            if evals > 50:
                break
        if live["before_eval"] or live["after_eval"]:
            ctx.check(evals >= 1, f"no-evaluation:{kind}", f"step {k} has no evaluation events")
        for e in take("after_step"):
            ctx.check(e[3] == k and e[4] == 0, f"after-step:{kind}", f"step count {e[3]} in the hook after step {k}")
        for e in take("log"):
            ctx.check(e[3] == k and isinstance(e[2], dict) and e[2]["iter"] == k, f"log-status:{kind}", f"log hook of step {k} got {type(e[2])}")
        ctx.event("steps")
        return ev

    kept = []
    for _ in range(ctx.randint(2, 5)):
        if ctx.flip(0.3) and steps:
            add(ctx.choice(list(live)), ctx.flip())
            ctx.event("hooks_added_later")
        if ctx.flip(0.2) and steps:
            w = ctx.choice([w for w in live if live[w]] or ["log"])
            if live[w]:
                i = ctx.randint(0, len(live[w]) - 1)
                del hooks[w][i]
                del live[w][i]
                ctx.event("hooks_removed")
        trace.clear()
        how = ctx.choice(["step", "run", "run", "run0"])
        if how == "run0" and (steps == 0 and kind in ("PGPE", "SNES", "CEM", "XNES", "Restart", "IPOP")):
            # there is no population yet whose status could be reported
            how = "step"
        n = 1 if how == "step" else 0 if how == "run0" else ctx.randint(1, 3)
        dates = s.first_step_datetime
        if how == "step":
            err = run_outcome(s, s.step)
        else:
            kw = {} if ctx.flip() else {"reset_first_step_datetime": ctx.flip()}
            err = run_outcome(s, lambda: s.run(n, **kw))
        from vmon.engine import Violation

        if isinstance(err, Violation):
            raise err
        if err is not None:
            # searches may degenerate numerically (other checks look at that); the first generations must not
            ctx.check(steps > 0 or n > 1, f"failed:{kind}", f"{type(err).__name__}: {err}")
            if not isinstance(err, (RuntimeError, ValueError, torch.linalg.LinAlgError, AttributeError)):
                raise err
            ctx.event("degenerate")
            if isinstance(err, AttributeError):
                raise err
            return
        ctx.event("runs" if how != "step" else "single_steps")
        ev = list(trace)
        for k in range(steps + 1, steps + n + 1):
            ev = parse_step(ev, k)
        steps += n
        if how != "step":
            ctx.check([e[1] for e in ev[: len(live["end"])]] == live["end"], f"end-of-run:{kind}", lambda: f"expected {live['end']} at the end of run({n}), got {[e[1] for e in ev]}")
            for e in ev[: len(live["end"])]:
                ctx.check(isinstance(e[2], dict), f"end-status:{kind}", f"{type(e[2])}")
                if steps:
                    ctx.check(e[2]["iter"] == steps, f"end-status:{kind}", f"iter {e[2].get('iter')} after {steps} steps")
                ctx.event("end_of_run")
            ev = ev[len(live["end"]) :]
            if n == 0:
                ctx.event("empty_runs")
            if kw.get("reset_first_step_datetime", True):
                ctx.check((s.first_step_datetime is None) == (n == 0), f"first-step-time:{kind}", f"{s.first_step_datetime} after run({n})")
            elif dates is not None:
                ctx.check(s.first_step_datetime == dates, f"first-step-time:{kind}", "the time of the first step was reset")
        elif dates is not None:
            ctx.check(s.first_step_datetime == dates, f"first-step-time:{kind}", "the time of the first step was reset by step()")
        ctx.check(not ev, f"extra-events:{kind}", lambda: f"{[e[1] for e in ev]} after {steps} steps")
        ctx.check(s.step_count == steps and s.steps_count == steps, f"step-count:{kind}", f"{s.step_count} after {steps} steps")
        if not steps:
            continue
        # values given by hooks
        st = s.status
        if n:
            last = [e for e in trace if e[0] == "after_eval"]
            last = last[-len(live["after_eval"]) :] if live["after_eval"] else []
            want = {}
            for e in last + [e for e in trace if e[0] == "after_step" and e[3] == steps]:
                want.update(e[5] or {})
            for key, value in want.items():
                ctx.check(key in st, f"hook-item-missing:{kind}", f"{key!r} was returned by {value}, status has {sorted(st)}")
                ctx.check(st[key] == value, f"hook-item:{kind}", f"{key!r} is {st[key]}, returned was {value}")
                ctx.event("merged_items")
            # the value of this generation, or nothing, but not one of an earlier generation
            for key in st:
                if (str(key) == "shared" or str(key).startswith(("after_eval:", "after_step:"))) and key not in want:
                    ctx.check(st[key] is None, f"stale-hook-item:{kind}", f"{key!r} is {st[key]} which was not returned in this generation")
                    ctx.event("vanished_items")
        # read the status in random order and more than once
        keys = list(st)
        ctx.check(len(st) == len(keys) == len(set(keys)) and all(k in st for k in keys), f"status-keys:{kind}", f"{keys}")
        ctx.rng.shuffle(keys)
        if ctx.flip():
            whole = dict(s.status)
            for k in keys:
                check_item(ctx, m, hist, senses, k, whole[k], kind)
        for k in keys[: ctx.randint(0, len(keys))] + keys[: ctx.randint(0, 4)]:
            check_item(ctx, m, hist, senses, k, s.status[k], kind)
        # what was read earlier stays as it was
        for old, frozen in kept:
            for q, (x, fx) in frozen.items():
                ctx.check(mismatch(value_of(x), fx, 0, 0) is None, f"snapshot:{q}:{kind}", f"{q} read after an earlier generation has changed: {mismatch(value_of(x), fx, 0, 0)}")
            ctx.event("snapshots_compared")
        snap = {q: s.status[q] for q in ("pop_best", "best", "worst", "center", "best_eval") if q in s.status and not isinstance(s.status[q], (list, tuple))}
        kept.append((steps, {q: (x, value_of(x)) for q, x in snap.items() if x is not None}))
    ctx.state(*m.about, steps, tuple(len(v) for v in live.values()))
    ctx.sample(kind=kind, steps=steps, hooks={k: len(v) for k, v in live.items()})


def value_of(x):
    if hasattr(x, "evals"):
        return np.concatenate([to_np(x.values).astype(float).copy(), to_np(x.evals).astype(float).copy()])
    if isinstance(x, torch.Tensor):
        return to_np(x).copy()
    return x


@scenario("C18", quick=100, thorough=2000, needs=["read_while_evaluating", "items_checked"])
def reading_while_evaluating(ctx):
    """status items read in the middle of a generation must not stick"""
    kind = ctx.choice(["GA", "SteadyStateGA", "Cosyne", "MAPElites", "CMAES", "SNES", "PGPE"])
    hist = History()
    meta = {}

    def problem(senses, f, n, dtype, **kw):
        meta["senses"] = senses
        return zoo.make_problem(senses, hist.wrap(f), n, dtype, seed=7, **kw)

    m = zoo.make(ctx, problem, kind)
    s, p, senses = m.search, m.problem, meta["senses"]
    where = ctx.choice(["before", "after"])

    def reader(batch):
        if zoo.population(m) is not None and s.step_count > 0:
            for k in s.status:
                s.status[k]
            ctx.event("read_while_evaluating")

    {"before": p.before_eval_hook, "after": p.after_eval_hook}[where].append(reader)
    for _ in range(4):
        err = run_outcome(s, s.step)
        if err is not None:
            if isinstance(err, (RuntimeError, ValueError)) and s.step_count:
                return
            raise err
        for k in s.status:
            check_item(ctx, m, hist, senses, k, s.status[k], kind)
    ctx.state(*m.about, where)


@scenario("C18", quick=300, thorough=6000, needs=["lazily_computed", "cleared", "updated", "own_search", "excluded", "printed"])
def reporters(ctx):
    """the lazy status machinery, driven by a user's class"""
    calls = {}
    gen = [0]

    def getter(name):
        def f():
            calls[name] = calls.get(name, 0) + 1
            return (name, gen[0], calls[name])

        return f

    names = [f"k{i}" for i in range(ctx.randint(1, 5))]
    rep = LazyReporter(**{n: getter(n) for n in names})
    model = {}
    keys = list(names)
    for _ in range(ctx.randint(5, 25)):
        op = ctx.choice(["read", "read", "read", "clear", "update", "add", "print", "whole", "contains"])
        if op == "read" and keys:
            k = ctx.choice(keys)
            before = calls.get(k, 0)
            v = rep.status[k] if ctx.flip() else rep.get_status_value(k)
            if k in model:
                ctx.check(v == model[k] and calls.get(k, 0) == before, "lazy-recomputed", f"{k}: {v} instead of {model[k]}")
            elif k in names:
                ctx.check(v == (k, gen[0], before + 1), "lazy-value", f"{k}: {v} in generation {gen[0]}")
                ctx.event("lazily_computed")
            else:
                ctx.check(v is None, "lazy-missing", f"{k}: {v}")
            model[k] = v
        elif op == "clear":
            gen[0] += 1
            rep.clear_status()
            model.clear()
            ctx.event("cleared")
        elif op == "update":
            upd = {ctx.choice(keys + ["extra", "more", "iter"]): ("given", ctx.randint(0, 99)) for _ in range(2)}
            rep.update_status(upd)
            model.update(upd)
            keys += [k for k in upd if k not in keys]
            ctx.event("updated")
        elif op == "add":
            n = f"late{len(keys)}"
            rep.add_status_getters({n: getter(n)})
            names.append(n)
            keys.append(n)
        elif op == "print":
            before = dict(calls)
            text = str(rep.status)
            ctx.check(calls == before, "print-computes", "printing the status computed its items")
            for k in keys:
                line = [l for l in text.splitlines() if l.strip().startswith(f"{k} =")]
                ctx.check(len(line) == 1 and ((k in model) == ("not yet computed" not in line[0])), "print", f"{k}: {line}, computed: {k in model}")
            ctx.event("printed")
        elif op == "whole":
            d = dict(rep.status)
            ctx.check(sorted(d) == sorted(keys) and len(rep.status) == len(keys), "status-keys", f"{sorted(d)} instead of {sorted(keys)}")
            for k in keys:
                if k in model:
                    ctx.check(d[k] == model[k], "lazy-recomputed", f"{k}")
                model[k] = d[k]
        else:
            k = ctx.choice(keys[-2:] + keys + ["unknown"])
            ctx.check((k in rep.status) == (k in keys) == rep.has_status_key(k), "contains", k)
            ctx.check(rep.is_status_computed(k) == (k in model), "computed-flag", k)

    # a user's own search algorithm
    senses = [ctx.choice(["min", "max"]) for _ in range(ctx.choice([1, 2]))]
    f = zoo.columns(ctx, 3, len(senses))
    prob = zoo.make_problem(senses, f, 3, torch.float64, seed=3, initial_bounds=(-1, 1))
    exclude = set(ctx.rng.sample(["pop_best", "pop_best_eval", "mean_eval", "median_eval"], ctx.randint(0, 2)))

    class Own(SearchAlgorithm, SinglePopulationAlgorithmMixin):
        def __init__(self, problem, n):
            SearchAlgorithm.__init__(self, problem, double=self.double)
            self._pop = problem.generate_batch(n)
            SinglePopulationAlgorithmMixin.__init__(self, exclude=exclude)

        @property
        def population(self):
            return self._pop

        def double(self):
            return 2 * self.step_count

        def _step(self):
            self._pop.set_values(self.problem.make_gaussian(len(self._pop), 3, dtype=torch.float64))
            self.problem.evaluate(self._pop)
            self.update_status({"own": ("own", self.step_count)})

    s = Own(prob, ctx.randint(3, 8))
    seen = []
    s.log_hook.append(seen.append)
    names = ["pop_best", "pop_best_eval", "mean_eval", "median_eval"]
    for g in range(3):
        s.step()
        d = s.status
        for k in names:
            full = [k] if len(senses) == 1 else [f"obj{i}_{k}" for i in range(len(senses))]
            for j, q in enumerate(full):
                ctx.check((q in d) == (k not in exclude), "excluded", f"{q}: excluded {exclude}, status has {sorted(d)}")
        ctx.check(d["double"] == 2 * (g + 1) and d["iter"] == g + 1, "own-items", f"{d['double']} {d['iter']}")
        ctx.check(d["own"] == ("own", g) and seen[-1]["own"] == ("own", g), "own-update", f"{d['own']} in generation {g + 1}")
        ctx.event("own_search")
    ctx.check([x["double"] for x in seen] == [2, 4, 6], "log-status", f"{[x['double'] for x in seen]}")
    if exclude:
        ctx.event("excluded")
    ctx.state(len(keys), tuple(sorted(exclude)), len(senses))


@scenario("C18", quick=400, thorough=8000, needs=["hook_calls", "lists", "dicts", "mixed_rejected", "edits", "slices"])
def hooks(ctx):
    """a hook is a list of functions called in order"""
    args = [ctx.randint(0, 9) for _ in range(ctx.choice([0, 0, 1, 2]))]
    kwargs = {k: ctx.randint(0, 9) for k in ctx.rng.sample("xyz", ctx.choice([0, 0, 1, 2]))}
    called = []

    def mk(i, kind):
        def f(*a, **k):
            called.append((i, a, tuple(sorted(k.items()))))
            if kind == "dict":
                return {"common": i, f"own{i}": i}
            if kind == "list":
                return [i, i + 0.5]
            if kind == "tuple":
                return (i,)
            if kind == "number":
                return 5
            return None

        f.kind, f.i = kind, i
        return f

    style = ctx.choice(["dict", "list", "none", "mixed", "number"])

    def new():
        mk.n = getattr(mk, "n", 0) + 1
        k = {"dict": ctx.choice(["dict", "none"]), "list": ctx.choice(["list", "tuple", "none"]), "none": "none", "mixed": ctx.choice(["dict", "list", "none"]), "number": ctx.choice(["number", "none"])}[style]
        return mk(mk.n, k)

    first = [new() for _ in range(ctx.randint(0, 4))]
    h = Hook(first, args=args or None, kwargs=kwargs or None)
    model = list(first)
    for _ in range(ctx.randint(0, 6)):
        op = ctx.choice(["append", "insert", "del", "set", "extend", "slice", "remove", "pop"])
        if op == "append":
            f = new()
            h.append(f), model.append(f)
        elif op == "insert":
            f, i = new(), ctx.randint(-2, len(model) + 1)
            h.insert(i, f), model.insert(i, f)
        elif op == "extend":
            fs = [new(), new()]
            h.extend(fs), model.extend(fs)
        elif op == "del" and model:
            i = ctx.randint(0, len(model) - 1)
            del h[i]
            del model[i]
        elif op == "set" and model:
            i, f = ctx.randint(0, len(model) - 1), new()
            h[i] = f
            model[i] = f
        elif op == "remove" and model:
            f = ctx.choice(model)
            h.remove(f), model.remove(f)
        elif op == "pop" and model:
            ctx.check(h.pop() is model.pop(), "edit", "pop")
        elif op == "slice":
            a, b = sorted((ctx.randint(0, 5), ctx.randint(0, 5)))
            part = h[a:b]
            ctx.check(isinstance(part, Hook) and list(part) == model[a:b] and list(part.args) == args and dict(part.kwargs) == kwargs, "slice", f"{part}")
            ctx.event("slices")
            if ctx.flip():
                part.append(new())
                ctx.check(list(h) == model, "slice-aliases", "changing a part changed the hook")
        ctx.event("edits")
        ctx.check(len(h) == len(model) and list(h) == model, "edit", f"after {op}: {len(h)} functions instead of {len(model)}")
    ctx.check(first == first, "", "")
    ca = [ctx.randint(10, 19) for _ in range(ctx.choice([0, 1]))]
    ck = {k: ctx.randint(10, 19) for k in ctx.rng.sample("xyw", ctx.choice([0, 1, 2]))}
    allk = {**kwargs, **ck}
    kinds = [f.kind for f in model]
    gives_d, gives_l = [f for f in model if f.kind == "dict"], [f for f in model if f.kind in ("list", "tuple")]
    how = ctx.choice(["call", "dict", "sequence"])
    fn = {"call": h, "dict": h.accumulate_dict, "sequence": h.accumulate_sequence}[how]
    called.clear()
    bad = (gives_d and gives_l) or "number" in kinds or (how == "dict" and gives_l) or (how == "sequence" and gives_d)
    if bad:
        ctx.raises(TypeError, lambda: fn(*ca, **ck), f"mixed:{how}", f"functions returning {kinds}")
        ctx.event("mixed_rejected")
    else:
        r = fn(*ca, **ck)
        want = [(f.i, tuple(args + ca), tuple(sorted(allk.items()))) for f in model]
        ctx.check(called == want, "calls", lambda: f"{called}, expected {want}")
        ctx.event("hook_calls")
        if gives_d:
            d = {}
            for f in gives_d:
                d.update({"common": f.i, f"own{f.i}": f.i})
            ctx.check(isinstance(r, dict) and r == d, "accumulated", f"{r}, expected {d}")
            ctx.event("dicts")
        elif gives_l:
            l = []
            for f in gives_l:
                l += [f.i, f.i + 0.5] if f.kind == "list" else [f.i]
            ctx.check(isinstance(r, list) and r == l, "accumulated", f"{r}, expected {l}")
            ctx.event("lists")
        else:
            ctx.check(r == {"call": None, "dict": {}, "sequence": []}[how], "accumulated", f"{r} from functions that return nothing ({how})")
    ctx.check(list(h.args) == args and dict(h.kwargs) == kwargs, "arguments-changed", f"{h.args} {h.kwargs}")
    ctx.state(style, tuple(kinds), how, len(args), len(kwargs))


@scenario("C18", quick=160, thorough=3000, needs=["exact_items", "edited", "logged", "ended", "rescored"])
def logged_last(ctx):
    """what is logged is the state after the after-step functions, in the precision of the fitnesses"""
    n = ctx.randint(1, 3)
    sense = ctx.choice(["min", "max"])
    offset = ctx.choice([0.0, 1e6, -1e8, 1e9])
    calls = [0]

    def f(x):
        calls[0] += 1
        return offset + (x**2).sum(dim=-1)

    p = Problem(sense, f, solution_length=n, initial_bounds=(-1, 1), dtype=torch.float64, eval_dtype=torch.float64, vectorized=True, seed=ctx.randint(0, 999))
    s = GeneticAlgorithm(p, popsize=ctx.randint(3, 9), operators=[GaussianMutation(p, stdev=0.1)]) if ctx.flip() else Cosyne(p, popsize=ctx.randint(4, 9), tournament_size=2, mutation_stdev=0.1)
    edits = ctx.flip(0.6)
    seen = []

    def edit():
        k = ctx.randint(0, 1)
        pop = s.population
        if k:
            # fitnesses given by hand
            i = ctx.randint(0, len(pop) - 1)
            pop.access_evals(0)[i] = offset + ctx.choice([-5.0, 0.5, 7.25])
            ctx.event("edited")
        else:
            v = pop.access_values()
            v[ctx.randint(0, len(pop) - 1)] = ctx.uniform(2, 3)
            p.evaluate(pop)
            ctx.event("rescored")
        return {"edited": k}

    if edits:
        s.after_step_hook.append(edit)

    def judge(status, where):
        e = np.array(to_np(s.population.evals), dtype=float)[:, 0]
        for k, want in {"mean_eval": e.mean(), "pop_best_eval": e.max() if sense == "max" else e.min()}.items():
            got = float(status[k])
            ctx.check(abs(got - want) <= 1e-12 * abs(want) + 1e-9, f"{where}:{k}", f"{k} is {got!r}, the population says {want!r}")
            ctx.event("exact_items")
        m, q = float(status["median_eval"]), np.sort(e)
        ctx.check(q[(len(q) - 1) // 2] <= m <= q[len(q) // 2], f"{where}:median_eval", f"{m!r}")
        ctx.check(float(to_np(status["pop_best"].evals)[0]) == (e.max() if sense == "max" else e.min()), f"{where}:pop_best", "")
        seen.append(status["iter"])

    s.log_hook.append(lambda st: (judge(st, "logged"), ctx.event("logged")) and None)
    s.end_of_run_hook.append(lambda st: (judge(st, "ended"), ctx.event("ended")) and None)
    g = ctx.randint(1, 5)
    s.run(g)
    ctx.check(seen == list(range(1, g + 1)) + [g], "logged:iterations", f"{seen}")
    judge(s.status, "read")
    ctx.state(type(s).__name__, sense, offset, edits, g)
    ctx.sample(search=type(s).__name__, offset=offset, edits=edits)
