"""C02: parallel evaluation equals sequential evaluation."""

import copy
import os
import pickle
import random
import time
from collections import Counter

import numpy as np
import torch
from evotorch import Problem

from vmon.compare import to_np
from vmon.engine import rule, scenario

rule(
    "C02",
    "A case is one problem (kind of objective, objectives, extra columns, data types, workers, splitting) and a history of parallel evaluations,"
    " worker restarts, copies and failures.",
)
ASSUMPTIONS = [
    "objective functions are deterministic and map each row on its own",
    "most cases run the workers inside the checking process (ray's local mode) with a random completion order; some use real worker processes",
]

LOG = []  # (worker index or None, rows) of each call of the objective, in this process
FAIL = set()  # values of the first variable for which the objective fails


def _feat(x):
    if isinstance(x, torch.Tensor):
        return to_np(x).astype(np.float64).ravel()
    return np.array([float(v) for v in x])


class Obj:
    """Objective with exact integer arithmetic."""

    def __init__(self, w, nobj, ndata, vectorized, tuples):
        self.w, self.nobj, self.ndata, self.vectorized, self.tuples = w, nobj, ndata, vectorized, tuples

    def row(self, f):
        return [float(self.w[k] * f.sum() + f[0] * (k + 1) + k) for k in range(self.nobj)], [float(2 * f.max() - j) for j in range(self.ndata)]

    def rows(self, fs, index=None):
        LOG.append((index, [tuple(f.tolist()) for f in fs]))
        for f in fs:
            if f[0] in FAIL:
                raise RuntimeError(f"objective failed at {f[0]}")
        out = [self.row(f) for f in fs]
        ev = torch.tensor([o[0] for o in out])
        dt = torch.tensor([o[1] for o in out])
        return ev, dt

    def __call__(self, x):
        many = x if self.vectorized else [x]
        ev, dt = self.rows([_feat(r) for r in many])
        if not self.vectorized:
            ev, dt = ev[0], dt[0]
            if self.nobj == 1 and not self.ndata:
                return float(ev[0])
        if self.ndata:
            return (ev, dt) if self.tuples else torch.cat([ev, dt], dim=-1)
        return ev


class Sub(Problem):
    """Subclass style, with state that is synchronised between the main process and the workers."""

    def __init__(self, sense, obj, style, sync, **kw):
        super().__init__(sense, **kw)
        self.obj, self.style, self.sync = obj, style, sync
        self.prepared = 0
        self.table = None
        self.from_main = None
        self.count = 0
        self.got = []
        self.version = 0
        self.loaded = None

    def _prepare(self):
        self.prepared += 1
        self.table = "ready"

    def _fill(self, values):
        if self.dtype is not object:
            return super()._fill(values)
        for i in range(len(values)):
            values[i] = [0.0, 0.0]

    def _evaluate_batch(self, batch):
        if self.style != "batch":
            return super()._evaluate_batch(batch)
        if self.table != "ready":
            raise RuntimeError("evaluating without having been prepared")
        ev, dt = self.obj.rows([_feat(r) for r in batch.values], self.actor_index)
        self.count += len(batch)
        batch.set_evals(ev, dt) if self.obj.ndata else batch.set_evals(ev)

    def _evaluate(self, sln):
        if self.table != "ready":
            raise RuntimeError("evaluating without having been prepared")
        ev, dt = self.obj.rows([_feat(sln.values)], self.actor_index)
        self.count += 1
        sln.set_evals(ev[0], dt[0]) if self.obj.ndata else sln.set_evals(ev[0])

    # synchronisation
    def _make_sync_data_for_actors(self):
        if self.sync == "none":
            return NotImplemented
        self.version += 1
        return None if self.sync == "up" else self.version % 2 if self.sync == "number" else {"version": self.version}

    def _use_sync_data_from_main(self, received):
        self.from_main = received

    def _make_sync_data_for_main(self):
        return {"worker": self.actor_index, "version": self.from_main["version"] if isinstance(self.from_main, dict) else self.from_main, "count": self.count}

    def _use_sync_data_from_actors(self, received):
        self.got.append(received)

    def _make_pickle_data_for_main(self):
        return {"count": self.count, "worker": self.actor_index}

    def _use_pickle_data_from_main(self, state):
        self.loaded = dict(state)
        if state:
            self.count = state["count"]

    # used through all_remote_problems()
    def whoami(self, a, b=0):
        return (self.actor_index, self.is_remote, self.is_main, a + b)

    def draws(self):
        return [int(v) for v in self.make_randint((4,), n=1_000_000, dtype="int64")]

    def global_draws(self):
        return (random.random(), float(np.random.rand()), float(torch.rand(())), os.getpid())

    def info(self):
        return (self.prepared, self.table, self.count, self.loaded)

    def counted(self):
        return self.count


def make(ctx, force_kind=None):
    kind = force_kind or ctx.choice(["fn", "vfn", "vfn", "row", "batch", "batch", "object"])
    nobj = ctx.choice([1, 1, 2, 3])
    ndata = ctx.choice([0, 0, 1, 2])
    dtype = "object" if kind == "object" else ctx.choice(["float32", "float64", "int64", "int32", "uint8", "float16"])
    n = 2 if kind == "object" else ctx.randint(1, 4)
    w = ctx.np.integers(-3, 4, size=nobj)
    o = Obj(w, nobj, ndata, kind == "vfn", ctx.flip())
    senses = [ctx.choice(["min", "max"]) for _ in range(nobj)]
    sense = senses[0] if nobj == 1 else senses
    seed = ctx.choice([None, ctx.randint(0, 10**6)])
    workers = ctx.choice([2, 2, 3, 3, 4, 5, 7])
    split = ctx.choice(["default", "default", "num", "num", "size"])
    par = {"num_actors": workers}
    m = None
    if split == "num":
        par["num_subbatches"] = m = ctx.randint(1, 9)
    elif split == "size":
        par["subbatch_size"] = m = ctx.randint(1, 6)
    kw = dict(dtype=object if kind == "object" else dtype, eval_data_length=ndata, eval_dtype=ctx.choice(["float32", "float64"]))
    if kind != "object":
        kw.update(solution_length=n, bounds=(0, 40))
    stats = ctx.choice([None, None, True, False])
    kw["store_solution_stats"] = stats
    sync = ctx.choice(["none", "up", "both", "number"])

    def build(parallel=True, seed=seed):
        extra = dict(par) if parallel else {}
        if kind in ("fn", "vfn"):
            return Problem(sense, o, vectorized=(kind == "vfn"), seed=seed, **kw, **extra)
        return Sub(sense, o, "batch" if kind in ("batch", "object") else "row", sync, seed=seed, **kw, **extra)

    info = dict(kind=kind, nobj=nobj, ndata=ndata, dtype=dtype, n=n, seed=seed, workers=workers, split=split, m=m, sync=sync, stats=stats, obj=o)
    return info, build


def values(ctx, info, popsize):
    """distinct rows of small integers"""
    if info["kind"] == "object":
        return [[float(v) for v in ctx.np.integers(0, 41, size=ctx.randint(1, 4))] for _ in range(popsize)]
    return ctx.np.integers(0, 41, size=(popsize, info["n"]))


def fill(problem, info, vals):
    b = problem.generate_batch(len(vals))
    b.set_values(vals if info["kind"] == "object" else torch.as_tensor(vals).to(problem.dtype))
    return b


def expected(info, vals):
    out = []
    for v in vals:
        ev, dt = info["obj"].row(np.array([float(x) for x in v]))
        out.append(ev + dt)
    return np.array(out)


def piece_sizes(info, popsize):
    if info["split"] == "size":
        m = info["m"]
        return [m] * (popsize // m) + ([popsize % m] if popsize % m else [])
    k = info["workers"] if info["split"] == "default" else info["m"]
    return [s for s in [popsize // k + (1 if i < popsize % k else 0) for i in range(k)] if s]


def monitor(ctx, info, problem, b, vals, where):
    """compare stored results, values, the call log and the extremes with the reference"""
    exp = expected(info, vals)
    ctx.same(b.evals, exp, "evals", f"results stored {where}")
    if info["kind"] == "object":
        got = [list(v) for v in b.values]
        ctx.check(got == [list(v) for v in vals], "values", lambda: f"values after {where}: {got} but were {vals}")
    else:
        ctx.same(b.values, np.asarray(vals, dtype=np.float64), "values", f"values after {where}")
    seen = Counter(r for _, rows in LOG for r in rows)
    want = Counter(tuple(float(x) for x in v) for v in vals)
    ctx.check(seen == want, "sent_once", lambda: f"{where}: rows seen by workers {seen}, solutions {want}")
    sizes = [len(rows) for _, rows in LOG]
    if info["kind"] not in ("fn", "row"):
        pieces = piece_sizes(info, len(vals))
        ctx.check(sorted(sizes) == sorted(pieces), "pieces", lambda: f"{where}: pieces of sizes {sizes}, expected {pieces} ({info['split']} {info['m']}, {info['workers']} workers)")
        ctx.event("pieces_observed", len(sizes))
    workers = {i for i, _ in LOG}
    if info["kind"] not in ("fn", "vfn"):
        ctx.check(None not in workers, "main_did_the_work", f"{where}: the main process evaluated {LOG}")
        ctx.check(workers <= set(range(info["workers"])), "worker_index", f"worker indices {workers}")
        ctx.state("spread", len(workers), info["workers"])
    if len(sizes) > 1:
        ctx.event("evaluations_in_several_pieces")
    if len(vals) < info["workers"]:
        ctx.event("fewer_solutions_than_workers")
    ctx.state(info["kind"], info["workers"], info["split"], info["m"], len(vals), info["sync"], info["dtype"])


def known_best(ctx, info, problem, hist):
    """the best and worst records of the main problem follow everything evaluated so far"""
    st = problem.status
    if info["stats"] is False:
        ctx.check("best" not in st and "best_eval" not in st, "records", f"status of a problem that keeps no records: {list(st)}")
        return
    single = info["nobj"] == 1
    senses = problem.senses
    for k in range(info["nobj"]):
        col = np.array([h[k] for h in hist])
        hi, lo = col.max(), col.min()
        best, worst = (lo, hi) if senses[k] == "min" else (hi, lo)
        sb = st["best"] if single else st["best"][k]
        sw = st["worst"] if single else st["worst"][k]
        ctx.same(sb.evals[k], best, "records", f"best of objective {k}")
        ctx.same(sw.evals[k], worst, "records", f"worst of objective {k}")
        if single:
            ctx.same(st["best_eval"], best, "records", "best_eval")
    ctx.event("records_compared")


@scenario("C02", quick=150, thorough=3000, ray="local", needs=["evaluations_in_several_pieces", "fewer_solutions_than_workers", "pieces_observed", "records_compared", "restarted", "copied", "sync_round", "hooks_counted"])
def histories(ctx):
    """random histories of parallel evaluations"""
    LOG.clear()
    FAIL.clear()
    info, build = make(ctx)
    ctx.note(*[f"{k}={v}" for k, v in info.items() if k != "obj"])
    p = build()
    seq = build(parallel=False)
    counts = {"before": 0, "after": 0}
    p.before_eval_hook.append(before_of(counts))
    p.after_eval_hook.append(after_of(counts))
    hist = []
    sub = info["kind"] not in ("fn", "vfn")
    evaluated_since_start = 0
    rounds = 0
    done = 0
    for step in range(ctx.randint(1, 4)):
        vals = values(ctx, info, ctx.choice([1, 2, 3, 5, 8, 13, 20]))
        b = fill(p, info, vals)
        LOG.clear()
        if len(vals) == 1 and ctx.flip():
            p.evaluate(b[0])
            ctx.event("single_solution")
        else:
            p.evaluate(b)
        done += 1
        rounds += 1
        ctx.note("evaluate", len(vals))
        monitor(ctx, info, p, b, vals, f"in step {step}")
        evaluated_since_start += len(vals)
        hist.extend(expected(info, vals).tolist())
        known_best(ctx, info, p, hist)
        ctx.check(counts["before"] == done and counts["after"] == done, "hooks", f"hooks called {counts} times in {done} evaluations")
        ctx.check(p.status["mine"] == done and p.status["n"] == len(vals), "hooks", f"status {p.status.get('mine')}, {p.status.get('n')}")
        ctx.event("hooks_counted")
        ctx.check(p.is_main and p.actor_index is None and len(p.actors) == info["workers"] and p.num_actors == info["workers"], "main", f"{p.is_main} {p.actor_index} {p.actors}")
        # the same in the main process
        LOG.clear()
        bs = fill(seq, info, vals)
        seq.evaluate(bs)
        ctx.same(b.evals, to_np(bs.evals), "evals", "parallel results against sequential ones")
        if sub:
            who = p.all_remote_problems().whoami(step, b=2)
            ctx.check(who == [(i, True, False, step + 2) for i in range(info["workers"])], "broadcast", f"replies {who}")
            infos = p.all_remote_problems().info()
            ctx.check(sum(i[2] for i in infos) == evaluated_since_start, "workers_count", f"workers counted {[i[2] for i in infos]}, evaluated {evaluated_since_start}")
            for prepared, table, count, _ in infos:
                ctx.check(prepared <= 1, "prepared", f"a worker was prepared {prepared} times")
            if info["sync"] != "none":
                rec = p.got[-1]
                ctx.check([r["worker"] for r in rec] == list(range(info["workers"])), "sync", f"received {rec}")
                ctx.check(sum(r["count"] for r in rec) == evaluated_since_start, "sync", f"received {rec}, evaluated {evaluated_since_start}")
                want = None if info["sync"] == "up" else p.version % 2 if info["sync"] == "number" else p.version
                ctx.check(all(r["version"] == want for r in rec), "sync", f"received {rec}, the main process sent version {want}")
                ctx.check(len(p.got) == rounds, "sync", f"{len(p.got)} synchronisations in {rounds} evaluations")
                ctx.event("sync_round")
            else:
                ctx.check(not p.got, "sync", "synchronised although not requested")
        # what happens in between
        act = ctx.choice(["", "", "restart", "copy"])
        ctx.note(act)
        if act == "restart":
            p.kill_actors()
            ctx.check(p.actors is None, "kill", "actors remain")
            evaluated_since_start = p.count if sub else 0
            evaluated_since_start *= info["workers"]
            ctx.event("restarted")
        elif act == "copy":
            how = ctx.choice(["clone", "pickle", "deepcopy"])
            if sub:
                before_counts = [i[2] for i in p.all_remote_problems().info()]
            p2 = p.clone() if how == "clone" else copy.deepcopy(p) if how == "deepcopy" else pickle.loads(_dumps(p)) if how == "pickle" else None
            ctx.check(p2.actors is None and p2.num_actors == info["workers"], "copy", "a copy has its own workers")
            old, p = p, p2
            if sub:
                # the states of the workers travel with the copy
                loaded = [i[3] for i in p.all_remote_problems().info()]
                ctx.check(loaded == [{"count": c, "worker": i} for i, c in enumerate(before_counts)], "copied_state", f"new workers loaded {loaded}, old ones counted {before_counts}")
                ctx.event("worker_states_restored")
            # the hooks of a copy made by pickle/clone refer to copies of the functions; start afresh
            p.before_eval_hook.clear()
            p.after_eval_hook.clear()
            counts = {"before": 0, "after": 0}
            done = 0
            p.before_eval_hook.append(before_of(counts))
            p.after_eval_hook.append(after_of(counts))
            ctx.event("copied")
            if ctx.flip():
                old.kill_actors()
    if p.actors is not None:
        p.kill_actors()
    ctx.sample(**{k: v for k, v in info.items() if k != "obj"}, steps=rounds)


def before_of(counts):
    def before(batch):
        counts["before"] += 1

    return before


def after_of(counts):
    def after(batch):
        counts["after"] += 1
        return {"mine": counts["after"], "n": len(batch)}

    return after


def _dumps(p):
    """hooks defined inside of functions do not pickle; they are not part of what is compared"""
    b, a = list(p.before_eval_hook), list(p.after_eval_hook)
    p.before_eval_hook.clear()
    p.after_eval_hook.clear()
    try:
        return pickle.dumps(p)
    finally:
        p.before_eval_hook.extend(b)
        p.after_eval_hook.extend(a)


@scenario("C02", quick=60, thorough=1200, ray="local", needs=["failure_surfaced", "recovered", "several_pieces_failed"])
def failures(ctx):
    """objectives which fail for some solutions"""
    LOG.clear()
    FAIL.clear()
    info, build = make(ctx)
    ctx.note(*[f"{k}={v}" for k, v in info.items() if k != "obj"])
    p = build()
    for step in range(ctx.randint(1, 3)):
        vals = values(ctx, info, ctx.choice([2, 3, 5, 8, 13]))
        bad = ctx.np.choice(len(vals), size=ctx.randint(1, min(len(vals), 5)), replace=False)
        b = fill(p, info, vals)
        FAIL.clear()
        FAIL.update(float(vals[i][0]) for i in bad)
        LOG.clear()
        exp = expected(info, vals)
        try:
            p.evaluate(b)
        except Exception as e:
            ctx.check("objective failed" in str(e), "error", lambda: f"the failing objective surfaced as {type(e).__name__}: {e}")
        else:
            ctx.fail("swallowed", "the objective failed, but the evaluation ended without an error")
        ctx.event("failure_surfaced")
        if len({i for i, (_, rows) in enumerate(LOG) if any(r[0] in FAIL for r in rows)}) > 1:
            ctx.event("several_pieces_failed")
        got = to_np(b.evals).astype(np.float64)
        for i in range(len(vals)):
            nan = np.isnan(got[i])
            ctx.check(nan.all() or np.array_equal(got[i], exp[i]), "partial", lambda: f"after the failure, row {i} with values {vals[i]} has {got[i]}, expected nothing or {exp[i]}")
            if float(vals[i][0]) in FAIL:
                ctx.check(nan.all(), "partial", lambda: f"row {i} failed but has {got[i]}")
        FAIL.clear()
        # evaluating again works and is right, for the same and for new solutions
        for again in range(ctx.randint(1, 2)):
            LOG.clear()
            if ctx.flip():
                vals = values(ctx, info, ctx.choice([1, 4, 9]))
                b = fill(p, info, vals)
            p.evaluate(b)
            monitor(ctx, info, p, b, vals, f"after the failure in step {step}")
            ctx.event("recovered")
    p.kill_actors()


@scenario("C02", quick=40, thorough=600, ray="local", needs=["seeds_compared"])
def seeds(ctx):
    """workers of equally seeded problems get the same distinct seeds; the main problem's own stream is kept"""
    info, build = make(ctx, force_kind=ctx.choice(["row", "batch"]))
    seed = ctx.randint(0, 10**6)
    a, b, c = build(seed=seed), build(seed=seed), build(seed=seed + 1 + ctx.randint(0, 100))
    ra = [tuple(x) for x in a.all_remote_problems().draws()]
    torch.manual_seed(ctx.randint(0, 10**6))
    rb = [tuple(x) for x in b.all_remote_problems().draws()]
    rc = [tuple(x) for x in c.all_remote_problems().draws()]
    ctx.check(ra == rb, "reproducible", lambda: f"workers of two problems with seed {seed} draw {ra} and {rb}")
    ctx.check(len(set(ra)) == info["workers"], "distinct", lambda: f"workers draw {ra}")
    if info["dtype"] != "uint8":  # seeds of the workers are drawn with the problem's data type
        ctx.check(not (set(ra) & set(rc)), "distinct", lambda: f"workers of problems with different seeds draw {ra} and {rc}")
    own = tuple(a.draws())
    ctx.check(own not in set(ra), "distinct", lambda: f"the main problem draws like a worker: {own}")
    ctx.check(own == tuple(b.draws()), "reproducible", "the main problems draw differently")
    ctx.state(info["workers"], info["dtype"])
    ctx.event("seeds_compared")
    for q in (a, b, c):
        q.kill_actors()


class Real(Problem):
    """objective whose duration depends on the row, so that the pieces finish out of order"""

    def __init__(self, w, **kw):
        super().__init__("max", solution_length=3, bounds=(0, 40), eval_data_length=2, **kw)
        self.w = w
        self.count = 0

    def _evaluate_batch(self, batch):
        x = torch.as_tensor(to_np(batch.values).astype(np.float64))
        time.sleep(0.004 * float(x[0, 0]))
        if (x[:, 0] == 1000).any():
            raise RuntimeError("objective failed here")
        self.count += len(batch)
        pid = torch.full((len(batch), 1), float(self.actor_index))
        batch.set_evals((x * self.w).sum(dim=-1), torch.hstack([pid, 2 * x[:, 1:2]]))

    def draws(self):
        return (random.random(), float(np.random.rand()), float(torch.rand(())), os.getpid(), [int(v) for v in self.make_randint((4,), n=1_000_000, dtype="int64")])

    def counted(self):
        return self.count


@scenario("C02", quick=1, thorough=10, ray=True, hang=500, needs=["real_evaluations", "several_workers_used", "real_failure", "real_seeds"])
def processes(ctx):
    """real worker processes with uneven durations"""
    workers = ctx.randint(2, 4) if ctx.tier == "thorough" else 2
    w = torch.as_tensor(ctx.np.integers(-5, 6, size=3).astype(np.float64))
    seed = ctx.randint(0, 10**6)
    kw = ctx.choice([{}, {"num_subbatches": ctx.randint(2, 9)}, {"subbatch_size": ctx.randint(1, 5)}])
    p = Real(w, num_actors=workers, seed=seed, dtype=ctx.choice(["float32", "int64", "float64"]), **kw)
    first = p.all_remote_problems().draws()
    total = 0
    for step in range(ctx.randint(3, 5)):
        n = ctx.choice([7, 20, 33]) if step < 2 else ctx.choice([1, 2, 7, 20, 33])
        vals = ctx.np.integers(0, 41, size=(n, 3))
        b = p.generate_batch(n)
        b.set_values(torch.as_tensor(vals).to(p.dtype))
        if step == 1:
            broken = vals.copy()
            broken[ctx.np.choice(n, size=5, replace=False), 0] = 1000
            b.set_values(torch.as_tensor(broken).to(p.dtype))
            total = None
            try:
                p.evaluate(b)
            except Exception as e:
                ctx.check("objective failed here" in str(e), "error", lambda: f"the failing objective surfaced as {type(e).__name__}: {e}")
            else:
                ctx.fail("swallowed", "the objective failed, but the evaluation ended without an error")
            ctx.event("real_failure")
            b.set_values(torch.as_tensor(vals).to(p.dtype))
        p.evaluate(b)
        ctx.same(b.evals[:, 0], (vals * to_np(w)).sum(-1), "evals", f"results of step {step}")
        ctx.same(b.evals[:, 2], 2 * vals[:, 1], "evals", f"data of step {step}")
        used = set(to_np(b.evals[:, 1]).astype(int).tolist())
        ctx.check(used <= set(range(workers)), "worker_index", f"workers {used}")
        if len(used) > 1:
            ctx.event("several_workers_used")
        ctx.event("real_evaluations")
        ctx.state(workers, str(kw), n, len(used))
        if total is not None:
            total += n
            ctx.check(sum(p.all_remote_problems().counted()) == total, "sent_once", lambda: f"workers counted {p.all_remote_problems().counted()}, evaluated {total}")
    for k, name in [(0, "random"), (1, "numpy"), (2, "torch"), (3, "process"), (4, "problem")]:
        got = [str(d[k]) for d in first]
        ctx.check(len(set(got)) == workers, "distinct", lambda: f"{name} of the workers: {got}")
    p.kill_actors()
    q = Real(w, num_actors=workers, seed=seed, dtype=p.dtype, **kw)
    dp = [(d[0], d[1], d[2], tuple(d[4])) for d in first]
    dq = [(d[0], d[1], d[2], tuple(d[4])) for d in q.all_remote_problems().draws()]
    ctx.check(dp == dq, "reproducible", lambda: f"workers of equally seeded problems draw {dp} and {dq}")
    ctx.event("real_seeds")
    q.kill_actors()
    ctx.sample(workers=workers, split=str(kw), seeds=dq[0])
