"""C04: batches slice, pick, split, join and copy without losing row identity."""

import torch
from evotorch import Problem, SolutionBatch

from vmon.batchmodel import World
from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C04", "A case is one random history of slicing, picking, splitting, joining, copying and writing over populations.")
ASSUMPTIONS = ["slices have positive steps (torch has no negative ones)"]

W = {"evaluate": 2, "set_values": 1, "solution_set_values": 2, "access_values": 1, "peek": 0.5, "set_evals": 2, "forget": 0.5, "slice": 4, "pick": 3, "solution_view": 2, "join": 3, "copy": 3, "split": 3}


@scenario("C04", quick=600, thorough=15000, needs=["slice", "pick:list", "pick:tensor", "pick:mask", "pick:numpy", "solution_view", "solution_clone", "join", "copy:clone", "copy:deepcopy", "copy:pickle", "split", "object_dtype"])
def histories(ctx):
    w = World(ctx)
    w.fresh()
    w.fresh()
    ctx.state(w.nobj, w.ndata, str(w.dtype), str(w.eval_dtype))
    if w.obj:
        ctx.event("object_dtype")
    for t in range(ctx.randint(5, 25)):
        if ctx.flip(0.1):
            w.fresh()
        op = w.step(W)
        w.check_lengths_and_values(op)
        w.check_evals(op)
    for h in w.handles:
        if not w.obj:
            ctx.check(h.real.solution_length == w.n and h.real.dtype == w.dtype and h.real.eval_dtype == w.eval_dtype, "attributes", f"{h.what}")
        ctx.check(list(h.real.senses) == list(w.problem.senses), "senses", f"{h.what}: {h.real.senses}")
    ctx.sample(nobj=w.nobj, dtype=str(w.dtype), batches=[h.what for h in w.handles])


@scenario("C04", quick=200, thorough=3000, needs=["rejected_index", "iterated", "like"])
def boundaries(ctx):
    n = ctx.randint(1, 6)
    p = Problem(ctx.choice(["min", ["max", "min"]]), lambda x: x.sum(), solution_length=2, initial_bounds=(-9, 9), eval_data_length=ctx.choice([0, 2]))
    nobj = len(p.senses)
    b = p.generate_batch(n)
    b.set_evals(torch.tensor(ctx.np.normal(size=(n, nobj)), dtype=torch.float32))
    for i in (n, n + 1, -n - 1, n + 7):
        ctx.raises(IndexError, lambda: b[i], "index-accepted", f"solution {i} of {n}")
        ctx.event("rejected_index")
    for k in (nobj, nobj + 1, -nobj - 1):
        for f in (b.argsort, b.argbest, b.argworst, b.access_evals, b.utility):
            ctx.raises(IndexError, lambda: f(k), "objective-index-accepted", f"objective {k} of {nobj} in {f.__name__}")
    ctx.raises(ValueError, lambda: b.split(), "split-without-size", "")
    ctx.raises(ValueError, lambda: b.split(2, max_size=2), "split-with-two-sizes", "")
    ctx.raises(TypeError, lambda: SolutionBatch.cat([b, 3]), "cat-accepted", "")
    ctx.raises(TypeError, lambda: b.take(1), "take-accepted", "")
    seen = list(b)
    ctx.event("iterated")
    ctx.check(len(seen) == n, "iteration", f"{len(seen)} solutions in a batch of {n}")
    for i, s in enumerate(seen):
        ctx.same(s.values, b.values[i], "iteration-values", f"solution {i}")
        ctx.same(s.evals, b.evals[i], "iteration-evals", f"solution {i}")
        ctx.check(len(s) == 2 and tuple(s.shape) == (2,), "solution-shape", "")
        ctx.check([float(v) for v in s] == [float(v) for v in b.values[i]] and [float(v) for v in reversed(s)] == [float(v) for v in b.values[i]][::-1], "solution-iteration", "")
        ctx.check(float(s[1]) == float(b.values[i, 1]), "solution-item", "")
    # a batch made like another one
    m = ctx.choice([None, ctx.randint(1, 9)])
    kw = {} if m is None else {"popsize": m}
    m = n if m is None else m
    e = SolutionBatch(like=b, empty=True, **kw)
    ctx.event("like")
    ctx.check(len(e) == m and e.values.shape == (m, 2) and e.dtype == b.dtype and list(e.senses) == list(b.senses), "like-empty", f"{len(e)}, expected {m}")
    ctx.check(bool(torch.all(torch.isnan(e.evals))), "like-evaluated", "an empty batch claims evaluation results")
    f = SolutionBatch(p, like=b, **kw)
    ctx.check(len(f) == m and bool(torch.all(torch.isnan(f.evals))), "like-filled", "")
    v = to_np(f.values)
    ctx.check(bool(((v >= -9) & (v <= 9)).all()), "like-filled-range", f"{v}")
    e.set_values(torch.zeros(m, 2))
    ctx.check(float(b.values.abs().sum()) > 0, "like-shares", "")
    ctx.check(b.to("cpu") is b or to_np(b.to("cpu").values).tolist() == to_np(b.values).tolist(), "to-cpu", "")
    ctx.state(n, nobj, m)
    ctx.sample(n=n, nobj=nobj)
