"""C03: changing decision values always discards the stored fitness."""

import torch
from evotorch import Problem

from vmon.batchmodel import World
from vmon.engine import rule, scenario

rule("C03", "A case is one random history of reads, writes, evaluations and views over populations sharing storage.")
ASSUMPTIONS = [
    "`access_values(keep_evals=True)` is an explicit request to keep the results and is only used for reading",
    "a writable tensor obtained earlier is not used for writing after a later evaluation",
]

W = {"evaluate": 4, "set_values": 3, "solution_set_values": 2, "access_values": 3, "peek": 2, "set_evals": 1, "forget": 1, "slice": 2, "pick": 1, "solution_view": 1, "join": 1, "copy": 1, "split": 1}


@scenario("C03", quick=600, thorough=15000, needs=["evaluate", "set_values:all", "set_values:slice", "set_values:list", "set_values:mask", "solution_set_values", "access_values", "access_values:solution", "peek", "forget_evals", "object_dtype", "multi_objective"])
def histories(ctx):
    w = World(ctx)
    w.fresh()
    ctx.state(w.nobj, w.ndata, str(w.dtype), str(w.eval_dtype))
    if w.obj:
        ctx.event("object_dtype")
    if w.nobj > 1:
        ctx.event("multi_objective")
    for t in range(ctx.randint(5, 25)):
        if t and ctx.flip(0.05):
            w.fresh()
        op = w.step(W)
        w.check_evals(op)
        w.check_lengths_and_values(op)
        if t % 5 == 0:
            w.check_evaluated_flags(op)
    w.check_evaluated_flags("end")
    ctx.sample(nobj=w.nobj, ndata=w.ndata, dtype=str(w.dtype), batches=len(w.handles))


@scenario("C03", quick=150, thorough=3000, needs=["partial"])
def partially_known(ctx):
    """evaluated means: every objective known, whatever the extra data"""
    nobj, ndata = ctx.randint(1, 3), ctx.randint(0, 2)
    p = Problem(["min"] * nobj, lambda x: x, solution_length=2, initial_bounds=(-1, 1), eval_data_length=ndata)
    b = p.generate_batch(3)
    row = torch.tensor(ctx.np.normal(size=nobj + ndata), dtype=torch.float32)
    mask = torch.tensor(ctx.np.integers(0, 2, size=nobj + ndata).astype(bool))
    row[mask] = float("nan")
    i = ctx.randint(0, 2)
    ctx.check(not any(s.is_evaluated for s in b), "fresh-evaluated", "a new population claims to be evaluated")
    b[i].set_evals(row)
    ctx.event("partial")
    for j in range(3):
        exp = j == i and not bool(mask[:nobj].any())
        ctx.check(b[j].is_evaluated == exp, "is-evaluated", f"row {j}, evaluations {b.evals[j]}")
    if bool(mask[:nobj].any()):
        ctx.raises(ValueError, lambda: b.utility(0) if nobj == 1 else b.utils(), "utility-of-unevaluated", "")
    ctx.state(nobj, ndata, tuple(mask.tolist()))
    ctx.sample(nobj=nobj, ndata=ndata)
