"""C32: batching decorators equal an explicit loop."""

import itertools

import numpy as np
import torch
from evotorch import decorators
from evotorch.decorators import expects_ndim, on_aux_device, on_device, pass_info, rowwise, vectorized

from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C32", "A case is one decorated function called with one combination of batch shapes (right-aligned, equal sizes), compared with an explicit loop.")
ASSUMPTIONS = ["batch dimensions of different arguments have equal sizes where both have the dimension (vmap does not stretch dimensions of size 1)"]


def _f_scalar(a, b):
    return a * 2 + torch.sin(b)


def _f_vec(a, b):
    return torch.sum(a * b) + a


def _f_vs(a, s):
    return torch.cumsum(a, dim=-1) * s


def _f_mat(m, v):
    return m @ v


def _f_mat2(m, v, s):
    return (m @ v) / (1 + s**2), torch.norm(v) * s


def _f_three(a, b, c):
    return torch.where(a > b, a - c, b + c)


def _f_none(a, name, b):
    return a + b if name == "plus" else a - b


FUNCS = {
    "scalar": (_f_scalar, (0, 0)),
    "vec": (_f_vec, (1, 1)),
    "vs": (_f_vs, (1, 0)),
    "mat": (_f_mat, (2, 1)),
    "mat2": (_f_mat2, (2, 1, 0)),
    "three": (_f_three, (1, 1, 1)),
    "none": (_f_none, (1, None, 1)),
}


def _loop(fn, ndims, args):
    """explicit loop over all batch items, right-aligned broadcasting of the batch dimensions"""
    leads = [() if nd is None else tuple(a.shape[: a.ndim - nd]) for a, nd in zip(args, ndims)]
    full = np.broadcast_shapes(*leads)
    cells = {}
    for idx in itertools.product(*[range(s) for s in full]):
        cur = []
        for a, nd, ld in zip(args, ndims, leads):
            cur.append(a if nd is None else a[idx[len(full) - len(ld) :]] if ld else a)
        cells[idx] = fn(*cur)
    return full, cells


@scenario("C32", quick=1500, thorough=40000, needs=["batched_2d", "partially_batched", "scalar_converted", "numpy_converted", "tuple_result"])
def expects_ndim_equals_loop(ctx):
    name = ctx.choice(sorted(FUNCS))
    fn, ndims = FUNCS[name]
    dtype = ctx.choice([torch.float32, torch.float64])
    full = ctx.choice([(), (3,), (2, 3), (2, 2), (1,), (2, 1, 3)])
    n, m = ctx.randint(1, 4), ctx.randint(1, 3)
    args, leads = [], []
    for i, nd in enumerate(ndims):
        if nd is None:
            args.append(ctx.choice(["plus", "minus"]))
            leads.append(())
            continue
        ld = full[ctx.randint(0, len(full)) :]
        own = {0: (), 1: (n,), 2: (m, n)}[nd]
        args.append(torch.tensor(ctx.np.normal(size=ld + own), dtype=dtype))
        leads.append(ld)
    if len(set(leads)) > 1:
        ctx.event("partially_batched")
    if max(len(x) for x in leads) >= 2:
        ctx.event("batched_2d")
    style = ctx.choice(["deco", "call"])
    dec = expects_ndim(*ndims)(fn) if style == "deco" else expects_ndim(fn, ndims)
    ctx.state(name, style, tuple(leads), n, m, str(dtype))
    call = list(args)
    # scalars and arrays are converted
    for i, nd in enumerate(ndims):
        if nd == 0 and leads[i] == () and ctx.flip(0.4) and any(isinstance(a, torch.Tensor) for k, a in enumerate(call) if k != i):
            call[i] = float(args[i])
            args[i] = torch.tensor(call[i], dtype=dtype)
            ctx.event("scalar_converted")
        elif nd is not None and ctx.flip(0.1) and not any(isinstance(c, float) for c in call):
            call[i] = args[i].numpy().copy()
            ctx.event("numpy_converted")
            if ctx.flip():
                break
    if any(isinstance(c, float) for c in call) and not any(isinstance(c, torch.Tensor) for c in call):
        call = list(args)
    with Frozen(ctx, "argument-modified", **{f"a{i}": a for i, a in enumerate(args) if isinstance(a, torch.Tensor)}):
        got = dec(*call)
    fullb, cells = _loop(fn, ndims, args)
    if isinstance(got, tuple):
        ctx.event("tuple_result")
    outs = got if isinstance(got, tuple) else (got,)
    for idx, exp in cells.items():
        exps = exp if isinstance(exp, tuple) else (exp,)
        ctx.check(len(exps) == len(outs), "tuple-length", "")
        for o, e in zip(outs, exps):
            ctx.check(tuple(o.shape) == tuple(fullb) + tuple(e.shape), f"shape:{name}", f"{tuple(o.shape)} for batch {fullb}")
            ctx.close(o[idx], e, f"value:{name}", f"batch item {idx}, batch shapes {leads}", rtol=1e-4, atol=1e-5)
    # too few dimensions
    big = [i for i, nd in enumerate(ndims) if nd is not None and nd >= 1]
    if big:
        i = ctx.choice(big)
        bad = list(args)
        bad[i] = torch.zeros((1,) * (ndims[i] - 1), dtype=dtype)
        ctx.raises(ValueError, lambda: dec(*bad), "too-few-dims-accepted", f"argument {i}")
    ctx.sample(function=name, batch=leads, n=n)


def _row(x):
    return torch.sum(x * torch.arange(1, x.shape[-1] + 1, dtype=x.dtype))


def _row_vec(x):
    return torch.stack([x.max(), x.min() * 2])


@scenario("C32", quick=400, thorough=8000, needs=["rowwise_matrix", "rowwise_nested"])
def rowwise_equals_loop(ctx):
    n = ctx.randint(1, 5)
    lead = ctx.choice([(), (4,), (1,), (2, 3), (2, 2, 2), (6,)])
    f = ctx.choice([_row, _row_vec])
    dec = ctx.choice([lambda g: rowwise(g), lambda g: rowwise()(g)])(f)
    x = torch.tensor(ctx.np.normal(size=lead + (n,)), dtype=ctx.choice([torch.float32, torch.float64]))
    ctx.event("rowwise_matrix" if len(lead) == 1 else "rowwise_nested")
    ctx.state(lead, n, f.__name__)
    with Frozen(ctx, "argument-modified", x=x):
        got = dec(x)
    for idx in itertools.product(*[range(s) for s in lead]):
        ctx.close(got[idx], f(x[idx]), "rowwise-value", f"row {idx}", rtol=1e-4, atol=1e-5)
    ctx.check(tuple(got.shape[: len(lead)]) == lead, "rowwise-shape", str(got.shape))
    ctx.check(getattr(dec, "__evotorch_vectorized__", False) is True, "rowwise-not-marked-vectorized", "")
    ctx.raises(ValueError, lambda: dec(torch.tensor(1.0)), "rowwise-scalar-accepted", "")


@scenario("C32", quick=300, thorough=5000)
def random_rows(ctx):
    """randomness: 'different' gives each batch item its own noise, 'same' one noise for all, 'error' refuses"""
    n, b = ctx.randint(3, 6), ctx.randint(2, 5)

    def noisy(x):
        return x + torch.randn_like(x)

    x = torch.zeros(b, n)
    kind = ctx.choice(["different", "same", "error"])
    via = ctx.choice(["rowwise", "expects"])
    dec = rowwise(randomness=kind)(noisy) if via == "rowwise" else expects_ndim(1, randomness=kind)(noisy)
    ctx.state(kind, via, n, b)
    if kind == "error":
        ctx.raises(RuntimeError, lambda: dec(x), "randomness-error", "")
        return
    y = dec(x)
    if kind == "same":
        ctx.same(y, y[:1].expand(b, n), "randomness-same", "")
    else:
        for i in range(b):
            for j in range(i):
                ctx.check(not torch.equal(y[i], y[j]), "randomness-different", f"rows {i} and {j} share their noise")


@scenario("C32", quick=200, thorough=3000)
def marks_change_nothing_else(ctx):
    calls = []

    def f(x, k=1):
        calls.append((x, k))
        return x * k

    kind = ctx.choice(["vectorized", "on_device", "on_aux_device", "pass_info", "on_cuda"])
    if kind == "vectorized":
        g = ctx.choice([lambda h: vectorized(h), lambda h: vectorized()(h)])(f)
        ctx.check(g.__evotorch_vectorized__ is True, "mark", kind)
    elif kind == "on_device":
        g = on_device("cpu")(f)
        ctx.check(torch.device(g.__evotorch_on_device__ if not isinstance(g.__evotorch_on_device__, bool) else g.device) == torch.device("cpu"), "mark", kind)
    elif kind == "on_aux_device":
        g = ctx.choice([lambda h: on_aux_device(h), lambda h: on_aux_device()(h)])(f)
        ctx.check(g.__evotorch_on_aux_device__ is True, "mark", kind)
    elif kind == "pass_info":
        g = ctx.choice([lambda h: pass_info(h), lambda h: pass_info()(h)])(f)
        ctx.check(g.__evotorch_pass_info__ is True, "mark", kind)
    else:
        g = ctx.choice([lambda h: decorators.on_cuda(h), lambda h: decorators.on_cuda(0)(h)])(f)
    ctx.state(kind)
    v = ctx.randint(-5, 5)
    k = ctx.randint(1, 4)
    ctx.check(g(v, k=k) == v * k and calls == [(v, k)], "mark-changed-call", kind)


@scenario("C32", quick=250, thorough=5000, needs=["scalar_dtype", "bool_scalar", "array_dtype", "ambiguous", "not_considered", "smaller_allowed"])
def what_the_function_receives(ctx):
    dtype = ctx.choice([torch.float16, torch.bfloat16, torch.float32, torch.float64, torch.int64, torch.int32])
    lead = ctx.choice([(), (3,), (2, 3)])
    n = ctx.randint(1, 4)
    x = torch.tensor(ctx.np.integers(-5, 6, size=lead + (n,)), dtype=dtype)
    seen = []

    def fn(*args):
        seen.append(args)
        return args[-1] + 0 if args[-1].dtype != torch.bool else args[-1] | False

    fractional = dtype.is_floating_point
    s = ctx.choice([ctx.randint(-4, 4), np.int64(3), np.int32(2)] + ([1.5, -0.25, np.float32(0.5), np.float64(2.5)] if fractional else []))
    first = ctx.flip()

    def given(*args):
        return args[::-1] if first else args

    def call(ndims, *args, **kw):
        seen.clear()
        expects_ndim(*given(*ndims), **kw)(fn)(*given(*args))
        return given(*seen[-1])

    ctx.event("scalar_dtype")
    rx, rs = call((1, 0), x, s)
    ctx.check(rs.dtype == dtype and rs.ndim == 0 and float(rs) == float(s) and rx.dtype == dtype and tuple(rx.shape) == (n,), "scalar-dtype", f"scalar {s!r} arrived as {rs.dtype}, next to {dtype}")
    ctx.event("bool_scalar")
    b = ctx.choice([True, False, np.bool_(True), np.bool_(False)])
    _, rb = call((1, 0), x, b)
    ctx.check(rb.dtype == torch.bool and bool(rb) == bool(b), "bool-scalar", f"{b!r} arrived as {rb.dtype}")
    ctx.event("array_dtype")
    a = np.array(ctx.np.integers(0, 5, size=lead + (2,)), dtype=ctx.choice(["float32", "float64", "int64", "bool"]))
    _, ra = call((1, 1), x, a)
    ctx.check(str(ra.dtype) == f"torch.{a.dtype}" and tuple(ra.shape) == (2,), "array-dtype", f"{a.dtype} arrived as {ra.dtype}")
    ctx.event("ambiguous")
    other = torch.float64 if dtype != torch.float64 else torch.float32
    ctx.raises(TypeError, lambda: expects_ndim(1, 0, 1)(fn)(x, s, x.to(other)), "ambiguous-dtype-accepted", "")
    ctx.raises(TypeError, lambda: expects_ndim(0)(fn)(s), "scalar-alone-accepted", "")
    ctx.raises(TypeError, lambda: expects_ndim(1, 1)(fn)(x, [1.0]), "list-accepted", "")
    ctx.event("not_considered")
    thing = ctx.choice(["word", [1, 2], None, 2.5, torch.zeros((2, 2), dtype=other)])
    seen.clear()
    expects_ndim(1, None, 0)(lambda v, t, w: seen.append((v, t, w)) or v)(x, thing, s)
    ctx.check(torch.is_tensor(thing) or seen[-1][1] == thing, "untouched-argument", f"{seen[-1][1]!r}")
    ctx.check(seen[-1][2].dtype == dtype, "scalar-dtype-besides-ignored-tensor", f"{seen[-1][2].dtype}, expected {dtype}")
    ctx.event("smaller_allowed")
    (r,) = (expects_ndim(2, allow_smaller_ndim=True)(lambda v: v + 0)(x[(0,) * len(lead)]),)
    ctx.check(tuple(r.shape) == (n,), "smaller-dimensionality", f"{tuple(r.shape)}")
    ctx.raises(ValueError, lambda: expects_ndim(2)(lambda v: v + 0)(x[(0,) * len(lead)]), "smaller-accepted", "")
    ctx.state(str(dtype), lead, type(s).__name__, str(a.dtype), first)
    ctx.sample(dtype=str(dtype), scalar=repr(s), lead=list(lead))
