"""C24: batched containers behave like independent Python containers."""

import itertools

import torch
from evotorch import Problem
from evotorch.tools.structures import CBag, CDict, CList, CMemory

from vmon.engine import rule, scenario

rule(
    "C24",
    "A case is one random operation history on one batched container, compared after each operation with one plain Python container per batch item.",
)

DTYPES = {"float32": torch.float32, "float64": torch.float64, "int64": torch.int64, "int32": torch.int32, "bool": torch.bool}


def _batch_shape(ctx):
    return ctx.choice([(), (1,), (3,), (4,), (2, 2), (3, 3), (2, 3), (1, 2), (2, 1, 3), (2, 2, 2)])


def _cells(bs):
    return list(itertools.product(*[range(n) for n in bs]))


def _value(ctx, dtype, shape):
    """integer-valued contents, so that float arithmetic is exact"""
    n = 1
    for s in shape:
        n *= s
    if dtype is torch.bool:
        v = [ctx.flip() for _ in range(n)]
    else:
        v = [ctx.randint(-9, 9) for _ in range(n)]
    return torch.tensor(v, dtype=dtype).reshape(shape)


def _as_arg(ctx, t):
    """hand over a tensor, a list or a numpy array"""
    k = ctx.randint(0, 3)
    if k == 0:
        return t.tolist()
    if k == 1:
        return t.numpy().copy()
    return t


def _make_value(ctx, dtype, bs, vs):
    """-> (argument, function cell -> tensor)"""
    mode = ctx.randint(0, 2)
    if mode == 0:
        v = _value(ctx, dtype, ())
        return v.item() if ctx.flip() else v, (lambda c: v.expand(vs))
    if mode == 1:
        v = _value(ctx, dtype, vs)
        if v.shape == torch.Size(bs + vs):
            return _as_arg(ctx, v), (lambda c: v[c])
        return _as_arg(ctx, v), (lambda c: v)
    v = _value(ctx, dtype, bs + vs)
    return _as_arg(ctx, v), (lambda c: v[c])


def _divisor(ctx, dtype, bs, vs):
    """like _make_value, but none is zero"""
    choices = [1.0, 2.0, -2.0, 4.0, 0.5]
    shape = ctx.choice([(), vs, bs + vs])
    v = torch.tensor(ctx.np.choice(choices, size=shape), dtype=dtype)
    arg = v.item() if shape == () and ctx.flip() else _as_arg(ctx, v)
    return arg, ((lambda c: v[c]) if shape == bs + vs else (lambda c: v.expand(vs)))


def _make_where(ctx, bs):
    k = ctx.randint(0, 3)
    if k == 0:
        return None, (lambda c: True)
    n = len(_cells(bs))
    w = torch.tensor([ctx.flip(0.6) for _ in range(n)], dtype=torch.bool).reshape(bs)
    if k == 1 and ctx.flip(0.2):
        w = torch.zeros_like(w)
    return (w if ctx.flip(0.7) else w.tolist()), (lambda c: bool(w[c]))


class _Model:
    """per batch item: dict key -> tensor"""

    def __init__(self, bs, keys, fill):
        self.d = {c: {k: fill.clone() for k in keys} for c in _cells(bs)}


def _arith(op, old, v, dtype):
    if op == "add_":
        return old | v if dtype is torch.bool else old + v
    if op == "subtract_":
        return old - v
    if op == "multiply_":
        return old & v if dtype is torch.bool else old * v
    if op == "divide_":
        return old / v
    if op == "set_":
        return v.clone()
    raise AssertionError(op)


def _norm(t, dtype):
    """keep the contents in a range where everything is exact"""
    return t


def _key_setup(ctx):
    if ctx.flip(0.6):
        nk = ctx.randint(1, 5)
        off = ctx.choice([None, None, 1, -2, 3, 11, -20])
        keys = [i + (off or 0) for i in range(nk)]
        return nk, off, keys, False
    nk = (ctx.randint(1, 3), ctx.randint(1, 3)) if ctx.flip(0.7) else (2, 1, 2)
    off = ctx.choice([None, 1, -1, 4, -5, tuple(ctx.randint(-2, 2) for _ in nk), tuple(ctx.randint(-9, 9) for _ in nk)])
    o = [0] * len(nk) if off is None else ([off] * len(nk) if isinstance(off, int) else off)
    keys = [tuple(i + s for i, s in zip(t, o)) for t in itertools.product(*[range(n) for n in nk])]
    return nk, off, keys, True


def _bad_key(ctx, keys, multi):
    if multi:
        j = ctx.randint(0, len(keys[0]) - 1)
        k = list(keys[0])
        k[j] = (max(x[j] for x in keys) + ctx.randint(1, 3)) if ctx.flip() else (min(x[j] for x in keys) - ctx.randint(1, 3))
        return tuple(k)
    return max(keys) + ctx.randint(1, 4) if ctx.flip() else min(keys) - ctx.randint(1, 4)


def _make_key(ctx, bs, keys, kshape, active=None, bad=None):
    """-> (argument, function cell -> key, used bad key on an active cell, used bad key at all)"""
    if ctx.flip(0.35):
        k = ctx.choice(keys) if bad is None or not ctx.flip(0.3) else bad
        arg = torch.tensor(k)
        is_bad = k not in keys
        return _as_arg(ctx, arg) if ctx.flip() else k, (lambda c: k), is_bad and any(active(c) for c in _cells(bs)), is_bad
    m = {}
    hit = anybad = False
    for c in _cells(bs):
        if bad is not None and ctx.flip(0.25):
            m[c] = bad
            anybad = True
            hit = hit or active(c)
        else:
            m[c] = ctx.choice(keys)
    arg = torch.tensor([m[c] for c in _cells(bs)], dtype=torch.int64).reshape(tuple(bs) + kshape)
    return _as_arg(ctx, arg), (lambda c: m[c]), hit, anybad


def _cmp(ctx, got, bs, fn, key, what):
    for c in _cells(bs):
        ctx.same(got[c], fn(c), key, f"{what} at batch item {c}")


@scenario("C24", quick=700, thorough=20000, needs=["op_set_", "op_multiply_", "op_divide_", "op_with_list", "bad_key_rejected", "bad_key_masked_out"])
def memory_and_dict_histories(ctx):
    bs = _batch_shape(ctx)
    vs = ctx.choice([(), (), (2,), (3, 2), (1,)])
    is_dict = ctx.flip()
    dtname = ctx.choice(["float32", "float32", "float64", "int64", "int32", "bool"])
    dtype = DTYPES[dtname]
    nk, off, keys, multi = _key_setup(ctx)
    kshape = (len(nk),) if multi else ()
    verify = ctx.flip(0.75)
    kw = dict(num_keys=nk, dtype=dtname if ctx.flip() else dtype, verify=verify)
    if off is not None:
        kw["key_offset"] = off
    if bs or ctx.flip():
        kw[ctx.choice(["batch_size", "batch_shape"])] = bs if (len(bs) != 1 or ctx.flip()) else bs[0]
        if not bs:
            kw.pop("batch_size", None), kw.pop("batch_shape", None)
    size = vs if ctx.flip() else (tuple(vs),) if vs else ()
    ctx.note("CDict" if is_dict else "CMemory", "size", size, kw)
    if is_dict:
        m = CDict(*size, **kw)
        model = {c: {} for c in _cells(bs)}
        exist = {c: {k: False for k in keys} for c in _cells(bs)}
    else:
        fill = 0 if dtype is torch.bool else ctx.randint(-3, 3)
        m = CMemory(*size, fill_with=fill, **kw)
        model = {c: {k: torch.full(vs, fill, dtype=dtype) for k in keys} for c in _cells(bs)}
        exist = None
    ctx.check(m.batch_shape == torch.Size(bs) and m.value_shape == torch.Size(vs), "shape", f"{m.batch_shape} {m.value_shape}")
    ctx.check(m.is_batched == (len(bs) > 0), "is-batched", f"{m.is_batched} for batch shape {bs}")
    ctx.check(m.dtype == dtype and m.batch_ndim == len(bs) and m.value_ndim == len(vs), "meta", "dtype or dimension count")

    ops = ["set_", "set_", "add_", "multiply_", "get", "setitem"]
    if dtype is not torch.bool:
        ops += ["subtract_"]
        if dtype.is_floating_point:
            ops += ["divide_"]
        if not is_dict and not dtype.is_floating_point:
            ops += ["add_circular_"]
    if is_dict:
        ops += ["contains", "clear", "get_default"]

    if is_dict:
        for k in keys[:4]:
            got = m.contains(k)
            for c in _cells(bs):
                ctx.check(not bool(got[c]), "fresh-dict-not-empty", f"a new CDict claims to contain {k}")

    for step in range(ctx.randint(6, 18)):
        op = ctx.choice(ops)
        warg, wfn = _make_where(ctx, bs) if op in ("set_", "add_", "subtract_", "multiply_", "divide_", "add_circular_", "clear") else (None, lambda c: True)
        bad = _bad_key(ctx, keys, multi) if verify and ctx.flip(0.2) else None
        karg, kfn, hit, anybad = _make_key(ctx, bs, keys, kshape, wfn, bad)
        ctx.event("op_" + op)
        ctx.note(op, "key", karg, "where", warg)
        ctx.state(is_dict, dtname, len(bs), multi, off is not None, op, warg is None, anybad, hit, vs)
        before = m.data.clone()

        if op == "clear":
            m.clear() if warg is None else m.clear(where=warg)
            for c in _cells(bs):
                if wfn(c):
                    exist[c] = {k: False for k in keys}
        elif op in ("get", "get_default", "contains"):
            default = None
            if op == "contains":
                call = lambda: m.contains(karg)
            elif op == "get_default":
                default, dfn = _make_value(ctx, dtype, bs, vs)
                call = lambda: m.get(karg, default)
            else:
                call = (lambda: m[karg]) if ctx.flip() else (lambda: m.get(karg))
            if hit:
                ctx.raises(Exception, call, "bad-key-accepted", f"{op} with an out-of-range key")
                ctx.event("bad_key_rejected")
            else:
                got = call()
                ctx.check(tuple(got.shape) == tuple(bs) + (() if op == "contains" else vs), "result-shape", str(got.shape))
                for c in _cells(bs):
                    k = kfn(c)
                    if op == "contains":
                        ctx.check(bool(got[c]) == exist[c][k], "contains", f"item {c} key {k}: {bool(got[c])}")
                    elif op == "get_default" and not exist[c][k]:
                        ctx.same(got[c], dfn(c), "default", f"item {c} key {k}")
                    elif k in model[c]:
                        ctx.same(got[c], model[c][k], "read", f"item {c} key {k}")
        else:
            name = "set_" if op == "setitem" else op
            varg, vfn = _make_value(ctx, dtype, bs, vs)
            if op == "divide_":
                varg, vfn = _divisor(ctx, dtype, bs, vs)
            if isinstance(varg, list) and op in ("subtract_", "divide_"):
                ctx.event("op_with_list")
            if op == "setitem":
                call = lambda: m.__setitem__(karg, varg)
            elif op == "add_circular_":
                mod = ctx.randint(3, 7)
                call = lambda: m.add_circular_(karg, varg, mod, warg)
            else:
                call = lambda: getattr(m, name)(karg, varg) if warg is None else getattr(m, name)(karg, varg, warg)
            if hit:
                ctx.raises(Exception, call, "bad-key-accepted", f"{op} with an out-of-range key")
                ctx.event("bad_key_rejected")
                ctx.same(m.data, before, "changed-by-rejected-call", op)
            else:
                if anybad:
                    ctx.event("bad_key_masked_out")
                call()
                for c in _cells(bs):
                    if not wfn(c):
                        continue
                    k = kfn(c)
                    v = vfn(c).to(dtype)
                    if name == "set_":
                        model[c][k] = v.clone()
                        if is_dict:
                            exist[c][k] = True
                    elif k in model[c]:
                        if op == "add_circular_":
                            model[c][k] = torch.remainder(model[c][k] + v, torch.tensor(mod, dtype=dtype))
                        else:
                            model[c][k] = _arith(op, model[c][k], v, dtype)
                    if k in model[c] and dtype.is_floating_point:
                        if float(model[c][k].abs().max()) > 1e6:
                            # keep the values in the exact range
                            m.set_(karg, 1)
                            for c2 in _cells(bs):
                                model[c2][kfn(c2)] = torch.ones(vs, dtype=dtype)
                                if is_dict:
                                    exist[c2][kfn(c2)] = True
        # full comparison with the model
        offs = [0] * (len(nk) if multi else 1) if off is None else ([off] * (len(nk) if multi else 1) if isinstance(off, int) else list(off))
        for c in _cells(bs):
            for k, v in model[c].items():
                idx = tuple(a - b for a, b in zip(k if multi else (k,), offs))
                ctx.close(m.data[c + idx], v, "content", f"after {op}: item {c} key {k}", rtol=1e-5, atol=1e-6)
    ctx.sample(kind="CDict" if is_dict else "CMemory", batch=bs, num_keys=nk, steps=step + 1)


@scenario("C24", quick=800, thorough=20000, needs=["overflow_rejected", "underflow_rejected", "bad_index_rejected", "wrapped", "masked_clear"])
def list_histories(ctx):
    bs = _batch_shape(ctx)
    vs = ctx.choice([(), (), (2,), (2, 2)])
    dtname = ctx.choice(["float32", "int64", "int32", "bool", "float64"])
    dtype = DTYPES[dtname]
    ml = ctx.choice([1, 2, 3, 4, 5])
    verify = ctx.flip(0.85)
    kw = dict(max_length=ml, dtype=dtype, verify=verify)
    if bs:
        kw[ctx.choice(["batch_size", "batch_shape"])] = bs
    ctx.note("CList", vs, kw)
    lst = CList(*vs, **kw)
    model = {c: [] for c in _cells(bs)}
    ctx.check(lst.max_length == ml, "max-length", str(lst.max_length))
    ctx.check(lst.is_batched == (len(bs) > 0), "is-batched", "CList")
    left_used = False
    for step in range(ctx.randint(8, 26)):
        op = ctx.choice(["append_", "append_", "push_", "appendleft_", "appendleft_", "pop_", "popleft_", "get", "get_default", "set_", "add_", "multiply_", "subtract_", "divide_", "clear"])
        if (op == "clear" and not ctx.flip(0.4)) or (op in ("subtract_", "divide_") and dtype is torch.bool) or (op == "divide_" and not dtype.is_floating_point):
            op = "append_"
        warg, wfn = _make_where(ctx, bs)
        act = [c for c in _cells(bs) if wfn(c)]
        ctx.note(op, "where", warg, "lengths", [len(model[c]) for c in _cells(bs)])
        ctx.event("op_" + op)
        ctx.state(len(bs), vs, dtname, ml, op, warg is None, tuple(sorted({len(model[c]) for c in _cells(bs)})), verify)
        if op in ("append_", "push_", "appendleft_"):
            varg, vfn = _make_value(ctx, dtype, bs, vs)
            overflow = any(len(model[c]) >= ml for c in act)
            call = lambda: getattr(lst, op)(varg) if warg is None else getattr(lst, op)(varg, warg)
            if overflow:
                if not verify:
                    continue
                ctx.raises(IndexError, call, "overflow-accepted", op)
                ctx.event("overflow_rejected")
            else:
                call()
                for c in act:
                    v = vfn(c).to(dtype).clone()
                    model[c].append(v) if op != "appendleft_" else model[c].insert(0, v)
                if op == "appendleft_" and act:
                    left_used = True
        elif op in ("pop_", "popleft_"):
            under = any(len(model[c]) == 0 for c in act)
            call = lambda: getattr(lst, op)() if warg is None else getattr(lst, op)(warg)
            if under:
                if not verify:
                    continue
                ctx.raises(IndexError, call, "underflow-accepted", op)
                ctx.event("underflow_rejected")
            else:
                got = call()
                ctx.check(tuple(got.shape) == tuple(bs) + vs, "result-shape", str(got.shape))
                for c in act:
                    exp = model[c].pop() if op == "pop_" else model[c].pop(0)
                    ctx.same(got[c], exp, "popped", f"{op} at {c}")
                if left_used:
                    ctx.event("wrapped")
        elif op == "clear":
            lst.clear() if warg is None else lst.clear(where=warg)
            for c in act:
                model[c] = []
            if warg is not None:
                ctx.event("masked_clear")
        elif op == "get_default":
            keys = {c: ctx.randint(-ml - 2, ml + 2) for c in _cells(bs)}
            one = ctx.flip(0.3)
            if one:
                k0 = ctx.randint(-ml - 2, ml + 2)
                keys = {c: k0 for c in _cells(bs)}
            karg = k0 if one else torch.tensor([keys[c] for c in _cells(bs)]).reshape(bs)
            darg, dfn = _make_value(ctx, dtype, bs, vs)
            got = lst.get(karg, darg)
            for c in _cells(bs):
                k = keys[c]
                n = len(model[c])
                exp = model[c][k] if -n <= k < n else dfn(c)
                ctx.same(got[c], exp, "get-default", f"item {c} index {k} length {n}")
        else:
            names = op
            if op == "get":
                wfn2 = lambda c: True
                warg2 = None
            else:
                wfn2, warg2 = wfn, warg
            keys = {}
            hit = False
            for c in _cells(bs):
                n = len(model[c])
                if n and not (verify and ctx.flip(0.08)):
                    keys[c] = ctx.randint(-n, n - 1)
                else:
                    keys[c] = ctx.choice([n, n + 1, -n - 1, -n - 2, ml, -ml - 1, ml + 1])
                    if wfn2(c):
                        hit = True
            karg = torch.tensor([keys[c] for c in _cells(bs)]).reshape(bs)
            if len(set(keys.values())) == 1 and ctx.flip():
                karg = next(iter(keys.values()))
            if hit and not verify:
                continue
            if op == "get":
                call = (lambda: lst[karg]) if ctx.flip() else (lambda: lst.get(karg))
            else:
                varg, vfn = _divisor(ctx, dtype, bs, vs) if op == "divide_" else _make_value(ctx, dtype, bs, vs)
                call = lambda: getattr(lst, names)(karg, varg) if warg2 is None else getattr(lst, names)(karg, varg, warg2)
                if op == "set_" and warg2 is None and ctx.flip():
                    call = lambda: lst.__setitem__(karg, varg)
            if hit:
                ctx.raises(IndexError, call, "bad-index-accepted", f"{op} index {karg}")
                ctx.event("bad_index_rejected")
            else:
                got = call()
                for c in _cells(bs):
                    k = keys[c]
                    if op == "get":
                        ctx.same(got[c], model[c][k], "read", f"item {c} index {k}")
                    elif wfn2(c):
                        model[c][k] = _arith(op, model[c][k], vfn(c).to(dtype), dtype)
        # compare everything
        ln = lst.length
        ctx.check(tuple(ln.shape) == tuple(bs), "length-shape", str(ln.shape))
        for c in _cells(bs):
            ctx.check(int(ln[c]) == len(model[c]), "length", f"after {op}: item {c}: {int(ln[c])}, expected {len(model[c])}")
        mx = max(len(v) for v in model.values())
        for i in range(mx):
            got = lst.get(i, 0)
            neg = lst.get(-1 - i, 0)
            for c in _cells(bs):
                if i < len(model[c]):
                    ctx.same(got[c], model[c][i], "content", f"after {op}: item {c} index {i}")
                    ctx.same(neg[c], model[c][-1 - i], "content", f"after {op}: item {c} index {-1 - i}")
                    if dtype.is_floating_point and float(model[c][i].abs().max()) > 1e6:
                        return
    ctx.sample(batch=bs, value_shape=vs, max_length=ml, steps=step + 1, lengths=[len(v) for v in model.values()])


@scenario("C24", quick=400, thorough=8000, needs=["bag_emptied", "push_after_pop_rejected", "bag_masked_pop"])
def bag_histories(ctx):
    bs = _batch_shape(ctx)
    dtname = ctx.choice(["int16", "int32", "int64", None])
    dtype = {None: torch.int64, "int16": torch.int16, "int32": torch.int32, "int64": torch.int64}[dtname]
    big = ctx.flip(0.15)
    ml = ctx.randint(150, 250) if big else ctx.randint(1, 7)
    kw = dict(max_length=ml)
    if ctx.flip(0.65):
        lo = ctx.choice([0, 1, -5, 7, 100, -300])
        rng = (lo, lo + ctx.choice([1, 2, ml, ml + 5, 300]))
        kw["value_range"] = rng
    else:
        rng = (0, ml)
    if dtname is not None:
        kw["dtype"] = dtname
    if bs:
        kw["batch_size"] = bs
    if ctx.flip(0.5):
        kw["generator"] = ctx.gen
    elif ctx.flip():
        # or an object which has one, or which has none
        kw["generator"] = Problem("min", lambda x: x.sum(), solution_length=1, initial_bounds=(0, 1), seed=ctx.choice([None, 5]))
        ctx.event("bag_generator_of_problem")
    ctx.note("CBag", kw)
    ctx.state(len(bs), dtname, "value_range" in kw, rng[0] >= 1, rng[0] < 0, big)
    bag = CBag(**kw)
    for rnd in range(ctx.randint(1, 3)):
        model = {c: [] for c in _cells(bs)}
        npush = ctx.randint(1, ml) if not big else ml
        for _ in range(npush):
            warg, wfn = _make_where(ctx, bs)
            if big:
                warg, wfn = None, lambda c: True
            vals = {c: ctx.randint(rng[0], rng[1] - 1) for c in _cells(bs)}
            arg = torch.tensor([vals[c] for c in _cells(bs)]).reshape(bs)
            bag.push_(arg) if warg is None else bag.push_(arg, warg)
            for c in _cells(bs):
                if wfn(c):
                    model[c].append(vals[c])
        ln = bag.length
        for c in _cells(bs):
            ctx.check(int(ln[c]) == len(model[c]), "bag-length", f"{int(ln[c])} vs {len(model[c])}")
        first = True
        while any(model[c] for c in _cells(bs)):
            have = {c: len(model[c]) > 0 for c in _cells(bs)}
            act = {c: have[c] and ctx.flip(0.8) for c in _cells(bs)}
            if big:
                act = have
            warg = torch.tensor([act[c] for c in _cells(bs)]).reshape(bs)
            if all(act.values()) and ctx.flip():
                got = bag.pop_()
            else:
                got = bag.pop_(warg)
                ctx.event("bag_masked_pop")
            for c in _cells(bs):
                if act[c]:
                    v = int(got[c])
                    ctx.event("bag_pops")
                    ctx.check(v in model[c], "bag-wrong-element", lambda: f"item {c}: popped {v}, remaining elements {sorted(model[c])[:20]}")
                    model[c].remove(v)
            ln = bag.length
            for c in _cells(bs):
                ctx.check(int(ln[c]) == len(model[c]), "bag-length", f"{int(ln[c])} vs {len(model[c])}")
            if first and any(model[c] for c in _cells(bs)):
                first = False
                ctx.raises(RuntimeError, lambda: bag.push_(rng[0]), "bag-push-after-pop", "push after sampling began")
                ctx.event("push_after_pop_rejected")
        ctx.raises(IndexError, lambda: bag.pop_(), "bag-underflow", "pop from an empty bag")
        ctx.event("bag_emptied")
        bag.clear()
        ctx.check(not bool(torch.any(bag.length != 0)), "bag-clear", "not empty after clear")
    ctx.sample(batch=bs, value_range=rng, max_length=ml, rounds=rnd + 1)


@scenario("C24", quick=6, thorough=40)
def bag_pop_is_uniform(ctx):
    """the first popped element must be (approximately) uniformly distributed over the stored ones"""
    n = ctx.randint(2, 6)
    lo = ctx.choice([0, 1, -3, 50])
    rows = 6000
    bag = CBag(max_length=n, value_range=(lo, lo + n), batch_size=rows, generator=ctx.gen)
    for i in range(n):
        bag.push_(lo + i)
    cols = [bag.pop_() - lo for _ in range(n)]
    for j, col in enumerate(cols):
        counts = torch.bincount(col.to(torch.int64), minlength=n).to(torch.float64)
        exp = rows / n
        # 8 standard deviations
        dev = float((counts - exp).abs().max()) / (rows * (1 / n) * (1 - 1 / n)) ** 0.5
        ctx.check(dev < 8, "bag-not-uniform", f"pop {j}: counts {counts.tolist()}")
    allv = torch.stack(cols, -1).sort(-1).values
    ctx.same(allv, torch.arange(n).expand(rows, n), "bag-multiset", "popped elements")
    ctx.event("uniformity_tests")
    ctx.state(n, lo)
