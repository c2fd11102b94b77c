"""C14: functional PGPE and CEM are pure and treat batched searches independently."""

import math

import numpy as np
import torch
from evotorch.algorithms.functional import adam, adam_ask, adam_tell, cem, cem_ask, cem_tell, clipup_ask, pgpe, pgpe_ask, pgpe_tell, sgd_ask
from evotorch.distributions import SeparableGaussian, SymmetricSeparableGaussian

from checks.c11 import advance
from checks.c13 import RefAdam, RefClipUp, RefSGD, aged
from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C14", "A case is one (batched) functional search of several ask/tell rounds; each item of the batch is compared with a float64 model of its own search and with the same search run alone.")
ASSUMPTIONS = ["fitnesses within one population are distinct"]


def tensors(state):
    """all tensors reachable from a state"""
    out = []
    for v in state:
        if isinstance(v, torch.Tensor):
            out.append(v)
        elif isinstance(v, tuple):
            out.extend(tensors(v))
    return out


class Hyper:
    """draws a hyperparameter, either common or one per search"""

    def __init__(self, ctx, batch, dtype):
        self.ctx, self.batch, self.dtype = ctx, batch, dtype
        self.B = int(np.prod(batch)) if batch else 1

    def _shape(self):
        b = self.batch
        if b and self.ctx.flip(0.5):
            self.ctx.event("per_search_hyperparameters")
            return b if len(b) == 1 or self.ctx.flip(0.7) else b[1:]
        return ()

    def scalar(self, draw):
        sh = self._shape()
        v = np.array([draw() for _ in range(int(np.prod(sh)))]).reshape(sh) if sh else np.array(draw())
        arg = torch.tensor(v, dtype=self.dtype) if sh or self.ctx.flip() else float(v)
        return arg, np.broadcast_to(v, self.batch).reshape(self.B)

    def vector(self, draw, n):
        if self.ctx.flip(0.3):  # a plain number
            v = draw()
            return (v if self.ctx.flip() else torch.tensor(v, dtype=self.dtype)), np.full((self.B, n), v)
        sh = self._shape() + (n,)
        v = np.array([draw() for _ in range(int(np.prod(sh)))]).reshape(sh)
        return torch.tensor(v, dtype=self.dtype), np.broadcast_to(v, self.batch + (n,)).reshape(self.B, n)


def item(x, i, batch, nd):
    """the i-th search's own part of a hyperparameter with nd own dimensions"""
    if not isinstance(x, torch.Tensor):
        return x
    if x.ndim <= nd:
        return x
    own = tuple(x.shape[x.ndim - nd :]) if nd else ()
    return x.expand(batch + own).reshape((-1,) + own)[i]


@scenario("C14", quick=320, thorough=8000, needs=["pgpe", "cem", "batched", "nested_batch", "per_search_hyperparameters", "unbatched", "told", "run_alone", "custom_optimizer", "limited", "radius", "lower_limit_reached", "upper_limit_reached", "smallest_population", "large_change"])
def searches(ctx):
    kind = ctx.choice(["pgpe", "cem"])
    ctx.event(kind)
    batch = ctx.choice([(), (3,), (2,), (2, 3)])
    ctx.event("unbatched" if not batch else "batched")
    if len(batch) == 2:
        ctx.event("nested_batch")
    B = int(np.prod(batch)) if batch else 1
    n = ctx.randint(1, 4)
    dtype = ctx.choice([torch.float64, torch.float64, torch.float32])
    f32 = dtype == torch.float32
    H = Hyper(ctx, batch, dtype)
    sense = ctx.choice(["min", "max"])
    c0 = torch.tensor(ctx.np.normal(size=batch + (n,)), dtype=dtype)
    args = {"center_init": c0, "objective_sense": sense}
    nd = {"center_init": 1, "stdev_init": 1, "radius_init": 0, "stdev_min": 1, "stdev_max": 1, "stdev_max_change": 1, "center_learning_rate": 0, "stdev_learning_rate": 0}
    tight = ctx.flip()  # limits close enough to be reached
    if tight or ctx.flip(0.5):
        args["stdev_init"], s0 = H.vector(lambda: ctx.uniform(0.8, 1.0) if tight else ctx.uniform(0.5, 2), n)
    else:
        ctx.event("radius")
        args["radius_init"], r = H.scalar(lambda: ctx.uniform(0.5, 3))
        s0 = np.repeat((r / math.sqrt(n))[:, None], n, axis=1)
    lo = hi = None
    mc = np.full((B, n), 0.2) if kind == "pgpe" else None
    if ctx.flip(0.7 if tight else 0.4):
        args["stdev_min"], lo = H.vector(lambda: ctx.uniform(0.7, 0.79) if tight else ctx.uniform(0.05, 0.24), n)
    if ctx.flip(0.7 if tight else 0.4):
        args["stdev_max"], hi = H.vector(lambda: ctx.uniform(1.01, 1.2) if tight else ctx.uniform(3.0, 3.5), n)
    if ctx.flip(0.4):
        args["stdev_max_change"], mc = H.vector(lambda: ctx.uniform(0.02, 0.5), n)
    elif kind == "pgpe" and ctx.flip(0.5):
        args["stdev_max_change"], mc = None, None
    if lo is not None or hi is not None or mc is not None:
        ctx.event("limited")
    refs = []
    cfg = None
    if kind == "pgpe":
        sym = ctx.flip(0.6)
        if not sym or ctx.flip():
            args["symmetric"] = sym
        args["center_learning_rate"], mlr = H.scalar(lambda: ctx.choice([0.05, 0.3, 1.0]))
        args["stdev_learning_rate"], slr = H.scalar(lambda: ctx.choice([0.1, 0.6] if tight else [3.0, 8.0] if mc is None and ctx.index % 2 else [0.02, 0.1, 0.2]))
        method = ctx.choice(["centered", "linear", "nes", "normalized", "raw"])
        if method != "centered" or ctx.flip():
            args["ranking_method"] = method
        opt = ctx.choice(["default", "clipup", "clipup_config", "adam", "adam_config", "sgd", "sgd_momentum", "custom"])
        if opt in ("default", "clipup"):
            mk = lambda i: RefClipUp(n, mlr[i], 0.9, 2 * mlr[i])
            if opt == "clipup":
                args["optimizer"] = "clipup"
        elif opt == "clipup_config":
            ma, m = H.scalar(lambda: ctx.choice([0.0, 0.5]))
            va, v = H.scalar(lambda: ctx.choice([0.1, 2.0]))
            args["optimizer"], cfg = "clipup", {"momentum": ma, "max_speed": va}
            mk = lambda i: RefClipUp(n, mlr[i], m[i], v[i])
        elif opt == "adam":
            args["optimizer"] = "adam"
            mk = lambda i: RefAdam(n, mlr[i], 0.9, 0.999, 1e-8)
        elif opt == "adam_config":
            ba, b = H.scalar(lambda: ctx.choice([0.5, 0.8]))
            args["optimizer"], cfg = "adam", {"beta1": ba, "beta2": 0.95, "epsilon": 1e-3}
            mk = lambda i: RefAdam(n, mlr[i], b[i], 0.95, 1e-3)
        elif opt == "sgd":
            args["optimizer"] = ctx.choice(["sgd", "sga"])
            mk = lambda i: RefSGD(n, mlr[i])
        elif opt == "sgd_momentum":
            ma, m = H.scalar(lambda: ctx.choice([0.3, 0.9]))
            args["optimizer"], cfg = ctx.choice(["sgd", "momentum"]), {"momentum": ma}
            mk = lambda i: RefSGD(n, mlr[i], m[i])
        else:
            ctx.event("custom_optimizer")
            args["optimizer"] = (adam, adam_ask, adam_tell)
            mk = lambda i: RefAdam(n, mlr[i], 0.9, 0.999, 1e-8)
        if cfg is not None:
            args["optimizer_config"] = cfg
        by = "num_directions" if sym else "num_solutions"
        for i in range(B):
            refs.append({"dist": SymmetricSeparableGaussian if sym else SeparableGaussian, "method": method, "extra": {"divide_mu_grad_by": by, "divide_sigma_grad_by": by}, "sigma_lr": slr[i], "mu_lr": mlr[i], "opt": mk(i)})
        init, ask, tell = pgpe, pgpe_ask, pgpe_tell
    else:
        sym = False
        ratio = ctx.choice([0.5, 0.25, 0.7, 1.0])
        args["parenthood_ratio"] = ratio
        opt = None
        for i in range(B):
            refs.append({"dist": SeparableGaussian, "method": None, "extra": {"parenthood_ratio": ratio}, "sigma_lr": 1.0, "mu_lr": 1.0, "opt": None})
        init, ask, tell = cem, cem_ask, cem_tell
    for i, r in enumerate(refs):
        r["sense"] = sense
        # without a given minimum, the functional algorithms keep the deviations from becoming negative
        r["limits"] = tuple(None if v is None else v[i] for v in (np.zeros((B, n)) if lo is None else lo, hi, mc))

    with Frozen(ctx, "init-arguments-changed", arguments=[v for v in args.values() if isinstance(v, torch.Tensor)], config=[v for v in (cfg or {}).values() if isinstance(v, torch.Tensor)]):
        st = init(**args)

    def alone(i):
        a = {k: (item(v, i, batch, nd[k]) if k in nd else v) for k, v in args.items()}
        if cfg is not None:
            a["optimizer_config"] = {k: item(v, i, batch, 0) for k, v in cfg.items()}
        return init(**a)

    singles = [alone(i) for i in range(B)]

    def center_of(state):
        if kind == "cem":
            return state.center
        return (adam_ask if opt in ("adam", "adam_config", "custom") else sgd_ask if opt.startswith("sgd") else clipup_ask)(state.optimizer_state)

    def flat(x, own):
        x = torch.as_tensor(x)
        return to_np(x.expand(batch + tuple(x.shape[x.ndim - own :])).reshape((B,) + tuple(x.shape[x.ndim - own :]))).astype(float)

    ctx.close(flat(center_of(st), 1), to_np(c0).reshape(B, n), "initial-center", "", rtol=1e-6)
    ctx.close(flat(st.stdev, 1), s0, "initial-stdev", f"{args}", rtol=1e-5)
    N = 2 * ctx.choice([1, 2, 4, 5, 6, 7])
    if not sym and ctx.flip():
        N += 1
    if kind == "cem":
        # a deviation needs two parents
        N = max(N, math.ceil(2 / ratio))
    if N < 4:
        ctx.event("smallest_population")
    tol = dict(rtol=3e-3, atol=3e-3) if f32 else dict(rtol=1e-6, atol=1e-7)
    for t in range(ctx.randint(2, 5)):
        with Frozen(ctx, "state-changed:ask", state=tensors(st)):
            v = ask(st, popsize=N)
        ctx.check(tuple(v.shape) == batch + (N, n) and v.dtype == dtype, "population-shape", f"{tuple(v.shape)} {v.dtype}")
        mu, sg = flat(center_of(st), 1), flat(st.stdev, 1)
        x = to_np(v).astype(float).reshape(B, N, n)
        if not (np.isfinite(x).all() and np.abs(x).max() < 1e3 and sg.min() > 1e-2):
            break
        z = (x - mu[:, None]) / sg[:, None]
        ctx.check(float(np.abs(z).max()) < 8.5, "population-off-centre", f"{np.abs(z).max()} deviations")
        if sym:
            ctx.close(z[:, 0::2], -z[:, 1::2], "not-mirrored", "", rtol=1e-2, atol=1e-2)
        q, k = float((z**2).sum()) / (2 if sym else 1), z.size // (2 if sym else 1)
        ctx.check(k + 2 * math.sqrt(40 * k) + 80 > q > k - 2 * math.sqrt(40 * k), "population-spread", f"{q} for {k}")
        for i in range(1, B):
            ctx.check(not np.allclose(z[0], z[i], atol=1e-4), "batch-shares-noise", f"searches 0 and {i} drew the same samples")
        # arbitrary distinct fitnesses: the update rule does not care where they come from
        e = np.stack([ctx.np.permutation(N) for _ in range(B)]).astype(float) * ctx.choice([0.1, 1.0]) - ctx.choice([0.0, 5.0])
        ev = torch.tensor(e.reshape(batch + (N,)), dtype=dtype)
        e = to_np(ev).astype(float).reshape(B, N)
        old = st
        with Frozen(ctx, "inputs-changed:tell", state=tensors(st), values=v, evals=ev):
            st = tell(st, v, ev)
        ctx.event("told")
        again = tell(old, v, ev)
        for a, b in zip(tensors(again), tensors(st)):
            ctx.same(a, b, "not-deterministic:tell", "second tell with the same arguments")
        m2, s2 = flat(center_of(st), 1), flat(st.stdev, 1)
        sc = 1 + float((np.abs(x - mu[:, None]).max() ** 2) / sg.min()) * (20 if kind == "pgpe" and args.get("ranking_method") in ("raw", "normalized") else 1)
        if kind == "pgpe" and (s2 > 2.1 * sg).any():
            ctx.event("large_change")
        for i in range(B):
            c, A = advance(ctx, refs[i], mu[i], np.diag(sg[i]), x[i], e[i])
            ctx.close(m2[i], c, f"center:{kind}", f"search {i} of batch {batch}, round {t}, optimizer {opt}, ranking {refs[i]['method']}", rtol=tol["rtol"], atol=tol["atol"] * sc)
            for name, limit in zip(("lower_limit_reached", "upper_limit_reached"), refs[i]["limits"][:2]):
                if limit is not None and np.isclose(np.diag(A), limit, rtol=1e-5).any():
                    ctx.event(name)
            ctx.close(s2[i], np.diag(A), f"stdev:{kind}", f"search {i} of batch {batch}, round {t}, limits {refs[i]['limits']}", rtol=tol["rtol"], atol=tol["atol"] * sc)
            # the same search alone
            one = tell(singles[i], v.reshape((B, N, n))[i], ev.reshape(B, N)[i])
            ctx.event("run_alone")
            ctx.close(m2[i], center_of(one), f"alone-center:{kind}", f"search {i} of batch {batch} differs from running it alone", rtol=tol["rtol"], atol=tol["atol"] * sc)
            ctx.close(s2[i], one.stdev, f"alone-stdev:{kind}", f"search {i} of batch {batch} differs from running it alone", rtol=tol["rtol"], atol=tol["atol"] * sc)
            singles[i] = one
        ctx.check(all(a.dtype == dtype for a in tensors(st) if a.dtype.is_floating_point), "state-dtype", "")
    ctx.state(kind, batch, n, N, sense, opt, tuple(sorted(k for k in args)), str(dtype))
    ctx.sample(kind=kind, batch=list(batch), optimizer=opt, arguments=sorted(args), center=np.round(m2[0], 4).tolist() if t else None)


@scenario("C14", quick=40, thorough=600, needs=["refused", "converged"])
def end_to_end(ctx):
    """a batch of searches on different targets finds each of its targets; invalid input is refused"""
    kind = ctx.choice(["pgpe", "cem"])
    n, B = 3, 4
    target = torch.tensor(ctx.np.uniform(-1, 1, size=(B, n)))
    sense = ctx.choice(["min", "max"])
    sign = 1 if sense == "min" else -1
    c0 = torch.zeros(B, n, dtype=torch.float64)
    if kind == "pgpe":
        st, ask, tell = pgpe(center_init=c0, center_learning_rate=0.2, stdev_learning_rate=0.1, objective_sense=sense, stdev_init=1.0), pgpe_ask, pgpe_tell
        bad = dict(center_learning_rate=0.1, stdev_learning_rate=0.1)
        init = pgpe
    else:
        st, ask, tell = cem(center_init=c0, parenthood_ratio=0.5, objective_sense=sense, stdev_init=1.5), cem_ask, cem_tell
        bad = dict(parenthood_ratio=0.5)
        init = cem
    for _ in range(60):
        v = ask(st, popsize=40 if kind == "pgpe" else 200)
        st = tell(st, v, sign * ((v - target.unsqueeze(1)) ** 2).sum(-1))
    c = st.center if kind == "cem" else clipup_ask(st.optimizer_state)
    ctx.event("converged")
    d = float((c - target).norm(dim=-1).max())
    ctx.check(d < 0.7, f"no-convergence:{kind}", f"distance {d} to the target")
    for a in (dict(center_init=c0, objective_sense="up", stdev_init=1.0), dict(center_init=c0, objective_sense="min"), dict(center_init=c0, objective_sense="min", stdev_init=1.0, radius_init=1.0), dict(center_init=torch.tensor(1.0), objective_sense="min", stdev_init=1.0), dict(center_init=c0, objective_sense="min", stdev_init=torch.ones(n + 1)), dict(center_init=c0, objective_sense="min", stdev_init=1.0, stdev_min=[1.0] * (n + 1))):
        ctx.raises(ValueError, lambda: init(**a, **bad), f"accepted:{kind}", f"{a}")
        ctx.event("refused")
    ctx.state(kind, sense)
    ctx.sample(kind=kind, distance=d)


@scenario("C14", quick=200, thorough=4000, needs=["optimizer:ages_differ", "optimizer:replaced", "optimizer:all_zero"])
def optimizer_states(ctx):
    aged(ctx, "optimizer:")
