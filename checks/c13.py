"""C13: optimizer step rules."""

import numpy as np
import torch
from evotorch.algorithms.functional import adam, adam_ask, adam_tell, clipup, clipup_ask, clipup_tell, sgd, sgd_ask, sgd_tell
from evotorch.optimizers import SGD, Adam, ClipUp, get_optimizer_class

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C13", "A case is one optimizer configuration driven through a sequence of gradients (zero, huge, tiny, alternating), compared at each step with a float64 reference of the published rule.")


class RefAdam:
    def __init__(self, n, lr, b1, b2, eps, amsgrad=False):
        self.m, self.v, self.vmax, self.t = np.zeros(n), np.zeros(n), np.zeros(n), 0
        self.lr, self.b1, self.b2, self.eps, self.ams = lr, b1, b2, eps, amsgrad

    def step(self, g):
        self.t += 1
        self.m = self.b1 * self.m + (1 - self.b1) * g
        self.v = self.b2 * self.v + (1 - self.b2) * g * g
        mhat = self.m / (1 - self.b1**self.t)
        v = self.v
        if self.ams:
            self.vmax = np.maximum(self.vmax, self.v)
            v = self.vmax
        vhat = v / (1 - self.b2**self.t)
        return self.lr * mhat / (np.sqrt(vhat) + self.eps)


class RefSGD:
    """momentum as in torch: v = mu v + (1 - dampening) g, the first v being g"""

    def __init__(self, n, lr, mu=0.0, damp=0.0, nesterov=False):
        self.v, self.lr, self.mu, self.damp, self.nest = None, lr, mu, damp, nesterov

    def step(self, g):
        if self.mu == 0:
            return self.lr * g
        self.v = g.copy() if self.v is None else self.mu * self.v + (1 - self.damp) * g
        d = g + self.mu * self.v if self.nest else self.v
        return self.lr * d


class RefClipUp:
    def __init__(self, n, lr, mu, vmax):
        self.v, self.lr, self.mu, self.vmax = np.zeros(n), lr, mu, vmax

    def step(self, g):
        norm = np.linalg.norm(g)
        gn = g if norm == 0 else g / norm
        v = self.mu * self.v + self.lr * gn
        nv = np.linalg.norm(v)
        self.v = v * (self.vmax / nv) if nv > self.vmax else v
        return self.v


def _gradient(ctx, n, kind):
    if kind == "zero":
        return np.zeros(n)
    g = ctx.np.normal(size=n)
    if kind == "big":
        g = g * 1e4
    elif kind == "small":
        g = g * 1e-3
    elif kind == "sparse":
        g = g * (ctx.np.uniform(size=n) < 0.4)
    return g


@scenario("C13", quick=700, thorough=20000, needs=["adam", "sgd", "clipup", "zero_gradient", "speed_clipped", "second_instance", "hyper_changed", "prepared_class"])
def object_oriented(ctx):
    n = ctx.randint(1, 6)
    dtype = ctx.choice(["float32", "float64", torch.float64, torch.float32])
    npd = np.float64 if "64" in str(dtype) else np.float32
    tt = torch.float64 if npd is np.float64 else torch.float32
    kind = ctx.choice(["adam", "sgd", "clipup"])
    lr = ctx.choice([0.001, 0.1, 1.0, 0.03])
    ctx.event(kind)
    clip_v = None
    via_name = ctx.flip(0.3)
    if kind == "adam":
        cfg = dict(stepsize=lr)
        if ctx.flip(0.5):
            cfg.update(beta1=ctx.choice([0.5, 0.9, 0.0]), beta2=ctx.choice([0.9, 0.999]))
        if ctx.flip(0.5):
            cfg["epsilon"] = ctx.choice([1e-8, 1e-3, 1e-1])
        if ctx.flip(0.3):
            cfg["amsgrad"] = True
        if ctx.flip(0.15):
            del cfg["stepsize"]
        mk = lambda: RefAdam(n, cfg.get("stepsize", 1e-3), cfg.get("beta1", 0.9), cfg.get("beta2", 0.999), cfg.get("epsilon", 1e-8), cfg.get("amsgrad", False))
        cls, names = Adam, ["adam"]
    elif kind == "sgd":
        cfg = dict(stepsize=lr)
        if ctx.flip(0.7):
            cfg["momentum"] = ctx.choice([0.5, 0.9])
            if ctx.flip(0.3):
                cfg["nesterov"] = True
            elif ctx.flip(0.4):
                cfg["dampening"] = ctx.choice([0.1, 0.5])
        mk = lambda: RefSGD(n, lr, cfg.get("momentum", 0.0), cfg.get("dampening", 0.0), cfg.get("nesterov", False))
        cls, names = SGD, ["sgd", "sga"]
    else:
        cfg = dict(stepsize=lr)
        if ctx.flip(0.6):
            cfg["momentum"] = ctx.choice([0.0, 0.5, 0.9, 1.0])
        if ctx.flip(0.6):
            cfg["max_speed"] = lr * ctx.choice([0.5, 1.0, 1.5, 3.0, 0.5, 1.0, 0.0])
        clip_v = cfg.get("max_speed", 2 * lr)
        mk = lambda: RefClipUp(n, lr, cfg.get("momentum", 0.9), clip_v)
        cls, names = ClipUp, ["clipup", "clipsgd", "clipsga"]
    ctx.note(kind, cfg, n, dtype)

    prepared = {}

    def build():
        if via_name:
            if ctx.flip(0.4):
                # one prepared class makes all optimizers; arguments of a call hold for that call only
                if not prepared:
                    given = {k: cfg[k] for k in cfg if ctx.flip()}
                    with Frozen(ctx, "config-modified", config=given):
                        prepared["class"] = get_optimizer_class(ctx.choice(names), given)
                    prepared["given"] = given
                make, given = prepared["class"], prepared["given"]
                rest = {k: v for k, v in cfg.items() if k not in given or ctx.flip(0.3)}
                odd = {**rest, "stepsize": lr * 7}
                if kind == "clipup":
                    odd.update(max_speed=lr * 9, momentum=0.3)
                with Frozen(ctx, "config-modified", config=given):
                    if ctx.flip():
                        make(solution_length=n, dtype=dtype, **odd)
                    ctx.event("prepared_class")
                    return make(solution_length=n, dtype=dtype, **rest)
            if ctx.flip():
                return get_optimizer_class(ctx.choice(names), dict(cfg))(solution_length=n, dtype=dtype, device="cpu")
            return get_optimizer_class(ctx.choice(names))(solution_length=n, dtype=dtype, **cfg)
        return cls(solution_length=n, dtype=dtype, **cfg)

    opts = [(build(), mk())]
    if ctx.flip(0.5):
        opts.append((build(), mk()))
        ctx.event("second_instance")
    kinds = ["normal", "normal", "big", "small", "sparse", "zero"]
    kept = []
    steps = ctx.randint(3, 14)
    for i in range(steps):
        j = ctx.randint(0, len(opts) - 1)
        o, ref = opts[j]
        gk = ctx.choice(kinds)
        g = _gradient(ctx, n, gk).astype(npd)
        if not np.any(g):
            ctx.event("zero_gradient")
        gt = torch.tensor(g, dtype=tt)
        ctx.state(kind, gk, i == 0, tuple(sorted(cfg)), str(tt), len(opts))
        arg = gt
        cloned = ctx.flip(0.8)
        with Frozen(ctx, "gradient-modified", gradient=gt):
            r = o.ascent(arg) if cloned else o.ascent(arg, cloned_result=False)
        exp = ref.step(g.astype(np.float64))
        ctx.note("step", i, "opt", j, gk, g, "->", r)
        ctx.close(r, exp, f"step:{kind}", f"step {i} of instance {j} with a {gk} gradient", rtol=2e-3, atol=1e-5 * lr)
        ctx.check(r.dtype == tt and tuple(r.shape) == (n,), "result-type", f"{r.dtype} {r.shape}")
        if clip_v is not None:
            sp = float(np.linalg.norm(to_np(r).astype(np.float64)))
            ctx.check(sp <= clip_v * (1 + 1e-4), "max-speed", f"speed {sp} > {clip_v}")
            if abs(sp - clip_v) < 1e-4 * clip_v:
                ctx.event("speed_clipped")
        if cloned:
            kept.append((r, r.clone()))
            for a, b in kept:
                ctx.same(a, b, "result-changed-later", "an earlier returned step")
    # changed hyperparameters of ClipUp are honoured and validated
    if kind == "clipup" and ctx.flip(0.5):
        o, ref = opts[0]
        pg = o.param_groups[0]
        ctx.same(pg["lr"], lr, "param-group", "lr", ) if pg["lr"] != lr else None
        values = {"lr": lr, "momentum": float(cfg.get("momentum", 0.9)), "max_speed": clip_v}
        # changed one by one: the others stay
        for k in ctx.rng.sample(sorted(values), ctx.randint(1, 3)):
            values[k] = {"lr": lr * ctx.choice([0.5, 3.0]), "momentum": ctx.choice([0.25, 0.0]), "max_speed": clip_v * ctx.choice([0.7, 0.1, 2.0])}[k]
            pg[k] = values[k]
            ctx.event("hyper_changed")
            for q in values:
                ctx.close(float(o.param_groups[0][q]), values[q], "param-group", f"{q} after changing {k}", rtol=1e-9)
            ctx.close([float(v) for _, v in sorted(pg.items())], [v for _, v in sorted(values.items())], "param-group", "items of the group", rtol=1e-9)
            g = _gradient(ctx, n, ctx.choice(["zero", "normal"])).astype(npd)
            ref.lr, ref.mu, ref.vmax = values["lr"], values["momentum"], values["max_speed"]
            ctx.close(o.ascent(torch.tensor(g)), ref.step(g.astype(np.float64)), "param-group-step", f"after changing {k}", rtol=2e-3, atol=1e-5 * lr)
        for _ in range(3):
            g = _gradient(ctx, n, "normal").astype(npd)
            ctx.close(o.ascent(torch.tensor(g)), ref.step(g.astype(np.float64)), "param-group-step", "after changing the parameter group", rtol=2e-3, atol=1e-5 * lr)
        for k, v in (("lr", -1.0), ("max_speed", -0.5), ("momentum", -0.1), ("momentum", 1.5)):
            ctx.raises(ValueError, lambda: pg.__setitem__(k, v), "param-group-invalid", f"{k}={v}")
    # construction is validated
    if kind == "clipup":
        for bad in (dict(stepsize=-1.0), dict(stepsize=1.0, momentum=-0.5), dict(stepsize=1.0, momentum=1.1), dict(stepsize=1.0, max_speed=-1.0)):
            ctx.raises(ValueError, lambda: ClipUp(solution_length=n, dtype="float32", **bad), "invalid-accepted", str(bad))
    ctx.sample(kind=kind, cfg=cfg, n=n, steps=steps)


@scenario("C13", quick=400, thorough=10000, needs=["f_adam", "f_sgd", "f_clipup", "batched", "per_item_hyper", "zero_gradient"])
def functional(ctx):
    n = ctx.randint(1, 5)
    dtype = ctx.choice([torch.float32, torch.float64])
    npd = np.float64 if dtype is torch.float64 else np.float32
    kind = ctx.choice(["adam", "sgd", "clipup"])
    ctx.event("f_" + kind)
    batch = ctx.choice([(), (), (3,), (2, 2)])
    B = int(np.prod(batch)) if batch else 1
    if batch:
        ctx.event("batched")

    def hyper(values):
        """-> (argument, per-item array)"""
        if batch and ctx.flip(0.5):
            v = np.array([ctx.choice(values) for _ in range(B)])
            ctx.event("per_item_hyper")
            return torch.tensor(v.reshape(batch), dtype=dtype), v
        v = ctx.choice(values)
        return (v if ctx.flip() else torch.tensor(v, dtype=dtype)), np.full(B, v)

    c0 = ctx.np.normal(size=batch + (n,)).astype(npd)
    lr_a, lr = hyper([0.01, 0.1, 1.0])
    if kind == "adam":
        b1_a, b1 = hyper([0.5, 0.9])
        b2_a, b2 = hyper([0.9, 0.999])
        ep_a, ep = hyper([1e-8, 1e-2])
        st = adam(center_init=torch.tensor(c0), center_learning_rate=lr_a, beta1=b1_a, beta2=b2_a, epsilon=ep_a)
        refs = [RefAdam(n, lr[i], b1[i], b2[i], ep[i]) for i in range(B)]
        ask, tell = adam_ask, adam_tell
    elif kind == "sgd":
        mu_a, mu = hyper([0.0, 0.5, 0.9])
        use_mu = ctx.flip(0.7)
        st = sgd(center_init=torch.tensor(c0), center_learning_rate=lr_a, **(dict(momentum=mu_a) if use_mu else {}))
        refs = [RefSGD(n, lr[i], mu[i] if use_mu else 0.0) for i in range(B)]
        ask, tell = sgd_ask, sgd_tell
    else:
        mu_a, mu = hyper([0.0, 0.5, 0.9])
        form = ctx.choice(["lr", "speed", "both"])
        vm_a, vm = hyper([0.02, 0.2, 1.5])
        if form == "lr":
            st, vm = clipup(center_init=torch.tensor(c0), momentum=mu_a, center_learning_rate=lr_a), 2 * lr
        elif form == "speed":
            st, lr = clipup(center_init=torch.tensor(c0), momentum=mu_a, max_speed=vm_a), vm / 2
        else:
            st = clipup(center_init=torch.tensor(c0), momentum=mu_a, center_learning_rate=lr_a, max_speed=vm_a)
        refs = [RefClipUp(n, lr[i], mu[i], vm[i]) for i in range(B)]
        ask, tell = clipup_ask, clipup_tell
    # with momentum, torch and the functional form agree: lr is constant
    ctx.same(ask(st), c0, "f-center0", "initial center")
    center = c0.reshape(B, n).astype(np.float64)
    for t in range(ctx.randint(2, 8)):
        gk = ctx.choice(["normal", "normal", "big", "small", "zero"])
        g = np.stack([_gradient(ctx, n, gk if ctx.flip(0.7) else "normal") for _ in range(B)]).astype(npd)
        if gk == "zero" and np.any(np.all(g == 0, axis=1)):
            ctx.event("zero_gradient")
        gt = torch.tensor(g.reshape(batch + (n,)))
        ctx.state(kind, gk, batch, t == 0, str(dtype))
        before = st
        with Frozen(ctx, f"f-argument-modified:{kind}", gradient=gt, state=tuple(st)):
            st2 = tell(st, follow_grad=gt)
        center = center + np.stack([refs[i].step(g[i].astype(np.float64)) for i in range(B)])
        ctx.close(ask(st2), center.reshape(batch + (n,)), f"f-step:{kind}", f"step {t}", rtol=2e-3, atol=1e-4)
        ctx.check(ask(st2).dtype == dtype, "f-dtype", str(ask(st2).dtype))
        # telling the old state again gives the same result (purity)
        again = tell(before, follow_grad=gt)
        for a, b in zip(again, st2):
            ctx.same(a, b, f"f-not-pure:{kind}", "second tell with the same state")
        st = st2
    ctx.sample(kind=kind, batch=batch, n=n)


def aged(ctx, prefix):
    """items of one batch at different ages, with parameters replaced on the way"""
    n, B = ctx.randint(1, 4), ctx.randint(2, 4)
    dtype = ctx.choice([torch.float32, torch.float64])
    npd = np.float64 if dtype is torch.float64 else np.float32
    kind = ctx.choice(["adam", "sgd", "clipup"])
    lr = [ctx.choice([0.05, 0.3]) for _ in range(B)]
    mu = [ctx.choice([0.5, 0.9]) for _ in range(B)]
    vm = [ctx.choice([0.05, 0.5]) for _ in range(B)]
    centers = [ctx.np.normal(size=n).astype(npd) for _ in range(B)]
    if kind == "adam":
        tell, ask = adam_tell, adam_ask
        states = [adam(center_init=torch.tensor(centers[i]), center_learning_rate=lr[i], beta1=mu[i], beta2=0.9, epsilon=1e-3) for i in range(B)]
        refs = [RefAdam(n, lr[i], mu[i], 0.9, 1e-3) for i in range(B)]
    elif kind == "sgd":
        tell, ask = sgd_tell, sgd_ask
        states = [sgd(center_init=torch.tensor(centers[i]), center_learning_rate=lr[i], momentum=mu[i]) for i in range(B)]
        refs = [RefSGD(n, lr[i], mu[i]) for i in range(B)]
    else:
        tell, ask = clipup_tell, clipup_ask
        states = [clipup(center_init=torch.tensor(centers[i]), center_learning_rate=lr[i], momentum=mu[i], max_speed=vm[i]) for i in range(B)]
        refs = [RefClipUp(n, lr[i], mu[i], vm[i]) for i in range(B)]
    want = [c.astype(np.float64) for c in centers]
    ages = [ctx.randint(0, 6) for _ in range(B)]

    def grad(gk):
        return _gradient(ctx, n, gk).astype(npd)

    for i in range(B):
        for _ in range(ages[i]):
            g = grad(ctx.choice(["normal", "normal", "zero"]))
            states[i] = tell(states[i], follow_grad=torch.tensor(g))
            want[i] = want[i] + refs[i].step(g.astype(np.float64))
    st = type(states[0])(*[torch.stack([torch.as_tensor(s[k]) for s in states]) for k in range(len(states[0]))])
    ctx.event(prefix + "ages_" + ("differ" if len(set(ages)) > 1 else "same"))
    for t in range(ctx.randint(2, 6)):
        if ctx.flip(0.4):
            # states are named tuples: a new value for one of their fields
            if kind == "clipup":
                v = [ctx.choice([0.01, 0.05, 0.5]) for _ in range(B)]
                st = st._replace(max_speed=torch.tensor(v, dtype=dtype))
                for r, x in zip(refs, v):
                    r.vmax = x
            elif kind == "adam":
                v = [ctx.choice([0.01, 0.2]) for _ in range(B)]
                st = st._replace(center_learning_rate=torch.tensor(v, dtype=dtype))
                for r, x in zip(refs, v):
                    r.lr = x
            ctx.event(prefix + "replaced")
        g = np.stack([grad(ctx.choice(["normal", "zero", "big", "small"])) for _ in range(B)])
        if ctx.flip(0.25):
            g[:] = 0
            ctx.event(prefix + "all_zero")
        with Frozen(ctx, f"{prefix}argument-modified:{kind}", state=tuple(st)):
            st = tell(st, follow_grad=torch.tensor(g))
        for i in range(B):
            want[i] = want[i] + refs[i].step(g[i].astype(np.float64))
        ctx.close(ask(st), np.stack(want), f"{prefix}aged:{kind}", f"step {t}, the items being {ages} steps old at first", rtol=2e-3, atol=1e-4)
    ctx.state(kind, B, n, tuple(ages))
    ctx.sample(kind=kind, ages=ages)


@scenario("C13", quick=200, thorough=5000, needs=["ages_differ", "replaced", "all_zero"])
def functional_ages(ctx):
    aged(ctx, "")
