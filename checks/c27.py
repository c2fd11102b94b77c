"""C27: networks driven by flat parameter vectors match the real modules."""

import copy

import numpy as np
import torch
from evotorch.neuroevolution.net import layers
from evotorch.neuroevolution.net.functional import ModuleExpectingFlatParameters, make_functional_module
from evotorch.neuroevolution.net.misc import count_parameters, device_of_module, fill_parameters, parameter_vector
from evotorch.neuroevolution.net.multilayered import MultiLayered
from evotorch.neuroevolution.net.statefulmodule import StatefulModule, ensure_stateful
from evotorch.neuroevolution.net.vecrl import Policy, reset_tensors
from torch import nn

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen as Unchanged
from vmon.refnet import FF_ACTS, BY_NAME, Ref, described, is_recurrent, random_net

rule("C27", "A case is one random network; each output, hidden state and gradient observed while it is run through the library is compared with a float64 numpy model of its layers.")
ASSUMPTIONS = ["buffers stay constant during a forward pass", "float32 networks are compared with float64 models within rtol 1e-3"]
TOL = dict(rtol=1e-3, atol=1e-4)


def vec(ctx, n, scale=0.7, dtype=torch.float32):
    return torch.randn(n, generator=ctx.gen, dtype=torch.float64).to(dtype) * scale


def total(net):
    seen = {}
    for p in net.parameters():
        seen[id(p)] = p.numel()
    return sum(seen.values())


@scenario("C27", quick=400, thorough=8000, needs=["filled", "read", "counted", "shared", "not_contiguous", "frozen_layers", "rejected", "buffers_kept", "outputs", "no_alias", "float64"])
def flat(ctx):
    n = ctx.randint(1, 4)
    net, m = random_net(ctx, n)
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    if dtype == torch.float64:
        net.double()
        ctx.event("float64")
    k = total(net)
    note_kinds(ctx, net)
    ctx.check(count_parameters(net) == k, "count", f"{count_parameters(net)} parameters counted, {k} expected")
    ctx.event("counted")
    ctx.check(device_of_module(net) == torch.device("cpu"), "device", "")
    # reading
    want = np.concatenate([to_np(p.detach()).reshape(-1) for p in net.parameters()])
    v = parameter_vector(net, **({} if ctx.flip() else {"device": "cpu"}))
    ctx.check(v.dtype == dtype and np.array_equal(to_np(v), want) and not v.requires_grad, "read", f"{v}, expected {want}")
    ctx.event("read")
    v.fill_(7.0)
    ctx.check(np.array_equal(np.concatenate([to_np(p.detach()).reshape(-1) for p in net.parameters()]), want), "read-alias", "changing the vector changed the network")
    # filling, each time with another vector
    before = {k: to_np(b).copy() for k, b in net.named_buffers()}
    grads = [p.requires_grad for p in net.parameters()]
    objs = [id(p) for p in net.parameters()]
    for _ in range(ctx.randint(1, 3)):
        w = vec(ctx, k, dtype=dtype)
        if ctx.flip(0.3):
            w = torch.stack([w, w]).t()[:, 0]
        elif ctx.flip(0.2):
            w.requires_grad_()
        with Unchanged(ctx, "vector", vector=w.detach()):
            fill_parameters(net, w)
        ctx.event("filled")
        ctx.check(np.array_equal(to_np(parameter_vector(net)), to_np(w.detach())), "fill", "the parameters read back are not the ones filled in")
        w2 = to_np(w.detach()).copy()
        with torch.no_grad():
            w.fill_(3.0)
        ctx.check(np.array_equal(to_np(parameter_vector(net)), w2), "fill-alias", "changing the vector after filling changed the network")
        ctx.event("no_alias")
        ref = Ref(net, w2)
        x = vec(ctx, n, 1.0, dtype)
        y = net(x)
        y = y[0] if isinstance(y, tuple) else y
        ctx.close(to_np(y.detach()), ref(to_np(x)), "filled-output", "output of the filled network", **TOL)
        ctx.event("outputs")
    ctx.check([p.requires_grad for p in net.parameters()] == grads and [id(p) for p in net.parameters()] == objs, "fill-objects", "filling replaced parameters or changed their flags")
    ctx.check(all(np.array_equal(to_np(b), before[k]) for k, b in net.named_buffers()), "fill-buffers", "filling changed buffers")
    if before:
        ctx.event("buffers_kept")
    # wrong lengths
    bad = vec(ctx, k + ctx.choice([1, 2, 5, -1]) if k > 1 else k + 1, dtype=dtype)
    ctx.raises(Exception, lambda: fill_parameters(net, bad), "fill-length", f"{len(bad)} values for {k} parameters")
    ctx.event("rejected")
    ctx.state(*[type(q).__name__ for q in net.modules()], k)
    ctx.sample(network=[type(q).__name__ for q in net.modules()][:6], parameters=k)


def note_kinds(ctx, net):
    for q in net.modules():
        nm = type(q).__name__
        if nm == "Tied":
            ctx.event("shared")
        elif nm == "Turned":
            ctx.event("not_contiguous")
        elif nm == "Frozen":
            ctx.event("frozen_layers")


@scenario("C27", quick=500, thorough=10000, needs=["calls", "batched", "recurrent_steps", "states_compared", "gradients", "no_tracking", "original_changed", "buffers_seen", "rejected", "shared", "not_contiguous", "shared_input"])
def functional(ctx):
    n = ctx.randint(1, 4)
    net, m = random_net(ctx, n)
    note_kinds(ctx, net)
    k = total(net)
    track = ctx.flip(0.7)
    make = make_functional_module if ctx.flip() else ModuleExpectingFlatParameters
    kw = {"disable_autograd_tracking": True} if not track else {"disable_autograd_tracking": False} if ctx.flip() else {}
    state = {q: t.clone() for q, t in net.state_dict(keep_vars=False).items()}
    f = make(net, **kw)
    ctx.check(all(torch.equal(t, state[q]) for q, t in net.state_dict().items()) and device_of_module(net).type == "cpu", "original", "making the functional module changed the network")
    ctx.check(f.parameter_length == k, "length", f"{f.parameter_length}, expected {k}")
    bufs = [to_np(b).copy() for b in net.buffers()]
    got = list(f.buffers)
    ctx.check(len(got) == len(bufs) and all(isinstance(a, torch.Tensor) and np.array_equal(to_np(a), b) for a, b in zip(got, bufs)), "buffers", f"buffers {got}, expected {bufs}")
    if bufs:
        ctx.event("buffers_seen")
    model = copy.deepcopy(net)
    for q, r in zip(net.modules(), model.modules()):
        if hasattr(q, "vm"):
            r.vm = q.vm
    if ctx.flip():
        # the functional module has its own memory
        with torch.no_grad():
            for p in net.parameters():
                p.fill_(float("nan"))
            for b in net.buffers():
                b.fill_(float("nan"))
        ctx.event("original_changed")
    B = ctx.choice([None, None, 1, 3])
    if B is None:
        v = vec(ctx, k)
        refs = [Ref(model, to_np(v))]
    else:
        v = torch.stack([vec(ctx, k) for _ in range(B)])
        refs = [Ref(model, to_np(r)) for r in v]
    rec = is_recurrent(model)
    h = None
    for step in range(ctx.randint(2, 4) if rec else 1):
        shared = B is not None and ctx.flip(0.3)
        if B is None:
            x = vec(ctx, n, 1.0)
            xs = [x]
            with Unchanged(ctx, "arguments", vector=v, x=x):
                out = f(v, x) if h is None else f(v, x, h)
        else:
            x = vec(ctx, n, 1.0) if shared else torch.stack([vec(ctx, n, 1.0) for _ in range(B)])
            xs = [x] * B if shared else list(x)
            if shared:
                ctx.event("shared_input")
            dims = (0, None if shared else 0) + ((0,) if h is not None else ())
            with Unchanged(ctx, "arguments", vector=v, x=x):
                out = torch.func.vmap(f, in_dims=dims)(*((v, x) if h is None else (v, x, h)))
            ctx.event("batched")
        want = [r(to_np(a)) for r, a in zip(refs, xs)]
        ctx.check(isinstance(out, tuple) == rec, "result", f"{type(out)}")
        y, h = out if rec else (out, None)
        ctx.close(to_np(y.detach()), want[0] if B is None else np.stack(want), "output", f"output at step {step}", **TOL)
        ctx.event("calls")
        if rec:
            compare_state(ctx, h, [r.h for r in refs], B)
            ctx.event("recurrent_steps")
    # gradients with respect to the vector
    if B is None and not rec:
        w = v.clone().requires_grad_()
        x = vec(ctx, n, 1.0)
        y = f(w, x)
        if not track:
            ctx.check(not y.requires_grad, "tracking", "the output requires gradients although tracking is disabled")
            ctx.event("no_tracking")
        else:
            y.sum().backward()
            m2 = copy.deepcopy(model)
            for p in m2.parameters():
                p.requires_grad_()
            with torch.no_grad():
                nn.utils.vector_to_parameters(v, m2.parameters())
            out = m2(x).sum()
            g = torch.autograd.grad(out, list(m2.parameters()), allow_unused=True)
            want = np.concatenate([np.zeros(p.numel()) if q is None else to_np(q).reshape(-1) for p, q in zip(m2.parameters(), g)])
            ctx.close(to_np(w.grad), want, "gradient", "gradient with respect to the vector", **TOL)
            ctx.event("gradients")
    for bad in (vec(ctx, k + 1), vec(ctx, k).reshape(1, -1)):
        ctx.raises(ValueError, lambda: f(bad, vec(ctx, n)), "vector-shape", f"a vector of shape {tuple(bad.shape)} for {k} parameters")
    ctx.event("rejected")
    ctx.state(B, track, rec, *[type(q).__name__ for q in net.modules()])
    ctx.sample(network=[type(q).__name__ for q in net.modules()][:6], batch=B)


def flatten_state(h):
    if h is None:
        return []
    if isinstance(h, dict):
        return [t for k in sorted(h) for t in flatten_state(h[k])]
    if isinstance(h, (list, tuple)):
        return [t for k in h for t in flatten_state(k)]
    return [h]


def compare_state(ctx, h, refs, B):
    got = flatten_state(h)
    want = [flatten_state(r) for r in refs]
    ctx.check(len(got) == len(want[0]), "state-parts", f"{len(got)} tensors in the state, expected {len(want[0])}")
    for i, t in enumerate(got):
        w = want[0][i] if B is None else np.stack([q[i] for q in want])
        ctx.close(to_np(t.detach()), w, "state", "hidden state", **TOL)
        ctx.event("states_compared")


@scenario("C27", quick=500, thorough=10000, needs=["Clip", "Bin", "Slice", "Round", "Apply", "RNN", "LSTM", "FeedForwardNet", "StructuredControlNet", "LocomotorNet", "batches", "timesteps", "float64", "long_runs"])
def layer_types(ctx):
    name = ctx.choice(["Clip", "Bin", "Slice", "Round", "Apply", "RNN", "LSTM", "FeedForwardNet", "StructuredControlNet", "LocomotorNet"])
    ctx.event(name)
    dtype = ctx.choice([torch.float32, torch.float64])
    if dtype == torch.float64:
        ctx.event("float64")
    n = ctx.randint(1, 6)
    shape = ctx.choice([(n,), (2, n), (3, 2, n)])
    x = torch.randn(shape, generator=ctx.gen, dtype=torch.float64).to(dtype) * 2
    if len(shape) > 1:
        ctx.event("batches")
    X = to_np(x).astype(np.float64)
    lb = round(ctx.uniform(-2, 1), 2)
    ub = lb + ctx.choice([0.5, 1.0, 3.0])
    if name == "Clip":
        ctx.close(to_np(layers.Clip(lb, ub)(x)), np.clip(X, lb, ub), "clip", f"Clip({lb}, {ub})", rtol=1e-5)
    elif name == "Bin":
        y = to_np(layers.Bin(lb, ub)(x))
        mid = (lb + ub) / 2
        far = np.abs(X - mid) > 1e-4
        ctx.close(np.where(far, y, 0), np.where(far, np.where(X > mid, ub, lb), 0), "bin", f"Bin({lb}, {ub})", rtol=1e-5)
    elif name == "Slice":
        a = ctx.randint(0, shape[0])
        b = ctx.randint(a, shape[0] + 1)
        ctx.same(to_np(layers.Slice(a, b)(x)), X[a:b].astype(to_np(x).dtype), "slice", f"Slice({a}, {b})")
    elif name == "Round":
        d = ctx.choice([None, 0, 1, 2, -1])
        y = to_np((layers.Round() if d is None else layers.Round(d))(x))
        q = 10.0 ** (d or 0)
        # either neighbour is right for values half-way between
        ctx.check((np.abs(y - X) <= 0.5 / q + 1e-5 * np.abs(X) + 1e-6).all(), "round", f"Round({d}) of {X.tolist()} is {y.tolist()}")
        ctx.check(np.allclose(y * q, np.rint(y * q), atol=1e-3), "round", f"Round({d}) gives {y.tolist()}")
        ctx.close(0, 0, "round", "")
    elif name == "Apply":
        op = ctx.choice(["+", "-", "*", "/", "**"])
        arg = ctx.choice([2.0, -3, 0.5, 1, 3]) if op != "**" else ctx.choice([2.0, 3, 1])
        want = {"+": lambda: X + arg, "-": lambda: X - arg, "*": lambda: X * arg, "/": lambda: X / arg, "**": lambda: X**arg}[op]()
        ctx.close(to_np(layers.Apply(op, arg)(x)), want, "apply", f"Apply({op!r}, {arg})")
        ctx.raises(Exception, lambda: layers.Apply("%", 2), "apply-operator", "an unknown operator")
    elif name in ("RNN", "LSTM"):
        hid = ctx.randint(1, 4)
        act = ctx.choice(["default", "relu", "tanh", "sigmoid"])
        net = layers.RNN(n, hid, *([] if act == "default" else [act]), dtype=dtype) if name == "RNN" else layers.LSTM(n, hid, dtype=dtype)
        ctx.check(all(q.dtype == dtype for q in net.parameters()), "dtype", f"{name} of dtype {dtype} has the parameters {[q.dtype for q in net.parameters()]}")
        described(net, act)
        v = vec(ctx, total(net), ctx.choice([0.7, 2.5]) if name == "LSTM" else 0.7, dtype=dtype)
        nn.utils.vector_to_parameters(v, net.parameters())
        ref = Ref(net, to_np(v))
        h = None
        for step in range(ctx.randint(1, 12 if name == "LSTM" else 4)):
            z = vec(ctx, n, 1.0, dtype)
            y, h = net(z) if h is None else net(z, h)
            ctx.close(to_np(y.detach()), ref(to_np(z)), name.lower(), f"{name} at step {step}", **TOL)
            compare_state(ctx, h, [ref.h], None)
            ctx.event("timesteps")
    elif name == "FeedForwardNet":
        acts, spec, biases = [], [], []
        for _ in range(ctx.randint(1, 3)):
            a = ctx.choice(FF_ACTS)
            size = ctx.randint(1, 4)
            bias = ctx.choice([None, True, False])
            given = a
            if ctx.flip(0.2):
                given = nn.Tanh()
                a = "tanh"
            spec.append((size, given) if bias is None else (size, given, bias))
            acts.append(a)
            biases.append(bias is not False)
        net = described(layers.FeedForwardNet(n, spec), *acts)
        lins = [q for q in net.modules() if isinstance(q, nn.Linear)]
        ctx.check([(q.out_features, q.bias is not None) for q in lins] == [(s[0], b) for s, b in zip(spec, biases)], "feedforward-layers", f"{net} for {spec}")
        net.to(dtype)
        compare_rows(ctx, net, x, "feedforward")
        ctx.raises(Exception, lambda: layers.FeedForwardNet(n, [(2, "no such function")]), "feedforward-act", "an unknown activation function")
        ctx.raises(Exception, lambda: layers.FeedForwardNet(n, [(2, "tanh", True, 1)]), "feedforward-tuple", "a tuple of four")
    elif name == "StructuredControlNet":
        act, bias, deep, m = ctx.choice([a for a in FF_ACTS if a]), ctx.flip(), ctx.randint(0, 3), ctx.randint(1, 3)
        net = described(layers.StructuredControlNet(in_features=n, out_features=m, num_layers=deep, hidden_size=3, bias=bias, nonlinearity=act), act, bias)
        lins = [q for q in net.modules() if isinstance(q, nn.Linear)]
        ctx.check([(q.in_features, q.out_features) for q in lins] == [(n, m)] + [(a, b) for a, b in zip([n] + [3] * deep, [3] * deep + [m])] and (lins[0].bias is not None) == bias, "structured-layers", f"{net}")
        ctx.check((net.in_features, net.out_features, net.num_layers, net.hidden_size, net.bias, net.nonlinearity) == (n, m, deep, 3, bias, act), "structured-attributes", "")
        net.to(dtype)
        compare_rows(ctx, net, x, "structured")
    else:
        m, waves, bias = ctx.randint(1, 3), ctx.choice([0, 1, 2, 16]), ctx.flip()
        net = layers.LocomotorNet(in_features=n, out_features=m, bias=bias, **({} if waves == 16 else {"num_sinusoids": waves}))
        ctx.check((net.in_features, net.out_features, net.bias, net.num_sinusoids) == (n, m, bias, waves), "locomotor-attributes", "")
        for p in net.parameters():
            with torch.no_grad():
                p.copy_(torch.randn(p.shape, generator=ctx.gen))
        lin = [q for q in net.modules() if isinstance(q, nn.Linear)][0]
        rest = [to_np(p.detach()).astype(np.float64) for p in net.parameters() if all(p is not q for q in lin.parameters())]
        ctx.check(len(rest) == 3 * waves and (lin.bias is not None) == bias, "locomotor-parameters", f"{len(rest)} parameter tensors for {waves} waves")
        A, W, Ph = rest[:waves], rest[waves : 2 * waves], rest[2 * waves :]
        inner = net
        if ctx.flip():
            net = StatefulModule(net if ctx.flip() else MultiLayered(net, nn.Identity()))
        t = 0
        long = ctx.flip(0.15)
        for _ in range(ctx.choice([140, 270, 1030]) if long else ctx.randint(2, 7)):
            if ctx.flip(0.25) and not long:
                net.reset()
                t = 0
            z = vec(ctx, n, 1.0)
            want = to_np(lin.weight.detach()).astype(np.float64) @ to_np(z) + (0 if not bias else to_np(lin.bias.detach()))
            for a, w, q in zip(A, W, Ph):
                want = want + a * np.sin(w * t + q)
            ctx.check(inner.t == t, "locomotor-time", f"t is {inner.t}, expected {t}")
            ctx.close(to_np(net(z).detach()), want, "locomotor", f"LocomotorNet at t={t}", rtol=1e-3, atol=1e-4 + 1e-5 * t * (1 + waves))
            t += 1
            ctx.event("timesteps")
        if long:
            ctx.event("long_runs")
    ctx.state(name, len(shape), n, str(dtype))
    ctx.sample(layer=name, shape=shape)


def compare_rows(ctx, net, x, key):
    v = vec(ctx, total(net), dtype=x.dtype)
    nn.utils.vector_to_parameters(v, net.parameters())
    y = to_np(net(x).detach()).reshape(-1, net(x).shape[-1])
    for row, out in zip(to_np(x).reshape(-1, x.shape[-1]), y):
        ctx.close(out, Ref(net, to_np(v))(row), key, f"{type(net).__name__} of {row.tolist()}", **TOL)


@scenario("C27", quick=300, thorough=6000, needs=["steps", "resets", "explicit_states", "wrapped", "appended", "rejected", "recurrent", "feed_forward"])
def chains(ctx):
    """layer chains and the stateful wrapper over histories of steps and resets"""
    n = ctx.randint(1, 4)
    net, _ = random_net(ctx, n, top=5)
    mods = list(net) if isinstance(net, MultiLayered) else [net]
    chain = MultiLayered(*mods)
    if len(mods) > 1 and ctx.flip():
        chain = MultiLayered(*mods[:-1])
        chain.append(mods[-1])
        ctx.event("appended")
    ctx.check(len(chain) == len(mods) and all(a is b for a, b in zip(chain, mods)) and all(chain[i] is mods[i] for i in range(len(mods))), "chain-items", "the chain does not hold the given layers in order")
    v = vec(ctx, total(chain))
    nn.utils.vector_to_parameters(v, chain.parameters())
    ref = Ref(chain, to_np(v))
    rec = is_recurrent(chain)
    ctx.event("recurrent" if rec else "feed_forward")
    if ctx.flip():
        h = None
        kept = []
        for step in range(ctx.randint(1, 5)):
            if ctx.flip(0.2):
                h, ref.h = None, None
                ctx.event("resets")
            elif kept and ctx.flip(0.2):
                # an earlier state again: states are values
                h, ref.h = ctx.choice(kept)
            x = vec(ctx, n, 1.0)
            out = chain(x) if h is None else chain(x, h)
            want = ref(to_np(x))
            ctx.check(isinstance(out, tuple) == rec, "result", f"{type(out)} from a {'recurrent' if rec else 'feed-forward'} chain")
            y, h = out if rec else (out, None)
            ctx.close(to_np(y.detach()), want, "chain", f"output at step {step}", **TOL)
            if rec:
                compare_state(ctx, h, [ref.h], None)
                kept.append((h, copy.deepcopy(ref.h)))
            ctx.event("explicit_states")
            ctx.event("steps")
    else:
        s = ensure_stateful(chain)
        ctx.check(isinstance(s, StatefulModule) and ensure_stateful(s) is s and s.wrapped_module is chain, "wrapper", "")
        for step in range(ctx.randint(2, 6)):
            if ctx.flip(0.3):
                s.reset()
                ref.h = None
                ctx.event("resets")
            x = vec(ctx, n, 1.0)
            ctx.close(to_np(s(x).detach()), ref(to_np(x)), "stateful", f"output at step {step}", **TOL)
            ctx.event("steps")
        ctx.event("wrapped")

    class Odd(nn.Module):
        def __init__(self, what):
            super().__init__()
            self.what = what

        def forward(self, x):
            return self.what

    ctx.raises(ValueError, lambda: MultiLayered(Odd((x, x, x)))(x), "chain-triple", "a layer returning three values")
    ctx.raises(TypeError, lambda: MultiLayered(Odd("text"))(x), "chain-type", "a layer returning a string")
    ctx.event("rejected")
    ctx.state(rec, *[type(q).__name__ for q in mods])


class Scripted(nn.Module):
    """returns a state only in the steps asked for, and records what it receives"""

    def __init__(self, script, scale):
        super().__init__()
        self.script, self.scale, self.seen = list(script), scale, []

    def forward(self, x, h=None):
        self.seen.append(None if h is None else float(h))
        y = x * self.scale + (0.0 if h is None else h)
        return (y, torch.tensor(float(100 * len(self.seen)) + self.scale)) if self.script[len(self.seen) - 1] else y


@scenario("C27", quick=150, thorough=3000, needs=["chained", "wrapped", "state_appears", "state_disappears", "resets"])
def intermittent_states(ctx):
    """layers which return a state in some of the steps only get the state they returned in the step before, if any"""
    steps = ctx.randint(3, 8)
    mods = [Scripted([ctx.flip() for _ in range(steps)], s) for s in (2.0, 3.0, 5.0)[: ctx.randint(1, 3)]]
    wrapped = ctx.flip()
    chain = mods[0] if len(mods) == 1 and ctx.flip() else MultiLayered(*mods)
    run = ensure_stateful(chain) if wrapped else chain
    ctx.event("wrapped" if wrapped else "chained")
    want = [None] * len(mods)
    h = None
    for t in range(steps):
        if ctx.flip(0.15):
            ctx.event("resets")
            want, h = [None] * len(mods), None
            if wrapped:
                run.reset()
        x = y = float(ctx.randint(-3, 3))
        for i, m in enumerate(mods):
            y = y * m.scale + (want[i] or 0.0)
        out = run(torch.tensor([x])) if h is None else run(torch.tensor([x]), h)
        if not wrapped:
            out, h = out if isinstance(out, tuple) else (out, None)
        ctx.check([m.seen[-1] for m in mods] == want, "passed-state", f"step {t}: the layers received {[m.seen[-1] for m in mods]}, expected {want}")
        ctx.close(to_np(out), [y], "intermittent", f"output at step {t}")
        new = [100.0 * (t + 1) + m.scale if m.script[t] else None for m in mods]
        for a, b in zip(want, new):
            if a is None and b is not None:
                ctx.event("state_appears")
            elif a is not None and b is None:
                ctx.event("state_disappears")
        want = new
    ctx.state(wrapped, *[tuple(m.script) for m in mods])


@scenario("C27", quick=500, thorough=10000, needs=["steps", "whole_resets", "partial_resets", "by_mask", "by_indices", "some_parameters", "kept_state", "single", "batches", "actions_untouched", "exported", "recurrent", "from_text", "from_callable", "nested_states", "in_place", "lone_recurrent"])
def policies(ctx):
    n = ctx.randint(1, 4)
    how = ctx.choice(["module", "module", "callable", "text"])
    if how == "text":
        hid = ctx.randint(1, 3)
        text = ctx.choice(["RNN(n, m) >> Linear(m, 2)", "Linear(n, m) >> Tanh() >> LSTM(m, m)", "Linear(n, m, bias=False)"])
        pol = Policy(text, n=n, m=hid)
        net = pol.wrapped_module
        for q in net.modules():
            if isinstance(q, layers.RNN):
                described(q, "default")
        ctx.event("from_text")
    else:
        net, _ = random_net(ctx, n)
        if ctx.flip(0.25):
            net = ctx.choice([lambda: layers.LSTM(n, 2), lambda: described(layers.RNN(n, 2), "default")])()
            ctx.event("lone_recurrent")
        if how == "callable":
            pol = Policy(lambda other: net, other=1)
            ctx.event("from_callable")
        else:
            pol = Policy(net)
            ctx.raises(ValueError, lambda: Policy(net, extra=1), "policy-arguments", "network arguments for a network which exists already")
    rec = is_recurrent(net)
    if rec:
        ctx.event("recurrent")
    k = total(net)
    ctx.check(pol.parameter_length == k and pol.wrapped_module is net and pol.h is None, "policy-attributes", f"{pol.parameter_length}, expected {k}")
    ctx.raises(ValueError, lambda: pol(vec(ctx, n)), "policy-unset", "a policy without parameters")
    B = ctx.choice([None, 1, 2, 4, 5])
    ctx.event("single" if B is None else "batches")

    def fresh(count):
        return vec(ctx, k) if count is None else torch.stack([vec(ctx, k) for _ in range(count)])

    rows = []

    def refs_for(v):
        return [Ref(net, to_np(r)) for r in (v[None] if B is None else v)]

    v = fresh(B)
    pol.set_parameters(v.clone())
    rows = refs_for(v)
    held = []
    for step in range(ctx.randint(3, 8)):
        a = ctx.choice(["step", "step", "step", "reset", "partial", "partial", "params", "rows"])
        if a in ("partial", "rows") and B is None:
            a = "reset" if a == "partial" else "params"
        if a == "step":
            x = vec(ctx, n, 1.0) if B is None else torch.stack([vec(ctx, n, 1.0) for _ in range(B)])
            y = pol(x)
            want = [r(to_np(z)) for r, z in zip(rows, x[None] if B is None else x)]
            ctx.close(to_np(y.detach()), want[0] if B is None else np.stack(want), "policy", f"actions at step {step}", **TOL)
            held.append((y, to_np(y.detach()).copy()))
            # a state taken from the policy, kept for later
            held.extend((t, to_np(t.detach()).copy()) for t in flatten_state(pol.h))
            if rec:
                compare_policy_state(ctx, pol.h, rows, B)
            else:
                ctx.check(pol.h is None, "policy-state", "a feed-forward policy has a state")
            ctx.event("steps")
        elif a == "reset":
            pol.reset()
            for r in rows:
                r.h = None
            ctx.check(pol.h is None, "reset", "the state after a reset is not None")
            ctx.event("whole_resets")
        elif a == "partial":
            idx = sorted(ctx.rng.sample(range(B), ctx.randint(0, B)))
            if ctx.flip():
                ind = torch.tensor([i in idx for i in range(B)])
                ctx.event("by_mask")
            else:
                ind = torch.tensor(idx, dtype=torch.int64)
                ctx.event("by_indices")
            kw = {}
            if ctx.flip(0.2):
                kw["copy"] = ctx.flip()
                if not kw["copy"]:
                    held.clear()
                    ctx.event("in_place")
            pol.reset(ind, **kw)
            for i in idx:
                rows[i].h = zeros(rows[i].h)
            if rec:
                compare_policy_state(ctx, pol.h, rows, B)
            ctx.event("partial_resets")
        elif a == "params":
            keep = ctx.flip(0.3)
            v = fresh(B)
            pol.set_parameters(v.clone(), **({"reset": False} if keep else {}))
            new = refs_for(v)
            if keep:
                for r, q in zip(new, rows):
                    r.h = q.h
                ctx.event("kept_state")
            rows = new
        else:
            idx = sorted(ctx.rng.sample(range(B), ctx.randint(1, B)))
            ind = torch.tensor(idx) if ctx.flip() else torch.tensor([i in idx for i in range(B)])
            v = fresh(len(idx))
            keep = ctx.flip(0.3)
            pol.set_parameters(v.clone(), ind, **({"reset": False} if keep else {}))
            for i, r in zip(idx, refs_for(v)):
                r.h = rows[i].h if keep else zeros(rows[i].h)
                rows[i] = r
            ctx.event("some_parameters")
        for y, was in held:
            ctx.check(np.array_equal(to_np(y.detach()), was), "action-changed", "an action or a state returned earlier was changed later")
            ctx.event("actions_untouched")
    ctx.check(pol.parameters.shape == ((k,) if B is None else (B, k)), "policy-parameters", f"{tuple(pol.parameters.shape)}")
    # export
    w = vec(ctx, k)
    state = {q: t.clone() for q, t in net.state_dict().items()}
    m = pol.to_torch_module(w)
    ref = Ref(net, to_np(w))
    x = vec(ctx, n, 1.0)
    y = m(x)
    ctx.close(to_np((y[0] if isinstance(y, tuple) else y).detach()), ref(to_np(x)), "export", "output of the exported network", **TOL)
    ctx.check(all(torch.equal(t, state[q]) for q, t in net.state_dict().items()), "export-original", "exporting changed the wrapped network")
    ctx.event("exported")
    # the documented nested example, with other contents
    c = ctx.randint(2, 5)
    ts = [torch.randn(c, generator=ctx.gen), torch.randn(c, 2, generator=ctx.gen), torch.ones(c, 1, 2, dtype=torch.int64)]
    olds = [to_np(t).copy() for t in ts]
    idx = sorted(ctx.rng.sample(range(c), ctx.randint(0, c)))
    ind = ctx.choice([torch.tensor(idx, dtype=torch.int64), torch.tensor([i in idx for i in range(c)])] + ([list(idx)] if idx else []))
    reset_tensors([ts[0], {"a": ts[1], "b": ("text", (ts[2],)), "c": 5}], ind)
    for t, o in zip(ts, olds):
        o[idx] = 0
        ctx.check(np.array_equal(to_np(t), o), "reset-tensors", f"rows {idx}: {t.tolist()}, expected {o.tolist()}")
    ctx.event("nested_states")
    ctx.state(how, B, rec, *[type(q).__name__ for q in net.modules()])
    ctx.sample(network=[type(q).__name__ for q in net.modules()][:6], batch=B, made_from=how)


def zeros(h):
    """the state of a network which was reset within a batch"""
    if h is None:
        return None
    if isinstance(h, dict):
        return {k: zeros(v) for k, v in h.items()}
    if isinstance(h, tuple):
        return tuple(zeros(v) for v in h)
    return np.zeros_like(h)


def compare_policy_state(ctx, h, rows, B):
    if rows[0].h is None:
        ctx.check(h is None, "policy-state", "there is a state before the first step")
        return
    compare_state(ctx, h, [r.h for r in rows], B)
