"""Reference networks: layers computed with numpy in float64, with the values of a flat vector."""

import numpy as np
import torch
from evotorch.neuroevolution.net import layers
from evotorch.neuroevolution.net.multilayered import MultiLayered
from torch import nn


def sigmoid(x):
    return 1.0 / (1.0 + np.exp(-x))


ACT = {
    "Tanh": np.tanh,
    "ReLU": lambda x: np.maximum(x, 0),
    "Sigmoid": sigmoid,
    "SELU": lambda x: 1.0507009873554805 * np.where(x > 0, x, 1.6732632423543772 * (np.exp(np.minimum(x, 0)) - 1)),
    "ELU": lambda x: np.where(x > 0, x, np.exp(np.minimum(x, 0)) - 1),
    "Hardtanh": lambda x: np.clip(x, -1, 1),
    "Identity": lambda x: x,
}


def unflatten(net, vector):
    """the values of each parameter (by identity) according to a flat vector"""
    vector = np.asarray(vector, dtype=np.float64)
    out, at = {}, 0
    for p in net.parameters():
        n = p.numel()
        out[id(p)] = vector[at : at + n].reshape(tuple(p.shape))
        at += n
    assert at == len(vector)
    return out


class Tied(nn.Module):
    """two linear layers with the same weights, and a constant"""

    def __init__(self, n):
        super().__init__()
        self.first = nn.Linear(n, n)
        self.second = nn.Linear(n, n)
        self.second.weight = self.first.weight
        self.gain = nn.Parameter(torch.tensor(0.5))
        self.register_buffer("shift", torch.randn(n))

    def forward(self, x):
        return self.second(torch.tanh(self.first(x))) * self.gain + self.shift


class Turned(nn.Module):
    """a linear map whose weights are stored transposed, with a buffer"""

    def __init__(self, n, m):
        super().__init__()
        self.w = nn.Parameter(torch.randn(n, m).t())
        self.register_buffer("scale", torch.rand(n) + 0.5, persistent=False)

    def forward(self, x):
        return self.w @ (x * self.scale)


class Frozen(nn.Module):
    """a linear layer which is not trained by gradients"""

    def __init__(self, n, m):
        super().__init__()
        self.lin = nn.Linear(n, m)
        for p in self.lin.parameters():
            p.requires_grad_(False)

    def forward(self, x):
        return self.lin(x)


def described(module, *what):
    """remember how a module was made"""
    module.vm = what
    return module


def random_layer(ctx, n, recurrent=True, special=True):
    """(module, length of its output) for inputs of length n"""
    m = ctx.randint(1, 4)
    kinds = ["linear", "linear", "act", "act", "clip", "apply", "ff"]
    if recurrent:
        kinds += ["rnn", "lstm", "rnn", "lstm"]
    if special:
        kinds += ["tied", "turned", "frozen", "scn"]
    k = ctx.choice(kinds)
    if k == "linear":
        return nn.Linear(n, m, bias=ctx.flip(0.7)), m
    if k == "act":
        return getattr(nn, ctx.choice(sorted(ACT)))(), n
    if k == "clip":
        lb, ub = ctx.choice([(-0.7, 0.9), (0.1, 2), (-3, -1)])
        return described(layers.Clip(lb, ub), lb, ub), n
    if k == "apply":
        op, arg = ctx.choice(["+", "-", "*", "/"]), ctx.choice([0.5, -2.0, 3.0])
        return described(layers.Apply(op, arg), op, arg), n
    if k == "ff":
        acts = [ctx.choice(FF_ACTS), None]
        return described(layers.FeedForwardNet(n, [(3, acts[0]), (m, None, False)]), *acts), m
    if k == "rnn":
        act = ctx.choice(["tanh", "relu", "sigmoid", "default"])
        return described(layers.RNN(n, m, *([] if act == "default" else [act])), act), m
    if k == "lstm":
        return layers.LSTM(n, m), m
    if k == "tied":
        return Tied(n), n
    if k == "turned":
        return Turned(n, m), m
    if k == "frozen":
        return Frozen(n, m), m
    act, bias, deep = ctx.choice(["tanh", "relu"]), ctx.flip(), ctx.randint(0, 2)
    return described(layers.StructuredControlNet(in_features=n, out_features=m, num_layers=deep, hidden_size=2, bias=bias, nonlinearity=act), act, bias), m


FF_ACTS = ["tanh", "relu", "selu", "elu", "hardtanh", "sigmoid", None]
BY_NAME = {"tanh": np.tanh, "relu": ACT["ReLU"], "selu": ACT["SELU"], "elu": ACT["ELU"], "hardtanh": ACT["Hardtanh"], "sigmoid": sigmoid, None: ACT["Identity"], "default": np.tanh}


def run_layer(mod, P, x, h):
    """output and new state of one layer; P: values of the parameters and buffers"""

    def g(t):
        return P[id(t)]

    def linear(lin, x):
        y = g(lin.weight) @ x
        return y + g(lin.bias) if lin.bias is not None else y

    if isinstance(mod, nn.Linear):
        return linear(mod, x), None
    for a, f in ACT.items():
        if type(mod) is getattr(nn, a):
            return f(x), None
    if isinstance(mod, nn.Dropout):
        return x, None
    if isinstance(mod, layers.Clip):
        return np.clip(x, *mod.vm), None
    if isinstance(mod, layers.Apply):
        o, c = mod.vm
        return {"+": lambda: x + c, "-": lambda: x - c, "*": lambda: x * c, "/": lambda: x / c, "**": lambda: x**c}[o](), None
    if isinstance(mod, layers.RNN):
        hh = np.zeros(mod.hidden_size) if h is None else h
        y = BY_NAME[mod.vm[0]](g(mod.W1) @ x + g(mod.b1) + g(mod.W2) @ hh + g(mod.b2))
        return y, y
    if isinstance(mod, layers.LSTM):
        hp, cp = (np.zeros(mod.hidden_size), np.zeros(mod.hidden_size)) if h is None else h

        def lin(q):
            return g(getattr(mod, f"W_i{q}")) @ x + g(getattr(mod, f"b_i{q}")) + g(getattr(mod, f"W_h{q}")) @ hp + g(getattr(mod, f"b_h{q}"))

        i, f, c, o = sigmoid(lin("i")), sigmoid(lin("f")), np.tanh(lin("g")), sigmoid(lin("o"))
        cn = f * cp + i * c
        hn = o * np.tanh(cn)
        return hn, (hn, cn)
    if isinstance(mod, layers.FeedForwardNet):
        lins = [q for q in mod.modules() if isinstance(q, nn.Linear)]
        for q, act in zip(lins, mod.vm):
            x = BY_NAME[act](linear(q, x))
        return x, None
    if isinstance(mod, layers.StructuredControlNet):
        lins = [q for q in mod.modules() if isinstance(q, nn.Linear)]
        y = x
        for q in lins[1:]:
            y = BY_NAME[mod.vm[0]](linear(q, y))
        return linear(lins[0], x) + y, None
    if isinstance(mod, Tied):
        return linear(mod.second, np.tanh(linear(mod.first, x))) * g(mod.gain) + g(mod.shift), None
    if isinstance(mod, Turned):
        return g(mod.w) @ (x * g(mod.scale)), None
    if isinstance(mod, Frozen):
        return linear(mod.lin, x), None
    if isinstance(mod, MultiLayered):
        new = {}
        for i, layer in enumerate(mod):
            x, s = run_layer(layer, P, x, None if h is None else h.get(i))
            if s is not None:
                new[i] = s
        return x, new or None
    if isinstance(mod, nn.Sequential):
        for layer in mod:
            x, _ = run_layer(layer, P, x, None)
        return x, None
    raise TypeError(type(mod))


class Ref:
    """a network with the parameters of a flat vector, run step by step"""

    def __init__(self, net, vector):
        self.net = net
        self.P = unflatten(net, vector)
        for b in net.buffers():
            self.P[id(b)] = b.detach().numpy().astype(np.float64).copy()
        self.h = None

    def __call__(self, x):
        y, self.h = run_layer(self.net, self.P, np.asarray(x, dtype=np.float64), self.h)
        return y


def is_recurrent(net):
    return any(isinstance(m, (layers.RNN, layers.LSTM)) for m in net.modules())


def random_net(ctx, n, recurrent=True, special=True, top=4):
    """a chain of 1 to top layers; returns (module, output length)"""
    mods = []
    k = n
    for _ in range(ctx.randint(1, top)):
        m, k = random_layer(ctx, k, recurrent, special)
        mods.append(m)
    if not any(len(list(m.parameters())) for m in mods):
        mods.append(nn.Linear(k, 2))
        k = 2
    if len(mods) == 1 and ctx.flip():
        return mods[0], k
    if not any(is_recurrent(m) for m in mods) and ctx.flip():
        return nn.Sequential(*mods), k
    return MultiLayered(*mods), k
