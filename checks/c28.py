"""C28: network strings build exactly the described network."""

import numpy as np
import torch
from evotorch.neuroevolution.net import MultiLayered, NetParsingError, layers, str_to_net
from torch import nn

from vmon.compare import to_np
from vmon.engine import rule, scenario

rule("C28", "A case is one generated description (layers, literals, named and indexed constants, free layout) or one malformed description; the built network is compared with the layers constructed directly, or the error is observed.")
ASSUMPTIONS = []

# name, positional arguments, keyword arguments; a value is written as a literal or through a constant
RECIPES = [
    ("Linear", (4, 4), {}),
    ("Linear", (4, 4), {"bias": False}),
    ("Linear", (), {"in_features": 4, "out_features": 4, "bias": True}),
    ("Tanh", (), {}),
    ("ReLU", (), {"inplace": False}),
    ("LeakyReLU", (0.25,), {}),
    ("LeakyReLU", (), {"negative_slope": 0.125}),
    ("ELU", (1.5,), {}),
    ("CELU", (), {"alpha": 0.75}),
    ("SELU", (), {}),
    ("GELU", (), {"approximate": "tanh"}),
    ("Sigmoid", (), {}),
    ("Softplus", (2, 10), {}),
    ("Hardtanh", (-2.5, 0.5), {}),
    ("Hardtanh", (), {"min_val": -0.5, "max_val": 3}),
    ("Softmax", (-1,), {}),
    ("LogSoftmax", (), {"dim": -1}),
    ("LayerNorm", (4,), {}),
    ("LayerNorm", ([4],), {"elementwise_affine": False}),
    ("Threshold", (0.1, -20.0), {}),
    ("Softshrink", (0.3,), {}),
    ("Hardshrink", (), {"lambd": 0.4}),
    ("Identity", (), {}),
    ("PReLU", (), {"num_parameters": 1, "init": 0.3}),
    ("Dropout", (0.0,), {}),
    ("Flatten", (0,), {}),
    ("Unflatten", (0, (4,)), {}),
    ("Mish", (), {}),
    ("SiLU", (), {}),
    ("Softsign", (), {}),
    ("Tanhshrink", (), {}),
    ("Clip", (-1, 1.5), {}),
    ("Clip", (), {"lb": -0.25, "ub": 0.75}),
    ("Bin", (-1.0, 2), {}),
    ("Slice", (0, 4), {}),
    ("Round", (), {}),
    ("Round", (2,), {}),
    ("Apply", ("+", 3), {}),
    ("Apply", ("*", -0.5), {}),
    ("Apply", (), {"operator": "-", "argument": 1e-1}),
    ("RNN", (4, 4), {}),
    ("RNN", (4, 4, "relu"), {}),
    ("RNN", (), {"input_size": 4, "hidden_size": 4, "nonlinearity": "tanh"}),
    ("LSTM", (4, 4), {}),
    ("LSTM", (), {"input_size": 4, "hidden_size": 4}),
    ("FeedForwardNet", (4, [(8, "tanh"), (4, "relu", False)]), {}),
    ("FeedForwardNet", (), {"input_size": 4, "layers": [(4, None)]}),
    ("StructuredControlNet", (), {"in_features": 4, "out_features": 4, "num_layers": 2, "hidden_size": 3, "bias": False, "nonlinearity": "tanh"}),
    ("LocomotorNet", (), {"in_features": 4, "out_features": 4, "bias": False, "num_sinusoids": 2}),
    ("RecurrentNet", (4, 4), {}),
    ("LSTMNet", (4, 4), {}),
]
# classes of the library which torch has too: the library's come first
NAMES = sorted({r[0] for r in RECIPES})


def find(name):
    return getattr(layers, name) if hasattr(layers, name) else getattr(nn, name)


def facts(m):
    """what a module was made with"""
    d = {k: v for k, v in vars(m).items() if isinstance(v, (int, float, str, bool, tuple, list, type(None))) and k not in ("training",)}
    return type(m), repr(m), [(k, tuple(p.shape), p.requires_grad, p.dtype) for k, p in m.named_parameters()], sorted(d.items(), key=lambda q: q[0])


class Writer:
    def __init__(self, ctx):
        self.ctx, self.constants = ctx, {}

    def value(self, v):
        ctx = self.ctx
        k = ctx.choice(["literal", "literal", "name", "index"])
        if k == "literal":
            t = repr(v)
            if isinstance(v, bool) or not isinstance(v, (int, float)) or v < 0:
                return t
            c = ctx.choice(["plain", "plus", "paren"])
            return t if c == "plain" else f"(+{t})" if c == "plus" else f"({t})"
        n = len(self.constants)
        if k == "name":
            # a constant may also be called like a layer: what is called is a layer all the same
            c = ctx.choice([f"c{n}", f"_x{n}", f"size_{n}", f"Linear{n}", f"ö{n}", "Tanh", "Linear", "RNN"])
            if c in self.constants:
                c = f"c{n}"
            elif c in ("Tanh", "Linear", "RNN"):
                ctx.event("named_like_layer")
            self.constants[c] = v
            ctx.event("named")
            return c
        name = f"s{n}"
        kind = ctx.choice(["tuple", "list", "dict", "array"])
        if kind == "dict":
            ctx.event("indexed")
            # keys which look alike are different keys
            for key, form in (("1", "'1'"), (1, "1"), (2.5, "2.5"), (True, "True"), ("0", '"0"'), (None, "None"), ("a b", "'a b'")):
                if ctx.flip(0.12):
                    self.constants[name] = {**{q: "wrong" for q in ("1", 0, 2, 1.5, "0", "k", 1, 2.5, (1, 2), None, "a b", "True")}, key: v}
                    ctx.event("unusual_key")
                    return f"{name}[{form}]"
            self.constants[name] = {"k": v, 0: "wrong", "other": None}
            return f"{name}['k']" if ctx.flip() else f'{name}[ "k" ]'
        i = ctx.randint(0, 2)
        vals = ["wrong", None, ()]
        vals[i] = v
        self.constants[name] = vals if kind == "list" else tuple(vals)
        ctx.event("indexed")
        return f"{name}[{i}]"

    def call(self, recipe):
        ctx = self.ctx
        name, args, kw = recipe
        parts = [self.value(a) for a in args] + [f"{k}{ctx.choice(['=', ' = '])}{self.value(v)}" for k, v in ctx.rng.sample(sorted(kw.items(), key=lambda q: q[0]), len(kw))]
        if parts:
            ctx.event("arguments", len(parts))
        sep = ctx.choice([",", ", ", " ,  ", ",\n  "])
        tail = "," if parts and ctx.flip(0.15) else ""
        return f"{name}{ctx.choice(['', ' '])}({sep.join(parts)}{tail})"

    def chain(self, texts):
        """the texts joined by >>, with parentheses anywhere"""
        ctx = self.ctx
        if len(texts) == 1:
            return f"({texts[0]})" if ctx.flip(0.15) else texts[0]
        if ctx.flip(0.3):
            k = ctx.randint(1, len(texts) - 1)
            ctx.event("grouped")
            return f"({self.chain(texts[:k])}) >> ({self.chain(texts[k:])})"
        sep = ctx.choice([" >> ", ">>", "\n>> ", " >>\n    ", " >>  # a comment >> Tanh()\n"])
        return sep.join(texts)


@scenario("C28", quick=700, thorough=15000, needs=["built", "single", "chained", "grouped", "named", "indexed", "arguments", "outputs", "unused_constants", "padded", "named_like_layer", "unusual_key", "string_like_layer"] + [f"layer:{n}" for n in NAMES])
def descriptions(ctx):
    w = Writer(ctx)
    first = RECIPES[ctx.index % len(RECIPES)]
    recipes = [first] + [ctx.choice(RECIPES) for _ in range(ctx.choice([0, 0, 1, 2, 4]))]
    ctx.rng.shuffle(recipes)
    text = w.chain([w.call(r) for r in recipes])
    if ctx.flip(0.3):
        w.constants["never_used"] = object()
        ctx.event("unused_constants")
    if ctx.flip(0.3):
        # names of layers, given as constants, name nothing
        for q in ctx.rng.sample(NAMES, 2):
            w.constants.setdefault(q, ctx.choice(["Tanh", "Linear", "ReLU", "Bin", 3]))
        ctx.event("string_like_layer")
    if ctx.flip(0.3):
        text = ctx.choice(["\n\n  {}\n", "   {}  ", "{}  # the end", "\t{}\n\n"]).format(text)
        ctx.event("padded")
    ctx.note(text, {k: str(v) for k, v in w.constants.items()})
    given = dict(w.constants)
    net = str_to_net(text, **w.constants)
    ctx.check(w.constants == given, "constants-changed", "")
    want = [find(name)(*args, **kw) for name, args, kw in recipes]
    if len(recipes) == 1:
        got = [net]
        ctx.event("single")
    else:
        ctx.check(isinstance(net, MultiLayered), "chain-type", f"{type(net)} for {text}")
        got = list(net)
        ctx.event("chained")
    ctx.check([type(a) for a in got] == [type(b) for b in want], "layers", f"{text}: built {[type(a).__name__ for a in got]}")
    for a, b, r in zip(got, want, recipes):
        ctx.check(facts(a) == facts(b), f"arguments:{r[0]}", lambda: f"{text}: built {facts(a)}, described {facts(b)}")
        ctx.event(f"layer:{r[0]}")
    # the same function
    k = sum(p.numel() for p in net.parameters())
    ref = want[0] if len(want) == 1 else MultiLayered(*want)
    v = torch.randn(k, generator=ctx.gen) * 0.5
    with torch.no_grad():
        for m in (net, ref):
            if k:
                nn.utils.vector_to_parameters(v, m.parameters())
        x = torch.randn(4, generator=ctx.gen)
        ya, yb = net(x), ref(x)
        ya, yb = (ya[0] if isinstance(ya, tuple) else ya), (yb[0] if isinstance(yb, tuple) else yb)
    ctx.check(np.array_equal(to_np(ya), to_np(yb), equal_nan=True), "output", f"{text}: {ya} != {yb}")
    ctx.event("outputs")
    ctx.event("built")
    ctx.state(text)
    ctx.sample(description=text[:120])


class Trap:
    """a constant which reports being used for anything but indexing"""

    def __init__(self):
        self.touched = []

    def __call__(self, *a, **k):
        self.touched.append("call")
        return 4

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        self.touched.append(name)
        return self

    def __add__(self, o):
        self.touched.append("add")
        return 4

    __radd__ = __mul__ = __rmul__ = __sub__ = __neg__ = __add__

    def __iter__(self):
        self.touched.append("iter")
        return iter([4, 4])

    def keys(self):
        self.touched.append("keys")
        return ["bias"]


BAD = [
    # syntax
    "Linear(4, 4",
    "Linear 4, 4",
    "Linear(4, 4) >> ",
    ">> Linear(4, 4)",
    "Linear(4, 4) >> >> Tanh()",
    "Linear(4,, 4)",
    "Linear(4, 4) Tanh()",
    "Linear(4, bias=)",
    "Linear(bias=True, 4)",
    "Linear(4, 4, bias=True, bias=False)",
    "x = Linear(4, 4)",
    "import os",
    "Linear(4, 4); Tanh()",
    "return Linear(4, 4)",
    # not a chain of layers
    "",
    "   \n ",
    "# nothing",
    "4",
    "'Linear(4, 4)'",
    "Tanh",
    "c",
    "Linear(4, 4), Tanh()",
    "[Linear(4, 4), Tanh()]",
    "{'a': Tanh()}",
    "Linear(4, 4) >> Tanh",
    "Linear(4, 4) >> 3",
    "3 >> Linear(4, 4)",
    "Linear(4, 4) >> c",
    "lambda: Linear(4, 4)",
    "Linear(4, 4) if True else Tanh()",
    "(Tanh() for i in c)",
    "[Tanh() for i in c]",
    "(y := Tanh())",
    "not Tanh()",
    "Tanh() and Tanh()",
    "Tanh() > Tanh()",
    "f'{Tanh()}'",
    # other operators
    "Linear(4, 4) << Tanh()",
    "Linear(4, 4) + Tanh()",
    "Linear(4, 4) | Tanh()",
    "Linear(4, 4) @ Tanh()",
    "Linear(4, 4) >> Tanh() + Tanh()",
    "Linear(4, 4) ** 2",
    # unknown or other names
    "NoSuchLayer(4)",
    "linear(4, 4)",
    "Linear(4, 4) >> NoSuchLayer()",
    "print(4)",
    "eval('4')",
    "__import__('os')",
    "exec('pass')",
    "open('x')",
    "torch(4)",
    "nn(4)",
    "nnf()",
    "List(4)",
    "Callable()",
    "Parameter()",
    "Tuple()",
    "init(4)",
    "factory_kwargs({})",
    "functional()",
    "ParameterError(1)",
    "__doc__()",
    "__file__()",
    "__builtins__('eval')",
    # dotted names and indirect calls
    "nn.Linear(4, 4)",
    "torch.nn.Linear(4, 4)",
    "os.getcwd()",
    "c.run()",
    "Tanh()()",
    "Linear(4, 4).double()",
    "c[0](4, 4)",
    "(lambda: 4)()",
    "Linear(4, 4) >> c.tanh()",
    # arguments
    "Linear(4, unknown)",
    "Linear(unknown, 4)",
    "Linear(4, 4, bias=unknown)",
    "Linear(unknown[0], 4)",
    "Linear(4, c + 1)",
    "Linear(4, 2 * 2)",
    "Linear(4, 8 // 2)",
    "Linear(4, -c)",
    "Linear(4, c())",
    "Linear(4, c.x)",
    "Linear(4, c.x[0])",
    "Linear(4, t[9])",
    "Linear(4, t['k'])",
    "Linear(4, d['absent'])",
    "Linear(4, t[0:1])",
    "Linear(4, t[i])",
    "Linear(4, t[t])",
    "Linear(4, t[c()])",
    "Linear(4, d[c.x])",
    "Linear(4, t[0][0])",
    "Linear(4, (1, 2)[0])",
    "Linear(4, max(4, 4))",
    "Linear(4, int('4'))",
    "Linear(4, 4 if True else 3)",
    "Linear(4, lambda: 4)",
    "Linear(4, [x for x in t])",
    "Linear(4, (q := 4))",
    "Linear(4, not True)",
    "Linear(4, 1 < 2)",
    "Linear(4, f'{c}')",
    "Linear(*t)",
    "Linear(*c)",
    "Linear(**d)",
    "Linear(4, 4, **d)",
    "Linear(4, 4, **c)",
    "FeedForwardNet(4, [(c, 'tanh')])",
    "FeedForwardNet(4, [(4, c.x)])",
    "Apply('+', t[-1] + 1)",
]


@scenario("C28", quick=400, thorough=4000, needs=["rejected", "untouched", "explained", "in_a_chain"])
def malformed(ctx):
    base = BAD[ctx.index % len(BAD)]
    text = base
    ok = ctx.choice(["Linear(4, 4)", "Tanh()", "RNN(4, 4)"])
    whole = base.strip() == "" or base.strip().startswith("#")
    c = ctx.index // len(BAD)
    if c and not whole:
        text = [f"{ok} >> {base}", f"{base} >> {ok}", f"\n  {base}\n", f"({base})"][c % 4]
        ctx.event("in_a_chain")
    trap = Trap()
    ctx.note(text)
    consts = {"c": trap, "t": (4, 5), "d": {"k": 4}, "i": 0}
    err = None
    try:
        got = str_to_net(text, **consts)
    except NetParsingError as e:
        err = e
    except Exception as e:
        ctx.fail(f"error-type:{type(e).__name__}", f"{text!r} raised {type(e).__name__}: {e} instead of a parsing error")
    ctx.check(err is not None, "accepted", lambda: f"{text!r} was accepted as {got}")
    ctx.check(not trap.touched, "executed", f"{text!r} made use of a constant: {trap.touched}")
    ctx.event("untouched")
    ctx.check(isinstance(err.message, str) and len(err.message) > 0 and err.message in str(err) and err.message in repr(err), "message", f"{err}")
    if "unknown" in text and "(unknown" in text.replace(" ", ""):
        ctx.check("unknown" in str(err), "message", f"the message does not name the unknown constant: {err}")
    ctx.event("explained")
    ctx.event("rejected")
    ctx.state(text)
    ctx.sample(description=text, error=str(err)[:100])
