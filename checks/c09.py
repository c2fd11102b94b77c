"""C09: rank-based fitness shaping."""

import numpy as np
import torch
from evotorch.tools.ranking import rank, rankers

from vmon.compare import to_np
from vmon.engine import rule, scenario
from vmon.guards import Frozen

rule("C09", "A case is one fitness tensor (with ties, infinities, tiny differences, several shapes) ranked by every method in both directions.")
ASSUMPTIONS = [
    "fitness tensors are floating point, free of NaN and have at least two elements (the documented scales do not exist for one element)",
    "for the 'normalized' method the fitnesses are finite and not all equal",
]


def _weights(method, n):
    """weights from the worst to the best, in float64"""
    i = np.arange(n, dtype=np.float64)
    if method == "centered":
        return i / (n - 1) - 0.5
    if method == "linear":
        return i / (n - 1)
    if method == "nes":
        # rank 0 is the best in the article
        u = np.maximum(0.0, np.log(n / 2.0 + 1.0) - np.log(n - i))
        return u / u.sum() - 1.0 / n
    raise AssertionError(method)


def fitnesses(ctx, n, allow_inf=True):
    kind = ctx.choice(["normal", "ties", "big", "tiny", "ints", "sorted", "reversed", "inf", "neg", "close", "span"])
    r = ctx.np
    if kind == "normal":
        x = r.normal(size=n)
    elif kind == "ties":
        x = r.integers(0, max(2, n // 3), size=n).astype(float)
    elif kind == "big":
        x = r.normal(size=n) * 1e20
    elif kind == "tiny":
        x = r.normal(size=n) * 1e-20
    elif kind == "ints":
        x = r.permutation(n).astype(float) - n // 2
    elif kind == "sorted":
        x = np.sort(r.normal(size=n))
    elif kind == "reversed":
        x = -np.sort(r.normal(size=n))
    elif kind == "inf":
        x = r.normal(size=n)
        if allow_inf:
            x[r.integers(0, n)] = np.inf
            x[r.integers(0, n)] = -np.inf
    elif kind == "span":
        # very different sizes next to each other
        x = r.permutation(10.0 ** np.linspace(-8, 12, n)) * ctx.choice([1, -1])
    elif kind == "neg":
        x = -np.abs(r.normal(size=n)) - 5
    else:
        x = 1000.0 + r.permutation(n) * 1e-3
    return kind, x


@scenario("C09", quick=1600, thorough=40000, needs=["method_nes", "method_centered", "method_linear", "method_normalized", "method_raw", "ties"])
def ranking_of_fitnesses(ctx):
    n = ctx.choice([2, 3, 4, 5, 7, 16, 33, 100, 257])
    dtype = ctx.choice([torch.float32, torch.float32, torch.float64])
    kind, x = fitnesses(ctx, n)
    t = torch.tensor(x, dtype=dtype)
    shape = (n,)
    if n % 4 == 0 and ctx.flip(0.3):
        shape = (n // 4, 4)
        t = t.reshape(shape)
    if ctx.flip(0.15):
        # not contiguous in memory
        t = torch.stack([t, t * 0 + 1], dim=-1)[..., 0]
    xs = to_np(t).astype(np.float64).reshape(-1)
    has_ties = len(set(xs.tolist())) < n
    if has_ties:
        ctx.event("ties")
    for method in sorted(rankers):
        for higher in (True, False):
            if method == "normalized" and (not np.all(np.isfinite(xs)) or np.std(xs) == 0 or kind in ("close", "big", "tiny", "span")):
                continue
            ctx.event("method_" + method)
            ctx.state(method, higher, n, kind, str(dtype), len(shape))
            f = rankers[method]
            with Frozen(ctx, "input-modified", fitnesses=t):
                if ctx.flip():
                    w = f(t, higher_is_better=higher)
                elif len(shape) == 1 and ctx.flip(0.4) and dtype is torch.float32:
                    w = rank(t.tolist(), method, higher_is_better=higher)
                else:
                    w = rank(t, method, higher_is_better=higher)
            ctx.check(tuple(w.shape) == tuple(t.shape), f"shape:{method}", f"{tuple(w.shape)} for input {tuple(t.shape)}")
            ctx.check(w.dtype == t.dtype, f"dtype:{method}", f"{w.dtype} for {t.dtype}")
            ww = to_np(w).astype(np.float64).reshape(-1)
            s = xs if higher else -xs
            order = np.argsort(s, kind="stable")
            # the sorted weights must not decrease between groups of different fitness
            so, wo = s[order], ww[order]
            tol = 1e-12 if dtype is torch.float64 else 1e-6
            bad = [(i, so[i], wo[i], so[i + 1], wo[i + 1]) for i in range(n - 1) if so[i] < so[i + 1] and wo[i] > wo[i + 1] + tol]
            ctx.check(not bad, f"order:{method}:{'max' if higher else 'min'}", lambda: f"worse solution got the higher weight: {bad[:2]}")
            if method in ("centered", "linear", "nes"):
                ctx.close(np.sort(ww), _weights(method, n), f"scale:{method}", f"n={n}", rtol=1e-4, atol=1e-5)
                if not has_ties:
                    ctx.close(wo, _weights(method, n), f"weights:{method}:{'max' if higher else 'min'}", f"n={n}", rtol=1e-4, atol=1e-5)
                    # depends on the order only
                    fin = np.argsort(np.argsort(xs)).astype(np.float64)
                    y = torch.tensor(np.exp(fin / n * 3.0) - 7.0, dtype=dtype).reshape(shape)
                    ctx.close(f(y, higher_is_better=higher), w, f"order-only:{method}", "ranks of a monotone transformation")
                if method == "nes":
                    ctx.close(ww.sum(), 0.0, "nes-zero-sum", "sum of utilities", atol=1e-4)
            elif method == "raw":
                ctx.same(w, t if higher else -t, "raw-values", f"higher_is_better={higher}")
            else:
                exp = (s - s.mean()) / s.std(ddof=1)
                ctx.close(ww, exp, "normalized-values", "mean 0, deviation 1", rtol=1e-3, atol=2e-4 * max(1.0, abs(s.mean()) / s.std(ddof=1)))
                a, b = ctx.choice([0.5, 2.0, 4.0]), ctx.choice([0.0, 1.0, -2.0])
                ctx.close(f(t * a + b, higher_is_better=higher), w, "normalized-affine", f"{a} * f + {b}", rtol=1e-2, atol=2e-3 * max(1.0, abs(s.mean()) / s.std(ddof=1)))
    # opposite direction on negated values gives the same weights
    if not has_ties:
        for method in sorted(rankers):
            if method == "normalized" and (not np.all(np.isfinite(xs)) or np.std(xs) == 0 or kind in ("close", "big", "tiny")):
                continue
            ctx.close(rankers[method](t, higher_is_better=True), rankers[method](-t, higher_is_better=False), f"symmetry:{method}", "max f versus min -f", rtol=1e-3, atol=1e-4)
    ctx.sample(n=n, kind=kind, dtype=str(dtype), shape=shape, first=xs[:4].tolist())
