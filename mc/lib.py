"""Domains, reference kernels and helpers shared by the checks.

Nothing in here calls coreax to obtain an expected value: the reference kernels and
objectives are independent float64 numpy code.  coreax is only ever the system under
exploration.
"""

from __future__ import annotations

import itertools
import math

import equinox as eqx
import jax
import jax.numpy as jnp
import jax.random as jr
import numpy as np

import coreax
import coreax.kernels as ck
import coreax.solvers as cs
from coreax import Coresubset, Data, PseudoCoreset, SupervisedData

F32 = np.float32

# --------------------------------------------------------------------------- domains
V3 = (0.0, 1.0, 2.3)
V4 = (0.0, 1.0, 2.3, -0.7)
P2 = ((0.0, 0.0), (1.0, 0.3), (-0.4, 1.7), (2.1, -0.6))
P2S = ((0.0, 0.0), (1.0, 0.3), (-0.4, 1.7))


def pts(values):
    """Points as an array (k, d)."""
    arr = np.asarray(values, dtype=np.float64)
    return arr[:, None] if arr.ndim == 1 else arr


def tuples(values, n):
    """All ordered n-tuples of points: (k**n, n, d)."""
    base = pts(values)
    idx = np.array(list(itertools.product(range(len(base)), repeat=n)), dtype=int)
    return base[idx.reshape(-1, n)]


def multisets(values, n):
    """All multisets of n points, in one fixed order each."""
    base = pts(values)
    idx = np.array(list(itertools.combinations_with_replacement(range(len(base)), n)),
                   dtype=int)
    return base[idx.reshape(-1, n)]


def weightings(levels, n, positive=1):
    """All weight vectors over the levels with at least `positive` positive entries."""
    out = [w for w in itertools.product(levels, repeat=n)
           if sum(v > 0 for v in w) >= positive]
    return np.array(out, dtype=np.float64).reshape(-1, n)


def cross(xs, ws):
    """Cross product of a stack of datasets and a stack of weight vectors."""
    b, k = len(xs), len(ws)
    return np.repeat(xs, k, axis=0), np.tile(ws, (b, 1))


def weyl(n, d, scale=3.0, seed=0):
    """Deterministic irregular points (a Weyl sequence): no two distances coincide."""
    i = np.arange(1, n + 1)[:, None]
    alpha = np.sqrt(np.array([2, 3, 5, 7, 11, 13, 17, 19][:d]))[None, :]
    return scale * ((i * alpha * (1 + 0.01 * seed) + 0.37 * seed) % 1.0)


def family(n, d):
    """Structured datasets of any size: irregular, duplicated, clustered, offset."""
    base = weyl(n, d)
    out = [base]
    out.append(base[np.arange(n) // 2])  # duplicates in consecutive pairs
    out.append(np.where((np.arange(n) % 2 == 0)[:, None], 0.02 * base, 4 + 0.3 * base))
    out.append(base[::-1] * np.array([1.0] + [0.0] * (d - 1)) + 100.0)  # offset, flat
    out.append(np.round(base))  # ties
    return np.stack(out)


def chunks(arrays, size):
    n = len(arrays[0])
    for s in range(0, n, size):
        yield tuple(a[s:s + size] for a in arrays)


# ------------------------------------------------------------------ reference kernels
def _sq(x, y):
    diff = x[..., :, None, :] - y[..., None, :, :]
    return (diff * diff).sum(-1)


def _l1(x, y):
    return np.abs(x[..., :, None, :] - y[..., None, :, :]).sum(-1)


def _dot(x, y):
    return np.einsum("...nd,...md->...nm", x, y)


class K:
    """A kernel: how to build it in coreax, and its reference formula."""

    def __init__(self, name, make, fn, const_diag=True, smooth=True):
        self.name, self.make, self.fn = name, make, fn
        self.const_diag, self.smooth = const_diag, smooth

    def __call__(self, x, y):
        return self.fn(np.asarray(x, np.float64), np.asarray(y, np.float64))


def se(l=1.0, s=1.0):
    return K(f"se({l},{s})",
             lambda: ck.SquaredExponentialKernel(length_scale=l, output_scale=s),
             lambda x, y: s * np.exp(-_sq(x, y) / (2 * l * l)))


def imq(l=1.0, s=1.0):
    return K(f"pcimq({l},{s})",
             lambda: ck.PCIMQKernel(length_scale=l, output_scale=s),
             lambda x, y: s / np.sqrt(1 + _sq(x, y) / (2 * l * l)))


def laplace(l=1.0, s=1.0):
    return K(f"laplacian({l},{s})",
             lambda: ck.LaplacianKernel(length_scale=l, output_scale=s),
             lambda x, y: s * np.exp(-_l1(x, y) / (2 * l * l)), smooth=False)


def expo(l=1.0, s=1.0):
    return K(f"exponential({l},{s})",
             lambda: ck.ExponentialKernel(length_scale=l, output_scale=s),
             lambda x, y: s * np.exp(-np.sqrt(_sq(x, y)) / (2 * l * l)), smooth=False)


def rq(l=1.0, s=1.0, a=1.0):
    return K(f"rational({l},{s},{a})",
             lambda: ck.RationalQuadraticKernel(length_scale=l, output_scale=s,
                                                relative_weighting=a),
             lambda x, y: s * (1 + _sq(x, y) / (2 * a * l * l)) ** (-a))


def linear(s=1.0, c=0.0):
    return K(f"linear({s},{c})",
             lambda: ck.LinearKernel(output_scale=s, constant=c),
             lambda x, y: s * _dot(x, y) + c, const_diag=False)


def poly(s=1.0, c=0.0, deg=2):
    return K(f"polynomial({s},{c},{deg})",
             lambda: ck.PolynomialKernel(output_scale=s, constant=c, degree=deg),
             lambda x, y: s * (_dot(x, y) + c) ** deg, const_diag=False)


def matern(l=1.0, s=1.0, p=1):
    def fn(x, y):
        r = np.sqrt(2 * p + 1) * np.sqrt(_sq(x, y)) / l
        tot = 0.0
        for i in range(p + 1):
            tot = tot + (math.factorial(p + i)
                         / (math.factorial(i) * math.factorial(p - i))
                         * (2 * r) ** (p - i))
        return (s * s * np.exp(-r) * math.factorial(p) / math.factorial(2 * p)) * tot

    return K(f"matern({l},{s},{p})",
             lambda: ck.MaternKernel(length_scale=l, output_scale=s, degree=p), fn,
             smooth=False)


def periodic(l=1.0, s=1.0, p=1.0):
    return K(f"periodic({l},{s},{p})",
             lambda: ck.PeriodicKernel(length_scale=l, output_scale=s, periodicity=p),
             lambda x, y: s * np.exp(-2 * np.sin(np.pi * np.sqrt(_sq(x, y)) / p) ** 2
                                     / (l * l)), smooth=False)


def locper(pl=1.0, ps=1.0, p=1.0, l=1.0, s=1.0):
    a, b = periodic(pl, ps, p), se(l, s)
    return K(f"locally_periodic({pl},{ps},{p},{l},{s})",
             lambda: ck.LocallyPeriodicKernel(
                 periodic_length_scale=pl, periodic_output_scale=ps, periodicity=p,
                 squared_exponential_length_scale=l,
                 squared_exponential_output_scale=s),
             lambda x, y: a(x, y) * b(x, y), smooth=False)


def poisson(r=0.5, s=1.0):
    return K(f"poisson({r},{s})",
             lambda: ck.PoissonKernel(index=r, output_scale=s),
             lambda x, y: s / (1 - 2 * r * np.cos(np.sqrt(_sq(x, y))) + r * r),
             smooth=False)


def ksum(a, b):
    return K(f"({a.name}+{b.name})", lambda: a.make() + b.make(),
             lambda x, y: a(x, y) + b(x, y), a.const_diag and b.const_diag,
             a.smooth and b.smooth)


def kprod(a, b):
    return K(f"({a.name}*{b.name})", lambda: a.make() * b.make(),
             lambda x, y: a(x, y) * b(x, y), a.const_diag and b.const_diag,
             a.smooth and b.smooth)


def kscale(c, a):
    return K(f"{c}*{a.name}", lambda: c * a.make(), lambda x, y: c * a(x, y),
             a.const_diag, a.smooth)


def kadd(c, a):
    return K(f"({c}+{a.name})", lambda: c + a.make(), lambda x, y: c + a(x, y),
             a.const_diag, a.smooth)


def kpow(a, p):
    return K(f"{a.name}**{p}", lambda: a.make() ** p, lambda x, y: a(x, y) ** p,
             a.const_diag, a.smooth)


# ---------------------------------------------------------------- running real code
def vrun(fn, *arrays, size=4096):
    """jit(vmap(fn)) over stacked inputs; numpy in, numpy out."""
    f = jax.jit(jax.vmap(fn))
    outs = []
    for part in chunks(arrays, size):
        args = [jnp.asarray(a, jnp.float32) if np.asarray(a).dtype.kind == "f"
                else jnp.asarray(a) for a in part]
        outs.append(jax.tree_util.tree_map(np.asarray, f(*args)))
    return jax.tree_util.tree_map(lambda *xs: np.concatenate(xs), *outs)


def keys(count, start=0):
    """An enumerated block of random keys (as an array of seeds)."""
    return np.arange(start, start + count, dtype=np.uint32)


def r32(x):
    """Round to float32 and back: exactly what coreax will see."""
    return np.asarray(np.asarray(x, np.float32), np.float64)


def subset(coreset):
    """What a user sees of a coresubset, as plain arrays."""
    p = coreset.points
    out = {"idx": coreset.unweighted_indices, "pts": p.data, "w": p.weights}
    if isinstance(p, SupervisedData):
        out["sup"] = p.supervision
    return out


def norm_weights(w):
    w = np.asarray(w, np.float64)
    tot = w.sum(-1, keepdims=True)
    return np.divide(w, tot, out=np.zeros_like(w), where=tot != 0)


def mmd2(kmat_xx, w, idx):
    """Squared MMD between weighted dataset and uniform coreset idx; batched."""
    b = np.arange(len(idx))[:, None]
    m = idx.shape[1]
    mean = np.einsum("bij,bj->bi", kmat_xx, w)
    xx = np.einsum("bi,bi->b", mean, w)
    xc = mean[b, idx].sum(1) / m
    cc = kmat_xx[b[:, :, None], idx[:, :, None], idx[:, None, :]].sum((1, 2)) / m ** 2
    return xx + cc - 2 * xc


def first_bad(mask):
    """Index of the first False of a boolean array, or None."""
    bad = np.flatnonzero(~mask)
    return int(bad[0]) if len(bad) else None
