"""C20: density-based scores equal the gradient of the log density estimate.

Every fitting dataset of a lattice (with every weighting of an alphabet) is matched by the
real code and evaluated at every point of a grid, in every input form; the judge is the
closed-form gradient of the logarithm of the Gaussian density estimate in float64.  The
conversion to Stein kernels is a decision table, explored completely.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.c04 import kde_score
from mc.lib import *  # noqa: F403

cm = coreax.score_matching
ASSUMPTIONS = [
    "evaluation points lie within 8 length scales of some fitting point of positive weight "
    "(further out the density underflows in float32)",
    "float32 tolerance 2e-5 * (1 + spread / length_scale^2)",
    "matchers other than kernel density matching see the points only, not the weights",
]
SCALES = (0.5, 0.8, 1.0, 2.0, 3.5)


def bounds(tier):
    return {"fitting data": "all n-tuples: V4^n (n <= 4) in 1-D, 4 points^n (n <= 3) in 2-D, "
            "irregular to n=60, d=5", "weights": "none, all {0,1,2.5}^n with mass",
            "evaluation": "a grid of 12 points (1-D) / 9 points (2-D) plus the data",
            "length scales": SCALES, "forms": "batch, single point, scalar, eager, compiled",
            "conversions": "every kernel class x matcher x data form"}


def grid(d):
    if d == 1:
        return np.array([-1.5, -0.7, -0.35, 0.0, 0.2, 0.5, 1.0, 1.4, 2.0, 2.3, 2.9, 3.6])[:, None]
    base = np.array(list(itertools.product((-0.9, 0.4, 1.8), repeat=2)))
    return np.concatenate([base, np.zeros((len(base), d - 2))], 1) if d > 2 else base


def compare(rec, key, got, want, at, data, w, h, case):
    got = np.asarray(got, float)
    if not rec.check(got.shape == want.shape, key, f"shape {got.shape}, expected {want.shape}",
                     case(0)):
        return
    near = np.where(w[:, None, :] > 0, np.sqrt(
        ((at[:, :, None] - data[:, None]) ** 2).sum(-1)), np.inf).min(-1) <= 8 * h
    spread = np.abs(at[:, :, None] - data[:, None]).max((1, 2, 3))
    tol = 2e-5 * (1 + spread / h ** 2)[:, None, None] * np.maximum(1, spread / h)[:, None, None]
    ok = (~near | (np.isfinite(got) & (np.abs(got - want) <= tol)).all(-1)).all(-1)
    rec.cover(states=len(got), transitions=int(near.sum()), traces=len(got))
    bad = first_bad(ok)
    if bad is not None:
        rec.violate(key, f"score {got[bad].tolist()} instead of {want[bad].tolist()}",
                    case(bad))


def lattice(rec, values, n, d, h, weighted):
    xs = r32(tuples(values, n))
    if weighted:
        xs, ws = cross(xs, r32(weightings((0, 1, 2.5), n)))
    else:
        ws = np.ones((len(xs), n))
    at = r32(grid(d))
    pts_ = np.tile(at, (len(xs), 1, 1))
    own = np.concatenate([pts_, xs], 1)
    want, _ = kde_score(own, xs, ws, h)
    case = lambda i: {"data": xs[i], "weights": ws[i], "length_scale": h}  # noqa: E731
    key = f"{d}d:{n}:{h}:{weighted}"

    def fitted(x, w):
        return cm.KernelDensityMatching(h).match(Data(x, w) if weighted else x)

    got = rec.call(key, case(0), vrun, lambda x, w, a: fitted(x, w)(a), xs, ws, own)
    if got is not None:
        compare(rec, key + ":batch", got, want, own, xs, ws, h, case)
    got = rec.call(key, case(0), vrun, lambda x, w, a: jnp.stack(
        [fitted(x, w)(p) for p in a]), xs, ws, pts_[:, ::3])
    if got is not None:
        compare(rec, key + ":single", got, want[:, :len(at)][:, ::3], pts_[:, ::3], xs, ws, h,
                case)
    # reordering and repetition of the fitting data
    perms = list(itertools.permutations(range(n)))[1:4]
    for p in perms:
        got = rec.call(key, case(0), vrun, lambda x, w, a: fitted(x[np.array(p)],
                                                                   w[np.array(p)])(a),
                       xs, ws, pts_)
        if got is not None:
            compare(rec, key + ":reordered", got, want[:, :len(at)], pts_, xs, ws, h, case)
    for times in (2, 3):
        got = rec.call(key, case(0), vrun, lambda x, w, a: fitted(
            jnp.tile(x, (times, 1)), jnp.tile(w, times))(a), xs, ws, pts_)
        if got is not None:
            compare(rec, key + ":repeated", got, want[:, :len(at)], pts_, xs, ws, h, case)
    rec.sample(case(len(xs) // 2))


def large(rec, n, d, h):
    xs = r32(family(n, d)[[0, 1, 2, 4]])
    ws = r32(np.stack([np.ones(n), 1.0 + np.arange(n) % 3, (np.arange(n) % 3 != 1) * 2.0]))
    xs, ws = cross(xs, ws)
    at = np.concatenate([xs[:, ::5], xs[:, 1::7] + 0.3], 1)
    want, _ = kde_score(at, xs, ws, h)
    got = rec.call(f"large:{n}:{d}", None, vrun, lambda x, w, a: cm.KernelDensityMatching(h)
                   .match(Data(x, w))(a), xs, ws, at)
    case = lambda i: {"n": n, "d": d, "dataset": i, "length_scale": h}  # noqa: E731
    if got is not None:
        compare(rec, f"large:{n}:{d}", got, want, at, xs, ws, h, case)
    got = rec.call(f"large:{n}:{d}", None, vrun, lambda x, a: cm.KernelDensityMatching(h)
                   .match(x)(a), xs, at)
    want, _ = kde_score(at, xs, np.ones_like(ws), h)
    if got is not None:
        compare(rec, f"large:{n}:{d}:plain", got, want, at, xs, np.ones_like(ws), h, case)


def forms(rec, h):
    """Uncompiled calls: scalars, points, vectors of one-dimensional data, supervised data."""
    x = r32(np.array([0.0, 1.0, 2.3, 2.3]))[:, None]
    w = np.array([1.0, 0.5, 0.0, 2.0])
    jx = jnp.asarray(x, jnp.float32)
    sources = {
        "array": (jx, np.ones(4)), "data": (Data(jx), np.ones(4)),
        "weighted": (Data(jx, jnp.asarray(w)), w),
        "scaled": (Data(jx, jnp.asarray(w * 7)), w),
        "normalised": (Data(jx, jnp.asarray(w)).normalize(), w),
        "supervised": (SupervisedData(jx, jx ** 2, jnp.asarray(w)), w),
        "integers": (jnp.asarray([[0], [1], [2], [2]]), np.ones(4)),
    }
    at = r32(grid(1))[::4]
    for name, (src, weights) in sources.items():
        base = np.asarray(src.data if isinstance(src, Data) else src, float)
        want, _ = kde_score(at[None], base[None], weights[None], h)
        want = want[0]
        fn = rec.call(f"forms:{name}", {"source": name}, cm.KernelDensityMatching(h).match, src)
        if fn is None:
            continue
        for _ in range(2):  # the second round must not remember the first
            for j, a in enumerate(at):
                for label, arg, shape in (
                        ("scalar", float(a[0]), (1, 1)), ("zero-d", jnp.float32(a[0]), (1, 1)),
                        ("point", jnp.asarray(a, jnp.float32), (1,)),
                        ("row", jnp.asarray(a[None], jnp.float32), (1, 1))):
                    got = rec.call(f"forms:{name}:{label}", {"at": a}, fn, arg)
                    rec.cover(states=1, transitions=1, traces=1)
                    if got is not None:
                        rec.check(np.shape(got) == shape and
                                  abs(np.ravel(got)[0] - want[j, 0])
                                  < 1e-4 * (1 + abs(want[j, 0])),
                                  f"forms:{name}:{label}",
                                  f"{np.asarray(got).tolist()} instead of {want[j].tolist()}",
                                  {"at": a, "length_scale": h, "source": name})
            got = rec.call(f"forms:{name}:batch", {}, fn, jnp.asarray(at, jnp.float32))
            if got is not None:
                rec.check(np.shape(got) == want.shape and np.allclose(got, want, atol=2e-4,
                                                                      rtol=1e-4),
                          f"forms:{name}:batch", "wrong batch of scores", {"length_scale": h})


class FixedMatching(cm.ScoreMatching):
    """A matcher with a recognisable score that depends on the data it was given."""

    slope: float

    def match(self, x):
        assert not isinstance(x, Data)
        centre = jnp.mean(x, axis=0)
        return lambda p: -self.slope * (p - centre)


def kernel_zoo():
    own = {
        "se": (lambda: ck.SquaredExponentialKernel(0.7, 1.3), 0.7),
        "se-array": (lambda: ck.SquaredExponentialKernel(jnp.asarray(1.7), jnp.asarray(0.3)), 1.7),
        "pcimq": (lambda: ck.PCIMQKernel(1.4, 0.6), 1.4),
        "laplacian": (lambda: ck.LaplacianKernel(0.8), 0.8),
        "exponential": (lambda: ck.ExponentialKernel(1.2), 1.2),
        "rational": (lambda: ck.RationalQuadraticKernel(0.9, 1.0, 2.0), 0.9),
        "matern": (lambda: ck.MaternKernel(length_scale=1.6, degree=2), 1.6),
        "periodic": (lambda: ck.PeriodicKernel(length_scale=1.1), 1.1),
        "linear": (lambda: ck.LinearKernel(0.5, 1.0), 1.0),
        "polynomial": (lambda: ck.PolynomialKernel(degree=2), 1.0),
        "locally periodic": (lambda: ck.LocallyPeriodicKernel(
            periodic_length_scale=0.6, squared_exponential_length_scale=1.9), 1.0),
        "poisson": (lambda: ck.PoissonKernel(), 1.0),
        "sum": (lambda: ck.SquaredExponentialKernel(0.4) + ck.LinearKernel(), 1.0),
        "product": (lambda: ck.SquaredExponentialKernel(0.4) * ck.PCIMQKernel(0.4), 1.0),
        "power": (lambda: ck.PCIMQKernel(0.4) ** 2, 1.0),
    }
    return own


def convert(rec, kname, d):
    make, ls = kernel_zoo()[kname]
    base = make()
    pool = np.array(P2) if d == 2 else np.array(V4)[:, None]
    xs = r32(np.stack([pool[list(c)] for c in itertools.product(range(4), repeat=3)]))
    ws = r32(np.tile([1.0, 2.5, 0.5], (len(xs), 1)))
    at = r32(np.tile(grid(d)[::2], (len(xs), 1, 1)))
    plain = np.ones_like(ws)
    old = lambda p: 0.3 - 1.1 * p  # noqa: E731
    centre = xs.mean(1, keepdims=True)
    expect = {  # (stein already, matcher, form) -> score
        (False, None): lambda w: kde_score(at, xs, w, ls)[0],
        (True, None): lambda w: 0.3 - 1.1 * at,
    }
    for stein in (False, True):
        expect[stein, "kde"] = lambda w: kde_score(at, xs, w, 1.3)[0]
        expect[stein, "fixed"] = lambda w: -0.6 * (at - centre)
    matchers = {None: None, "kde": cm.KernelDensityMatching(1.3), "fixed": FixedMatching(0.6)}
    for (stein, matcher), want in expect.items():
        for form in ("array", "data", "weighted"):
            key = f"convert:{kname}:{d}d:{stein}:{matcher}:{form}"

            def run(x, w, a):
                kern = ck.SteinKernel(base, old) if stein else base
                src = {"array": x, "data": Data(x), "weighted": Data(x, w)}[form]
                out = cm.convert_stein_kernel(src, kern, matchers[matcher])
                assert isinstance(out, ck.SteinKernel) and type(out.base_kernel) is type(base)
                return (out.score_function(a), out.base_kernel.compute(x, a),
                        base.compute(x, a), jnp.stack([out.score_function(p) for p in a]),
                        out.compute_elementwise(a[0], a[1]),
                        ck.SteinKernel(base, out.score_function).compute_elementwise(a[0], a[1]))

            w = ws if form == "weighted" else plain
            case = lambda i: {"kernel": kname, "already stein": stein,  # noqa: E731
                              "matcher": matcher, "form": form, "data": xs[i]}
            got = rec.call(key, case(0), vrun, run, xs, ws, at)
            if got is None:
                continue
            score, kern_out, kern_in, single, val, val_again = got
            target = want(w)
            for label, g in (("batch", score), ("single", single)):
                compare(rec, f"{key}:{label}", g, target, at, xs, w,
                        1.3 if matcher == "kde" else ls, case)
            rec.check(np.array_equal(kern_out, kern_in, equal_nan=True), key,
                      "the base kernel changed", case(0))
            # same kernel, same score: the same Stein kernel
            rec.check(np.allclose(val, val_again, equal_nan=True, rtol=1e-4, atol=1e-5), key,
                      "the Stein kernel is not the one of its base kernel and score", case(0))


def tasks(tier):
    quick = tier == "quick"
    out = []
    for h in SCALES if not quick else (0.5, 1.0, 2.0):
        for weighted in (False, True):
            for n in (1, 2, 3, 4):
                if n == 4 and weighted and quick and h != 1.0:
                    continue
                out.append(Task(f"1d/{n}/{h}/{weighted}", lattice, V4, n, 1, h, weighted,
                                cost=3 ** n))
            for n in (1, 2, 3):
                out.append(Task(f"2d/{n}/{h}/{weighted}", lattice, P2, n, 2, h, weighted,
                                cost=3 ** n))
        out.append(Task(f"forms/{h}", forms, h, cost=40))
    for n, d, h in ((13, 1, 0.8), (30, 3, 1.5), (60, 2, 0.7), (25, 5, 2.0)):
        out.append(Task(f"large/{n}/{d}", large, n, d, h, cost=10))
    for kname in kernel_zoo():
        for d in (1, 2):
            out.append(Task(f"convert/{kname}/{d}", convert, kname, d, cost=50))
    return out
