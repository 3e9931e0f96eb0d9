"""C13: blocked kernel means equal the plain weighted mean for every block size.

The block schedule is the non-determinism: for every shape (n, m) every pair of block
sizes (including none, non-dividing and oversized ones) and every axis is run by the real
code on every weight pattern of the alphabet, and compared with the mean of the full
kernel matrix in float64.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import *  # noqa: F403

ASSUMPTIONS = [
    "float32 tolerance 3e-6*(max|k|) plus 1e-6 on every mean",
    "block sizes are positive integers or None; weights are non-negative",
]
KERNELS = {"se": se(0.8, 1.3), "lin": linear(0.7, 0.4), "imq": imq(1.1, 0.7),
           "poly": poly(0.5, 1.0, 2), "sum": ksum(se(0.5, 2.0), linear(0.3, 0.2)),
           "prod": kprod(se(0.9, 1.0), poly(1.0, 0.5, 2)), "lap": laplace(0.9, 1.0)}


class HoleKernel(ck.ScalarValuedKernel):
    """A kernel that is undefined at the origin, where coreax puts its padding."""

    def compute_elementwise(self, x, y):
        return jnp.dot(x, y) / (jnp.linalg.norm(x) * jnp.linalg.norm(y))

    def grad_x_elementwise(self, x, y):
        return jax.grad(self.compute_elementwise, 0)(x, y)

    def grad_y_elementwise(self, x, y):
        return jax.grad(self.compute_elementwise, 1)(x, y)

    def divergence_x_grad_y_elementwise(self, x, y):
        return jnp.zeros(())


KERNELS["hole"] = K("hole", HoleKernel, lambda x, y: _dot64(x, y), False, False)


def _dot64(x, y):
    num = np.einsum("...nd,...md->...nm", x, y)
    return num / (np.linalg.norm(x, axis=-1)[..., :, None]
                  * np.linalg.norm(y, axis=-1)[..., None, :])


def bounds(tier):
    top = 4 if tier == "quick" else 6
    return {"shapes": f"all n, m <= {top}; structured to 40",
            "blocks": "every pair from {None, 1..n+1} x {None, 1..m+1}",
            "axes": "None, 0, 1", "weights": "{0,1,2.5}^(n+m) (n+m <= 6), else patterns",
            "unroll": "1, True, 2, (1, 2), (True, 1), False"}


def blocks(n):
    return [None] + list(range(1, n + 2))


def weight_pairs(n, m):
    if n + m <= 6:
        wx, wy = weightings((0, 1, 2.5), n, 0), weightings((0, 1, 2.5), m, 0)
    else:
        wx, wy = weightings((0, 1), n, 0), weightings((0, 3), m, 0)
        wx = np.concatenate([wx * (1 + np.arange(n)), np.ones((1, n))])
        wy = np.concatenate([wy, 1 + np.arange(m)[None] * 1.0])
    a, b = len(wx), len(wy)
    return np.repeat(wx, b, 0), np.tile(wy, (a, 1))


def points(n, m, d, far=False):
    off = 1.5 if far else 0.0
    return weyl(n, d, 3.0, 1) + off, weyl(m, d, 2.5, 2) + 0.3 + off


def reference(kern, x, y, wx, wy):
    mat = kern(r32(x), r32(y))
    wx, wy = norm_weights(r32(wx)), norm_weights(r32(wy))
    row = np.einsum("...n,...nm->...m", wx, mat)
    col = np.einsum("...nm,...m->...n", mat, wy)
    return np.einsum("...n,...n->...", wx, col), row, col, np.abs(mat).max()


def compare(rec, tag, got, want, scale, case):
    """got/want: (mean, row mean, column mean), batched on axis 0."""
    tol = 3e-6 * scale + 1e-6
    for name, g, w in zip(("mean", "row-mean", "column-mean"), got, want):
        if not rec.check(np.shape(g) == np.shape(w), f"{tag}:{name}:shape",
                         f"shape {np.shape(g)} instead of {np.shape(w)}", case(0)):
            continue
        ok = np.abs(g - w) <= tol
        ok = ok.reshape(len(ok), -1).all(1)
        i = first_bad(ok)
        if i is not None:
            rec.violate(f"{tag}:{name}", f"{name} differs from the full matrix: "
                        f"{np.asarray(g)[i]} != {np.asarray(w)[i]}", case(i))
    rec.cover(states=len(got[0]), transitions=3 * len(got[0]), traces=3 * len(got[0]))


def explore(rec, kname, n, m, d, pairs, unrolls):
    kern = KERNELS[kname]
    kernel = kern.make()
    x, y = points(n, m, d, kname == "hole")
    wx, wy = weight_pairs(n, m)
    want = reference(kern, x, y, wx, wy)
    xj, yj = jnp.asarray(x, jnp.float32), jnp.asarray(y, jnp.float32)
    for blk, unroll in itertools.product(pairs, unrolls):
        def run(u, v, blk=blk, unroll=unroll):
            a, b = Data(xj, u), Data(yj, v)
            return tuple(kernel.compute_mean(a, b, axis=ax, block_size=blk, unroll=unroll)
                         for ax in (None, 0, 1))

        case = lambda i, blk=blk, unroll=unroll: {  # noqa: E731
            "kernel": kern.name, "x": x, "y": y, "wx": wx[i], "wy": wy[i],
            "block_size": blk, "unroll": unroll}
        tag = f"mean:{kname}:n{n}m{m}"
        got = rec.call(tag, case(0), vrun, run, wx, wy)
        if got is not None:
            compare(rec, tag, got, want[:3], want[3], case)
            rec.cover(schedules=1)
    rec.sample({"kernel": kern.name, "n": n, "m": m, "x": x, "blocks": len(pairs)})


def lattice(rec, kname, n, m, blk):
    """All point tuples over a lattice, unit and patterned weights, one block pair."""
    kern = KERNELS[kname]
    kernel = kern.make()
    xs, ys = tuples(V3, n), tuples((0.0, 1.0, -0.7), m)
    xs, ys = np.repeat(xs, len(ys), 0), np.tile(ys, (len(tuples(V3, n)), 1, 1))
    for wx, wy in ((np.ones(n), np.ones(m)),
                   (np.arange(n) * 1.0, 1.0 + (np.arange(m) % 2))):
        wxs, wys = np.tile(wx, (len(xs), 1)), np.tile(wy, (len(xs), 1))
        want = reference(kern, xs, ys, wxs, wys)

        def run(x, y, u, v):
            return tuple(kernel.compute_mean(Data(x, u), Data(y, v), axis=ax,
                                             block_size=blk) for ax in (None, 0, 1))

        case = lambda i: {"kernel": kern.name, "x": xs[i], "y": ys[i], "wx": wx,  # noqa
                          "wy": wy, "block_size": blk}
        tag = f"lattice:{kname}:n{n}m{m}"
        got = rec.call(tag, case(0), vrun, run, xs, ys, wxs, wys)
        if got is not None:
            compare(rec, tag, got, want[:3], want[3], case)


def forms(rec, kname):
    """Input forms: arrays, one-dimensional arrays, scalars, supervised, mixed; gramian."""
    kern = KERNELS[kname]
    kernel = kern.make()
    x, y = points(5, 3, 1)
    wx, wy = np.array([0, 1, 2, 0, 4.0]), np.array([1.0, 0, 3])
    x32, y32 = jnp.asarray(x, jnp.float32), jnp.asarray(y, jnp.float32)
    one_n, one_m = np.ones(5), np.ones(3)
    dx = Data(x32, jnp.asarray(wx, jnp.float32))
    dy = Data(y32, jnp.asarray(wy, jnp.float32))
    sx = SupervisedData(x32, jnp.arange(5.0)[:, None], jnp.asarray(wx, jnp.float32))
    sy = SupervisedData(y32, jnp.arange(6.0).reshape(3, 2), jnp.asarray(wy, jnp.float32))
    combos = {
        "array-array": (x32, y32, x, y, one_n, one_m),
        "1d-1d": (x32[:, 0], y32[:, 0], x, y, one_n, one_m),
        "data-array": (dx, y32, x, y, wx, one_m),
        "array-data": (x32, dy, x, y, one_n, wy),
        "data-data": (dx, dy, x, y, wx, wy),
        "sup-data": (sx, dy, x, y, wx, wy),
        "data-sup": (dx, sy, x, y, wx, wy),
        "sup-sup": (sx, sy, x, y, wx, wy),
        "scalar-array": (1.5, y32, np.array([[1.5]]), y, np.ones(1), one_m),
        "int-int": (2, 3, np.array([[2.0]]), np.array([[3.0]]), np.ones(1), np.ones(1)),
        "zero-data": (Data(x32, jnp.zeros(5)), dy, x, y, np.zeros(5), wy),
        "int-array": (jnp.array([[0], [1], [3]]), y32, np.array([[0.0], [1], [3]]), y,
                      one_m, one_m),
    }
    for name, (a, b, xa, yb, u, v) in combos.items():
        want = reference(kern, xa, yb, u, v)
        for blk in (None, 1, 2, 4, (2, None), (None, 2), (3, 1)):
            case = {"kernel": kern.name, "form": name, "block_size": blk}
            tag = f"forms:{kname}:{name}"
            got = rec.call(tag, case, lambda: tuple(
                np.asarray(kernel.compute_mean(a, b, axis=ax, block_size=blk))[None]
                for ax in (None, 0, 1)))
            if got is not None:
                compare(rec, tag, got, [np.asarray(w)[None] for w in want[:3]], want[3],
                        lambda i: case)
    for name, (a, xa, u) in {"array": (x32, x, one_n), "data": (dx, x, wx),
                             "sup": (sx, x, wx)}.items():
        want = reference(kern, xa, xa, u, u)
        for blk in (None, 1, 2, 3, 5, 8, (2, 3)):
            case = {"kernel": kern.name, "form": name, "block_size": blk}
            got = rec.call(f"gramian:{kname}:{name}", case, lambda: np.asarray(
                kernel.gramian_row_mean(a, block_size=blk)))
            if got is not None:
                rec.check(got.shape == want[1].shape and np.allclose(
                    got, want[1], rtol=0, atol=3e-6 * want[3] + 1e-6),
                    f"gramian:{kname}:{name}", f"row mean {got} != {want[1]}", case)
                rec.cover(states=1, transitions=1, traces=1)


def stein(rec):
    """Means of a Stein kernel agree with the full matrix it computes itself."""
    def score(x):
        return 1.0 - x

    kernel = ck.SteinKernel(ck.PCIMQKernel(1.1, 0.7), score)
    for n, m in ((5, 3), (4, 4), (7, 2)):
        x, y = points(n, m, 2)
        x32, y32 = jnp.asarray(x, jnp.float32), jnp.asarray(y, jnp.float32)
        mat = np.asarray(kernel.compute(x32, y32), np.float64)
        wx, wy = weightings((0, 1, 3), min(n, 4), 1), weightings((0, 2), m, 1)
        wx = np.concatenate([wx, np.ones((len(wx), n - wx.shape[1]))], 1)
        wx, wy = np.repeat(wx, len(wy), 0), np.tile(wy, (len(wx), 1))
        u, v = norm_weights(wx), norm_weights(wy)
        row, col = u @ mat, v @ mat.T
        want = ((row * v).sum(1), row, col)
        for blk in ((None, None), (2, 3), (3, 2), (4, 4), (1, 5), (8, 2)):
            def run(a, b):
                return tuple(kernel.compute_mean(Data(x32, a), Data(y32, b), axis=ax,
                                                 block_size=blk) for ax in (None, 0, 1))

            case = lambda i: {"n": n, "m": m, "wx": wx[i], "wy": wy[i],  # noqa: E731
                              "block_size": blk}
            got = rec.call(f"stein:n{n}m{m}", case(0), vrun, run, wx, wy)
            if got is not None:
                compare(rec, f"stein:n{n}m{m}", got, want, 3 * np.abs(mat).max(), case)


def tasks(tier):
    out = []
    top = 4 if tier == "quick" else 6
    for n, m in itertools.product(range(1, top + 1), repeat=2):
        pairs = list(itertools.product(blocks(n), blocks(m)))
        kn = list(KERNELS)[(n * 3 + m) % len(KERNELS)]
        ks = [kn] if tier == "quick" else list(KERNELS)
        if "hole" not in ks:
            ks.append("hole")
        for k in ks:
            ps = pairs if k != "hole" or tier != "quick" else pairs[1::3]
            for lo in range(0, len(ps), 14):
                out.append(Task(f"blocks:{k}:n{n}m{m}:{lo}", explore, k, n, m,
                                1 + (n + m) % 2, ps[lo:lo + 14], [1], cost=n + m))
    for k in ("se", "lin"):
        out.append(Task(f"unroll:{k}", explore, k, 5, 4, 2,
                        [None, 1, 2, 3, (2, 3), (4, 1)],
                        [True, False, 2, (1, 2), (True, 1)], cost=30))
        big = [(17, 9), (9, 17), (40, 3), (3, 40)]
        for n, m in big:
            out.append(Task(f"big:{k}:n{n}m{m}", explore_big, k, n, m, cost=12))
    for k in KERNELS:
        if k != "hole":
            if tier != "quick" or k in ("se", "lin", "prod"):
                out.append(Task(f"forms:{k}", forms, k, cost=60))
            for blk in (None, 2, (1, 2), (3, 1)) if tier == "quick" else \
                    (None, 1, 2, (1, 2), (2, 1), (3, 1), (1, 3), 4):
                out.append(Task(f"lattice:{k}:{blk}", lattice, k, 3, 2, blk, cost=3))
                if tier != "quick":
                    out.append(Task(f"lattice4:{k}:{blk}", lattice, k, 4, 3, blk, cost=6))
    out.append(Task("stein", stein, cost=15))
    return out


def explore_big(rec, kname, n, m):
    """Larger shapes: weights by structured patterns, selected block pairs."""
    kern = KERNELS[kname]
    kernel = kern.make()
    x, y = points(n, m, 3)
    rot = np.array([[(i + s) % 4 for i in range(n)] for s in range(4)], float)
    roty = np.array([[(i * s) % 3 for i in range(m)] for s in (1, 2)], float)
    wx = np.concatenate([rot, np.ones((1, n)), np.eye(n)[[0, -1]]])
    wy = np.concatenate([roty, np.ones((1, m)), np.eye(m)[[0, -1]]])
    wx, wy = np.repeat(wx, len(wy), 0), np.tile(wy, (len(wx), 1))
    want = reference(kern, x, y, wx, wy)
    xj, yj = jnp.asarray(x, jnp.float32), jnp.asarray(y, jnp.float32)
    for blk in (None, 1, 4, 7, 16, 64, (5, 2), (2, 5), (None, 4), (n - 1, m - 1)):
        def run(u, v):
            return tuple(kernel.compute_mean(Data(xj, u), Data(yj, v), axis=ax,
                                             block_size=blk) for ax in (None, 0, 1))

        case = lambda i: {"kernel": kern.name, "n": n, "m": m, "wx": wx[i],  # noqa: E731
                          "wy": wy[i], "block_size": blk}
        got = rec.call(f"big:{kname}", case(0), vrun, run, wx, wy)
        if got is not None:
            compare(rec, f"big:{kname}", got, want[:3], want[3], case)
            rec.cover(schedules=1)
