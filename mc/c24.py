"""C24: the shared building blocks do what every solver assumes of them.

Padding, leaf repetition, pairwise application, distances, thresholding and batch sampling
are explored over complete finite domains (all shapes, widths and trees of an alphabet, all
lattice pairs, a block of keys) against list-based models.
"""

from __future__ import annotations

import itertools
import math

from mc.core import Task
from mc.lib import *  # noqa: F403

import coreax.util as cu

ASSUMPTIONS = [
    "float32 inputs; values of distances are compared at 1e-6 relative to their magnitude",
    "frequencies of sampled batches are compared at 7.5 standard deviations over the key block",
    "timing helpers (jit_test, speed_comparison_test) are not judged on the times they report",
]


def bounds(tier):
    return {"padding": "arrays of 1..3 axes and sizes 1..4, datasets, coresubsets, nested trees; "
            "widths 0..5", "leaves": "all trees of <= 4 leaves over {None, 0, 3, False}, lengths 0..6",
            "pairwise": "all shapes n,m <= 4, d <= 3, scalars, vectors",
            "batches": "n <= 5, all batch sizes, 1..4 batches, key block 4096 (quick)"}


# -- trees ------------------------------------------------------------------------------------
def padding(rec):
    def zoo():
        for shape in [(n, *rest) for n in (1, 2, 4) for rest in ((), (1,), (3,), (2, 3))]:
            yield f"array{shape}", jnp.asarray(1.0 + np.arange(np.prod(shape)).reshape(shape))
            yield f"ints{shape}", jnp.asarray(1 + np.arange(np.prod(shape)).reshape(shape))
        x = jnp.asarray([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]])
        y = jnp.asarray([[7.0], [8.0], [9.0]])
        w = jnp.asarray([0.5, 1.5, 2.5])
        yield "data", Data(x, w)
        yield "unweighted", Data(x)
        yield "supervised", SupervisedData(x, y, w)
        yield "tuple", (x, y, w)
        yield "nested", {"a": (x, None), "b": [y, {"c": w}]}
        yield "mixed", (x, 3, None, "label", 2.5, w)
        yield "booleans", jnp.asarray([True, True, False])

    for name, tree in zoo():
        before = jax.tree_util.tree_map(np.array, jax.tree_util.tree_leaves(
            eqx.filter(tree, eqx.is_array)))
        for width in range(6):
            case = {"tree": name, "width": width}
            got = rec.call(f"pad:{name}", case, cu.tree_zero_pad_leading_axis, tree, width)
            rec.cover(states=1, transitions=1, traces=1)
            if got is None:
                continue
            rec.check(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(tree),
                      f"pad:{name}", "another structure", case)
            for a, b in zip(jax.tree_util.tree_leaves(tree), jax.tree_util.tree_leaves(got)):
                if eqx.is_array(a):
                    want = np.concatenate([np.asarray(a),
                                           np.zeros((width, *a.shape[1:]), a.dtype)])
                    rec.check(b.dtype == a.dtype and np.array_equal(b, want), f"pad:{name}",
                              f"padded to {np.asarray(b).tolist()}", case)
                else:
                    rec.check(a is b or a == b, f"pad:{name}", "a static leaf changed", case)
        after = jax.tree_util.tree_leaves(eqx.filter(tree, eqx.is_array))
        rec.check(all(np.array_equal(p, q) for p, q in zip(before, after)), f"pad:{name}",
                  "the input changed", {"tree": name})
        for width in (-1, -3):
            rec.expect_error(f"pad:{name}", {"width": width}, (ValueError,),
                             cu.tree_zero_pad_leading_axis, tree, width)


def repeating(rec):
    alphabet = (None, 0, 3, False)
    trees = list(alphabet)
    for size in range(1, 5):
        for combo in itertools.product(alphabet, repeat=size):
            trees.append(tuple(combo))
            trees.append(list(combo))
            if size == 3:
                trees.append((combo[0], [combo[1], combo[2]]))
            if size == 2:
                trees.append({"a": combo[0], "b": combo[1]})

    def leaves(t):
        if isinstance(t, dict):
            return [v for k in sorted(t) for v in leaves(t[k])]
        if isinstance(t, (tuple, list)):
            return [v for u in t for v in leaves(u)]
        return [t]

    for tree in trees:
        flat = leaves(tree)
        for length in range(0, 7):
            want = flat + [flat[-1]] * max(0, length - len(flat))
            case = {"tree": tree, "length": length}
            got = rec.call("repeat", case, cu.tree_leaves_repeat, tree, length)
            rec.cover(states=1, transitions=1, traces=1)
            if got is not None:
                rec.check(list(got) == want and [type(v) for v in got] == [type(v) for v in want],
                          "repeat", f"{got} instead of {want}", case)


# -- pairs ------------------------------------------------------------------------------------
def pairs(rec):
    def fn(x, y):  # position-coded: shows which rows were combined, and in which order
        return 10 * jnp.sum(x * jnp.arange(1, 1 + x.shape[0])) - jnp.sum(y) ** 2

    def vec(x, y):
        return jnp.stack([x[0] - 2 * y[-1], x[-1] * y[0], x[0] + y[0]])

    for n, m, d in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (1, 2, 3)):
        x = r32(np.sin(1 + np.arange(n * d)).reshape(n, d))
        y = r32(np.cos(2 + 3 * np.arange(m * d)).reshape(m, d))
        jx, jy = jnp.asarray(x, jnp.float32), jnp.asarray(y, jnp.float32)
        case = {"n": n, "m": m, "d": d}
        want = np.array([[10 * (a * np.arange(1, d + 1)).sum() - b.sum() ** 2 for b in y]
                         for a in x])
        wantv = np.array([[[a[0] - 2 * b[-1], a[-1] * b[0], a[0] + b[0]] for b in y] for a in x])
        for f, w in ((fn, want), (vec, wantv)):
            for compiled in (False, True):
                run = cu.pairwise(f)
                got = rec.call("pairwise", case, jax.jit(run) if compiled else run, jx, jy)
                rec.cover(states=1, transitions=n * m, traces=1)
                if got is not None:
                    rec.check(np.shape(got) == w.shape and np.allclose(got, w, atol=1e-5),
                              "pairwise", f"shape {np.shape(got)} or values differ", case)
        if n == 1:  # a vector stands for one row
            got = rec.call("pairwise", case, cu.pairwise(fn), jx[0], jy)
            if got is not None:
                rec.check(np.shape(got) == want.shape and np.allclose(got, want, atol=1e-5),
                          "pairwise", "a vector is not treated as one row", case)
        if m == 1:
            got = rec.call("pairwise", case, cu.pairwise(fn), jx, jy[0])
            if got is not None:
                rec.check(np.shape(got) == want.shape and np.allclose(got, want, atol=1e-5),
                          "pairwise", "a vector is not treated as one row", case)
        dist = ((x[:, None] - y[None]) ** 2).sum(-1)
        diff = x[:, None] - y[None]
        got = rec.call("distance", case, cu.pairwise(cu.squared_distance), jx, jy)
        if got is not None:
            rec.check(np.shape(got) == dist.shape and np.allclose(got, dist, atol=1e-6),
                      "distance", "wrong squared distances", case)
        got = rec.call("difference", case, cu.pairwise(cu.difference), jx, jy)
        if got is not None:
            rec.check(np.shape(got) == diff.shape and np.allclose(got, diff, atol=1e-6),
                      "difference", "wrong differences", case)
    grid = [0.0, 1.0, -2.5, 1e-3, 7.0, 1e3, -1e4]
    for a, b in itertools.product(grid, repeat=2):
        for form in (float, jnp.float32, lambda v: jnp.asarray([v], jnp.float32)):
            got = rec.call("distance", {"x": a, "y": b}, cu.squared_distance, form(a), form(b))
            rec.cover(states=1, transitions=1, traces=1)
            if got is not None:
                rec.check(np.shape(got) == () and abs(float(got) - (a - b) ** 2)
                          <= 1e-5 * (1 + max(abs(a), abs(b)) * abs(a - b)), "distance",
                          f"{float(got)} instead of {(a - b) ** 2}", {"x": a, "y": b})
            got = rec.call("difference", {"x": a, "y": b}, cu.difference, form(a), form(b))
            if got is not None:
                rec.check(np.size(got) == 1 and abs(float(np.ravel(got)[0]) - (a - b))
                          <= 1e-6 * (abs(a) + abs(b)), "difference",
                          f"{got} instead of {a - b}", {"x": a, "y": b})
    for a, b in ((3, 5), (-2, 7), (0, 0)):
        rec.check(float(cu.squared_distance(a, b)) == (a - b) ** 2, "distance", "integers",
                  {"x": a, "y": b})


def thresholds(rec):
    values = [0.0, -0.0, 1.0, 1e-12, 5e-9, 1e-3, 0.5, 2.0]
    values = sorted({s * v for v in values for s in (1, -1)})
    for limit in (1e-8, -1e-8, 1e-2, -1e-2, 0.0, 1.0, 3.0):
        for x in values:
            for form in (float, jnp.float32):
                case = {"x": x, "threshold": limit}
                got = rec.call("threshold", case, cu.apply_negative_precision_threshold,
                               form(x), limit)
                rec.cover(states=1, transitions=1, traces=1)
                if got is None:
                    continue
                want = 0.0 if -abs(limit) < x < 0 else x
                rec.check(np.isclose(float(got), want, rtol=1e-6, atol=0), "threshold",
                          f"{float(got)} instead of {want}", case)
    for x in values:
        got = rec.call("threshold", {"x": x}, cu.apply_negative_precision_threshold, x)
        want = 0.0 if -1e-8 < x < 0 else x
        if got is not None:
            rec.check(np.isclose(float(got), want, rtol=1e-6, atol=0), "threshold",
                      f"default: {float(got)} instead of {want}", {"x": x})


# -- batches ----------------------------------------------------------------------------------
def batches(rec, n, size, count, nkeys):
    key = f"batches:{n}:{size}:{count}"
    got = rec.call(key, None, vrun, lambda k: cu.sample_batch_indices(
        jr.key(k), n, size, count), keys(nkeys))
    case = {"max_index": n, "batch_size": size, "num_batches": count}
    if got is None or not rec.check(got.shape == (nkeys, count, size), key,
                                    f"shape {got.shape[1:]}", case):
        return
    rec.cover(states=nkeys, transitions=nkeys * count, traces=nkeys)
    rec.sample(case)
    rec.check(((got >= 0) & (got < n)).all(), key, "an index is out of range", case)
    srt = np.sort(got, -1)
    rec.check((np.diff(srt, axis=-1) > 0).all(), key, "a batch holds an index twice", case)
    if not size or rec.violations:
        return
    # every batch is a uniformly chosen subset, whatever the other batches are
    subsets = list(itertools.combinations(range(n), size))
    index = {s: i for i, s in enumerate(subsets)}
    codes = np.array([[index[tuple(r)] for r in row] for row in srt.tolist()])
    c = len(subsets)

    def uniform(counts, cells, what):
        p = 1 / cells
        dev = np.abs(counts - nkeys * p).max() / np.sqrt(max(nkeys * p * (1 - p), 1e-9))
        rec.check(dev <= 7.5 or cells == 1, key, f"{what}: {counts.tolist()[:20]} of {nkeys} keys",
                  case)

    for b in range(count):
        uniform(np.bincount(codes[:, b], minlength=c), c, f"batch {b} is not uniform")
    for a, b in itertools.combinations(range(count), 2):
        uniform(np.bincount(codes[:, a] * c + codes[:, b], minlength=c * c), c * c,
                f"batches {a} and {b} are not independent")
    for b in range(count):  # the first entry of a batch is uniform as well
        uniform(np.bincount(got[:, b, 0], minlength=n), n, f"first entry of batch {b}")


def batch_errors(rec):
    for n, size in ((2, 3), (1, 5), (4, -1), (3, 4)):
        rec.expect_error("batches", {"n": n, "size": size}, (ValueError,),
                         cu.sample_batch_indices, jr.key(0), n, size, 2)
    for n, size, count in ((40, 40, 3), (100, 7, 30), (17, 16, 5), (64, 1, 64)):
        got = rec.call("batches", None, cu.sample_batch_indices, jr.key(3), n, size, count)
        if got is None:
            continue
        got = np.asarray(got)
        rec.cover(states=count, transitions=count, traces=1)
        rec.check(got.shape == (count, size) and (got >= 0).all() and (got < n).all()
                  and all(len(set(r)) == size for r in got.tolist()), "batches",
                  f"batches of {size} of {n} are wrong", {"n": n, "size": size})


def names(rec):
    """Time formatting: unit and two-decimal value for every decade."""
    table = [(0, "0 s"), (1.0, "1.0 s"), (12.5, "12.5 s"), (99.0, "99.0 s"),
             (120.0, "2.0 mins"), (3600.0, "60.0 mins"), (0.25, "250.0 ms"),
             (0.0015, "1.5 ms"), (2.5e-5, "25.0 μs"), (3e-8, "30.0 ns"),
             (4e-11, "40.0 ps"), (-0.25, "-250.0 ms")]
    for value, want in table:
        got = rec.call("format", {"value": value}, cu.format_time, value)
        rec.cover(states=1, transitions=1, traces=1)
        if got is not None:
            rec.check(got == want, "format", f"{got!r} instead of {want!r}", {"value": value})


# -- the benchmark suite ----------------------------------------------------------------------
def deltas(rec, top):
    from coreax.benchmark_util import calculate_delta
    for n in range(1, top):
        got = rec.call("delta", {"n": n}, calculate_delta, n)
        rec.cover(states=1, transitions=1, traces=1)
        if got is None:
            continue
        got = float(np.ravel(got)[0])
        want = 1.0
        if n > 1:
            ll = math.log(math.log(n))
            want = 1 / (n * ll) if ll > 0 else 1 / (n * math.log(n))
        rec.check(abs(got - want) <= 1e-4 * want, "delta", f"{got} instead of {want}", {"n": n})


def suite(rec, n, leaf, size):
    """Each benchmark solver returns `size` distinct rows of the data it is given."""
    from coreax.benchmark_util import initialise_solvers
    x = r32(weyl(n, 2))
    data = Data(jnp.asarray(x, jnp.float32))
    solvers = rec.call("suite", {"n": n}, initialise_solvers, data, jr.key(5), 1, leaf)
    if solvers is None:
        return
    rec.check(len(solvers) == 9, "suite", f"{len(solvers)} solvers", {})
    for name, make in solvers.items():
        case = {"solver": name, "n": n, "leaf_size": leaf, "size": size}
        solver = rec.call(f"suite:{name}", case, make, size)
        if solver is None:
            continue
        out = rec.call(f"suite:{name}", case, eqx.filter_jit(lambda s, d: s.reduce(d)[0]),
                       solver, data)
        rec.cover(states=1, transitions=1, traces=1)
        if out is None:
            continue
        idx = np.asarray(out.unweighted_indices)
        rec.check(idx.shape == (size,) and (idx >= 0).all() and (idx < n).all()
                  and len(set(idx.tolist())) == size, f"suite:{name}",
                  f"indices {idx.tolist()}", case)
        rec.check(np.array_equal(np.asarray(out.points.data, float), x[np.clip(idx, 0, n - 1)]),
                  f"suite:{name}", "the points are not the rows of the indices", case)


def tasks(tier):
    quick = tier == "quick"
    out = [Task("padding", padding, cost=20), Task("repeating", repeating, cost=3),
           Task("pairs", pairs, cost=30), Task("thresholds", thresholds, cost=5),
           Task("batch-errors", batch_errors, cost=3), Task("names", names),
           Task("deltas", deltas, 300 if quick else 5000, cost=5)]
    for n in range(1, 5 if quick else 6):
        for size in range(0, n + 1):
            for count in (1, 2, 4):
                if quick and count == 4 and size not in (1, 2):
                    continue
                out.append(Task(f"batches/{n}/{size}/{count}", batches, n, size, count,
                                4096 if quick else 32768, cost=2))
    grid = [(20, None, 3), (20, None, 1), (24, 8, 3)]
    if not quick:
        grid += [(n, leaf, s) for n in (17, 33, 64) for leaf in (None, 9, 16) for s in (1, 2, 4)]
    for n, leaf, size in grid:
        out.append(Task(f"suite/{n}/{leaf}/{size}", suite, n, leaf, size, cost=40))
    return out
