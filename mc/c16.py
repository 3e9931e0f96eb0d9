"""C16: optimised coreset weights are feasible and optimal.

For every (dataset, weighting, coreset) of the domain the exact optimum of the simplex
constrained quadratic programme is computed in float64 by enumerating *every* active set
(support); the weights returned by the real code have to be feasible and attain it.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import (P2, V4, Coresubset, Data, PseudoCoreset, SupervisedData, coreax, eqx,
                    first_bad, imq, jax, jnp, laplace, linear, multisets, norm_weights, np, poly,
                    r32, se, vrun, weightings, weyl)

ASSUMPTIONS = [
    "simplex weights: the squared discrepancy may exceed the exact optimum by 2e-3 of the "
    "largest kernel value (default tolerance of the OSQP solver); sum and sign are exact "
    "up to 1e-5",
    "Bayesian quadrature: kernel matrices of the coreset with condition number below 1e3 "
    "(1e-10 cannot regularise a singular float32 matrix); singular ones are explored with "
    "an explicit epsilon of 0.05",
]


def bounds(tier):
    return {"datasets": "all multisets over 4 points (d=1, 2), n <= 4 (quick) / 5",
            "weights": "{0,1,2.5}^n", "coresets": "all index tuples (repeats included) and "
            "off-data points, m <= 3", "kernels": sorted(KERNELS),
            "blocks": "None,1,2,3,7,(2,3),(None,2)", "structured": "n to 60, m to 8"}


KERNELS = {"se": se(0.8, 1.0), "imq": imq(1.0, 1.5), "lap": laplace(0.9, 0.8),
           "lin": linear(0.7, 0.6), "poly": poly(0.4, 1.0, 2)}
SBQ, QP = "SBQWeightsOptimiser", "MMDWeightsOptimiser"
TOL = 2e-3


def qp_optimum(kcc, c):
    """Least w'Kw - 2c'w over the simplex: every support is tried (batched)."""
    b, m = c.shape
    best = np.full(b, np.inf)
    for r in range(1, m + 1):
        for sup in itertools.combinations(range(m), r):
            s = list(sup)
            k = kcc[:, s][:, :, s]
            kkt = np.zeros((b, r + 1, r + 1))
            kkt[:, :r, :r] = k
            kkt[:, r, :r] = kkt[:, :r, r] = 1
            rhs = np.concatenate([c[:, s], np.ones((b, 1))], 1)
            w = np.einsum("bij,bj->bi", np.linalg.pinv(kkt, rcond=1e-10), rhs)[:, :r]
            ok = (w >= -1e-9).all(1) & (np.abs(w.sum(1) - 1) < 1e-7)
            val = np.einsum("bi,bij,bj->b", w, k, w) - 2 * np.einsum("bi,bi->b", w, c[:, s])
            best = np.where(ok & (val < best), val, best)
    return best


def value(kcc, c, w):
    return np.einsum("bi,bij,bj->b", w, kcc, w) - 2 * np.einsum("bi,bi->b", w, c)


def judge_qp(rec, key, k, x, w, y, got, case, tol=TOL):
    got = np.asarray(got, np.float64)
    rec.cover(states=len(got), transitions=len(got) * (2 ** y.shape[1] - 1),
              traces=len(got))
    if got.shape != y.shape[:2]:
        rec.violate(key, f"weights have shape {got.shape[1:]}", case(0))
        return
    bad = first_bad(np.isfinite(got).all(1) & (got >= 0).all(1)
                    & (np.abs(got.sum(1) - 1) < 1e-5))
    if bad is not None:
        rec.violate(key + ":infeasible", f"weights {got[bad].tolist()} are not "
                    "non-negative with unit sum", case(bad))
        return
    kcc, c = k(y, y), np.einsum("bi,bij->bj", norm_weights(w), k(x, y))
    scale = np.maximum(np.abs(kcc).max((1, 2)), np.abs(k(x, x)).max((1, 2)))
    gap = (value(kcc, c, got) - qp_optimum(kcc, c)) / scale
    rec.extra["largest_gap_1e-6"] = max(rec.extra.get("largest_gap_1e-6", 0),
                                        int(1e6 * gap.max()))
    bad = first_bad(gap <= tol)
    if bad is not None:
        rec.violate(key, f"weights {got[bad].tolist()} exceed the least squared "
                    f"discrepancy by {gap[bad] * scale[bad]:.3g}", case(bad))


def judge_sbq(rec, key, k, x, w, y, got, eps, case):
    got = np.asarray(got, np.float64)
    m = y.shape[1]
    kcc, c = k(y, y) + eps * np.eye(m), np.einsum("bi,bij->bj", norm_weights(w), k(x, y))
    cond = np.linalg.cond(kcc)
    use = cond < 1e3
    rec.cover(states=int(use.sum()), transitions=int(use.sum()), traces=len(got))
    if got.shape != c.shape:
        rec.violate(key, f"weights have shape {got.shape[1:]}", case(0))
        return
    safe = np.where(use[:, None, None], kcc, np.eye(m))
    want = np.linalg.solve(safe, c[..., None])[..., 0]
    err = np.abs(got - want).max(1)
    lim = 3e-6 * np.minimum(cond, 1e3) * (1 + np.abs(want).max(1)) + 1e-5
    bad = first_bad(~use | (np.isfinite(got).all(1) & (err <= lim)))
    if bad is not None:
        rec.violate(key, f"weights {got[bad].tolist()}, the least value needs "
                    f"{want[bad].tolist()}", case(bad))


def domain(n, m, d, kind):
    pts = V4 if d == 1 else P2
    xs = multisets(pts, n)
    ws = weightings((0.0, 1.0, 2.5), n)
    if kind == "subset":
        idx = np.array(list(itertools.combinations_with_replacement(range(n), m)))
        i, j, l = np.indices((len(xs), len(ws), len(idx))).reshape(3, -1)
        return r32(xs[i]), ws[j], r32(xs[i[:, None], idx[l]])
    base = (np.array([0.2, 1.6, -1.0])[:, None] if d == 1
            else np.array([[0.2, 0.5], [1.6, -0.3], [-1.0, 1.0]]))
    ys = base[np.array(list(itertools.combinations_with_replacement(range(3), m)))]
    i, j, l = np.indices((len(xs), len(ws), len(ys))).reshape(3, -1)
    return r32(xs[i]), ws[j], r32(ys[l])


def lattice(rec, which, kname, n, m, d, kind, cap):
    k = KERNELS[kname]
    x, w, y = domain(n, m, d, kind)
    if len(x) > cap:  # deterministic stride keeps every dataset and every support pattern
        rec.exhaustive = False
        step = -(-len(x) // cap)
        while np.gcd(step, len(x)) != 1:
            step += 1
        x, w, y = x[::step], w[::step], y[::step]
    opt = getattr(coreax.weights, which)(k.make())
    old = np.linspace(0.1, 2.0, m)  # weights already on the coreset must not matter
    case = lambda i: {"optimiser": which, "kernel": k.name, "x": x[i], "w": w[i],  # noqa
                      "coreset": y[i]}
    fn = lambda a, p, b: opt.solve(Data(a, p), Data(b, jnp.asarray(old)))  # noqa: E731
    got = vrun(fn, x, w, y)
    if which == QP:
        judge_qp(rec, f"qp:{kname}", k, x, w, y, got, case)
    else:
        judge_sbq(rec, f"sbq:{kname}", k, x, w, y, got, 0.0, case)
        fn = lambda a, p, b: opt.solve(Data(a, p), Data(b), 0.05)  # noqa: E731
        judge_sbq(rec, f"sbq-epsilon:{kname}", k, x, w, y, vrun(fn, x, w, y), 0.05, case)
    rec.sample({"optimiser": which, "x": x[-1], "w": w[-1], "coreset": y[-1],
                "weights": got[-1]})


def blocks(rec, which, block, unroll):
    k = KERNELS["imq"]
    x = r32(np.stack([weyl(7, 2, seed=s) for s in range(3)]))
    y = r32(np.stack([weyl(3, 2, seed=s + 4) for s in range(3)]))
    w = np.array([[1] * 7, [0, 1, 0, 2, 3, 0.5, 0], [0, 0, 0, 0, 0, 1, 2]], float)
    opt = getattr(coreax.weights, which)(k.make())
    got = vrun(lambda a, p, b: opt.solve(Data(a, p), Data(b), block_size=block,
                                         unroll=unroll), x, w, y)
    case = lambda i: {"optimiser": which, "block": block, "unroll": unroll,  # noqa: E731
                      "x": x[i], "w": w[i], "coreset": y[i]}
    if which == QP:
        judge_qp(rec, "qp-blocks", k, x, w, y, got, case)
    else:
        judge_sbq(rec, "sbq-blocks", k, x, w, y, got, 0.0, case)


def structured(rec, n, m, d):
    k = KERNELS["se"]
    x = r32(np.stack([weyl(n, d, seed=s) for s in range(4)]))
    w = np.stack([np.ones(n), (np.arange(n) % 3) * 1.0, np.arange(n) + 0.1,
                  np.where(np.arange(n) < 2, 1.0, 0.0)])
    y = np.stack([x[i, (np.arange(m) * 3 + i) % n] for i in range(4)])
    for which, judge in ((QP, judge_qp), (SBQ, judge_sbq)):
        opt = getattr(coreax.weights, which)(k.make())
        case = lambda i: {"optimiser": which, "n": n, "m": m, "set": i}  # noqa: E731
        got = vrun(lambda a, p, b: opt.solve(Data(a, p), Data(b)), x, w, y)
        if which == QP:
            judge_qp(rec, "qp-structured", k, x, w, y, got, case)
        else:
            judge_sbq(rec, "sbq-structured", k, x, w, y, got, 0.0, case)
            fn = lambda a, p, b: opt.solve(Data(a, p), Data(b), 0.05)  # noqa: E731
            judge_sbq(rec, "sbq-structured", k, x, w, y, vrun(fn, x, w, y), 0.05, case)


def direct_qp(rec, m):
    """solve_qp itself, on positive definite matrices and arbitrary linear terms."""
    mats, cs_ = [], []
    for s in range(6):
        a = weyl(m, min(m, 4), seed=s) - 1.5
        mats.append(a @ a.T + (0.3 + 0.2 * s) * np.eye(m))
    levels = (-1.0, 0.0, 1.5)
    for c in itertools.product(levels, repeat=m):
        cs_.append(c)
    mats, cs_ = np.array(mats), np.array(cs_)
    i, j = np.indices((len(mats), len(cs_))).reshape(2, -1)
    q, c = r32(mats[i]), r32(cs_[j])
    got = np.asarray(vrun(coreax.weights.solve_qp, q, c), np.float64)
    rec.cover(states=len(q), transitions=len(q) * (2 ** m - 1), traces=len(q))
    bad = first_bad((got >= 0).all(1) & (np.abs(got.sum(1) - 1) < 1e-5))
    if bad is not None:
        rec.violate("solve_qp:infeasible", f"{got[bad].tolist()}", {"Q": q[bad], "c": c[bad]})
        return
    gap = value(q, c, got) - qp_optimum(q, c)
    scale = 1 + np.abs(q).max((1, 2))
    bad = first_bad(gap <= TOL * scale)
    if bad is not None:
        rec.violate("solve_qp", f"{got[bad].tolist()} exceeds the optimum by {gap[bad]:.3g}",
                    {"Q": q[bad], "c": c[bad]})


def reweight(rec, which):
    """Re-weighting a coreset changes nothing but its weights (and nothing in place)."""
    k = KERNELS["se"]
    opt = getattr(coreax.weights, which)(k.make())
    f = lambda a: jnp.asarray(a, jnp.float32)  # noqa: E731
    cases = []
    for n, m, d in ((1, 1, 1), (3, 2, 1), (5, 3, 2)):
        x = weyl(n, d)
        for w in (np.arange(n) + 0.5,):
            data = Data(f(x), f(w))
            for idx in itertools.islice(itertools.permutations(range(n), m), 3):
                cw = np.linspace(0.4, 1.3, m)
                cases.append(("coresubset", Coresubset(Data(jnp.array(idx), f(cw)), data),
                              x, w, x[list(idx)]))
            nodes = x[:m] + 0.21
            cases.append(("pseudo", PseudoCoreset(Data(f(nodes), f(np.ones(m))), data),
                          x, w, nodes))
    for kind, coreset, x, w, y in cases:
        before = [np.array(leaf) for leaf in eqx.filter(
            jax.tree_util.tree_leaves(coreset), eqx.is_array)]
        new = rec.call(f"{kind}-reweight", {"x": x}, coreset.solve_weights, opt)
        if new is None:
            continue
        after = [np.array(leaf) for leaf in jax.tree_util.tree_leaves(coreset)]
        case = {"kind": kind, "x": x, "w": w, "optimiser": which}
        rec.check(all(np.array_equal(a, b) for a, b in zip(before, after)),
                  f"{kind}-reweight:mutation", "the original coreset changed", case)
        rec.check(type(new) is type(coreset), f"{kind}-reweight:type",
                  f"type became {type(new).__name__}", case)
        rec.check(np.array_equal(new.points.data, coreset.points.data),
                  f"{kind}-reweight:points", "the points changed", case)
        if kind == "coresubset":
            rec.check(np.array_equal(new.unweighted_indices, coreset.unweighted_indices),
                      f"{kind}-reweight:indices", "the indices changed", case)
        rec.check(np.array_equal(new.pre_coreset_data.data, coreset.pre_coreset_data.data)
                  and np.array_equal(new.pre_coreset_data.weights,
                                     coreset.pre_coreset_data.weights),
                  f"{kind}-reweight:data", "the attached dataset changed", case)
        args = (k, r32(x)[None], w[None], r32(y)[None], np.asarray(new.points.weights)[None])
        if which == QP:
            judge_qp(rec, f"{kind}-reweight", *args, lambda i: case)
        else:
            judge_sbq(rec, f"{kind}-reweight", *args, 0.0, lambda i: case)


def rejections(rec):
    k = KERNELS["se"].make()
    f = lambda a: jnp.asarray(a, jnp.float32)  # noqa: E731
    x = weyl(4, 2)
    sup = SupervisedData(f(x), f(x[:, 0]))
    for which in (SBQ, QP):
        opt = getattr(coreax.weights, which)(k)
        for a, b in ((sup, Data(f(x[:2]))), (Data(f(x)), sup[:2]), (sup, sup[:2])):
            rec.expect_error(f"{which}:supervised", {"dataset": type(a).__name__,
                                                     "coreset": type(b).__name__},
                             ValueError, opt.solve, a, b)
        # plain arrays are accepted and mean unweighted data
        got = rec.call(f"{which}:array", {}, opt.solve, f(x), f(x[:2]))
        args = (KERNELS["se"], r32(x)[None], np.ones((1, 4)), r32(x[:2])[None],
                np.asarray(got)[None])
        if which == QP:
            judge_qp(rec, f"{which}:array", *args, lambda i: {"x": x})
        else:
            judge_sbq(rec, f"{which}:array", *args, 0.0, lambda i: {"x": x})


def tasks(tier):
    out = []
    cap = 20000 if tier == "quick" else 400000
    shapes = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (3, 3, 1), (3, 2, 2), (4, 3, 2)]
    if tier != "quick":
        shapes += [(4, 3, 1), (4, 4, 2), (5, 3, 1), (5, 4, 2)]
    for which in (QP, SBQ):
        for kname in KERNELS:
            for n, m, d in shapes:
                if (tier == "quick" and which == QP and kname in ("lap", "poly")
                        and (n, m, d) not in ((3, 2, 1), (3, 3, 1))):
                    continue
                for kind in ("subset", "free"):
                    if kind == "free" and (m > 3 or (n, m, d) not in (
                            (2, 2, 1), (3, 2, 2), (4, 3, 1), (5, 3, 1))):
                        continue
                    out.append(Task(f"{which[:3]}/{kname}/{n},{m},{d}/{kind}", lattice, which,
                                    kname, n, m, d, kind, cap,
                                    cost=(6 if which == QP else 2) * m))
        for b, u in ((None, 1), (1, 1), (2, 1), (3, 2), (7, 1), (9, 1), ((2, 3), 1),
                     ((None, 2), (2, 1)), ((5, None), True)):
            out.append(Task(f"{which[:3]}/blocks/{b}/{u}", blocks, which, b, u, cost=2))
        out.append(Task(f"{which[:3]}/reweight", reweight, which, cost=15))
    for n, m, d in ((20, 5, 2), (60, 8, 3)) + (() if tier == "quick" else ((150, 10, 2),)):
        out.append(Task(f"structured/{n},{m}", structured, n, m, d, cost=4))
    for m in (1, 2, 3, 4) + (() if tier == "quick" else (5, 6)):
        out.append(Task(f"solve_qp/{m}", direct_qp, m, cost=4))
    out.append(Task("rejections", rejections, cost=4))
    return out
