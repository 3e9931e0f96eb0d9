"""C12: recombination preserves mass and every test-function mean on a small support.

Every dataset of a lattice is crossed with every weight pattern, test-function family,
output mode and tree reduction factor; the returned measure is pushed through the test
functions in float64 and compared with that of the normalised dataset.
"""

from __future__ import annotations

from coreax.solvers import CaratheodoryRecombination, TreeRecombination

from mc.core import Task
from mc.lib import (P2, V3, V4, Data, cross, eqx, family, first_bad, jax, jnp,
                    multisets, norm_weights, np, r32, tuples, vrun, weightings, weyl)

ASSUMPTIONS = [
    "float32 arithmetic: means are compared at 2e-4 of the largest test-function value "
    "(1e-3 for the larger structured families)",
    "weights below 1e-6 of the mass count as zero when the support is counted",
    "supervised data are outside the solvers' documented input",
]
C3 = np.array([[0.0, 0, 0], [1, 1, 0], [2, 2, 0], [0.5, -1, 0]])  # constant + collinear

TF = {
    "id": (None, lambda x: x),
    "quad": (lambda x: jnp.concatenate([x, x**2]),
             lambda x: np.concatenate([x, x**2], -1)),
    "dup": (lambda x: jnp.concatenate([x, 2 * x, jnp.ones(1)]),
            lambda x: np.concatenate([x, 2 * x, np.ones_like(x[..., :1])], -1)),
    "sin": (lambda x: jnp.sin(x[:1]), lambda x: np.sin(x[..., :1])),
    "mono": (lambda x: x[0] ** jnp.arange(1, 5),
             lambda x: np.concatenate([x[..., :1] ** k for k in range(1, 5)], -1)),
    "zero": (lambda x: 0.0 * x, lambda x: 0.0 * x),
}
SOLVERS = {
    "car": lambda f, mode: CaratheodoryRecombination(f, mode),
    "car-rcond": lambda f, mode: CaratheodoryRecombination(f, mode, rcond=1e-5),
    "car-negrcond": lambda f, mode: CaratheodoryRecombination(f, mode, rcond=-1),
    "tree2": lambda f, mode: TreeRecombination(f, mode),
    "tree3": lambda f, mode: TreeRecombination(f, mode, tree_reduction_factor=3),
    "tree5": lambda f, mode: TreeRecombination(f, mode, tree_reduction_factor=5),
    "tree2-rcond": lambda f, mode: TreeRecombination(f, mode, rcond=1e-5),
}


def bounds(tier):
    return {"n": "1..9 lattice, structured to 96", "d": "1..3",
            "weights": "all patterns over {0,1,2} to n=4, selected above",
            "tree_reduction_factor": [2, 3, 5], "test_functions": sorted(TF)}


def judge(rec, key, x, w, idx, wout, tf, mode, tol, case0):
    """x (b,n,d) float64 as seen by coreax; returns nothing, records violations."""
    b, n = x.shape[:2]
    phi = np.concatenate([np.ones_like(x[..., :1]), TF[tf][1](x)], -1)
    m = phi.shape[-1]
    size = {"implicit": n, "implicit-explicit": min(n, m)}.get(mode)
    if size is not None and not rec.check(
            idx.shape == (b, size) and wout.shape == (b, size), key,
            f"{mode}: indices {idx.shape} weights {wout.shape}, expected {(b, size)}"):
        return
    wn = norm_weights(w)
    rng = ((idx >= 0) & (idx < n)).all(1)
    safe = np.clip(idx, 0, n - 1)
    rows = np.arange(b)[:, None]
    scale = 1 + np.abs(phi).max((1, 2))
    com = np.einsum("bnm,bn->bm", phi, wn)
    got = np.einsum("bkm,bk->bm", phi[rows, safe], wout)
    finite = np.isfinite(wout).all(1)
    tests = {
        "index out of range": rng,
        "non-finite or negative weight": finite & (wout >= 0).all(1),
        "support is larger than one plus the number of test functions":
            (wout > 1e-6).sum(1) <= m,
        "mass or a test-function mean is not preserved":
            finite & (np.abs(got - com).max(1) <= tol * scale),
        "mass on a zero-weighted row":
            ~((wout > 1e-6) & (wn[rows, safe] == 0)).any(1),
    }
    if mode == "explicit":
        tests["explicit mode kept a zero weight"] = (wout != 0).all(1)
    for what, ok in tests.items():
        j = first_bad(ok)
        if j is not None:
            rec.violate(key, f"{what} ({mode})", {
                **case0, "x": x[j], "w": w[j], "indices": idx[j], "weights": wout[j],
                "expected_means": com[j], "means": got[j]})
    rec.cover(states=b, traces=b, transitions=b * max(n - m, 1))
    j = b // 2
    rec.sample({**case0, "x": x[j], "w": w[j], "indices": idx[j], "weights": wout[j]})


def explore(rec, key, xs, ws, solver, tf, mode, tol=2e-4):
    xs, ws = r32(xs), r32(ws)
    case0 = {"solver": solver, "test_functions": tf, "mode": mode}

    def one(x, w):
        d = Data(x, w)
        c, _ = SOLVERS[solver](TF[tf][0], mode).reduce(d)
        p = c.points
        return {"i": c.unweighted_indices, "w": p.weights, "p": p.data,
                "pre": c.pre_coreset_data.data, "prew": c.pre_coreset_data.weights}

    out = rec.call(key, {**case0, "x": xs[0], "w": ws[0]}, vrun, one, xs, ws)
    if out is None:
        return
    if np.asarray(out["i"]).ndim == 2:
        rows = np.arange(len(xs))[:, None]
        ok = (out["p"] == xs[rows, np.clip(out["i"], 0, xs.shape[1] - 1)]).all((1, 2))
        ok &= (out["pre"] == xs).all((1, 2)) & (out["prew"] == ws).all(1)
        j = first_bad(ok)
        if j is not None:
            rec.violate(key, "points are not the indexed rows or the dataset changed",
                        {**case0, "x": xs[j], "w": ws[j], "i": out["i"][j],
                         "p": out["p"][j]})
    judge(rec, key, xs, ws, out["i"], out["w"], tf, mode, tol, case0)


LATTICE = {
    "v3n1": lambda: tuples(V3, 1), "v3n2": lambda: tuples(V3, 2),
    "v3n3": lambda: tuples(V3, 3), "v3n4": lambda: tuples(V3, 4),
    "p2n4": lambda: multisets(P2, 4), "p2n4t": lambda: tuples(P2, 4),
    "c3n4": lambda: multisets(C3, 4), "c3n6": lambda: multisets(C3, 6),
    "v3n5": lambda: tuples(V3, 5), "p2n6": lambda: multisets(P2, 6),
    "v4n7": lambda: multisets(V4, 7), "v4n9": lambda: multisets(V4, 9),
}


def some_weights(n):
    i = np.arange(n)
    out = [np.ones(n), i % 3 * 1.0, i % 2 + 0.5, 1.0 * (i == n - 1), 1.0 + i,
           (i >= n // 2) * (1.0 + i), 1000.0 ** (i % 2)]
    return np.stack([w for w in out if w.sum() > 0])


def t_lattice(rec, name, solver, tf, mode):
    xs = LATTICE[name]()
    n = xs.shape[1]
    ws = weightings((0.0, 1.0, 2.0), n) if n <= 4 and len(xs) < 200 else some_weights(n)
    explore(rec, f"lattice:{name}:{solver}:{tf}:{mode}", *cross(xs, ws), solver, tf,
            mode)


def t_large(rec, n, d, solver, tf):
    xs = family(n, d)[[0, 1, 2, 4]]
    xs, ws = cross(xs, some_weights(n)[:6])
    for mode in ("implicit", "implicit-explicit"):
        explore(rec, f"large:{n}:{d}:{solver}:{tf}:{mode}", xs, ws, solver, tf, mode,
                tol=1e-3)


def t_eager(rec, solver, part):
    """The non-jittable explicit mode, integer data, default weights and rejections."""
    data = [weyl(5, 1), tuples(V3, 4)[7], multisets(P2, 5)[9], weyl(11, 1)]
    for x in data[part:part + 1]:
        x = r32(x)
        n = len(x)
        for w in list(some_weights(n)[:3]) + [None]:
            for tf in ("id", "dup"):
                case = {"x": x, "w": w, "tf": tf, "solver": solver}
                key = f"eager:{solver}:explicit:{tf}"
                d = Data(jnp.asarray(x, jnp.float32), None if w is None
                         else jnp.asarray(w, jnp.float32))
                sol = SOLVERS[solver](TF[tf][0], "explicit")
                res = rec.call(key, case, sol.reduce, d)
                if res is None:
                    continue
                p = res[0].points
                idx = np.asarray(res[0].unweighted_indices)
                rec.check(np.array_equal(np.asarray(p.data), x[np.clip(idx, 0, n - 1)]),
                          key, "points are not the indexed rows", case)
                judge(rec, key, x[None], (np.ones(n) if w is None else w)[None],
                      idx[None], np.asarray(p.weights, np.float64)[None], tf,
                      "explicit", 2e-4, case)
    if part:
        return
    # integer rows
    xi = jnp.asarray([[0, 3], [2, 1], [2, 2], [5, 0], [4, 4], [1, 1]])
    for mode in ("implicit", "implicit-explicit"):
        key = f"eager:{solver}:int:{mode}"
        res = rec.call(key, {"x": xi, "mode": mode},
                       SOLVERS[solver](None, mode).reduce, Data(xi))
        if res is not None:
            judge(rec, key, np.asarray(xi, np.float64)[None], np.ones((1, 6)),
                  np.asarray(res[0].unweighted_indices)[None],
                  np.asarray(res[0].points.weights, np.float64)[None], "id", mode, 2e-4,
                  {"x": xi})
    d = Data(jnp.asarray(weyl(6, 1), jnp.float32))
    sol = SOLVERS[solver](None, "explicit")
    rec.expect_error(f"eager:{solver}:explicit-jit", "explicit mode under jit",
                     (ValueError,), eqx.filter_jit(sol.reduce), d)
    for mode in ("", "both", "Explicit", None, "implicit_explicit"):
        rec.expect_error(f"eager:{solver}:mode", mode, (ValueError,),
                         lambda mode=mode: SOLVERS[solver](None, mode))


def tasks(tier):
    out = []
    quick = tier == "quick"
    for name in LATTICE:
        for tf in TF:
            for solver in SOLVERS:
                for mode in ("implicit", "implicit-explicit"):
                    if quick:
                        heavy = name in ("p2n4t", "v3n5", "v3n4")
                        if heavy and tf in ("sin", "zero", "dup"):
                            continue
                        if "rcond" in solver and (tf not in ("quad", "dup") or
                                                  name not in ("v3n3", "c3n6")):
                            continue
                        if solver == "tree5" and name not in ("v4n9", "v3n3", "c3n6"):
                            continue
                        if solver in ("tree3", "car") and mode == "implicit" and \
                                name not in ("v3n3", "p2n6", "v4n7"):
                            continue
                    out.append(Task(f"lattice:{name}:{solver}:{tf}:{mode}", t_lattice,
                                    name, solver, tf, mode, cost=3))
    large = [(17, 2), (32, 3)] if quick else [(17, 2), (32, 3), (33, 1), (64, 2),
                                              (96, 4), (50, 5)]
    for n, d in large:
        for solver in ("car", "tree2", "tree3"):
            for tf in ("id", "quad"):
                out.append(Task(f"large:{n}:{d}:{solver}:{tf}", t_large, n, d, solver,
                                tf, cost=20))
    for solver in ("car", "tree2", "tree3"):
        for part in range(4):
            out.append(Task(f"eager:{solver}:{part}", t_eager, solver, part, cost=40))
    return out
