"""C09: greedy kernel points minimises the ridge regression loss at every step.

Every prefix of every run is a state; the successors allowed in a state are the pairs
whose kernel ridge regression loss (float64, solved exactly) is least among those that
may be chosen.  Ties are non-deterministic, so every tie-break is accepted.
"""

from __future__ import annotations

import itertools

from coreax.least_squares import (MinimalEuclideanNormSolver,
                                  RandomisedEigendecompositionSolver)

from mc.core import Task
from mc.lib import (P2, V3, Coresubset, Data, SupervisedData, cs, eqx, family, imq, jnp,
                    jr, laplace, linear, multisets, np, r32, se, tuples, vrun, weyl)

ASSUMPTIONS = [
    "one response per pair (documented); |lambda| >= 1e-2 so that float32 solves are "
    "accurate, loss ties within (2e-5 + 2e-6/|lambda|)(1 + |y|^2) are accepted",
    "candidate batches smaller than the dataset: only membership, range and (when "
    "refining) never doing worse than keeping the current pair are required",
]
KERNELS = {"se": se(0.8, 1.3), "imq": imq(1.1, 0.7), "lap": laplace(0.9, 1.0),
           "lin": linear(0.6, 0.4)}
Y3 = (-1.0, 0.5, 2.0)


def bounds(tier):
    return {"n": "1..4 lattice x responses, structured to 14",
            "sizes": "1..n", "lambda": [0.1, -0.1, 0.01, 1.0],
            "starts": "all index tuples of every length for n=3"}


def losses(kmat, y, lam, held):
    """Loss of adding each candidate to the held entries: (B, n)."""
    b, n = y.shape
    s = held.shape[1]
    cand = np.concatenate([np.repeat(held[:, None], n, 1),
                           np.broadcast_to(np.arange(n)[None, :, None], (b, n, 1))], -1)
    bi = np.arange(b)[:, None, None]
    kcc = kmat[bi[..., None], cand[..., :, None], cand[..., None, :]]
    kcc = kcc + abs(lam) * np.eye(s + 1)
    yc = y[bi, cand]
    coef = np.linalg.solve(kcc, yc[..., None])[..., 0]
    kxc = kmat[bi, :, cand]  # (b, n, s+1, n)
    pred = np.einsum("bcsn,bcs->bcn", kxc, coef)
    return ((y[:, None, :] - pred) ** 2).sum(-1)


def tolerance(y, lam):
    return (2e-5 + 2e-6 / abs(lam)) * (1 + (y**2).sum(1))


def check_runs(rec, key, kern, x, y, idx, lam, unique, start=None, keep_only=False,
               case0=None):
    """Every step of every run in the batch against the reference relation."""
    b, n = y.shape
    m = idx.shape[1]
    case = lambda i: {**(case0 or {}), "x": x[i], "y": y[i], "kernel": kern.name,
                      "lambda": lam, "unique": unique, "result": idx[i],
                      "start": None if start is None else start[i]}
    rng = ((idx >= 0) & (idx < n)).all(1)
    if not rng.all():
        i = int(np.flatnonzero(~rng)[0])
        rec.violate(key, f"index out of range: {idx[i].tolist()}", case(i))
        return False
    kmat = kern(x, x)
    tol = tolerance(y, lam)
    start = np.zeros((b, 0), int) if start is None else start[:, :m]
    rows = np.arange(b)
    live = np.ones(b, bool)
    good_all = True
    for t in range(m):
        held = np.concatenate([idx[:, :t], start[:, t + 1:]], 1)
        loss = losses(kmat, y, lam, held)
        taken = np.zeros((b, n), bool)
        if unique and held.shape[1]:
            taken[np.repeat(rows, held.shape[1]), held.ravel()] = True
        got = loss[rows, idx[:, t]]
        if keep_only:
            if t >= start.shape[1]:
                break
            # a repeated start entry may have to be replaced
            free = ~taken[rows, start[:, t]]
            bad = live & free & ~(got <= loss[rows, start[:, t]] + tol)
            best = loss[rows, start[:, t]]
        else:
            best = np.where(taken, np.inf, loss).min(1)
            exhausted = taken.all(1)
            bad = live & ~exhausted & (taken[rows, idx[:, t]] | ~(got <= best + tol))
        rec.cover(transitions=int(live.sum()))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            rec.violate(key, f"step {t}: pair {int(idx[i, t])} has loss {got[i]:.6g}, "
                        f"best admissible {best[i]:.6g}", case(i))
            live &= ~bad
            good_all = False
    rec.cover(states=b * (m + 1), traces=b)
    rec.sample(case(b // 2))
    return good_all


def backend(name):
    return {"default": lambda: None, "min": lambda: MinimalEuclideanNormSolver(),
            "min-rcond": lambda: MinimalEuclideanNormSolver(rcond=1e-7),
            "rand": lambda: RandomisedEigendecompositionSolver(
                jr.key(5), oversampling_parameter=25, power_iterations=1)}[name]()


def solve(kern, m, lam, unique, cb=None, lb=None, ls="default", seed=0):
    kw = {}
    if ls != "default":
        kw["least_squares_solver"] = backend(ls)
    return cs.GreedyKernelPoints(
        m, random_key=jr.key(seed), feature_kernel=kern.make(),
        regularisation_parameter=lam, unique=unique, candidate_batch_size=cb,
        loss_batch_size=lb, **kw)


def explore(rec, key, kern, x, y, m, lam, unique, start=None, cb=None, lb=None,
            ls="default", seed=0, state=False):
    x, y = r32(x), r32(y)
    n = y.shape[1]

    def reduce_one(xi, yi):
        d = SupervisedData(xi, yi[:, None])
        sol = solve(kern, m, lam, unique, cb, lb, ls, seed)
        c, st = sol.reduce(d)
        if state:
            c, _ = sol.reduce(d, st)
        return c.unweighted_indices, c.points.data, c.points.supervision

    def refine_one(xi, yi, si):
        d = SupervisedData(xi, yi[:, None])
        sol = solve(kern, m, lam, unique, cb, lb, ls, seed)
        c, _ = sol.refine(Coresubset(Data(si), d))
        return c.unweighted_indices, c.points.data, c.points.supervision

    args = (reduce_one, x, y) if start is None else (refine_one, x, y, start)
    out = rec.call(key, {"x": x[0], "y": y[0], "m": m}, vrun, *args, size=2048)
    if out is None:
        return
    idx = np.asarray(out[0])
    if not rec.check(idx.shape == (len(x), m), key, f"indices {idx.shape}"):
        return
    if ((idx >= 0) & (idx < n)).all():
        rows = np.arange(len(x))[:, None]
        rec.check((out[1] == x[rows, idx]).all() and
                  (out[2][..., 0] == y[rows, idx]).all(), key,
                  "reported pairs are not the indexed ones", {"x": x[0]})
    small = cb is not None and cb < n
    smallloss = lb is not None and lb < n
    if small or smallloss:
        rng = ((idx >= 0) & (idx < n)).all(1)
        rec.cover(states=len(x), traces=len(x), transitions=len(x) * m)
        if not rng.all():
            i = int(np.flatnonzero(~rng)[0])
            rec.violate(key, f"index out of range: {idx[i].tolist()}",
                        {"x": x[i], "y": y[i], "m": m, "candidate_batch": cb,
                         "loss_batch": lb, "seed": seed})
            return
        if small and not smallloss and start is not None:
            check_runs(rec, key, kern, x, y, idx, lam, unique, start, keep_only=True)
        return
    check_runs(rec, key, kern, x, y, idx, lam, unique, start,
               case0={"backend": ls, "candidate_batch": cb, "loss_batch": lb})


def data_space(name):
    if name == "v3n1":
        xs, ys = tuples(V3, 1), tuples(Y3, 1)[..., 0]
    elif name == "v3n2":
        xs, ys = tuples(V3, 2), tuples(Y3, 2)[..., 0]
    elif name == "v3n3":
        xs, ys = tuples(V3, 3), tuples(Y3, 3)[..., 0]
    elif name == "v3n4":
        xs, ys = multisets(V3, 4), tuples(Y3, 4)[..., 0]
    elif name == "p2n4":
        xs, ys = tuples(P2, 4)[::3], multisets(Y3, 4)[..., 0][::2]
    elif name == "small":
        xs = multisets(V3, 3)
        ys = np.array([[-1, 0.5, 2], [2, 2, -1], [0.5, 0.5, 0.5]])
    else:
        xs = np.stack([weyl(4, 1), weyl(4, 1, seed=1), weyl(4, 1)[::-1] + 2])
        ys = np.array([[-1, 0.5, 2, 1], [2, 2, -1, 0.3], [0.2, -0.5, 0.9, 3]])
    return np.repeat(xs, len(ys), 0), np.tile(ys, (len(xs), 1))


def t_reduce(rec, name, kname, m, lam, unique, cb, lb, ls):
    x, y = data_space(name)
    explore(rec, f"reduce:{name}:{kname}:{m}:{lam}:{unique}:{cb}:{lb}:{ls}",
            KERNELS[kname], x, y, m, lam, unique, cb=cb, lb=lb, ls=ls,
            state=(m + (cb or 0)) % 2 == 0)


def t_refine(rec, name, kname, m, lam, unique, length, cb):
    x, y = data_space(name)
    n = y.shape[1]
    st = np.array([t for t in itertools.product(range(n), repeat=length)
                   if not unique or len(set(t)) == length], int).reshape(-1, length)
    if len(st) == 0:
        return
    k = len(st)
    explore(rec, f"refine:{name}:{kname}:{m}:{lam}:{unique}:{length}:{cb}",
            KERNELS[kname], np.repeat(x, k, 0), np.repeat(y, k, 0), m, lam, unique,
            start=np.tile(st, (len(x), 1)), cb=cb)


def t_family(rec, n, d, m, kname, lam, seed):
    xs = np.concatenate([family(n, d)[[0, 1, 2, 4]]])
    y0 = np.sin(3 * weyl(n, 1)[:, 0])
    y1 = xs[0][:, 0] - 1.0
    y2 = np.where(np.arange(n) == n - 2, 10.0, 0.1)
    ys = np.stack([y0, y1, y2])
    x, y = np.repeat(xs, 3, 0), np.tile(ys, (len(xs), 1))
    for unique in (True, False):
        key = f"family:{n}:{d}:{m}:{kname}:{unique}"
        explore(rec, key, KERNELS[kname], x, y, m, lam, unique, seed=seed)
    explore(rec, f"family:{n}:{d}:{m}:{kname}:rand", KERNELS[kname], x, y, m, lam, True,
            ls="rand", seed=seed)
    explore(rec, f"family:{n}:{d}:{m}:{kname}:cb", KERNELS[kname], x, y, m, lam, True,
            cb=n + 3, lb=n, seed=seed)
    st = np.tile(np.arange(m)[::-1], (len(x), 1))
    explore(rec, f"family:{n}:{d}:{m}:{kname}:refine", KERNELS[kname], x, y, m, lam, True,
            start=st, seed=seed)
    for cb in (1, 2, n - 1):
        explore(rec, f"family:{n}:{d}:{m}:{kname}:refine-cb{cb}", KERNELS[kname], x, y, m,
                lam, False, start=st, cb=cb, seed=seed)
        explore(rec, f"family:{n}:{d}:{m}:{kname}:cb{cb}", KERNELS[kname], x, y, m, lam,
                False, cb=cb, lb=max(1, n // 2), seed=seed)


def t_eager(rec):
    """Plain (uncompiled) calls, default regularisation, integer data."""
    x = jnp.asarray(r32(weyl(5, 2)), jnp.float32)
    y = jnp.asarray([[0.3], [-1.0], [2.0], [0.7], [1.1]], jnp.float32)
    d = SupervisedData(x, y)
    kern = KERNELS["se"]
    for m in (1, 3):
        sol = cs.GreedyKernelPoints(m, random_key=jr.key(1), feature_kernel=kern.make(),
                                    regularisation_parameter=0.05)
        res = rec.call("eager", {"m": m}, sol.reduce, d)
        if res is not None:
            check_runs(rec, "eager", kern, np.asarray(x, float)[None],
                       np.asarray(y, float).T, np.asarray(
                           res[0].unweighted_indices)[None], 0.05, True)
    for bad in (6, 7):
        rec.expect_error("eager:size", bad, (ValueError,), cs.GreedyKernelPoints(
            bad, random_key=jr.key(1), feature_kernel=kern.make()).reduce, d)
    for bad in (0, -2):
        rec.expect_error("eager:size", bad, (ValueError,), lambda bad=bad:
                         cs.GreedyKernelPoints(bad, random_key=jr.key(1),
                                               feature_kernel=kern.make()))


def tasks(tier):
    quick = tier == "quick"
    out = [Task("eager", t_eager, cost=20)]
    lams = (0.1, -0.1, 0.01, 1.0)
    i = 0
    for name, n in (("v3n1", 1), ("v3n2", 2), ("v3n3", 3), ("v3n4", 4), ("p2n4", 4)):
        for kname in KERNELS:
            for m in range(1, n + 1):
                for unique in (True, False):
                    for lam in lams:
                        i += 1
                        if quick and i % 7 != 1 and not (
                                kname == "se" and lam == -0.1 and m == n):
                            continue
                        out.append(Task(f"reduce:{name}:{kname}:{m}:{lam}:{unique}",
                                        t_reduce, name, kname, m, lam, unique, None,
                                        None, "default", cost=n * m))
    for cb, lb in ((1, None), (2, None), (3, 3), (4, 4), (5, None), (None, 5), (None, 1),
                   (2, 2), (None, 4), (7, 9)):
        for unique in (True, False):
            if unique and cb is not None and cb < 3:
                continue
            out.append(Task(f"reduce:batch:{cb}:{lb}:{unique}", t_reduce, "p2n4", "se", 3,
                            0.1, unique, cb, lb, "default", cost=8))
    for ls in ("min", "min-rcond", "rand"):
        for name, m in (("v3n3", 2), ("v3n3", 3), ("p2n4", 3)):
            for unique in (True, False):
                out.append(Task(f"reduce:{ls}:{name}:{m}:{unique}", t_reduce, name, "imq",
                                m, 0.1, unique, None, None, ls, cost=8))
    for name, n in (("small", 3), ("weyl4", 4)):
        for m in range(1, n + 1):
            for length in range(1, n + 1):
                for unique in (True, False):
                    for cb in (None, 1, 2, n + 1):
                        if quick and (m + length + unique + (cb or 0)) % 2 and cb != 1:
                            continue
                        if unique and cb in (1, 2):
                            continue
                        out.append(Task(f"refine:{name}:{m}:{length}:{unique}:{cb}",
                                        t_refine, name, "se", m, 0.1, unique, length, cb,
                                        cost=6))
    for n, d, m in ((8, 2, 5), (14, 3, 6)) if quick else ((8, 2, 5), (14, 3, 6),
                                                         (30, 2, 8), (20, 1, 20)):
        for kname in ("se", "lin"):
            for seed in (0, 7):
                out.append(Task(f"family:{n}:{kname}:{seed}", t_family, n, d, m, kname,
                                0.1, seed, cost=40))
    return out
