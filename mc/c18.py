"""C18: regularised linear solvers return the regularised least-squares solution.

Every positive semi-definite matrix of a lattice (factors with entries in a small alphabet,
so every rank and every coincidence of rows occurs) is embedded in every padding pattern and
solved for every right-hand side and regularisation of the alphabet.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import coreax, first_bad, jax, jnp, jr, np, r32, vrun, weyl

ls = coreax.least_squares
ASSUMPTIONS = [
    "float32: an error of 4e-6 times the condition number (of what is not cut off) is "
    "rounding; condition numbers up to 1e3 are explored",
    "singular systems: the default solver; singular values between 1e-6 and 1e-3 of the "
    "largest do not occur in the lattice",
    "randomised solver: sketch at least as wide as the matrix; regularisation > 0 or a "
    "non-singular matrix",
]


def bounds(tier):
    return {"active size": "1..3 (quick) / 4, factors over {-1,0,1} (and {0,1})",
            "padding": "every placement of 0..2 inert rows", "lambda": list(LAMS),
            "targets": "{-1,0,1} vectors and several columns",
            "keys": "4 (quick) / 16 per configuration", "structured": "n up to 30"}


LAMS = (0.0, 0.5, -0.5, 0.05, -0.05, 2.0)


def factors(n):
    vals = (-1, 0, 1) if n < 3 else (0, 1)
    b = np.array(list(itertools.product(vals, repeat=n * n)), float).reshape(-1, n, n)
    a = np.einsum("bij,bkj->bik", b, b)
    return np.unique(np.round(a, 6), axis=0)


def embed(a, mask):
    """Place the active matrix at the True positions of the mask."""
    n = len(mask)
    out = np.zeros((len(a), n, n))
    pos = np.flatnonzero(mask)
    out[np.ix_(range(len(a)), pos, pos)] = a
    return out


def masks(n, extra):
    for m in itertools.product((True, False), repeat=n + extra):
        if sum(m) == n:
            yield np.array(m)


def targets(n):
    t = np.array(list(itertools.product((-1.0, 0.0, 1.0), repeat=n)))
    return t[np.abs(t).sum(1) > 0][..., None]


def multi(n):
    return np.stack([weyl(n, 3, seed=s) - 1 for s in range(2)])


def reference(mat, target, cut=1e-5):
    """Minimum-norm least-squares solution and the condition number of what is kept."""
    ev, q = np.linalg.eigh(mat)
    top = np.maximum(np.abs(ev).max(1), 1e-30)
    keep = np.abs(ev) > cut * top[:, None]
    inv = np.where(keep, 1 / np.where(keep, ev, 1), 0)
    sol = np.einsum("bij,bj,bkj,bkm->bim", q, inv, q, target)
    low = np.where(keep, np.abs(ev), np.inf).min(1)
    return sol, np.where(keep.any(1), top / low, 1.0)


def combine(mats, tgts):
    i, j = np.indices((len(mats), len(tgts))).reshape(2, -1)
    return mats[i], tgts[j]


def judge(rec, key, got, mat, tgt, use, case, factor=4e-6):
    got = np.asarray(got, np.float64)
    want, cond = reference(mat, tgt)
    use = use & (cond < 1e3)
    rec.cover(states=int(use.sum()), transitions=int(use.sum()), traces=len(got))
    if got.shape != want.shape:
        rec.violate(key, f"shape {got.shape[1:]}, expected {want.shape[1:]}", case(0))
        return
    lim = factor * cond * (1 + np.abs(want).max((1, 2))) + 5e-6
    err = np.abs(got - want).max((1, 2))
    ok = ~use | (np.isfinite(got).all((1, 2)) & (err <= lim))
    rec.extra["largest_error_ratio_1e-3"] = max(
        rec.extra.get("largest_error_ratio_1e-3", 0),
        int(1e3 * np.max(np.where(use & np.isfinite(err), err / lim, 0), initial=0)))
    bad = first_bad(ok)
    if bad is not None:
        rec.violate(key, f"solution {got[bad].round(5).tolist()}, expected "
                    f"{want[bad].round(5).tolist()}", case(bad))


def spread(*arrays):
    """All combinations of several stacks (leading axes)."""
    idx = np.indices([len(a) for a in arrays]).reshape(len(arrays), -1)
    return [a[i] for a, i in zip(arrays, idx)]


def case_of(mats, lams, tgts, ids, **more):
    return lambda i: dict({"array": mats[i], "lambda": lams[i], "target": tgts[i],
                           "identity": np.diagonal(ids[i])},
                          **{k: v[i] if isinstance(v, np.ndarray) else v
                             for k, v in more.items()})


def padded(n, extra, tg):
    """(matrix, identity, target) for every placement of the inert rows."""
    a = factors(n)
    out = []
    for mask in masks(n, extra):
        full = np.zeros((len(tg), len(mask), tg.shape[2]))
        full[:, mask] = tg
        ident = np.diag(mask.astype(float))
        m, t = combine(embed(a, mask), full)
        out.append((m, np.tile(ident, (len(m), 1, 1)), t))
    return [np.concatenate(x) for x in zip(*out)]


def default_lattice(rec, n, extra, kind):
    mats, ids, tgts = padded(n, extra, targets(n) if kind == "vec" else multi(n))
    k = np.arange(len(mats))
    k, lams = spread(k, np.array(LAMS))
    mats, ids, tgts = mats[k], ids[k], tgts[k]
    solver = ls.MinimalEuclideanNormSolver()
    got = vrun(lambda m, lam, t, i: solver.solve(m, lam, t, i), mats, lams, tgts, ids,
               size=50000)
    judge(rec, "default", got, mats + np.abs(lams)[:, None, None] * ids, tgts,
          np.ones(len(mats), bool), case_of(mats, lams, tgts, ids))
    idle = np.diagonal(ids, axis1=1, axis2=2) == 0
    bad = first_bad(np.abs(np.asarray(got) * idle[..., None]).max((1, 2)) < 1e-4)
    if bad is not None:
        rec.violate("default:padding", "non-zero coefficients on the inert block",
                    case_of(mats, lams, tgts, ids)(bad))
    rec.sample({"array": mats[-1], "lambda": lams[-1], "target": tgts[-1],
                "solution": got[-1]})


def random_lattice(rec, n, extra, wide, power, nkeys, rcond):
    mats, ids, tgts = padded(n, extra, targets(n)[::2] if n > 1 else targets(n))
    k, lams, seeds = spread(np.arange(len(mats)), np.array(LAMS),
                            np.arange(nkeys, dtype=np.uint32))
    mats, ids, tgts = mats[k], ids[k], tgts[k]

    def run(m, lam, t, i, seed):
        return ls.RandomisedEigendecompositionSolver(
            jr.key(seed), oversampling_parameter=n + extra + wide, power_iterations=power,
            rcond=rcond).solve(m, lam, t, i)

    got = vrun(run, mats, lams, tgts, ids, seeds, size=50000)
    reg = mats + np.abs(lams)[:, None, None] * ids
    # inert rows get an eigenvalue of one here, so that only the active block counts
    use = np.linalg.eigvalsh(reg + np.eye(n + extra) - ids)[:, 0] > 1e-3
    judge(rec, "randomised", got, reg, tgts, use,
          case_of(mats, lams, tgts, ids, key=seeds, oversampling=n + extra + wide,
                  power=power, rcond=rcond), 2e-5)


def stack(rec, n, extra):
    """A stack is solved member by member, with one shared regularisation and identity."""
    a = factors(n)[:40]
    mask = np.array([True] * n + [False] * extra)
    big = embed(a, mask)
    ident = np.diag(mask.astype(float))
    for cols in (1, 2):
        t = np.zeros((len(a), n + extra, cols))
        t[:, :n] = np.stack([weyl(n, cols, seed=s) - 1.2 for s in range(len(a))])
        for solver, name in (
                (ls.MinimalEuclideanNormSolver(), "default"),
                (ls.RandomisedEigendecompositionSolver(jr.key(3), n + extra + 2), "randomised")):
            for lam in LAMS[1:]:
                got = np.asarray(solver.solve_stack(
                    jnp.asarray(big, jnp.float32), lam, jnp.asarray(t, jnp.float32),
                    jnp.asarray(ident)), np.float64)
                judge(rec, f"stack:{name}", got, big + abs(lam) * ident, r32(t),
                      np.ones(len(a), bool),
                      lambda i: {"array": big[i], "lambda": lam, "target": t[i]}, 2e-5)
    # other axes: one matrix, several targets / several regularisations
    solver = ls.MinimalEuclideanNormSolver()
    mat = np.diag(np.arange(1.0, n + 1))
    t = np.stack([weyl(n, 1, seed=s) for s in range(4)])
    got = solver.solve_stack(jnp.asarray(mat, jnp.float32), 0.5, jnp.asarray(t, jnp.float32),
                             jnp.eye(n), in_axes=(None, None, 0, None))
    judge(rec, "stack:targets", got, np.tile(mat + 0.5 * np.eye(n), (4, 1, 1)), r32(t),
          np.ones(4, bool), lambda i: {"targets": t[i]})
    lams = np.array([-0.5, 0.25, 1.0, -2.0])
    got = solver.solve_stack(jnp.asarray(mat, jnp.float32), jnp.asarray(lams),
                             jnp.asarray(t, jnp.float32), jnp.eye(n), in_axes=(None, 0, 0, None))
    judge(rec, "stack:regularisations", got,
          mat + np.abs(lams)[:, None, None] * np.eye(n), r32(t), np.ones(4, bool),
          lambda i: {"lambda": lams[i]})


def structured(rec, n, rank, nkeys):
    """Larger kernel-like matrices, partly padded; explicit cut-offs."""
    b = np.stack([weyl(n, min(rank, 8), seed=s) for s in range(3)]) - 1.4
    a = np.einsum("bij,bkj->bik", b, b)
    for extra in (0, 3):
        mask = np.array([i % 4 != 1 or extra == 0 for i in range(n)])
        big = a * mask[:, None] * mask[None]
        ident = np.diag(mask.astype(float))
        t = np.stack([weyl(n, 2, seed=s + 7) for s in range(3)]) * mask[:, None]
        big, t = r32(big), r32(t)
        for lam in (1.0, -1.0, 5.0):
            # explicit cut-offs below rounding level only make sense without an inert block
            for rc in (None, -1, 1e-6) if extra == 0 else (None,):
                solver = ls.MinimalEuclideanNormSolver(rcond=rc)
                got = vrun(lambda m, q: solver.solve(m, lam, q, jnp.asarray(ident)), big, t)
                judge(rec, "default-structured", got, big + abs(lam) * ident, t,
                      np.ones(3, bool), lambda i: {"n": n, "lambda": lam, "set": i}, 1e-5)
                k, seeds = spread(np.arange(3), np.arange(nkeys, dtype=np.uint32))
                got = vrun(lambda m, q, seed: ls.RandomisedEigendecompositionSolver(
                    jr.key(seed), n + 5, 1, rc).solve(m, lam, q, jnp.asarray(ident)),
                    big[k], t[k], seeds)
                judge(rec, "randomised-structured", got, (big + abs(lam) * ident)[k], t[k],
                      np.ones(len(k), bool),
                      lambda i: {"n": n, "lambda": lam, "set": k[i], "key": seeds[i]}, 4e-5)


def cutoff(rec):
    """An explicit cut-off discards exactly the directions below it."""
    for n in (2, 3):
        for ratios in itertools.product((1.0, 0.3, 0.02), repeat=n - 1):
            ev = np.array((1.0,) + ratios) * 4
            q, _ = np.linalg.qr(weyl(n, n, seed=5) - 1.5)
            mat = r32(q @ np.diag(ev) @ q.T)
            t = r32(weyl(n, 1, seed=2))
            for rc in (0.1, 0.5, 0.005):
                want, _ = reference(mat[None], t[None], cut=rc)
                for name, solver in (
                        ("default", ls.MinimalEuclideanNormSolver(rcond=rc)),
                        ("randomised", ls.RandomisedEigendecompositionSolver(
                            jr.key(1), n, 2, rc))):
                    got = vrun(lambda m, y: solver.solve(m, 0.0, y, jnp.eye(n)),
                               mat[None], t[None])
                    rec.cover(states=1, transitions=1, traces=1)
                    rec.check(np.abs(got - want).max() < 1e-3 * (1 + np.abs(want).max()),
                              f"cutoff:{name}", f"{got[0].tolist()} instead of "
                              f"{want[0].tolist()}", {"array": mat, "rcond": rc})


def rejections(rec):
    mk = ls.RandomisedEigendecompositionSolver
    key = jr.key(0)
    for bad in (0, -1, 2.5, 25.0):
        rec.expect_error("oversampling", {"value": bad}, ValueError, mk, key, bad)
    for bad in (-1, 0.5, 1.0):
        rec.expect_error("power", {"value": bad}, ValueError, mk, key, 5, bad)
    for bad in (-0.5, -2, -1e-9):
        rec.expect_error("rcond", {"value": bad}, ValueError, mk, key, 5, 1, bad)
    for good in ((1, 0, None), (3, 2, -1), (25, 1, 0.0), (1, 0, 1e-3)):
        rec.call("accepted", {"value": good}, mk, key, *good)
        rec.cover(states=1, transitions=1, traces=1)
    for shape in ((2, 3), (3,), (2, 2, 2)):
        rec.expect_error("shape", {"shape": shape}, ValueError,
                         mk(key, 2).randomised_eigendecomposition, jnp.ones(shape))


def eigen(rec, n, nkeys):
    """With a full-width sketch the eigendecomposition reproduces the matrix."""
    a = factors(n)
    for seed in range(nkeys):
        solver = ls.RandomisedEigendecompositionSolver(jr.key(seed), n + 1)
        vals, vecs = vrun(solver.randomised_eigendecomposition, a)
        back = np.einsum("bij,bj,bkj->bik", vecs.astype(float), vals.astype(float), vecs)
        rec.cover(states=len(a), transitions=len(a), traces=len(a))
        bad = first_bad(np.abs(back - a).max((1, 2)) < 3e-5 * (1 + np.abs(a).max((1, 2))))
        if bad is not None:
            rec.violate("eigendecomposition", f"reassembles to {back[bad].tolist()}",
                        {"array": a[bad], "key": seed})


def tasks(tier):
    out = []
    quick = tier == "quick"
    keys = 4 if quick else 16
    for n, extra in ((1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1)) + (
            () if quick else ((3, 2),)):
        for kind in ("vec", "multi"):
            out.append(Task(f"default/{n}+{extra}/{kind}", default_lattice, n, extra, kind,
                            cost=3 * (n + extra)))
        for wide, power, rcond in ((0, 1, None), (3, 0, None), (1, 2, None), (2, 1, 1e-5)):
            if quick and n + extra > 3 and (wide, power) != (3, 0):
                continue
            out.append(Task(f"random/{n}+{extra}/{wide},{power},{rcond}", random_lattice, n,
                            extra, wide, power, keys if n + extra < 4 else max(1, keys // 2),
                            rcond, cost=8 * (n + extra)))
    for n, extra in ((1, 1), (2, 0), (2, 1), (3, 0), (3, 2)):
        out.append(Task(f"stack/{n}+{extra}", stack, n, extra, cost=5))
    for n, rank in ((8, 3), (30, 8)) + (() if quick else ((60, 8),)):
        out.append(Task(f"structured/{n}", structured, n, rank, keys, cost=8))
    for n in (1, 2, 3):
        out.append(Task(f"eigen/{n}", eigen, n, keys, cost=3))
    out += [Task("cutoff", cutoff, cost=6), Task("rejections", rejections, cost=2)]
    return out
