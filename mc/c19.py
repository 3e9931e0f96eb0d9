"""C19: approximate kernels are exact at full budget and never alter the kernel itself.

The random choice of evaluation and training points is the non-determinism.  For every
dataset of a lattice, every pair of budgets and every random key of a range, the real
result has to be one of the outcomes of the model: the least-squares fit, on some training
subset, of the kernel means by the kernel evaluated at some subset of the points.  All
subsets are enumerated; at full budget only one outcome is left, the exact mean.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.greedy import check_steps, herding_objective, herding_tol
from mc.lib import *  # noqa: F403

ca = coreax.approximation
CLASSES = {"mc": ca.MonteCarloApproximateKernel, "annchor": ca.ANNchorApproximateKernel,
           "nystrom": ca.NystromApproximateKernel}
KERNELS = {"se": se(0.6, 1.4), "imq": imq(0.4, 0.8), "lap": laplace(0.7, 1.0),
           "sum": ksum(se(0.5, 1.0), imq(0.7, 0.5)), "rq": rq(0.5, 1.0, 0.7)}
ASSUMPTIONS = [
    "float32: an error of 1e-5 times the condition number is rounding; regression problems "
    "with a condition number above 300 are not judged",
    "means are unweighted (the approximations are documented not to support weights)",
    "random keys: an enumerated range stands for the random choice; the judge accepts "
    "every choice of subsets",
]


def bounds(tier):
    return {"datasets": "all ordered n-tuples of distinct points of a 4 point alphabet in "
            "1-D and 2-D, n <= 4; irregular data up to n=30 at full budget",
            "budgets": "all (kernel points, train points) in 1..n squared",
            "keys": "16 (quick) / 200 per budget", "kernels": sorted(KERNELS)}


V = (0.0, 1.0, 2.3, -0.7)
P = ((0.0, 0.0), (1.0, 0.3), (-0.4, 1.7), (2.1, -0.6))


def distinct(values, n):
    base = np.array(values, float)
    base = base[:, None] if base.ndim == 1 else base
    return np.stack([base[list(p)] for p in itertools.permutations(range(len(base)), n)])


def fit(features, train, target):
    """F lstsq(F[T], target), batched, with the condition number of what was inverted."""
    sub = features[:, train]
    u, s, vt = np.linalg.svd(sub, full_matrices=False)
    inv = np.where(s > 1e-6 * s[:, :1], 1 / np.where(s > 0, s, 1), 0)
    cond = s[:, 0] / s[:, -1]
    sol = np.einsum("bkj,bk,bik,bi->bj", vt, inv, u, target)
    return np.einsum("bnj,bj->bn", features, sol), cond


def anchors(kmat, count, tol=1e-5):
    """Every admissible greedy sequence of anchor points, per dataset: list of lists."""
    n = len(kmat)
    seqs = [[0]]
    for step in range(1, count):
        nxt = []
        for seq in seqs:
            # columns still empty count as zero
            worst = np.maximum(kmat[:, seq].max(1), 0.0 if step < count else -np.inf)
            for i in range(n):
                if worst[i] <= worst.min() + tol:
                    nxt.append(seq + [i])
        seqs = nxt
    return seqs


def outcomes(name, kmat, m, t):
    """All outcomes of the model: stacks (outcomes, batch, n), conds (outcomes, batch)."""
    bsz, n, _ = kmat.shape
    vals, conds, sets = [], [], []
    trains = list(itertools.combinations(range(n), t))
    mean = kmat.mean(2)
    if name == "annchor":
        for i in range(bsz):
            row_v, row_c = [], []
            for seq in anchors(kmat[i], m):
                for train in trains:
                    v, c = fit(kmat[i:i + 1, :, seq], list(train), mean[i:i + 1, list(train)])
                    row_v.append(v[0])
                    row_c.append(c[0])
            vals.append(row_v)
            conds.append(row_c)
        top = max(map(len, vals))
        v = np.stack([np.array(r + [r[0]] * (top - len(r))) for r in vals], 1)
        c = np.stack([np.array(r + [r[0]] * (top - len(r))) for r in conds], 1)
        return v, c, None
    for feats in itertools.combinations(range(n), m):
        for train in trains:
            if name == "nystrom":
                if m == t and feats != train:
                    continue
                target = kmat[:, train][:, :, train].mean(2)
            else:
                target = mean[:, train]
            v, c = fit(kmat[:, :, feats], list(train), target)
            vals.append(v)
            conds.append(c)
            sets.append((feats, train))
    return np.stack(vals), np.stack(conds), sets


def real(name, kern, m, t, x, seeds, kind="array"):
    def run(xi, seed):
        approx = CLASSES[name](kern.make(), jr.key(seed), num_kernel_points=m,
                               num_train_points=t)
        return approx.gramian_row_mean(Data(xi) if kind == "data" else xi)

    return vrun(run, x, seeds)


def budgets(rec, name, kname, values, n, nkeys):
    kern = KERNELS[kname]
    xs = r32(distinct(values, n))
    i, k = np.indices((len(xs), nkeys)).reshape(2, -1)
    kmat = kern(xs, xs)
    for m in range(1, n + 1):
        for t in range(1, n + 1):
            key = f"{name}:{kname}:{n}:{m},{t}"
            case = lambda j: {"kernel": kname, "x": xs[i[j]], "key": int(k[j]),  # noqa
                              "num_kernel_points": m, "num_train_points": t}
            got = rec.call(key, case(0), real, name, kern, m, t, xs[i],
                           k.astype(np.uint32), "data" if (m + t) % 2 else "array")
            if got is None:
                continue
            if not rec.check(got.shape == (len(i), n), key, f"shape {got.shape[1:]}", case(0)):
                continue
            vals, conds, sets = outcomes(name, kmat, m, t)
            usable = conds.max(0) < 300
            tol = 1e-5 * conds.max(0) * (1 + np.abs(vals).max((0, 2)))
            err = np.abs(vals[:, i] - got[None]).max(2)  # (outcomes, runs)
            hit = err <= tol[i]
            fine = np.isfinite(got).all(1) & hit.any(0)
            judged = usable[i]
            rec.cover(states=int(vals.shape[0] * usable.sum()), transitions=int(judged.sum()),
                      traces=len(i))
            bad = first_bad(fine | ~judged)
            if bad is not None:
                rec.violate(key, f"mean {got[bad].tolist()} is no outcome of the model; exact "
                            f"mean {kmat[i[bad]].mean(1).tolist()}", case(bad))
                continue
            if m == n and t == n and judged.any():
                exact = kmat.mean(2)[i]
                err = np.abs(got - exact).max(1)
                bad = first_bad((err <= tol[i]) | ~judged)
                if bad is not None:
                    rec.violate(key + ":full", f"{got[bad].tolist()}, exact mean "
                                f"{exact[bad].tolist()}", case(bad))
            if sets is not None and judged.any() and nkeys >= 8 * len(sets):
                # the key decides: more than one choice is really taken
                row = np.flatnonzero(judged)[0]
                mine = (i == i[row])
                seen = {int(np.argmin(err[:, j])) for j in np.flatnonzero(mine)} \
                    if len(sets) > 1 and (m, t) != (n, n) else {0, 1}
                rec.check(len(seen) > 1, key + ":keys", "every key gives the same choice",
                          case(row))
    rec.sample({"kernel": kname, "x": xs[-1], "mean": kmat[-1].mean(1)})


def full(rec, name, kname, n, d, nkeys):
    """Larger, well separated data at full budget."""
    kern = KERNELS[kname]
    side = int(np.ceil(n ** (1 / d)))
    grid = np.array(list(itertools.product(range(side), repeat=d)), float)[:n] * 1.7
    xs = np.stack([grid + 0.3 * weyl(n, d, 1.0, s) for s in range(3)])
    xs = r32(np.concatenate([xs, xs[:, ::-1]]))
    kmat = kern(xs, xs)
    cond = np.array([np.linalg.cond(m) for m in kmat])
    i, k = np.indices((len(xs), nkeys)).reshape(2, -1)
    got = rec.call(f"{name}:{kname}:{n}:full", None, real, name, kern, n, n, xs[i],
                   k.astype(np.uint32))
    if got is None:
        return
    err = np.abs(got - kmat.mean(2)[i]).max(1)
    use = (cond < 300)[i]
    rec.cover(states=int(use.sum()), transitions=int(use.sum()), traces=len(got),
              well_conditioned=int(use.sum()))
    bad = first_bad(~use | (err <= 1e-5 * cond[i]))
    if bad is not None:
        rec.violate(f"{name}:{kname}:{n}:full", f"error {err[bad]:.3g} at full budget",
                    {"x": xs[i[bad]], "key": int(k[bad]), "kernel": kname})
    if name == "annchor":
        # more anchors than points are allowed and change nothing
        got = rec.call("annchor:over", None, real, name, kern, n + 3, n, xs,
                       np.zeros(len(xs), np.uint32))
        if got is not None:
            err = np.abs(got - kmat.mean(2)).max(1)
            rec.cover(states=len(xs), transitions=len(xs), traces=len(xs))
            rec.check((err <= 1e-5 * cond + (cond >= 300)).all(), "annchor:over",
                      f"error {err.max():.3g} with more anchors than points", {"x": xs[0]})


def delegate(rec, name, kname):
    """Everything but the mean is the base kernel, alone and in combinations."""
    kern = KERNELS[kname]
    base = kern.make()
    other = se(1.3, 0.7)
    xs = r32(distinct(P, 3))
    ys = r32(distinct(P, 2)[:len(xs)] + 0.37)
    ys = np.concatenate([ys, ys])[:len(xs)]
    w = r32(np.tile([1.0, 0.0, 2.5], (len(xs), 1)))
    combos = {
        "self": lambda k: k, "k+o": lambda k: k + other.make(), "o*k": lambda k: other.make() * k,
        "2k": lambda k: 2.0 * k, "k+1": lambda k: k + 1.0, "k**2": lambda k: k ** 2,
        "stein": lambda k: ck.SteinKernel(k, lambda p: -p * 0.7),
    }

    def everything(k, x, y, wi):
        return {
            "compute": k.compute(x, y), "element": k.compute_elementwise(x[0], y[0]),
            "point": k.compute(x[0], y[1]),
            "grad_x": k.grad_x(x, y), "grad_y": k.grad_y(x, y),
            "divergence": k.divergence_x_grad_y(x, y),
            "mean": k.compute_mean(x, y), "mean0": k.compute_mean(x, y, axis=0),
            "meanw": k.compute_mean(Data(x, wi), y, axis=0, block_size=2),
        }

    for cname, combo in combos.items():
        def run(x, y, wi, seed):
            k = CLASSES[name](base, jr.key(seed), num_kernel_points=2, num_train_points=1)
            return everything(combo(k), x, y, wi), everything(combo(base), x, y, wi)

        got = rec.call(f"delegate:{name}:{kname}:{cname}", {"combination": cname}, vrun, run,
                       xs, ys, w, np.arange(len(xs), dtype=np.uint32))
        if got is None:
            continue
        have, want = got
        for method in have:
            a, b = np.asarray(have[method], float), np.asarray(want[method], float)
            rec.cover(states=len(a), transitions=len(a), traces=len(a))
            ok = a.shape == b.shape and np.allclose(a, b, rtol=2e-5, atol=2e-6)
            rec.check(ok, f"delegate:{name}:{cname}:{method}",
                      f"differs from the wrapped kernel ({kname})",
                      {"x": xs[0], "y": ys[0], "got": a[0], "want": b[0]})
        if cname == "self":
            ref = kern(xs, ys)
            rec.check(np.allclose(have["compute"], ref, atol=1e-5), f"delegate:{name}:formula",
                      "differs from the formula of the wrapped kernel", {"kernel": kname})


def pure(rec, name):
    """Same data and key, same answer: eager, compiled, repeated, after other calls."""
    kern = KERNELS["imq"]
    x = jnp.asarray(distinct(P, 4)[3], jnp.float32)
    for m, t in ((1, 1), (3, 2), (4, 4)):
        for seed in range(3):
            mk = lambda s=seed: CLASSES[name](kern.make(), jr.key(s), m, t)  # noqa: E731
            one = mk()
            a = np.asarray(one.gramian_row_mean(x))
            one.compute(x, x), one.compute_mean(x, x)
            b = np.asarray(one.gramian_row_mean(x))
            mk(seed + 1).gramian_row_mean(x)
            c = np.asarray(mk().gramian_row_mean(Data(x)))
            d = np.asarray(jax.jit(lambda z: mk().gramian_row_mean(z))(x))
            e = np.asarray(mk().gramian_row_mean(x, block_size=2, unroll=1))
            rec.cover(states=1, transitions=5, traces=5)
            for what, val in (("repeat", b), ("data", c), ("compiled", d), ("options", e)):
                rec.check(np.allclose(a, val, rtol=2e-4, atol=2e-5), f"pure:{name}:{what}",
                          f"{a.tolist()} became {val.tolist()}",
                          {"m": m, "t": t, "key": seed})


def inputs(rec, name):
    """Every documented input form at full budget, and the rejections."""
    kern = KERNELS["se"]
    for form, n in ((3.0, 1), (2, 1), (np.float32(1.5), 1), (np.array([0.0, 1.5, 3.1]), 3),
                    (np.array([[0.0], [2.0]]), 2)):
        arg = form if isinstance(form, (int, float)) else jnp.asarray(form, jnp.float32)
        got = rec.call(f"inputs:{name}", {"x": form}, CLASSES[name](
            kern.make(), jr.key(3), n, n).gramian_row_mean, arg)
        x = np.asarray(form, float).reshape(n, 1)
        want = kern(x, x).mean(1)
        rec.cover(states=1, transitions=1, traces=1)
        if got is not None:
            rec.check(np.shape(got) == (n,) and np.allclose(got, want, atol=1e-4),
                      f"inputs:{name}", f"{np.asarray(got).tolist()} != {want.tolist()}",
                      {"x": form})
    for bad in (0, -1, -5):
        rec.expect_error(f"reject:{name}:kernel", bad, ValueError, CLASSES[name],
                         kern.make(), jr.key(0), bad, 2)
        rec.expect_error(f"reject:{name}:train", bad, ValueError, CLASSES[name],
                         kern.make(), jr.key(0), 2, bad)
    for bad in (None, "kernel", lambda x, y: x):
        rec.expect_error(f"reject:{name}:base", repr(bad), TypeError, CLASSES[name], bad,
                         jr.key(0), 2, 2)
    for n in range(1, 5):
        x = jnp.asarray(weyl(n, 2), jnp.float32)
        for over in range(1, 4):
            for wrap in (lambda z: z, Data):
                rec.expect_error(
                    f"reject:{name}:train>n", {"n": n, "over": over}, ValueError,
                    CLASSES[name](kern.make(), jr.key(0), n, n + over).gramian_row_mean,
                    wrap(x))
                if name != "annchor":
                    rec.expect_error(
                        f"reject:{name}:kernel>n", {"n": n, "over": over}, ValueError,
                        CLASSES[name](kern.make(), jr.key(0), n + over, n).gramian_row_mean,
                        wrap(x))


def herding(rec, name, nkeys):
    """Kernel herding with an approximate kernel of full budget stays stepwise optimal."""
    kern = KERNELS["se"]
    for n in (3, 4):
        xs = r32(distinct(P, n))
        i, k = np.indices((len(xs), nkeys)).reshape(2, -1)
        kmat = kern(xs, xs)
        wn = np.full((len(i), n), 1 / n)
        for m in range(1, n + 1):
            for unique in (True, False):
                def run(x, seed):
                    approx = CLASSES[name](kern.make(), jr.key(seed), n, n)
                    return subset(cs.KernelHerding(m, approx, unique=unique)
                                  .reduce(Data(x))[0])["idx"]

                idx = rec.call(f"herding:{name}:{n}:{m}", None, vrun, run, xs[i],
                               k.astype(np.uint32))
                if idx is not None:
                    check_steps(rec, f"herding:{name}:{n}:{m}:{unique}",
                                herding_objective(kmat[i], wn), kmat[i],
                                np.ones((len(i), n)), idx, unique,
                                20 * herding_tol(kmat),
                                case=lambda j: {"x": xs[i[j]], "key": int(k[j])})


def tasks(tier):
    quick = tier == "quick"
    nkeys = 16 if quick else 200
    out = []
    for name in CLASSES:
        for kname in (("se", "imq", "lap") if quick else KERNELS):
            for label, values in (("1d", V), ("2d", P)):
                for n in (1, 2, 3, 4):
                    out.append(Task(f"budgets/{name}/{kname}/{label}/{n}", budgets, name,
                                    kname, values, n, nkeys, cost=n ** 3))
        for kname in KERNELS:
            out.append(Task(f"delegate/{name}/{kname}", delegate, name, kname, cost=20))
        for kname in ("se", "imq"):
            for n, d in ((7, 1), (16, 2), (30, 2)):
                out.append(Task(f"full/{name}/{kname}/{n}", full, name, kname, n, d,
                                6 if quick else 40, cost=n))
        out.append(Task(f"pure/{name}", pure, name, cost=25))
        out.append(Task(f"inputs/{name}", inputs, name, cost=5))
        out.append(Task(f"herding/{name}", herding, name, 4 if quick else 20, cost=25))
    return out
