"""C05: zero-weighted points neither enter nor influence a reduction."""

from __future__ import annotations

import itertools

from mc import c04
from mc.core import Task
from mc.greedy import check_steps, herding_objective, herding_tol
from mc.lib import (P2S, V3, V4, Data, SupervisedData, cs, family, imq, jax, jnp, jr, keys,
                    laplace, norm_weights, np, r32, se, tuples, vrun)

ASSUMPTIONS = [
    "two runs are required to select the same points unless the reference objective has "
    "a tie (within float32 tolerance) at some step, in which case both runs must still "
    "be legal runs of the reference transition relation",
    "Stein thinning: analytic scores, and density-based scores fitted by the solver",
]
KERNELS = {"se": se(0.8, 1.3), "imq": imq(1.1, 0.7), "lap": laplace(0.9, 1.0)}


def bounds(tier):
    return {"datasets": "all tuples over 3-4 values, n<=4 (5 thorough), d<=2",
            "weights": "every 0/positive pattern; positive levels {1, 2.5}",
            "padding": "0..60 rows, front/back/interleaved, values 0, copies, far away"}


def solver_of(conf, m, unique):
    """conf 'herd:<kernel>' or 'stein:<base>:<score>:<reg>'."""
    kind, _, rest = conf.partition(":")
    if kind == "herd":
        return cs.KernelHerding(m, KERNELS[rest].make(), unique=unique)
    return c04.setup(rest, m)[0](unique)


def oracle(rec, key, conf, x, w, m, idx, unique, case):
    kind, _, rest = conf.partition(":")
    if kind == "herd":
        kmat, wn = KERNELS[rest](x, x), norm_weights(w)
        return check_steps(rec, key, herding_objective(kmat, wn), kmat, w, idx, unique,
                           herding_tol(kmat), case=case)
    _, rad, score_np, lam, bw = c04.setup(rest, m)
    score, jac = score_np(x, w)
    kmat = c04.stein_matrix(rad, x, x, score, score)
    diag = np.einsum("bii->bi", kmat)
    lap = logp = 0.0
    mag = np.abs(kmat).max()
    if lam is not None:
        lap = np.clip(jac, 0, None).sum(-1)
        logp = lam * c04.kde_logpdf(x, w, bw)[0]
        mag = max(mag, np.abs(lap).max(), np.abs(np.where(w > 0, logp, 0)).max())
    return check_steps(rec, key,
                       lambda t, sim, size: -(diag + lap - (t + 1) * logp + 2 * sim),
                       kmat, w, idx, unique, 3e-5 * max(1.0, float(mag)) * (1 + m / 4),
                       case=case)


def run_batch(conf, x, w, m, unique, sup=False):
    def one(xi, wi):
        d = SupervisedData(xi, 2 * xi[:, :1], wi) if sup else Data(xi, wi)
        return solver_of(conf, m, unique).reduce(d)[0].unweighted_indices
    return vrun(one, x, w)


def usable(conf, x, w):
    kind, _, rest = conf.partition(":")
    if kind == "stein" and "noreg" not in rest:
        _, _, _, _, bw = c04.setup(rest, 1)
        return c04.kde_logpdf(x, w, bw)[1]
    return np.ones(len(x), bool)


def compare(rec, key, conf, big_x, big_w, pos, m, unique, sup=False):
    """big (B, N) with positions pos (B, k) of the positively weighted rows."""
    big_x, big_w = r32(big_x), r32(big_w)
    small_x = np.take_along_axis(big_x, pos[:, :, None], 1)
    small_w = np.take_along_axis(big_w, pos, 1)
    ok = usable(conf, small_x, small_w)
    big_x, big_w, pos = big_x[ok], big_w[ok], pos[ok]
    small_x, small_w = small_x[ok], small_w[ok]
    if not len(pos):
        return
    case = lambda i: {"x": big_x[i], "weights": big_w[i], "config": conf,  # noqa: E731
                      "size": m, "unique": unique}
    big = rec.call(key, case(0), run_batch, conf, big_x, big_w, m, unique, sup)
    small = rec.call(key, case(0), run_batch, conf, small_x, small_w, m, unique, sup)
    if big is None or small is None:
        return
    rec.sample(case(len(pos) // 2))
    n = big_x.shape[1]
    inr = ((big >= 0) & (big < n)).all(1)
    sel = np.take_along_axis(big_w, np.clip(big, 0, n - 1), 1)
    bad = ~inr | (sel <= 0).any(1)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        rec.violate(key, f"selected a zero-weighted point: {big[i].tolist()}", case(i))
    _, tie = oracle(rec, key, conf, small_x, small_w, m, small, unique, case)
    oracle(rec, key, conf, big_x, big_w, m, np.where(inr[:, None], big, 0), unique, case)
    mapped = np.take_along_axis(pos, np.clip(small, 0, pos.shape[1] - 1), 1)
    differ = (mapped != big).any(1) & ~tie
    rec.cover(transitions=len(pos), decided=int((~tie).sum()))
    if differ.any():
        i = int(np.flatnonzero(differ)[0])
        rec.violate(key, f"with zero-weighted points {big[i].tolist()}, without them "
                    f"{mapped[i].tolist()} (as indices of the padded dataset)", case(i))


def t_masks(rec, vname, n, k, conf, m, unique, sup=False):
    """Every dataset, every mask with k positive rows, positive weights {1,2.5}."""
    vals = {"v3": V3, "v4": V4, "p2": P2S}[vname]
    xs = tuples(vals, n)
    bx, bw, bp = [], [], []
    levels = list(itertools.product((1.0, 2.5), repeat=k))
    for mask in itertools.combinations(range(n), k):
        for lv in levels:
            w = np.zeros(n)
            w[list(mask)] = lv
            bx.append(xs)
            bw.append(np.tile(w, (len(xs), 1)))
            bp.append(np.tile(np.array(mask), (len(xs), 1)))
    compare(rec, f"masks:{vname}:{n}:{k}:{conf}:{m}:{unique}", conf,
            np.concatenate(bx), np.concatenate(bw), np.concatenate(bp), m, unique, sup)


def t_family(rec, n, d, pad, conf, m, unique):
    xs = family(n, d)[:3]
    pats = [np.ones(n), 1.0 + np.arange(n) % 3]
    bx, bw, bp = [], [], []
    for x, w in itertools.product(xs, pats):
        for place in ("back", "front", "mix"):
            for val in ("zero", "copy", "far"):
                rows = {"zero": np.zeros((pad, d)), "far": np.full((pad, d), 37.0),
                        "copy": x[np.arange(pad) % n]}[val]
                order = np.concatenate([np.arange(n), n + np.arange(pad)])
                if place == "front":
                    order = np.roll(order, pad)
                elif place == "mix":
                    rank = np.concatenate([np.arange(n) * 2.0, np.arange(pad) * 1.7 + 1])
                    order = np.argsort(rank, kind="stable")
                full = np.concatenate([x, rows])[order]
                fw = np.concatenate([w, np.zeros(pad)])[order]
                bx.append(full)
                bw.append(fw)
                bp.append(np.flatnonzero(fw > 0))
    compare(rec, f"family:{n}:{d}:{pad}:{conf}:{m}:{unique}", conf, np.array(bx),
            np.array(bw), np.array(bp), m, unique)


def t_scale(rec, conf, m, unique):
    """Rescaling all weights by a positive constant changes nothing."""
    xs = tuples(V4, 4)
    ws = np.array([[1, 1, 1, 1], [1, 2.5, 0, 1], [0, 1, 1, 2.5], [3, 1, 1, 0.5]], float)
    x = r32(np.repeat(xs, len(ws), 0))
    w = r32(np.tile(ws, (len(xs), 1)))
    keep = usable(conf, x, w) & ((w > 0).sum(1) >= (m if unique else 1))
    x, w = x[keep], w[keep]
    case = lambda i: {"x": x[i], "weights": w[i], "config": conf, "size": m}  # noqa
    key = f"scale:{conf}:{m}:{unique}"
    factors = (1.0, 0.125, 3.0, 1000.0, 1e-4)
    every = rec.call(key, case(0), run_batch, conf, np.tile(x, (len(factors), 1, 1)),
                     np.concatenate([w * c for c in factors]), m, unique)
    if every is None:
        return
    ref = every[:len(x)]
    _, tie = oracle(rec, key, conf, x, w, m, ref, unique, case)
    for j, c in enumerate(factors[1:], 1):
        got = every[j * len(x):(j + 1) * len(x)]
        bad = (got != ref).any(1) & ~tie
        rec.cover(transitions=len(x), traces=len(x), states=len(x))
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            rec.violate(key, f"weights times {c}: {got[i].tolist()} instead of "
                        f"{ref[i].tolist()}", case(i))


def t_random(rec, n, unique, nkeys):
    """Weighted random sampling: zero weights never drawn, scale invariance."""
    seeds = jnp.asarray(keys(nkeys))
    ws = np.array(list(itertools.product((0.0, 1.0, 2.5), repeat=n)))
    ws = ws[(ws > 0).any(1)]
    for m in range(1, n + 1):
        w = ws[(ws > 0).sum(1) >= m] if unique else ws

        def one(wi):
            d = Data(jnp.arange(n, dtype=jnp.float32), wi)
            return jax.vmap(lambda s: cs.RandomSample(
                m, jr.key(s), weighted=True, unique=unique
            ).reduce(d)[0].unweighted_indices)(seeds)

        key = f"random:{n}:{m}:{unique}"
        idx = rec.call(key, {"n": n, "m": m}, vrun, one, w)
        if idx is None:
            return
        rec.cover(states=idx.shape[0] * nkeys, transitions=idx.size,
                  traces=idx.shape[0] * nkeys)
        inr = (idx >= 0) & (idx < n)
        pw = w[np.arange(len(w))[:, None, None], np.clip(idx, 0, n - 1)]
        bad = ~inr | (pw <= 0)
        if bad.any():
            i, j, _ = np.argwhere(bad)[0]
            rec.violate(key, f"drew a zero-weighted point: {idx[i, j].tolist()}",
                        {"weights": w[i], "seed": int(j)})
        for c in (0.25, 8.0):
            out = vrun(one, w * c)
            if (out != idx).any():
                i, j, _ = np.argwhere(out != idx)[0]
                rec.violate(key, f"weights times {c} changed the draw",
                            {"weights": w[i], "seed": int(j)})


def tasks(tier):
    out = []
    quick = tier == "quick"
    herd = ["herd:se", "herd:imq", "herd:lap"]
    stein = ["stein:se:gauss:noreg", "stein:imq:mix:reg0.5", "stein:se:kde:regdef",
             "stein:imq:kde:noreg", "stein:se:kdex:reg1/silverman",
             "stein:rq:override:reg0.5"]
    i = 0
    for conf in herd + stein:
        for vname, n in ([("v4", 4), ("p2", 4)] if quick else
                         [("v4", 4), ("p2", 4), ("v3", 5)]):
            for k in range(1, n):
                for m in range(1, n):
                    for u in (True, False):
                        if m > k:
                            continue
                        i += 1
                        if quick and (vname == "p2" and i % 4 or i % 2 and k == 1):
                            continue
                        if quick and conf.startswith("stein") and i % 3:
                            continue
                        out.append(Task(f"masks:{conf}:{vname}:{k}:{m}:{u}", t_masks,
                                        vname, n, k, conf, m, u, cost=k))
    out.append(Task("masks:sup:herd", t_masks, "v3", 4, 2, "herd:se", 2, True, True))
    out.append(Task("masks:sup:stein", t_masks, "v3", 4, 3, "stein:se:kde:noreg", 2, True,
                    True))
    fams = [(5, 2, 1), (6, 1, 7), (8, 3, 4), (12, 2, 20), (7, 2, 57)]
    if not quick:
        fams += [(n, d, p) for n in (4, 9, 15, 30) for d in (1, 4) for p in (1, 2, 33)]
    for n, d, p in fams:  # structured sizes
        for conf in ["herd:se", "stein:se:kde:regdef", "stein:imq:mix:noreg"]:
            for u in (True, False):
                out.append(Task(f"family:{n}:{d}:{p}:{conf}:{u}", t_family, n, d, p,
                                conf, 4, u, cost=3))
    for conf in herd[:2] + stein:
        for u in (True, False):
            out.append(Task(f"scale:{conf}:{u}", t_scale, conf, 3, u, cost=4))
    for n in (2, 3, 4):
        for u in (True, False):
            out.append(Task(f"random:{n}:{u}", t_random, n, u, 256 if quick else 4096,
                            cost=2))
    return out
