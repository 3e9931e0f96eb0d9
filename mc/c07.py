"""C07: randomly pivoted Cholesky only pivots on what is still unexplained.

The random key is the only source of non-determinism, so a block of keys is enumerated
exhaustively for every dataset; every prefix of every run is a state, and the exact
residual diagonal of that state (float64) decides which pivots are possible and how
often each must occur.
"""

from __future__ import annotations


from mc.core import Task
from mc.lib import (P2, V3, V4, Data, cs, family, imq, jax, jnp, jr, keys, laplace,
                    linear, multisets, np, poly, r32, se, tuples, vrun)

ASSUMPTIONS = [
    "residuals within ten times the float32 noise bound count as fully explained, and "
    "prefixes whose whole residual is rounding noise are not judged",
    "frequencies over the enumerated key block are compared with the exact law at 7.5 "
    "standard deviations, in every prefix reached at least 64 times",
    "'remaining choices are new points' is checked for unique=True",
]
KERNELS = {"se": se(0.8, 1.3), "imq": imq(1.1, 0.7), "lin": linear(0.7, 0.0),
           "linc": linear(0.6, 0.4), "poly": poly(0.5, 0.3, 2), "lap": laplace(0.9, 1.0)}


def bounds(tier):
    return {"keys": "1024 (quick) / 8192 (thorough) per dataset", "n": "1..5 lattice, "
            "families to 24", "sizes": "1..n"}


def residual(kmat, prefix):
    """Exact unexplained diagonal after the prefix of pivots (pivoted Cholesky).

    Also returns a bound on the float32 rounding noise of that diagonal: an error made
    before pivoting on p is amplified by the kernel scale over the residual of p.
    """
    res = kmat.copy()
    scale = np.abs(np.diag(kmat)).max() + 1e-30
    noise = 1e-6 * scale
    for p in prefix:
        if res[p, p] > 1e-9 * scale:
            noise = max(noise, 4e-7 * scale * scale / res[p, p])
            col = res[:, p] / np.sqrt(res[p, p])
            res = res - np.outer(col, col)
    return np.clip(np.diag(res), 0, None), noise


def check(rec, key, kern, xs, m, unique, nkeys, law=True):
    xs = r32(xs)
    seeds = jnp.asarray(keys(nkeys))

    def one(xi):
        d = Data(xi)
        return jax.vmap(lambda s: cs.RPCholesky(
            m, jr.key(s), kern.make(), unique=unique
        ).reduce(d)[0].unweighted_indices)(seeds)

    idx = rec.call(key, {"x": xs[0], "kernel": kern.name, "m": m}, vrun, one, xs)
    if idx is None:
        return
    n = xs.shape[1]
    if not rec.check(idx.shape == (len(xs), nkeys, m), key, f"shape {idx.shape}"):
        return
    for x, runs in zip(xs, idx):
        case = {"x": x, "kernel": kern.name, "size": m, "unique": unique}
        if (runs < 0).any() or (runs >= n).any():
            j = int(np.argwhere((runs < 0) | (runs >= n))[0][0])
            rec.violate(key, f"index out of range: {runs[j].tolist()}",
                        {**case, "seed": j})
            continue
        kmat = kern(x[None], x[None])[0]
        scale = np.abs(np.diag(kmat)).max() + 1e-30
        rec.cover(traces=nkeys)
        groups = {(): np.arange(nkeys)}
        for t in range(m):
            nxt = {}
            for prefix, rows in groups.items():
                res, noise = residual(kmat, prefix)
                res[list(prefix)] = 0
                eps = 10 * noise
                live = res > eps
                drawn = runs[rows, t]
                rec.cover(states=1, transitions=len(rows))
                if noise > 1e-3 * scale or 0 < res.sum() < 100 * n * noise:
                    rec.cover(rounding_dominated=1)  # nothing can be told apart
                elif live.any():
                    # float32 residues on explained points may be drawn, very rarely
                    bad = ~live[drawn]
                    if bad.sum() > 2 + 0.002 * len(rows):
                        j = int(rows[np.flatnonzero(bad)[0]])
                        rec.violate(key, f"step {t}: pivot {int(runs[j, t])} has nothing "
                                    f"unexplained left (residuals {res.round(6).tolist()},"
                                    f" run {runs[j].tolist()})", {**case, "seed": j})
                    if law and len(rows) >= 64:
                        p = np.where(live, res, 0)
                        p = p / p.sum()
                        freq = np.bincount(drawn, minlength=n) / len(rows)
                        sd = np.sqrt(p * (1 - p) / len(rows))
                        off = (np.abs(freq - p)
                               > 7.5 * sd + 3.0 / len(rows) + 5 * n * noise / res.sum())
                        if off.any():
                            rec.violate(key, f"after {list(prefix)} pivots occur with "
                                        f"frequencies {freq.round(4).tolist()} over "
                                        f"{len(rows)} keys instead of "
                                        f"{p.round(4).tolist()}", case)
                if unique:
                    free = np.ones(n, bool)
                    free[list(prefix)] = False
                    bad = ~free[drawn]
                    if free.any() and bad.any():
                        j = int(rows[np.flatnonzero(bad)[0]])
                        rec.violate(key, f"step {t}: chose {int(runs[j, t])} again, "
                                    f"run {runs[j].tolist()}",
                                    {**case, "seed": j})
                if t + 1 < m:
                    for v in np.unique(drawn):
                        nxt[prefix + (int(v),)] = rows[drawn == v]
            groups = nxt
    rec.sample({"x": xs[len(xs) // 2], "kernel": kern.name, "size": m,
                "unique": unique, "first_runs": idx[len(xs) // 2][:3]})


def t_lattice(rec, name, kname, m, unique, nkeys):
    xs = {"v4n2": tuples(V4, 2), "v4n3": multisets(V4, 3), "v4n4": multisets(V4, 4),
          "p2n4": multisets(P2, 4), "v3n5": multisets(V3, 5), "v3n3": tuples(V3, 3),
          "n1": tuples(V4, 1)}[name]
    if kname in ("lin", "poly"):
        # a zero kernel diagonal everywhere leaves nothing to draw from
        xs = xs[(np.abs(xs).sum((1, 2)) > 0)]
    check(rec, f"lattice:{name}:{kname}:{m}:{unique}", KERNELS[kname], xs, m, unique,
          nkeys)


def t_family(rec, n, d, m, kname, nkeys):
    xs = family(n, d)
    xs = np.concatenate([xs[:3], xs[4:]])
    for unique in (True, False):
        check(rec, f"family:{n}:{d}:{kname}:{m}:{unique}", KERNELS[kname], xs, m, unique,
              nkeys, law=True)


def tasks(tier):
    out = []
    quick = tier == "quick"
    nk = 1024 if quick else 8192
    for name, n in (("n1", 1), ("v4n2", 2), ("v4n3", 3), ("v4n4", 4), ("p2n4", 4),
                    ("v3n5", 5), ("v3n3", 3)):
        for kname in KERNELS:
            if quick and (name, kname) not in {
                    ("n1", "se"), ("v4n2", "se"), ("v4n2", "lin"), ("v4n3", "se"),
                    ("v4n3", "imq"), ("v4n3", "linc"), ("v4n4", "se"), ("v4n4", "lin"),
                    ("v4n4", "poly"), ("p2n4", "se"), ("p2n4", "linc"), ("v3n5", "se"),
                    ("v3n5", "lap"), ("v3n3", "poly")}:
                continue
            for m in range(1, n + 1):
                if quick and m < n and m not in (2,):
                    continue
                for u in (True, False):
                    out.append(Task(f"lattice:{name}:{kname}:{m}:{u}", t_lattice, name,
                                    kname, m, u, nk, cost=n * m))
    for n, d, m in [(8, 2, 5), (12, 3, 12), (24, 2, 6)]:
        for kname in ("se", "lin"):
            out.append(Task(f"family:{n}:{kname}", t_family, n, d, m, kname, 512,
                            cost=30))
    return out


