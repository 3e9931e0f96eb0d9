"""C10: kernel thinning partitions exactly and never does worse than its candidates.

Kernel halving is explored as a probabilistic transition system: for every dataset a
whole block of random keys is enumerated, every prefix of swap decisions is a state, and
the exact swap probability of that state (float64) decides which decisions are possible
and how often each must occur.  Recursion, choice and refinement are then checked on
every (dataset size, coreset size) pair, and Compress++ on every (size, g, coreset size).
"""

from __future__ import annotations

import math

from mc.core import Task
from mc.lib import (P2, V3, V4, Coresubset, Data, SupervisedData, cs, eqx, family,
                    first_bad, imq, jax, jnp, jr, keys, laplace, linear, mmd2, multisets,
                    norm_weights, np, r32, se, tuples, vrun, weyl)

ASSUMPTIONS = [
    "swap frequencies over the enumerated key block are compared with the exact law at "
    "7.5 standard deviations in every decision prefix reached at least 64 times",
    "discrepancies are compared at 2e-6 plus 1e-5 relative (float32 kernel values)",
    "weights of the dataset are positive; kt_half is applied to even sizes only",
]
KERNELS = {"se": se(0.8, 1.3), "imq": imq(1.1, 0.7), "lin": linear(0.7, 0.2),
           "lap": laplace(0.9, 1.0), "se2": se(0.6, 1.0)}


def bounds(tier):
    return {"halving": "n 2..10, 1024 keys (quick) / 8192", "recursion": "s*2^m <= 24",
            "reduce": "all (n, s), n <= 9 (quick) / 16, plus selected to 57",
            "compress++": "all admissible (n, g, s) for n <= 20, selected to 256"}


def solver(kname, sqrt, key, delta=0.1, size=1):
    return cs.KernelThinning(coreset_size=size, kernel=KERNELS[kname].make(),
                             random_key=key, delta=delta,
                             sqrt_kernel=KERNELS[sqrt].make())


def swap_law(kmat, delta, prefix):
    """Exact probability of swapping the next pair after the decisions in prefix."""
    sigma2 = 0.0
    first = []
    i = len(prefix)
    for t in range(i + 1):
        p, q = 2 * t, 2 * t + 1
        b2 = max(kmat[p, p] + kmat[q, q] - 2 * kmat[p, q], 0.0)
        b2 = 0.0 if b2 < 1e-12 else b2
        a = max(math.sqrt(b2 * sigma2) * math.sqrt(2 * math.log(2 / delta)), b2)
        if t == i:
            diff = kmat[:, p] - kmat[:, q]
            alpha = diff[:2 * i].sum() - 2 * diff[first].sum() if i else 0.0
            if a == 0:
                return 0.5
            return min(1.0, max(0.0, 0.5 * (1 - alpha / a)))
        first.append(q if prefix[t] else p)
        if a > 0:
            sigma2 += max(b2 * (1 + (b2 - 2 * a) * sigma2 / a**2), 0.0)
    return None


def t_half(rec, name, kname, delta, nkeys):
    xs = {"v4n2": lambda: tuples(V4, 2), "v3n4": lambda: tuples(V3, 4),
          "p2n4": lambda: multisets(P2, 4), "v4n6": lambda: multisets(V4, 6),
          "fam8": lambda: np.concatenate([family(8, 2)[:3], family(8, 2)[4:]]),
          "fam10": lambda: family(10, 1)[:3]}[name]()
    xs = r32(xs)
    n = xs.shape[1]
    key = f"half:{name}:{kname}:{delta}"
    seeds = jnp.asarray(keys(nkeys))

    def one(x):
        def run(s):
            a, b = solver("se", kname, jr.key(s), delta).kt_half(Data(x))
            return a.unweighted_indices, b.unweighted_indices
        return jax.vmap(run)(seeds)

    out = rec.call(key, {"x": xs[0]}, vrun, one, xs)
    if out is None:
        return
    first, second = (np.asarray(o) for o in out)
    half = n // 2
    if not rec.check(first.shape == second.shape == (len(xs), nkeys, half), key,
                     f"halves have shapes {first.shape} {second.shape}"):
        return
    pair = 2 * np.arange(half)
    for x, f, s in zip(xs, first, second):
        case = {"x": x, "sqrt_kernel": kname, "delta": delta}
        rec.cover(traces=nkeys)
        ok = (((f == pair) & (s == pair + 1)) | ((f == pair + 1) & (s == pair))).all(1)
        j = first_bad(ok)
        if j is not None:
            rec.violate(key, f"not one of each consecutive pair in each half: "
                        f"{f[j].tolist()} / {s[j].tolist()}", {**case, "seed": j})
            continue
        swaps = f == pair + 1
        kmat = KERNELS[kname](x[None], x[None])[0]
        groups = {(): np.arange(nkeys)}
        for t in range(half):
            nxt = {}
            for prefix, rows in groups.items():
                p = swap_law(kmat, delta, prefix)
                drawn = swaps[rows, t]
                rec.cover(states=1, transitions=len(rows))
                freq = drawn.mean()
                sd = math.sqrt(max(p * (1 - p), 0) / len(rows))
                slack = 7.5 * sd + 1e-4 + (3.0 / len(rows) if 0 < p < 1 else 1e-4)
                if abs(freq - p) > slack and (len(rows) >= 64 or p in (0.0, 1.0)):
                    rec.violate(key, f"pair {t} after decisions {list(map(int, prefix))}"
                                f" is swapped with frequency {freq:.4f} over {len(rows)} "
                                f"keys instead of {p:.4f}", case)
                for v in (False, True):
                    if (drawn == v).any():
                        nxt[prefix + (v,)] = rows[drawn == v]
            groups = nxt
    rec.sample({"x": xs[len(xs) // 2], "sqrt_kernel": kname, "delta": delta,
                "first_halves": first[len(xs) // 2][:3]})


def t_recursive(rec, s, m, extra, nkeys):
    n = s * 2**m
    key = f"recursive:{s}:{m}:{extra}"
    total = n + extra
    xs = r32(np.concatenate([family(total, 2)[[0, 1, 4]], family(total, 1)[[0, 2]]
                             @ np.ones((1, 2))]))
    seeds = jnp.asarray(keys(nkeys))

    def one(x):
        def run(seed):
            d = Data(x)
            parts = solver("se", "se2", jr.key(seed)).kt_half_recursive(d[:n], m, d)
            return [(p.unweighted_indices, p.points.data, p.pre_coreset_data.data)
                    for p in parts]
        return jax.vmap(run)(seeds)

    out = rec.call(key, {"n": n, "m": m}, vrun, one, xs)
    if out is None:
        return
    if not rec.check(len(out) == 2**m, key, f"{len(out)} groups instead of {2**m}"):
        return
    idx = np.stack([o[0] for o in out], -2)  # (b, keys, groups, s)
    if not rec.check(idx.shape == (len(xs), nkeys, 2**m, s), key,
                     f"group indices {idx.shape}"):
        return
    block = idx // 2**m == np.arange(s)
    every = np.sort(idx.reshape(len(xs), nkeys, -1), -1) == np.arange(n)
    pts_ok = all((o[1] == np.take_along_axis(
        np.broadcast_to(xs[:, None], (len(xs), nkeys, total, 2)),
        np.clip(o[0], 0, total - 1)[..., None].astype(int), 2)).all()
        and o[2].shape[-2] == total for o in out)
    rec.cover(states=len(xs) * nkeys, traces=len(xs) * nkeys,
              transitions=len(xs) * nkeys * (2**m - 1))
    case = {"x": xs[0], "s": s, "m": m}
    rec.check(every.all(), key, "groups are not a partition of the leading points", case)
    rec.check(block.all(), key, "a group does not take one point of every block of "
              "2^m consecutive points", case)
    rec.check(pts_ok, key, "group indices do not refer to the original dataset", case)
    rec.sample({"s": s, "m": m, "groups": idx[0, 0]})


def form(x, w, y):
    if y is not None:
        return SupervisedData(x, y, w)
    return Data(x, w)


def t_reduce(rec, n, s, kname, kind, nkeys):
    """Final coreset against every candidate group and the random baseline."""
    key = f"reduce:{n}:{s}:{kname}:{kind}"
    if n <= 4:
        xs = tuples(V3, n)
    else:
        xs = np.concatenate([family(n, 1), family(n, 1)[[0, 2]][:, ::-1],
                             weyl(n, 1, seed=1)[None], weyl(n, 1, seed=2)[None],
                             multisets(V3, n)[::7] if n <= 9 else
                             np.sort(weyl(n, 1), 0)[None]])
    if kind == "d2":
        xs = family(n, 2)
    xs = r32(xs)
    w = None
    if kind == "weighted":
        w = r32(1.0 + np.arange(n) % 3)
    m = (n // s).bit_length() - 1
    seeds = jnp.asarray(keys(nkeys))

    def one(x):
        y = x[:, :1] * 2 if kind == "sup" else None
        d = form(x, None if w is None else jnp.asarray(w, jnp.float32), y)

        def run(seed):
            sol = solver(kname, "se2", jr.key(seed), size=s)
            parts = sol.kt_half_recursive(d[:s * 2**m], m, d)
            base = sol.get_baseline_coreset(d, s)
            c, _ = sol.reduce(d)
            return (c.unweighted_indices, c.points.data,
                    jnp.stack([p.unweighted_indices for p in parts + [base]]))
        return jax.vmap(run)(seeds)

    out = rec.call(key, {"n": n, "s": s}, vrun, one, xs, size=64)
    if out is None:
        return
    idx, points, cand = out
    b = len(xs)
    if not rec.check(idx.shape == (b, nkeys, s), key, f"indices {idx.shape}"):
        return
    idx = idx.reshape(-1, s)
    cand = cand.reshape(b * nkeys, -1, s)
    points = points.reshape(b * nkeys, s, -1)
    xr = np.repeat(xs, nkeys, 0)
    valid = ((idx >= 0) & (idx < n)).all(1)
    valid &= ((cand >= 0) & (cand < n)).all((1, 2))
    j = first_bad(valid)
    if j is not None:
        rec.violate(key, f"index out of range {idx[j].tolist()}", {"x": xr[j]})
        return
    srt = np.sort(idx, 1)
    j = first_bad((srt[:, 1:] != srt[:, :-1]).all(1))
    if j is not None:
        rec.violate(key, f"repeated index {idx[j].tolist()}", {"x": xr[j],
                                                                "seed": j % nkeys})
    rows = np.arange(len(idx))[:, None]
    j = first_bad((points == xr[rows, idx]).all((1, 2)))
    if j is not None:
        rec.violate(key, "points are not the indexed rows", {"x": xr[j], "i": idx[j]})
    kmat = KERNELS[kname](xr, xr)
    wn = norm_weights(np.broadcast_to(np.ones(n) if w is None else w, (len(idx), n)))
    got = mmd2(kmat, wn, idx)
    scale = np.abs(kmat).max((1, 2))
    for c in range(cand.shape[1]):
        ref = mmd2(kmat, wn, cand[:, c])
        j = first_bad(got <= ref + 2e-6 * scale + 1e-5 * np.abs(ref))
        if j is not None:
            rec.violate(key, f"squared discrepancy {got[j]:.3g} is worse than "
                        f"{ref[j]:.3g} of candidate {c}: {cand[j, c].tolist()} against "
                        f"{idx[j].tolist()}", {"x": xr[j], "seed": j % nkeys,
                                               "kernel": kname, "w": w})
    rec.cover(states=b * nkeys, traces=b * nkeys,
              transitions=b * nkeys * cand.shape[1])
    rec.sample({"x": xs[b // 2], "s": s, "kernel": kname, "result": idx[0],
                "candidates": cand[0]})


def t_compress(rec, n, g, s, kind, nkeys):
    key = f"compress:{n}:{g}:{s}:{kind}"
    xs = r32(np.concatenate([family(n, 1), weyl(n, 1, seed=1)[None]]))
    if kind == "d2":
        xs = r32(family(n, 2))
    seeds = jnp.asarray(keys(nkeys))
    kname = "lap" if kind == "lap" else "se"

    def one(x):
        y = x[:, :1] if kind == "sup" else None
        d = form(x, jnp.arange(1.0, n + 1) if kind == "weighted" else None, y)

        def run(seed):
            c, _ = cs.CompressPlusPlus(
                coreset_size=s, g=g, kernel=KERNELS[kname].make(),
                random_key=jr.key(seed), delta=0.1,
                sqrt_kernel=KERNELS["se2"].make()).reduce(d)
            return c.unweighted_indices, c.points.data
        return jax.vmap(run)(seeds)

    out = rec.call(key, {"n": n, "g": g, "s": s}, vrun, one, xs)
    if out is None:
        return
    idx, points = out
    if not rec.check(idx.shape == (len(xs), nkeys, s), key, f"indices {idx.shape}"):
        return
    idx = idx.reshape(-1, s)
    xr = np.repeat(xs, nkeys, 0)
    points = points.reshape(len(idx), s, -1)
    srt = np.sort(idx, 1)
    ok = ((idx >= 0) & (idx < n)).all(1) & (srt[:, 1:] != srt[:, :-1]).all(1)
    j = first_bad(ok)
    if j is not None:
        rec.violate(key, f"not {s} distinct dataset indices: {idx[j].tolist()}",
                    {"x": xr[j], "seed": j % nkeys, "g": g})
    else:
        j = first_bad((points == xr[np.arange(len(idx))[:, None], idx]).all((1, 2)))
        if j is not None:
            rec.violate(key, "points are not the indexed rows", {"x": xr[j]})
    # Thinning ends with a refinement against the points that survived compression; when
    # nothing is compressed away these are all points, so no single exchange of the last
    # entry can improve the result.
    power = 4 ** int(math.floor(math.log(n, 4) + 1e-9))
    if ok.all() and power == n and g == round(math.log(n, 4)) and kind != "weighted":
        kmat = KERNELS[kname](xr, xr)
        wn = np.full((len(idx), n), 1.0 / n)
        got = mmd2(kmat, wn, idx)
        for v in range(n):
            alt = idx.copy()
            alt[:, -1] = v
            fresh = ~(idx[:, :-1] == v).any(1)
            ref = mmd2(kmat, wn, alt)
            j = first_bad(~fresh | (got <= ref + 2e-6 * np.abs(kmat).max((1, 2))))
            if j is not None:
                rec.violate(key, f"replacing the last entry of {idx[j].tolist()} by {v} "
                            f"improves the discrepancy", {"x": xr[j], "seed": j % nkeys})
                break
    rec.cover(states=len(idx), traces=len(idx), transitions=len(idx) * s)
    rec.sample({"n": n, "g": g, "s": s, "result": idx[0]})


def t_reject(rec):
    kern = KERNELS["se"].make()
    for n in range(1, 22):
        x = jnp.asarray(weyl(n, 1), jnp.float32)
        power = 0
        while 4 ** (power + 1) <= n:
            power += 1
        for g in range(-1, power + 2):
            cap = (2.0**g) * 2**power
            for s in {1, int(cap), int(cap) + 1, n, n + 1}:
                if s < 1 or (0 <= g <= power and s <= cap and s <= n):
                    continue
                sol = cs.CompressPlusPlus(coreset_size=s, g=g, kernel=kern,
                                          random_key=jr.key(0), delta=0.1,
                                          sqrt_kernel=kern)
                rec.expect_error("reject:compress", {"n": n, "g": g, "s": s},
                                 (ValueError,), sol.reduce, Data(x))
                rec.cover(states=1)
        rec.expect_error("reject:thinning", {"n": n, "s": n + 1}, (ValueError,),
                         cs.KernelThinning(coreset_size=n + 1, kernel=kern,
                                           random_key=jr.key(0), delta=0.1,
                                           sqrt_kernel=kern).reduce, Data(x))
    for s in (0, -1, -5):
        rec.expect_error("reject:size", s, (ValueError,), lambda s=s: cs.KernelThinning(
            coreset_size=s, kernel=kern, random_key=jr.key(0), delta=0.1,
            sqrt_kernel=kern))
        rec.expect_error("reject:size", s, (ValueError,), lambda s=s:
                         cs.CompressPlusPlus(coreset_size=s, g=0, kernel=kern,
                                             random_key=jr.key(0), delta=0.1,
                                             sqrt_kernel=kern))


def tasks(tier):
    quick = tier == "quick"
    out = [Task("reject", t_reject, cost=5)]
    nk = 1024 if quick else 8192
    for name in ("v4n2", "v3n4", "p2n4", "v4n6", "fam8", "fam10"):
        for kname in ("se", "lap", "lin"):
            for delta in (0.9, 0.1, 0.01):
                if quick and (kname, delta) not in {("se", 0.1), ("lin", 0.9),
                                                    ("lap", 0.01)}:
                    continue
                if kname == "lap" and name == "v3n4" and quick:
                    continue
                out.append(Task(f"half:{name}:{kname}:{delta}", t_half, name, kname,
                                delta, nk, cost=8))
    cap = 16 if quick else 32
    for s in range(1, cap // 2 + 1):
        for m in range(0, 6):
            if s * 2**m > cap or (quick and s > 5 and m == 0):
                continue
            for extra in (0, 1) if quick else (0, 1, 3):
                if quick and extra and (s + m) % 2:
                    continue
                out.append(Task(f"recursive:{s}:{m}:{extra}", t_recursive, s, m, extra,
                                16, cost=3 * 2**m))
    top = 8 if quick else 16
    pairs = [(n, s) for n in range(1, top + 1) for s in range(1, n + 1)]
    pairs += [(26, 13), (28, 7), (12, 3), (17, 2)] if quick else [
        (26, 13), (28, 7), (28, 14), (52, 13), (56, 7), (33, 4), (57, 3), (17, 2),
        (24, 3), (31, 5)]
    for n, s in pairs:
        for kname in ("se", "imq", "lap"):
            if quick and kname != ("se", "imq", "lap")[(n + s) % 3]:
                continue
            out.append(Task(f"reduce:{n}:{s}:{kname}:plain", t_reduce, n, s, kname,
                            "plain", 8, cost=6))
    for n, s in ((5, 2), (7, 3), (8, 2), (11, 4)):
        for kind in ("weighted", "sup", "d2"):
            out.append(Task(f"reduce:{n}:{s}:se:{kind}", t_reduce, n, s, "se", kind, 8,
                            cost=6))
    combos = []
    for n in range(1, 21 if quick else 66):
        power = 0
        while 4 ** (power + 1) <= n:
            power += 1
        for g in range(power + 1):
            sizes = range(1, min(n, 2**g * 2**power) + 1)
            if quick:
                if n not in (1, 2, 3, 4, 5, 7, 15, 16, 17, 20):
                    continue
                sizes = {1, max(sizes), max(1, max(sizes) // 2), min(max(sizes), 3)}
                if n in (15, 17, 20):
                    sizes = {max(sizes), min(max(sizes), 3)}
            elif n > 20:
                sizes = {1, max(sizes), 5} & set(sizes)
                if n not in (31, 63, 64, 65):
                    continue
            combos += [(n, g, s) for s in sorted(sizes)]
    combos += [(64, 1, 6), (64, 3, 20)] if quick else [(256, 1, 8), (256, 2, 20)]
    for n, g, s in combos:
        kind = ("plain", "d2", "lap", "weighted", "sup")[(n + g + s) % 5]
        out.append(Task(f"compress:{n}:{g}:{s}:{kind}", t_compress, n, g, s, kind, 8,
                        cost=10 + n))
    return out
