"""C03: kernel herding makes the greedy optimal choice at every step."""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.greedy import check_steps, herding_objective, herding_tol
from mc.lib import (P2, P2S, V3, V4, Data, SupervisedData, cross, cs, family, imq, jax,
                    jnp, jr, keys, ksum, laplace, linear, matern, multisets, np,
                    norm_weights, r32, rq, se, subset, tuples, vrun, weightings, weyl)

ASSUMPTIONS = [
    "float32 arithmetic of coreax; a choice within 1e-5*max|k| of the best is optimal",
    "the oracle is an independent float64 numpy transcription of Eq. 8 of Chen et al.",
    "at least as many admissible points as steps (otherwise later steps are unspecified)",
]

KERNELS = {
    "se": se(0.8, 1.3), "imq": imq(1.1, 0.7), "lap": laplace(0.9, 1.0),
    "lin": linear(0.6, 0.4), "matern": matern(1.2, 1.0, 1), "rq": rq(0.7, 1.0, 1.5),
    "sum": ksum(se(0.5, 1.0), imq(2.0, 0.5)),
}


def bounds(tier):
    return {"lattice": "all ordered tuples over 3-4 values, n<=5 (quick) / 6 (thorough)",
            "weights": "{0,1,2.5}^n", "sizes": "1..n", "unique": "both",
            "families": "n up to 100 (quick) / 160 (thorough), d<=5",
            "keys": "probabilistic variant: enumerated key block"}


def space(name):
    """Named enumerated dataset spaces -> (X, W)."""
    if name == "v4n4":
        xs = tuples(V4, 4)
        return cross(xs, np.ones((1, 4)))
    if name == "v4n4w":
        return cross(multisets(V4, 4), weightings((0.0, 1.0, 2.5), 4))
    if name == "v3n3w":
        return cross(tuples(V3, 3), weightings((0.0, 1.0, 2.5, 0.3), 3))
    if name == "v3n5":
        return cross(tuples(V3, 5), np.ones((1, 5)))
    if name == "v3n5w":
        return cross(multisets(V3, 5), weightings((0.0, 1.0, 2.5), 5))
    if name == "v4n6w":
        return cross(multisets(V4, 6), weightings((0.0, 1.0, 2.5), 6))
    if name == "p2n4":
        return cross(tuples(P2, 4), np.ones((1, 4)))
    if name == "p2n4w":
        return cross(multisets(P2, 4), weightings((0.0, 1.0, 2.5), 4))
    if name == "n1":
        return cross(tuples(V4, 1), np.array([[1.0], [0.5], [3.0]]))
    if name == "n2":
        return cross(tuples(V4, 2), weightings((0.0, 1.0, 2.5, 0.1), 2))
    if name == "v3n6":
        return cross(tuples(V3, 6), np.ones((1, 6)))
    if name == "v3n7":
        return cross(tuples(V3, 7), np.ones((1, 7)))
    raise KeyError(name)


def herd(rec, key, kern, x, w, m, unique, kind="data", weighted=True, extra=None,
         **opts):
    x = r32(x)
    w = r32(w)
    solver = lambda: cs.KernelHerding(m, kern.make(), unique=unique, **opts)  # noqa

    def run(xi, wi):
        if kind == "sup":
            d = SupervisedData(xi, jnp.sin(3 * xi[:, :1]), wi if weighted else None)
        else:
            d = Data(xi, wi) if weighted else Data(xi)
        return subset(solver().reduce(d)[0])["idx"]

    case = lambda i: {"x": x[i], "weights": w[i], "kernel": kern.name, "size": m,  # noqa
                      "unique": unique, "options": opts, "kind": kind}
    idx = rec.call(key, case(0), vrun, run, x, w)
    if idx is None:
        return None
    if not rec.check(idx.shape == (len(x), m), key,
                     f"got {idx.shape[1:]} indices, wanted {m}", case(0)):
        return None
    kmat = kern(x, x)
    wn = norm_weights(w)
    rec.sample(case(len(x) // 2))
    return check_steps(rec, key, herding_objective(kmat, wn), kmat, w, idx, unique,
                       herding_tol(kmat), case=case)


def t_lattice(rec, sp, kname, unique):
    x, w = space(sp)
    for m in range(1, x.shape[1] + 1):
        herd(rec, f"lattice:{sp}:{kname}:{m}:{unique}", KERNELS[kname], x, w, m, unique)


def t_blocks(rec, sp, opts_list, m, unique):
    x, w = space(sp)
    for opts in opts_list:
        herd(rec, f"blocks:{sp}:{opts}:{m}:{unique}", KERNELS["se"], x, w, m, unique,
             **opts)


def t_family(rec, n, d, sizes, kname):
    xs = family(n, d)
    pat = np.stack([np.ones(n), 1.0 + (np.arange(n) % 3), (np.arange(n) % 4 != 1) * 1.0,
                    np.where(np.arange(n) < n // 2, 0.0, 2.0)])
    x, w = cross(xs, pat)
    for m in sizes:
        for unique in (True, False):
            mm = min(m, n)
            herd(rec, f"family:{n}:{d}:{m}:{unique}", KERNELS[kname], x, w, mm, unique)
        herd(rec, f"family:{n}:{d}:{m}:blocked", KERNELS[kname], x, w, min(m, n), True,
             block_size=max(2, n // 3), unroll=2)


def t_eager(rec, form):
    """Un-jitted calls on every input form."""
    kern = KERNELS["se"]
    for n, m in [(1, 1), (3, 2), (5, 5), (7, 3)]:
        for unique in (True, False):
            x = weyl(n, 1 if form == "vector" else 2, 5.0)
            if form == "int":
                x = np.round(x).astype(np.int32)
                data = Data(jnp.asarray(x), 1 + jnp.arange(n) % 2)
                w = 1.0 + np.arange(n) % 2
            elif form == "sup":
                w = 1.0 + np.arange(n) % 3
                data = SupervisedData(jnp.asarray(x, jnp.float32), jnp.arange(n),
                                      jnp.asarray(w))
            elif form == "noweights":
                data, w = Data(jnp.asarray(x, jnp.float32)), np.ones(n)
            elif form == "vector":
                data, w = Data(jnp.asarray(x[:, 0], jnp.float32), 2.0), np.ones(n)
            else:
                w = 0.5 + np.arange(n) % 2
                data = Data(jnp.asarray(x, jnp.float32), jnp.asarray(w, jnp.float32))
            key = f"eager:{n}:{m}:{form}:{unique}"
            case = {"form": form, "x": x, "w": w, "m": m, "unique": unique}
            res = rec.call(key, case, lambda: cs.KernelHerding(
                m, kern.make(), unique=unique).reduce(data))
            if res is None:
                continue
            idx = np.asarray(res[0].unweighted_indices)[None]
            xr = r32(x)[None]
            kmat = kern(xr, xr)
            check_steps(rec, key, herding_objective(kmat, norm_weights(w[None])),
                        kmat, w[None], idx, unique, herding_tol(kmat),
                        case=lambda i, c=case: c)


def t_prob(rec, sp, m, unique, nkeys):
    """Probabilistic herding: support, zero-temperature limit, first-step law."""
    kern = KERNELS["se"]
    x, w = space(sp)
    step = max(1, len(x) // 40)
    x, w = r32(x[::step]), r32(w[::step])
    keep = (w > 0).sum(1) >= (m if unique else 1)
    x, w = x[keep], w[keep]
    kmat, wn = kern(x, x), norm_weights(w)
    mean = np.einsum("bij,bj->bi", kmat, wn)
    seeds = keys(nkeys)

    def run(temp):
        def one(xi, wi):
            def per_key(seed):
                s = cs.KernelHerding(m, kern.make(), unique=unique, probabilistic=True,
                                     temperature=temp, random_key=jr.key(seed))
                return s.reduce(Data(xi, wi))[0].unweighted_indices
            return jax.vmap(per_key)(jnp.asarray(seeds))
        return vrun(one, x, w)

    # any temperature: only admissible points
    for temp in (1.0, 0.1, 100.0):
        idx = run(temp)  # (B, keys, m)
        b, k, _ = idx.shape
        flat = idx.reshape(b * k, m)
        ww = np.repeat(w, k, 0)
        legal = ((flat >= 0) & (flat < x.shape[1])).all(1)
        legal &= (np.take_along_axis(ww, np.clip(flat, 0, x.shape[1] - 1), 1) > 0).all(1)
        if unique and m > 1:
            srt = np.sort(flat, 1)
            legal &= (np.diff(srt, axis=1) != 0).all(1)
        rec.cover(states=b * k * m, transitions=b * k * m, traces=b * k)
        if not legal.all():
            i = int(np.flatnonzero(~legal)[0])
            rec.violate(f"prob:support:{sp}:{m}:{unique}:{temp}",
                        f"drew inadmissible sequence {flat[i].tolist()}",
                        {"x": x[i // k], "w": w[i // k], "seed": int(seeds[i % k])})
        # law of the first draw
        obj = np.where(w > 0, mean, -np.inf) / temp
        p = np.exp(obj - obj.max(1, keepdims=True))
        p /= p.sum(1, keepdims=True)
        freq = (idx[:, :, 0][:, :, None] == np.arange(x.shape[1])).mean(1)
        sd = np.sqrt(p * (1 - p) / k)
        okf = (np.abs(freq - p) <= 7 * sd + 2.0 / k).all(1)
        if not okf.all():
            i = int(np.flatnonzero(~okf)[0])
            rec.violate(f"prob:law:{sp}:{m}:{unique}:{temp}",
                        f"first draw frequencies {freq[i].round(4).tolist()} differ from "
                        f"softmax {p[i].round(4).tolist()} over {k} keys",
                        {"x": x[i], "w": w[i], "temperature": temp})
    # zero temperature limit: the greedy choice
    temp = 1e-5
    idx = run(temp)[:, : min(nkeys, 8)]
    b, k, _ = idx.shape
    flat = idx.reshape(b * k, m)
    rep = lambda a: np.repeat(a, k, 0)  # noqa: E731
    check_steps(rec, f"prob:limit:{sp}:{m}:{unique}",
                herding_objective(rep(kmat), rep(wn)), rep(kmat), rep(w), flat, unique,
                5e-4, case=lambda i: {"x": x[i // k], "w": w[i // k], "temperature": temp})


def tasks(tier):
    out = []
    quick = tier == "quick"
    spaces = ["v4n4", "v4n4w", "v3n3w", "v3n5", "v3n5w", "p2n4", "p2n4w", "n1", "n2"]
    kern = {"v4n4": ["se", "imq", "lap", "lin"], "p2n4": ["se", "lin"],
            "p2n4w": ["se", "imq"], "v3n5": ["se", "sum"], "v4n4w": ["se", "imq", "lin"]}
    if not quick:
        spaces += ["v3n6", "v3n7", "v4n6w"]
        kern = {s: list(KERNELS) for s in spaces}
    for s in spaces:
        for k in kern.get(s, ["se"]):
            for u in (True, False):
                out.append(Task(f"lattice:{s}:{k}:{'u' if u else 'r'}", t_lattice, s, k,
                                u, cost=4))
    blk = [None, 1, 2, 3, 4, 5, 7, (2, 3), (3, None), (None, 2), (5, 1)]
    unr = [1, 2, True, (2, 1)]
    opts = [{"block_size": b} for b in blk]
    opts += [{"block_size": b, "unroll": u} for b, u in itertools.product((2, (2, 3)), unr)]
    if not quick:
        opts = [{"block_size": b, "unroll": u} for b, u in itertools.product(blk, unr)]
    for i in range(0, len(opts), 3):
        out.append(Task(f"blocks:{i}", t_blocks, "v3n5w", opts[i:i + 3], 3, True, cost=5))
        out.append(Task(f"blocks-r:{i}", t_blocks, "v3n5w", opts[i:i + 3], 4, False,
                        cost=5))
    fam = [(6, 3, (1, 3, 6)), (7, 1, (4, 7)), (8, 2, (5,)), (9, 2, (9,)), (10, 4, (6,)),
           (13, 2, (7,)), (20, 5, (9,)), (33, 3, (17,)), (64, 2, (33,)), (100, 2, (20,))]
    if not quick:
        fam += [(n, d, (n // 3 + 1, n)) for n in range(6, 41) for d in (1, 3)]
        fam += [(128, 3, (64, 128)), (160, 4, (40,))]
    for n, d, sizes in fam:
        out.append(Task(f"family:{n}:{d}", t_family, n, d, sizes,
                        "se" if n % 2 else "imq", cost=6))
    for form in ("float", "int", "sup", "noweights", "vector"):
        out.append(Task(f"eager:{form}", t_eager, form, cost=9))
    for s, m in (("v4n4w", 2), ("v3n5w", 3), ("p2n4", 4)):
        for u in (True, False):
            out.append(Task(f"prob:{s}:{m}:{u}", t_prob, s, m, u,
                            1024 if quick else 16384, cost=6))
    return out
