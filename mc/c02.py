"""C02: unique selection never repeats a dataset index.

Every solver that is configured or documented to select unique points is run by the real
code on all datasets of a lattice on which points coincide (down to all points equal), with
low-rank and constant kernels, for every size up to the size of the dataset, every random
key of a range, and - for refining solvers - from every starting coresubset (every index
tuple, repeated indices and surplus entries included) and along chains of refinements.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import *  # noqa: F403
from mc.zoo import CONST, LIN, SE, ZOO, Entry, build_data, stein

ASSUMPTIONS = [
    "herding and Stein thinning get at least as many positively weighted points as the "
    "coreset they are asked for",
    "when refining, some positively weighted point is left to choose from besides the other "
    "entries held (surplus entries included; the other case is a known finding)",
    "random solvers: an enumerated range of keys",
]

EXTRA = {
    "cholesky-constant": Entry(lambda m, s, n: cs.RPCholesky(m, jr.key(s), CONST()), True,
                               random=True, minw=lambda m: 0),
    "herding-constant": Entry(lambda m, s, n: cs.KernelHerding(m, CONST()), True, refine=True),
    "herding-drawn-hot": Entry(
        lambda m, s, n: cs.KernelHerding(m, SE(), probabilistic=True, temperature=20.0,
                                         random_key=jr.key(s)), True, random=True, refine=True),
    "herding-drawn-cold": Entry(
        lambda m, s, n: cs.KernelHerding(m, SE(), probabilistic=True, temperature=1e-4,
                                         random_key=jr.key(s)), True, random=True, refine=True),
    "points-linear": Entry(
        lambda m, s, n: cs.GreedyKernelPoints(m, jr.key(s), LIN(),
                                              regularisation_parameter=1e-3), True, sup=True,
        refine=True, cost=3, minw=lambda m: 0),
    "points-batch-3": Entry(
        lambda m, s, n: cs.GreedyKernelPoints(m, jr.key(s), SE(), candidate_batch_size=3,
                                              regularisation_parameter=1e-3), True, sup=True,
        refine=True, random=True, cost=3, minw=lambda m: 0),
    "thinning-linear": Entry(
        lambda m, s, n: cs.KernelThinning(m, LIN(), jr.key(s), 0.1, SE()), True, random=True,
        cost=4),
    "defaults-herding": Entry(lambda m, s, n: cs.KernelHerding(m, SE()), True, refine=True),
    "defaults-sample": Entry(lambda m, s, n: cs.RandomSample(m, jr.key(s)), True, random=True,
                             minw=lambda m: 1),
    "defaults-cholesky": Entry(lambda m, s, n: cs.RPCholesky(m, jr.key(s), SE()), True,
                               random=True, minw=lambda m: 0),
}
UNIQUE = {k: v for k, v in {**ZOO, **EXTRA}.items() if v.unique}


def bounds(tier):
    return {"solvers": sorted(UNIQUE), "datasets": "all n-tuples over {0,1,2.3} (n<=4), "
            "structured to n=20 including all points equal", "weights": "{0,1,2}^n (n<=3), "
            "patterns", "sizes": "1..n", "starts": "all index tuples of length 1..n, n = 4",
            "chains": "three refinements in a row", "keys": "8 (quick) / 40"}


def judge(rec, key, idx, m, case):
    """idx: (B, m)"""
    srt = np.sort(idx, 1)
    ok = (np.diff(srt, axis=1) != 0).all(1) & (idx.shape[1] == m)
    rec.cover(states=len(idx), transitions=idx.size, traces=len(idx))
    bad = first_bad(ok)
    if bad is not None:
        rec.violate(key, f"indices {idx[bad].tolist()} repeat", case(bad))
        return False
    return True


def go(rec, name, x, w, m, seeds, start=None, chain=0, label=""):
    entry = UNIQUE[name]
    n = x.shape[1]

    def run(xi, wi, si, st):
        d = build_data(xi, wi, bool(entry.sup), entry.columns)
        solver = entry.make(m, si, n)
        c = solver.reduce(d)[0] if start is None else solver.refine(Coresubset(Data(st), d))[0]
        out = [c.unweighted_indices]
        for _ in range(chain):
            c = solver.refine(c)[0]
            out.append(c.unweighted_indices)
        return jnp.stack(out)

    st = start if start is not None else np.zeros((len(x), 1), int)
    case = lambda i: {"solver": name, "size": m, "x": x[i], "weights": w[i],  # noqa: E731
                      "key": int(seeds[i]), "start": st[i] if start is not None else None}
    key = f"{name}:{n}:{m}{label}"
    if name.startswith("tree"):
        f = jax.jit(lambda a, b: run(a, b, 0, None))
        got = [rec.call(key, case(i), f, jnp.asarray(x[i], jnp.float32),
                        jnp.asarray(w[i], jnp.float32)) for i in range(len(x))]
        if any(g is None for g in got):
            return
        got = np.stack([np.asarray(g) for g in got])
    else:
        got = rec.call(key, case(0), vrun, run, x, w, seeds, st)
        if got is None:
            return
    for step in range(got.shape[1]):
        if not judge(rec, key + (f":refined {step}" if step else ""), got[:, step], m, case):
            return
    rec.sample({**case(len(x) // 2), "indices": got[len(x) // 2]})


def lattice(rec, name, n, values, nkeys):
    entry = UNIQUE[name]
    for m in range(1, n + 1):
        if not entry.domain(n, m) or m == 1 < n:
            continue
        xs = r32(tuples(values, n) if n <= 3 else multisets(values, n))
        if "regularised" in name:
            xs = xs[[len(np.unique(v, axis=0)) >= 3 for v in xs]]
        need = max(entry.minw(m), 3 if "regularised" in name else 1)
        ws = r32(weightings((0, 1, 2), n, need)) if n <= 3 else r32(
            np.stack([v for v in (np.ones(n), np.array([2.0, 0, 1, 1]), np.array([0, 1.0, 0, 3]))
                      if (v > 0).sum() >= need]))
        if not len(xs):
            continue
        i, j, k = np.indices((len(xs), len(ws), nkeys if entry.random else 1)).reshape(3, -1)
        go(rec, name, xs[i], ws[j], m, k.astype(np.uint32), chain=2 if entry.refine else 0)


def starts(rec, name, n, m, nkeys):
    entry = UNIQUE[name]
    if not entry.domain(n, m):
        return
    xs = r32(multisets(V3, n))
    if "regularised" in name:
        xs = xs[[len(np.unique(v)) >= 3 for v in xs]]
    else:
        xs = xs[::3]
    w = np.ones(n)
    for length in range(1, n + 1):
        st = np.array(list(itertools.product(range(n), repeat=length)))
        i, j, k = np.indices((len(xs), len(st), nkeys if entry.random else 1)).reshape(3, -1)
        go(rec, name, xs[i], np.tile(w, (len(i), 1)), m, k.astype(np.uint32), start=st[j],
           chain=1, label=f":from {length}")


def structured(rec, name, n, sizes, nkeys):
    entry = UNIQUE[name]
    xs = r32(np.concatenate([family(n, 2), np.zeros((1, n, 2)),
                             np.tile(weyl(2, 2), (n, 1))[None, :n]]))
    if "regularised" in name:
        xs = xs[:1]
    ws = r32(np.stack([np.ones(n), 1.0 + np.arange(n) % 3, 1.0 * (np.arange(n) % 5 != 2)]))
    for m in sizes:
        m = min(m, n)
        if not entry.domain(n, m):
            continue
        use = ws[(ws > 0).sum(1) >= entry.minw(m)]
        i, j, k = np.indices((len(xs), len(use), nkeys if entry.random else 1)).reshape(3, -1)
        go(rec, name, xs[i], use[j], m, k.astype(np.uint32))
        if entry.refine:
            # from the tail, from copies of one point, and from too many
            for label, st in (("tail", np.arange(n)[::-1][:m]), ("copies", np.full(m, n - 1)),
                              ("surplus", np.arange(n)), ("few", np.array([n - 1]))):
                go(rec, name, xs[i], use[j] if label != "surplus" else use[j] + 1, m,
                   k.astype(np.uint32), start=np.tile(st, (len(i), 1)), label=f":{label}")


def known_surplus(rec):
    """The one input of the known finding."""
    d = Data(jnp.arange(4.0)[:, None], jnp.array([1.0, 0.0, 1.0, 1.0]))
    c = Coresubset(Data(jnp.arange(4)), d)
    idx = np.asarray(cs.KernelHerding(2, SE()).refine(c)[0].unweighted_indices)
    rec.cover(states=1, transitions=1, traces=1)
    if len(set(idx.tolist())) < 2:
        rec.violate("refining-a-surplus-start-that-holds-every-positively-weighted-point",
                    f"indices {idx.tolist()} repeat", {"x": d.data, "weights": d.weights})


def tasks(tier):
    quick = tier == "quick"
    nkeys = 8 if quick else 40
    out = []
    for name, entry in UNIQUE.items():
        tree = name.startswith("tree")
        if tree:
            out.append(Task(f"structured/{name}/11", structured, name, 11,
                            (2, 4) if quick else (1, 2, 3, 4, 6), 1, cost=20))
            if not quick:
                out.append(Task(f"structured/{name}/29", structured, name, 29, (3, 7), 1,
                                cost=40))
            continue
        for n in (3, 4):
            out.append(Task(f"lattice/{name}/{n}", lattice, name, n, V3, nkeys,
                            cost=entry.cost * n * 5))
        if entry.refine:
            for m in (2, 4) if quick else (1, 2, 3, 4):
                out.append(Task(f"starts/{name}/{m}", starts, name, 4, m, 2 if quick else 8,
                                cost=entry.cost * 20))
        small = name in ("thinning", "thinning-linear", "compress-0", "compress-1")
        n = 8 if small else 16
        sizes = (3, 5, n) if quick else tuple(range(2, n + 1, 2 if not small else 1))
        if quick and not small:
            sizes = (5, n)
        out.append(Task(f"structured/{name}/{n}", structured, name, n, sizes,
                        2 if quick else 8, cost=entry.cost * 15))
    out.append(Task("known/surplus", known_surplus, cost=3))
    return out
