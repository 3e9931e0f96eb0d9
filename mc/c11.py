"""C11: map-reduce terminates with the right indices for every size and leaf size.

Every (dataset size, leaf size, coreset size) triple up to the bound is run.  The
underlying solver is, besides the real ones, a *decomposable* selection rule (keep the
points with the best scores): keeping the best of every part and then the best of what is
left yields the best of the whole, so the only correct result is the globally best set.
Every row is made the best one in turn, so a row lost, duplicated, mislabelled or replaced
by padding anywhere in the tree changes an explored outcome.
"""

from __future__ import annotations

import warnings

from sklearn.neighbors import BallTree, KDTree

from mc.core import Task
from mc.lib import (Coresubset, Data, SupervisedData, ck, cs, eqx, family, imq, jnp, jr, np,
                    r32, se, weyl)

ASSUMPTIONS = [
    "datasets have positive weights (map-reduce itself introduces zero weights)",
    "selection rules under test ignore zero-weighted points, as map-reduce requires",
]
TREES = {"kd": KDTree, "ball": BallTree}


def gaussian_score(x):
    """Score of a standard normal centred at one."""
    return 1.0 - x


class BestScore(cs.CoresubsetSolver, cs.ExplicitSizeSolver, cs.PaddingInvariantSolver):
    """Keep the points with the largest score, best first."""

    source: str = eqx.field(static=True, default="column")

    def reduce(self, dataset, solver_state=None):
        if self.source == "column":
            score = dataset.data[:, 1]
        elif self.source == "response":
            score = dataset.supervision[:, 0]
        else:
            score = -dataset.data[:, 1]
        score = jnp.where(dataset.weights > 0, score, -jnp.inf)
        if self.source == "column":  # light points are a last resort
            score = jnp.where(dataset.weights < 0.5, score - 1e6, score)
        idx = jnp.argsort(-score)[: self.coreset_size]
        return Coresubset.build(idx, dataset), jnp.sum(idx)


def bounds(tier):
    return {"n": "1..12 all triples (quick) / 1..24", "larger": "selected to 200",
            "trees": sorted(TREES), "layouts": "line, clusters, duplicates, plane"}


def layout(kind, n):
    if kind == "line":
        return np.arange(n, dtype=float)
    if kind == "weyl":
        return weyl(n, 1)[:, 0]
    if kind == "dup":
        return np.arange(n) // 3 * 1.0
    if kind == "const":
        return np.zeros(n)
    return np.where(np.arange(n) % 2, 50.0 + np.arange(n), -np.arange(n))


def build(pos, score, source):
    x = jnp.asarray(np.stack([pos, score if source in ("column", "negated")
                              else 0.5 * pos], 1), jnp.float32)
    if source == "response":
        return SupervisedData(x, jnp.asarray(score[:, None], jnp.float32))
    return Data(x)


def t_best(rec, triples, source, tree, kinds):
    for n, leaf, size in triples:
        key = f"best:{n}:{leaf}:{size}:{source}:{tree}"
        sol = rec.call(key, {"leaf": leaf, "size": size}, cs.MapReduce,
                       BestScore(size, source), leaf_size=leaf, tree_type=TREES[tree])
        if sol is None:
            continue
        run = eqx.filter_jit(lambda s, d: s.reduce(d))
        for kind in kinds:
            pos = r32(layout(kind, n))
            for shift in range(n):
                # distinct positive scores; row 'shift' is the best one
                rank = (np.arange(n) * 7 + 3) % 1009
                order = np.argsort(np.argsort(rank, kind="stable"))
                score = (order - order[shift]) % n
                score = 1.0 + np.where(score == 0, n, score)
                if source == "negated":
                    score = -score
                best = np.argsort(-score if source != "negated" else score)[:size]
                d = build(pos, score, source)
                case = {"n": n, "leaf": leaf, "size": size, "layout": kind,
                        "score": score, "tree": tree}
                res = rec.call(key, case, run, sol, d)
                if res is None:
                    return
                c = res[0]
                idx = np.asarray(c.unweighted_indices)
                rec.cover(states=1, traces=1, transitions=n)
                ok = idx.shape == (size,) and sorted(idx.tolist()) == sorted(
                    best.tolist())
                if not rec.check(ok, key, f"indices {idx.tolist()} instead of "
                                 f"{sorted(best.tolist())}", case):
                    break
                rec.check(
                    np.array_equal(np.asarray(c.points.data), np.asarray(d.data)[idx])
                    and np.array_equal(np.asarray(c.pre_coreset_data.data),
                                       np.asarray(d.data))
                    and np.array_equal(np.asarray(c.pre_coreset_data.weights),
                                       np.asarray(d.weights)),
                    key, "reported points or dataset are not those supplied", case)
                if source == "response":
                    rec.check(np.array_equal(np.asarray(c.points.supervision),
                                             np.asarray(d.supervision)[idx]),
                              key, "reported responses are not the indexed ones", case)
    rec.sample({"triples": triples[:3], "source": source, "tree": tree})


def real_solver(name, size):
    if name == "herding":
        return cs.KernelHerding(size, se(0.9, 1.0).make())
    if name == "herding-imq":
        return cs.KernelHerding(size, imq(1.2, 1.0).make(), block_size=2)
    if name == "stein":
        # an explicit score: density estimates are singular on tiny partitions
        return cs.SteinThinning(size, ck.SteinKernel(
            se(1.1, 1.0).make(), score_function=gaussian_score), regularise=False)
    if name == "stein-kde":
        return cs.SteinThinning(size, se(1.1, 1.0).make(), regularise=False)
    if name == "random":
        return cs.RandomSample(size, jr.key(3), weighted=True)
    return cs.KernelHerding(size, se(0.9, 1.0).make(), unique=False)


def t_real(rec, triples, name, tree, form):
    for n, leaf, size in triples:
        key = f"real:{n}:{leaf}:{size}:{name}:{tree}:{form}"
        base = real_solver(name, size)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sol = rec.call(key, {"leaf": leaf, "size": size}, cs.MapReduce, base,
                           leaf_size=leaf, tree_type=TREES[tree])
        if sol is None:
            continue
        run = eqx.filter_jit(lambda s, d: s.reduce(d)[0])
        datasets = family(n, 2) if form != "sup" else family(n, 2)[:2]
        if name == "stein-kde":  # keep every possible partition non-degenerate
            datasets = np.stack([weyl(n, 1), weyl(n, 1, seed=1) + 3.0])
        for x in datasets:
            x = r32(x) + (7.0 if form == "offset" else 0.0)
            xf = jnp.asarray(x, jnp.float32)
            w = jnp.asarray(1.0 + np.arange(n) % 3, jnp.float32)
            d = {"plain": lambda: Data(xf), "offset": lambda: Data(xf),
                 "weighted": lambda: Data(xf, w),
                 "sup": lambda: SupervisedData(xf, xf[:, :1] * 3)}[form]()
            case = {"x": x, "n": n, "leaf": leaf, "size": size, "solver": name}
            c = rec.call(key, case, run, sol, d)
            if c is None:
                return
            idx = np.asarray(c.unweighted_indices)
            rec.cover(states=1, traces=1, transitions=n)
            if not rec.check(idx.shape == (size,) and (idx >= 0).all()
                             and (idx < n).all(), key,
                             f"not {size} dataset indices: {idx.tolist()}", case):
                continue
            rec.check(np.array_equal(np.asarray(c.points.data), np.asarray(d.data)[idx]),
                      key, f"reported points are not the rows {idx.tolist()}", case)
            rec.check(name == "herding-rep" or len(set(idx.tolist())) == size, key,
                      f"row selected twice: {idx.tolist()}", case)
            if form == "sup":
                rec.check(np.array_equal(np.asarray(c.points.supervision),
                                         np.asarray(d.supervision)[idx]), key,
                          "reported responses are not the indexed ones", case)
            if n <= leaf:
                direct = np.asarray(eqx.filter_jit(lambda s, d: s.reduce(d)[0])(
                    base, d).unweighted_indices)
                rec.check(np.array_equal(idx, direct), key,
                          f"{idx.tolist()} differs from the underlying solver's "
                          f"{direct.tolist()} though the dataset fits in one leaf", case)
    rec.sample({"triples": triples[:3], "solver": name, "form": form})


def t_weights(rec, pairs):
    """Weights reach the partitions: every second point is light, yet scores best."""
    for n, leaf in pairs:
        sol = cs.MapReduce(BestScore(1, "column"), leaf_size=leaf)
        run = eqx.filter_jit(lambda s, d: s.reduce(d)[0].unweighted_indices)
        for parity in (0, 1):
            for best in range(1 - parity, n, 2):
                light = np.arange(n) % 2 == parity
                score = np.where(light, 1000.0 + np.arange(n), np.arange(n) % 5)
                score[best] = 500.0
                x = np.stack([1e5 * np.arange(n), score], 1)
                d = Data(jnp.asarray(x, jnp.float32),
                         jnp.asarray(np.where(light, 0.25, 2.0), jnp.float32))
                case = {"x": x, "w": d.weights, "leaf": leaf}
                key = f"weights:{n}:{leaf}"
                got = rec.call(key, case, run, sol, d)
                if got is None:
                    return
                rec.cover(states=1, traces=1, transitions=n)
                rec.check(np.asarray(got).tolist() == [best], key,
                          f"chose {np.asarray(got).tolist()} instead of [{best}]: the "
                          "weights did not reach the underlying solver", case)


def t_single(rec):
    """Two coincident-free clusters: herding one point per leaf keeps both in reach."""
    for size in range(1, 6):
        for leaf in range(0, size + 1):
            for mk in (lambda s: cs.KernelHerding(s, se().make()),
                       lambda s: BestScore(s),
                       lambda s: cs.SteinThinning(s, se().make())):
                rec.cover(states=1)
                rec.expect_error("reject:leaf", {"leaf": leaf, "size": size},
                                 (ValueError,), cs.MapReduce, mk(size), leaf_size=leaf)
    for base in (cs.CaratheodoryRecombination(), cs.TreeRecombination()):
        rec.expect_error("reject:base", repr(type(base)), (ValueError,), cs.MapReduce,
                         base, leaf_size=4)
    for base, wanted in ((cs.RandomSample(2, jr.key(0)), True),
                         (cs.RPCholesky(2, jr.key(0), se().make()), True),
                         (cs.KernelHerding(2, se().make()), False),
                         (cs.SteinThinning(2, se().make()), False)):
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            rec.call("warn:padding", repr(type(base)), cs.MapReduce, base, leaf_size=4)
        warned = any("PaddingInvariant" in str(g.message) for g in got)
        rec.cover(states=1, traces=1, transitions=1)
        rec.check(warned == wanted, "warn:padding",
                  f"padding warning {'missing' if wanted else 'raised'} for "
                  f"{type(base).__name__}")
    # more points requested than the dataset holds
    for n in range(1, 4):
        rec.expect_error("reject:size", {"n": n}, (ValueError,), cs.MapReduce(
            cs.KernelHerding(4, se().make()), leaf_size=6).reduce,
            Data(jnp.arange(n, dtype=jnp.float32)))


def split(items, k):
    return [items[i::k] for i in range(k) if items[i::k]]


def tasks(tier):
    quick = tier == "quick"
    top = 12 if quick else 24
    triples = [(n, leaf, size) for n in range(1, top + 1)
               for size in range(1, min(n, 6 if quick else 12) + 1)
               for leaf in range(size + 1, min(n, 4 * size + 6) + 2)]
    out = [Task("reject", t_single, cost=5)]
    if quick:
        chosen = [t for i, t in enumerate(triples) if t[0] <= 9 or i % 2]
    else:
        chosen = triples
    for part in split(chosen, 24 if quick else 64):
        out.append(Task(f"best:column:kd:{part[0]}", t_best, part, "column", "kd",
                        ("weyl", "line"), cost=20))
    small = [t for t in triples if t[0] <= 8 or t[0] % 3 == 0]
    for i, (source, tree, kinds) in enumerate(
            (("response", "kd", ("split",)),
             ("negated", "ball", ("dup", "const")), ("column", "ball", ("weyl",)))):
        picked = small[i::7] if quick else triples
        for part in split(picked, 2 if quick else 24):
            out.append(Task(f"best:{source}:{tree}:{part[0]}", t_best, part, source,
                            tree, kinds, cost=10))
    for part in split([(n, leaf) for n in range(2, 14 if quick else 40)
                       for leaf in range(4, 10)], 4):
        out.append(Task(f"weights:{part[0]}", t_weights, part, cost=15))
    big = [(30, 7, 3), (31, 8, 4), (33, 4, 3), (50, 11, 5), (100, 13, 6), (64, 16, 8),
           (47, 9, 8), (129, 32, 16)]
    if not quick:
        big += [(200, 17, 9), (177, 6, 5), (128, 33, 32), (150, 4, 1), (99, 50, 49)]
    for part in split(big, 4):
        out.append(Task(f"best:big:{part[0]}", t_best, part, "column", "kd", ("weyl",),
                        cost=25))
    real = [(n, leaf, size) for n, leaf, size in triples if n <= 7] + [
        (10, 3, 2), (11, 4, 3), (12, 5, 2), (13, 5, 4), (21, 5, 3), (33, 8, 5)]
    for i, (name, form) in enumerate((("herding", "plain"), ("stein", "offset"),
                                      ("herding-imq", "weighted"), ("stein", "weighted"),
                                      ("herding", "sup"), ("herding-rep", "offset"),
                                      ("random", "weighted"), ("stein", "sup"),
                                      ("stein-kde", "plain"))):
        picked = real[i % 8::8] + real[-3:] if quick else real
        if name == "stein-kde":
            picked = [(9, 5, 3), (13, 6, 2), (20, 9, 4)]
        for part in split(picked, 3 if quick else 16):
            out.append(Task(f"real:{name}:{form}:{part[0]}", t_real, part, name,
                            "ball" if i % 4 == 3 else "kd", form, cost=30))
    return out
