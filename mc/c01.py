"""C01: reductions return real rows of the input, in the requested number.

Every solver configuration is run by the real code on every dataset of a lattice (with
coinciding points), every weighting of an alphabet, every admissible size and a range of
random keys, from scratch and from every starting coresubset; everything visible of each
result is compared with the supplied dataset.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import *  # noqa: F403
from mc.zoo import LIN, SE, ZOO, build_data, response, show, stein

ASSUMPTIONS = [
    "weights are non-negative with at least one positive; herding and Stein thinning get at "
    "least as many positively weighted points as the unique coreset they are asked for",
    "the Gaussian density estimate behind regularised Stein thinning is non-singular (the "
    "singular case is a known finding, probed separately)",
]


def bounds(tier):
    return {"solvers": sorted(ZOO), "datasets": "{0,1,2.3}^n (n <= 3 quick, 4 thorough), "
            "2-D 3 point alphabet^3, irregular and coinciding data n <= 17",
            "weights": "{0,1,2}^n", "sizes": "all 1..n", "starts": "all index tuples of length "
            "1..n (n=3) for refining solvers", "keys": "3 (quick) / 16",
            "rejections": "all sizes n+1..n+3 and non-positive or non-integer sizes"}


def judge(rec, key, got, x, w, m, sup, case, columns=2):
    """Compare everything visible with the dataset that was supplied."""
    n = x.shape[1]
    b = np.arange(len(x))[:, None]
    idx = got["idx"]
    rec.cover(states=len(x), transitions=len(x) * m, traces=len(x))
    if not rec.check(idx.shape == (len(x), m), key, f"{idx.shape[1:]} indices instead of {m}",
                     case(0)):
        return False
    if not rec.check(np.issubdtype(idx.dtype, np.integer), key, "indices are not integers",
                     case(0)):
        return False
    bad = first_bad(((idx >= 0) & (idx < n)).all(1))
    if bad is not None:
        rec.violate(key, f"indices {idx[bad].tolist()} are not rows of a dataset of {n}",
                    case(bad))
        return False
    want = {"pts": x[b, idx], "pre": x, "prew": w, "raw": idx}
    if sup:
        y = np.asarray(jax.vmap(lambda v: response(v, columns))(jnp.asarray(x, jnp.float32)),
                       np.float64)
        want["sup"], want["presup"] = y[b, idx], y
    names = {"pts": "the reported points are not the indexed rows",
             "pre": "the attached dataset is not the supplied one",
             "prew": "the weights of the attached dataset changed",
             "raw": "weighted and unweighted indices disagree",
             "sup": "the reported responses are not those of the indexed rows",
             "presup": "the responses of the attached dataset changed"}
    for part, ref in want.items():
        have = np.asarray(got[part], np.float64)
        if part == "raw":
            have = have.reshape(len(x), -1)
        if not rec.check(have.shape == ref.shape, key, f"{names[part]}: shape "
                         f"{have.shape[1:]} instead of {ref.shape[1:]}", case(0)):
            return False
        tol = 1e-5 if part in ("sup", "presup") else 0
        bad = first_bad((np.abs(have - ref) <= tol).reshape(len(x), -1).all(1))
        if bad is not None:
            rec.violate(key, f"{names[part]}: {have[bad].tolist()} instead of "
                        f"{ref[bad].tolist()} (indices {idx[bad].tolist()})", case(bad))
            return False
    ok = got["w"].shape == (len(x), m) and np.array_equal(got["w"], got["iw"]) \
        and np.isfinite(got["w"]).all() and (got["w"] >= 0).all()
    return rec.check(ok, key, f"the points do not carry one weight each: {got['w'][0].tolist()}",
                     case(0))


def run_zoo(rec, name, x, w, m, seeds, start=None, sup=None, weighted=True, label=""):
    entry = ZOO[name]
    sup = entry.sup if entry.sup is not None else bool(sup)
    n = x.shape[1]

    def run(xi, wi, si, st):
        d = build_data(xi, wi if weighted else None, sup, entry.columns)
        solver = entry.make(m, si, n)
        if start is None:
            return show(solver.reduce(d)[0])
        return show(solver.refine(Coresubset(Data(st), d))[0])

    st = start if start is not None else np.zeros((len(x), 1), int)
    case = lambda i: {"solver": name, "size": m, "x": x[i],  # noqa: E731
                      "weights": w[i] if weighted else None, "key": int(seeds[i]),
                      "supervised": sup, "start": st[i] if start is not None else None}
    key = f"{name}:{n}:{m}{label}"
    if name.startswith("tree"):
        outs = []
        compiled = jax.jit(lambda a, b: run(a, b, 0, None))
        for i in range(len(x)):
            one = rec.call(key, case(i), compiled, jnp.asarray(x[i], jnp.float32),
                           jnp.asarray(w[i], jnp.float32))
            if one is None:
                return None
            outs.append(one)
        got = {k: np.stack([np.asarray(o[k]) for o in outs]) for k in outs[0]}
    else:
        got = rec.call(key, case(0), vrun, run, x, w, seeds, st)
        if got is None:
            return None
    if judge(rec, key, got, x, w if weighted else np.ones_like(w), m, sup, case,
             entry.columns):
        rec.sample({**case(len(x) // 2), "indices": got["idx"][len(x) // 2]})
    return got


def spread(xs, ws, nkeys):
    i, j, k = np.indices((len(xs), len(ws), nkeys)).reshape(3, -1)
    return xs[i], ws[j], k.astype(np.uint32)


def lattice(rec, name, n, values, nkeys, sup):
    entry = ZOO[name]
    for m in range(1, n + 1):
        if not entry.domain(n, m):
            continue
        xs = r32(tuples(values, n))
        if "regularised" in name:  # a non-degenerate density estimate
            xs = xs[[len(np.unique(v, axis=0)) >= 3 for v in xs]]
        need = max(entry.minw(m), 3 if "regularised" in name else 1)
        ws = r32(weightings((0, 1, 2), n, need))
        if not len(xs) or not len(ws):
            continue
        x, w, k = spread(xs, ws, nkeys if entry.random else 1)
        run_zoo(rec, name, x, w, m, k, sup=sup)
        x, w, k = spread(xs, ws[-1:], nkeys if entry.random else 1)
        run_zoo(rec, name, x, w, m, k, sup=sup, weighted=False, label=":unweighted")


def refine(rec, name, n, nkeys):
    entry = ZOO[name]
    xs = r32(multisets(V3, n))
    if "regularised" in name:
        xs = xs[[len(np.unique(v)) >= 3 for v in xs]]
    for m in range(1, n + 1):
        if not entry.domain(n, m):
            continue
        for length in range(1, n + 1):
            starts = np.array(list(itertools.product(range(n), repeat=length)))
            i, j, k = np.indices((len(xs), len(starts), nkeys if entry.random else 1)
                                 ).reshape(3, -1)
            run_zoo(rec, name, xs[i], np.tile(r32(1.0 + np.arange(n) % 2), (len(i), 1)), m,
                    k.astype(np.uint32), start=starts[j], label=f":from {length}")


def family_runs(rec, name, n, d, sizes, nkeys):
    entry = ZOO[name]
    xs = r32(family(n, d))
    if "regularised" in name:
        xs = xs[:1]
    ws = r32(np.stack([1.0 + np.arange(n) % 3, (np.arange(n) % 4 != 1) * 1.0]))
    for m in sizes:
        if not entry.domain(n, m):
            continue
        use = ws if entry.minw(m) <= (ws[1] > 0).sum() else ws[:1]
        x, w, k = spread(xs, use, nkeys if entry.random else 1)
        for sup in (False, True):
            run_zoo(rec, name, x, w, m, k, sup=sup)


def reject(rec, name):
    """Sizes that the dataset cannot provide, and sizes that make no sense."""
    entry = ZOO[name]
    for n in (1, 2, 3, 5):
        x = jnp.asarray(weyl(n, 2), jnp.float32)
        for sup in ((True,) if entry.sup else (False, True)):
            d = build_data(x, None, sup, entry.columns)
            for m in range(n + 1, n + 4):
                rec.expect_error(f"{name}:too-large", {"n": n, "size": m}, ValueError,
                                 lambda: entry.make(m, 0, n).reduce(d))  # noqa: B023
    for m in (0, -1, -7):
        rec.expect_error(f"{name}:non-positive", m, ValueError, lambda: entry.make(m, 0, 5))


def forms(rec, name):
    """Uncompiled runs on integer, one-dimensional and scalar-weighted data."""
    entry = ZOO[name]
    n = 6
    for form in ("integer", "vector", "scalar-weight"):
        for m in (3, 1) if form == "vector" else (3,):
            if not entry.domain(n, m):
                continue
            if form == "integer":
                x = jnp.asarray(np.round(weyl(n, 2, 9.0)).astype(np.int32))
            elif form == "vector":
                x = jnp.asarray(weyl(n, 1, 4.0)[:, 0], jnp.float32)
            else:
                x = jnp.asarray(weyl(n, 2, 4.0), jnp.float32)
            w = 2.0 if form == "scalar-weight" else None
            sup = bool(entry.sup)
            d = SupervisedData(x, jnp.arange(n) * 1.0, w) if sup else Data(x, w)
            case = {"solver": name, "form": form, "size": m}
            if "regularised" in name and form == "integer":
                continue
            res = rec.call(f"forms:{name}:{form}", case, lambda: entry.make(m, 0, n).reduce(d)[0])
            if res is None:
                continue
            got = {k: np.asarray(v) for k, v in show(res).items()}
            rec.cover(states=1, transitions=m, traces=1)
            ref = np.asarray(d.data)
            ok = (got["idx"].shape == (m,) and ((got["idx"] >= 0) & (got["idx"] < n)).all()
                  and np.array_equal(got["pts"], ref[got["idx"]])
                  and np.array_equal(got["pre"], ref)
                  and np.array_equal(got["prew"], np.asarray(d.weights))
                  and got["w"].shape == (m,) and len(res) == m)
            if sup:
                ok = ok and np.array_equal(got["sup"], np.asarray(d.supervision)[got["idx"]])
            rec.check(ok, f"forms:{name}:{form}", f"indices {got['idx'].tolist()}, points "
                      f"{got['pts'].tolist()}", case)


def known_stein(rec):
    """The one input of the known finding: a singular density estimate."""
    d = Data(jnp.array([[0.0, 0.0], [1.0, 1.0]]))
    got = cs.SteinThinning(1, SE(), regularise=True).reduce(d)[0].unweighted_indices
    rec.cover(states=1, transitions=1, traces=1)
    if int(got[0]) not in (0, 1):
        rec.violate("regularised-stein-thinning-on-singular-density-estimate",
                    f"indices {np.asarray(got).tolist()}", {"x": d.data})


LIGHT = ("blocks", "linear", "density", "drawn", "points-r-2", "points-u-1", "sample-er",
         "tree-herding-3", "tree-stein-1")


def tasks(tier):
    quick = tier == "quick"
    nkeys = 3 if quick else 16
    out = []
    for name, entry in ZOO.items():
        tree = name.startswith("tree")
        light = quick and any(part in name for part in LIGHT)
        for n in (1, 3) if quick and not tree else (2,) if tree else (1, 2, 3, 4):
            if light and n == 1:
                continue
            for sup in ((True,) if entry.sup else (False, True)):
                if sup and not entry.sup and (n != 3 or light) and quick:
                    continue
                out.append(Task(f"lattice/{name}/{n}/{'sup' if sup else 'plain'}", lattice, name,
                                n, V3, nkeys, sup, cost=entry.cost * n * 3))
        if not tree and not quick:
            out.append(Task(f"lattice2d/{name}", lattice, name, 3, P2S, nkeys, False,
                            cost=entry.cost * 5))
        if entry.refine and not light:
            for n in (3,) if quick else (2, 3, 4):
                out.append(Task(f"refine/{name}/{n}", refine, name, n, 2 if quick else 6,
                                cost=entry.cost * 4 * n))
        if not light or tree:
            for n, sizes in (((7, (2,)), (17, (4,))) if quick
                             else ((7, (1, 2, 5)), (17, (3, 4, 8)))):
                out.append(Task(f"family/{name}/{n}", family_runs, name, n, 2, sizes,
                                1 if quick else 6, cost=entry.cost * 8))
        out.append(Task(f"reject/{name}", reject, name, cost=4))
        out.append(Task(f"forms/{name}", forms, name, cost=10 + 8 * entry.cost))
    out.append(Task("known/stein", known_stein, cost=3))
    return out
