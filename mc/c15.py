"""C15: discrepancies equal their definitions and respect weights, symmetry and order.

Every pair of datasets of a lattice is crossed with every pair of weightings of an alphabet
and every metric configuration; the value of the real code is compared with the defining
formula evaluated in float64 (on squared values, where float32 rounding is additive).
"""

from __future__ import annotations

import itertools

from mc.c04 import _gauss_jx, _gauss_np, _wide_jx, _wide_np, kde_score, r_imq, r_rq, r_se
from mc.c04 import stein_matrix
from mc.core import Task
from mc.lib import (P2, V3, Coresubset, Data, PseudoCoreset, SupervisedData, ck, coreax,
                    first_bad, imq, jnp, ksum, laplace, linear, multisets, norm_weights, np,
                    poly, r32, se, tuples, vrun, weightings, weyl)

ASSUMPTIONS = [
    "float32 tolerance on squared discrepancies: 4e-6 of the largest kernel value for the "
    "(joint) maximum mean discrepancy, 3e-5 for Stein, 1e-3/lambda-scaled for AMCMD",
    "Laplace correction and regularisation are defined by the documented formula (plain "
    "averages over the comparison points); they are explored for unweighted comparison data",
    "regularised Stein discrepancy: reference data with non-degenerate covariance",
]


def bounds(tier):
    return {"pairs": "all pairs of multisets over 3 points, n, m <= 3 (quick) / 4, d <= 2",
            "weights": "{0,1,2.5}^n for both sides, all-zero included (plus unweighted)",
            "blocks": "all pairs of {None,1,2,3,4,5,7,9} for n=7, m=5; unroll 1,2,True",
            "structured": "n, m up to 60 (quick) / 200: permutation, split, rescaling"}


WL = (0.0, 1.0, 2.5)


def all_weights(n):
    return np.array(list(itertools.product(WL, repeat=n)), float).reshape(-1, n)


def pair_up(xs, ws, ys, vs):
    """All combinations of (dataset, weighting) on either side."""
    a, b, c, e = len(xs), len(ws), len(ys), len(vs)
    i = np.indices((a, b, c, e)).reshape(4, -1)
    return xs[i[0]], ws[i[1]], ys[i[2]], vs[i[3]]


def ref_mmd2(k, x, w, y, v):
    w, v = norm_weights(w), norm_weights(v)
    return (np.einsum("bi,bij,bj->b", w, k(x, x), w)
            + np.einsum("bi,bij,bj->b", v, k(y, y), v)
            - 2 * np.einsum("bi,bij,bj->b", w, k(x, y), v))


def scale_of(k, x, y):
    return np.maximum(np.abs(k(x, x)).max((1, 2)), np.abs(k(y, y)).max((1, 2)))


def judge(rec, key, got, want2, tol, case):
    """got: value of the real code; want2: reference squared value (may be ~0)."""
    rec.cover(states=len(got), transitions=len(got), traces=len(got))
    got = np.asarray(got, np.float64)
    if got.ndim != 1:
        rec.violate(key, f"a discrepancy has shape {got.shape[1:]} instead of a scalar")
        return
    bad = first_bad(np.isfinite(got) & (got >= 0))
    if bad is not None:
        rec.violate(key + ":undefined", f"value {got[bad]} is negative or undefined",
                    case(bad))
        return
    target = np.maximum(want2, 0)
    # compare squares; for large values the rounding of the root itself matters
    bad = first_bad(np.abs(got ** 2 - target) <= tol + 4e-6 * target)
    if bad is not None:
        rec.violate(key, f"squared value {got[bad] ** 2:.7g}, definition gives "
                    f"{target[bad]:.7g}", case(bad))


KERNELS = {
    "se": se(0.8, 1.3), "imq": imq(1.2, 0.7), "lap": laplace(1.0, 1.0),
    "lin": linear(0.7, 0.4), "poly": poly(0.5, 1.0, 2), "sum": ksum(se(1, 1), linear(1, 0)),
}


def mmd_lattice(rec, kname, n, m, pts_name):
    k = KERNELS[kname]
    pts = {"V3": V3, "P2": P2[:3]}[pts_name]
    x, w, y, v = pair_up(multisets(pts, n), all_weights(n), multisets(pts, m), all_weights(m))
    metric = coreax.metrics.MMD(k.make())
    got = vrun(lambda a, p, b, q: metric.compute(Data(a, p), Data(b, q)), x, w, y, v)
    x, y = r32(x), r32(y)
    judge(rec, f"mmd:{kname}", got, ref_mmd2(k, x, w, y, v), 4e-6 * scale_of(k, x, y),
          lambda i: {"kernel": k.name, "x": x[i], "w": w[i], "y": y[i], "v": v[i]})
    rec.sample({"metric": "MMD", "kernel": k.name, "x": x[-1], "w": w[-1], "y": y[-1],
                "v": v[-1], "value": float(got[-1])})


def mmd_blocks(rec, kname, block, unroll):
    k = KERNELS[kname]
    n, m = 7, 5
    xs = np.stack([weyl(n, 2, seed=s) for s in range(2)] + [np.tile([[1.0, -2.0]], (n, 1))])
    ys = np.stack([weyl(m, 2, seed=s + 9) for s in range(2)])
    ws = np.array([[1] * 7, [0, 1, 2, 0, 3, 0.5, 0], [0, 0, 0, 0, 0, 0, 2], [0] * 7], float)
    vs = np.array([[2] * 5, [0, 0, 1, 4, 0], [1, 0, 0, 0, 0]], float)
    x, w, y, v = pair_up(xs, ws, ys, vs)
    metric = coreax.metrics.MMD(k.make())
    got = vrun(lambda a, p, b, q: metric.compute(Data(a, p), Data(b, q), block_size=block,
                                                 unroll=unroll), x, w, y, v)
    x, y = r32(x), r32(y)
    judge(rec, f"mmd-blocks:{kname}", got, ref_mmd2(k, x, w, y, v),
          4e-6 * scale_of(k, x, y),
          lambda i: {"kernel": k.name, "block": block, "unroll": unroll, "x": x[i],
                     "w": w[i], "y": y[i], "v": v[i]})


# ------------------------------------------------------------------------------- JMMD
PAIRS = np.array([[0.0, 0.0], [0.0, 1.0], [1.2, 0.0], [2.1, -0.7]])


def ref_jmmd2(kf, kr, x, y, w, a, b, v):
    w, v = norm_weights(w), norm_weights(v)
    return (np.einsum("bi,bij,bj->b", w, kf(x, x) * kr(y, y), w)
            + np.einsum("bi,bij,bj->b", v, kf(a, a) * kr(b, b), v)
            - 2 * np.einsum("bi,bij,bj->b", w, kf(x, a) * kr(y, b), v))


JK = {"se-se": (se(0.8, 1.0), se(0.5, 1.5)), "imq-lap": (imq(1.0, 1.2), laplace(0.9, 1.0)),
      "lin-se": (linear(1.0, 0.3), se(1.0, 1.0)), "poly-lin": (poly(0.5, 1, 2), linear(1, 1))}


def jmmd_lattice(rec, name, n, m):
    kf, kr = JK[name]
    x, w, y, v = pair_up(multisets(PAIRS, n), all_weights(n), multisets(PAIRS, m),
                         all_weights(m))
    metric = coreax.metrics.JMMD(kf.make(), kr.make())
    got = vrun(lambda p, q, r, s: metric.compute(SupervisedData(p[:, :1], p[:, 1:], q),
                                                 SupervisedData(r[:, :1], r[:, 1:], s)),
               x, w, y, v)
    x, y = r32(x), r32(y)
    want = ref_jmmd2(kf, kr, x[..., :1], x[..., 1:], w, y[..., :1], y[..., 1:], v)
    scale = (scale_of(kf, x[..., :1], y[..., :1]) * scale_of(kr, x[..., 1:], y[..., 1:]))
    judge(rec, f"jmmd:{name}", got, want, 4e-6 * scale,
          lambda i: {"kernels": name, "xy": x[i], "w": w[i], "xy2": y[i], "v": v[i]})


# -------------------------------------------------------------------------------- KSD
RAD = {"se": r_se(0.9, 1.2), "imq": r_imq(1.1, 0.8), "rq": r_rq(1.0, 1.0, 1.5)}
LENGTH = {"se": 0.9, "imq": 1.1, "rq": 1.0}


class FixedMatching(coreax.score_matching.ScoreMatching):
    """A score-matching method that returns a known score whatever the data."""

    def match(self, x):
        del x
        return _wide_jx


def kde_logpdf_at(points, x, w, fac):
    """Weighted gaussian_kde with scalar bandwidth factor (scipy conventions)."""
    d = x.shape[-1]
    wn = w / w.sum(1, keepdims=True)
    neff = 1 / (wn ** 2).sum(1)
    if fac is None:
        fac = neff ** (-1.0 / (d + 4))
    fac = np.broadcast_to(fac, neff.shape)
    c = x - np.einsum("bn,bnd->bd", wn, x)[:, None]
    cov = np.einsum("bn,bni,bnj->bij", wn, c, c) / (1 - 1 / neff)[:, None, None]
    cov = cov * (fac ** 2)[:, None, None]
    good = np.isfinite(cov).all((1, 2)) & (neff > 1 + 1e-9)
    cov = np.where(good[:, None, None], cov, np.eye(d))
    ev = np.linalg.eigvalsh(cov)
    good &= (ev[:, 0] > 1e-2) & (ev[:, 0] > 2e-2 * ev[:, -1])
    cov = np.where(good[:, None, None], cov, np.eye(d))
    diff = points[:, :, None] - x[:, None]
    q = np.einsum("bnmi,bij,bnmj->bnm", diff, np.linalg.inv(cov), diff)
    e = -0.5 * q + np.log(np.maximum(wn, 1e-300))[:, None]
    mx = e.max(-1)
    logp = mx + np.log(np.exp(e - mx[..., None]).sum(-1))
    return logp - 0.5 * np.log(np.linalg.det(2 * np.pi * cov))[:, None], good


def ksd_value(mode, kname, lap, reg, **kwargs):
    rad = RAD[kname]
    if mode == "kde":
        metric = coreax.metrics.KSD(rad.make())
    elif mode == "kde-explicit":
        metric = coreax.metrics.KSD(
            rad.make(), score_matching=coreax.score_matching.KernelDensityMatching(0.6))
    elif mode == "stein":
        metric = coreax.metrics.KSD(ck.SteinKernel(rad.make(), _gauss_jx))
    elif mode == "stein-override":
        metric = coreax.metrics.KSD(ck.SteinKernel(rad.make(), _gauss_jx),
                                    score_matching=FixedMatching())
    else:
        metric = coreax.metrics.KSD(rad.make(), score_matching=FixedMatching())
    return lambda a, p, b, q: metric.compute(Data(a, p), Data(b, q), laplace_correct=lap,
                                             regularise=reg, **kwargs)


def ksd_score(mode, kname, x, w, y):
    if mode == "kde":
        return kde_score(y, x, np.ones(x.shape[:2]), LENGTH[kname])
    if mode == "kde-explicit":
        return kde_score(y, x, np.ones(x.shape[:2]), 0.6)
    return {"stein": _gauss_np}.get(mode, _wide_np)(y)


def ksd_reference(mode, kname, lap, reg, x, w, y, v):
    s, jac = ksd_score(mode, kname, x, w, y)
    mat = stein_matrix(RAD[kname], y, y, s, s)
    vn = norm_weights(v)
    val = np.einsum("bi,bij,bj->b", vn, mat, vn)
    mag = np.abs(mat).max((1, 2))
    m = y.shape[1]
    good = np.ones(len(x), bool)
    if lap:
        val = val + np.maximum(jac, 0).sum((1, 2)) / m ** 2
        mag = mag + np.maximum(jac, 0).sum((1, 2)) / m
    if reg:
        logp, good = kde_logpdf_at(y, x, w, LENGTH[kname])
        val = val - logp.mean(1) / m
        mag = mag + np.abs(logp).max(1)
    return val, mag, good


def ksd_lattice(rec, mode, kname, n, m, d, lap, reg):
    pts = V3 if d == 1 else P2[:3]
    xs = multisets(pts, n)
    ys = multisets(pts, m) + 0.13
    if lap or reg:
        vs = np.ones((1, m))
        ws = weightings((1.0, 2.5), n) if reg else np.ones((1, n))
    else:
        vs = all_weights(m)
        ws = np.ones((1, n))
    x, w, y, v = pair_up(xs, ws, ys, vs)
    x, y = r32(x), r32(y)
    want, mag, good = ksd_reference(mode, kname, lap, reg, x, w, y, v)
    x, w, y, v, want, mag = (a[good] for a in (x, w, y, v, want, mag))
    if not len(x):
        return
    got = vrun(ksd_value(mode, kname, lap, reg), x, w, y, v)
    judge(rec, f"ksd:{mode}", got, want, 3e-5 * mag + 1e-6,
          lambda i: {"mode": mode, "kernel": kname, "laplace": lap, "regularise": reg,
                     "x": x[i], "w": w[i], "y": y[i], "v": v[i]})
    rec.sample({"metric": "KSD", "mode": mode, "x": x[-1], "y": y[-1], "v": v[-1],
                "value": float(got[-1])})


def ksd_blocks(rec, block, unroll):
    for mode, lap, reg, d in (("kde", True, True, 2), ("stein", False, False, 3),
                              ("fixed", True, False, 2)):
        x = np.stack([weyl(9, d, seed=s) for s in range(3)])
        y = np.stack([weyl(7, d, seed=s + 5) for s in range(3)])
        w, v = np.ones((3, 9)), np.ones((3, 7))
        if not (lap or reg):
            v = np.tile(np.array([0, 1, 2, 0.5, 0, 3, 1.0]), (3, 1))
        x, y = r32(x), r32(y)
        want, mag, good = ksd_reference(mode, "imq", lap, reg, x, w, y, v)
        got = vrun(ksd_value(mode, "imq", lap, reg, block_size=block, unroll=unroll),
                   x, w, y, v)
        judge(rec, f"ksd-blocks:{mode}", got[good], want[good], 3e-5 * mag[good] + 1e-6,
              lambda i: {"mode": mode, "block": block, "unroll": unroll, "x": x[i],
                         "y": y[i]})


# ------------------------------------------------------------------------------ AMCMD
def ref_amcmd2(kf, kr, lam, x1, y1, x2, y2, x3):
    a1 = np.linalg.solve(kf(x1, x1) + lam * np.eye(x1.shape[1]), kf(x1, x3))
    a2 = np.linalg.solve(kf(x2, x2) + lam * np.eye(x2.shape[1]), kf(x2, x3))
    t1 = np.einsum("biq,bij,bjq->b", a1, kr(y1, y1), a1)
    t2 = np.einsum("biq,bij,bjq->b", a2, kr(y2, y2), a2)
    t3 = np.einsum("biq,bij,bjq->b", a1, kr(y1, y2), a2)
    q = x3.shape[1]
    return (t1 + t2 - 2 * t3) / q, (np.abs(t1) + np.abs(t2)) / q


def amcmd_lattice(rec, name, n, m, q, lam):
    kf, kr = JK[name]
    x = multisets(PAIRS, n)
    y = multisets(PAIRS, m)
    i, j = np.indices((len(x), len(y))).reshape(2, -1)
    x, y = r32(x[i]), r32(y[j])
    metric = coreax.metrics.AMCMD(kf.make(), kr.make(), lam)
    wts_n, wts_m = jnp.arange(n) * 1.5, jnp.arange(m)[::-1] + 0.2  # documented: ignored
    if q is None:
        x3 = x[..., :1]
        fn = lambda p, r: metric.compute(  # noqa: E731
            SupervisedData(p[:, :1], p[:, 1:], wts_n),
            SupervisedData(r[:, :1], r[:, 1:], wts_m))
        got = vrun(fn, x, y)
    else:
        z = r32(weyl(q, 1))
        x3 = np.tile(z, (len(x), 1, 1))
        fn = lambda p, r: metric.compute(  # noqa: E731
            SupervisedData(p[:, :1], p[:, 1:]), SupervisedData(r[:, :1], r[:, 1:]),
            weighting_data=Data(jnp.asarray(z, jnp.float32), jnp.arange(q) + 0.5))
        got = vrun(fn, x, y)
    want, mag = ref_amcmd2(kf, kr, lam, x[..., :1], x[..., 1:], y[..., :1], y[..., 1:], x3)
    judge(rec, f"amcmd:{name}", got, want, (2e-5 + 3e-6 / lam) * (1 + mag),
          lambda i: {"kernels": name, "lambda": lam, "weighting_points": q, "xy": x[i],
                     "xy2": y[i]})


# ------------------------------------------------------------------- relational laws
def laws(rec, n, d, seed):
    """Symmetry, reordering, rescaling and splitting on larger datasets."""
    x = weyl(n, d, seed=seed)
    y = weyl(max(2, n // 2), d, seed=seed + 3) + 0.2
    w = 0.1 + (np.arange(n) * 7 % 5)
    v = 1.0 + (np.arange(len(y)) * 3 % 4)
    perm = (np.arange(n) * 5 + 2) % n if np.gcd(5, n) == 1 else np.arange(n)[::-1]
    sup = lambda z: np.stack([np.sin(z.sum(1)), z[:, 0]], 1)  # noqa: E731
    dx = np.repeat(x, 2, axis=0)
    dw = np.repeat(w, 2) * np.tile([0.25, 0.75], n)
    f = lambda *a: [jnp.asarray(b, jnp.float32) for b in a]  # noqa: E731

    def data(points, weights):
        return Data(*f(points, weights))

    def supd(points, weights):
        return SupervisedData(*f(points, sup(points), weights))

    mm = coreax.metrics.MMD(ck.SquaredExponentialKernel(0.7, 1.0))
    jm = coreax.metrics.JMMD(ck.SquaredExponentialKernel(0.7, 1.0), ck.PCIMQKernel(1.0, 1.0))
    for name, metric, mk in (("mmd", mm, data), ("jmmd", jm, supd)):
        a, b = mk(x, w), mk(y, v)
        base = float(metric.compute(a, b)) ** 2
        variants = {
            "symmetry": metric.compute(b, a),
            "reordering": metric.compute(mk(x[perm], w[perm]), b),
            "rescaling": metric.compute(mk(x, 17.0 * w), mk(y, 0.03 * v)),
            "splitting": metric.compute(mk(dx, dw), b),
            "zero-weighted row": metric.compute(
                mk(np.concatenate([x, 9 + x[:3]]), np.concatenate([w, np.zeros(3)])), b),
        }
        zero = {
            "itself": metric.compute(a, a),
            "itself reordered": metric.compute(a, mk(x[perm], w[perm])),
            "itself rescaled": metric.compute(mk(x, 5.0 * w), a),
            "itself split": metric.compute(a, mk(dx, dw)),
        }
        rec.cover(states=len(variants) + len(zero), transitions=len(variants) + len(zero),
                  traces=len(variants) + len(zero))
        for law, val in variants.items():
            rec.check(abs(float(val) ** 2 - base) <= 5e-6, f"{name}:{law}",
                      f"squared value {float(val) ** 2:.8g} instead of {base:.8g}",
                      {"n": n, "d": d, "seed": seed})
        for law, val in zero.items():
            rec.check(float(val) ** 2 <= 5e-6, f"{name}:{law}",
                      f"discrepancy {float(val):.6g} instead of zero",
                      {"n": n, "d": d, "seed": seed})
        # triangle inequality through a third dataset
        c = mk(x[: n // 2 + 1] - 0.3, w[: n // 2 + 1])
        ab, bc, ac = (np.sqrt(float(metric.compute(p, q)) ** 2)
                      for p, q in ((a, b), (b, c), (a, c)))
        rec.check(ac <= ab + bc + 2e-3, f"{name}:triangle", "triangle inequality violated",
                  {"n": n, "d": d, "seed": seed, "values": [ab, bc, ac]})
        want = (ref_mmd2(se(0.7, 1.0), r32(x)[None], w[None], r32(y)[None], v[None])
                if name == "mmd" else
                ref_jmmd2(se(0.7, 1.0), imq(1.0, 1.0), r32(x)[None], r32(sup(x))[None],
                          w[None], r32(y)[None], r32(sup(y))[None], v[None]))
        rec.check(abs(base - want[0]) <= 5e-6, f"{name}:value",
                  f"squared value {base:.8g}, definition gives {want[0]:.8g}",
                  {"n": n, "d": d, "seed": seed})


def coresets(rec):
    """Metrics reached through coresets use the coreset's own weights and data."""
    k = se(0.8, 1.0)
    metric = coreax.metrics.MMD(k.make())
    for n, m in ((2, 1), (2, 2), (3, 2), (4, 2), (4, 3)):
        ws = all_weights(n)
        idx = np.array(list(itertools.product(range(n), repeat=m)))
        cw = all_weights(m)
        i, j, l = np.indices((len(ws), len(idx), len(cw))).reshape(3, -1)
        w, idx, cw = ws[i], idx[j], cw[l]
        x = np.tile(weyl(n, 2), (len(w), 1, 1))

        def subset_value(a, p, q, r):
            return Coresubset(Data(q, r), Data(a, p)).compute_metric(metric)

        def pseudo_value(a, p, q, r):
            return PseudoCoreset(Data(a[q] + 0.4, r), Data(a, p)).compute_metric(metric)

        chosen = r32(x)[np.arange(len(w))[:, None], idx]
        for name, fn, pts_ in (("coresubset", subset_value, chosen),
                               ("pseudocoreset", pseudo_value, r32(chosen + 0.4))):
            got = vrun(fn, x, w, idx, cw)
            judge(rec, f"{name}-metric", got, ref_mmd2(k, r32(x), w, pts_, cw),
                  np.full(len(w), 4e-6),
                  lambda i: {"x": x[i], "w": w[i], "indices": idx[i], "weights": cw[i]})


def forms(rec):
    """Integer data, several features/responses, eager execution, rejections."""
    k = se(1.1, 1.0)
    xi = np.array([[0, 1], [2, -1], [1, 1]])
    yi = np.array([[1, 0], [0, 0]])
    got = coreax.metrics.MMD(k.make()).compute(Data(jnp.array(xi)), Data(jnp.array(yi)))
    judge(rec, "mmd-int", np.asarray(got)[None],
          ref_mmd2(k, xi[None], np.ones((1, 3)), yi[None], np.ones((1, 2))),
          np.full(1, 4e-6), lambda i: {"x": xi, "y": yi})
    got = coreax.metrics.MMD(k.make()).compute(Data(jnp.arange(4.0)), Data(jnp.arange(2.0)))
    judge(rec, "mmd-vector", np.asarray(got)[None],
          ref_mmd2(k, np.arange(4.0)[None, :, None], np.ones((1, 4)),
                   np.arange(2.0)[None, :, None], np.ones((1, 2))),
          np.full(1, 4e-6), lambda i: {"x": "arange(4)", "y": "arange(2)"})
    # supervised data are data: the features are compared
    sd = SupervisedData(jnp.array(xi, float), jnp.arange(3.0), jnp.array([1.0, 2.0, 0.0]))
    for nm, val, want in (
        ("mmd-supervised", coreax.metrics.MMD(k.make()).compute(sd, Data(jnp.array(yi, float))),
         ref_mmd2(k, xi[None], np.array([[1.0, 2, 0]]), yi[None], np.ones((1, 2)))),
    ):
        judge(rec, nm, np.asarray(val)[None], want, np.full(1, 4e-6), lambda i: {"x": xi})
    for lam in (-1e-6, -1.0):
        rec.expect_error("amcmd-negative-regularisation", {"lambda": lam}, ValueError,
                         coreax.metrics.AMCMD, k.make(), k.make(), lam)
    rec.call("amcmd-zero-regularisation", {}, coreax.metrics.AMCMD, k.make(), k.make(), 0.0)


def tasks(tier):
    out = []
    top = 3 if tier == "quick" else 4
    sizes = [(n, m) for n in range(1, top + 1) for m in range(1, top + 1) if n + m <= 7]
    for kname in KERNELS:
        for n, m in sizes:
            if tier == "quick" and n + m == 6 and kname in ("lap", "sum"):
                continue
            out.append(Task(f"mmd/{kname}/{n}x{m}", mmd_lattice, kname, n, m, "V3",
                            cost=3.0 ** (n + m) / 100))
        out.append(Task(f"mmd/{kname}/2d", mmd_lattice, kname, 2, 3, "P2", cost=2))
    bl = (None, 1, 2, 3, 4, 5, 7, 9)
    blocks = [(b, 1) for b in bl] + [((a, b), 1) for a in bl for b in bl if a != b]
    blocks += [(3, 2), (2, True), ((2, 3), (2, 1)), ((4, None), (True, 2))]
    for b, u in blocks:
        out.append(Task(f"mmd-blocks/{b}/{u}", mmd_blocks, "imq", b, u, cost=1.5))
    for b, u in ((3, 1), ((2, 4), 2), (9, True)):
        out.append(Task(f"mmd-blocks/lin/{b}/{u}", mmd_blocks, "lin", b, u, cost=1.5))
    for name in JK:
        for n, m in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (2, 3)) + (
                () if tier == "quick" else ((3, 3), (4, 2), (2, 4))):
            out.append(Task(f"jmmd/{name}/{n}x{m}", jmmd_lattice, name, n, m,
                            cost=4.0 ** (n + m) / 200))
    for mode in ("kde", "kde-explicit", "stein", "stein-override", "fixed"):
        for kname in RAD:
            for lap, reg in itertools.product((False, True), repeat=2):
                shapes = ((3, 2, 1), (3, 3, 2)) if tier == "quick" else (
                    (2, 1, 1), (3, 2, 1), (4, 3, 1), (3, 3, 2), (4, 2, 2))
                if tier == "quick" and kname == "rq" and not (lap and reg):
                    continue
                for n, m, d in shapes:
                    out.append(Task(f"ksd/{mode}/{kname}/{lap}/{reg}/{n}x{m}x{d}",
                                    ksd_lattice, mode, kname, n, m, d, lap, reg, cost=4))
    for b, u in ((None, 1), (1, 1), (2, 1), (3, 2), (7, 1), (9, 1), (4, True)):
        out.append(Task(f"ksd-blocks/{b}/{u}", ksd_blocks, b, u, cost=4))
    for name in ("se-se", "imq-lap", "lin-se"):
        for n, m in ((1, 1), (2, 3), (3, 2), (3, 1)):
            for q in (None, 1, 2, 5):
                for lam in ((0.1,) if q in (1, 5) else (0.1, 1.0, 0.02)):
                    out.append(Task(f"amcmd/{name}/{n}x{m}/{q}/{lam}", amcmd_lattice, name,
                                    n, m, q, lam, cost=1.5))
    for n, d, seed in ((5, 1, 0), (12, 2, 1), (31, 3, 2), (60, 2, 3)) + (
            () if tier == "quick" else ((120, 2, 4), (200, 4, 5))):
        out.append(Task(f"laws/{n}x{d}", laws, n, d, seed, cost=3))
    out.append(Task("coresets", coresets, cost=6))
    out.append(Task("forms", forms, cost=2))
    return out
