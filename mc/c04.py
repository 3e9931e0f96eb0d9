"""C04: Stein thinning makes the greedy optimal choice at every step."""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.greedy import check_steps
from mc.lib import (P2, V3, V4, Coresubset, Data, SupervisedData, ck, cross, cs, family,
                    jnp, multisets, np, r32, tuples, vrun, weightings, weyl)

ASSUMPTIONS = [
    "float32 tolerance relative to the magnitude of the Stein kernel and regularisers",
    "the oracle evaluates the Stein kernel of radial kernels in closed form (float64), "
    "the density-based score, its Laplacian and the (Scott/Silverman) KDE log-density",
    "regularised runs: datasets whose weighted covariance is non-degenerate",
]


def bounds(tier):
    return {"lattice": "multisets / tuples over 3-4 points, n<=5, d<=2", "sizes": "1..n",
            "weights": "{0,1,2.5}^n", "families": "n<=40, d<=4"}


# ----------------------------------------------------------------- reference formulae
class Radial:
    """k(x,y)=f(|x-y|^2) with its first two derivatives in u=|x-y|^2."""

    def __init__(self, make, f, f1, f2):
        self.make, self.f, self.f1, self.f2 = make, f, f1, f2


def r_se(l, s):
    f = lambda u: s * np.exp(-u / (2 * l * l))  # noqa: E731
    return Radial(lambda: ck.SquaredExponentialKernel(l, s), f,
                  lambda u: -f(u) / (2 * l * l), lambda u: f(u) / (4 * l ** 4))


def r_imq(l, s):
    b = lambda u: 1 + u / (2 * l * l)  # noqa: E731
    return Radial(lambda: ck.PCIMQKernel(l, s), lambda u: s * b(u) ** -0.5,
                  lambda u: -s * b(u) ** -1.5 / (4 * l * l),
                  lambda u: 3 * s * b(u) ** -2.5 / (16 * l ** 4))


def r_rq(l, s, a):
    b = lambda u: 1 + u / (2 * a * l * l)  # noqa: E731
    return Radial(lambda: ck.RationalQuadraticKernel(l, s, a),
                  lambda u: s * b(u) ** -a,
                  lambda u: -s * b(u) ** (-a - 1) / (2 * l * l),
                  lambda u: s * (a + 1) * b(u) ** (-a - 2) / (4 * a * l ** 4))


def stein_matrix(rad, x, y, sx, sy):
    """Stein kernel matrix (B, n, m)."""
    diff = x[..., :, None, :] - y[..., None, :, :]
    u = (diff * diff).sum(-1)
    d = x.shape[-1]
    f, f1, f2 = rad.f(u), rad.f1(u), rad.f2(u)
    div = -2 * d * f1 - 4 * u * f2
    gx_sy = 2 * f1 * np.einsum("...nmd,...md->...nm", diff, sy)
    gy_sx = -2 * f1 * np.einsum("...nmd,...nd->...nm", diff, sx)
    return div + gx_sy + gy_sx + f * np.einsum("...nd,...md->...nm", sx, sy)


def kde_score(x, data, w, h):
    """Score of the Gaussian density estimate and the diagonal of its Jacobian."""
    diff = data[..., None, :, :] - x[..., :, None, :]
    logk = -(diff * diff).sum(-1) / (2 * h * h)
    with np.errstate(divide="ignore"):
        logk = logk + np.log(w)[..., None, :]
    p = np.exp(logk - logk.max(-1, keepdims=True))
    p /= p.sum(-1, keepdims=True)
    score = np.einsum("...nm,...nmd->...nd", p, diff) / (h * h)
    jac = (np.einsum("...nm,...nmd->...nd", p, diff ** 2) / h ** 4 - 1 / (h * h)
           - score ** 2)
    return score, jac


def kde_logpdf(x, w, bw):
    """scipy-style weighted gaussian_kde log density at the points themselves."""
    b, n, d = x.shape
    wn = w / w.sum(1, keepdims=True)
    neff = 1 / (wn ** 2).sum(1)
    if bw in (None, "scott"):
        fac = neff ** (-1.0 / (d + 4))
    elif bw == "silverman":
        fac = (neff * (d + 2) / 4.0) ** (-1.0 / (d + 4))
    else:
        fac = np.full(b, float(bw))
    mu = np.einsum("bn,bnd->bd", wn, x)
    c = x - mu[:, None]
    cov = np.einsum("bn,bni,bnj->bij", wn, c, c) / (1 - 1 / neff)[:, None, None]
    cov = cov * (fac ** 2)[:, None, None]
    good = np.isfinite(cov).all((1, 2)) & (neff > 1 + 1e-9)
    cov = np.where(good[:, None, None], cov, np.eye(d))
    ev = np.linalg.eigvalsh(cov)
    good &= (ev[:, 0] > 1e-4) & (ev[:, 0] > 2e-3 * ev[:, -1])
    cov = np.where(good[:, None, None], cov, np.eye(d))
    inv = np.linalg.inv(cov)
    diff = x[:, :, None] - x[:, None]
    q = np.einsum("bnmi,bij,bnmj->bnm", diff, inv, diff)
    with np.errstate(divide="ignore"):
        e = -0.5 * q + np.log(wn)[:, None]
    mx = e.max(-1)
    logp = mx + np.log(np.exp(e - mx[..., None]).sum(-1))
    logp -= 0.5 * np.log(np.linalg.det(2 * np.pi * cov))[:, None]
    return logp, good


# -------------------------------------------------------------------- configurations
def _gauss_np(x):
    return -(x - 0.5) / 0.81, np.full(x.shape, -1 / 0.81)


def _gauss_jx(x):
    return -(x - 0.5) / 0.81


def _mix_np(x):
    # equal mixture of unit normals at -1.2 and 1.5 in every coordinate
    a, b = -1.2, 1.5
    ra = 1 / (1 + np.exp(((x - a) ** 2 - (x - b) ** 2) / 2))
    m = ra * a + (1 - ra) * b
    return m - x, ra * (1 - ra) * (a - b) ** 2 - 1.0


def _mix_jx(x):
    a, b = -1.2, 1.5
    ra = 1 / (1 + jnp.exp(((x - a) ** 2 - (x - b) ** 2) / 2))
    return ra * a + (1 - ra) * b - x


def _wide_np(x):
    return 0.3 * x ** 3 - x, 0.9 * x ** 2 - 1  # positive Laplacian away from zero


def _wide_jx(x):
    return 0.3 * x ** 3 - x


SCORES = {"gauss": (_gauss_np, _gauss_jx), "mix": (_mix_np, _mix_jx),
          "wide": (_wide_np, _wide_jx)}
BASES = {"se": (r_se(0.8, 1.3), 0.8), "imq": (r_imq(1.1, 0.7), 1.1),
         "rq": (r_rq(0.9, 1.2, 1.5), 0.9)}


def setup(conf, m):
    """'<base>:<score>:<reg>' -> (make solver(unique, **opts), oracle pieces)."""
    base, score, reg = conf.split(":")
    rad, length = BASES[base]
    sm = None
    if score in SCORES:
        fnp, fjx = SCORES[score]
        kern = lambda: ck.SteinKernel(rad.make(), fjx)  # noqa: E731
        score_np = lambda x, w: fnp(x)  # noqa: E731
    elif score == "kde":  # default: density matching at the kernel's length scale
        kern = rad.make
        score_np = lambda x, w: kde_score(x, x, w, length)  # noqa: E731
    elif score == "kdex":  # explicit density matching
        from coreax.score_matching import KernelDensityMatching
        kern = rad.make
        sm = lambda: KernelDensityMatching(length_scale=0.65)  # noqa: E731
        score_np = lambda x, w: kde_score(x, x, w, 0.65)  # noqa: E731
    elif score == "override":  # supplied score matching overrides an existing score
        from coreax.score_matching import KernelDensityMatching
        kern = lambda: ck.SteinKernel(rad.make(), _gauss_jx)  # noqa: E731
        sm = lambda: KernelDensityMatching(length_scale=0.65)  # noqa: E731
        score_np = lambda x, w: kde_score(x, x, w, 0.65)  # noqa: E731
    else:
        raise KeyError(score)
    if reg == "noreg":
        ropts, lam, bw = {"regularise": False}, None, None
    else:
        ropts, bw = {}, None
        if "/" in reg:
            reg, bw = reg.split("/")
            if bw not in ("scott", "silverman"):
                bw = float(bw)
            ropts["kde_bw_method"] = bw
        if reg == "regdef":
            lam = 1.0 / m
        else:
            lam = float(reg[3:])
            ropts["regulariser_lambda"] = lam

    def make(unique, **opts):
        return cs.SteinThinning(m, kern(), score_matching=sm() if sm else None,
                                unique=unique, **ropts, **opts)

    return make, rad, score_np, lam, bw


def check_stein(rec, key, conf, x, w, m, unique, start=None, kind="data", jit=True,
                **opts):
    x, w = r32(x), r32(w)
    make, rad, score_np, lam, bw = setup(conf, m)
    good = np.ones(len(x), bool)
    if lam is not None:
        _, good = kde_logpdf(x, w, bw)
    if unique:
        good &= (w > 0).sum(1) >= m
    if start is not None and lam is not None and "regdef" in conf:
        pass
    x, w = x[good], w[good]
    if start is not None:
        start = start[good]
    if len(x) == 0:
        return None
    case = lambda i: {"x": x[i], "weights": w[i], "config": conf, "size": m,  # noqa
                      "unique": unique, "options": opts,
                      "start": None if start is None else start[i]}

    def run(xi, wi, si=None):
        d = (SupervisedData(xi, jnp.cos(xi[:, :1]), wi) if kind == "sup"
             else Data(xi, wi))
        solver = make(unique, **opts)
        if si is None:
            return solver.reduce(d)[0].unweighted_indices
        return solver.refine(Coresubset(Data(si), d))[0].unweighted_indices

    if jit:
        args = (x, w) if start is None else (x, w, start.astype(np.int32))
        idx = rec.call(key, case(0), vrun, run, *args)
    else:
        rows = []
        for i in range(len(x)):
            r = rec.call(key, case(i), run, jnp.asarray(x[i], jnp.float32),
                         jnp.asarray(w[i], jnp.float32))
            if r is None:
                return None
            rows.append(np.asarray(r))
        idx = np.stack(rows)
    if idx is None or not rec.check(idx.shape == (len(x), m), key,
                                    f"size {idx.shape[1:]} instead of {m}", case(0)):
        return None
    rec.sample(case(len(x) // 2))
    score, jac = score_np(x, w)
    kmat = stein_matrix(rad, x, x, score, score)
    diag = np.einsum("bii->bi", kmat)
    if lam is None:
        lap, logp = 0.0, np.zeros(diag.shape)
        mag = np.abs(kmat).max()
    else:
        lap = np.clip(jac, 0, None).sum(-1)
        logp, _ = kde_logpdf(x, w, bw)
        logp = lam * logp
        mag = max(np.abs(kmat).max(), np.abs(lap).max(),
                  np.abs(np.where(w > 0, logp, 0)).max())
    tol = 3e-5 * max(1.0, float(mag)) * (1 + m / 4)
    obj = lambda t, sim, size: -(diag + lap - (t + 1) * logp + 2 * sim)  # noqa: E731
    args = (obj, kmat, w, idx, unique, tol)
    if start is not None and start.shape[1] > m:
        ok1, t1 = check_steps(rec, key, *args, start=start, quiet=True)
        ok2, _ = check_steps(rec, key, *args, start=start, clip_first=True, quiet=True)
        if not (ok1.all() or ok2.all()):
            check_steps(rec, key, *args, start=start, case=case)
        return ok1, t1
    return check_steps(rec, key, *args, start=start, case=case)


def space(name):
    if name == "v4n4w":
        return cross(multisets(V4, 4), weightings((0.0, 1.0, 2.5), 4))
    if name == "v4n4":
        return cross(tuples(V4, 4), np.ones((1, 4)))
    if name == "p2n4":
        return cross(multisets(P2, 4), weightings((0.0, 1.0, 2.5), 4))
    if name == "v3n5":
        return cross(tuples(V3, 5), np.ones((1, 5)))
    if name == "v3n5w":
        return cross(multisets(V3, 5), weightings((0.0, 1.0, 2.5), 5))
    if name == "v3n3w":
        return cross(tuples(V3, 3), weightings((0.0, 1.0, 2.5), 3))
    if name == "v4n2":
        return cross(tuples(V4, 2), weightings((0.0, 1.0, 2.5), 2))
    raise KeyError(name)


def t_lattice(rec, sp, conf, unique, sizes):
    x, w = space(sp)
    for m in sizes:
        check_stein(rec, f"lattice:{sp}:{conf}:{m}:{unique}", conf, x, w, m, unique)


def t_opts(rec, sp, conf, opts, m, unique):
    x, w = space(sp)
    check_stein(rec, f"opts:{sp}:{conf}:{opts}:{m}:{unique}", conf, x, w, m, unique,
                **opts)


def t_family(rec, n, d, m, conf):
    pat = np.stack([np.ones(n), 1.0 + np.arange(n) % 3, (np.arange(n) % 4 != 1) * 1.0])
    x, w = cross(family(n, d)[:3], pat)
    for unique in (True, False):
        check_stein(rec, f"family:{n}:{d}:{m}:{conf}:{unique}", conf, x, w, m, unique)
    check_stein(rec, f"family:{n}:{d}:{m}:{conf}:blk", conf, x, w, m, True,
                block_size=max(2, n // 3))


def t_eager(rec, conf, kind):
    x = weyl(6, 2, 4.0)[None]
    w = np.array([[1.0, 2, 0, 1, 3, 1]])
    for unique in (True, False):
        check_stein(rec, f"eager:{conf}:{kind}:{unique}", conf, x, w, 4, unique,
                    kind=kind, jit=False)


def tasks(tier):
    out = []
    quick = tier == "quick"
    regs = ["noreg", "reg0.5", "regdef", "reg2/silverman", "reg1/0.7"]
    scores = ["gauss", "mix", "wide", "kde", "kdex", "override"]
    bases = list(BASES)
    for i, (b, s, r) in enumerate(itertools.product(bases, scores, regs)):
        conf = f"{b}:{s}:{r}"
        if quick:
            u = i % 2 == 0
            sp = ["v4n4w", "p2n4", "v3n5", "v4n4"][i % 4]
            out.append(Task(f"lattice:{sp}:{conf}:{u}", t_lattice, sp, conf, u, (2, 4),
                            cost=3))
        else:
            for u in (True, False):
                for sp in ("v4n4w", "p2n4", "v3n5w", "v3n3w", "v4n2"):
                    n = space(sp)[0].shape[1]
                    out.append(Task(f"lattice:{sp}:{conf}:{u}", t_lattice, sp, conf, u,
                                    tuple(range(1, n + 1)), cost=4))
    if quick:
        for s, r in itertools.product(("gauss", "kde"), ("noreg", "regdef")):
            for u in (True, False):
                out.append(Task(f"sizes:se:{s}:{r}:{u}", t_lattice, "v3n3w",
                                f"se:{s}:{r}", u, (1, 2, 3), cost=3))
    for bs in (1, 2, 3, 5, 8, (2, 3), (None, 2)):
        for un in ((1,) if quick else (1, 2, True)):
            for conf in ("se:kde:reg0.5", "imq:gauss:noreg"):
                out.append(Task(f"opts:{bs}:{un}:{conf}", t_opts, "v3n5w", conf,
                                {"block_size": bs, "unroll": un}, 3, True, cost=3))
    fam = [(6, 3, 4), (9, 2, 5), (14, 4, 6), (25, 2, 9), (40, 1, 12)]
    if not quick:
        fam += [(n, 1 + n % 4, n // 2) for n in range(7, 36)]
    for n, d, m in fam:
        for conf in ("se:kde:regdef", "imq:mix:reg0.5", "rq:gauss:noreg"):
            out.append(Task(f"family:{n}:{d}:{conf}", t_family, n, d, m, conf, cost=4))
    for conf, kind in (("se:kde:regdef", "sup"), ("imq:gauss:noreg", "data"),
                       ("se:override:reg0.5", "data")):
        out.append(Task(f"eager:{conf}:{kind}", t_eager, conf, kind, cost=8))
    return out
