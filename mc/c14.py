"""C14: kernels and their combinations match their formulae and derivatives.

Kernel expression trees are enumerated up to a depth; every tree is evaluated by the real
code (value, both gradients, divergence) on every ordered pair of points of a lattice and
compared with its formula in float64, differentiated by fourth-order central differences.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import *  # noqa: F403

ASSUMPTIONS = [
    "float32 tolerance 2e-5 (values), 2e-4 (gradients), 1e-3 (divergence), relative to "
    "the largest reference entry plus one",
    "derivatives are judged where the formula is differentiable and not documented to be "
    "otherwise: equal points excluded for exponential, periodic and Matern kernels, equal "
    "coordinates for the Laplacian kernel; Poisson derivatives in one dimension",
    "reference derivatives: fourth-order central differences in float64 (error < 1e-6)",
    "rational quadratic weighting > 0 (its formula divides by it)",
]


def bounds(tier):
    return {"points": "all ordered pairs of 7 (d=1), 9 (d=2), 8 (d=3) lattice points",
            "trees": "all leaves; all depth-1 trees over 6 leaves; depth-2 trees "
            "(all unary, binary with a leaf)",
            "forms": "python numbers, 0-d, vectors, n x d, n != m, integers"}


# ------------------------------------------------------------------- reference values
def pair_value(kern, x, y):
    """k at aligned stacks of points (p, d), (p, d) -> (p,)."""
    return kern(x[:, None, :], y[:, None, :])[:, 0, 0]


C1 = ((-2, 1 / 12), (-1, -8 / 12), (1, 8 / 12), (2, -1 / 12))


def derivatives(kern, x, y, h=2e-3):
    """Gradients (p, d), (p, d) and divergence (p,) of the formula."""
    p, d = x.shape
    gx, gy, div = np.zeros((p, d)), np.zeros((p, d)), np.zeros(p)
    for i in range(d):
        e = np.zeros(d)
        e[i] = h
        for s, c in C1:
            gx[:, i] += c * pair_value(kern, x + s * e, y) / h
            gy[:, i] += c * pair_value(kern, x, y + s * e) / h
            for t, c2 in C1:
                div += c * c2 * pair_value(kern, x + s * e, y + t * e) / h**2
    return gx, gy, div


LATTICE = {
    1: np.array([[-1.2], [-0.5], [0.0], [0.4], [1.0], [1.7], [3.1]]),
    2: np.array(list(itertools.product((-0.8, 0.0, 1.3), (-1.1, 0.3, 0.9)))),
    3: np.array(list(itertools.product((-0.7, 0.9), (0.0, 1.2), (-0.4, 1.1)))),
}


def smooth_mask(kind, x, y):
    """Pairs at which the derivatives are judged."""
    if kind == "coord":
        return (np.abs(x - y) > 0.05).all(-1)
    if kind == "point":
        return (np.abs(x - y) > 0.05).any(-1)
    return np.ones(len(x), bool)


def judge(rec, tag, kern, kernel, x, y, kind="", derivs=True, case=None):
    """Compare all four functions on all pairs of x and y."""
    n, m, d = len(x), len(y), x.shape[1]
    x, y = r32(x), r32(y)
    xj, yj = jnp.asarray(x, jnp.float32), jnp.asarray(y, jnp.float32)
    case = case or {"kernel": kern.name, "x": x, "y": y}
    xa = np.repeat(x, m, 0)
    ya = np.tile(y, (n, 1))
    want = pair_value(kern, xa, ya).reshape(n, m)
    got = rec.call(f"{tag}:compute", case, lambda: np.asarray(kernel.compute(xj, yj)))
    rec.cover(states=n * m, transitions=n * m, traces=1)
    ref = [("compute", got, want, np.ones((n, m), bool), 2e-5)]
    if derivs:
        mask = smooth_mask(kind, xa, ya)
        gx, gy, div = derivatives(kern, xa, ya)
        for name, wanted, tol in (("grad_x", gx.reshape(n, m, d), 2e-4),
                                  ("grad_y", gy.reshape(n, m, d), 2e-4),
                                  ("divergence_x_grad_y", div.reshape(n, m), 1e-3)):
            out = rec.call(f"{tag}:{name}", case,
                           lambda: np.asarray(getattr(kernel, name)(xj, yj)))
            ref.append((name, out, wanted, mask.reshape(n, m), tol))
            rec.cover(transitions=n * m, traces=1)
    for name, out, wanted, mask, tol in ref:
        if out is None:
            continue
        if not rec.check(out.shape == wanted.shape, f"{tag}:{name}:shape",
                         f"{name} has shape {out.shape}, expected {wanted.shape}", case):
            continue
        w, o = wanted[mask], out[mask]
        if not len(w):
            continue
        ok = np.abs(o - w) <= tol * (1 + np.abs(w).max())
        if not ok.all():
            bad = np.argwhere(~ok)[0]
            i, j = np.argwhere(mask)[bad[0]]
            rec.violate(f"{tag}:{name}", f"{name}({x[i]}, {y[j]}) = {out[i, j]}, "
                        f"expected {wanted[i, j]}", case)


# ---------------------------------------------------------------------------- leaves
def leaves():
    """(kernel, differentiability kind, dimensions)."""
    out = []
    for l, s in ((1.0, 1.0), (0.7, 1.9), (1.6, 0.4)):
        out += [(se(l, s), "", (1, 2, 3)), (imq(l, s), "", (1, 2, 3)),
                (laplace(l, s), "coord", (1, 2, 3)), (expo(l, s), "point", (1, 2, 3)),
                (periodic(l, 1.0, 1.3 * s), "point", (1, 2, 3)),
                (locper(l, 1.0, 2.7, 1.1 + s, s), "point", (1, 2, 3))]
        for a in (0.5, 1.0, 2.5):
            out.append((rq(l, s, a), "", (1, 2, 3)))
        for p in (0, 1, 2, 3):
            out.append((matern(l, s, p), "point", (1, 2, 3)))
    for s, c in ((1.0, 0.0), (0.6, 0.4), (2.0, 1.5)):
        out.append((linear(s, c), "", (1, 2, 3)))
        for deg in (2, 3, 4):
            out.append((poly(s, c, deg), "", (1, 2, 3)))
    for r in (0.1, 0.5, 0.8):
        out.append((poisson(r, 1.0 + r), "", (1,)))
    return out


def leaf_task(rec, lo, hi):
    for kern, kind, dims in leaves()[lo:hi]:
        kernel = kern.make()
        for d in dims:
            pts_ = LATTICE[d]
            if kern.name.startswith("poisson"):
                pts_ = np.array([[0.0], [0.4], [1.3], [2.2], [3.6], [5.1], [6.2]])
            judge(rec, f"leaf:{kern.name}:d{d}", kern, kernel, pts_, pts_, kind)
            judge(rec, f"leaf:{kern.name}:d{d}", kern, kernel, pts_[:1], pts_[1:4], kind)
    rec.sample({"kernels": [k[0].name for k in leaves()[lo:hi]]})


# ------------------------------------------------------------------------- composites
BASE = [se(0.8, 1.3), linear(0.7, 0.0), poly(0.5, 0.4, 2), imq(1.1, 0.7),
        rq(0.9, 1.0, 1.5), matern(1.2, 1.1, 2)]


def kind_of(kern):
    return "point" if "matern" in kern.name else ""


def kradd(a, c):
    return K(f"({a.name}+{c})", lambda: a.make() + c, lambda x, y: c + a(x, y),
             a.const_diag, a.smooth)


def krmul(a, c):
    return K(f"({a.name}*{c})", lambda: a.make() * c, lambda x, y: c * a(x, y),
             a.const_diag, a.smooth)


def ksame(a):
    """The same object twice: coreax takes a shortcut for equal kernels."""
    def make():
        k = a.make()
        return k * k

    return K(f"({a.name} squared)", make, lambda x, y: a(x, y) ** 2)


def unary(a):
    return [kpow(a, 1), kpow(a, 2), kpow(a, 3), kpow(a, 4), kpow(a, 5), kscale(0.3, a), kadd(2, a), kradd(a, 0.5),
            krmul(a, 3), krmul(a, 0), kadd(0.0, a), ksame(a)]


def level1():
    out = []
    for a in BASE:
        out += unary(a)
    for a, b in itertools.product(BASE, repeat=2):
        out += [ksum(a, b), kprod(a, b)]
    return out


def level2(tier):
    out = []
    ops = (lambda a: kpow(a, 2), ksame, lambda a: kscale(0.7, a), lambda a: kradd(a, 1))
    for t in level1():
        out += [op(t) for op in ops]
    for i, t in enumerate(level1()):
        leaves_ = BASE[:4] if tier != "quick" else [BASE[i % 4], BASE[(i + 1) % 4]]
        for a in leaves_:
            out += [ksum(t, a), kprod(a, t)]
    return out


def composite_task(rec, level, tier, lo, hi):
    trees = (level1() if level == 1 else level2(tier))[lo:hi]
    grid = {1: LATTICE[1][::2], 2: LATTICE[2][1::2], 3: LATTICE[3][::3]}
    for i, kern in enumerate(trees):
        kernel = rec.call(f"build:{kern.name}", kern.name, kern.make)
        if kernel is None:
            continue
        for d in (1, 2, 3) if level == 1 else (1 + (lo + i) % 3,):
            judge(rec, f"tree:{kern.name}:d{d}", kern, kernel, grid[d], grid[d],
                  kind_of(kern))
    rec.sample({"trees": [k.name for k in trees][:5]})


# ------------------------------------------------------------------------------ Stein
SCORES = {
    "affine": (lambda x: 1.0 - x, lambda x: 1.0 - x),
    "scaled": (lambda x: -0.5 * x + 0.2, lambda x: -0.5 * x + 0.2),
    "cubic": (lambda x: -(x**3) + x, lambda x: -(x**3) + x),
}


def stein_reference(base, sfn):
    def fn(x, y):
        lead = np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
        n, m, d = x.shape[-2], y.shape[-2], x.shape[-1]
        xa = np.broadcast_to(x[..., :, None, :], lead + (n, m, d)).reshape(-1, d)
        ya = np.broadcast_to(y[..., None, :, :], lead + (n, m, d)).reshape(-1, d)
        k = pair_value(base, xa, ya)
        gx, gy, div = derivatives(base, xa, ya, h=4e-3)
        sx, sy = sfn(xa), sfn(ya)
        tot = div + (sx * gy).sum(-1) + (sy * gx).sum(-1) + (sx * sy).sum(-1) * k
        return tot.reshape(lead + (n, m))

    return fn


def stein_task(rec, sname):
    score, sfn = SCORES[sname]
    bases = [se(0.8, 1.3), imq(1.1, 0.7), rq(0.9, 1.0, 1.5), linear(0.7, 0.3),
             poly(0.5, 0.4, 2), ksum(se(1.0, 1.0), imq(0.8, 0.5)),
             kprod(se(1.3, 0.8), linear(0.5, 1.0)), kpow(imq(1.0, 1.0), 2),
             kscale(0.4, se(0.7, 1.0))]
    for base in bases:
        kernel = ck.SteinKernel(base.make(), score)
        kern = K(f"stein[{sname}]({base.name})", None, stein_reference(base, sfn))
        for d in (1, 2, 3):
            judge(rec, f"stein:{sname}:{base.name}:d{d}", kern, kernel, LATTICE[d],
                  LATTICE[d], derivs=False)
    # derivatives of a Stein kernel (defaults of the base class), and a Stein kernel of one
    base = se(0.9, 1.2)
    kern = K(f"stein[{sname}]({base.name})", None, exact_se_stein(0.9, 1.2, sfn))
    kernel = ck.SteinKernel(base.make(), score)
    nested = K("stein of stein", None, stein_reference(kern, sfn))
    for d in (1, 2):
        judge(rec, f"stein:{sname}:gradients:d{d}", kern, kernel, LATTICE[d][::2],
              LATTICE[d][::2])
        judge(rec, f"stein:{sname}:nested:d{d}", nested, ck.SteinKernel(kernel, score),
              LATTICE[d][::2], LATTICE[d][::2], derivs=False)


def exact_se_stein(l, s, sfn):
    def fn(x, y):
        diff = x[..., :, None, :] - y[..., None, :, :]
        d = x.shape[-1]
        r2 = (diff**2).sum(-1)
        k = s * np.exp(-r2 / (2 * l * l))
        sx, sy = sfn(x)[..., :, None, :], sfn(y)[..., None, :, :]
        div = k * (d / l**2 - r2 / l**4)
        return (div + (sx * diff).sum(-1) * k / l**2 - (sy * diff).sum(-1) * k / l**2
                + (sx * sy).sum(-1) * k)

    return fn


# ------------------------------------------------------------------------------ forms
class OnlyCompute(ck.ScalarValuedKernel):
    """A user's kernel that defines nothing but its value."""

    def compute_elementwise(self, x, y):
        return jnp.exp(-0.5 * jnp.sum((jnp.asarray(x) - jnp.asarray(y)) ** 2)) * 1.5


FORM_KERNELS = [
    (se(0.8, 1.3), ""), (imq(1.1, 0.7), ""), (laplace(0.9, 1.4), ""), (expo(1.2, 0.8), ""),
    (rq(0.9, 1.1, 1.5), ""), (linear(0.6, 0.4), ""), (poly(0.5, 0.4, 2), ""),
    (matern(1.2, 1.1, 1), ""), (periodic(1.1, 1.0, 2.3), ""),
    (locper(1.1, 1.0, 2.3, 0.9, 1.2), ""), (poisson(0.4, 1.2), "d1"),
    (ksum(se(1.0, 1.0), linear(1.0, 0.0)), ""), (kprod(imq(1.0, 2.0), se(2.0, 1.0)), ""),
    (kpow(linear(1.0, 0.5), 3), ""), (kadd(1.5, se(1.0, 1.0)), ""),
    (kscale(2, laplace(1.0, 1.0)), ""),
    (K("user", OnlyCompute, lambda x, y: 1.5 * np.exp(
        -0.5 * ((x[..., :, None, :] - y[..., None, :, :]) ** 2).sum(-1))), ""),
]


def form_task(rec, i):
    kern, only = FORM_KERNELS[i]
    kernel = kern.make()
    a1, b1 = np.array([[2.0]]), np.array([[3.5]])
    singles = {
        "float": (2.0, 3.5, a1, b1), "0-d": (jnp.array(2.0), jnp.array(3.5), a1, b1),
        "int": (2, 3, a1, np.array([[3.0]])),
        "0-d int": (jnp.array(2), jnp.array(3), a1, np.array([[3.0]])),
        "mixed": (2, 3.5, a1, b1),
        "1-vector": (jnp.array([2.0]), jnp.array([3.5]), a1, b1),
    }
    multi = {
        "vector": (jnp.array([2.0, 0.3]), jnp.array([1.5, -1.0]),
                   np.array([[2.0, 0.3]]), np.array([[1.5, -1.0]])),
        "int vector": (jnp.array([2, 0]), jnp.array([1, -1]),
                       np.array([[2.0, 0.0]]), np.array([[1.0, -1.0]])),
        "array-vector": (jnp.array([[2.0, 0.3], [0.1, 0.9]]), jnp.array([1.5, -1.0]),
                         np.array([[2.0, 0.3], [0.1, 0.9]]), np.array([[1.5, -1.0]])),
        "vector-array": (jnp.array([1.5, -1.0]), jnp.array([[2.0, 0.3], [0.1, 0.9]]),
                         np.array([[1.5, -1.0]]), np.array([[2.0, 0.3], [0.1, 0.9]])),
        "numpy": (np.array([[2.0, 0.3], [0.1, 0.9]], np.float32),
                  np.array([[1.5, -1.0]], np.float32),
                  np.array([[2.0, 0.3], [0.1, 0.9]]), np.array([[1.5, -1.0]])),
    }
    forms = dict(singles) if only == "d1" else {**singles, **multi}
    for name, (a, b, xa, yb) in forms.items():
        n, m, d = len(xa), len(yb), xa.shape[1]
        xs, ys = r32(np.repeat(xa, m, 0)), r32(np.tile(yb, (n, 1)))
        gx, gy, div = derivatives(kern, xs, ys)
        want = {"compute": pair_value(kern, xs, ys).reshape(n, m),
                "grad_x": gx.reshape(n, m, d), "grad_y": gy.reshape(n, m, d),
                "divergence_x_grad_y": div.reshape(n, m)}
        for fname, w in want.items():
            case = {"kernel": kern.name, "form": name, "function": fname}
            out = rec.call(f"form:{kern.name}:{name}:{fname}", case,
                           lambda: np.asarray(getattr(kernel, fname)(a, b)))
            rec.cover(states=1, transitions=1, traces=1)
            if out is not None:
                rec.check(out.shape == w.shape and np.allclose(
                    out, w, rtol=1e-3, atol=1e-3 * (1 + np.abs(w).max())),
                    f"form:{kern.name}:{name}:{fname}", f"{out!r} != {w!r}", case)
            if n == m == 1 and np.ndim(a) <= 1:
                elem = fname + "_elementwise"
                out = rec.call(f"form:{kern.name}:{name}:{elem}", case,
                               lambda: np.asarray(getattr(kernel, elem)(a, b)))
                rec.cover(states=1, transitions=1, traces=1)
                shape = np.shape(a) if fname.startswith("grad") else ()
                if out is not None:
                    rec.check(out.shape == shape and np.allclose(
                        out.ravel(), w.ravel(), rtol=1e-3,
                        atol=1e-3 * (1 + np.abs(w).max())),
                        f"form:{kern.name}:{name}:{elem}", f"{out!r} != {w!r}", case)


# ------------------------------------------------------------------------- parameters
def rejection_task(rec):
    bad = []
    for cls in (ck.SquaredExponentialKernel, ck.PCIMQKernel, ck.LaplacianKernel,
                ck.ExponentialKernel, ck.RationalQuadraticKernel, ck.MaternKernel,
                ck.PeriodicKernel):
        for v in (0.0, -1.0, -1e-3, 0):
            bad += [(cls, {"length_scale": v}), (cls, {"output_scale": v})]
    for cls in (ck.LinearKernel, ck.PolynomialKernel):
        bad += [(cls, {"output_scale": v}) for v in (0.0, -1.0)]
        bad += [(cls, {"constant": v}) for v in (-1.0, -1e-3)]
    bad += [(ck.PolynomialKernel, {"degree": v}) for v in (1, 0, -1, 2.5, 2.0)]
    bad += [(ck.MaternKernel, {"degree": v}) for v in (-1, 0.5, 1.0)]
    bad += [(ck.RationalQuadraticKernel, {"relative_weighting": v}) for v in (-1, -0.1)]
    bad += [(ck.PoissonKernel, {"index": v}) for v in (0, 1, 0.0, 1.0, -0.5, 1.5)]
    bad += [(ck.PoissonKernel, {"output_scale": v}) for v in (0.0, -1)]
    bad += [(ck.LocallyPeriodicKernel, {k: -1.0}) for k in (
        "periodic_length_scale", "periodic_output_scale",
        "squared_exponential_length_scale", "squared_exponential_output_scale")]
    for cls, kw in bad:
        rec.expect_error(f"reject:{cls.__name__}:{kw}", [cls.__name__, kw], ValueError,
                         cls, **kw)
        rec.cover(states=1)
    k = ck.SquaredExponentialKernel()
    for p in (0, -1, 0.5, 2.0, "2", None):
        rec.expect_error(f"reject:pow:{p!r}", p, ValueError, lambda: k**p)
    for v in (-1, -0.5):
        rec.expect_error(f"reject:add:{v}", v, ValueError, lambda: k + v)
        rec.expect_error(f"reject:mul:{v}", v, ValueError, lambda: v * k)
        rec.expect_error(f"reject:radd:{v}", v, ValueError, lambda: v + k)
    for v in ("a", None, [1]):
        rec.expect_error(f"reject:add:{v!r}", v, ValueError, lambda: k + v)
        rec.expect_error(f"reject:mul:{v!r}", v, (ValueError, TypeError), lambda: k * v)
    for cls in (ck.AdditiveKernel, ck.ProductKernel):
        rec.expect_error(f"reject:{cls.__name__}:first", cls.__name__, TypeError,
                         cls, 1.0, k)
        rec.expect_error(f"reject:{cls.__name__}:second", cls.__name__, TypeError,
                         cls, k, "x")
    rec.expect_error("reject:PowerKernel:base", None, TypeError, ck.PowerKernel, 1.0, 2)
    rec.expect_error("reject:SteinKernel:base", None, TypeError, ck.SteinKernel, 1.0,
                     lambda x: x)
    # admissible extremes are accepted
    for cls, kw in ((ck.LinearKernel, {"constant": 0}), (ck.PolynomialKernel, {
            "constant": 0, "degree": 2}), (ck.MaternKernel, {"degree": 0}),
            (ck.PoissonKernel, {"index": 0.01}), (ck.PoissonKernel, {"index": 0.99}),
            (ck.SquaredExponentialKernel, {"length_scale": 1e-3, "output_scale": 1e3})):
        rec.call(f"accept:{cls.__name__}", kw, cls, **kw)
        rec.cover(states=1, transitions=1)


def median_task(rec, n, d):
    data = multisets(V4, n) if d == 1 else multisets(P2, n)
    got = rec.call(f"median:n{n}:d{d}", None, vrun,
                   lambda x: ck.median_heuristic(x), data)
    if got is None:
        return
    iu = np.triu_indices(n, 1)
    x = r32(data)
    sq = ((x[:, :, None] - x[:, None]) ** 2).sum(-1)[:, iu[0], iu[1]]
    want = np.sqrt(np.median(sq, axis=1) / 2)
    i = first_bad(np.abs(got - want) <= 1e-5 * (1 + want)) if got.shape == want.shape \
        else 0
    rec.check(i is None, f"median:n{n}:d{d}", f"median heuristic {got[i or 0]} != "
              f"{want[i or 0]}", lambda: {"x": data[i]})
    rec.cover(states=len(data), transitions=len(data), traces=len(data))
    if d == 1:
        for x in data[:: max(1, len(data) // 8)]:
            out = rec.call("median:1d", x, lambda: float(
                ck.median_heuristic(jnp.asarray(x[:, 0], jnp.float32))))
            sqd = ((r32(x) - r32(x).T) ** 2)[iu]
            if out is not None:
                rec.check(abs(out - np.sqrt(np.median(sqd) / 2)) < 1e-5, "median:1d",
                          f"one-dimensional input: {out}", x)


def sqrt_task(rec):
    """The square root kernel convolved with itself gives the kernel (Gaussian algebra)."""
    for l, s, dim in itertools.product((0.5, 1.0, 1.7), (0.4, 1.0, 2.5), (1, 2, 3, 5)):
        rt = rec.call("sqrt", [l, s, dim], lambda: ck.SquaredExponentialKernel(
            l, s).get_sqrt_kernel(dim))
        if rt is None:
            continue
        lr, sr = float(rt.length_scale), float(rt.output_scale)
        # int sr^2 exp(-|x-z|^2/2lr^2 - |z-y|^2/2lr^2) dz
        amp, scale = sr**2 * (np.pi * lr**2) ** (dim / 2), np.sqrt(2) * lr
        rec.check(np.isclose(amp, s, rtol=1e-4) and np.isclose(scale, l, rtol=1e-5),
                  "sqrt", f"self-convolution has scale {scale} and amplitude {amp}",
                  {"length_scale": l, "output_scale": s, "dim": dim})
        rec.cover(states=1, transitions=1, traces=1)


def finding_task(rec):
    """Specific inputs that are known to fail (see known_findings.txt)."""
    x, y = jnp.array([[0.3]]), jnp.array([[0.9]])
    kern = periodic(1.0, 2.0, 1.3)
    _, _, div = derivatives(kern, r32(x), r32(y))
    got = float(kern.make().divergence_x_grad_y(x, y)[0, 0])
    rec.check(abs(got - div[0]) < 1e-3 * (1 + abs(div[0])),
              "periodic-divergence-with-output-scale-2",
              f"divergence {got} instead of {div[0]}", {"kernel": kern.name})
    got = float(ck.MaternKernel(degree=1).grad_x(x, x)[0, 0, 0])
    rec.check(abs(got) < 1e-5, "matern-gradient-at-coinciding-points",
              f"gradient {got} instead of 0", {"degree": 1})
    two = ck.ExponentialKernel(jnp.array(1.0)) * ck.ExponentialKernel(jnp.array(2.0))
    try:
        ok = np.isfinite(float(two.compute_mean(x, y)))
    except Exception:  # noqa: BLE001
        ok = False
    rec.check(ok, "product-of-kernels-with-array-parameters-in-mean",
              "compute_mean raises", None)
    rec.cover(states=3, transitions=3, traces=3)


def tasks(tier):
    out = []
    nl = len(leaves())
    for lo in range(0, nl, 2):
        out.append(Task(f"leaves:{lo}", leaf_task, lo, min(nl, lo + 2), cost=12))
    for level, step in ((1, 10), (2, 24)):
        total = len(level1() if level == 1 else level2(tier))
        for lo in range(0, total, step):
            out.append(Task(f"trees{level}:{lo}", composite_task, level, tier, lo,
                            min(total, lo + step), cost=8))
    for s in SCORES:
        out.append(Task(f"stein:{s}", stein_task, s, cost=15))
    for i, (k, _) in enumerate(FORM_KERNELS):
        out.append(Task(f"forms:{k.name}", form_task, i, cost=10))
    for n in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 7):
        for d in (1, 2):
            out.append(Task(f"median:n{n}d{d}", median_task, n, d, cost=1))
    out += [Task("rejections", rejection_task), Task("sqrt", sqrt_task),
            Task("findings", finding_task)]
    return out
