"""Every subset-selecting solver, as functions of the coreset size and a seed."""

from __future__ import annotations

from mc.lib import *  # noqa: F403


def _score(x):
    return -0.8 * (x - 0.9)


def stein():
    return ck.SteinKernel(ck.PCIMQKernel(0.9), _score)


SE = lambda: ck.SquaredExponentialKernel(0.8)  # noqa: E731
LIN = lambda: ck.LinearKernel(0.5, 0.0)  # noqa: E731
CONST = lambda: ck.LinearKernel(1e-9, 1.0)  # noqa: E731


class Entry:
    """make(m, seed, n) builds the solver; domain(n, m) says which sizes it admits."""

    def __init__(self, make, unique, sup=None, random=False, refine=False, weighted=True,
                 domain=None, cost=1.0, minw=None):
        self.make, self.unique, self.sup, self.random = make, unique, sup, random
        self.refine, self.weighted, self.cost = refine, weighted, cost
        self.columns = 1 if sup else 2  # greedy kernel points regresses one response
        self.domain = domain or (lambda n, m: 1 <= m <= n)
        # number of positively weighted points that a run needs
        self.minw = minw or ((lambda m: m) if unique else (lambda m: 1))


def _cpp_ok(n, m, g):
    p = int(np.floor(np.log(n) / np.log(4) + 1e-9))
    return 0 <= g <= p and m <= min(n, 2 ** g * 2 ** p)


ZOO = {}
for _w in (True, False):
    for _u in (True, False):
        ZOO[f"sample-{'w' if _w else 'e'}{'u' if _u else 'r'}"] = Entry(
            lambda m, s, n, w=_w, u=_u: cs.RandomSample(m, jr.key(s), weighted=w, unique=u),
            _u, random=True, minw=lambda m: 1)
for _u in (True, False):
    t = "u" if _u else "r"
    ZOO[f"herding-{t}"] = Entry(
        lambda m, s, n, u=_u: cs.KernelHerding(m, SE(), unique=u), _u, refine=True)
    ZOO[f"herding-{t}-blocks"] = Entry(
        lambda m, s, n, u=_u: cs.KernelHerding(m, SE(), unique=u, block_size=2, unroll=2), _u,
        refine=True)
    ZOO[f"herding-{t}-linear"] = Entry(
        lambda m, s, n, u=_u: cs.KernelHerding(m, LIN(), unique=u), _u, refine=True)
    ZOO[f"herding-{t}-drawn"] = Entry(
        lambda m, s, n, u=_u: cs.KernelHerding(m, SE(), unique=u, probabilistic=True,
                                               temperature=0.5, random_key=jr.key(s)),
        _u, refine=True, random=True)
    ZOO[f"stein-{t}"] = Entry(
        lambda m, s, n, u=_u: cs.SteinThinning(m, stein(), unique=u, regularise=False), _u,
        refine=True)
    ZOO[f"stein-{t}-density"] = Entry(
        lambda m, s, n, u=_u: cs.SteinThinning(m, SE(), unique=u, regularise=False), _u,
        refine=True)
    ZOO[f"cholesky-{t}"] = Entry(
        lambda m, s, n, u=_u: cs.RPCholesky(m, jr.key(s), SE(), unique=u), _u, random=True,
        minw=lambda m: 0)
    ZOO[f"cholesky-{t}-linear"] = Entry(
        lambda m, s, n, u=_u: cs.RPCholesky(m, jr.key(s), LIN(), unique=u), _u, random=True,
        minw=lambda m: 0)
    for _b in (None, 1, 2):
        ZOO[f"points-{t}-{_b}"] = Entry(
            lambda m, s, n, u=_u, b=_b: cs.GreedyKernelPoints(
                m, jr.key(s), SE(), regularisation_parameter=1e-3, unique=u,
                candidate_batch_size=b, loss_batch_size=b), _u, sup=True, refine=True,
            random=_b is not None, cost=3, minw=lambda m: 0)
ZOO["stein-u-regularised"] = Entry(
    lambda m, s, n: cs.SteinThinning(m, stein(), regularise=True), True, refine=True,
    domain=lambda n, m: n >= 3 and 1 <= m <= n)
ZOO["thinning"] = Entry(
    lambda m, s, n: cs.KernelThinning(m, SE(), jr.key(s), 0.1, SE()), True, random=True,
    cost=4, minw=lambda m: m)
for _g in (0, 1):
    ZOO[f"compress-{_g}"] = Entry(
        lambda m, s, n, g=_g: cs.CompressPlusPlus(
            coreset_size=m, g=g, kernel=SE(), random_key=jr.key(s), delta=0.1, sqrt_kernel=SE()),
        True, random=True, cost=6, domain=lambda n, m, g=_g: _cpp_ok(n, m, g))
for _x in (1, 3):
    ZOO[f"tree-herding-{_x}"] = Entry(
        lambda m, s, n, x=_x: cs.MapReduce(cs.KernelHerding(m, SE()), leaf_size=m + x), True,
        cost=5)
    ZOO[f"tree-stein-{_x}"] = Entry(
        lambda m, s, n, x=_x: cs.MapReduce(cs.SteinThinning(m, stein(), regularise=False),
                                           leaf_size=m + x), True, cost=5)


def show(coreset):
    """All that a user can see of a result."""
    p, pre = coreset.points, coreset.pre_coreset_data
    out = {"idx": coreset.unweighted_indices, "pts": p.data, "w": p.weights,
           "iw": coreset.indices.weights, "raw": coreset.indices.data, "pre": pre.data,
           "prew": pre.weights}
    if isinstance(pre, SupervisedData):
        out["sup"], out["presup"] = p.supervision, pre.supervision
    return out


def response(x, columns=2):
    if columns == 1:
        return jnp.sin(3 * x[:, :1]) + x[:, :1]
    return jnp.concatenate([jnp.sin(3 * x[:, :1]), x[:, :1] ** 2], 1)


def build_data(x, w, sup, columns=2):
    if w is None:
        return SupervisedData(x, response(x, columns)) if sup else Data(x)
    return SupervisedData(x, response(x, columns), w) if sup else Data(x, w)
