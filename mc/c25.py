"""C25: arguments outside the documented domain are rejected, all others are accepted.

Every constructor is explored over the complete product of its parameters' alphabets, which
hold values inside, on and outside the edge of the documented domain: construction must succeed
exactly when every parameter lies inside.  Every solver is explored over all pairs of dataset
and coreset size up to a bound, and every operation with a size restriction over all sizes.
"""

from __future__ import annotations

import itertools
import warnings

from mc.core import Task
from mc.lib import *  # noqa: F403
from mc.zoo import ZOO, build_data

import optax

import coreax.util as cu
from coreax.approximation import (ANNchorApproximateKernel, MonteCarloApproximateKernel,
                                  NystromApproximateKernel)
from coreax.benchmark_util import IterativeKernelHerding
from coreax.coreset import Coresubset, PseudoCoreset
from coreax.least_squares import MinimalEuclideanNormSolver, RandomisedEigendecompositionSolver
from coreax.metrics import AMCMD, JMMD, KSD, MMD
from coreax.score_matching import SlicedScoreMatching
from coreax.weights import MMDWeightsOptimiser, SBQWeightsOptimiser

ASSUMPTIONS = [
    "a rejection is any ValueError or TypeError (DeprecationWarning where documented)",
    "values with no documented status (NaN, booleans, numpy integers) are not explored",
    "when several parameters are outside their domains any of them may be reported",
]
REJ = (ValueError, TypeError)

# (values inside, values outside)
POSITIVE = ((1e-6, 0.5, 1, 100.0), (0.0, -1e-6, -2))
NONNEG = ((0.0, 1e-6, 3), (-1e-6, -1, -50.0))
UNIT = ((1e-3, 0.5, 0.999), (0.0, 1.0, -0.5, 1.5))


def bounds(tier):
    return {"constructors": "complete product of the parameter alphabets",
            "solver sizes": "all 1 <= n <= 6, 1 <= m <= 8 (thorough: n <= 9, m <= 11)",
            "budgets": "all n <= 5 x budgets 1..7", "batches": "all sizes -2..6"}


def product(rec, name, make, params):
    """make(**values) is accepted iff every value is inside its domain."""
    names = list(params)
    space = [[(v, True) for v in params[k][0]] + [(v, False) for v in params[k][1]]
             for k in names]
    for combo in itertools.product(*space):
        values = {k: v for k, (v, _) in zip(names, combo)}
        rec.cover(states=1)
        if all(ok for _, ok in combo):
            rec.cover(transitions=1, traces=1)
            got = rec.call(f"accept:{name}", values, make, **values)
            if got is not None:
                rec.sample({"constructor": name, "values": values, "accepted": True})
        else:
            rec.expect_error(f"reject:{name}", values, REJ, make, **values)


# -- constructors -------------------------------------------------------------------------------
def kernels(rec):
    two = {"length_scale": POSITIVE, "output_scale": POSITIVE}
    for cls in (ck.ExponentialKernel, ck.LaplacianKernel, ck.SquaredExponentialKernel,
                ck.PCIMQKernel):
        product(rec, cls.__name__, cls, two)
    product(rec, "LinearKernel", ck.LinearKernel, {"output_scale": POSITIVE, "constant": NONNEG})
    product(rec, "PolynomialKernel", ck.PolynomialKernel,
            {"output_scale": POSITIVE, "constant": NONNEG,
             "degree": ((2, 3, 7), (1, 0, -2, 2.5, 2.0, 3.1))})
    product(rec, "RationalQuadraticKernel", ck.RationalQuadraticKernel,
            {**two, "relative_weighting": ((0.0, 1e-3, 2.0), NONNEG[1])})
    product(rec, "MaternKernel", ck.MaternKernel,
            {**two, "degree": ((0, 1, 2, 5), (-1, -3, 0.5, 1.0, 2.5))})
    product(rec, "PeriodicKernel", ck.PeriodicKernel, {**two, "periodicity": ((0.5, 1.0, 7), ())})
    small = ((1e-3, 2.0), (0.0, -1.0))
    product(rec, "LocallyPeriodicKernel", ck.LocallyPeriodicKernel,
            {"periodic_length_scale": small, "periodic_output_scale": small,
             "periodicity": ((0.5, 2.0), ()), "squared_exponential_length_scale": small,
             "squared_exponential_output_scale": small})
    product(rec, "PoissonKernel", ck.PoissonKernel, {"index": UNIT, "output_scale": POSITIVE})


def compositions(rec):
    se, lin = ck.SquaredExponentialKernel(), ck.LinearKernel()
    others = ([1.0], "kernel", None, (se,), np.ones(2), ck.SquaredExponentialKernel, object())
    good = (se, lin, se + lin, 0, 2, 0.0, 0.5)
    bad = (*others, -1, -0.5, -1e-6)
    forms = {"left sum": lambda a, b: a + b, "left product": lambda a, b: a * b,
             "right sum": lambda a, b: b + a, "right product": lambda a, b: b * a}
    for form, fn in forms.items():
        for base in (se, lin * se, lin ** 2):
            for v in good:
                rec.cover(states=1, transitions=1, traces=1)
                rec.call(f"accept:{form}", {"operand": v}, fn, base, v)
            for v in bad:
                if isinstance(v, np.ndarray) and form.startswith("right"):
                    continue  # numpy's own operator is asked first
                rec.cover(states=1)
                rec.expect_error(f"reject:{form}", {"operand": repr(v)}, REJ, fn, base, v)
    for base in (se, se + lin, ck.SteinKernel(se, lambda x: -x)):
        for p in (1, 2, 3, 10):
            rec.cover(states=1, transitions=1, traces=1)
            rec.call("accept:power", {"power": p}, lambda b, q: b ** q, base, p)
        for p in (0, -1, -3, 0.5, 1.0, 2.5, "2", None):
            rec.cover(states=1)
            rec.expect_error("reject:power", {"power": p}, REJ, lambda b, q: b ** q, base, p)
            rec.expect_error("reject:power", {"power": p}, REJ, ck.PowerKernel, base, p)
    allowed = {True: (se, se * lin), False: (1, 2.0, None, "k", [se], np.ones(3))}
    for cls in (ck.AdditiveKernel, ck.ProductKernel):
        for a_ok, b_ok in itertools.product((True, False), repeat=2):
            for a, b in itertools.product(allowed[a_ok], allowed[b_ok]):
                rec.cover(states=1)
                case = {"first": repr(a)[:60], "second": repr(b)[:60]}
                if a_ok and b_ok:
                    rec.call(f"accept:{cls.__name__}", case, cls, a, b)
                else:
                    rec.expect_error(f"reject:{cls.__name__}", case, REJ, cls, a, b)
    for name, make in (("PowerKernel", lambda k: ck.PowerKernel(k, 2)),
                       ("SteinKernel", lambda k: ck.SteinKernel(k, lambda x: x)),
                       ("MonteCarlo", lambda k: MonteCarloApproximateKernel(k, jr.key(0))),
                       ("ANNchor", lambda k: ANNchorApproximateKernel(k, jr.key(0))),
                       ("Nystrom", lambda k: NystromApproximateKernel(k, jr.key(0)))):
        for k in allowed[True]:
            rec.cover(states=1, transitions=1, traces=1)
            rec.call(f"accept:{name}", {}, make, k)
        for k in allowed[False]:
            rec.cover(states=1)
            rec.expect_error(f"reject:{name}", {"base": repr(k)[:60]}, REJ, make, k)


def others(rec):
    se = ck.SquaredExponentialKernel()
    counts = ((1, 2, 10_000), (0, -1, -5))
    for cls in (MonteCarloApproximateKernel, ANNchorApproximateKernel, NystromApproximateKernel):
        product(rec, cls.__name__, lambda cls=cls, **kw: cls(se, jr.key(1), **kw),
                {"num_kernel_points": counts, "num_train_points": counts})
    product(rec, "RandomisedEigendecompositionSolver",
            lambda **kw: RandomisedEigendecompositionSolver(jr.key(0), **kw),
            {"oversampling_parameter": ((1, 2, 25), (0, -1, 0.5, 1.0, 3.5)),
             "power_iterations": ((0, 1, 4), (-1, -2, 0.5, 1.0)),
             "rcond": ((None, 0, 1e-3, 2.0, -1, -1.0), (-0.5, -2, -1e-6))})
    product(rec, "AMCMD", lambda **kw: AMCMD(se, se, **kw),
            {"regularisation_parameter": NONNEG})
    product(rec, "SlicedScoreMatching",
            lambda **kw: SlicedScoreMatching(jr.key(0), jr.rademacher, **kw),
            {"num_epochs": ((0, 1, 5), (-1, 2.0, 0.5)), "batch_size": ((0, 1, 64), (-1, 1.0)),
             "num_random_vectors": ((1, 3), (0, -1, 1.0)),
             "num_noise_models": ((1, 4), (0, -1, 2.5))})
    for kw in ({"learning_rate": 1e-3}, {"optimiser": optax.adamw}, {"optimiser": optax.sgd},
               {"learning_rate": 1.0, "optimiser": optax.sgd(1e-2)}):
        rec.cover(states=1)
        rec.expect_error("reject:deprecated", {"arguments": sorted(kw)},
                         (DeprecationWarning, *REJ), SlicedScoreMatching, jr.key(0),
                         jr.rademacher, **kw)
    for kw in ({}, {"optimiser": optax.sgd(1e-2)}, {"optimiser": optax.adamw(1e-3)}):
        rec.cover(states=1, transitions=1, traces=1)
        rec.call("accept:optimiser", {"arguments": sorted(kw)}, SlicedScoreMatching, jr.key(0),
                 jr.rademacher, **kw)
    sizes = ((1, 2, 50), (0, -1, -7))
    makes = {
        "RandomSample": lambda coreset_size: cs.RandomSample(coreset_size, jr.key(0)),
        "KernelHerding": lambda coreset_size: cs.KernelHerding(coreset_size, se),
        "SteinThinning": lambda coreset_size: cs.SteinThinning(coreset_size, se),
        "RPCholesky": lambda coreset_size: cs.RPCholesky(coreset_size, jr.key(0), se),
        "GreedyKernelPoints": lambda coreset_size: cs.GreedyKernelPoints(
            coreset_size, jr.key(0), se),
        "KernelThinning": lambda coreset_size: cs.KernelThinning(
            coreset_size, se, jr.key(0), 0.1, se),
        "CompressPlusPlus": lambda coreset_size: cs.CompressPlusPlus(
            coreset_size=coreset_size, g=0, kernel=se, random_key=jr.key(0), delta=0.1,
            sqrt_kernel=se),
        "IterativeKernelHerding": lambda coreset_size: IterativeKernelHerding(
            coreset_size=coreset_size, kernel=se, num_iterations=2),
    }
    for name, make in makes.items():
        product(rec, name, make, {"coreset_size": sizes})
    modes = (("implicit-explicit", "implicit", "explicit"),
             ("", "Implicit", "explicit-implicit", "none", "implicitexplicit", "exp"))
    for cls in (cs.CaratheodoryRecombination, cs.TreeRecombination):
        product(rec, cls.__name__, cls, {"mode": modes})


def map_reduce(rec):
    """Which bases and leaf sizes are admitted, and which raise the padding warning."""
    se = ck.SquaredExponentialKernel()
    explicit = {
        "herding": (lambda m: cs.KernelHerding(m, se), True),
        "stein": (lambda m: cs.SteinThinning(m, se), True),
        "sample-weighted": (lambda m: cs.RandomSample(m, jr.key(0), weighted=True), False),
        "sample": (lambda m: cs.RandomSample(m, jr.key(0)), False),
        "cholesky": (lambda m: cs.RPCholesky(m, jr.key(0), se), True),
        "thinning": (lambda m: cs.KernelThinning(m, se, jr.key(0), 0.1, se), None),
    }
    from coreax.solvers.base import PaddingInvariantSolver

    for name, (make, _) in explicit.items():
        invariant = isinstance(make(1), PaddingInvariantSolver)
        for m in range(1, 5):
            for leaf in range(-1, 7):
                rec.cover(states=1)
                case = {"base": name, "coreset_size": m, "leaf_size": leaf}
                with warnings.catch_warnings(record=True) as seen:
                    warnings.simplefilter("always")
                    if leaf > m:
                        rec.cover(transitions=1, traces=1)
                        got = rec.call(f"accept:mapreduce-{name}", case, cs.MapReduce, make(m),
                                       leaf_size=leaf)
                        if got is not None:
                            warned = any("PaddingInvariantSolver" in str(w.message)
                                         or "padding" in str(w.message).lower() for w in seen)
                            rec.check(warned == (not invariant), f"warn:mapreduce-{name}",
                                      f"warning for a base that is "
                                      f"{'' if invariant else 'not '}padding invariant: "
                                      f"{warned}", case)
                    else:
                        rec.expect_error(f"reject:mapreduce-{name}", case, REJ, cs.MapReduce,
                                         make(m), leaf_size=leaf)
    for name, base in (("caratheodory", cs.CaratheodoryRecombination()),
                       ("tree", cs.TreeRecombination())):
        for leaf in (1, 5, 100):
            rec.cover(states=1)
            rec.expect_error(f"reject:mapreduce-{name}", {"leaf": leaf}, REJ, cs.MapReduce, base,
                             leaf_size=leaf)


# -- sizes --------------------------------------------------------------------------------------
def sizes(rec, name, tier):
    e = ZOO[name]
    top_n, top_m = (6, 8) if tier == "quick" else (9, 11)
    rng = np.random.default_rng(3)
    base = rng.normal(size=(top_n, 2)).astype(np.float32)
    for n in range(1, top_n + 1):
        data = build_data(jnp.asarray(base[:n]), None, e.sup, e.columns)
        ran = False
        for m in range(1, top_m + 1):
            case = {"solver": name, "n": n, "m": m}
            rec.cover(states=1)
            if m > n or not e.domain(n, m):
                if name == "stein-u-regularised" and m <= n:
                    continue
                rec.expect_error(f"reject-size:{name}", case, REJ,
                                 lambda: e.make(m, 0, n).reduce(data)[0].unweighted_indices)
            elif not ran or m == n or not e.domain(n, m + 1):
                ran = True  # the smallest and the largest admitted size
                rec.cover(transitions=1, traces=1)
                got = rec.call(f"accept-size:{name}", case,
                               lambda: jax.eval_shape(lambda d: e.make(m, 0, n).reduce(d)[0]
                                                      .unweighted_indices, data))
                if got is not None:
                    rec.check(got.shape == (m,), f"accept-size:{name}",
                              f"{got.shape} indices", case)


def budgets(rec):
    x5 = jnp.asarray(np.random.default_rng(0).normal(size=(5, 2)).astype(np.float32))
    se = ck.SquaredExponentialKernel()
    for cls in (MonteCarloApproximateKernel, ANNchorApproximateKernel, NystromApproximateKernel):
        for n in range(1, 6):
            for k, t in itertools.product(range(1, 8), repeat=2):
                case = {"kernel": cls.__name__, "n": n, "num_kernel_points": k,
                        "num_train_points": t}
                rec.cover(states=1)
                kern = cls(se, jr.key(2), num_kernel_points=k, num_train_points=t)
                run = lambda: jax.eval_shape(kern.gramian_row_mean, x5[:n])  # noqa: B023, E731
                if k > n and cls is ANNchorApproximateKernel and t <= n:
                    continue  # no documented status: anchors may repeat
                if k <= n and t <= n:
                    rec.cover(transitions=1, traces=1)
                    got = rec.call(f"accept-budget:{cls.__name__}", case, run)
                    if got is not None:
                        rec.check(got.shape == (n,), f"accept-budget:{cls.__name__}",
                                  f"shape {got.shape}", case)
                else:
                    rec.expect_error(f"reject-budget:{cls.__name__}", case, REJ, run)
    for n in range(0, 7):
        for b in range(-2, 9):
            for c in (0, 1, 3):
                case = {"max_index": n, "batch_size": b, "num_batches": c}
                rec.cover(states=1)
                if 0 <= b <= n:
                    if b == 0 or n == 0 or c == 0:
                        continue
                    rec.cover(transitions=1, traces=1)
                    got = rec.call("accept:batches", case, cu.sample_batch_indices, jr.key(0), n, b, c)
                    if got is not None:
                        rec.check(got.shape == (c, b), "accept:batches", f"{got.shape}", case)
                else:
                    rec.expect_error("reject:batches", case, REJ, cu.sample_batch_indices,
                                     jr.key(0), n, b, c)


def structures(rec):
    """Datasets and coresets of every pair of lengths."""
    for n, s in itertools.product(range(1, 6), repeat=2):
        for d, p in itertools.product((1, 2), repeat=2):
            case = {"points": n, "responses": s, "d": d, "p": p}
            rec.cover(states=1)
            x, y = jnp.ones((n, d)), jnp.ones((s, p))
            if n == s:
                rec.cover(transitions=1, traces=1)
                rec.call("accept:supervised", case, SupervisedData, x, y)
            else:
                rec.expect_error("reject:supervised", case, REJ, SupervisedData, x, y)
            rec.cover(states=1)
            w = jnp.ones(s)
            if n == s:
                rec.call("accept:weights", case, Data, x, w)
                rec.call("accept:weights", case, SupervisedData, x, jnp.ones((n, p)), w)
            elif s > 1:
                rec.expect_error("reject:weights", case, REJ, Data, x, w)
                rec.expect_error("reject:weights", case, REJ, SupervisedData, x,
                                 jnp.ones((n, p)), w)
    for n, m in itertools.product(range(1, 6), repeat=2):
        for sup in (False, True):
            pre = SupervisedData(jnp.ones((n, 2)), jnp.ones((n, 1))) if sup else Data(
                jnp.ones((n, 2)))
            raw = (jnp.ones((n, 2)), jnp.ones((n, 1))) if sup else jnp.ones((n, 2))
            idx, pts = jnp.zeros(m, jnp.int32), jnp.ones((m, 2))
            case = {"data": n, "coreset": m, "supervised": sup}
            rec.cover(states=1)
            makes = {"subset": lambda: Coresubset(Data(idx), pre),
                     "subset-build": lambda: Coresubset.build(idx, raw),
                     "subset-build-data": lambda: Coresubset.build(Data(idx), pre),
                     "pseudo": lambda: PseudoCoreset(Data(pts), pre),
                     "pseudo-build": lambda: PseudoCoreset.build(pts, raw)}
            for name, make in makes.items():
                if m <= n:
                    rec.cover(transitions=1, traces=1)
                    rec.call(f"accept:{name}", case, make)
                else:
                    rec.expect_error(f"reject:{name}", case, REJ, make)
            for cls, node in ((Coresubset, idx), (PseudoCoreset, pts)):
                for name, a, b in (("raw nodes", node, pre), ("raw data", Data(node), raw),
                                   ("both raw", node, raw)):
                    rec.expect_error(f"reject:{cls.__name__}-{name}", case, REJ, cls, a, b)


def operations(rec):
    """Operations whose arguments must fit together."""
    se = ck.SquaredExponentialKernel()
    x, y = jnp.ones((4, 2)), jnp.ones((4, 1))
    plain, sup = Data(x), SupervisedData(x, y)
    for cls in (MMDWeightsOptimiser, SBQWeightsOptimiser):
        for a, b in itertools.product((plain, sup), repeat=2):
            case = {"optimiser": cls.__name__, "dataset": type(a).__name__,
                    "coreset": type(b).__name__}
            rec.cover(states=1)
            if a is plain and b is plain:
                rec.call(f"accept:{cls.__name__}", case, cls(se).solve, a, b)
            else:
                rec.expect_error(f"reject:{cls.__name__}", case, REJ, cls(se).solve, a, b)
    for bs in (None, 1, 3):
        for axis in (0, 1, None):
            rec.expect_error("reject:empty", {"block": bs, "axis": axis}, (*REJ, ZeroDivisionError),
                             se.compute_mean, Data(jnp.zeros((0, 2))), plain, axis=axis,
                             block_size=bs)
    for shape in ((3,), (2, 3), (3, 2), (2, 2, 2), (1, 2)):
        rec.cover(states=1)
        rec.expect_error("reject:eigen", {"shape": shape}, REJ, RandomisedEigendecompositionSolver(
            jr.key(0), 1).randomised_eigendecomposition, jnp.ones(shape))
    for n in (1, 2, 3):
        rec.cover(states=1)
        rec.call("accept:eigen", {"n": n}, RandomisedEigendecompositionSolver(
            jr.key(0), 1).randomised_eigendecomposition, jnp.eye(n))
    rng = np.random.default_rng(1)
    for cls in (cs.CaratheodoryRecombination, cs.TreeRecombination):
        for mode in ("implicit-explicit", "implicit", "explicit"):
            data = Data(jnp.asarray(rng.normal(size=(6, 1)).astype(np.float32)))
            solver = cls(mode=mode)
            case = {"solver": cls.__name__, "mode": mode}
            rec.cover(states=1)
            rec.call(f"accept:{cls.__name__}", case, solver.reduce, data)
            jitted = eqx.filter_jit(lambda d: solver.reduce(d)[0])  # noqa: B023
            if mode == "explicit":
                rec.expect_error(f"reject:{cls.__name__}-jit", case, REJ, jitted, data)
            else:
                rec.call(f"accept:{cls.__name__}-jit", case, jitted, data)


def refine_sizes(rec):
    """Greedy kernel points warns when, and only when, it has to clip the coreset it is given."""
    from coreax.solvers.coresubset import SizeWarning

    x = jnp.asarray(np.random.default_rng(2).normal(size=(6, 1)).astype(np.float32))
    data = SupervisedData(x, jnp.sin(x))
    for given in range(1, 6):
        for wanted in range(1, 6):
            case = {"given": given, "wanted": wanted}
            solver = cs.GreedyKernelPoints(wanted, jr.key(0), ck.SquaredExponentialKernel(),
                                           regularisation_parameter=1e-3)
            start = Coresubset(Data(jnp.arange(given)), data)
            rec.cover(states=1, transitions=1, traces=1)
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                got = rec.call("accept:refine", case, lambda: solver.refine(start)[0])  # noqa: B023
            if got is None:
                continue
            rec.check(len(got) == wanted, "refine-size", f"{len(got)} indices", case)
            warned = any(issubclass(w.category, SizeWarning) for w in seen)
            rec.check(warned == (given > wanted), "refine-warning", f"warned: {warned}", case)


def tasks(tier):
    out = [Task(f.__name__, f, cost=c) for f, c in (
        (kernels, 2), (compositions, 2), (others, 2), (map_reduce, 2), (budgets, 3),
        (structures, 2), (operations, 5), (refine_sizes, 20))]
    out += [Task(f"sizes:{name}", sizes, name, tier, cost=5 * e.cost) for name, e in ZOO.items()]
    return out
