"""C21: solvers are pure - no call history, cache or compilation mode changes a result.

The state space is the call history.  For each group of operations on shared solver and
dataset objects a de Bruijn sequence drives the real objects through *every* history of
length 2 (uncompiled) or 3 (through one shared compiled entry point); every result is
compared with the result of brand-new objects, and every shared object is compared with a
copy taken at the start.  Compilation modes (plain, compiled, mapped over a batch) are
compared pairwise, and solver states are fed back along every sequence of calls of length 3.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.greedy import check_steps, herding_objective, herding_tol
from mc.lib import *  # noqa: F403

ASSUMPTIONS = [
    "comparisons between compilation modes use irregular data, on which the solvers' "
    "decisions are not ties; values are compared to 1e-4",
    "RPCholesky is left out of state reuse: the state it returns is the residual diagonal, "
    "which its existing tests pin",
    "map-reduce is not mapped over batches: its partitioning callback rejects that",
    "temperature schedules are judged on coresets of size one, where a cold refinement has "
    "a single legal outcome",
]


def bounds(tier):
    return {"groups": sorted(GROUPS), "history": "all histories of length 2 (plain) / 3 "
            "(compiled) per group", "state reuse": "all sequences of 3 calls over {reduce, "
            "refine, iterate} (herding) and {reduce, refine} (greedy kernel points)",
            "iterations": "1..6", "datasets": "lattice {0,1,2.3}^n x weights {0,1,2}^n, n<=4; "
            "irregular n<=12"}


def de_bruijn(k, n):
    """Cyclic sequence over range(k) containing every word of length n once, unrolled."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


# ------------------------------------------------------------------------- operations
def dataset(which, n=9, d=2, sup=False, weighted=True):
    x = weyl(n, d, 3.0, which)
    w = jnp.asarray(1 + (np.arange(n) * (which + 1)) % 3, jnp.float32) if weighted else None
    x = jnp.asarray(x, jnp.float32)
    if sup:
        y = jnp.asarray(np.sin(2 * np.asarray(x[:, :1])) + 0.1 * which, jnp.float32)
        return SupervisedData(x, y, w)
    return Data(x, w)


def _score(x):
    return -(x - 1.2)


def _score2(x):
    return -0.4 * (x + 0.3)


def quad(x):
    return jnp.stack([x[0], x[0] * x[-1]])


KER = {"se": lambda: ck.SquaredExponentialKernel(0.8), "imq": lambda: ck.PCIMQKernel(0.9),
       "st": lambda: ck.SteinKernel(ck.PCIMQKernel(0.9), _score),
       "st2": lambda: ck.SteinKernel(ck.PCIMQKernel(0.9), _score2),
       "prod": lambda: ck.SquaredExponentialKernel(0.8) * ck.PCIMQKernel(0.9)}


def make(spec):
    """Objects are described by strings/tuples so that fresh ones can always be built."""
    kind, *args = spec
    if kind == "data":
        return dataset(*args)
    if kind == "coreset":
        which, idx = args
        return Coresubset(Data(jnp.asarray(idx)), dataset(which))
    if kind == "scoreset":
        which, idx = args
        return Coresubset(Data(jnp.asarray(idx)), dataset(which, sup=True))
    opts = dict(args[0])
    for name in ("kernel", "sqrt_kernel", "feature_kernel", "response_kernel", "ground_kernel"):
        if isinstance(opts.get(name), str):
            opts[name] = KER[opts[name]]()
    if "random_key" in opts:
        opts["random_key"] = jr.key(opts["random_key"])
    if "base_solver" in opts:
        opts["base_solver"] = make(opts["base_solver"])
    if kind in ("CaratheodoryRecombination", "TreeRecombination"):
        opts["test_functions"] = jax.vmap(quad) if opts.pop("mapped", False) else quad
    mod = {"MMD": coreax.metrics, "KSD": coreax.metrics, "JMMD": coreax.metrics,
           "AMCMD": coreax.metrics, "SBQWeightsOptimiser": coreax.weights,
           "MMDWeightsOptimiser": coreax.weights}.get(kind, cs)
    if kind == "KDE":
        return coreax.score_matching.KernelDensityMatching(**opts)
    return getattr(mod, kind)(**opts)


def opt(kind, **kw):
    return (kind, tuple(sorted(kw.items())))


H = opt("KernelHerding", coreset_size=3, kernel="se")
H2 = opt("KernelHerding", coreset_size=3, kernel="imq", unique=False)
HP = opt("KernelHerding", coreset_size=3, kernel="se", probabilistic=True, temperature=0.4,
         random_key=5)
S = opt("SteinThinning", coreset_size=3, kernel="st", regularise=False)
S2 = opt("SteinThinning", coreset_size=3, kernel="st2", regularise=True)
S3 = opt("SteinThinning", coreset_size=3, kernel="imq", regularise=False)
R = opt("RPCholesky", coreset_size=3, kernel="se", random_key=0)
R2 = opt("RPCholesky", coreset_size=3, kernel="se", random_key=1)
G = opt("GreedyKernelPoints", coreset_size=3, feature_kernel="se", random_key=0)
G2 = opt("GreedyKernelPoints", coreset_size=3, feature_kernel="imq", random_key=0,
         regularisation_parameter=0.1)
GB = opt("GreedyKernelPoints", coreset_size=3, feature_kernel="se", random_key=3,
         candidate_batch_size=4, loss_batch_size=5)
KT = opt("KernelThinning", coreset_size=2, kernel="se", sqrt_kernel="se", random_key=0,
         delta=0.1)
KT2 = opt("KernelThinning", coreset_size=2, kernel="se", sqrt_kernel="imq", random_key=4,
          delta=0.1)
CP = opt("CompressPlusPlus", coreset_size=3, kernel="se", sqrt_kernel="se", random_key=0,
         delta=0.1, g=1)
RS = opt("RandomSample", coreset_size=3, random_key=0, weighted=True, unique=True)
RS2 = opt("RandomSample", coreset_size=3, random_key=7, weighted=False, unique=True)
RS3 = opt("RandomSample", coreset_size=3, random_key=0, weighted=True, unique=False)
MR = opt("MapReduce", base_solver=opt("KernelHerding", coreset_size=2, kernel="se"), leaf_size=5)
MR2 = opt("MapReduce", base_solver=opt("SteinThinning", coreset_size=2, kernel="st",
                                       regularise=False), leaf_size=4)
CA = opt("CaratheodoryRecombination", mode="implicit-explicit")
CB = opt("CaratheodoryRecombination", mode="implicit-explicit", rcond=1e-5)
TR = opt("TreeRecombination", mode="implicit-explicit", tree_reduction_factor=2)
MM = opt("MMD", kernel="se")
MM2 = opt("MMD", kernel="imq")
KS = opt("KSD", kernel="st")
KS2 = opt("KSD", kernel="imq")
JM = opt("JMMD", feature_kernel="se", response_kernel="imq")
AM = opt("AMCMD", feature_kernel="se", response_kernel="imq", regularisation_parameter=0.1)
WS = opt("SBQWeightsOptimiser", kernel="se")
WM = opt("MMDWeightsOptimiser", kernel="se")
D1, D2, D3 = ("data", 0), ("data", 1), ("data", 2, 9, 2, False, False)
Y1, Y2 = ("data", 0, 9, 2, True), ("data", 1, 9, 2, True)
C1, C2 = ("coreset", 0, (1, 4, 6)), ("coreset", 1, (8, 2))
K1, K2 = ("scoreset", 0, (1, 4, 6)), ("scoreset", 1, (8, 2, 0))

GROUPS = {
    "herding": [("reduce", H, D1), ("reduce", H, D2), ("refine", H, C1), ("reduce", H2, D1),
                ("reduce_iterative", H, D1), ("reduce", HP, D1)],
    "herding-refine": [("refine", H, C1), ("refine", H, C2), ("refine", HP, C1),
                       ("refine", H2, C1)],
    "stein": [("reduce", S, D1), ("reduce", S, D2), ("reduce", S2, D1), ("reduce", S3, D1),
              ("reduce", S3, D2)],
    "stein-refine": [("refine", S, C1), ("refine", S, C2), ("refine", S2, C1),
                     ("refine", S3, C1)],
    "cholesky": [("reduce", R, D1), ("reduce", R, D2), ("reduce", R2, D1), ("reduce", R, D3)],
    "kernel-points": [("reduce", G, Y1), ("reduce", G, Y2), ("refine", G, K1),
                      ("reduce", G2, Y1), ("reduce", GB, Y1)],
    "kernel-points-refine": [("refine", G, K1), ("refine", G, K2), ("refine", GB, K1)],
    "thinning": [("reduce", KT, D1), ("reduce", KT, D2), ("reduce", KT2, D1),
                 ("reduce", CP, D1)],
    "sample": [("reduce", RS, D1), ("reduce", RS2, D1), ("reduce", RS3, D1), ("reduce", RS, D2),
               ("reduce", RS, Y1)],
    "map-reduce": [("reduce", MR, D1), ("reduce", MR, D2), ("reduce", MR2, D1)],
    "recombination": [("reduce", CA, D1), ("reduce", CA, D2), ("reduce", TR, D1),
                      ("reduce", CB, D1)],
    "metrics": [("compute", MM, D1, D2), ("compute", MM, D2, D1), ("compute", MM2, D1, D2),
                ("compute", KS, D1, D2), ("compute", KS, D1, D3), ("compute", JM, Y1, Y2)],
    "metrics-2": [("corrected", KS2, D1, D2), ("compute", AM, Y1, Y2), ("compute", AM, Y2, Y1),
                  ("compute", JM, Y1, Y2)],
    "weights": [("solve", WS, D1, C1), ("solve", WM, D1, C1), ("solve", WS, D2, C1),
                ("solve", WM, D2, C1)],
    "mixed": [("reduce", H, D1), ("reduce", S, D1), ("reduce", RS, D1), ("compute", MM, D1, D2),
              ("refine", H, C1)],
}


def view(res):
    """What a user sees of a result."""
    if isinstance(res, tuple):
        res = res[0]
    if isinstance(res, Coresubset):
        out = subset(res)
        out["pre"] = res.pre_coreset_data.data
        out["prew"] = res.pre_coreset_data.weights
        return out
    return {"value": res}


def apply(method, obj, *args):
    if method == "solve":
        return view(obj.solve(args[0], args[1].points))
    if method == "reduce_iterative":
        return view(obj.reduce_iterative(args[0], num_iterations=3))
    if method == "corrected":
        return view(obj.compute(*args, laplace_correct=True, regularise=True))
    return view(getattr(obj, method)(*args))


def same(a, b):
    if set(a) != set(b):
        return False
    return all(np.shape(a[k]) == np.shape(b[k]) and
               np.allclose(a[k], b[k], rtol=1e-4, atol=1e-4) for k in a)


def frozen(obj):
    """A deep picture of a module: every leaf by value."""
    def leaf(v):
        if isinstance(v, jax.Array) and jnp.issubdtype(v.dtype, jax.dtypes.prng_key):
            return np.array(jr.key_data(v))
        return np.array(v) if isinstance(v, (jax.Array, np.ndarray)) else v

    leaves, tree = jax.tree_util.tree_flatten(obj)
    return [leaf(v) for v in leaves], str(tree), sorted(vars(obj))


def unchanged(a, b):
    return a[1:] == b[1:] and len(a[0]) == len(b[0]) and all(
        np.array_equal(p, q, equal_nan=True) if isinstance(p, np.ndarray) else p == q or p is q
        for p, q in zip(a[0], b[0]))


def history(rec, group, compiled, depth):
    ops = GROUPS[group]
    pool = {}
    for op in ops:
        for spec in op[1:]:
            if spec not in pool:
                pool[spec] = make(spec)
    before = {spec: frozen(obj) for spec, obj in pool.items()}
    # one compiled entry point per method, shared by every object of the group
    entry = {m: (eqx.filter_jit(lambda *a, m=m: apply(m, *a)) if compiled
                 else (lambda *a, m=m: apply(m, *a))) for m in {op[0] for op in ops}}
    # the expectation comes from brand new objects that have no history, plainly called
    want = []
    for op in ops:
        jax.clear_caches()
        want.append(jax.tree_util.tree_map(np.asarray, apply(op[0], *[make(s) for s in op[1:]])))
    word = de_bruijn(len(ops), depth)
    for pos, i in enumerate(word):
        op = ops[i]
        past = [f"{ops[j][0]} {ops[j][1][0]} {ops[j][2]}" for j in word[max(0, pos - depth + 1):pos]]
        case = {"call": str(op), "history": past}
        got = rec.call(f"history:{group}", case, entry[op[0]], *[pool[s] for s in op[1:]])
        rec.cover(states=1, transitions=1, traces=1)
        if got is None:
            return
        got = jax.tree_util.tree_map(np.asarray, got)
        if not rec.check(same(got, want[i]), f"history:{group}:{op[0]}:{op[1][0]}",
                         f"result {got.get('idx', got.get('value', ''))} differs from "
                         f"{want[i].get('idx', want[i].get('value', ''))}, obtained with "
                         "objects that have no history", case):
            return
        for spec in op[1:]:
            if not rec.check(unchanged(frozen(pool[spec]), before[spec]),
                             f"history:{group}:operand", f"the call modified {spec}", case):
                return
    rec.sample({"group": group, "word": word[:40]})


def batched(rec, group):
    """Mapped over a batch of datasets, compiled or not: each member as if alone."""
    for op in GROUPS[group]:
        method, spec, src = op[0], op[1], op[2]
        if method not in ("reduce", "refine", "compute", "reduce_iterative"):
            continue
        sup = src[0] == "scoreset" or (src[0] == "data" and len(src) > 4 and src[4])
        plain = src[0] == "data" and len(src) > 5
        members = [dataset(k, sup=sup, weighted=not plain) for k in (0, 4)]
        other = dataset(6, sup=sup)
        solver = make(spec)

        def one(d, method=method, solver=solver, src=src):
            if method == "refine":
                return apply(method, solver, Coresubset(Data(jnp.asarray(src[2])), d))
            if method == "compute":
                return apply(method, solver, d, other)
            return apply(method, solver, d)

        alone = [jax.tree_util.tree_map(np.asarray, one(d)) for d in members]
        stack = jax.tree_util.tree_map(lambda *a: jnp.stack(a), *members)
        for mode, fn in (("mapped", jax.vmap(one)), ("compiled map", jax.jit(jax.vmap(one)))):
            case = {"call": str(op), "mode": mode}
            got = rec.call(f"batched:{group}:{mode}", case, fn, stack)
            rec.cover(states=len(members), transitions=len(members), traces=len(members))
            if got is None:
                continue
            for k, ref in enumerate(alone):
                mine = {key: np.asarray(v[k]) for key, v in got.items()}
                rec.check(same(mine, ref), f"batched:{group}:{mode}:{spec[0]}",
                          f"member {k}: {mine.get('idx', mine.get('value', ''))} instead of "
                          f"{ref.get('idx', ref.get('value', ''))}", case)


# ------------------------------------------------------------------------ state reuse
def herd_state(rec, n, m, unique, seqs):
    """Feed the returned state back along every call sequence; all calls stay optimal."""
    kern = se(0.9)
    x, w = cross(r32(tuples(V3, n)), r32(weightings((0, 1, 2), n, m if unique else 1)))
    start = np.array([(2 * i + 1) % n for i in range(m)])

    def run(xi, wi, seq):
        solver = cs.KernelHerding(m, kern.make(), unique=unique)
        d = Data(xi, wi)
        state, out = None, []
        for step in seq:
            if step == "reduce":
                c, state = solver.reduce(d, state)
            elif step == "refine":
                c, state = solver.refine(Coresubset(Data(jnp.asarray(start)), d), state)
            elif step == "iterate":
                c, state = solver.reduce_iterative(d, state, num_iterations=1)
            else:  # a solver of another size may use the same state
                _, state = cs.KernelHerding(max(1, m - 1), kern.make(), unique=False).reduce(
                    d, state)
                continue
            out.append(c.unweighted_indices)
        return jnp.stack(out)

    kmat = kern(x, x)
    wn = norm_weights(w)
    for seq in seqs:
        case = lambda i: {"x": x[i], "w": w[i], "calls": seq, "size": m}  # noqa: E731
        got = rec.call(f"state:{seq}", case(0), vrun, lambda a, b: run(a, b, seq), x, w)
        if got is None:
            continue
        for pos, step in enumerate([s for s in seq if s != "other"]):
            st = np.tile(start, (len(x), 1)) if step == "refine" else None
            if st is not None and unique:
                use = (w[:, start] > 0).all(1)
            else:
                use = np.ones(len(x), bool)
            check_steps(rec, f"state:{'-'.join(seq)}:{pos}",
                        herding_objective(kmat[use], wn[use]), kmat[use], w[use],
                        got[use, pos], unique, herding_tol(kmat),
                        start=None if st is None else st[use],
                        case=lambda i: case(np.flatnonzero(use)[i]))


def iterated(rec, n, m, unique):
    """reduce_iterative(k) equals k refinements, on data without ties."""
    kern = se(0.45)
    x = r32(np.stack([weyl(n, 1, 3.0, s) for s in range(60)]))
    w = r32(np.stack([1 + (np.arange(n) * (s + 1)) % 4 for s in range(60)]) * 1.0)
    top = 6

    def run(xi, wi):
        solver = cs.KernelHerding(m, kern.make(), unique=unique)
        d = Data(xi, wi)
        c, state = solver.reduce(d)
        steps, its, reuse = [c.unweighted_indices], [], []
        for _ in range(top - 1):
            c, _ = solver.refine(c)
            steps.append(c.unweighted_indices)
        for k in range(1, top + 1):
            its.append(solver.reduce_iterative(d, num_iterations=k)[0].unweighted_indices)
            reuse.append(solver.reduce_iterative(d, state, k)[0].unweighted_indices)
        return jnp.stack(steps), jnp.stack(its), jnp.stack(reuse)

    steps, its, reuse = vrun(run, x, w)
    kmat, wn = kern(x, x), norm_weights(w)
    clear = np.ones(len(x), bool)
    quiet = type("Quiet", (), {"cover": lambda *a, **k: None, "violate": lambda *a, **k: None})()
    for k in range(top):
        _, tie = check_steps(quiet, "", herding_objective(kmat, wn), kmat, w, steps[:, k], unique,
                             herding_tol(kmat), quiet=True,
                             start=None if k == 0 else steps[:, k - 1])
        clear &= ~tie
        for name, arr in (("", its), ("with state", reuse)):
            ok = (arr[:, k] == steps[:, k]).all(1) | ~clear
            rec.cover(states=int(clear.sum()), transitions=int(clear.sum()), traces=int(clear.sum()))
            bad = first_bad(ok)
            if bad is not None:
                rec.violate(f"iterated:{k + 1}", f"{k + 1} iterations {name} give "
                            f"{arr[bad, k].tolist()}, {k + 1} refinements give "
                            f"{steps[bad, k].tolist()}",
                            {"x": x[bad], "w": w[bad], "size": m, "unique": unique})
    moved = int((steps[clear, -1] != steps[clear, 0]).any(1).sum())
    rec.cover(runs_that_move_after_first=moved)


def schedule(rec, n, nkeys):
    """Temperature schedules: iteration i uses the i-th temperature (coresets of size one)."""
    kern = se(0.7)
    xs = r32(np.stack([weyl(n, 2, 3.0, s) for s in range(6)]))
    i, k = np.indices((len(xs), nkeys)).reshape(2, -1)
    best = kern(xs, xs).mean(2)
    for temps in itertools.product((1e-6, 50.0), repeat=3):
        def run(x, seed):
            solver = cs.KernelHerding(1, kern.make(), probabilistic=True, random_key=jr.key(seed),
                                      temperature=1.0)
            c, _ = solver.reduce_iterative(Data(x), num_iterations=3,
                                           t_schedule=jnp.asarray(temps))
            return c.unweighted_indices[0]

        got = rec.call("schedule", {"temperatures": temps}, vrun, run, xs[i], k.astype(np.uint32))
        if got is None:
            continue
        rec.cover(states=len(got), transitions=3 * len(got), traces=len(got))
        if temps[-1] < 1:
            gap = best[i].max(1) - best[i, got]
            bad = first_bad(gap < 1e-4)
            if bad is not None:
                rec.violate("schedule:cold", "a cold last iteration did not choose the best point",
                            {"x": xs[i[bad]], "key": int(k[bad]), "temperatures": temps})
        else:
            seen = len({int(g) for g in got[i == 0]})
            rec.check(seen > 1, "schedule:hot", "a hot last iteration always chose the same point",
                      {"temperatures": temps})


def gkp_state(rec, n, m, seqs):
    """Greedy kernel points: the returned state never changes what is chosen."""
    def run(xi, wi, seq, feed):
        d = SupervisedData(xi, jnp.sin(3 * xi[:, :1]) + xi[:, :1], wi)
        solver = cs.GreedyKernelPoints(m, jr.key(0), ck.SquaredExponentialKernel(0.6),
                                       regularisation_parameter=1e-2)
        state, out = None, []
        start = Coresubset(Data(jnp.arange(m)[::-1] + (n - m) // 2), d)
        for step in seq:
            c, new = (solver.reduce(d, state) if step == "reduce"
                      else solver.refine(start, state))
            state = new if feed else None
            out.append(c.unweighted_indices)
        return jnp.stack(out)

    x = r32(np.stack([weyl(n, 1, 3.0, s) for s in range(24)]))
    w = r32(np.stack([1 + (np.arange(n) * (s + 1)) % 3 for s in range(24)]) * 1.0)
    for seq in seqs:
        a = rec.call(f"gkp:{seq}", {"calls": seq}, vrun, lambda p, q: run(p, q, seq, True), x, w)
        b = rec.call(f"gkp:{seq}", {"calls": seq}, vrun, lambda p, q: run(p, q, seq, False), x, w)
        if a is None or b is None:
            continue
        rec.cover(states=a.shape[0] * a.shape[1], transitions=a.shape[0] * a.shape[1],
                  traces=a.shape[0])
        bad = first_bad((a == b).all((1, 2)))
        if bad is not None:
            rec.violate(f"gkp-state:{'-'.join(seq)}", f"{a[bad].tolist()} with the state, "
                        f"{b[bad].tolist()} without", {"x": x[bad], "w": w[bad], "size": m})


def tasks(tier):
    quick = tier == "quick"
    out = []
    heavy = {"thinning": 900, "stein": 800, "map-reduce": 700, "stein-refine": 400}
    for group, ops in GROUPS.items():
        out.append(Task(f"history/plain/{group}", history, group, False, 2 if quick else 3,
                        cost=heavy.get(group, 4 * len(ops) ** 2)))
        out.append(Task(f"history/compiled/{group}", history, group, True, 3 if quick else 4,
                        cost=2 * len(ops) ** 2))
        if group not in ("weights", "mixed", "map-reduce", "herding-refine", "stein-refine"):
            out.append(Task(f"batched/{group}", batched, group,
                            cost=heavy.get(group, 10 * len(ops)) / 2))
    steps = ("reduce", "refine", "iterate", "other")
    seqs = list(itertools.product(steps, repeat=3))
    seqs = [s for s in seqs if s[-1] != "other"]
    for n, m in ((3, 2), (4, 2)) if quick else ((2, 1), (3, 2), (4, 2), (4, 3)):
        for unique in (True, False):
            for part in range(4):
                out.append(Task(f"state/{n}/{m}/{unique}/{part}", herd_state, n, m, unique,
                                seqs[part::4] if n < 4 or not quick else seqs[part::16],
                                cost=60))
    for n, m in ((6, 3), (9, 4), (12, 5)):
        for unique in (True, False):
            out.append(Task(f"iterated/{n}/{m}/{unique}", iterated, n, m, unique, cost=60))
    out.append(Task("schedule", schedule, 6, 12 if quick else 64, cost=50))
    two = list(itertools.product(("reduce", "refine"), repeat=3))
    for n, m in ((5, 2), (7, 3)):
        out.append(Task(f"gkp-state/{n}/{m}", gkp_state, n, m, two, cost=80))
    return out
