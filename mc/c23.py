"""C23: every training step of sliced score matching follows its documented objective.

A training run is a path of network parameters t0 -> t1 -> ... -> tK.  The optimiser is an
argument of the real code, so an optimiser that records what it is given exposes every state
(the parameters) and every transition label (the gradient).  The specification is the sliced
score matching objective (equations 7 and 8 of Song et al.) of a softplus network, written
in numpy float64 with its own forward-mode derivative and differentiated numerically; which
points enter a mini-batch is non-determinism: every multiset of points is allowed.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import *  # noqa: F403

import optax

cm = coreax.score_matching
ASSUMPTIONS = [
    "networks of at most 2 hidden layers with at most 4 nodes (the code does not depend on the width)",
    "a batch is any multiset of the fitting points; every point has to occur over the keys explored",
    "the noise of noise conditioning is unspecified beyond its scale: judged in the limit of small "
    "scales and, for a linear network, through one unknown perturbation that has to explain "
    "every component of the gradient",
    "float32 tolerance 2e-4 relative to the largest component of the gradient",
    "nothing is claimed about how well a finished network approximates a score (C22)",
]


def bounds(tier):
    return {"data": "n in 1..3, d in 1..3 (all layouts listed), plus n=6",
            "objective": "equations 7 and 8", "vectors per point": "1, 2, 3",
            "generators": "fixed tables, normal, rademacher", "hidden layers": "(), (3,), (4, 2)",
            "batch sizes": "1, 2, 3", "steps": "0..4 (quick), 0..15 (thorough)",
            "noise models": "1, 2, 3, 5 with ratio 0.5, 0.95, 1", "keys": "2 (quick), 10"}


# -- the specification ------------------------------------------------------------------------
def softplus(z):
    return np.logaddexp(0, z)


def sigmoid(z):
    return 1 / (1 + np.exp(-z))


def layers(params):
    return [(np.asarray(params[f"Dense_{i}"]["kernel"], float),
             np.asarray(params[f"Dense_{i}"]["bias"], float)) for i in range(len(params))]


def forward(net, x, v=None):
    """Value at x and directional derivative along v; x, v: (..., d)."""
    s, u = x, (np.zeros_like(x) if v is None else v)
    for i, (w, b) in enumerate(net):
        s, u = s @ w + b, u @ w
        if i < len(net) - 1:
            s, u = softplus(s), u * sigmoid(s)
    return s, u


def objective(net, x, vs, analytic):
    """Mean over the vectors of one point: x (d,), vs (m, d)."""
    s, u = forward(net, np.broadcast_to(x, vs.shape), vs)
    first = (vs * u).sum(-1)
    if analytic:
        return (first + 0.5 * (s * s).sum(-1)).mean()
    return (first + 0.5 * (vs * s).sum(-1) ** 2).mean()


def flat(net):
    return np.concatenate([np.concatenate([w.ravel(), b.ravel()]) for w, b in net])


def unflat(theta, like):
    out, at = [], 0
    for w, b in like:
        nw = theta[at:at + w.size].reshape(w.shape)
        at += w.size
        out.append((nw, theta[at:at + b.size]))
        at += b.size
    return out


def gradient(net, x, vs, analytic, h=1e-5):
    theta = flat(net)
    out = np.empty_like(theta)
    for i in range(len(theta)):
        lo, hi = theta.copy(), theta.copy()
        lo[i] -= h
        hi[i] += h
        out[i] = (objective(unflat(hi, net), x, vs, analytic)
                  - objective(unflat(lo, net), x, vs, analytic)) / (2 * h)
    return out


# -- observation ------------------------------------------------------------------------------
class Recorder:
    """An optimiser (plain or with momentum) that reports every state and gradient it sees."""

    def __init__(self, rate, momentum=0.0):
        self.log = []
        self.rate, self.momentum = rate, momentum
        note = lambda *step: self.log.append(step)  # noqa: E731

        def init(params):
            return jax.tree_util.tree_map(jnp.zeros_like, params)

        def update(grads, state, params=None):
            state = jax.tree_util.tree_map(lambda s, g: self.momentum * s + g, state, grads)
            updates = jax.tree_util.tree_map(lambda s: -self.rate * s, state)
            jax.debug.callback(note, params, grads, updates, ordered=True)
            return updates, state

        self.tx = optax.GradientTransformation(init, update)


class Vectors:
    """A generator of projection vectors that remembers what it handed out."""

    def __init__(self, kind):
        self.kind, self.calls = kind, []

    def __call__(self, key, shape, dtype):
        if self.kind == "table":
            v = jnp.asarray(np.cos(1.7 * np.arange(1, 1 + int(np.prod(shape)))).reshape(shape),
                            jnp.float32)
        elif self.kind == "normal":
            v = jax.random.normal(key, shape, dtype)
        else:
            v = jax.random.rademacher(key, shape, dtype)
        self.calls.append((shape, np.asarray(v, float), np.asarray(jax.random.key_data(key))))
        return v


OBSERVERS = {}


def train(x, seed, **kwargs):
    # shared observers: the same functions, so that the training step is compiled only once
    vkey = kwargs.pop("kind", "table")
    rkey = (kwargs.pop("rate", 0.05), kwargs.pop("momentum", 0.0))
    vectors = OBSERVERS.setdefault(vkey, Vectors(vkey))
    rec = OBSERVERS.setdefault(rkey, Recorder(*rkey))
    vectors.calls, rec.log = [], []
    matcher = cm.SlicedScoreMatching(
        jax.random.key(seed), vectors, optimiser=rec.tx,
        noise_conditioning=kwargs.pop("noise", False), **kwargs)
    fn = matcher.match(jnp.asarray(x, jnp.float32))
    jax.effects_barrier()
    return fn, rec.log, vectors.calls


def run(rec, x, seed, analytic, m, batch, hidden, steps, kind, momentum=0.0):
    n, d = x.shape
    key = f"{n}x{d}:{analytic}:{m}:{batch}:{hidden}:{kind}"
    case = {"data": x, "key": seed, "use_analytic": analytic, "num_random_vectors": m,
            "batch_size": batch, "hidden_dims": hidden, "steps": steps, "generator": kind,
            "momentum": momentum}
    got = rec.call(key, case, train, x, seed, use_analytic=analytic, num_random_vectors=m,
                   batch_size=batch, hidden_dims=hidden, num_epochs=steps, kind=kind,
                   momentum=momentum)
    if got is None:
        return set()
    fn, log, calls = got
    rec.check(len(log) == steps, key, f"{len(log)} updates in {steps} epochs", case)
    if not rec.check(len(calls) == 1 and tuple(calls[0][0]) == (n, m, d), key,
                     f"projection vectors requested: {[c[0] for c in calls]}", case):
        return set()
    vs = calls[0][1]
    net, seen = None, set()
    for k, (params, grads, updates) in enumerate(log):
        here = layers(params)
        widths = [w.shape for w, _ in here]
        dims = (d, *hidden, d)
        if not rec.check(widths == list(zip(dims, dims[1:])), key, f"layers {widths}", case):
            return seen
        if net is not None:
            rec.check(np.allclose(flat(here), net, rtol=1e-5, atol=1e-6), key,
                      f"step {k} does not start from the parameters that step {k - 1} reached",
                      case)
        g = flat(layers(grads))
        singles = [gradient(here, x[i], vs[i], analytic) for i in range(n)]
        best = None
        for combo in itertools.combinations_with_replacement(range(n), batch):
            err = np.abs(np.mean([singles[i] for i in combo], 0) - g).max()
            if best is None or err < best[0]:
                best = (err, combo)
        rec.cover(states=1, transitions=1, traces=1)
        rec.check(best[0] <= 2e-4 * (1 + np.abs(g).max()), key,
                  f"gradient of step {k} is not the gradient of the objective on any batch "
                  f"(off by {best[0]:.3g} of {np.abs(g).max():.3g})", case)
        seen.update(best[1])
        net = flat(here) + flat(layers(updates))
    if log:
        last = unflat(net, layers(log[-1][0]))
        at = np.concatenate([x, x + 0.4])
        want = forward(last, at)[0]
        got = rec.call(key, case, fn, jnp.asarray(at, jnp.float32))
        if got is not None:
            rec.check(np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-4, atol=1e-4),
                      key, "the returned score is not the network of the last parameters", case)
        got = rec.call(key, case, fn, jnp.asarray(at[0], jnp.float32))
        if got is not None:
            rec.check(np.shape(got) == (d,) and np.allclose(got, want[0], rtol=1e-4, atol=1e-4),
                      key, "the returned score is wrong at a single point", case)
    rec.sample(case)
    return seen


LAYOUTS = {
    "one": np.array([[0.7]]), "pair": np.array([[-0.4], [1.1]]),
    "triple": np.array([[0.0], [0.9], [-1.6]]), "plane1": np.array([[0.5, -0.8]]),
    "plane2": np.array([[0.2, 1.0], [-1.1, 0.4]]),
    "plane3": np.array([[0.2, 1.0], [-1.1, 0.4], [0.0, 0.0]]),
    "space": np.array([[0.3, -0.2, 0.9], [1.2, 0.1, -0.5]]),
    "far": np.array([[3.0], [-2.0]]),
    "six": np.array([[0.1], [0.5], [-0.7], [1.3], [-1.9], [2.2]]),
}


def steps(rec, layout, analytic, m, batch, hidden, count, kind, keys, momentum=0.0):
    x = r32(LAYOUTS[layout])
    seen = set()
    for seed in range(keys):
        seen |= run(rec, x, seed, analytic, m, batch, hidden, count, kind, momentum)
    draws = keys * count * batch
    if draws >= 12 * len(x) and not rec.violations:
        rec.check(len(seen) == len(x), f"{layout}:coverage",
                  f"only the points {sorted(seen)} of {len(x)} occur in {draws} draws", {})


def noise_small(rec, layout, analytic, models, ratio, hidden):
    """Small noise: the gradient tends to sum_i (sigma ratio^i)^2 times the plain one."""
    x = r32(LAYOUTS[layout])
    n = len(x)
    sigma = 1e-3
    key = f"noise:{layout}:{analytic}:{models}:{ratio}"
    case = {"data": x, "num_noise_models": models, "gamma": ratio, "sigma": sigma}
    got = rec.call(key, case, train, x, 1, noise=True, use_analytic=analytic, batch_size=1,
                   hidden_dims=hidden, num_epochs=2, num_noise_models=models, sigma=sigma,
                   gamma=ratio, rate=1e4)
    if got is None:
        return
    _, log, calls = got
    vs = calls[0][1]
    factor = sum((sigma * ratio ** i) ** 2 for i in range(models))
    for k, (params, grads, _) in enumerate(log):
        here = layers(params)
        g = flat(layers(grads)) / factor
        errs = [np.abs(gradient(here, x[i], vs[i], analytic) - g).max() for i in range(n)]
        rec.cover(states=1, transitions=1, traces=1)
        rec.check(min(errs) <= 3e-2 * (1 + np.abs(g).max()), key,
                  f"gradient of step {k} is {g.tolist()} (after dividing by the noise weights)",
                  case)


def noise_linear(rec, sigma, analytic, seed):
    """One point on the line, linear network: one perturbation explains the whole gradient."""
    x = r32(np.array([[0.6]]))
    key = f"linear-noise:{sigma}:{analytic}"
    case = {"sigma": sigma, "use_analytic": analytic, "key": seed}
    got = rec.call(key, case, train, x, seed, noise=True, use_analytic=analytic, batch_size=1,
                   hidden_dims=(), num_epochs=2, num_noise_models=1, sigma=sigma, gamma=0.9,
                   rate=0.1)
    if got is None:
        return
    _, log, calls = got
    v = calls[0][1][0, 0, 0]
    for params, grads, _ in log:
        (w, b), = layers(params)
        (gw, gb), = layers(grads)
        w, b, gw, gb = (float(np.ravel(t)[0]) for t in (w, b, gw, gb))
        weight = 1.0 if analytic else v * v
        # d/db: sigma^2 weight (w x' + b);  d/dw: sigma^2 (v^2 + weight (w x' + b) x')
        slope = gb / sigma ** 2 / weight
        moved = (slope - b) / w
        z = (moved - 0.6) / sigma
        want = sigma ** 2 * (v * v + weight * slope * moved)
        rec.cover(states=1, transitions=1, traces=1)
        rec.check(abs(z) < 6, key, f"a perturbation of {z:.3g} standard deviations", case)
        rec.check(abs(gw - want) <= 1e-3 * (1 + abs(want)), key,
                  f"slope gradient {gw} where the bias gradient implies {want}", case)


def whole_runs(rec, seed):
    """Determinism, dependence on the key, no training, and input forms."""
    x = r32(LAYOUTS["plane3"])
    at = jnp.asarray(np.concatenate([x, x - 0.7]), jnp.float32)
    kwargs = dict(use_analytic=True, num_random_vectors=2, batch_size=2, hidden_dims=(3,),
                  kind="normal")
    for count in (0, 2):
        a = rec.call(f"again:{count}", {"key": seed}, train, x, seed, num_epochs=count, **kwargs)
        b = rec.call(f"again:{count}", {"key": seed}, train, x, seed, num_epochs=count, **kwargs)
        c = rec.call(f"again:{count}", {"key": seed}, train, x, seed + 100, num_epochs=count,
                     **kwargs)
        if a is None or b is None or c is None:
            return
        rec.cover(states=3, transitions=3, traces=3)
        ya, yb, yc = (np.asarray(f[0](at)) for f in (a, b, c))
        rec.check(np.array_equal(ya, yb), f"again:{count}", "the same key trains another network",
                  {"key": seed, "epochs": count})
        rec.check(not np.allclose(ya, yc), f"again:{count}",
                  "another key trains the same network", {"key": seed, "epochs": count})
        rec.check(not np.allclose(a[2][0][1], c[2][0][1]), f"again:{count}",
                  "another key draws the same projections", {"key": seed})
        if count == 0:
            first = ya
        else:
            # the first `count` steps are a prefix of the longer path
            rec.check(not np.allclose(ya, first), f"again:{count}", "training changes nothing",
                      {"key": seed})
    # the vectors, the initial network and the data order do not depend on each other's draws
    p = train(x, seed, num_epochs=1, **kwargs)
    q = train(x[::-1].copy(), seed, num_epochs=1, **kwargs)
    rec.check(np.allclose(flat(layers(p[1][0][0])), flat(layers(q[1][0][0]))), "init",
              "the initial network depends on the data", {"key": seed})
    # a one-dimensional array is one point
    one = train(np.array([0.2, 1.0]), seed, num_epochs=1, **kwargs)
    rec.check(tuple(one[2][0][0]) == (1, 2, 2), "vector", "a vector is one point", {"key": seed})


def tasks(tier):
    quick = tier == "quick"
    keys, count = (2, 3) if quick else (10, 15)
    out = []
    combos = []
    for layout in LAYOUTS:
        for analytic in (False, True):
            combos.append((layout, analytic, 2, 1, (3,), "table"))
            combos.append((layout, analytic, 1, 2, (), "normal"))
    for layout in ("pair", "triple", "plane2", "plane3", "space"):
        for analytic in (False, True):
            combos.append((layout, analytic, 3, 3, (4, 2), "rademacher"))
            combos.append((layout, analytic, 1, 1, (4, 2), "normal"))
            if not quick:
                for m, b, h, kind in itertools.product((1, 2, 3), (1, 2, 3), ((), (3,), (4, 2)),
                                                       ("table", "normal")):
                    combos.append((layout, analytic, m, b, h, kind))
    for c in combos:
        out.append(Task("steps/" + "/".join(map(str, c)), steps, *c[:5], count, c[5], keys,
                        cost=5))
    out.append(Task("momentum", steps, "plane2", True, 2, 2, (3,), count, "table", keys, 0.9,
                    cost=5))
    for layout in ("pair", "triple"):  # every point takes part
        out.append(Task(f"coverage/{layout}", steps, layout, True, 1, 6, (), 3, "normal", 3,
                        cost=5))
    for layout in ("pair", "plane2"):
        for analytic in (False, True):
            for models, ratio in itertools.product((1, 2, 3, 5), (0.5, 0.95, 1.0)):
                if quick and (models == 3 or ratio == 1.0):
                    continue
                out.append(Task(f"noise/{layout}/{analytic}/{models}/{ratio}", noise_small,
                                layout, analytic, models, ratio, (3,), cost=2))
    for sigma, analytic in itertools.product((0.1, 0.5, 1.0, 2.0), (False, True)):
        for seed in range(1 if quick else 6):
            out.append(Task(f"linear/{sigma}/{analytic}/{seed}", noise_linear, sigma, analytic,
                            seed, cost=2))
    for seed in range(1 if quick else 10):
        out.append(Task(f"runs/{seed}", whole_runs, seed, cost=8))
    return out
