"""C17: datasets and coresets behave as aligned, immutable sequences of weighted points.

Explicit-state breadth-first search: a state is a list of (feature row, response row,
weight) triples, kept by an independent list-based model; every operation of the alphabet is
applied to a real object and to the model in every reachable state (up to the depth bound),
and the observable content of both is compared after every transition.  Operands are
compared with a snapshot after every transition.
"""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import Coresubset, Data, PseudoCoreset, SupervisedData, coreax, jax, jnp, np

as_data, as_supervised_data = coreax.data.as_data, coreax.data.as_supervised_data
ASSUMPTIONS = [
    "states with equal content are explored once (objects hold nothing else)",
    "indices are in range, as JAX indexing requires; weights compared at 2e-6 relative",
]


def bounds(tier):
    return {"depth": 3 if tier == "quick" else 5, "initial": "n 1..4, d 1..3 (and n x d x p), "
            "no/one/two responses, weights none/scalar/zero/array/all-zero/integer",
            "states": "at most 2500 (quick) / 40000 distinct per initial object"}


class Model:
    """A list of rows; features and responses are nested tuples of floats."""

    def __init__(self, xs, ws, ys=None, many=True):
        self.xs, self.ws, self.ys, self.many = list(xs), list(ws), ys, many

    def key(self):
        r = lambda a: tuple(np.round(np.asarray(a, float), 5).ravel().tolist())  # noqa
        return (self.many, np.shape(self.xs), tuple(r(x) for x in self.xs), r(self.ws),
                None if self.ys is None else tuple(r(y) for y in self.ys))

    def take(self, idx):
        return Model([self.xs[i] for i in idx], [self.ws[i] for i in idx],
                     None if self.ys is None else [self.ys[i] for i in idx])

    def one(self, i):
        return Model([self.xs[i]], [self.ws[i]],
                     None if self.ys is None else [self.ys[i]], many=False)

    def reweigh(self, ws):
        return Model(self.xs, ws, self.ys, self.many)

    def normalise(self, preserve):
        tot = float(np.sum(np.asarray(self.ws, np.float64)))
        if tot == 0:
            return self.reweigh([0.0 if preserve else float("nan")] * len(self.ws))
        return self.reweigh([w / tot for w in self.ws])

    def drop_y(self):
        return Model(self.xs, self.ws, None, self.many)


def content(obj):
    out = [np.asarray(obj.data), np.asarray(obj.weights)]
    if isinstance(obj, SupervisedData):
        out.append(np.asarray(obj.supervision))
    return out


def compare(rec, key, obj, model, case):
    """Observable content of a real object against the model."""
    if not rec.check(isinstance(obj, Data), key + ":type", f"got {type(obj).__name__}", case):
        return False
    if not rec.check(isinstance(obj, SupervisedData) == (model.ys is not None), key + ":type",
                     f"got {type(obj).__name__}", case):
        return False
    got = content(obj)
    want = [np.asarray(model.xs, np.float64), np.asarray(model.ws, np.float64)]
    if model.ys is not None:
        want.append(np.asarray(model.ys, np.float64))
    if not model.many:
        want = [w[0] for w in want]
    for name, g, w in zip(("features", "weights", "responses"), got, want):
        if g.shape != w.shape:
            rec.violate(key + ":" + name, f"{name} have shape {g.shape}, expected {w.shape}",
                        case)
            return False
        ok = np.allclose(np.asarray(g, np.float64), w, rtol=2e-6, atol=1e-7, equal_nan=True)
        if not ok:
            rec.violate(key + ":" + name, f"{name} are {g.tolist()}, expected {w.tolist()}",
                        case)
            return False
    if model.many:
        n = len(model.xs)
        rec.check(len(obj) == n, key + ":len", f"len is {len(obj)}, expected {n}", case)
        rec.check(tuple(obj.shape) == want[0].shape, key + ":shape", f"{obj.shape}", case)
        rec.check(obj.dtype == got[0].dtype, key + ":dtype", f"{obj.dtype}", case)
    return True


# ------------------------------------------------------------------------- operations
IDENTITY = jax.jit(lambda d: d)


def index_ops(n):
    """(name, python index, list of selected rows or int)."""
    rows = list(range(n))
    out = [("[0]", 0, 0), ("[-1]", -1, n - 1), ("[jnp 0]", jnp.asarray(0), 0)]
    if n > 1:
        out += [("[1]", 1, 1), ("[-2]", -2, n - 2)]
    for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1),
               slice(None, None, 2), slice(0, 1), slice(-2, None), slice(1, 3)):
        if rows[sl]:
            out.append((f"[{sl.start}:{sl.stop}:{sl.step}]", sl, rows[sl]))
    arrs = [[n - 1, 0], [0, 0, n - 1], rows[::-1], [n // 2], [-1, 0]]
    for a in arrs:
        out.append((f"[array {a}]", jnp.array(a), [i % n for i in a]))
    out.append((f"[numpy {arrs[0]}]", np.array(arrs[0]), [i % n for i in arrs[0]]))
    masks = [[True] * n, [i % 2 == 0 for i in rows], [i == n - 1 for i in rows]]
    for m in masks:
        out.append((f"[mask {m}]", np.array(m), [i for i in rows if m[i]]))
    return out


def operations(obj, model, small):
    """All (name, real thunk, model result) enabled in a state."""
    n = len(model.xs)
    if not model.many:  # a single point: conversions only
        yield "jit", lambda: IDENTITY(obj), model
        return
    for name, key, rows in index_ops(n):
        if isinstance(rows, int):
            yield name, lambda key=key: obj[key], model.one(rows)
        elif len(rows) <= 5:
            yield name, lambda key=key: obj[key], model.take(rows)
    yield "normalize", obj.normalize, model.normalise(False)
    yield ("normalize(preserve)", lambda: obj.normalize(preserve_zeros=True),
           model.normalise(True))
    yield "as_data", lambda: as_data(obj), model
    yield "jit", lambda: IDENTITY(obj), model
    yield "Data(data, weights)", lambda: Data(obj.data, obj.weights), model.drop_y()
    yield "Data(data)", lambda: Data(obj.data), model.drop_y().reweigh([1.0] * n)
    yield "Data(data, 0.5)", lambda: Data(obj.data, 0.5), model.drop_y().reweigh([0.5] * n)
    yield "Data(data, 0)", lambda: Data(obj.data, 0), model.drop_y().reweigh([0.0] * n)
    if n <= 3:
        pad = lambda rows: [np.zeros_like(np.asarray(rows[0]))] * 2  # noqa: E731
        yield ("zero pad 2", lambda: coreax.util.tree_zero_pad_leading_axis(obj, 2),
               Model(model.xs + pad(model.xs), model.ws + [0.0, 0.0],
                     None if model.ys is None else model.ys + pad(model.ys)))
    if model.ys is None:
        if np.ndim(model.xs[0]) == 1:
            yield ("SupervisedData(data, data*2)",
                   lambda: SupervisedData(obj.data, obj.data * 2, obj.weights),
                   Model(model.xs, model.ws, [np.asarray(x) * 2 for x in model.xs]))
            yield ("as_supervised_data tuple",
                   lambda: as_supervised_data((obj.data, obj.data[:, :1] + 1)),
                   Model(model.xs, [1.0] * n, [np.asarray(x)[:1] + 1 for x in model.xs]))
    else:
        yield "as_supervised_data", lambda: as_supervised_data(obj), model
        yield ("swap", lambda: SupervisedData(obj.supervision, obj.data, obj.weights),
               Model(model.ys, model.ws, model.xs))
    # coresets: the points of a coreset are data again
    idxs = [[0], [n - 1, 0][: max(1, min(2, n))], list(range(n))[::-1], [0] * n]
    for idx in idxs[: 2 if small else 4]:
        sel = model.take(idx)
        yield (f"Coresubset({idx})",
               lambda idx=idx: coreset_points(Coresubset(Data(jnp.array(idx)), obj), obj, idx,
                                              None),
               sel.reweigh([1.0] * len(idx)))
        wts = [0.25 + i for i in range(len(idx))]
        yield (f"Coresubset.build({idx}, weights)",
               lambda idx=idx, wts=wts: coreset_points(
                   Coresubset.build(Data(jnp.array(idx)[:, None], jnp.array(wts)), obj), obj,
                   idx, wts), sel.reweigh(wts))
    yield ("Coresubset.build(array)", lambda: coreset_points(
        Coresubset.build(jnp.array([n - 1]), obj), obj, [n - 1], None),
        model.take([n - 1]).reweigh([1.0]))
    yield ("PseudoCoreset", lambda: pseudo_points(PseudoCoreset(obj, obj), obj, obj), model)
    yield ("PseudoCoreset.build", lambda: pseudo_points(
        PseudoCoreset.build(obj.data[:1] + 3, obj), obj, None),
        Model([np.asarray(model.xs[0]) + 3], [1.0]))


class BadCoreset(Exception):
    """A coreset's own attributes are inconsistent."""


def same(a, b):
    return all(np.array_equal(p, q, equal_nan=True) for p, q in zip(content(a), content(b)))


def coreset_points(coreset, original, idx, wts):
    if len(coreset) != len(idx):
        raise BadCoreset(f"len {len(coreset)} for indices {idx}")
    if np.asarray(coreset.unweighted_indices).tolist() != list(idx):
        raise BadCoreset(f"indices {np.asarray(coreset.unweighted_indices).tolist()}")
    if not np.allclose(coreset.indices.weights, 1.0 if wts is None else wts):
        raise BadCoreset(f"index weights {coreset.indices.weights}")
    if type(coreset.pre_coreset_data) is not type(original) or not same(
            coreset.pre_coreset_data, original):
        raise BadCoreset("attached dataset differs from the supplied one")
    return coreset.points


def pseudo_points(coreset, original, nodes):
    if not same(coreset.pre_coreset_data, original):
        raise BadCoreset("attached dataset differs from the supplied one")
    if nodes is not None and not same(coreset.points, nodes):
        raise BadCoreset("points differ from the nodes")
    return coreset.points


def explore(rec, obj, model, depth, cap):
    start = (obj, model, ())
    if not compare(rec, "init", obj, model, {"content": content(obj)}):
        return
    seen = {model.key()}
    frontier = [start]
    for level in range(depth):
        nxt = []
        for cur, mod, path in frontier:
            before = [c.copy() for c in content(cur)]
            for name, thunk, expected in operations(cur, mod, small=len(mod.xs) > 2):
                case = {"path": list(path) + [name], "before": before}
                rec.cover(transitions=1, traces=1)
                res = rec.call(f"op:{name}", case, thunk)
                if res is None:
                    return
                if not compare(rec, f"op:{name.split('(')[0]}", res, expected, case):
                    return
                if not rec.check(all(np.array_equal(a, b, equal_nan=True) for a, b in
                                     zip(before, content(cur))), f"mutation:{name}",
                                 "the operand changed", case):
                    return
                k = expected.key()
                if k not in seen and not np.isnan(np.asarray(expected.ws, float)).any():
                    if len(seen) >= cap:
                        rec.exhaustive = False
                        continue
                    seen.add(k)
                    nxt.append((res, expected, path + (name,)))
        frontier = nxt
        if not frontier:
            break
    rec.cover(states=len(seen))
    rec.sample({"initial": before if not frontier else content(obj), "states": len(seen),
                "deepest": list(frontier[-1][2]) if frontier else []})


def initials():
    """Every construction form: (name, real thunk, model)."""
    out = []

    def add(name, thunk, xs, ws, ys=None):
        out.append((name, thunk, Model(xs, ws, ys)))

    for n in (1, 2, 3, 4):
        vec = np.round(np.linspace(-1.0, 2.0, n), 3).astype(np.float32)
        rows = [np.array([v]) for v in vec]
        add(f"vector{n}", lambda vec=vec: Data(jnp.array(vec)), rows, [1.0] * n)
        for d in (1, 2, 3):
            mat = (np.arange(n * d).reshape(n, d) * 0.5 - 1).astype(np.float32)
            rows = list(mat)
            j = jnp.array(mat)
            arr = [0.0, 2.0, 0.5, 3.0][:n]
            for wname, w, wl in (("none", None, [1.0] * n), ("scalar", 2.5, [2.5] * n),
                                 ("zero", 0, [0.0] * n), ("zerof", 0.0, [0.0] * n),
                                 ("array", jnp.array(arr), arr),
                                 ("ints", jnp.arange(n), list(range(n))),
                                 ("0d", jnp.asarray(0.75), [0.75] * n),
                                 ("numpy", np.array(arr, np.float32), arr)):
                if d != 2 and wname not in ("none", "array"):
                    continue
                add(f"matrix{n}x{d}/{wname}", lambda j=j, w=w: Data(j, w), rows, wl)
                ysc = (np.arange(n) * 1.5 + 10).astype(np.float32)
                add(f"sup{n}x{d}/{wname}",
                    lambda j=j, w=w, ysc=ysc: SupervisedData(j, jnp.array(ysc), w), rows, wl,
                    [np.array([y]) for y in ysc])
        ymat = (np.arange(2 * n).reshape(n, 2) + 20).astype(np.float32)
        add(f"sup{n}/two responses", lambda vec=vec, ymat=ymat, n=n: SupervisedData(
            jnp.array(vec), jnp.array(ymat), jnp.arange(n) + 1.0),
            [np.array([v]) for v in vec], [i + 1.0 for i in range(n)], list(ymat))
        ints = np.arange(n * 2).reshape(n, 2)
        add(f"ints{n}", lambda ints=ints: Data(jnp.array(ints)), list(ints), [1.0] * n)
        ten = (np.arange(n * 4).reshape(n, 2, 2) * 0.25).astype(np.float32)
        add(f"tensor{n}", lambda ten=ten: Data(jnp.array(ten), 3.0), list(ten), [3.0] * n)
    add("python float", lambda: Data(1.5), [np.array([1.5])], [1.0])
    add("python int", lambda: Data(3, 2.0), [np.array([3])], [2.0])
    add("0d", lambda: Data(jnp.asarray(0.25)), [np.array([0.25])], [1.0])
    add("sup scalar", lambda: SupervisedData(jnp.asarray(0.25), jnp.asarray(4.0)),
        [np.array([0.25])], [1.0], [np.array([4.0])])
    add("as_data(vector)", lambda: as_data(jnp.array([1.0, 2.0])),
        [np.array([1.0]), np.array([2.0])], [1.0, 1.0])
    return out


INITIALS = 120  # an upper bound on len(initials())


def explore_task(rec, lo, hi, depth, cap):
    forms = initials()
    assert len(forms) <= INITIALS
    for name, thunk, model in forms[lo:hi]:
        obj = rec.call(f"construct:{name}", {"form": name}, thunk)
        deep = (name.endswith(("x2/array", "two responses")) or name[:3] in ("vec", "ten"))
        if obj is not None:
            explore(rec, obj, model, depth if deep and len(model.xs) < 4 else depth - 1, cap)


def arrays(rec):
    """Conversion to arrays: features, or features and responses side by side."""
    for n, d, p in itertools.product((1, 2, 3), (1, 2), (1, 2)):
        x = np.arange(n * d).reshape(n, d).astype(np.float32)
        y = np.arange(n * p).reshape(n, p).astype(np.float32) + 50
        w = np.arange(n) + 0.5
        for obj, want in ((Data(jnp.array(x), jnp.array(w)), x),
                          (SupervisedData(jnp.array(x), jnp.array(y), jnp.array(w)),
                           np.hstack([x, y]))):
            rec.cover(states=1, transitions=2, traces=2)
            rec.check(np.array_equal(jnp.asarray(obj), want), "asarray", "wrong array",
                      {"n": n, "d": d, "p": p, "type": type(obj).__name__})
            rec.check(np.array_equal(jnp.sum(jnp.asarray(obj), 0), want.sum(0)), "sum",
                      "wrong array", {"n": n, "d": d, "p": p})
            leaves = jax.tree_util.tree_leaves(obj)
            rec.check(all(len(leaf) == n for leaf in leaves), "leaves",
                      "leaves do not share the leading axis", {"n": n, "d": d, "p": p})
            # mapping over points gives each point its own weight (and response)
            f = lambda o: o.data.sum() * 100 + o.weights  # noqa: E731
            got = jax.vmap(f)(obj)
            rec.check(np.allclose(got, x.sum(1) * 100 + w), "vmap",
                      "mapping over the points mixed up rows and weights",
                      {"n": n, "d": d, "p": p})
    for n in (2, 3):  # a stack of datasets, as used by map-reduce
        x = np.arange(2 * n).reshape(n, 2).astype(np.float32)
        d = Data(jnp.array(x), jnp.arange(n) + 1.0)
        idx = jnp.array([[0, n - 1], [n - 1, 0]])
        st = d[idx]
        rec.cover(states=1, transitions=1, traces=1)
        rec.check(np.array_equal(st.data, x[np.asarray(idx)])
                  and np.array_equal(st.weights, (np.arange(n) + 1.0)[np.asarray(idx)]),
                  "stack", "indexing by a matrix of indices", {"n": n})


def frozen(rec):
    """Attributes cannot be assigned."""
    d = Data(jnp.arange(3.0))
    s = SupervisedData(jnp.arange(3.0), jnp.arange(3.0))
    c = Coresubset(Data(jnp.array([0, 1])), d)
    p = PseudoCoreset(Data(jnp.arange(2.0)), d)
    for obj, names in ((d, ("data", "weights")), (s, ("data", "supervision", "weights")),
                       (c, ("indices", "points", "pre_coreset_data", "_indices")),
                       (p, ("points", "pre_coreset_data", "_nodes"))):
        for name in names:
            rec.expect_error(f"frozen:{type(obj).__name__}.{name}", {"attribute": name},
                             (AttributeError, TypeError), setattr, obj, name, jnp.zeros(3))


def rejections(rec):
    x, y = jnp.arange(6.0).reshape(3, 2), jnp.arange(3.0)
    d = Data(x)
    for bad in (jnp.arange(2.0), jnp.arange(4.0), jnp.ones((2, 3)), jnp.ones((1, 3))):
        rec.expect_error("supervision-mismatch", {"shape": bad.shape}, ValueError,
                         SupervisedData, x, bad)
        rec.expect_error("supervision-mismatch", {"shape": bad.shape}, ValueError,
                         as_supervised_data, (x, bad))
    for bad in (jnp.ones(2), jnp.ones(4), jnp.ones((3, 2))):
        rec.expect_error("weights-mismatch", {"shape": bad.shape}, (ValueError, TypeError),
                         Data, x, bad)
    sup = SupervisedData(x, y)
    for pre in (d, sup):
        for m in (4, 5, 9):
            idx = Data(jnp.zeros(m, int))
            rec.expect_error("coresubset-too-large", {"m": m}, ValueError, Coresubset, idx, pre)
            rec.expect_error("coresubset-too-large", {"m": m}, ValueError, Coresubset.build,
                             jnp.zeros(m, int), pre)
            rec.expect_error("pseudo-too-large", {"m": m}, ValueError, PseudoCoreset,
                             Data(jnp.zeros((m, 2))), pre)
            rec.expect_error("pseudo-too-large", {"m": m}, ValueError, PseudoCoreset.build,
                             jnp.zeros((m, 2)), pre)
        rec.expect_error("coresubset-array-indices", {}, TypeError, Coresubset,
                         jnp.array([0]), pre)
        rec.expect_error("pseudo-array-nodes", {}, TypeError, PseudoCoreset,
                         jnp.zeros((1, 2)), pre)
    for cls, first in ((Coresubset, Data(jnp.array([0]))), (PseudoCoreset, Data(x[:1]))):
        for bad in (x, (x, y), None, [1.0]):
            rec.expect_error(f"{cls.__name__}-array-data", {"type": type(bad).__name__},
                             TypeError, cls, first, bad)
        rec.expect_error(f"{cls.__name__}-positional", {}, TypeError, cls, first)
    # the building forms that are documented
    for pre, want in ((x, Data), ((x, y), SupervisedData), (d, Data), (sup, SupervisedData)):
        for idx in (jnp.array([2, 0]), Data(jnp.array([2, 0]), jnp.array([0.5, 2.0]))):
            c = rec.call("coresubset-build", {}, Coresubset.build, idx, pre)
            if c is None:
                continue
            rec.cover(states=1, transitions=1, traces=1)
            w = [0.5, 2.0] if isinstance(idx, Data) else [1.0, 1.0]
            rec.check(type(c.points) is want and np.array_equal(c.points.data, x[
                jnp.array([2, 0])]) and np.allclose(c.points.weights, w)
                and (want is Data or np.array_equal(c.points.supervision, [[2.0], [0.0]])),
                "coresubset-build", "points, responses or weights differ",
                {"pre": want.__name__})
            p = rec.call("pseudo-build", {}, PseudoCoreset.build, x[:2] + 1, pre)
            rec.check(p is not None and np.array_equal(p.points.data, x[:2] + 1)
                      and type(p.pre_coreset_data) is want, "pseudo-build",
                      "nodes or attached dataset differ", {"pre": want.__name__})
    # exactly as many points as data is allowed
    rec.call("coresubset-full", {}, Coresubset, Data(jnp.array([2, 1, 0])), d)
    rec.call("pseudo-full", {}, PseudoCoreset, Data(x), d)


def tasks(tier):
    depth, cap = (3, 2500) if tier == "quick" else (5, 40000)
    step = 2 if tier == "quick" else 1
    total = INITIALS  # counted, not built: JAX must not start before the workers fork
    out = [Task(f"explore/{lo}", explore_task, lo, lo + step, depth, cap,
                cost=5 + (lo % 7)) for lo in range(0, total, step)]
    out += [Task("arrays", arrays, cost=6), Task("frozen", frozen, cost=1),
            Task("rejections", rejections, cost=6)]
    return out
