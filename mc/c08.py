"""C08: random sampling honours its replacement, weighting and range contract."""

from __future__ import annotations

import itertools

from mc.core import Task
from mc.lib import Data, cs, jax, jnp, jr, keys, np, vrun
from coreax.util import sample_batch_indices

ASSUMPTIONS = [
    "frequencies over the enumerated key block are compared with the exact law at 7.5 "
    "standard deviations; every admissible outcome has to occur",
]


def bounds(tier):
    return {"n": "1..6 (and 17, 40)", "sizes": "all", "keys": "4096 quick / 65536 thorough",
            "weights": "{0,1,3}^n up to n=4"}


def law_ok(counts, p, total):
    sd = np.sqrt(total * p * (1 - p))
    return (np.abs(counts - total * p) <= 7.5 * sd + 3).all()


def run_keys(nkeys, n, m, unique, w=None):
    def one(seed):
        d = Data(jnp.arange(n, dtype=jnp.float32), None if w is None else jnp.asarray(w))
        s = cs.RandomSample(m, jr.key(seed), weighted=w is not None, unique=unique)
        c = s.reduce(d)[0]
        return c.unweighted_indices, c.points.data[:, 0], c.points.weights
    return vrun(one, keys(nkeys), size=1 << 20)


def seq_law(n, m, unique, w):
    """Exact probability of every ordered outcome."""
    w = np.ones(n) if w is None else np.asarray(w, float)
    out = {}
    for seq in itertools.product(range(n), repeat=m):
        if unique and len(set(seq)) < m:
            continue
        p, left = 1.0, w.copy()
        for i in seq:
            if left[i] <= 0:
                p = 0.0
                break
            p *= left[i] / left.sum()
            if unique:
                left[i] = 0
        if p > 0:
            out[seq] = p
    return out


def t_sample(rec, n, unique, ms, ws, nkeys):
    for m, w in itertools.product(ms, ws):
        key = f"sample:{n}:{m}:{unique}:{None if w is None else tuple(w)}"
        case = {"n": n, "size": m, "unique": unique, "weights": w}
        res = rec.call(key, case, run_keys, nkeys, n, m, unique, w)
        if res is None:
            continue
        idx, pts, cw = res
        rec.cover(states=nkeys, transitions=nkeys * m, traces=nkeys)
        rec.sample({**case, "first_draws": idx[:3]})
        if not rec.check(idx.shape == (nkeys, m), key, f"shape {idx.shape}", case):
            continue
        rec.check(((idx >= 0) & (idx < n)).all(), key, "index out of range", case)
        rec.check((pts == idx).all(), key, "points are not the drawn rows", case)
        rec.check((cw == 1).all(), key, "selected points are not unit weighted", case)
        if unique:
            s = np.sort(idx, 1)
            rep = (np.diff(s, axis=1) == 0).any(1)
            rec.check(not rep.any(), key, "drew a point twice without replacement",
                      lambda: {**case, "draw": idx[np.flatnonzero(rep)[0]]})
        if n ** m > 300:
            continue
        law = seq_law(n, m, unique, w)
        seqs, counts = np.unique(idx, axis=0, return_counts=True)
        got = {tuple(int(v) for v in s): int(c) for s, c in zip(seqs, counts)}
        for s, c in got.items():
            rec.check(s in law, key, f"impossible draw {s}", case)
        for s, p in law.items():
            c = got.get(s, 0)
            sd = np.sqrt(nkeys * p * (1 - p))
            # no repeats: any order of report is acceptable, so compare selections below
            if not unique and w is None or not unique:
                rec.check(abs(c - nkeys * p) <= 7.5 * sd + 3, key,
                          f"draw {s} occurred {c} times in {nkeys}, expected "
                          f"{nkeys * p:.1f}", case)
        if unique:
            sel, lawsel = {}, {}
            for s, c in got.items():
                k = tuple(sorted(s))
                sel[k] = sel.get(k, 0) + c
            for s, p in law.items():
                k = tuple(sorted(s))
                lawsel[k] = lawsel.get(k, 0) + p
            for k, p in lawsel.items():
                c = sel.get(k, 0)
                sd = np.sqrt(nkeys * p * max(0.0, 1 - p))
                rec.check(abs(c - nkeys * p) <= 7.5 * sd + 3, key,
                          f"selection {k} occurred {c} times in {nkeys}, expected "
                          f"{nkeys * p:.1f}", case)
                if nkeys * p >= 20:
                    rec.check(c > 0, key, f"selection {k} never occurs", case)


def t_batches(rec, n, nkeys):
    for b, k in itertools.product(range(0, n + 1), (1, 2, 3, 5)):
        key = f"batches:{n}:{b}:{k}"
        case = {"max_index": n, "batch_size": b, "num_batches": k}

        def one(seed, b=b, k=k):
            return sample_batch_indices(jr.key(seed), n, b, k)

        out = rec.call(key, case, vrun, one, keys(nkeys), size=1 << 20)
        if out is None:
            continue
        rec.cover(states=nkeys * k, transitions=nkeys * k * b, traces=nkeys)
        if not rec.check(out.shape == (nkeys, k, b), key, f"shape {out.shape}", case):
            continue
        if b == 0:
            continue
        rec.sample({**case, "first": out[0]})
        rec.check(((out >= 0) & (out < n)).all(), key, "index out of range", case)
        s = np.sort(out, -1)
        rec.check(not (np.diff(s, axis=-1) == 0).any(), key,
                  "repeated index within a batch", case)
        for r in range(k):
            # membership law: every index in every batch with probability b/n
            inc = (out[:, r, :, None] == np.arange(n)).any(1).sum(0)
            rec.check(law_ok(inc, np.full(n, b / n), nkeys), key,
                      f"batch {r}: inclusion counts {inc.tolist()} of {nkeys}, expected "
                      f"{nkeys * b / n:.0f} each", case)
        for r1, r2 in itertools.combinations(range(k), 2):
            # independence of batches: joint law of membership
            a = (out[:, r1, :, None] == np.arange(n)).any(1)
            c = (out[:, r2, :, None] == np.arange(n)).any(1)
            joint = (a[:, :, None] & c[:, None, :]).sum(0)
            rec.check(law_ok(joint, np.full((n, n), (b / n) ** 2), nkeys), key,
                      f"batches {r1} and {r2} are not independent", case)
            if b == n and n > 1:
                same = (out[:, r1] == out[:, r2]).all(-1).mean()
                fact = 1.0
                for v in range(2, n + 1):
                    fact *= v
                p = 1 / fact
                rec.check(abs(same - p) <= 7.5 * np.sqrt(p * (1 - p) / nkeys) + 3 / nkeys,
                          key, f"batches {r1} and {r2} coincide with frequency {same}",
                          case)


def t_reject(rec):
    for n, b in itertools.product(range(1, 5), range(-2, 7)):
        case = {"max_index": n, "batch_size": b}
        key = f"reject:{n}:{b}"
        if b > n or b < 0:
            rec.expect_error(key, case, (ValueError,), sample_batch_indices, jr.key(0),
                             n, b, 2)
        else:
            out = rec.call(key, case, sample_batch_indices, jr.key(0), n, b, 2)
            rec.cover(states=1, transitions=1, traces=1)
            if out is not None:
                rec.check(out.shape == (2, b), key, f"shape {out.shape}", case)
    for n in range(1, 5):
        d = Data(jnp.arange(n, dtype=jnp.float32))
        for u in (True, False):
            rec.expect_error(f"reject:size:{n}:{u}", {"n": n, "size": n + 1, "unique": u},
                             (ValueError,),
                             lambda u=u, d=d, n=n: cs.RandomSample(
                                 n + 1, jr.key(1), unique=u).reduce(d))


def tasks(tier):
    quick = tier == "quick"
    nk = 4096 if quick else 65536
    out = []
    for n in range(1, 7):
        for u in (True, False):
            out.append(Task(f"sample:{n}:{u}", t_sample, n, u, range(1, n + 1), [None],
                            nk, cost=n))
    for n in (17, 40):
        out.append(Task(f"sample:{n}", t_sample, n, True, (1, 3, n), [None], nk))
        out.append(Task(f"sample-r:{n}", t_sample, n, False, (1, 3, n), [None], nk))
    for n in (1, 2, 3, 4):
        ws = [w for w in itertools.product((0.0, 1.0, 3.0), repeat=n) if max(w) > 0]
        if quick and n == 4:
            ws = [w for w in ws if sorted(w) == list(w) or w in ((3., 0., 1., 1.),)]
        for i in range(0, len(ws), 5):
            part = ws[i:i + 5]
            for u in (True, False):
                for m in range(1, n + 1):
                    sel = [w for w in part if not u or sum(v > 0 for v in w) >= m]
                    if sel:
                        out.append(Task(f"weighted:{n}:{i}:{u}:{m}", t_sample, n, u, (m,),
                                        sel, nk, cost=2))
    for n in range(1, 7):
        out.append(Task(f"batches:{n}", t_batches, n, nk, cost=n))
    out.append(Task("batches:20", t_batches, 20, 1024, cost=20))
    out.append(Task("reject", t_reject, cost=2))
    return out
