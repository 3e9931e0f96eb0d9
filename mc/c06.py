"""C06: refinement is stepwise optimal and never degrades the objective.

Refinement is a deterministic function on coresubsets.  For every dataset of the domain
the complete state graph (every coresubset of the size as a state, refinement as the
transition) is computed with the real code and every edge is checked.
"""

from __future__ import annotations

import itertools

from mc import c04, c09
from mc.core import Task
from mc.greedy import check_steps, herding_objective, herding_tol
from mc.lib import (P2, V3, V4, Coresubset, Data, SupervisedData, cs, family, imq, jnp, jr, keys,
                    laplace, linear, mmd2, multisets, norm_weights, np, r32, se, tuples,
                    vrun, weyl)

ASSUMPTIONS = [
    "float32 tolerance 1e-5*max|k| per step, 2e-6*max|k| on the squared discrepancy",
    "starting coresubsets have unit weights and hold positively weighted points",
    "monotone discrepancy: kernels with constant diagonal; with unique=True, starts "
    "without repeats (a forced de-duplication may increase the discrepancy)",
]
KERNELS = {"se": se(0.8, 1.3), "imq": imq(1.1, 0.7), "lap": laplace(0.9, 1.0),
           "lin": linear(0.6, 0.4)}


def bounds(tier):
    return {"states": "every start of every length 1..n over all index tuples, n<=4 "
            "(quick) / 5 (thorough); full functional graph per dataset",
            "datasets": "multisets of lattice points, three weightings"}


def starts(n, s, distinct=False):
    return np.array([t for t in itertools.product(range(n), repeat=s)
                     if not distinct or len(set(t)) == s], int).reshape(-1, s)


def product_space(x, w, st):
    """Every (dataset, start) pair."""
    b, k = len(x), len(st)
    return np.repeat(x, k, 0), np.repeat(w, k, 0), np.tile(st, (b, 1))


def datasets(name):
    xs = {"v4n3": multisets(V4, 3), "v3n3o": tuples(V3, 3), "v4n4": multisets(V4, 4),
          "p2n4": multisets(P2, 4), "v3n4": multisets(V3, 4), "v3n5": multisets(V3, 5),
          "v4n2": tuples(V4, 2), "v4n5": multisets(V4, 5)}[name]
    n = xs.shape[1]
    pat = np.stack([np.ones(n), 1.0 + np.arange(n) % 3, 0.25 + 2.0 * (np.arange(n) == 0)])
    x, w = np.repeat(xs, len(pat), 0), np.tile(pat, (len(xs), 1))
    return r32(x), r32(w)


def refine_all(rec, key, make, x, w, st, kind="data", iters=1, case=None):
    def run(xi, wi, si):
        d = (SupervisedData(xi, jnp.cos(xi[:, :1]), wi) if kind == "sup"
             else Data(xi, wi))
        c = Coresubset(Data(si), d)
        for _ in range(iters):
            c, _ = make().refine(c)
        return c.unweighted_indices
    return rec.call(key, case(0) if case else None, vrun, run, x, w,
                    st.astype(np.int32))


def t_herd(rec, dname, kname, s, m, unique, kind="data"):
    """Every start of length s refined to size m."""
    kern = KERNELS[kname]
    x0, w0 = datasets(dname)
    n = x0.shape[1]
    x, w, st = product_space(x0, w0, starts(n, s))
    case = lambda i: {"x": x[i], "weights": w[i], "start": st[i], "size": m,  # noqa
                      "kernel": kern.name, "unique": unique}
    key = f"herding:{dname}:{kname}:{s}->{m}:{unique}"
    idx = refine_all(rec, key, lambda: cs.KernelHerding(m, kern.make(), unique=unique),
                     x, w, st, kind, case=case)
    if idx is None or not rec.check(idx.shape == (len(x), m), key,
                                    f"size {idx.shape[1:]} instead of {m}", case(0)):
        return
    rec.sample(case(len(x) // 3))
    kmat, wn = kern(x, x), norm_weights(w)
    args = (herding_objective(kmat, wn), kmat, w, idx, unique, herding_tol(kmat))
    if s > m:
        # surplus entries may be dropped before or after the pass
        ok1, _ = check_steps(rec, key, *args, start=st, quiet=True)
        ok2, _ = check_steps(rec, key, *args, start=st, clip_first=True, quiet=True)
        if not (ok1.all() or ok2.all()):
            check_steps(rec, key, *args, start=st, case=case)
    else:
        check_steps(rec, key, *args, start=st, case=case)
    if unique and m <= n:
        srt = np.sort(idx, 1)
        rep = (np.diff(srt, axis=1) == 0).any(1)
        if rep.any():
            i = int(np.flatnonzero(rep)[0])
            rec.violate(key, f"unique refinement returned {idx[i].tolist()}", case(i))
    if s == m and kern.const_diag:
        tol = 2e-6 * float(np.abs(kmat).max())
        before, after = mmd2(kmat, wn, st), mmd2(kmat, wn, idx)
        dist = np.array([len(set(t)) == s for t in st.tolist()])
        rel = dist if unique else np.ones(len(st), bool)
        bad = rel & (after > before + tol)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            rec.violate(key, f"discrepancy^2 rose from {before[i]:.7g} to "
                        f"{after[i]:.7g}: {st[i].tolist()} -> {idx[i].tolist()}", case(i))
        # functional graph: follow refinement from every state until it cycles
        k = n ** s
        if len(starts(n, s)) == k:
            code = (idx * n ** np.arange(s)[::-1]).sum(1).reshape(len(x0), k)
            val = after.reshape(len(x0), k)
            vst = before.reshape(len(x0), k)
            cur = code.copy()
            rows = np.arange(len(x0))[:, None]
            for _ in range(k):  # enough to enter the cycle of every state
                nxt = code[rows, cur]
                if (nxt == cur).all():
                    break
                cur = nxt
            # on the cycle the discrepancy is constant
            drift = np.abs(vst[rows, code[rows, cur]] - vst[rows, cur]) > 2 * tol
            rec.cover(states=code.size, graph_states=code.size)
            if drift.any():
                i, j = np.argwhere(drift)[0]
                rec.violate(key, "repeated refinement does not settle: the discrepancy "
                            "still changes on a cycle", {"x": x0[i], "w": w0[i],
                                                         "start": int(j)})
            del val


def t_herd_family(rec, n, d, m, iters):
    kern = KERNELS["se"] if n % 2 else KERNELS["imq"]
    xs = r32(family(n, d))
    x = np.repeat(xs, 6, 0)
    w = np.tile(np.stack([np.ones(n), 1.0 + np.arange(n) % 3]), (len(xs) * 3, 1))
    base = np.arange(n)
    st = np.stack([np.roll(base * 1, r)[:m] for r in (0, 0, 3, 3, 5, 5)])
    st = np.tile(st, (len(xs), 1))
    for unique in (True, False):
        key = f"herding-family:{n}:{d}:{m}:{unique}"
        case = lambda i: {"x": x[i], "w": w[i], "start": st[i]}  # noqa: E731
        cur = st
        prev = None
        for _ in range(iters):
            idx = refine_all(rec, key, lambda: cs.KernelHerding(
                m, kern.make(), unique=unique), x, w, cur, case=case)
            if idx is None:
                return
            kmat, wn = kern(x, x), norm_weights(w)
            check_steps(rec, key, herding_objective(kmat, wn), kmat, w, idx, unique,
                        herding_tol(kmat), start=cur, case=case)
            v = mmd2(kmat, wn, idx)
            if prev is None:
                prev = mmd2(kmat, wn, cur)
            bad = v > prev + 2e-6
            rec.check(not bad.any(), key, "discrepancy increased by refinement",
                      lambda: case(int(np.flatnonzero(bad)[0])))
            prev, cur = v, idx


def t_iterated(rec, unique, seed, nkeys):
    """Iterated probabilistic herding: one temperature and fresh draws per iteration."""
    n, m = 5, 2
    kern = KERNELS["se"]
    x = r32(weyl(n, 2, seed=seed))
    kmat = kern(x[None], x[None])
    wn = np.full((1, n), 1 / n)
    all_starts = starts(n, m, distinct=unique)
    ks = keys(nkeys)
    cold, hot = 1e-6, 1e6

    def final(temps, own=1.0):
        def run(key):
            solver = cs.KernelHerding(m, kern.make(), unique=unique, probabilistic=True,
                                      temperature=own, random_key=jr.key(key))
            c, _ = solver.reduce_iterative(
                Data(x), num_iterations=abs(len(temps)),
                t_schedule=None if own != 1.0 else jnp.asarray(temps))
            return c.unweighted_indices
        return rec.call("iterated", {"temperatures": temps, "unique": unique}, vrun, run, ks)

    def greedy_from_some_start(idx):
        """Is each row the result of a greedy pass from some coresubset?"""
        uniq, inv = np.unique(idx, axis=0, return_inverse=True)
        fine = []
        for row in uniq:
            rep = np.tile(row, (len(all_starts), 1))
            b = len(all_starts)
            km = np.repeat(kmat, b, 0)
            ok, _ = check_steps(rec, "iterated", herding_objective(km, np.repeat(wn, b, 0)), km,
                                np.ones((b, n)), rep, unique, herding_tol(km),
                                start=all_starts, quiet=True)
            fine.append(ok.any())
        return np.array(fine)[inv.ravel()]

    cells = len(starts(n, m, distinct=unique))

    def uniform(idx, what, temps):
        codes = idx[:, 0] * n + idx[:, 1]
        counts = np.bincount(codes, minlength=n * n)
        wanted = np.array([(a != b or not unique) for a in range(n) for b in range(n)])
        p = wanted / cells
        dev = np.abs(counts - nkeys * p) / np.sqrt(np.maximum(nkeys * p * (1 - p), 1e-9))
        rec.check((dev <= 7.5).all(), "iterated", f"{what}: outcome frequencies "
                  f"{counts.tolist()} of {nkeys} keys are not uniform", {"temperatures": temps})

    base = None
    for temps in ([hot], [cold, hot], [hot, cold], [hot, hot], [hot, hot, cold],
                  [cold, cold, hot], [hot, cold, hot]):
        idx = final(temps)
        if idx is None:
            return
        rec.cover(states=nkeys, transitions=nkeys * len(temps), traces=nkeys)
        if temps[-1] == cold:
            ok = greedy_from_some_start(idx)
            rec.check(ok.all(), "iterated", f"the last, cold, iteration returned "
                      f"{idx[int(np.argmin(ok))].tolist()}, which no greedy pass returns",
                      {"temperatures": temps, "unique": unique, "data": x})
        else:
            uniform(idx, "last iteration hot", temps)
        if len(temps) == 1:
            base = idx
        elif temps == [hot, hot]:
            same = (idx == base).all(1).mean()
            rec.check(same <= 1 / cells + 7.5 * np.sqrt(1 / cells / nkeys), "iterated",
                      f"the second iteration repeats the draws of the first ({same:.2f})",
                      {"unique": unique})
    for own, temps in ((cold, [0, 0]), (hot, [0, 0])):  # no schedule: the solver's temperature
        idx = final(temps, own)
        if idx is None:
            return
        rec.cover(states=nkeys, transitions=2 * nkeys, traces=nkeys)
        if own == cold:
            rec.check(greedy_from_some_start(idx).all(), "iterated",
                      "a cold solver did not iterate greedily", {"unique": unique})
        else:
            uniform(idx, "hot solver", temps)


def t_stein(rec, dname, conf, s, m, unique):
    """Stein thinning refinement from every start of length s."""
    x0, w0 = datasets(dname)
    x, w, st = product_space(x0, w0, starts(x0.shape[1], s))
    c04.check_stein(rec, f"stein:{dname}:{conf}:{s}->{m}:{unique}", conf, x, w, m,
                    unique, start=st)


def tasks(tier):
    out = []
    quick = tier == "quick"
    sets = [("v4n3", 3), ("v4n4", 4), ("p2n4", 4)]
    if not quick:
        sets += [("v3n3o", 3), ("v3n5", 5), ("v3n4", 4), ("v4n5", 5)]
    for dname, n in sets:
        for s in range(1, n + 1):
            for m in range(1, n + 1):
                if quick and n == 4 and abs(s - m) > 2:
                    continue
                for u in (True, False):
                    ks = ["se"]
                    if s == m and (dname != "p2n4" or not quick):
                        ks = ["se", "imq", "lin"] if quick else list(KERNELS)
                    if s > 3 and n > 4 and quick:
                        continue
                    for k in ks:
                        out.append(Task(f"herd:{dname}:{k}:{s}-{m}:{u}", t_herd, dname,
                                        k, s, m, u, cost=n ** s / 100 + 1))
    out.append(Task("herd:sup", t_herd, "v4n3", "se", 2, 2, True, "sup"))
    for n, d, m in [(7, 2, 3), (10, 1, 6), (16, 3, 5), (40, 2, 12)]:
        out.append(Task(f"herd-family:{n}", t_herd_family, n, d, m, 4, cost=4))
    if not quick:
        for n in range(5, 30):
            out.append(Task(f"herd-family:{n}:3", t_herd_family, n, 3, n // 2 + 1, 12))
    for u in (True, False):
        for seed in range(2 if quick else 8):
            out.append(Task(f"iterated:{u}:{seed}", t_iterated, u, seed,
                            1024 if quick else 8192, cost=6))
    for conf in ("se:gauss:reg0.5", "imq:gauss:noreg", "se:kde:reg0.5", "imq:kde:noreg",
                 "se:kde:regdef"):
        for s, m in ([(2, 2), (1, 3), (3, 3), (3, 2), (2, 3)] if quick else
                     [(a, b) for a in (1, 2, 3, 4) for b in (1, 2, 3, 4)]):
            for u in (True, False):
                out.append(Task(f"stein:{conf}:{s}-{m}:{u}", t_stein,
                                "v4n3" if max(s, m) <= 3 else "v4n4", conf, s, m, u,
                                cost=4))
    # regression refinement: the objective is the kernel ridge regression loss
    for m in (2, 3):
        for length in (1, 2, 3):
            for cb in (None, 1):
                out.append(Task(f"gkp:{m}:{length}:{cb}", c09.t_refine, "small", "se", m,
                                0.1, False, length, cb, cost=4))
            out.append(Task(f"gkp:{m}:{length}:u", c09.t_refine, "weyl4", "imq", m, -0.1,
                            True, length, None, cost=4))
    return out
