"""Reference transition relation of the greedy selection solvers.

State: the sequence of entries currently held.  A step is legal if the chosen entry is
admissible and its objective is within `tol` of the best admissible objective; ties are
therefore non-deterministic and every tie-break of the implementation is accepted.
"""

from __future__ import annotations

import numpy as np

from mc.lib import first_bad


def _held_mask(n, cols):
    """(B, n) mask of the indices in cols (B, k)."""
    b, k = cols.shape
    out = np.zeros((b, n), bool)
    if k:
        out[np.repeat(np.arange(b), k), cols.ravel()] = True
    return out


def held_sum(kmat, cols):
    """sum_j K[:, cols_j] for each batch entry: (B, n)."""
    b = np.arange(len(kmat))[:, None]
    if cols.shape[1] == 0:
        return np.zeros(kmat.shape[:2])
    return kmat[b, :, cols].sum(1)


def check_steps(rec, key, objective, kmat, weights, idx, unique, tol, start=None,
                case=None, clip_first=False, quiet=False):
    """
    Check every step of a batch of runs.

    objective(t, similarity, size) -> (B, n) array to be MAXIMISED, where similarity is
    the summed kernel similarity to the entries held apart from the one being chosen.
    Returns (ok, ambiguous) masks over the batch: ambiguous runs had a tie somewhere.
    """
    bsz, m = idx.shape
    n = kmat.shape[1]
    if start is None:
        start = np.zeros((bsz, 0), int)
    if clip_first:
        start = start[:, :m]
    s = start.shape[1]
    rows = np.arange(bsz)
    ok = np.ones(bsz, bool)
    tie = np.zeros(bsz, bool)
    live = np.ones(bsz, bool)  # runs whose admissible set has not been exhausted
    in_range = ((idx >= 0) & (idx < n)).all(1)
    if not in_range.all():
        i = first_bad(in_range)
        if not quiet:
            rec.violate(key, f"index out of range: {idx[i].tolist()} (n={n})",
                        case(i) if case else None)
        ok &= in_range
        live &= in_range
        idx = np.where((idx >= 0) & (idx < n), idx, 0)
    steps = 0
    for t in range(m):
        others = np.concatenate([idx[:, :t], start[:, t + 1:]], 1)
        size = max(s, t + 1) if s else t + 1
        sim = held_sum(kmat, others)
        obj = objective(t, sim, size)
        admissible = weights > 0
        strict = admissible.copy()
        if unique:
            chosen = _held_mask(n, idx[:, :t])
            later = _held_mask(n, start[:, t + 1:])
            admissible &= ~chosen
            strict &= ~chosen & ~later
            if t < s:
                # a repeated entry of the start may stay while it is being replaced
                same = np.zeros((bsz, n), bool)
                same[rows, start[:, t]] = True
                admissible &= ~(later & ~same)
            else:
                admissible &= ~later
        live &= strict.any(1)
        masked = np.where(strict, obj, -np.inf)
        best = masked.max(1)
        val = obj[rows, idx[:, t]]
        legal = admissible[rows, idx[:, t]]
        good = legal & (val >= best - tol)
        bad = live & ~good
        steps += int(live.sum())
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            ok &= ~bad
            if not quiet:
                why = ("is not admissible" if not legal[i] else
                       f"has objective {val[i]:.7g}, best admissible is {best[i]:.7g} "
                       f"at {int(masked[i].argmax())}")
                rec.violate(key, f"step {t}: chosen index {int(idx[i, t])} {why}; run "
                            f"{idx[i].tolist()} (unique={unique}, "
                            f"start={start[i].tolist()})", case(i) if case else None)
            live &= ~bad
        second = np.sort(masked, 1)[:, -2:] if n > 1 else None
        if second is not None:
            tie |= (second[:, 1] - second[:, 0]) <= 4 * tol
    rec.cover(states=bsz * (m + 1), transitions=steps, traces=bsz)
    return ok, tie


def herding_objective(kmat, wn):
    mean = np.einsum("bij,bj->bi", kmat, wn)
    return lambda t, sim, size: mean - sim / size


def herding_tol(kmat):
    return 1e-5 * max(1.0, float(np.abs(kmat).max()))
