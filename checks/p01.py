"""P01: DTW returns the optimum over admissible alignments and one attaining it."""
import numpy as np

from vmon import gen, ref
from vmon.core import W
from vmon.util import draw_far, draw_long, draw_pair_with_constraint, scale_of, views


def _value_ok(c, got2, C, inner, outer, what, slack=0.):
    """got2 (a cost) lies between the optimum of the outer and inner region."""
    lo, hi = ref.align_min(C, outer), ref.align_min(C, inner)
    tol = 1e-9 * (1 + abs(hi)) + 1e-9 * float(np.max(np.abs(C))) + slack
    return c.ok(lo - tol <= got2 <= hi + tol, what, got=got2, optimum_outer=lo, optimum_inner=hi)


def dtw_value_and_path(c):
    from tslearn.metrics import dtw, dtw_path
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c)
    A, fa = gen.reform(c.rng, a)
    B, fb = gen.reform(c.rng, b)
    c.note(forms=[fa, fb])
    be = c.choice([None, None, "numpy"])
    C = ref.sqdist(a, b)
    v = float(dtw(A, B, be=be, **kw))
    path, v2 = dtw_path(A, B, be=be, **kw)
    _value_ok(c, v * v, C, inner, outer, "dtw is the optimum over admissible alignments")
    c.close(float(v2), v, "dtw_path returns the value of dtw", rtol=1e-9, atol=1e-9)
    prob = ref.path_problem(path, len(a), len(b), outer)
    if c.ok(prob is None, "dtw_path is an admissible alignment", problem=prob, path=path):
        c.close(np.sqrt(ref.path_cost(path, C)), float(v2), "alignment attains the value",
                rtol=1e-7, atol=1e-7 * scale_of(a, b))
    c.cover(len(a), len(b), a.shape[1], kind, kw.get("sakoe_chiba_radius"), kw.get("itakura_max_slope"))


def exhaustive_small(c):
    """Sizes small enough to enumerate every alignment, no dynamic program."""
    from tslearn.metrics import dtw, dtw_path
    n, m = int(c.rng.randint(1, 5)), int(c.rng.randint(1, 5))
    d = gen.dim(c.rng, 2)
    a, b = gen.values(c.rng, n, d), gen.values(c.rng, m, d)
    c.note(s1=a, s2=b)
    C = ref.sqdist(a, b)
    best, cnt = np.inf, 0
    for p in ref.all_paths(n, m):
        cnt += 1
        best = min(best, ref.path_cost(p, C))
    c.event("alignments enumerated", cnt)
    c.close(float(dtw(a, b)) ** 2, best, "dtw is the minimum over all alignments",
            rtol=1e-8, atol=1e-9 * (1 + C.max()))
    path, v = dtw_path(a, b)
    c.ok(ref.path_problem(path, n, m) is None, "dtw_path is an alignment", path=path)
    c.close(ref.path_cost(path, C), best, "alignment is optimal", rtol=1e-8, atol=1e-9 * (1 + C.max()))
    c.cover(n, m, d)


def _sq(x, y):
    return float(np.sum((x - y) ** 2))


def from_metric(c):
    """dtw_path_from_metric: other ground metrics and precomputed matrices."""
    from scipy.spatial.distance import cdist
    from tslearn.metrics import dtw_path_from_metric
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=20)
    metric = c.choice(["euclidean", "sqeuclidean", "cityblock", "precomputed", "callable", "chebyshev"])
    if metric == "precomputed":
        C = np.abs(c.rng.randn(len(a), len(b))) if c.rng.rand() < .5 else \
            c.rng.randint(0, 4, size=(len(a), len(b))).astype(float)
        keep = C.copy()
        path, v = dtw_path_from_metric(C, metric="precomputed", **kw)
        c.ok(np.array_equal(C, keep), "precomputed matrix left untouched")
    elif metric == "callable":
        C = ref.sqdist(a, b)
        path, v = dtw_path_from_metric(a, b, metric=_sq, **kw)
    else:
        C = cdist(a, b, metric)
        path, v = dtw_path_from_metric(a, b, metric=metric, **kw)
    c.note(metric=metric)
    slack = 0.
    if metric == "euclidean":      # expanded squares lose half the digits
        slack = 1e-7 * scale_of(a, b) * (len(a) + len(b)) * np.sqrt(a.shape[1])
    _value_ok(c, float(v), C, inner, outer, "dtw_path_from_metric value is the optimum", slack)
    prob = ref.path_problem(path, len(a), len(b), outer)
    if c.ok(prob is None, "path from metric admissible", problem=prob, path=path):
        c.close(ref.path_cost(path, C), float(v), "path from metric attains its value",
                rtol=1e-6, atol=1e-7 * (1 + scale_of(a, b)) + slack)
    c.cover(metric, kind, len(a), len(b))


def laws(c):
    """Symmetry, identity, upper bounds and monotonicity in the region."""
    from tslearn.metrics import dtw
    d = gen.dim(c.rng)
    a, b = gen.pair(c.rng, 1, 30, d)
    c.note(s1=a, s2=b)
    tol = 1e-7 * (1 + scale_of(a, b))
    ab = float(dtw(a, b))
    c.close(float(dtw(b, a)), ab, "dtw symmetric", rtol=1e-8, atol=tol)
    c.ok(float(dtw(a, a)) <= 1e-12, "dtw(x, x) = 0")
    c.close(float(dtw(a[::-1], b[::-1])), ab, "dtw invariant to time reversal", rtol=1e-8, atol=tol)
    if len(a) == len(b):
        c.ok(ab <= np.sqrt(np.sum((a - b) ** 2)) + tol, "dtw <= euclidean")
    prev = None
    for r in (0, 1, 2, 4, 8, 64):
        v = float(dtw(a, b, sakoe_chiba_radius=r))
        c.ok(v >= ab - tol, "constrained dtw >= dtw", r=r, v=v, free=ab)
        if prev is not None:
            c.ok(v <= prev + tol, "dtw non-increasing in the radius", r=r, v=v, prev=prev)
        prev = v
    c.close(prev, ab, "a band covering everything is no constraint", rtol=1e-9, atol=tol)
    c.cover(len(a), len(b), d)


def large(c):
    """Long series, up to lengths beyond 16-bit indices (oracle by anti-diagonals)."""
    from tslearn.metrics import dtw, dtw_path
    a, b, kw, inner, outer, kind = draw_long(c)
    C = ref.sqdist(a, b)
    lo, hi = ref.align_fast(C, outer), ref.align_fast(C, inner)
    tol = 1e-8 * (1 + hi) + 1e-9 * (1 + C.max())
    v = float(dtw(a, b, **kw))
    c.ok(lo - tol <= v * v <= hi + tol, "long series: optimum", got=v * v, want=(lo, hi))
    path, v2 = dtw_path(a, b, **kw)
    c.close(float(v2), v, "long series: dtw_path returns the value of dtw", rtol=1e-9, atol=1e-9)
    prob = ref.path_problem(path, len(a), len(b), outer)
    if c.ok(prob is None, "long series: admissible path", problem=prob):
        c.close(ref.path_cost(path, C), v * v, "long series: path attains", rtol=1e-8, atol=tol)
    c.event("cells of long alignments", C.size)


def rejects(c):
    """Inputs with no alignment are refused, not given a number."""
    from tslearn.metrics import dtw, dtw_path
    a = gen.values(c.rng, gen.length(c.rng), 2)
    nanful = np.full((3, 2), np.nan)
    f = c.choice([dtw, dtw_path])
    c.raises(ValueError, lambda: f(a, nanful), "all-NaN series refused")
    c.raises(ValueError, lambda: f(a, a[:, :1]), "different feature counts refused")
    c.cover(f.__name__)


def far(c):
    """Moving both series far away changes nothing: no cancellation."""
    import tslearn.metrics as M
    a, b, u, v = draw_far(c)
    for name, f in (("dtw", M.dtw), ("dtw_path", lambda x, y: M.dtw_path(x, y)[1]), ("cdist_dtw", lambda x, y: M.cdist_dtw(x[None], y[None])[0, 0]),
                    ("dtw_path_from_metric", lambda x, y: M.dtw_path_from_metric(x, y, metric=_sq)[1])):
        w = float(f(a, b))
        c.close(float(f(u, v)), w, name + " of series moved far away", rtol=1e-9, atol=1e-12)
        c.close(w ** (1 if "metric" in name else 2), ref.align_min(ref.sqdist(a, b)), name + " is the optimum", rtol=1e-9, atol=1e-12)
    c.close(float(M.dtw(u, u.copy())), 0., "dtw of a far series with itself", rtol=0, atol=0)


def accumulated(c):
    """The accumulated cost matrix holds the optimum of every pair of prefixes."""
    from tslearn.metrics import dtw_accumulated_matrix as acc
    d = gen.dim(c.rng, 3)
    a, b = gen.pair(c.rng, 1, 14, d)
    n, m = len(a), len(b)
    kind = c.choice(["full", "band", "itakura", "random", "random"])
    mask = np.ones((n, m), dtype=bool)
    if kind == "band":
        mask = np.asarray(ref.sakoe_mask(n, m, int(c.rng.randint(0, 5))), dtype=bool)
    elif kind == "itakura":
        from tslearn.metrics import itakura_mask
        mask = np.isfinite(itakura_mask(n, m, 2.)) if n > 3 and m > 3 and .5 < n / m < 2 else mask
        if mask.dtype != bool or not mask.any():
            mask = np.ones((n, m), dtype=bool)
    elif kind == "random":
        mask = c.rng.rand(n, m) < c.choice([.5, .8, .95])
    A, B = [x.tolist() if c.rng.rand() < .2 else np.asfortranarray(x) if c.rng.rand() < .2 else x.ravel() if d == 1 and c.rng.rand() < .3
            else x for x in (a, b)]
    c.note(s1=a, s2=b, mask=mask)
    held = mask.copy()
    got = np.asarray(acc(A, B, mask))
    c.equal(mask, held, "the mask is left alone")
    want = ref.accumulated(ref.sqdist(a, b), mask, 'sum')
    if c.ok(got.shape == want.shape, "accumulated matrix has a cell per pair of steps", shape=got.shape):
        c.ok(np.array_equal(np.isinf(got), np.isinf(want)), "cells without an alignment are infinite, others are not",
             got=got, want=want)
        f = np.isfinite(got) & np.isfinite(want)
        c.close(got[f], want[f], "accumulated matrix holds the optimum of every pair of prefixes",
                rtol=1e-9, atol=1e-9 * (1 + scale_of(a, b) ** 2))
    c.event("accumulated cells", n * m)
    c.cover("accumulated", kind, n, m, int(np.isinf(want).sum()))


WORKLOADS = [W(views(("dtw", {}), ("dtw", {"sakoe_chiba_radius": 2}), ("dtw_path", {}), ("dtw_path_from_metric", {"metric": "sqeuclidean"})), 30), W(accumulated, 120), W(far, 40), W(dtw_value_and_path, 400), W(exhaustive_small, 120), W(from_metric, 200),
             W(laws, 100), W(large, 24), W(rejects, 6, 12)]

META = dict(
    technique="runtime monitor: optimality oracle over every returned score and path",
    rule="seeded pairs (12 value families, lengths 1-260, 1-4 features, 8 container forms, free / "
         "Sakoe-Chiba / Itakura); a case is distinct by (lengths, features, constraint), and each "
         "compares score and path with an independent dynamic program or full enumeration",
    note="Held on the executions driven: every score against an independent optimum, every path "
         "validated step by step. Trusts the reference recursion (itself cross-checked by "
         "enumeration of all alignments for sizes up to 4). Itakura cells within .005 of the "
         "border are left undecided (the code rounds there by design).",
    assumptions=["finite values up to ~1e3", "feasible constraints only, except in the refusal cases"])
