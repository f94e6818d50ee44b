"""P02: discrete Frechet = bottleneck-optimal admissible alignment."""
import numpy as np

from vmon import gen, ref
from vmon.core import W
from vmon.util import draw_far, draw_long, draw_pair_with_constraint, scale_of, views


def value_and_path(c):
    from tslearn.metrics import frechet, frechet_path
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c)
    A, fa = gen.reform(c.rng, a)
    B, fb = gen.reform(c.rng, b)
    D = np.sqrt(ref.sqdist(a, b))
    v = float(frechet(A, B, **kw))
    path, v2 = frechet_path(A, B, **kw)
    tol = 1e-8 * (1 + D.max())
    lo, hi = ref.align_min(D, outer, "max"), ref.align_min(D, inner, "max")
    c.ok(lo - tol <= v <= hi + tol, "frechet is the bottleneck optimum", got=v, want=(lo, hi), forms=(fa, fb))
    c.close(float(v2), v, "frechet_path returns the value of frechet", atol=tol)
    prob = ref.path_problem(path, len(a), len(b), outer)
    if c.ok(prob is None, "frechet_path is an admissible alignment", problem=prob, path=path):
        c.close(ref.path_cost(path, D, "max"), float(v2), "alignment attains the bottleneck", rtol=1e-7, atol=tol)
    c.cover(kind, len(a), len(b), a.shape[1])


def exhaustive_small(c):
    from tslearn.metrics import frechet, frechet_path
    n, m = int(c.rng.randint(1, 5)), int(c.rng.randint(1, 5))
    d = gen.dim(c.rng, 2)
    a, b = gen.values(c.rng, n, d), gen.values(c.rng, m, d)
    c.note(s1=a, s2=b)
    D = np.sqrt(ref.sqdist(a, b))
    best = np.inf
    for p in ref.all_paths(n, m):
        c.event("alignments enumerated")
        best = min(best, ref.path_cost(p, D, "max"))
    c.close(float(frechet(a, b)), best, "frechet is the minimum over all alignments", rtol=1e-8, atol=1e-8 * (1 + D.max()))
    path, v = frechet_path(a, b)
    c.ok(ref.path_problem(path, n, m) is None, "frechet_path is an alignment", path=path)
    c.close(ref.path_cost(path, D, "max"), best, "enumerated: path is optimal", rtol=1e-8, atol=1e-8 * (1 + D.max()))
    c.cover(n, m, d)


def _l1(x, y):
    return float(np.sum(np.abs(x - y)))


def from_metric(c):
    from scipy.spatial.distance import cdist
    from tslearn.metrics import frechet_path_from_metric
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=20)
    metric = c.choice(["euclidean", "cityblock", "precomputed", "callable", "chebyshev"])
    if metric == "precomputed":
        C = np.abs(c.rng.randn(len(a), len(b))) if c.rng.rand() < .5 else \
            c.rng.randint(0, 4, size=(len(a), len(b))).astype(float)
        keep = C.copy()
        path, v = frechet_path_from_metric(C, metric="precomputed", **kw)
        c.ok(np.array_equal(C, keep), "precomputed matrix left untouched")
    elif metric == "callable":
        C = cdist(a, b, "cityblock")
        path, v = frechet_path_from_metric(a, b, metric=_l1, **kw)
    else:
        C = cdist(a, b, metric)
        path, v = frechet_path_from_metric(a, b, metric=metric, **kw)
    c.note(metric=metric)
    tol = 3e-7 * np.sqrt(a.shape[1]) * (1 + scale_of(a, b))
    lo, hi = ref.align_min(C, outer, "max"), ref.align_min(C, inner, "max")
    c.ok(lo - tol <= float(v) <= hi + tol, "from-metric value is the bottleneck optimum", got=float(v), want=(lo, hi))
    prob = ref.path_problem(path, len(a), len(b), outer)
    if c.ok(prob is None, "from-metric path admissible", problem=prob, path=path):
        c.close(ref.path_cost(path, C, "max"), float(v), "from-metric path attains its value", rtol=1e-6, atol=tol)
    c.cover(metric, kind, len(a), len(b))


def laws(c):
    from tslearn.metrics import dtw, frechet
    d = gen.dim(c.rng)
    a, b = gen.pair(c.rng, 1, 25, d)
    e = gen.values(c.rng, gen.length(c.rng, 1, 25), d)
    c.note(s1=a, s2=b, s3=e)
    tol = 1e-7 * (1 + scale_of(a, b, e))
    ab, be_, ae = float(frechet(a, b)), float(frechet(b, e)), float(frechet(a, e))
    c.close(float(frechet(b, a)), ab, "frechet symmetric", atol=tol)
    c.ok(float(frechet(a, a)) == 0, "frechet(x, x) = 0")
    c.ok(ae <= ab + be_ + tol, "frechet obeys the triangle inequality", ab=ab, bc=be_, ac=ae)
    c.ok(ab <= float(dtw(a, b)) + tol, "frechet <= dtw")
    c.ok(ab >= max(np.linalg.norm(a[0] - b[0]), np.linalg.norm(a[-1] - b[-1])) - tol, "frechet >= end-point distances")
    prev = None
    for r in (0, 1, 3, 60):
        v = float(frechet(a, b, sakoe_chiba_radius=r))
        c.ok(v >= ab - tol and (prev is None or v <= prev + tol), "frechet non-increasing in the radius", r=r, v=v, prev=prev)
        prev = v
    c.cover(len(a), len(b), len(e), d)


def cross(c):
    """cdist_frechet honours the constraint it is given."""
    from tslearn.metrics import cdist_frechet, frechet
    ts = gen.dataset(c.rng, n=int(c.rng.randint(2, 5)), lo=2, hi=14)
    kw = c.choice([{}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": 1},
                   {"sakoe_chiba_radius": 0}, {"global_constraint": "sakoe_chiba"}])
    c.note(dataset=ts, constraint=kw)
    M = cdist_frechet(gen.pad(ts), **kw)
    want = [[float(frechet(x, y, **kw)) if i != j else 0. for j, y in enumerate(ts)] for i, x in enumerate(ts)]
    c.close(M, np.array(want), "cdist_frechet = pairwise frechet under the same constraint", rtol=1e-9, atol=1e-9)
    c.cover(sorted(kw.items()), len(ts), [len(t) for t in ts])


def large(c):
    """Long series, up to lengths beyond 16-bit indices."""
    from tslearn.metrics import frechet, frechet_path
    a, b, kw, inner, outer, kind = draw_long(c)
    D = np.sqrt(ref.sqdist(a, b))
    tol = 1e-8 * (1 + D.max())
    lo, hi = ref.align_fast(D, outer, "max"), ref.align_fast(D, inner, "max")
    v = float(frechet(a, b, **kw))
    c.ok(lo - tol <= v <= hi + tol, "long series: bottleneck optimum", got=v, want=(lo, hi))
    path, v2 = frechet_path(a, b, **kw)
    c.close(float(v2), v, "long series: frechet_path returns the value of frechet", atol=tol)
    prob = ref.path_problem(path, len(a), len(b), outer)
    if c.ok(prob is None, "long series: admissible path", problem=prob):
        c.close(ref.path_cost(path, D, "max"), v, "long series: path attains the bottleneck", rtol=1e-7, atol=tol)
    c.event("cells of long alignments", D.size)


def far(c):
    """Moving both series far away changes nothing: no cancellation."""
    import tslearn.metrics as M
    a, b, u, v = draw_far(c)
    for name, f in (("frechet", M.frechet), ("frechet_path", lambda x, y: M.frechet_path(x, y)[1]), ("cdist_frechet", lambda x, y: M.cdist_frechet(x[None], y[None])[0, 0]),
                    ("frechet_path_from_metric", lambda x, y: M.frechet_path_from_metric(x, y, metric=_l1)[1])):
        c.close(float(f(u, v)), float(f(a, b)), name + " of series moved far away", rtol=1e-9, atol=1e-12)
    c.close(float(M.frechet(a, b)) ** 2, ref.align_min(ref.sqdist(a, b), combine="max"), "frechet is the bottleneck optimum", rtol=1e-9, atol=1e-12)
    c.close(float(M.frechet(u, u.copy())), 0., "frechet of a far series with itself", rtol=0, atol=0)


def accumulated(c):
    """The accumulated cost matrix holds the optimum of every pair of prefixes."""
    from tslearn.metrics import frechet_accumulated_matrix as acc
    d = gen.dim(c.rng, 3)
    a, b = gen.pair(c.rng, 1, 14, d)
    n, m = len(a), len(b)
    kind = c.choice(["full", "band", "itakura", "random", "random"])
    mask = np.ones((n, m), dtype=bool)
    if kind == "band":
        mask = np.asarray(ref.sakoe_mask(n, m, int(c.rng.randint(0, 5))), dtype=bool)
    elif kind == "itakura":
        from tslearn.metrics import itakura_mask
        mask = np.isfinite(itakura_mask(n, m, 2.)) if n > 3 and m > 3 and .5 < n / m < 2 else mask
        if mask.dtype != bool or not mask.any():
            mask = np.ones((n, m), dtype=bool)
    elif kind == "random":
        mask = c.rng.rand(n, m) < c.choice([.5, .8, .95])
    A, B = [x.tolist() if c.rng.rand() < .2 else np.asfortranarray(x) if c.rng.rand() < .2 else x.ravel() if d == 1 and c.rng.rand() < .3
            else x for x in (a, b)]
    c.note(s1=a, s2=b, mask=mask)
    held = mask.copy()
    got = np.asarray(acc(A, B, mask))
    c.equal(mask, held, "the mask is left alone")
    want = ref.accumulated(ref.sqdist(a, b), mask, 'max')
    if c.ok(got.shape == want.shape, "accumulated matrix has a cell per pair of steps", shape=got.shape):
        c.ok(np.array_equal(np.isinf(got), np.isinf(want)), "cells without an alignment are infinite, others are not",
             got=got, want=want)
        f = np.isfinite(got) & np.isfinite(want)
        c.close(got[f], want[f], "accumulated matrix holds the optimum of every pair of prefixes",
                rtol=1e-9, atol=1e-9 * (1 + scale_of(a, b) ** 2))
    c.event("accumulated cells", n * m)
    c.cover("accumulated", kind, n, m, int(np.isinf(want).sum()))


WORKLOADS = [W(views(("frechet", {}), ("frechet_path", {}), ("frechet_path_from_metric", {"metric": "sqeuclidean"})), 30), W(accumulated, 120), W(far, 40), W(large, 24), W(value_and_path, 400), W(exhaustive_small, 120), W(from_metric, 200),
             W(laws, 80), W(cross, 60)]

META = dict(
    technique="runtime monitor: bottleneck-optimality oracle over scores, paths and cross-distances",
    rule="seeded pairs and triples of series (lengths 1-30, 1-4 features, all constraint forms, "
         "ground metrics incl. callables and precomputed); distinct by lengths, features, constraint, metric",
    note="Held on the executions driven: scores against an independent bottleneck recursion and "
         "full enumeration for small sizes; paths validated; triangle inequality on triples.",
    assumptions=["finite values up to ~1e3", "feasible constraints"])
