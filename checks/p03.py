"""P03: LCSS counts a maximum set of matched pairs, and its path is one."""
import numpy as np

from vmon import gen, ref
from vmon.core import W
from vmon.util import draw_far, draw_long, draw_pair_with_constraint, views


def _monitor(c, path, v, dist, eps, inner, outer, n, m, tag):
    match = dist <= eps
    amb = np.abs(dist - eps) <= 1e-9 * (1 + eps + dist.max())      # equality up to rounding
    lo = ref.lcss_len(match & ~amb, inner) / min(n, m)
    hi = ref.lcss_len(match | amb, outer) / min(n, m)
    c.ok(lo - 1e-12 <= v <= hi + 1e-12, tag + ": score is the maximum number of matches", got=v, want=(lo, hi), eps=eps)
    c.ok(0 <= v <= 1, tag + ": score in [0, 1]", got=v)
    if path is None:
        return
    p = [(int(i), int(j)) for i, j in path]
    c.ok(all(i2 > i1 and j2 > j1 for (i1, j1), (i2, j2) in zip(p, p[1:])),
         tag + ": matched pairs strictly increase in both series", path=p)
    good = all(0 <= i < n and 0 <= j < m and outer[i, j] and (match | amb)[i, j] for i, j in p)
    c.ok(good, tag + ": every pair matches within eps and inside the region", path=p, eps=eps)
    c.close(len(p) / min(n, m), v, tag + ": path has as many pairs as the score says", atol=1e-12, path=p)


def _eps(c, dist):
    u = c.rng.rand()
    if u < .3:
        return float(c.rng.choice([0., .5, 1., 2.]))
    if u < .4:
        return float(dist.max() + 1)
    if u < .5:
        return float(max(0, dist.min() / 2))
    if u < .7:      # exactly a distance
        return float(dist.ravel()[c.rng.randint(dist.size)])
    return float(np.quantile(dist, c.rng.rand()) * 1.0001)


def value_and_path(c):
    from tslearn.metrics import lcss, lcss_path
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=20)
    A, _ = gen.reform(c.rng, a)
    B, _ = gen.reform(c.rng, b)
    dist = np.sqrt(ref.sqdist(a, b))
    eps = _eps(c, dist)
    c.note(eps=eps)
    v = float(lcss(A, B, eps=eps, **kw))
    path, v2 = lcss_path(A, B, eps=eps, **kw)
    c.close(float(v2), v, "lcss_path returns the value of lcss")
    _monitor(c, path, v, dist, eps, inner, outer, len(a), len(b), "lcss")
    c.cover(kind, len(a), len(b), a.shape[1], round(v, 3))


def _l1(x, y):
    return float(np.sum(np.abs(x - y)))


def from_metric(c):
    from scipy.spatial.distance import cdist
    from tslearn.metrics import lcss_path_from_metric
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=16)
    metric = c.choice(["euclidean", "cityblock", "precomputed", "callable"])
    if metric == "precomputed":
        C = np.abs(c.rng.randn(len(a), len(b)))
        eps = _eps(c, C)
        keep = C.copy()
        path, v = lcss_path_from_metric(C, eps=eps, metric="precomputed", **kw)
        c.ok(np.array_equal(C, keep), "precomputed matrix left untouched")
    else:
        C = cdist(a, b, "cityblock" if metric == "callable" else metric)
        eps = _eps(c, C)
        path, v = lcss_path_from_metric(a, b, eps=eps, metric=_l1 if metric == "callable" else metric, **kw)
    c.note(metric=metric, eps=eps)
    _monitor(c, path, float(v), C, eps, inner, outer, len(a), len(b), "lcss from metric")
    c.cover(metric, kind, len(a), len(b))


def exact_ties(c):
    """Integer observations whose distances are exactly the threshold: a pair
    at the threshold matches, for the score and for the path."""
    from tslearn.metrics import lcss, lcss_path, lcss_path_from_metric
    d = int(c.choice([1, 1, 2, 3, 4]))
    n, m = int(c.rng.randint(1, 12)), int(c.rng.randint(1, 12))
    top = int(c.choice([2, 4, 9]))
    a, b = [c.rng.randint(0, top, size=(k, d)).astype(float) for k in (n, m)]
    D2 = ref.sqdist(a, b)                   # exact integers
    k = float(D2.ravel()[c.rng.randint(D2.size)])
    eps = float(np.sqrt(k))                 # correctly rounded, as sqrt(D2) is
    full = np.ones((n, m), bool)
    c.note(s1=a, s2=b, eps=eps)
    want = ref.lcss_len(D2 <= k, full) / min(n, m)
    for name, (p, v) in (("lcss", (None, lcss(a, b, eps=eps))), ("lcss_path", lcss_path(a, b, eps=eps)),
                         ("precomputed", lcss_path_from_metric(np.sqrt(D2), eps=eps, metric="precomputed")),
                         ("squared", lcss_path_from_metric(a, b, eps=k, metric="sqeuclidean") if d == 1 else (None, want))):
        c.close(float(v), want, name + ": observations at the threshold match", rtol=1e-12, atol=0)
        if p is not None:
            c.close(len(p) / min(n, m), want, name + ": the path holds the matches at the threshold", rtol=1e-12, atol=0, path=p)
            c.ok(all(D2[i, j] <= k for i, j in p), name + ": pairs of the path are within the threshold", path=p)
    c.event("pairs at the threshold", int((D2 == k).sum()))
    c.cover(n, m, d, k)


def torch_backend(c):
    import torch
    from tslearn.metrics import lcss, lcss_path, lcss_path_from_metric
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=9)
    dist = np.sqrt(ref.sqdist(a, b))
    eps = _eps(c, dist)
    ta, tb = torch.tensor(a), torch.tensor(b)
    v = float(lcss(ta, tb, eps=eps, **kw))
    path, v2 = lcss_path(ta, tb, eps=eps, **kw)
    c.close(float(v2), v, "torch: lcss_path returns the value of lcss")
    _monitor(c, path, v, dist, eps, inner, outer, len(a), len(b), "torch lcss")
    path, v3 = lcss_path_from_metric(torch.tensor(dist), eps=eps, metric="precomputed", **kw)
    _monitor(c, path, float(v3), dist, eps, inner, outer, len(a), len(b), "torch lcss precomputed")
    c.cover(kind, len(a), len(b))


def laws(c):
    from tslearn.metrics import lcss
    d = gen.dim(c.rng, 3)
    a, b = gen.pair(c.rng, 1, 20, d)
    c.note(s1=a, s2=b)
    e = np.sort(np.abs(c.rng.randn(4)) * 2)
    vals = [float(lcss(a, b, eps=x)) for x in e]
    c.ok(all(x <= y + 1e-12 for x, y in zip(vals, vals[1:])), "lcss non-decreasing in eps", vals=vals, eps=e)
    c.close(float(lcss(b, a, eps=e[1])), vals[1], "lcss symmetric")
    c.ok(float(lcss(a, a, eps=0.)) == 1.0, "lcss(x, x) = 1")
    rv = [float(lcss(a, b, eps=e[2], sakoe_chiba_radius=r)) for r in (0, 1, 2, 50)]
    c.ok(all(x <= y + 1e-12 for x, y in zip(rv, rv[1:])) and rv[-1] == vals[2],
         "lcss non-decreasing in the radius", vals=rv)
    c.cover(len(a), len(b), d)


def large(c):
    """Long series, up to lengths beyond 16-bit indices."""
    from tslearn.metrics import lcss, lcss_path
    a, b, kw, inner, outer, kind = draw_long(c)
    dist = np.sqrt(ref.sqdist(a, b))
    eps = _eps(c, dist)
    c.note(eps=eps)
    match = dist <= eps
    amb = np.abs(dist - eps) <= 1e-9 * (1 + eps + dist.max())
    k = min(len(a), len(b))
    lo, hi = ref.lcss_fast(match & ~amb, inner) / k, ref.lcss_fast(match | amb, outer) / k
    v = float(lcss(a, b, eps=eps, **kw))
    path, v2 = lcss_path(a, b, eps=eps, **kw)
    c.ok(lo - 1e-12 <= v <= hi + 1e-12, "long series: score is the maximum number of matches", got=v, want=(lo, hi))
    c.close(float(v2), v, "long series: lcss_path returns the value of lcss")
    p = np.array([(int(i), int(j)) for i, j in path], dtype=int).reshape(-1, 2)
    c.ok((np.diff(p, axis=0) > 0).all(), "long series: matched pairs strictly increase")
    inside = len(p) == 0 or (p.min() >= 0 and p[:, 0].max() < len(a) and p[:, 1].max() < len(b))
    c.ok(inside and (outer & (match | amb))[p[:, 0], p[:, 1]].all(), "long series: every pair matches inside the region")
    c.close(len(p) / k, v, "long series: path has as many pairs as the score says", atol=1e-12)
    c.event("cells of long alignments", dist.size)


def far(c):
    """Moving both series far away changes nothing: no cancellation."""
    import tslearn.metrics as M
    a, b, u, v = draw_far(c)
    D = np.sqrt(ref.sqdist(a, b))
    eps = float(c.choice(D.ravel().tolist())) + 1e-6
    if (np.abs(D - eps) < 1e-7).any():
        c.skip()
    c.note(eps=eps)
    want = ref.lcss_len(D <= eps) / min(len(a), len(b))
    for name, f in (("lcss", lambda x, y: M.lcss(x, y, eps=eps)), ("lcss_path", lambda x, y: M.lcss_path(x, y, eps=eps)[1])):
        c.close(float(f(a, b)), want, name + " counts a maximum set of matches", rtol=1e-9, atol=0)
        c.close(float(f(u, v)), want, name + " of series moved far away", rtol=1e-9, atol=0)


WORKLOADS = [W(views(("lcss", {"eps": .7}), ("lcss_path", {"eps": .7}), ("lcss_path_from_metric", {"eps": .7, "metric": "cityblock"})), 30), W(far, 40), W(large, 24), W(value_and_path, 500), W(from_metric, 250), W(exact_ties, 150), W(torch_backend, 60), W(laws, 120)]

META = dict(
    technique="runtime monitor: maximum-matching oracle over scores and paths, with a hang watchdog",
    rule="seeded pairs, thresholds drawn from the distance distribution and extremes, all constraint "
         "forms, both backends; distinct by lengths, features, constraint and resulting score",
    note="Held on the executions driven: score against an independent matching recursion, every "
         "matched pair checked (threshold, region, order); a call that does not return is confirmed "
         "alone before it is reported.",
    assumptions=["finite values", "ground distances within 1e-9 of the threshold are undecided"])
