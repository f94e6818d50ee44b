"""P09: CTW's alignment is optimal for the projection it returns."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import draw_pair_with_constraint, scale_of, views


def _lead(x, k):
    y = np.zeros((len(x), k))
    m = min(k, x.shape[1])
    y[:, :m] = x[:, :m]
    return y


def paths(c):
    from tslearn.metrics import ctw, ctw_path
    n, m = int(c.rng.randint(4, 22)), int(c.rng.randint(4, 22))
    d1, d2 = int(c.rng.randint(1, 4)), int(c.rng.randint(1, 4))
    big = c.rng.rand()
    if big < .07:
        n, m = int(c.rng.randint(50, 160)), int(c.rng.randint(50, 160))
    elif big < .12:
        n, m, d1, d2 = int(c.rng.randint(25, 40)), int(c.rng.randint(25, 40)), int(c.rng.randint(4, 10)), int(c.rng.randint(2, 10))
    a = gen.values(c.rng, n, d1, c.choice(["gauss", "walk", "sine", "offset"]))
    b = gen.values(c.rng, m, d2, c.choice(["gauss", "walk", "sine"]))
    if c.rng.rand() < .4:
        idx = np.sort(c.rng.randint(0, n, size=m))
        b = _lead(a, d2)[idx] @ (np.eye(d2) + .3 * c.rng.randn(d2, d2)) + .05 * c.rng.randn(m, d2)
    a += 1e-3 * c.rng.randn(n, d1)
    b += 1e-3 * c.rng.randn(m, d2)
    kw, (kind, p) = gen.constraint(c.rng, n, m, .5)
    inner, outer = ref.masks(kind, p, n, m)
    if kind != "none" and not (ref.feasible(inner) and inner.any(0).all() and inner.any(1).all()):
        kw, kind, outer, inner = {}, "none", np.ones((n, m), bool), np.ones((n, m), bool)
    k = min(d1, d2) if c.rng.rand() < .6 else 1
    if k != min(d1, d2) or c.rng.rand() < .3:
        kw = dict(kw, n_components=k)
    it = c.choice([1, 2, 3, 100])
    c.note(s1=a, s2=b, kw=kw, max_iter=it)
    a0, b0 = a.copy(), b.copy()
    path, cca, score = ctw_path(a, b, max_iter=it, **kw)
    c.ok(np.array_equal(a, a0) and np.array_equal(b, b0), "ctw leaves its inputs untouched")
    prob = ref.path_problem(path, n, m, outer)
    c.ok(prob is None, "ctw path is an admissible alignment", problem=prob, path=path)
    c.close(float(ctw(a, b, max_iter=it, **kw)), float(score), "ctw returns the score of ctw_path", rtol=1e-9, atol=1e-9)
    C0 = ref.sqdist(_lead(a, k), _lead(b, k))
    tol = 1e-7 * (1 + C0.max())
    first = (ref.align_min(C0, outer), ref.align_min(C0, inner))
    s2 = float(score) ** 2
    from_first = first[0] - tol <= s2 <= first[1] + tol
    if it == 1:
        c.ok(from_first, "one iteration: DTW on the leading features", got=s2, want=first)
        if prob is None:
            c.close(ref.path_cost(path, C0), s2, "one iteration: path attains the score", rtol=1e-7, atol=tol)
    else:
        pa, pb = cca.transform(a, b)
        C = ref.sqdist(np.asarray(pa).reshape(n, -1), np.asarray(pb).reshape(m, -1))
        t2 = 1e-6 * (1 + C.max())
        if prob is None:
            cost = ref.path_cost(path, C)
            c.ok(cost <= ref.align_min(C, inner) + t2, "alignment is optimal for the returned projection",
                 cost=cost, optimum=ref.align_min(C, inner))
            # (which of the two the score is: recorded finding, probed below)
            c.ok(from_first or abs(s2 - cost) <= t2, "score is the cost of an alignment of CTW",
                 score2=s2, projected=cost, first=first)
    c.cover(n, m, d1, d2, k, kind, it)


def probe(c):
    """Fixed probe of a recorded defect (the loop stops after one update)."""
    from tslearn.metrics import ctw_path
    rng = np.random.RandomState(0)
    a, b = rng.randn(8, 2), rng.randn(10, 2)
    path, cca, score = ctw_path(a, b)
    pa, pb = cca.transform(a, b)
    cost = ref.path_cost(path, ref.sqdist(pa, pb))
    c.finding("ctw-score-of-another-alignment", abs(cost - float(score) ** 2) < 1e-6,
              "the score is not the cost of the returned alignment", cost=cost, score2=float(score) ** 2)


def cross(c):
    from tslearn.metrics import cdist_ctw, ctw
    ts = [x + 1e-3 * c.rng.randn(*x.shape) for x in
          gen.dataset(c.rng, n=3, lo=4, hi=12, d=int(c.rng.randint(1, 3)), kind="walk")]
    us = [gen.values(c.rng, int(c.rng.randint(4, 10)), int(c.rng.randint(1, 3)), "gauss")] * 2
    c.note(d1=ts, d2=us)
    M = to_np(cdist_ctw(gen.pad(ts)))
    want = np.array([[0. if i == j else float(ctw(ts[min(i, j)], ts[max(i, j)])) for j in range(3)] for i in range(3)])
    c.close(M, want, "cdist_ctw = pairwise ctw", rtol=1e-8, atol=1e-8)
    M = to_np(cdist_ctw(gen.pad(ts), gen.pad(us)))
    want = np.array([[float(ctw(x, y)) for y in us] for x in ts])
    c.close(M, want, "cdist_ctw of two datasets = pairwise ctw", rtol=1e-8, atol=1e-8)
    c.cover([len(t) for t in ts], ts[0].shape[1], us[0].shape[1])


WORKLOADS = [W(views(("ctw", {"max_iter": 3}), ("ctw_path", {"max_iter": 3}), dims=2), 30), W(paths, 160), W(probe, 1, 1), W(cross, 12)]

META = dict(
    technique="runtime monitor: path, projection and score cross-checked against an independent alignment optimum",
    rule="seeded pairs (lengths 4-21, sometimes up to 160, 1-9 features each, related or not), component counts, 1-100 iterations, all "
         "constraint forms; distinct by those",
    note="Held on the executions driven: the path is validated and its cost compared with the optimum under the returned projection.",
    assumptions=["series jittered so that the canonical correlation is defined"])
