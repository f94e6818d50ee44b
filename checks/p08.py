"""P08: sub-sequence DTW and length-limited DTW are true optima with valid paths."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import draw_far, scale_of, views


def _sub_costs(q, x):
    """Best cost of aligning q with a contiguous part of x ending at each index."""
    C = ref.sqdist(q, x)
    n, m = C.shape
    A = np.full((n, m), np.inf)
    for i in range(n):
        for j in range(m):
            p = [0.] if i == 0 else [A[i - 1, j]] + ([A[i - 1, j - 1]] if j else [])
            if j:
                p.append(A[i, j - 1])
            A[i, j] = C[i, j] + min(p)
    return A[-1], C


def subsequence(c):
    from tslearn.metrics import dtw_subsequence_path, subsequence_cost_matrix, subsequence_path
    d = gen.dim(c.rng)
    q = gen.series(c.rng, 1, 12, d)
    x = gen.series(c.rng, 1, 30, d)
    if c.rng.rand() < .4:        # hide a warped copy of the query in x
        idx = np.sort(c.rng.randint(0, len(q), size=len(q) + 2))
        k = int(c.rng.randint(0, len(x) + 1))
        x = np.vstack([x[:k], q[idx] + .01 * c.rng.randn(len(idx), d), x[k:]])
    Q, _ = gen.reform(c.rng, q)
    X, _ = gen.reform(c.rng, x)
    c.note(query=q, long=x)
    ends, C = _sub_costs(q, x)
    tol = 1e-9 * (1 + C.max() * (len(q) + len(x)))
    path, v = dtw_subsequence_path(Q, X)
    c.close(float(v) ** 2, ends.min(), "sub-sequence DTW is the best over all contiguous parts", rtol=1e-8, atol=tol)
    e = int(path[-1][1])
    c.close(ends[e], ends.min(), "optimal match ends where the optimum is", rtol=1e-8, atol=tol)
    prob = ref.path_problem(path, len(q), len(x), start=None, end=(len(q) - 1, e))
    c.ok(prob is None and int(path[0][0]) == 0, "sub-sequence path aligns the whole query with a contiguous part", problem=prob, path=path)
    c.close(ref.path_cost(path, C), ends.min(), "sub-sequence path attains the value", rtol=1e-7, atol=tol)
    acc = to_np(subsequence_cost_matrix(q, x))
    c.close(acc[-1], ends, "cost matrix gives the optimum for each end", rtol=1e-8, atol=tol)
    e = int(c.rng.randint(0, len(x)))
    p = subsequence_path(acc, e)
    prob = ref.path_problem(p, len(q), len(x), start=None, end=(len(q) - 1, e))
    if c.ok(prob is None and int(p[0][0]) == 0, "path for a chosen end is valid", problem=prob, end=e):
        c.close(ref.path_cost(p, C), ends[e], "path for a chosen end is optimal", rtol=1e-7, atol=tol)
    c.cover(len(q), len(x), d)


def by_parts(c):
    """Directly: minimum over every contiguous part of the plain optimum."""
    from tslearn.metrics import dtw_subsequence_path
    d = gen.dim(c.rng, 2)
    q, x = gen.values(c.rng, int(c.rng.randint(1, 6)), d), gen.values(c.rng, int(c.rng.randint(1, 9)), d)
    c.note(query=q, long=x)
    best = min(ref.align_min(ref.sqdist(q, x[s:e])) for s in range(len(x)) for e in range(s + 1, len(x) + 1))
    c.event("contiguous parts tried", len(x) * (len(x) + 1) // 2)
    v = float(dtw_subsequence_path(q, x)[1])
    c.close(v * v, best, "sub-sequence DTW = minimum over parts", rtol=1e-8, atol=1e-8 * (1 + scale_of(q, x) ** 2))
    c.cover(len(q), len(x), d)


def _limited(C, L):
    """Best cost among alignments with at most L pairs."""
    n, m = C.shape
    F = np.full((n, m), np.inf)
    F[0, 0] = C[0, 0]
    best = F[-1, -1]
    for _ in range(L - 1):
        G = np.full((n, m), np.inf)
        G[1:] = np.minimum(G[1:], F[:-1])
        G[:, 1:] = np.minimum(G[:, 1:], F[:, :-1])
        G[1:, 1:] = np.minimum(G[1:, 1:], F[:-1, :-1])
        F = G + C
        best = min(best, F[-1, -1])
    return best


def limited(c):
    from tslearn.metrics import dtw, dtw_limited_warping_length, dtw_path_limited_warping_length
    a, b = gen.pair(c.rng, 1, 12)
    n, m = len(a), len(b)
    L = int(c.rng.randint(max(n, m), n + m + 2))
    c.note(s1=a, s2=b, max_length=L)
    C = ref.sqdist(a, b)
    tol = 1e-8 * (1 + C.max() * (n + m))
    v = float(dtw_limited_warping_length(a, b, L))
    c.close(v * v, _limited(C, L), "length-limited DTW is the optimum among short enough alignments", rtol=1e-8, atol=tol)
    path, v2 = dtw_path_limited_warping_length(a, b, L)
    c.close(float(v2), v, "length-limited path returns the same value", rtol=1e-9, atol=1e-9)
    prob = ref.path_problem(path, n, m)
    if c.ok(prob is None and len(path) <= L, "length-limited path is an alignment within the limit", problem=prob, path=path, limit=L):
        c.close(ref.path_cost(path, C), v * v, "length-limited path attains the value", rtol=1e-7, atol=tol)
    c.ok(v >= float(dtw(a, b)) - tol, "length-limited DTW >= DTW")
    loose = float(dtw_limited_warping_length(a, b, n + m - 1 if n + m > 1 else 1))
    c.close(loose, float(dtw(a, b)), "loose limit: DTW", rtol=1e-8, atol=np.sqrt(tol) * 1e-3)
    if L > max(n, m):
        c.ok(float(dtw_limited_warping_length(a, b, L - 1)) >= v - tol, "tighter limit never cheaper")
    for f in (dtw_limited_warping_length, dtw_path_limited_warping_length):
        c.raises(ValueError, lambda: f(a, b, max(n, m) - 1), "limit below the longer series refused")
    c.cover(n, m, L)


def _sub_fast(C):
    """Row by row: best cost of the whole query ending at each index (running minimum of prefix sums)."""
    A = C[0].copy()
    for i in range(1, len(C)):
        B = np.minimum(A, np.concatenate([[np.inf], A[:-1]]))     # enter row i at column j from above or diagonally
        S = np.concatenate([[0.], np.cumsum(C[i])])
        A = S[1:] + np.minimum.accumulate(B - S[:-1])
    return A


def large(c):
    """Long queries in long series; long length-limited pairs."""
    from tslearn.metrics import (dtw_limited_warping_length, dtw_path_limited_warping_length, dtw_subsequence_path,
                                 subsequence_cost_matrix, subsequence_path)
    r = c.rng
    d = gen.dim(r, 2)
    n, m = [(int(r.randint(50, 300)), int(r.randint(200, 1500))), (int(r.randint(1, 4)), int(r.randint(32700, 36000))),
            (int(r.randint(100, 400)), int(r.randint(20, 100)))][r.randint(3)]
    q, x = gen.values(r, n, d), gen.values(r, m, d)
    if m > 2 * n + 20 and r.rand() < .5:
        k = int(r.randint(0, m - 2 * n))
        x[k:k + 2 * n] = q[np.arange(2 * n) // 2] + .01 * r.randn(2 * n, d)
    c.note(query=q, long=x)
    C = ref.sqdist(q, x)
    ends = _sub_fast(C)
    tol = 1e-8 * (1 + abs(ends.min())) + 1e-11 * C.sum(1).max()
    path, v = dtw_subsequence_path(q, x)
    c.close(float(v) ** 2, ends.min(), "long: sub-sequence DTW is the best over all contiguous parts", rtol=1e-8, atol=tol)
    e = int(path[-1][1])
    prob = ref.path_problem(path, n, m, start=None, end=(n - 1, e))
    c.ok(prob is None and int(path[0][0]) == 0, "long: sub-sequence path aligns the whole query with a contiguous part", problem=prob)
    c.close(ref.path_cost(path, C), float(v) ** 2, "long: sub-sequence path attains the value", rtol=1e-7, atol=tol)
    acc = to_np(subsequence_cost_matrix(q, x))
    c.close(acc[-1], ends, "long: cost matrix gives the optimum for each end", rtol=1e-7, atol=tol)
    e = int(r.randint(0, m))
    p = subsequence_path(acc, e)
    prob = ref.path_problem(p, n, m, start=None, end=(n - 1, e))
    if c.ok(prob is None and int(p[0][0]) == 0, "long: path for a chosen end is valid", problem=prob, end=e):
        c.close(ref.path_cost(p, C), ends[e], "long: path for a chosen end is optimal", rtol=1e-7, atol=tol)
    n, m = int(r.randint(20, 70)), int(r.randint(20, 70))
    a, b = gen.values(r, n, d), gen.values(r, m, d)
    L = int(r.choice([max(n, m), max(n, m) + 1, max(n, m) + int(r.randint(2, 20)), n + m - 1]))
    C = ref.sqdist(a, b)
    tol = 1e-8 * (1 + C.max() * (n + m))
    want = _limited(C, L)
    v = float(dtw_limited_warping_length(a, b, L))
    c.close(v * v, want, "long: length-limited DTW is the optimum among short enough alignments", rtol=1e-8, atol=tol, limit=L)
    path, v2 = dtw_path_limited_warping_length(a, b, L)
    prob = ref.path_problem(path, n, m)
    if c.ok(prob is None and len(path) <= L, "long: length-limited path within the limit", problem=prob, limit=L, length=len(path)):
        c.close(ref.path_cost(path, C), want, "long: length-limited path attains the value", rtol=1e-7, atol=tol)
    c.cover("long", n // 10, m // 10, L - max(n, m))


def far(c):
    """Moving both series far away changes nothing: no cancellation."""
    import tslearn.metrics as M
    a, b, u, v = draw_far(c)
    if len(a) > len(b):
        a, b, u, v = b, a, v, u
    w, g = M.dtw_subsequence_path(a, b), M.dtw_subsequence_path(u, v)
    c.close(float(g[1]), float(w[1]), "best sub-sequence of series moved far away", rtol=1e-9, atol=1e-12)
    c.close(M.subsequence_cost_matrix(u, v), M.subsequence_cost_matrix(a, b), "sub-sequence costs of series moved far away", rtol=1e-9, atol=1e-12)
    if len(b) <= 20:
        k = len(b) + int(c.rng.randint(0, 5))
        c.close(float(M.dtw_limited_warping_length(u, v, k)), float(M.dtw_limited_warping_length(a, b, k)), "limited warping of series moved far away",
                rtol=1e-9, atol=1e-12)


WORKLOADS = [W(views(("dtw_subsequence_path", {}), ("subsequence_cost_matrix", {}), ("dtw_limited_warping_length", {"max_length": 60}), ("dtw_path_limited_warping_length", {"max_length": 60})), 30), W(far, 30), W(large, 12), W(subsequence, 300), W(by_parts, 100), W(limited, 200)]

META = dict(
    technique="runtime monitor: optimality oracles over all end positions, contiguous parts and path lengths",
    rule="seeded queries and long series (hidden warped copies, lengths 1-30), every container form, every limit "
         "from the longer length to beyond the longest path; distinct by lengths, features and limit",
    note="Held on the executions driven: values against independent recursions and brute force over parts, each path validated.",
    assumptions=["finite values"])
