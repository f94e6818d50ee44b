"""Independent reference models (plain Python / NumPy, no tslearn code)."""
import itertools
import math

import numpy as np

INF = math.inf


# ---------------------------------------------------------------- constraints
def sakoe_mask(n, m, r):
    """|i - j| band of radius r, widened by the length difference."""
    i, j = np.arange(n)[:, None], np.arange(m)[None]
    if n <= m:
        return (i - r <= j) & (j <= i + (m - n) + r)
    return (j - r <= i) & (i <= j + (n - m) + r)


def itakura_bounds(n, m, s, margin):
    """Parallelogram of slopes s and 1/s (scaled to the sizes); cells closer to
    the border than ``margin`` are counted in (margin>0) or out (margin<0)."""
    lo_s, hi_s = (1. / s) * n / m, s * n / m
    M = np.zeros((n, m), dtype=bool)
    rows = np.arange(n)
    for j in range(m):
        lo = max(lo_s * j, (n - 1) - hi_s * (m - 1 - j))
        hi = min(hi_s * j, (n - 1) - lo_s * (m - 1 - j))
        M[:, j] = (lo - margin <= rows) & (rows <= hi + margin)
    return M


def masks(kind, param, n, m):
    """(inner, outer): admissible cells, up to rounding at an Itakura border."""
    if kind == "none":
        M = np.ones((n, m), dtype=bool)
        return M, M
    if kind == "sakoe_chiba":
        M = sakoe_mask(n, m, param)
        return M, M
    # the bounds are rounded to 2 decimals by design: cells on the border are
    # admissible, cells less than .0051 beyond it are not decided
    return itakura_bounds(n, m, param, 1e-9), itakura_bounds(n, m, param, 0.0051)


def feasible(mask):
    n, m = mask.shape
    R = np.zeros((n, m), dtype=bool)
    for i in range(n):
        for j in range(m):
            if mask[i, j]:
                R[i, j] = (i == 0 and j == 0) or (i > 0 and R[i - 1, j]) or \
                    (j > 0 and R[i, j - 1]) or (i > 0 and j > 0 and R[i - 1, j - 1])
    return bool(R[-1, -1])


# ---------------------------------------------------------------- alignments
def sqdist(a, b):
    d = a[:, None, :] - b[None, :, :]
    return np.sum(d * d, axis=-1)


def align_min(C, mask=None, combine="sum"):
    """Best alignment score through C by dynamic programming."""
    n, m = C.shape
    A = [[INF] * (m + 1) for _ in range(n + 1)]
    A[0][0] = 0.0
    for i in range(n):
        for j in range(m):
            if mask is not None and not mask[i, j]:
                continue
            p = min(A[i][j], A[i][j + 1], A[i + 1][j])
            if combine == "sum":
                A[i + 1][j + 1] = C[i, j] + p
            else:
                A[i + 1][j + 1] = max(C[i, j], p)
    return A[n][m]


def align_fast(C, mask=None, kind="sum", gamma=1.):
    """The same optimum, one anti-diagonal at a time ("sum", "max" or "soft"); used for long series."""
    n, m = C.shape
    p2, p1 = np.full(n + 1, INF), np.full(n + 1, INF)      # index i + 1, cells outside are infinite
    for k in range(n + m - 1):
        i = np.arange(max(0, k - m + 1), min(n - 1, k) + 1)
        j = k - i
        if k == 0:
            best = np.zeros(1)
        elif kind == "soft":
            q = np.stack([p1[i], p1[i + 1], p2[i]])
            mn = q.min(0)
            ok = np.isfinite(mn)
            s = np.where(ok, mn, 0.)
            with np.errstate(over="ignore"):
                best = np.where(ok, s - gamma * np.log(np.exp(-(q - s) / gamma).sum(0), out=np.zeros(len(s)), where=ok), INF)
        else:
            best = np.minimum(np.minimum(p1[i], p1[i + 1]), p2[i])
        c = C[i, j]
        v = np.maximum(c, best) if kind == "max" else c + best
        if mask is not None:
            v = np.where(mask[i, j], v, INF)
        p2, p1 = p1, np.full(n + 1, INF)
        p1[i + 1] = v
    return float(p1[n])


def lcss_fast(match, mask=None):
    """lcss_len, one anti-diagonal at a time."""
    n, m = match.shape
    ok = match if mask is None else match & mask
    p2, p1 = np.zeros(n + 1, dtype=np.int64), np.zeros(n + 1, dtype=np.int64)
    for k in range(n + m - 1):
        i = np.arange(max(0, k - m + 1), min(n - 1, k) + 1)
        j = k - i
        # cells left of the first column and above the first row count nothing
        left, up, diag = np.where(j > 0, p1[i + 1], 0), np.where(i > 0, p1[i], 0), np.where((i > 0) & (j > 0), p2[i], 0)
        v = np.maximum(np.maximum(left, up), np.where(ok[i, j], diag + 1, 0))
        p2, p1 = p1, np.zeros(n + 1, dtype=np.int64)
        p1[i + 1] = v
    return int(p1[n])


def all_paths(n, m):
    """Every monotone alignment from (0,0) to (n-1,m-1) (tiny sizes only)."""
    def rec(i, j):
        if (i, j) == (n - 1, m - 1):
            yield [(i, j)]
            return
        for di, dj in ((1, 0), (0, 1), (1, 1)):
            if i + di < n and j + dj < m:
                for p in rec(i + di, j + dj):
                    yield [(i, j)] + p
    return rec(0, 0)


def path_problem(path, n, m, mask=None, start=(0, 0), end=None):
    """None if ``path`` is a warping path, else what is wrong with it."""
    path = [(int(i), int(j)) for i, j in path]
    end = end or (n - 1, m - 1)
    if not path:
        return "empty path"
    if start is not None and path[0] != start:
        return "starts at %s" % (path[0],)
    if path[-1] != end:
        return "ends at %s" % (path[-1],)
    for (i, j) in path:
        if not (0 <= i < n and 0 <= j < m):
            return "cell %s outside" % ((i, j),)
        if mask is not None and not mask[i, j]:
            return "cell %s outside the admissible region" % ((i, j),)
    for (i, j), (k, l) in zip(path, path[1:]):
        if (k - i, l - j) not in ((0, 1), (1, 0), (1, 1)):
            return "step %s -> %s" % ((i, j), (k, l))
    return None


def path_cost(path, C, combine="sum"):
    vals = [C[int(i), int(j)] for i, j in path]
    return float(np.sum(vals)) if combine == "sum" else float(np.max(vals))


def lcss_len(match, mask=None):
    """Largest number of matched pairs, strictly increasing in both series,
    all matched pairs inside the region."""
    n, m = match.shape
    A = np.zeros((n + 1, m + 1), dtype=int)
    for i in range(n):
        for j in range(m):
            A[i + 1, j + 1] = max(A[i, j + 1], A[i + 1, j])
            if match[i, j] and (mask is None or mask[i, j]):
                A[i + 1, j + 1] = max(A[i + 1, j + 1], A[i, j] + 1)
    return int(A[n, m])


# ---------------------------------------------------------------- soft-DTW
def softmin(vals, gamma):
    vals = [v for v in vals if v < INF]
    if not vals:
        return INF
    mn = min(vals)
    return mn - gamma * math.log(sum(math.exp(-(v - mn) / gamma) for v in vals))


def soft_dtw(C, gamma, mask=None):
    n, m = C.shape
    A = [[INF] * (m + 1) for _ in range(n + 1)]
    A[0][0] = 0.
    for i in range(n):
        for j in range(m):
            if mask is not None and not mask[i, j]:
                continue
            p = (A[i][j], A[i][j + 1], A[i + 1][j])
            A[i + 1][j + 1] = C[i, j] + (min(p) if gamma == 0 else softmin(p, gamma))
    return A[n][m]


def soft_alignment(C, gamma, mask=None):
    """Gradient of the soft alignment score with respect to the costs:
    forward/backward Gibbs marginals in the log domain."""
    n, m = C.shape
    F = np.full((n, m), INF)     # soft cost of paths (0,0)..(i,j) incl.
    B = np.full((n, m), INF)     # soft cost of paths (i,j)..(n-1,m-1) incl.
    ok = np.ones((n, m), dtype=bool) if mask is None else mask
    for i in range(n):
        for j in range(m):
            if not ok[i, j]:
                continue
            pr = [F[i - 1, j] if i else INF, F[i, j - 1] if j else INF,
                  F[i - 1, j - 1] if i and j else INF]
            F[i, j] = C[i, j] + (0. if i == j == 0 else softmin(pr, gamma))
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            if not ok[i, j]:
                continue
            nx = [B[i + 1, j] if i < n - 1 else INF, B[i, j + 1] if j < m - 1 else INF,
                  B[i + 1, j + 1] if i < n - 1 and j < m - 1 else INF]
            B[i, j] = C[i, j] + (0. if (i, j) == (n - 1, m - 1) else softmin(nx, gamma))
    tot = F[-1, -1]
    E = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            if F[i, j] < INF and B[i, j] < INF:
                E[i, j] = math.exp(-(F[i, j] + B[i, j] - C[i, j] - tot) / gamma)
    return E


# ---------------------------------------------------------------- GAK
def gak_log(a, b, sigma):
    """log of the unnormalised global alignment kernel (log domain)."""
    C = sqdist(a, b)
    g = -C / (2 * sigma ** 2)
    g = g - np.log(2 - np.exp(g))
    n, m = C.shape
    A = np.full((n + 1, m + 1), -INF)
    A[0, 0] = 0.
    for i in range(n):
        for j in range(m):
            v = [A[i, j], A[i + 1, j], A[i, j + 1]]
            mx = max(v)
            if mx == -INF:
                continue
            A[i + 1, j + 1] = g[i, j] + mx + math.log(sum(math.exp(x - mx) for x in v if x > -INF))
    return A[n, m]


def gak(a, b, sigma):
    return math.exp(gak_log(a, b, sigma) - .5 * (gak_log(a, a, sigma) + gak_log(b, b, sigma)))


def real_len(x):
    """Length of a series once trailing all-NaN rows are dropped."""
    ok = ~np.all(np.isnan(x), axis=1)
    return int(np.max(np.nonzero(ok)[0])) + 1 if ok.any() else 0


def accumulated(C, mask, how="sum"):
    """Cell (i, j): the least cost of an alignment of the first i+1 with the
    first j+1 steps inside the mask (infinite when there is none)."""
    n, m = C.shape
    R = np.full((n, m), np.inf)
    for i in range(n):
        for j in range(m):
            if not mask[i][j]:
                continue
            if i == j == 0:
                before = 0.
            else:
                before = min([R[p, q] for p, q in ((i - 1, j), (i, j - 1), (i - 1, j - 1)) if p >= 0 and q >= 0])
            R[i, j] = before + C[i, j] if how == "sum" else max(before, C[i, j])
    return R
