"""P20: symbolic representations are faithful and their distances are lower bounds."""
import warnings

import numpy as np
from scipy.stats import norm

from vmon import gen
from vmon.core import W

warnings.simplefilter("ignore")


def _big(c, n, top=70):
    """Now and then, many frames (of long series)."""
    return int(c.rng.randint(20, top)) if c.rng.rand() < .06 else n


def _alphabet(c, a):
    """Now and then, an alphabet beyond what a byte holds."""
    return int(c.choice([26, 64, 127, 128, 129, 200, 256, 257, 300])) if c.rng.rand() < .12 else a


def _data(c, equal, lo):
    d = gen.dim(c.rng, 3)
    top = 24 if lo < 20 else 8 * lo
    L = gen.length(c.rng, lo, top)
    ts = []
    for _ in range(int(c.rng.randint(2, 6))):
        x = gen.values(c.rng, L if equal else gen.length(c.rng, lo, top), d)
        if c.rng.rand() < .5:       # put values in the range where symbols differ
            x = (x - x.mean(0)) / (x.std(0) + (x.std(0) == 0)) * c.choice([1., .5, 2.])
        if c.rng.rand() < .15:
            x[:] = c.choice([.1, .3, -.7])
        ts.append(x)
    if c.rng.rand() < .1:       # a feature that never changes
        f, v = c.rng.randint(d), c.choice([.1, .3, -.7, 1 / 3])
        for x in ts:
            x[:, f] = v
    return ts


def paa_of(x, n):
    s = len(x) // n
    return np.array([[sum(x[i * s + k, f] for k in range(s)) / s for f in range(x.shape[1])] for i in range(n)])


def bins(k, scale=1.):
    return [scale * float(norm.ppf(i / k)) for i in range(1, k)]


def medians(k, scale=1.):
    return [scale * float(norm.ppf((2 * i + 1) / (2 * k))) for i in range(k)]


def symbol(v, bp):
    s = 0
    for b in bp:
        if v >= b:
            s += 1
    return s


def clear(v, bp, tol):
    """v is not within tol of a breakpoint (rounding cannot move it)."""
    return all(abs(v - b) > tol for b in bp)


def _form(c, ts):
    X = gen.pad(ts)
    k = c.choice(["array", "fortran", "list", "readonly"])
    if k == "fortran":
        return np.asfortranarray(X), k
    if k == "readonly":
        X.setflags(write=False)
    if k == "list":
        return X.tolist(), k
    return X, k


def _watch(c, est, X, what):
    B = np.array(X, dtype=float)
    p = dict(est.get_params())
    Y = est.fit_transform(X)
    c.ok(np.array_equal(np.array(X, dtype=float), B, equal_nan=True), "%s: caller's data untouched" % what)
    c.ok(est.get_params() == p, "%s: parameters untouched" % what)
    c.equal(type(est)(**p).fit(X).transform(X), Y, "%s: fit then transform" % what)
    i = int(c.rng.randint(len(B)))
    c.equal(est.transform(B[i:i + 1]), Y[i:i + 1], "%s: a series alone" % what)
    return B, Y


def paa(c):
    from tslearn.piecewise import PiecewiseAggregateApproximation
    n = _big(c, int(c.rng.randint(1, 7)))
    ts = _data(c, c.rng.rand() < .6, n)
    d = ts[0].shape[1]
    X, k = _form(c, ts)
    c.note(ts=ts, n_segments=n, form=k)
    e = PiecewiseAggregateApproximation(n_segments=n)
    B, Y = _watch(c, e, X, "PAA")
    scale = max(1., np.nanmax(np.abs(B)))
    c.ok(Y.shape == (len(ts), n, d), "PAA: shape", got=Y.shape)
    for i, x in enumerate(ts):
        c.close(Y[i], paa_of(x, n), "PAA: average of each frame", rtol=1e-9, atol=1e-9 * scale)
    m = B.shape[1]
    i, j = c.rng.randint(len(ts), size=2)
    D = e.distance_paa(Y[i], Y[j])
    c.close(D, e.distance_paa(Y[j], Y[i]), "PAA distance: symmetric", rtol=1e-12, atol=0)
    c.close(e.distance_paa(Y[i], Y[i]), 0., "PAA distance: zero on itself")
    c.close(e.distance(B[i], B[j]), D, "PAA distance of raw series is that of their representations", rtol=1e-9, atol=1e-9 * scale)
    c.close(D, np.sqrt(m / n * ((Y[i] - Y[j]) ** 2).sum()), "PAA distance: definition", rtol=1e-9, atol=1e-9 * scale)
    if len(ts[i]) == len(ts[j]) == m and m % n == 0:
        true = np.linalg.norm(ts[i] - ts[j])
        c.ok(D <= true * (1 + 1e-9) + 1e-9 * scale, "PAA distance is a lower bound", got=D, true=true)
        c.event("lower bounds compared")
    I = e.inverse_transform(Y)
    c.ok(I.shape == (len(ts), m, d), "PAA inverse: full length", got=I.shape)
    s = m // n
    for t in range(n * s):
        c.equal(I[:, t], Y[:, t // s], "PAA inverse: constant frames")
    if m % n == 0:
        c.close(e.transform(I), Y, "PAA of its inverse", rtol=1e-9, atol=1e-9 * scale)
    c.raises((ValueError,), lambda: e.transform(np.zeros((1, m, d + 1))), "PAA: other feature counts refused")
    c.cover("paa", n, m, d, len({len(x) for x in ts}))


def _sax_symbols(c, Y, cols, P, bp, what, tol):
    for i in range(Y.shape[0]):
        for t in range(Y.shape[1]):
            for f in range(P.shape[2]):
                v = P[i, t, f]
                if clear(v, bp, tol):
                    c.ok(Y[i, t, cols + f] == symbol(v, bp), "%s: symbol of the quantile bin" % what,
                         value=v, got=Y[i, t, cols + f], want=symbol(v, bp))


def _scaled(B, on):
    if not on:
        return B, np.zeros(B.shape[2]), np.ones(B.shape[2])
    mu = np.array([np.nanmean(B[:, :, f]) for f in range(B.shape[2])])
    sd = np.array([np.nanstd(B[:, :, f]) if np.nanmax(B[:, :, f]) > np.nanmin(B[:, :, f]) else 1. for f in range(B.shape[2])])
    return (B - mu) / sd, mu, sd


def sax(c):
    from tslearn.metrics import cdist_sax
    from tslearn.piecewise import SymbolicAggregateApproximation
    n, a = _big(c, int(c.rng.randint(1, 7)), 40), _alphabet(c, int(c.rng.randint(2, 12)))
    on = bool(c.rng.rand() < .5)
    ts = _data(c, c.rng.rand() < .7, n)
    d = ts[0].shape[1]
    X, k = _form(c, ts)
    c.note(ts=ts, n_segments=n, alphabet=a, scale=on, form=k)
    e = SymbolicAggregateApproximation(n_segments=n, alphabet_size_avg=a, scale=on)
    B, Y = _watch(c, e, X, "SAX")
    S, mu, sd = _scaled(B, on)
    tol = 1e-9 * max(1., np.nanmax(np.abs(B / sd)))
    m = B.shape[1]
    c.ok(Y.shape == (len(ts), n, d) and np.issubdtype(Y.dtype, np.integer), "SAX: integer symbols", got=str(Y.dtype))
    c.ok(Y.min() >= 0 and Y.max() < a, "SAX: symbols of the alphabet", got=[Y.min(), Y.max()])
    P = np.array([paa_of(S[i][:len(ts[i])], n) for i in range(len(ts))])
    _sax_symbols(c, Y, 0, P, bins(a), "SAX", tol)
    I = e.inverse_transform(Y)
    c.ok(I.shape == (len(ts), m, d), "SAX inverse: full length", got=I.shape)
    med = np.array(medians(a))
    s = m // n
    full = med[Y][:, np.minimum(np.arange(m) // s, n - 1)]
    c.close(I[:, :n * s], (full * sd + mu)[:, :n * s], "SAX inverse: median of the symbol's bin", rtol=1e-9, atol=tol)
    # distances
    bp = bins(a)
    def mind(u, v):
        q = 0.
        for t in range(n):
            for f in range(d):
                hi, lo = max(u[t, f], v[t, f]), min(u[t, f], v[t, f])
                if hi - lo > 1:
                    q += (bp[hi - 1] - bp[lo]) ** 2
        return np.sqrt(q * m / n)
    i, j = c.rng.randint(len(ts), size=2)
    D = e.distance_sax(Y[i], Y[j])
    c.close(D, mind(Y[i], Y[j]), "SAX distance: definition", rtol=1e-9, atol=1e-9)
    c.close(e.distance_sax(Y[j], Y[i]), D, "SAX distance: symmetric", rtol=1e-12, atol=1e-12)
    c.close(e.distance_sax(Y[i], Y[i]), 0., "SAX distance: zero on equal symbols")
    c.close(e.distance(B[i], B[j]), D, "SAX distance of raw series is that of their representations", rtol=1e-12, atol=1e-12)
    if len(ts[i]) == len(ts[j]) == m and m % n == 0:
        Pi = np.array([paa_of(x, n) for x in S[[i, j]]])
        if all(clear(v, bp, tol) for v in Pi.ravel()):
            true = np.linalg.norm(S[i] - S[j])
            c.ok(D <= true * (1 + 1e-9) + 1e-9, "SAX distance is a lower bound", got=D, true=true)
            pd = np.sqrt(m / n) * np.linalg.norm(Pi[0] - Pi[1])
            c.ok(D <= pd * (1 + 1e-9) + 1e-9, "SAX distance bounds the PAA distance", got=D, paa=pd)
            c.event("lower bounds compared")
    nj = c.choice([None, 2])
    M = cdist_sax(Y, e.breakpoints_avg_, m, n_jobs=nj)
    c.close(M, [[mind(u, v) for v in Y] for u in Y], "cdist_sax: pairwise distances", rtol=1e-9, atol=1e-9)
    c.close(cdist_sax(Y, e.breakpoints_avg_, m, Y[:2], n_jobs=nj), M[:, :2], "cdist_sax: two datasets", rtol=1e-9, atol=1e-9)
    c.cover("sax", n, a, m, d, on)


def oned(c):
    from tslearn.piecewise import OneD_SymbolicAggregateApproximation
    n, a, b = _big(c, int(c.rng.randint(1, 6)), 30), _alphabet(c, int(c.rng.randint(2, 9))), _alphabet(c, int(c.rng.randint(2, 9)))
    on = bool(c.rng.rand() < .5)
    ts = _data(c, True, n)
    d = ts[0].shape[1]
    if c.rng.rand() < .3:                # integers far from zero: averages saturate, slopes stay exact
        on = False
        off = 2. ** int(c.choice([20, 32, 44, 48])) * (1 if c.rng.rand() < .5 else -1)
        ts = [np.round(3 * x) + off for x in ts]
        c.event("far series", len(ts))
    X, k = _form(c, ts)
    sl = None if c.rng.rand() < .5 else float(c.choice([.05, .3, 1.]))
    c.note(ts=ts, n_segments=n, alphabets=(a, b), sigma_l=sl, scale=on, form=k)
    e = OneD_SymbolicAggregateApproximation(n_segments=n, alphabet_size_avg=a, alphabet_size_slope=b, sigma_l=sl, scale=on)
    B, Y = _watch(c, e, X, "1d-SAX")
    c.ok(e.sigma_l == sl, "1d-SAX: parameter untouched")
    S, mu, sd = _scaled(B, on)
    tol = 1e-9 * max(1., np.nanmax(np.abs(B / sd)))
    m = B.shape[1]
    s = m // n
    sg = np.sqrt(.03 / s) if sl is None else sl
    c.ok(Y.shape == (len(ts), n, 2 * d) and np.issubdtype(Y.dtype, np.integer), "1d-SAX: integer symbols", got=Y.shape)
    P = np.array([paa_of(x, n) for x in S])
    _sax_symbols(c, Y, 0, P, bins(a), "1d-SAX average", tol)
    Q = np.zeros(P.shape)
    t = np.arange(s) - (s - 1) / 2
    if s > 1:
        for q in range(n):
            seg = S[:, q * s:(q + 1) * s]
            seg = seg - seg[:, :1]
            Q[:, q] = np.einsum("itf,t->if", seg, t) / (t ** 2).sum()
    _sax_symbols(c, Y, d, Q, bins(b, sg), "1d-SAX slope", tol if on else 1e-9 * max(1., np.ptp(B)))
    I = e.inverse_transform(Y)
    c.ok(I.shape == (len(ts), m, d), "1d-SAX inverse: full length", got=I.shape)
    ma, mb = np.array(medians(a)), np.array(medians(b, sg))
    R = np.zeros((len(ts), n * s, d))
    for q in range(n):
        R[:, q * s:(q + 1) * s] = ma[Y[:, q, :d]][:, None] + mb[Y[:, q, d:]][:, None] * t[None, :, None]
    c.close(I[:, :n * s], R * sd + mu, "1d-SAX inverse: line of the symbols", rtol=1e-9, atol=tol)
    c.equal(e.inverse_transform(Y), I, "1d-SAX inverse: repeatable everywhere")
    i, j = c.rng.randint(len(ts), size=2)
    D = e.distance_1d_sax(Y[i], Y[j])
    c.close(D, np.linalg.norm(R[i] - R[j]), "1d-SAX distance: between the lines of the symbols", rtol=1e-9, atol=1e-9)
    c.close(e.distance_1d_sax(Y[j], Y[i]), D, "1d-SAX distance: symmetric", rtol=1e-12, atol=1e-12)
    c.close(e.distance_1d_sax(Y[i], Y[i]), 0., "1d-SAX distance: zero on equal symbols")
    c.close(e.distance(B[i], B[j]), D, "1d-SAX distance of raw series is that of their representations", rtol=1e-12, atol=1e-12)
    c.cover("1d", n, a, b, m, d, on, sl)


def unwritten(c):
    """Positions after the last full frame hold no left-over memory."""
    from tslearn.piecewise import OneD_SymbolicAggregateApproximation, SymbolicAggregateApproximation, \
        PiecewiseAggregateApproximation
    n = int(c.rng.randint(2, 6))
    L = n * int(c.rng.randint(1, 30)) + int(c.rng.randint(1, n))
    X = c.rng.randn(3, L, gen.dim(c.rng, 2))
    c.note(X=X, n_segments=n)
    for cls in (PiecewiseAggregateApproximation, SymbolicAggregateApproximation, OneD_SymbolicAggregateApproximation):
        e = cls(n_segments=n)
        Y = e.fit_transform(X)
        outs = []
        for k in range(3):
            # fill the allocator with recognisable garbage of the same size
            junk = [np.full(X.shape, 7e77 + k) for _ in range(6)]
            del junk
            outs.append(e.inverse_transform(Y))
        for o in outs:
            c.equal(o, outs[0], "%s inverse: repeatable everywhere" % cls.__name__)
            c.ok(np.abs(o).max() < 1e3, "%s inverse: no left-over memory" % cls.__name__, got=np.abs(o).max())
    c.cover("tail", n, L)


WORKLOADS = [W(paa, 250), W(sax, 250), W(oned, 110), W(unwritten, 60)]
META = dict(
    technique="runtime monitoring: frame-by-frame reference representation and lower-bound monitor on generated datasets",
    rule="datasets, frame counts, alphabets, scaling and containers drawn per case",
    note="Symbols are asserted when the average (slope) is clear of a bin boundary by more than rounding.",
    assumptions=["no series is shorter than the number of frames", "1d-SAX needs equal lengths (documented)"])
