"""P05: envelopes bracket the series and LB_Keogh never exceeds constrained DTW."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import draw_far, scale_of, views


def envelope(c):
    from tslearn.metrics import lb_envelope
    d = gen.dim(c.rng)
    x = gen.values(c.rng, gen.length(c.rng, 1, 60), d)
    r = int(c.rng.choice([0, 1, 2, 5, 17, 100]))
    X, form = gen.reform(c.rng, x, allow_pad=False)
    be = c.choice([None, "numpy", "torch"])
    c.note(ts=x, radius=r, form=form, be=be)
    lo, up = lb_envelope(X, radius=r, be=be)
    lo, up = to_np(lo), to_np(up)
    n = len(x)
    wl = np.array([x[max(0, i - r):i + r + 1].min(0) for i in range(n)])
    wu = np.array([x[max(0, i - r):i + r + 1].max(0) for i in range(n)])
    c.close(lo, wl, "lower envelope is the windowed minimum", rtol=0, atol=0)
    c.close(up, wu, "upper envelope is the windowed maximum", rtol=0, atol=0)
    c.ok((lo <= x).all() and (x <= up).all(), "series lies inside its envelope")
    c.cover(n, d, r, be)


def keogh(c):
    from tslearn.metrics import dtw, lb_envelope, lb_keogh
    n = gen.length(c.rng, 1, 50)
    q, x = gen.pair(c.rng, n, n, 1, same_len=True)
    r = int(c.rng.choice([0, 1, 2, 4, 9, 80]))
    c.note(query=q, candidate=x, radius=r)
    lb = float(lb_keogh(q, ts_candidate=x, radius=r))
    lb2 = float(lb_keogh(q, envelope_candidate=lb_envelope(x, radius=r)))
    band = float(dtw(q, x, global_constraint="sakoe_chiba", sakoe_chiba_radius=r))
    tol = 1e-8 * (1 + scale_of(q, x))
    c.close(lb2, lb, "LB_Keogh from a precomputed envelope is the same")
    lo = np.array([x[max(0, i - r):i + r + 1].min() for i in range(n)])
    up = np.array([x[max(0, i - r):i + r + 1].max() for i in range(n)])
    v = q[:, 0]
    want = np.sqrt(np.sum(np.where(v > up, (v - up) ** 2, 0) + np.where(v < lo, (lo - v) ** 2, 0)))
    c.close(lb, want, "LB_Keogh is the distance to the envelope", rtol=1e-8, atol=tol)
    c.ok(lb <= band + tol, "LB_Keogh <= DTW in the same band", lb=lb, dtw=band)
    c.ok(lb >= 0 and (r > 0 or abs(lb - np.linalg.norm(q - x)) <= tol), "radius 0: LB_Keogh is euclidean")
    wider = float(lb_keogh(q, ts_candidate=x, radius=r + 2))
    c.ok(wider <= lb + tol, "LB_Keogh non-increasing in the radius")
    c.cover(n, r)


def large(c):
    """Long series, wide windows, many features."""
    from tslearn.metrics import dtw, lb_envelope, lb_keogh
    r = c.rng
    n, d = int(r.randint(130, 900)), int(c.choice([1, 1, 3, 9]))
    w = int(c.choice([0, 7, 40, 130, 300, 2000]))
    x = gen.values(r, n, d)
    be = c.choice([None, "numpy", "torch"])
    c.note(ts=x, radius=w, be=be)
    lo, up = lb_envelope(x, radius=w, be=be)
    lo, up = to_np(lo), to_np(up)
    wl = np.array([x[max(0, i - w):i + w + 1].min(0) for i in range(n)])
    wu = np.array([x[max(0, i - w):i + w + 1].max(0) for i in range(n)])
    c.close(lo, wl, "long: lower envelope is the windowed minimum", rtol=0, atol=0)
    c.close(up, wu, "long: upper envelope is the windowed maximum", rtol=0, atol=0)
    x, q = x[:, :1], gen.values(r, n, 1)
    lb = float(lb_keogh(q, ts_candidate=x, radius=w))
    v, wl, wu = q[:, 0], wl[:, 0], wu[:, 0]
    want = np.sqrt(np.sum(np.where(v > wu, (v - wu) ** 2, 0) + np.where(v < wl, (wl - v) ** 2, 0)))
    tol = 1e-8 * (1 + scale_of(q, x)) * np.sqrt(n)
    c.close(lb, want, "long: LB_Keogh is the distance to the envelope", rtol=1e-8, atol=tol)
    c.ok(lb <= float(dtw(q, x, global_constraint="sakoe_chiba", sakoe_chiba_radius=w)) + tol, "long: LB_Keogh <= DTW in the same band")
    c.cover("long", n // 100, d, w, be)


def far(c):
    """Moving both series far away changes nothing: no cancellation."""
    import tslearn.metrics as M
    a, b, u, v = draw_far(c, lo=2)
    k = min(len(a), len(b))
    a, b, u, v = a[:k, :1], b[:k, :1], u[:k, :1], v[:k, :1]
    r = int(c.rng.randint(0, 6))
    c.close(float(M.lb_keogh(u, v, radius=r)), float(M.lb_keogh(a, b, radius=r)), "lower bound of series moved far away", rtol=1e-9, atol=1e-12)
    c.ok(M.lb_keogh(u, v, radius=r) <= M.dtw(u, v, global_constraint="sakoe_chiba", sakoe_chiba_radius=r) * (1 + 1e-12) + 1e-12,
         "the bound holds far away")


WORKLOADS = [W(views(("lb_keogh", {"radius": 2}), same_length=True, dims=1), 30), W(far, 20), W(large, 16), W(envelope, 250), W(keogh, 300)]

META = dict(
    technique="runtime monitor: windowed-extrema oracle and lower-bound monitor against banded DTW",
    rule="seeded series (lengths 1-60), radii from 0 to beyond the length, both backends; distinct by length, features, radius",
    note="Held on the executions driven: exact windowed extrema and the bound inequality on each pair.",
    assumptions=["equal-length univariate pairs for the bound, as documented"])
