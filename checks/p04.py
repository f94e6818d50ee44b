"""P04: the constraint regions are the ones documented."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np


def sakoe(c):
    from tslearn.metrics import sakoe_chiba_mask, compute_mask
    n, m = gen.length(c.rng, 1, 30), gen.length(c.rng, 1, 30)
    r = int(c.rng.choice([0, 1, 2, 3, 7, 40]))
    c.note(n=n, m=m, radius=r)
    want = ref.sakoe_mask(n, m, r)
    be = c.choice([None, "numpy", "torch"])
    got = to_np(sakoe_chiba_mask(n, m, r, be=be))
    c.equal(got.astype(bool), want, "sakoe-chiba band is the documented one", be=be)
    c.ok(got.shape == (n, m) and got[0, 0] and got[-1, -1], "band contains both corners")
    c.ok(ref.feasible(got.astype(bool)), "band admits an alignment")
    x, y = gen.values(c.rng, n, 2), gen.values(c.rng, m, 2)
    g = to_np(compute_mask(x, y, 2, sakoe_chiba_radius=r, be=None))
    c.equal(g.astype(bool), want, "compute_mask(sakoe_chiba)")
    c.equal(to_np(compute_mask(x, y, 0, sakoe_chiba_radius=r)).astype(bool), want, "compute_mask infers sakoe_chiba")
    c.equal(to_np(compute_mask(n, m, 2)).astype(bool), ref.sakoe_mask(n, m, 1), "default radius is 1")
    c.ok(to_np(compute_mask(n, m)).all(), "no constraint: everything admissible")
    c.cover(n, m, r, be)


def itakura(c):
    from tslearn.metrics import itakura_mask, compute_mask
    n, m = gen.length(c.rng, 1, 30), gen.length(c.rng, 1, 30)
    if c.rng.rand() < .4:
        m = n
    s = float(c.choice([1., 1.1, 1.3, 1.5, 2., 2.5, 3., 4., 7.]))
    c.note(n=n, m=m, slope=s)
    inner, outer = ref.masks("itakura", s, n, m)
    be = c.choice([None, "numpy", "torch"])
    try:
        got = to_np(itakura_mask(n, m, s, be=be)).astype(bool)
    except RuntimeWarning:
        c.ok(not (inner.any(0).all() and inner.any(1).all()),
             "unfeasible constraint reported only when a row or column is empty")
        c.cover(n, m, s, "unfeasible")
        return
    c.ok(got.shape == (n, m), "itakura mask shape")
    c.ok(outer.any(0).all() and outer.any(1).all(), "empty row or column is reported", got=got)
    c.ok(not (inner & ~got).any(), "itakura: every cell of the parallelogram is admissible",
         missing=np.argwhere(inner & ~got), be=be)
    c.ok(not (got & ~outer).any(), "itakura: no cell outside the parallelogram",
         extra=np.argwhere(got & ~outer), be=be)
    if be is None:
        g = to_np(compute_mask(n, m, 1, itakura_max_slope=s)).astype(bool)
        c.equal(g, got, "compute_mask(itakura)")
        g = to_np(compute_mask(n, m, 0, itakura_max_slope=s)).astype(bool)
        c.equal(g, got, "compute_mask infers itakura")
    if n == m:
        c.ok(all(got[i, i] for i in range(n)), "itakura contains the diagonal for equal sizes")
    c.cover(n, m, s, be)


def large(c):
    """Regions of hundreds of rows and columns, or tens of thousands by a few."""
    from tslearn.metrics import compute_mask, itakura_mask, sakoe_chiba_mask
    r = c.rng
    n = int(r.randint(60, 500))
    m = n if r.rand() < .3 else int(r.randint(max(2, n // 3), n + n // 2))
    if r.rand() < .15:
        n, m = int(r.randint(32700, 34000)), int(r.randint(1, 4))
    if r.rand() < .5:
        n, m = m, n
    w, s = int(c.choice([0, 1, 12, 130, 300])), float(c.choice([1.2, 1.5, 2., 3.3]))
    c.note(n=n, m=m, radius=w, slope=s)
    c.equal(to_np(sakoe_chiba_mask(n, m, w)).astype(bool), ref.sakoe_mask(n, m, w), "large sakoe-chiba band is the documented one")
    c.equal(to_np(compute_mask(n, m, sakoe_chiba_radius=w)).astype(bool), ref.sakoe_mask(n, m, w), "large band by inference")
    inner, outer = ref.masks("itakura", s, n, m)
    try:
        got = to_np(itakura_mask(n, m, s)).astype(bool)
    except RuntimeWarning:
        c.ok(not (inner.any(0).all() and inner.any(1).all()), "large: unfeasible constraint reported only when a row or column is empty")
        return
    c.ok(outer.any(0).all() and outer.any(1).all(), "large: empty row or column is reported")
    c.ok(not (inner & ~got).any(), "large itakura: every cell of the parallelogram is admissible", missing=np.argwhere(inner & ~got)[:5])
    c.ok(not (got & ~outer).any(), "large itakura: no cell outside the parallelogram", extra=np.argwhere(got & ~outer)[:5])
    c.cover("large", n // 50, m // 50, w, s)


def agree(c):
    """NumPy and PyTorch build the same region."""
    from tslearn.metrics import itakura_mask, sakoe_chiba_mask
    n, m = gen.length(c.rng, 1, 40), gen.length(c.rng, 1, 40)
    s = float(1 + 4 * c.rng.rand())
    r = int(c.rng.randint(0, 12))
    c.note(n=n, m=m, slope=s, radius=r)
    c.equal(to_np(sakoe_chiba_mask(n, m, r, be="torch")), sakoe_chiba_mask(n, m, r, be="numpy"), "sakoe: torch = numpy")
    out = []
    for be in ("numpy", "torch"):
        try:
            out.append(to_np(itakura_mask(n, m, s, be=be)).astype(bool))
        except RuntimeWarning:
            out.append(None)
    inner, outer = ref.masks("itakura", s, n, m)
    if (out[0] is None) != (out[1] is None):
        c.ok(not np.array_equal(inner, outer), "itakura: torch and numpy agree on feasibility")
    elif out[0] is not None:
        diff = out[0] != out[1]
        c.ok(not (diff & (inner | ~outer)).any(), "itakura: torch = numpy", diff=np.argwhere(diff))
    c.cover(n, m, r)


def refused(c):
    from tslearn.metrics import dtw, frechet, lcss, soft_dtw, dtw_path
    x, y = gen.pair(c.rng, 3, 12, 2)
    f = c.choice([dtw, frechet, soft_dtw, dtw_path, lcss])
    c.raises(RuntimeWarning, lambda: f(x, y, sakoe_chiba_radius=2, itakura_max_slope=2.),
             "ambiguous constraint (both parameters, none chosen) refused", f=f.__name__)
    c.raises((KeyError, ValueError), lambda: f(x, y, global_constraint="sakoe"),
             "unknown constraint name refused", f=f.__name__)
    c.cover(f.__name__)


WORKLOADS = [W(large, 40), W(sakoe, 200), W(itakura, 300), W(agree, 120), W(refused, 20, 60)]

META = dict(
    technique="runtime monitor: cell-by-cell comparison of masks with the documented region",
    rule="seeded (lengths 1-40, radius 0-40, slope 1-7) on both backends; distinct by those",
    note="Held on the executions driven: each cell of each mask compared with the documented region "
         "(Itakura cells within .005 of the border undecided, they are rounded by design).",
    assumptions=["slopes >= 1 as documented"])
