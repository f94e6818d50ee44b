"""Shared helpers of the checks."""
import numpy as np

from vmon import gen, ref
from vmon.core import to_np


def draw_far(c, lo=1, hi=40):
    """A pair on a dyadic grid and the same pair moved far away, exactly."""
    rng = c.rng
    d = gen.dim(rng, 4)
    n, m = int(rng.randint(lo, hi)), int(rng.randint(lo, hi))
    step = 2. ** -int(rng.randint(0, 11))
    a, b = [np.clip(np.round(gen.values(rng, k, d, c.choice(["gauss", "walk", "ties"])) / step) * step, -64., 64.) for k in (n, m)]
    if rng.rand() < .2:
        b = a.copy()
        b[int(rng.randint(len(b)))] += step
    off = (2. ** rng.randint(8, 25, size=d)) * rng.choice([-1., 1.], size=d)
    c.note(s1=a, s2=b, offset=off)
    assert np.array_equal(a + off - off, a) and np.array_equal(b + off - off, b)
    c.cover("far", d, n, m, int(np.abs(off).max()))
    return a, b, a + off, b + off


def scale_of(*xs):
    return max([1e-12] + [float(np.nanmax(np.abs(x))) for x in xs if np.size(x)])


def draw_pair_with_constraint(c, lo=1, hi=30, p_none=.35, d=None):
    """(a, b, kwargs, inner mask, outer mask): a constraint with an admissible
    alignment for the two sizes."""
    for _ in range(20):
        a, b = gen.pair(c.rng, lo, hi, d)
        kw, (kind, p) = gen.constraint(c.rng, len(a), len(b), p_none)
        inner, outer = ref.masks(kind, p, len(a), len(b))
        if kind == "none" or (ref.feasible(inner) and inner.any(0).all() and inner.any(1).all()):
            c.note(s1=a, s2=b, constraint=kw)
            return a, b, kw, inner, outer, kind
    c.skip()


def draw_long(c, top=900, thin=True, d=None):
    """A long pair with a constraint: hundreds of steps each, or tens of thousands against a few."""
    r = c.rng
    d = d or gen.dim(r, 3)
    for _ in range(20):
        kind = "none"
        if thin and r.rand() < .25:     # beyond 16-bit indices
            n, m = int(r.randint(32700, 36000)), int(r.randint(1, 4))
            if r.rand() < .5:
                n, m = m, n
            kw, p = ({"sakoe_chiba_radius": 3}, ("sakoe_chiba", 3)) if r.rand() < .3 else ({}, ("none", None))
        else:
            n = int(r.randint(100, top))
            m = n if r.rand() < .3 else int(r.randint(max(2, n // 3), n + n // 3))
            u = r.rand()
            if u < .3:
                kw, p = {}, ("none", None)
            elif u < .7:
                w = int(r.choice([0, 3, 20, 130, 300]))
                kw, p = {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": w}, ("sakoe_chiba", w)
            else:
                s = float(r.choice([1.3, 2., 3.]))
                kw, p = {"global_constraint": "itakura", "itakura_max_slope": s}, ("itakura", s)
        inner, outer = ref.masks(p[0], p[1], n, m)
        if p[0] == "none" or (inner.any(0).all() and inner.any(1).all() and np.isfinite(ref.align_fast(np.zeros((n, m)), inner))):
            a, b = gen.values(r, n, d), gen.values(r, m, d)
            if r.rand() < .4 and min(n, m) > 10:     # a warped copy
                b = a[np.sort(r.randint(0, n, size=m))] + .1 * r.randn(m, d)
            c.note(s1=a, s2=b, constraint=kw)
            c.cover("long", p[0], n // 100, m // 100, d)
            return a, b, kw, inner, outer, p[0]
    c.skip()


def same_arrays(before, after):
    for x, y in zip(before, after):
        if isinstance(x, np.ndarray):
            if x.dtype != y.dtype or x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                return False
        elif x != y and not (x != x and y != y):
            return False
    return True


def views(*functions, same_length=False, dims=3):
    """A workload: measures of overlapping views of one array (a series with
    its own past, its reverse, itself) are those of independent copies."""
    def workload(c):
        import tslearn.metrics as M
        r = c.rng
        name, kw = functions[r.randint(len(functions))]
        f = getattr(M, name)
        x = gen.values(r, int(r.randint(5, 24)), gen.dim(r, dims), c.choice(["gauss", "walk", "sine"]))
        x = (x + 1e-3 * r.randn(*x.shape))[:, :dims]
        how = c.choice(["lag", "lag", "reversed", "head and tail", "same", "features", "stride"])
        if how == "head and tail" and same_length:
            how = "lag"
        if how == "features" and x.shape[1] < 2:
            how = "reversed"
        k = int(r.randint(1, 4))
        a, b = {"lag": lambda: (x[:-k], x[k:]), "reversed": lambda: (x, x[::-1]), "same": lambda: (x, x),
                "head and tail": lambda: (x[:-k], x[1:]), "features": lambda: (x, x[:, ::-1]),
                "stride": lambda: (x[:2 * (len(x) // 2):2], x[1::2])}[how]()
        if len(a) > len(b):
            a, b = b, a
        c.note(function=name, x=x, how=how, k=k, params=kw)
        u, v = a.copy(), b.copy()
        want = f(u, v, **kw)
        got = f(a, b, **kw)
        import itertools
        flat = lambda o: o if isinstance(o, tuple) else (o,)
        for p, q in itertools.zip_longest(flat(got), flat(want)):
            if isinstance(q, list):
                c.ok([tuple(map(int, t)) for t in p] == [tuple(map(int, t)) for t in q], "%s: views of one array give what copies give" % name, got=p, want=q)
            elif q is None or np.isscalar(q) or isinstance(q, np.ndarray):
                c.close(np.asarray(p, dtype=float), np.asarray(q, dtype=float), "%s: views of one array give what copies give" % name, rtol=1e-9, atol=1e-9)
        c.equal(a, u, "%s leaves views alone" % name)
        c.event("overlapping views")
        c.cover("views", name, how, x.shape)
    workload.__name__ = "views"
    return workload
