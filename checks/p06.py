"""P06: soft-DTW is the soft minimum of alignment costs, its alignment the derivative."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import draw_far, draw_long, draw_pair_with_constraint, scale_of, views

GAMMAS = [1e-6, 1e-3, .01, .1, 1., 1., 5., 100.]


def _tol(C, gamma):
    return 1e-8 * (1 + float(np.max(C)) * sum(C.shape) + gamma)


def value(c):
    from tslearn.metrics import soft_dtw
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c)
    g = c.choice(GAMMAS)
    A, _ = gen.reform(c.rng, a, allow_list=c.rng.rand() < .5)
    B, _ = gen.reform(c.rng, b, allow_list=c.rng.rand() < .5)
    c.note(gamma=g)
    C = ref.sqdist(a, b)
    v = float(soft_dtw(A, B, gamma=g, **kw))
    lo, hi = ref.soft_dtw(C, g, outer), ref.soft_dtw(C, g, inner)
    tol = _tol(C, g)
    c.ok(lo - tol <= v <= hi + tol, "soft_dtw is the soft minimum over admissible alignments",
         got=v, want=(lo, hi), gamma=g)
    c.cover(kind, len(a), len(b), g)


def enumerated(c):
    from tslearn.metrics import soft_dtw
    n, m = int(c.rng.randint(1, 5)), int(c.rng.randint(1, 5))
    a, b = gen.values(c.rng, n, 2), gen.values(c.rng, m, 2)
    g = c.choice([.05, 1., 10.])
    c.note(s1=a, s2=b, gamma=g)
    C = ref.sqdist(a, b)
    costs = np.array([ref.path_cost(p, C) for p in ref.all_paths(n, m)])
    c.event("alignments enumerated", len(costs))
    want = costs.min() - g * np.log(np.sum(np.exp(-(costs - costs.min()) / g)))
    c.close(float(soft_dtw(a, b, gamma=g)), want, "soft_dtw is the log-sum-exp over all alignments",
            rtol=1e-8, atol=_tol(C, g))
    c.cover(n, m, g)


def alignment(c):
    from tslearn.metrics import soft_dtw, soft_dtw_alignment
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=18)
    g = c.choice([1e-4, 1e-2, .1, 1., 10.])
    c.note(gamma=g)
    C = ref.sqdist(a, b)
    E, v = soft_dtw_alignment(a, b, gamma=g, **kw)
    E = to_np(E)
    c.close(float(v), float(soft_dtw(a, b, gamma=g, **kw)), "alignment returns the value of soft_dtw",
            rtol=1e-8, atol=_tol(C, g))
    c.ok(E.shape == C.shape and np.isfinite(E).all() and (E >= -1e-12).all(), "soft alignment is finite and non-negative", E=E)
    if np.array_equal(inner, outer):
        want = ref.soft_alignment(C, g, inner)
        slack = 1e-6 + 1e-14 * float(C.max()) * sum(C.shape) / g
        c.close(E, want, "soft alignment is the derivative with respect to the costs", rtol=1e-5 + slack, atol=slack)
    c.ok((np.abs(E[~outer]) < 1e-12).all(), "soft alignment vanishes outside the region")
    c.close(E[-1, -1], 1., "alignment ends in the last cell", rtol=1e-5, atol=1e-5)
    c.cover(kind, len(a), len(b), g)


def zero(c):
    """At zero smoothing: squared DTW, a hard alignment, in every form."""
    from tslearn.metrics import cdist_soft_dtw, dtw, soft_dtw, soft_dtw_alignment
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=15)
    C = ref.sqdist(a, b)
    tol = _tol(C, 0)
    c.close(float(soft_dtw(a, b, gamma=0., **kw)), float(dtw(a, b, **kw)) ** 2, "gamma 0: squared DTW", rtol=1e-8, atol=tol)
    E, v = soft_dtw_alignment(a, b, gamma=0., **kw)
    E = to_np(E)
    cells = sorted((int(i), int(j)) for i, j in np.argwhere(E != 0))
    c.ok(set(np.unique(E)) <= {0., 1.}, "gamma 0: alignment is 0/1")
    prob = ref.path_problem(cells, len(a), len(b), outer)
    c.ok(prob is None, "gamma 0: alignment is an admissible path", problem=prob)
    c.close(float(np.sum(E * C)), float(v), "gamma 0: alignment attains the value", rtol=1e-7, atol=tol)
    c.close(float(v), float(dtw(a, b, **kw)) ** 2, "gamma 0: alignment value is squared DTW", rtol=1e-8, atol=tol)
    if kind == "none" or len(a) == len(b):
        M = to_np(cdist_soft_dtw(gen.pad([a]), gen.pad([b]), gamma=0., **kw))
        d = float(dtw(a, b, **kw))    # (not squared: known finding, probed below)
        c.ok(min(abs(M[0, 0] - d), abs(M[0, 0] - d * d)) <= 1e-7 * (1 + d * d),
             "gamma 0: cross form honours the constraint", got=M[0, 0], dtw=d)
    c.cover(kind, len(a), len(b))


def cross_zero(c):
    """Fixed probe of a recorded defect: the cross form forgets the square."""
    from tslearn.metrics import cdist_soft_dtw, soft_dtw
    x, y = np.array([1., 2., 3.]), np.array([1., 2., 6.])
    M = cdist_soft_dtw([x], [y], gamma=0.)
    c.finding("cdist_soft_dtw-gamma0-not-squared", abs(M[0, 0] - soft_dtw(x, y, gamma=0.)) < 1e-9,
              "cdist_soft_dtw(gamma=0) differs from soft_dtw(gamma=0)", got=M[0, 0])


def laws(c):
    from tslearn.metrics import dtw, soft_dtw, soft_dtw_normalized
    a, b = gen.pair(c.rng, 1, 25)
    c.note(s1=a, s2=b)
    C = ref.sqdist(a, b)
    d2 = float(dtw(a, b)) ** 2
    tol = _tol(C, 10)
    gs = np.sort(10 ** c.rng.uniform(-3, 1.5, size=4))
    vals = [float(soft_dtw(a, b, gamma=g)) for g in gs]
    c.ok(all(v <= d2 + tol for v in vals), "soft_dtw <= dtw^2", vals=vals, dtw2=d2)
    c.ok(all(y <= x + tol for x, y in zip(vals, vals[1:])), "soft_dtw decreases with gamma", vals=vals, gammas=gs)
    g = float(gs[1])
    c.close(float(soft_dtw(b, a, gamma=g)), vals[1], "soft_dtw symmetric", rtol=1e-8, atol=tol)
    nv = float(soft_dtw_normalized(a, b, gamma=g))
    want = vals[1] - .5 * (ref.soft_dtw(ref.sqdist(a, a), g) + ref.soft_dtw(ref.sqdist(b, b), g))
    c.close(nv, want, "normalised soft_dtw is its definition", rtol=1e-7, atol=tol)
    c.close(float(soft_dtw_normalized(a, a, gamma=g)), 0., "normalised soft_dtw(x, x) = 0", atol=tol)
    c.ok(nv >= -tol if len(a) == len(b) == 1 else True, "single points: normalised value non-negative")
    c.cover(len(a), len(b))


def normalized(c):
    """The normalised measure, under a constraint: definition, symmetry, zero."""
    from tslearn.metrics import cdist_soft_dtw_normalized, soft_dtw_normalized
    ts = gen.dataset(c.rng, n=int(c.rng.randint(2, 4)), lo=4, hi=14, equal=True)
    n = len(ts[0])
    kw, (kind, p) = gen.constraint(c.rng, n, n, .1)
    inner, outer = ref.masks(kind, p, n, n)
    if not ((inner == outer).all() and ref.feasible(inner) and inner.any(0).all() and inner.any(1).all()):
        c.skip()
    g = float(10 ** c.rng.uniform(-2, 1.5))
    c.note(dataset=ts, constraint=kw, gamma=g)
    S = np.array([[ref.soft_dtw(ref.sqdist(x, y), g, inner) for y in ts] for x in ts])
    want = S - .5 * (np.diag(S)[:, None] + np.diag(S)[None])
    tol = _tol(max(ref.sqdist(x, y).max() for x in ts for y in ts) * np.ones(1), 10) + 1e-9 * np.abs(S).max()
    got = np.array([[float(soft_dtw_normalized(x, y, gamma=g, **kw)) for y in ts] for x in ts])
    c.close(got, want, "normalised soft_dtw under a constraint is its definition", rtol=1e-7, atol=tol)
    c.close(got, got.T, "normalised soft_dtw under a constraint is symmetric", rtol=1e-8, atol=tol)
    c.close(np.diag(got), np.zeros(len(ts)), "normalised soft_dtw(x, x) = 0 under a constraint", rtol=0, atol=tol)
    c.close(cdist_soft_dtw_normalized(gen.pad(ts), gamma=g, **kw), want, "cdist_soft_dtw_normalized under a constraint", rtol=1e-7, atol=tol)
    c.cover(kind, n, len(ts))


def classes(c):
    """The SoftDTW / SquaredEuclidean classes: value, gradient, chain rule."""
    from tslearn.metrics import SoftDTW, SquaredEuclidean
    a, b = gen.pair(c.rng, 1, 12)
    g = c.choice([.05, .5, 5.])
    be = c.choice([None, None, None, "torch"])
    c.note(s1=a, s2=b, gamma=g, be=be)
    if be == "torch":
        import torch
        D = SquaredEuclidean(torch.tensor(a), torch.tensor(b), be="torch")
    else:
        D = SquaredEuclidean(a, b)
    C = ref.sqdist(a, b)
    c.close(to_np(D.compute()), C, "SquaredEuclidean.compute", rtol=1e-8, atol=1e-9 * (1 + scale_of(a, b) ** 2))
    s = SoftDTW(D, gamma=g, be=be)
    v = float(s.compute())
    c.close(v, ref.soft_dtw(C, g), "SoftDTW.compute is the soft minimum", rtol=1e-7, atol=_tol(C, g))
    E = to_np(s.grad())
    want = ref.soft_alignment(C, g)
    c.close(E, want, "SoftDTW.grad is the derivative", rtol=1e-5, atol=1e-6)
    import torch as _t
    G = to_np(D.jacobian_product(_t.tensor(np.ascontiguousarray(E)) if be == "torch" else np.ascontiguousarray(E)))
    wantG = 2 * (E.sum(1)[:, None] * a - E @ b)
    c.close(G, wantG, "jacobian_product is the chain rule", rtol=1e-6, atol=1e-6 * (1 + scale_of(a, b)))
    c.cover(len(a), len(b), g, be)


def torch_value(c):
    import torch
    from tslearn.metrics import soft_dtw, soft_dtw_alignment
    a, b, kw, inner, outer, kind = draw_pair_with_constraint(c, hi=8)
    g = c.choice([.05, .5, 5.])
    C = ref.sqdist(a, b)
    ta, tb = torch.tensor(a), torch.tensor(b)
    v = float(soft_dtw(ta, tb, gamma=g, **kw))
    lo, hi = ref.soft_dtw(C, g, outer), ref.soft_dtw(C, g, inner)
    tol = 1e-6 * (1 + scale_of(a, b) ** 2 * 1e-3) + _tol(C, g)
    c.ok(lo - tol <= v <= hi + tol, "torch: soft_dtw is the soft minimum", got=v, want=(lo, hi))
    E, v2 = soft_dtw_alignment(ta, tb, gamma=g, **kw)
    c.close(float(v2), v, "torch: alignment value", rtol=1e-6, atol=tol)
    if np.array_equal(inner, outer):
        c.close(to_np(E), ref.soft_alignment(C, g, inner), "torch: soft alignment is the derivative", rtol=1e-4, atol=1e-4)
    c.cover(kind, len(a), len(b), g)


def large(c):
    """Long series: the value, and the soft alignment checked as a flow."""
    from tslearn.metrics import soft_dtw, soft_dtw_alignment
    a, b, kw, inner, outer, kind = draw_long(c, top=500)
    g = c.choice([.01, .1, 1., 10.])
    c.note(gamma=g)
    C = ref.sqdist(a, b)
    lo, hi = ref.align_fast(C, outer, "soft", g), ref.align_fast(C, inner, "soft", g)
    tol = 1e-9 * (1 + abs(lo) + abs(hi)) + 1e-9 * (1 + C.max() + g * sum(C.shape))
    v = float(soft_dtw(a, b, gamma=g, **kw))
    c.ok(lo - tol <= v <= hi + tol, "long series: soft minimum over admissible alignments", got=v, want=(lo, hi))
    E, v2 = soft_dtw_alignment(a, b, gamma=g, **kw)
    E = to_np(E)
    c.close(float(v2), v, "long series: alignment returns the value", rtol=1e-9, atol=tol)
    slack = 1e-3 + 1e-16 * float(C.max()) * float(sum(C.shape)) ** 2 / g      # rounding of the accumulated costs
    if slack > .05:
        c.cover("large-rounding")
        return
    c.ok(np.isfinite(E).all() and (E >= -1e-9).all() and (np.abs(E[~outer]) < 1e-9).all(), "long series: soft alignment lives in the region")
    # every alignment visits each row and each column
    c.ok((E.sum(0) >= 1 - slack).all() and (E.sum(1) >= 1 - slack).all(), "long series: every row and column is aligned",
         rows=float(E.sum(1).min()), columns=float(E.sum(0).min()))
    c.close(E[0, 0], 1., "long series: alignment starts in the first cell", rtol=slack)
    c.close(E[-1, -1], 1., "long series: alignment ends in the last cell", rtol=slack)
    if np.array_equal(inner, outer):    # derivative along a random direction of the costs
        R = c.rng.rand(*C.shape)
        h = 1e-4 * g / np.sqrt(C.size)
        want = (ref.align_fast(C + h * R, inner, "soft", g) - ref.align_fast(C - h * R, inner, "soft", g)) / (2 * h)
        noise = 1e-14 * (abs(v) + C.max()) * sum(C.shape) / h
        if noise < .05 * abs(want):
            c.close(float((E * R).sum()), want, "long series: soft alignment is the derivative of the value", rtol=2e-3, atol=2 * noise)
    c.event("cells of long alignments", C.size)


def far(c):
    """Moving both series far away changes nothing: no cancellation."""
    import tslearn.metrics as M
    a, b, u, v = draw_far(c)
    g = float(c.choice([.01, .5, 1., 20.]))
    c.note(gamma=g)
    w = ref.soft_dtw(ref.sqdist(a, b), g)
    tol = 1e-9 * (1 + abs(w) + g * (len(a) + len(b)))
    for name, f in (("soft_dtw", M.soft_dtw), ("cdist_soft_dtw", lambda x, y, gamma: M.cdist_soft_dtw(x[None], y[None], gamma=gamma)[0, 0]),
                    ("SoftDTW", lambda x, y, gamma: M.SoftDTW(M.SquaredEuclidean(x.copy(), y.copy()), gamma=gamma).compute()),
                    ("soft_dtw_alignment", lambda x, y, gamma: M.soft_dtw_alignment(x, y, gamma=gamma)[1])):
        c.close(float(f(a, b, gamma=g)), w, name + " is the soft minimum", rtol=1e-9, atol=tol)
        c.close(float(f(u, v, gamma=g)), w, name + " of series moved far away", rtol=1e-9, atol=tol)
    c.close(M.soft_dtw_alignment(u, v, gamma=g)[0], M.soft_dtw_alignment(a, b, gamma=g)[0], "soft alignment of series moved far away", rtol=1e-7, atol=1e-9)
    w = float(M.soft_dtw_normalized(a, b, gamma=g))
    c.close(float(M.soft_dtw_normalized(u, v, gamma=g)), w, "normalised soft-DTW of series moved far away", rtol=1e-9, atol=3 * tol)


WORKLOADS = [W(views(("soft_dtw", {"gamma": .7}), ("soft_dtw_normalized", {"gamma": .7}), ("soft_dtw_alignment", {"gamma": .7})), 30), W(normalized, 50), W(far, 40), W(large, 16), W(value, 400), W(enumerated, 80), W(alignment, 250), W(zero, 120), W(cross_zero, 1, 1), W(laws, 80),
             W(classes, 100), W(torch_value, 40)]

META = dict(
    technique="runtime monitor: soft-minimum and Gibbs-marginal oracles over values and soft alignments",
    rule="seeded pairs (lengths 1-30, 1-4 features, all constraint forms), smoothing 0 and 1e-6..100; "
         "distinct by lengths, constraint, smoothing",
    note="Held on the executions driven: values against an independent soft-minimum recursion and full "
         "enumeration, soft alignments against forward/backward marginals in the log domain.",
    assumptions=["finite values up to ~1e3", "feasible constraints"])
