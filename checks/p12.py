"""P12: gradients through the measures and the Soft-DTW loss are correct."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import draw_pair_with_constraint


def _series(c, n, d):
    """Series in general position: measures are differentiable there."""
    import torch
    k = c.rng.randint(3)
    x = c.rng.randn(n, d)
    if k == 1:
        x = np.cumsum(x, 0)
    elif k == 2:
        x = np.sin(np.arange(n)[:, None] * .7 + c.rng.rand(1, d) * 6) * 2 + .1 * c.rng.randn(n, d)
    return torch.tensor(x, dtype=torch.float64)


def _fd(f, xs, which, h=1e-6):
    """Central differences of the scalar f with respect to xs[which]."""
    import torch
    x = xs[which].detach().clone()
    out = np.zeros(tuple(x.shape))
    with torch.no_grad():
        for idx in np.ndindex(*x.shape):
            o = x[idx].item()
            x[idx] = o + h
            p = float(f(*[x if k == which else y.detach() for k, y in enumerate(xs)]))
            x[idx] = o - h
            m = float(f(*[x if k == which else y.detach() for k, y in enumerate(xs)]))
            x[idx] = o
            out[idx] = (p - m) / (2 * h)
    return out


def _grad(c, f, xs, what, rtol=2e-4, atol=2e-5, fd_of=None):
    import torch
    ys = [x.detach().clone().requires_grad_(True) for x in xs]
    keep = [y.detach().clone() for y in ys]
    v = f(*ys)
    v.backward()
    c.ok(all(torch.equal(y.detach(), k) for y, k in zip(ys, keep)), "%s: differentiating leaves the inputs alone" % what)
    for k in range(len(xs)):
        c.ok(ys[k].grad is not None and ys[k].grad.dtype == xs[k].dtype, "%s: gradient in the precision of the input" % what)
        g = to_np(ys[k].grad)
        want = _fd(fd_of or f, xs, k)
        c.close(g, want, "%s: gradient is the derivative of the value" % what, rtol=rtol,
                atol=atol * (1 + np.abs(want).max()), argument=k)
        c.event("partial derivatives checked", want.size)
    return v


def _kw(c, n, m):
    for _ in range(20):
        kw, (kind, p) = gen.constraint(c.rng, n, m, .35)
        inner, outer = ref.masks(kind, p, n, m)
        if kind == "none" or (ref.feasible(inner) and inner.any(0).all() and inner.any(1).all()):
            return kw, kind, inner, outer
    c.skip()


def measures(c):
    import tslearn.metrics as M
    d = int(c.rng.randint(1, 4))
    x, y = _series(c, gen.length(c.rng, 1, 7), d), _series(c, gen.length(c.rng, 1, 7), d)
    kw, kind, inner, outer = _kw(c, len(x), len(y))
    g = float(c.choice([.05, .5, 1., 4.]))
    name = c.choice(["dtw", "soft_dtw", "soft_dtw", "soft_dtw_normalized"])
    c.note(x=x, y=y, kw=kw, gamma=g, measure=name)
    if name == "dtw":
        f = lambda a, b: M.dtw(a, b, **kw)
        # differentiable where the optimal path is unique by a margin
        C = ref.sqdist(to_np(x), to_np(y))
        if ref.align_min(C, inner) < 1e-3:
            c.skip()
        # a finite step must not change the optimal path
        E = ref.soft_alignment(C, 1e-5, inner)
        if np.any((E > 1e-9) & (E < 1 - 1e-9)):
            c.skip()
    else:
        f = lambda a, b: getattr(M, name)(a, b, gamma=g, **kw)
    _grad(c, f, [x, y], name)
    c.cover(name, kind, len(x), len(y), d)


def matrices(c):
    """Through the cross-distance matrices."""
    import torch
    import tslearn.metrics as M
    d = int(c.rng.randint(1, 3))
    A = torch.stack([_series(c, 5, d) for _ in range(2)])
    B = torch.stack([_series(c, 4, d) for _ in range(2)])
    w = torch.tensor(c.rng.rand(2, 2))
    g = float(c.choice([.2, 1.]))
    name = c.choice(["cdist_soft_dtw", "cdist_soft_dtw_normalized"])
    c.note(A=A, B=B, gamma=g, measure=name)
    cd = getattr(M, name)
    # through both datasets of the two-dataset form (self terms are set in place)
    f = lambda a, b: (cd(a, b, gamma=g) * w).sum()
    if name == "cdist_soft_dtw":
        _grad(c, f, [A, B], name)
    else:
        h = lambda a: (cd(a, gamma=g) * w).sum()
        _grad(c, h, [A], name)
    c.cover(name, d, g)


def _dist_funcs():
    import torch
    return {"default": None, "l2": lambda x, y: torch.cdist(x, y),
            "exp": lambda x, y: torch.exp(-.1 * torch.cdist(x, y) ** 2) * -1 + 2,
            "cosine": lambda x, y: 1 - torch.nn.functional.cosine_similarity(x.unsqueeze(2), y.unsqueeze(1), dim=3),
            "sq": lambda x, y: ((x.unsqueeze(2) - y.unsqueeze(1)) ** 2).sum(-1)}


def loss(c):
    """The batched loss: values, gradients, independence of the elements."""
    import torch
    from tslearn.metrics import SoftDTWLossPyTorch, soft_dtw, soft_dtw_normalized
    d, b = int(c.rng.randint(1, 4)), int(c.rng.randint(1, 5))
    n, m = gen.length(c.rng, 1, 8), gen.length(c.rng, 1, 8)
    X = torch.stack([_series(c, n, d) for _ in range(b)])
    Y = torch.stack([_series(c, m, d) for _ in range(b)])
    kw, kind, inner, outer = _kw(c, n, m)
    g = float(c.choice([.05, .5, 1., 4.]))
    norm = bool(c.rng.rand() < .4)
    df = c.choice(["default", "default", "l2", "exp", "cosine", "sq"])
    c.note(X=X, Y=Y, gamma=g, normalize=norm, dist_func=df, kw=kw)
    L = SoftDTWLossPyTorch(gamma=g, normalize=norm, dist_func=_dist_funcs()[df], **kw)
    v = L(X, Y)
    c.ok(tuple(v.shape) == (b,) and v.dtype == torch.float64, "loss: one value per pair, in the precision of the input",
         shape=tuple(v.shape), dtype=str(v.dtype))
    if df in ("default", "sq"):
        f = soft_dtw_normalized if norm else soft_dtw
        want = [float(f(X[k].numpy(), Y[k].numpy(), gamma=g, **kw)) for k in range(b)]
        scale = float(max(X.abs().max(), Y.abs().max()))
        c.close(v, want, "loss: soft-DTW of each pair", rtol=1e-8, atol=1e-8 * (1 + scale ** 2) * 10)
    else:
        def val(p, q):
            D = to_np(_dist_funcs()[df](p[None], q[None]))[0]
            inn, _ = ref.masks(*_kind_of(kw), *D.shape)
            return ref.soft_dtw(D, g, inn)
        if np.array_equal(inner, outer) and not norm:
            want = [val(X[k], Y[k]) for k in range(b)]
            c.close(v, want, "loss: soft minimum of the chosen distances", rtol=1e-8, atol=1e-8 * 100)
    w = torch.tensor(c.rng.randn(b))
    if not norm or df in ("default", "sq"):      # (l2 is not differentiable at zero distance)
        _grad(c, lambda p, q: (L(p, q) * w).sum(), [X, Y], "loss")
    # element independence
    k = int(c.rng.randint(b))
    c.close(L(X[k:k + 1], Y[k:k + 1])[0], v[k], "loss: an element alone gives the same value", rtol=1e-9, atol=1e-10)
    if b > 1:
        X2 = X.clone()
        X2[(k + 1) % b] += 3.
        c.close(L(X2, Y)[k], v[k], "loss: other elements do not matter", rtol=1e-12, atol=1e-12)
        Z = X.clone().requires_grad_(True)
        L(Z, Y)[k].backward()
        other = [i for i in range(b) if i != k]
        c.ok(float(Z.grad[other].abs().max()) == 0., "loss: gradient stays inside the element")
    c.cover("loss", df, norm, kind, b, n, m, d)


def _kind_of(kw):
    gc = kw.get("global_constraint")
    r, s = kw.get("sakoe_chiba_radius"), kw.get("itakura_max_slope")
    if gc == "sakoe_chiba" or (gc is None and r is not None):
        return "sakoe_chiba", 1 if r is None else r
    if gc == "itakura" or s is not None:
        return "itakura", 2. if s is None else s
    return "none", None


def single_precision(c):
    """float32 batches: same type out, close to the double result; reuse."""
    import torch
    from tslearn.metrics import SoftDTWLossPyTorch
    b, n, m, d = 3, int(c.rng.randint(1, 8)), int(c.rng.randint(1, 8)), 2
    X = torch.stack([_series(c, n, d) for _ in range(b)])
    Y = torch.stack([_series(c, m, d) for _ in range(b)])
    g = float(c.choice([.5, 1.]))
    norm = bool(c.rng.rand() < .5)
    c.note(X=X, Y=Y, gamma=g, normalize=norm)
    L = SoftDTWLossPyTorch(gamma=g, normalize=norm)
    out = []
    for t in (torch.float64, torch.float32):
        x, y = X.detach().clone().to(t).requires_grad_(True), Y.to(t)
        v = L(x, y)
        v.sum().backward()
        c.ok(v.dtype == t and x.grad.dtype == t, "loss: computes in the type of its input", got=str(v.dtype))
        out.append((v, x.grad))
    s = float(1 + max(X.abs().max(), Y.abs().max()) ** 2)
    c.close(out[1][0].double(), out[0][0], "loss: float32 close to float64", rtol=1e-4, atol=1e-4 * s * 10)
    c.close(out[1][1].double(), out[0][1], "loss: float32 gradient close to float64", rtol=1e-3, atol=1e-3 * s * 10)
    # mean over the batch, and a non-leaf, non-contiguous input
    z = X.transpose(0, 1).contiguous().transpose(0, 1).clone().requires_grad_(True)
    SoftDTWLossPyTorch(gamma=g, normalize=norm)(z * 2., Y).mean().backward()
    y2 = (X * 2.).requires_grad_(True)
    SoftDTWLossPyTorch(gamma=g, normalize=norm)(y2, Y).mean().backward()
    c.close(z.grad, 2 * y2.grad, "loss: chain rule through its input", rtol=1e-9, atol=1e-9)
    c.cover("precision", n, m, g, norm)


def second_argument(c):
    """Differentiating with respect to one argument or both gives the same."""
    import torch
    import tslearn.metrics as M
    d = int(c.rng.randint(1, 3))
    x, y = _series(c, 6, d), _series(c, int(c.rng.randint(2, 8)), d)
    c.note(x=x, y=y)
    fs = {"soft_dtw": lambda a, b: M.soft_dtw(a, b, gamma=.5), "dtw": lambda a, b: M.dtw(a, b),
          "loss": lambda a, b: M.SoftDTWLossPyTorch(gamma=.5)(a[None], b[None])[0]}
    for name, f in fs.items():
        gs = []
        for flags in ((True, True), (True, False), (False, True)):
            a, b = x.clone().requires_grad_(flags[0]), y.clone().requires_grad_(flags[1])
            f(a, b).backward()
            gs.append((a.grad, b.grad))
        c.close(gs[1][0], gs[0][0], "%s: gradient of the first argument" % name, rtol=1e-10, atol=1e-12)
        c.close(gs[2][1], gs[0][1], "%s: gradient of the second argument" % name, rtol=1e-10, atol=1e-12)
    c.cover("args", len(y), d)


def jacobians(c):
    """The chain rule through the distance matrix, at sizes where several
    threads share the work, several times."""
    from tslearn.metrics import SoftDTW, SquaredEuclidean
    big = c.rng.rand() < .5
    n, m = (int(c.rng.randint(20, 120)), int(c.rng.randint(500, 3000))) if big else (gen.length(c.rng, 1, 9), gen.length(c.rng, 1, 9))
    d = int(c.rng.randint(1, 4))
    if c.rng.rand() < .5:
        n, m = m, n
    X, Y = c.rng.randn(n, d), c.rng.randn(m, d)
    E = c.rng.rand(n, m) if big else None
    c.note(n=n, m=m, d=d)
    sq = SquaredEuclidean(X.copy(), Y.copy())
    D = sq.compute()
    if n * m <= 100:
        c.close(D, ref.sqdist(X, Y), "squared distances", rtol=1e-9, atol=1e-9)
    if E is None:
        g = float(c.choice([.1, 1., 10.]))
        sd = SoftDTW(D, gamma=g)
        v = sd.compute()
        c.close(v, ref.soft_dtw(ref.sqdist(X, Y), g), "value of the accumulated distances", rtol=1e-8, atol=1e-7)
        E = np.array(to_np(sd.grad()), float)
        c.close(E, ref.soft_alignment(ref.sqdist(X, Y), g), "gradient with respect to the distances", rtol=1e-6, atol=1e-6)
    want = 2 * (X * E.sum(1)[:, None] - E @ Y)
    tol = 1e-9 * (1 + np.abs(want).max()) * 10
    for rep in range(6 if big else 1):
        c.close(sq.jacobian_product(E), want, "gradient with respect to the series is the sum over all pairs", rtol=1e-9, atol=tol)
        c.event("jacobian products")
    c.cover("jacobian", big, d)


def large(c):
    """Long series, large batches, many features: closed-form chain rule."""
    import torch
    import tslearn.metrics as M
    what = c.choice(["long", "batch", "wide"])
    n, m, b, d = 12, 9, 3, 2
    if what == "long":
        n, m = int(c.rng.randint(40, 130)), int(c.rng.randint(40, 130))
    elif what == "batch":
        b = int(c.choice([33, 70, 140]))
    else:
        d = int(c.choice([9, 30, 70]))
    kw, kind, inner, outer = _kw(c, n, m)
    if not np.array_equal(inner, outer):
        kw, kind, inner = {}, "none", np.ones((n, m), bool)
    g = float(c.choice([.5, 1., 4.])) * d
    X, Y = torch.stack([_series(c, n, d) for _ in range(b)]), torch.stack([_series(c, m, d) for _ in range(b)])
    w = torch.tensor(c.rng.randn(b))
    c.note(what=what, n=n, m=m, b=b, d=d, gamma=g, kw=kw)
    x, y = X.clone().requires_grad_(True), Y.clone().requires_grad_(True)
    v = M.SoftDTWLossPyTorch(gamma=g, **kw)(x, y)
    (v * w).sum().backward()
    u, z = X[0].clone().requires_grad_(True), Y[0].clone().requires_grad_(True)
    one = M.soft_dtw(u, z, gamma=g, **kw)
    one.backward()
    for k in sorted({0, b - 1, int(c.rng.randint(b))}):
        p, q = to_np(X[k]), to_np(Y[k])
        C = ref.sqdist(p, q)
        c.close(float(v[k]), ref.align_fast(C, inner, "soft", g), "large loss: soft minimum of each pair", rtol=1e-8, atol=1e-8 * (1 + C.max()))
        E = ref.soft_alignment(C, g, inner)
        gx = 2 * (p * E.sum(1)[:, None] - E @ q)
        gy = 2 * (q * E.sum(0)[:, None] - E.T @ p)
        tol = 1e-6 * (1 + np.abs(gx).max() + np.abs(gy).max())
        for got, want in ((x.grad[k], gx * float(w[k])), (y.grad[k], gy * float(w[k]))) + (((u.grad, gx), (z.grad, gy)) if k == 0 else ()):
            c.close(to_np(got), want, "large loss: gradient is the derivative of the value", rtol=1e-5, atol=tol * max(1., abs(float(w[k]))), element=k)
            c.event("partial derivatives checked", want.size)
    c.cover("large", what, kind, n, m, b, d)


WORKLOADS = [W(large, 10), W(jacobians, 40), W(measures, 60), W(matrices, 8), W(loss, 60), W(single_precision, 16), W(second_argument, 10)]

META = dict(
    technique="runtime monitor: autograd observed against central differences of the returned value, entry by entry",
    rule="seeded pairs and batches in general position (lengths 1-9), every constraint, smoothing, distance function, "
         "normalisation and precision; distinct by measure, constraint, shapes and options",
    note="Held on the executions driven: every partial derivative observed was compared with finite differences.",
    assumptions=["points where the value is differentiable (DTW: unique optimal path, non-zero value)", "float64 unless stated"])
