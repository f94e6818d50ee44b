"""P33: compiled kernels under bounds checks, memory poisoning and hostile shapes.

Numba compiles every kernel with bounds checks here (NUMBA_BOUNDSCHECK=1), so an access
outside an array raises "index is out of bounds" instead of reading garbage.  Every call
is made twice with malloc filling fresh memory with different bytes: a result that
exposes uninitialised memory differs.  A dead or silent worker process is a crash or hang.
"""
import ctypes
import resource
import traceback

import numpy as np

from vmon import gen, zoo
from vmon.core import W

_libc = ctypes.CDLL(None)
CLEAN = (ValueError, TypeError, AssertionError, NotImplementedError, ZeroDivisionError, RuntimeError,
         IndexError, AttributeError, KeyError, FloatingPointError, np.linalg.LinAlgError, Warning)


def _limits():
    """Runaway growth ends as a MemoryError of this process."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    cap = 24 << 30
    if soft == resource.RLIM_INFINITY or soft > cap:
        resource.setrlimit(resource.RLIMIT_AS, (cap, hard))


def _perturb(byte):
    _libc.mallopt(-6, byte)


class _Poison:
    """Python-level numpy.empty* hand out sentinels instead of old memory."""

    def __init__(self, value):
        self.value = value

    def __enter__(self):
        self.saved = np.empty, np.empty_like
        e, el = self.saved
        v = self.value

        def empty(*a, **k):
            out = e(*a, **k)
            if out.dtype.kind in "fiu":
                out[...] = v
            return out

        def empty_like(*a, **k):
            out = el(*a, **k)
            if getattr(out, "dtype", None) is not None and out.dtype.kind in "fiu":
                out[...] = v
            return out

        np.empty, np.empty_like = empty, empty_like

    def __exit__(self, *a):
        np.empty, np.empty_like = self.saved


def _out_of_bounds(e):
    """Numba's bounds checks; raised in a parallel region they surface as a SystemError."""
    while e is not None:
        if isinstance(e, IndexError) and str(e).strip() == "index is out of bounds":
            return True
        e = e.__cause__ or e.__context__
    return False


def _call(c, name, fn, must, poison=True):
    """One monitored call: (ok, result)."""
    res = []
    for byte, value in ((0x55, 77), (0xAA, -55)):
        _perturb(byte)
        try:
            with zoo.quiet():
                if poison and res:
                    with _Poison(value):
                        r = fn()
                else:
                    r = fn()
            res.append(("value", zoo.as_np(r)))
        except Exception as e:
            if isinstance(e, SystemError) and isinstance(e.__cause__, CLEAN):
                e = e.__cause__  # raised inside of a parallel region
            if _out_of_bounds(e):
                c.violate("%s accesses memory outside of an array" % name, error=repr(e),
                          where=traceback.format_exc()[-600:])
                return False, None
            own = type(e).__module__.startswith("tslearn")     # the library's own exceptions
            if isinstance(e, (MemoryError, SystemError)) or not (own or isinstance(e, CLEAN)):
                c.violate("%s does not end cleanly" % name, error=repr(e)[:300],
                          where=traceback.format_exc()[-600:])
                return False, None
            if must:
                c.violate("%s refuses valid series" % name, error=repr(e)[:300],
                          where=traceback.format_exc()[-900:])
                return False, None
            res.append(("raised", type(e).__name__))
        finally:
            _perturb(0)
    c.event("calls")
    c.event("calls_returned" if res[0][0] == "value" else "calls_refused")
    same = res[0][0] == res[1][0] and (zoo.same(res[0][1], res[1][1]) if res[0][0] == "value" else True)
    c.ok(same, "%s does not expose uninitialised memory" % name, first=res[0][1], second=res[1][1])
    return res[0][0] == "value", res[0][1]


# -- inputs -----------------------------------------------------------------
def _len(c, hi=9):
    if c.rng.rand() < .04:      # around powers of two, where blocks end
        return int(c.choice([31, 32, 33, 63, 64, 65, 127, 128, 129, 257]))
    return int(c.choice([1, 1, 2, 3, c.rng.randint(1, hi + 1), c.rng.randint(1, 40)]))


def _series(c, d, n=None):
    return gen.values(c.rng, n or _len(c), d)


HOSTILE = ["nan-inside", "nan-all", "nan-lead", "inf", "huge", "features", "empty", "strided", "readonly", "f32", "int"]


def _spoil(c, x):
    """(kind, series): the series made unusual; valid kinds keep a usable series."""
    k = c.choice(HOSTILE)
    x = np.array(x)
    if k == "nan-inside":
        x[c.rng.randint(len(x)), c.rng.randint(x.shape[1])] = np.nan
    elif k == "nan-all":
        x[:] = np.nan
    elif k == "nan-lead":
        x[0] = np.nan
    elif k == "inf":
        x[c.rng.randint(len(x))] = c.choice([np.inf, -np.inf])
    elif k == "huge":
        x = x * 1e200
    elif k == "features":
        x = np.concatenate([x, x[:, :1]], 1)
    elif k == "empty":
        x = x[:0]
    elif k == "strided":
        b = np.zeros((2 * len(x), 2 * x.shape[1]))
        b[::2, ::2] = x
        x = b[::2, ::2]
    elif k == "readonly":
        x.setflags(write=False)
    elif k == "f32":
        x = x.astype(np.float32)
    elif k == "int":
        x = np.round(x).astype(int)
    return k, x


def _constraint(c):
    return c.choice([{}, {}, {}, {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": int(c.choice([0, 1, 2, 50]))},
                     {"sakoe_chiba_radius": int(c.choice([0, 3]))},
                     {"global_constraint": "itakura", "itakura_max_slope": float(c.choice([1., 1.3, 2., 9.]))}])


def _free(kw):
    """Constraints any pair of lengths satisfies."""
    return not kw or "sakoe_chiba_radius" in kw


def _pair_table(c):
    import tslearn.metrics as M
    from tslearn.metrics import softdtw_variants as old
    kw = _constraint(c)
    g = float(c.choice([.01, 1., 10., 0.]))
    eps = float(c.choice([0., .5, 10.]))
    met = c.choice(["sqeuclidean", "euclidean", "cityblock"])
    free = _free(kw)
    ml = int(c.choice([1, 5, 60]))
    return {
        "dtw": (lambda a, b: M.dtw(a, b, **kw), free),
        "dtw_path": (lambda a, b: M.dtw_path(a, b, **kw), free),
        "dtw_path_from_metric": (lambda a, b: M.dtw_path_from_metric(a, b, metric=met, **kw), free),
        "dtw_limited_warping_length": (lambda a, b: M.dtw_limited_warping_length(a, b, max(ml, len(a), len(b))), True),
        "dtw_path_limited_warping_length": (lambda a, b: M.dtw_path_limited_warping_length(a, b, max(ml, len(a), len(b))), True),
        "dtw_limited_warping_length(short)": (lambda a, b: M.dtw_limited_warping_length(a, b, ml), False),
        "dtw_subsequence_path": (lambda a, b: M.dtw_subsequence_path(a, b), True),
        "subsequence_cost_matrix": (lambda a, b: M.subsequence_cost_matrix(a, b), True),
        "subsequence_path": (lambda a, b: M.subsequence_path(M.subsequence_cost_matrix(a, b), len(b) - 1), True),
        "lcss": (lambda a, b: M.lcss(a, b, eps=eps, **kw), free),
        "lcss_path": (lambda a, b: M.lcss_path(a, b, eps=eps, **kw), free),
        "lcss_path_from_metric": (lambda a, b: M.lcss_path_from_metric(a, b, eps=eps, metric=met, **kw), free),
        "soft_dtw": (lambda a, b: M.soft_dtw(a, b, gamma=g, **kw), free),
        "soft_dtw_alignment": (lambda a, b: M.soft_dtw_alignment(a, b, gamma=max(g, .01), **kw), free),
        "softdtw_variants.soft_dtw": (lambda a, b: old.soft_dtw(a, b, gamma=g), True),
        "softdtw_variants.soft_dtw_alignment": (lambda a, b: old.soft_dtw_alignment(a, b, gamma=max(g, .01)), True),
        "gak": (lambda a, b: M.gak(a, b, sigma=max(g, .1)), True),
        "unnormalized_gak": (lambda a, b: M.unnormalized_gak(a, b, sigma=max(g, .1)), True),
        "frechet": (lambda a, b: M.frechet(a, b, **kw), free),
        "frechet_path": (lambda a, b: M.frechet_path(a, b, **kw), free),
        "frechet_path_from_metric": (lambda a, b: M.frechet_path_from_metric(a, b, metric=met, **kw), free),
        "ctw": (lambda a, b: M.ctw(a, b, max_iter=2, **kw), False),
        "ctw_path": (lambda a, b: M.ctw_path(a, b, max_iter=2, **kw)[::2], False),
        "lb_envelope": (lambda a, b: M.lb_envelope(a, radius=int(c.case_radius)), True),
        "lb_keogh": (lambda a, b: M.lb_keogh(a[:, :1], b[:, :1], radius=int(c.case_radius)), False),
    }


def pairs(c):
    """Pair functions on short, unequal and hostile series."""
    _limits()
    d = gen.dim(c.rng, 3)
    a, b = _series(c, d), _series(c, d)
    c.case_radius = c.choice([0, 1, 3, 100])
    ka = kb = "plain"
    if c.rng.rand() < .5:
        ka, a = _spoil(c, a)
        if c.rng.rand() < .4:
            kb, b = _spoil(c, b)
    valid = {ka, kb} <= {"plain", "strided", "readonly", "f32", "int"}
    c.note(a=a, b=b, kinds=(ka, kb))
    t = _pair_table(c)
    for name in c.rng.permutation(sorted(t))[:7]:
        f, must = t[str(name)]
        c.cover(str(name), ka, kb, min(len(a), 3), min(len(b), 3))
        _call(c, str(name), lambda: f(a, b), must and valid)


def _dataset(c, d, n=None):
    n = n or int(c.rng.randint(1, 5))
    return [_series(c, d) for _ in range(n)]


def datasets(c):
    """Cross-distances, barycenters and private kernels on batches."""
    import tslearn.barycenters as B
    import tslearn.metrics as M
    from tslearn.utils import to_time_series_dataset as tsd
    _limits()
    d = gen.dim(c.rng, 3)
    A, Bq = _dataset(c, d), _dataset(c, d)
    hostile = c.rng.rand() < .35
    kind = "plain"
    if hostile:
        kind = c.choice(["nan-all", "nan-inside", "inf", "features", "empty-set", "all-empty"])
    XA, XB = gen.pad(A, int(c.choice([0, 0, 2]))), gen.pad(Bq, int(c.choice([0, 3])))
    if kind == "nan-all":
        XA[c.rng.randint(len(XA))] = np.nan
    elif kind == "all-empty":
        XA[:] = np.nan
    elif kind == "nan-inside":
        XA[0, 0, 0] = np.nan
    elif kind == "inf":
        XA[0, 0, 0] = np.inf
    elif kind == "features":
        XB = np.concatenate([XB, XB[:, :, :1]], 2)
    elif kind == "empty-set":
        XA = XA[:0]
    c.note(X=XA, Y=XB, kind=kind)
    kw = _constraint(c)
    ok = kind == "plain"
    free = ok and _free(kw)
    eq = gen.pad([x[:min(len(v) for v in A)] for x in A])
    sz = int(c.choice([1, 2, XA.shape[1] + 3]))
    g = float(c.choice([.05, 1.]))
    nj = c.choice([None, None, None, 2])
    w = c.rng.rand(len(XA)) + .1
    t = {
        "cdist_dtw": (lambda: M.cdist_dtw(XA, XB, n_jobs=nj, **kw), free),
        "cdist_dtw(self)": (lambda: M.cdist_dtw(XA, n_jobs=nj, **kw), free),
        "cdist_soft_dtw": (lambda: M.cdist_soft_dtw(XA, XB, gamma=g, **kw), free),
        "cdist_soft_dtw(self)": (lambda: M.cdist_soft_dtw(XA, gamma=g, **kw), free),
        "cdist_soft_dtw_normalized": (lambda: M.cdist_soft_dtw_normalized(XA, gamma=g, **kw), free),
        "cdist_gak": (lambda: M.cdist_gak(XA, XB, sigma=g), ok),
        "cdist_frechet": (lambda: M.cdist_frechet(XA, XB, n_jobs=nj, **kw), free),
        "cdist_ctw": (lambda: M.cdist_ctw(XA, XB, max_iter=2), False),
        "sigma_gak": (lambda: M.sigma_gak(XA, random_state=0), ok),
        "gamma_soft_dtw": (lambda: M.gamma_soft_dtw(XA, random_state=0), ok),
        "dtw_barycenter_averaging": (lambda: B.dtw_barycenter_averaging(XA, max_iter=3, weights=w), ok),
        "dtw_barycenter_averaging(size)": (lambda: B.dtw_barycenter_averaging(XA, barycenter_size=sz, max_iter=3), ok and (sz == 1 or min(len(v) for v in A) > 1)),
        "petitjean": (lambda: B.dtw_barycenter_averaging_petitjean(XA, max_iter=3, weights=w), ok),
        "subgradient": (lambda: B.dtw_barycenter_averaging_subgradient(XA, max_iter=3, random_state=0), ok),
        "softdtw_barycenter": (lambda: B.softdtw_barycenter(XA, gamma=g, max_iter=3, weights=w), ok),
        "euclidean_barycenter": (lambda: B.euclidean_barycenter(eq, weights=w if len(w) == len(eq) else None), ok),
        "soft loss": (lambda: _loss(XA, XB, g), False),
    }
    if ok:
        norms = np.linalg.norm(eq.reshape(len(eq), -1), axis=1)
        t["cdist_normalized_cc"] = (lambda: M.cdist_normalized_cc(eq, eq, norms, norms, False), True)
        t["y_shifted_sbd_vec"] = (lambda: M.y_shifted_sbd_vec(eq[0], eq, -1., np.full(len(eq), -1.)), True)
        D = np.abs(c.rng.randn(_len(c), _len(c)))
        t["precomputed dtw"] = (lambda: M.dtw_path_from_metric(D, metric="precomputed"), True)
        t["precomputed lcss"] = (lambda: M.lcss_path_from_metric(D, None, eps=.5, metric="precomputed"), False)
        t["precomputed frechet"] = (lambda: M.frechet_path_from_metric(D, metric="precomputed"), True)
    n1, n2 = _len(c), _len(c)
    t["masks"] = (lambda: [M.sakoe_chiba_mask(n1, n2, int(c.case_r)), M.compute_mask(n1, n2, 0)], True)
    t["itakura"] = (lambda: M.itakura_mask(n1, n2, 1. + .5 * c.case_r), False)
    c.case_r = c.choice([0, 1, 2, 40])
    for name in c.rng.permutation(sorted(t))[:6]:
        f, must = t[str(name)]
        c.cover(str(name), kind, XA.shape[0] > 1, XA.shape[1] == 1, XB.shape[1] == 1)
        _call(c, str(name), f, must)


def _loss(XA, XB, g):
    import torch
    from tslearn.metrics import SoftDTWLossPyTorch
    n = min(len(XA), len(XB))
    a = torch.tensor(np.nan_to_num(XA[:n]), requires_grad=True)
    b = torch.tensor(np.nan_to_num(XB[:n]))
    v = SoftDTWLossPyTorch(gamma=g)(a, b)
    v.sum().backward()
    return [v.detach().numpy(), a.grad.numpy()]


def _hostile_queries(c, m):
    Q = [np.array(x) for x in m.Q]
    k = c.choice(["length-one", "longer", "shorter", "many", "one", "nan-all", "inf", "features", "padded", "nan-inside"])
    L = max(len(x) for x in m.A)
    if k == "length-one":
        Q = [x[:1] for x in Q]
    elif k == "longer":
        Q = [np.concatenate([x, x])[:L + 3] for x in Q]
    elif k == "shorter":
        Q = [x[:max(1, len(x) // 2)] for x in Q]
    elif k == "many":
        Q = (Q * 12)[:len(m.A) * 2 + 5]
    elif k == "one":
        Q = Q[:1]
    X = gen.pad(Q, 4 if k == "padded" else 0)
    if k == "nan-all":
        X[0] = np.nan
    elif k == "inf":
        X[0, 0, 0] = np.inf
    elif k == "nan-inside":
        X[-1, 0] = np.nan
    elif k == "features":
        X = np.concatenate([X, X], 2)
    return k, X


FAST = [k for k in zoo.ALL if k not in ("shapelets", "mlp_clf", "mlp_reg", "autovarima")]


def estimators(c):
    """Fitted estimators on hostile batches; the last plain call still works."""
    _limits()
    m = zoo.draw(c, FAST)
    e = m.make()
    try:
        m.fit(e)
        base = m.outputs(e)
    except Exception as x:
        if _out_of_bounds(x):
            c.violate("fit of %s accesses memory outside of an array" % m.name, where=traceback.format_exc()[-900:])
            return
        if m.flags.get("may_fail"):
            c.skip()
        raise
    for _ in range(3):
        kind, X = _hostile_queries(c, m)
        for name, f in m.calls.items():
            c.cover(m.name, m.flags.get("metric"), name, kind)
            _call(c, "%s.%s (%s)" % (m.name, name, kind), lambda: f(e, X.copy()),
                  kind == "one" or kind == "many" and m.name != "kshape")
    now = m.outputs(e)
    c.ok(all(zoo.same(now[k], base[k]) for k in base), "plain queries give what they gave")


def fits(c):
    """Estimators fitted on hostile training sets."""
    _limits()
    m = zoo.draw(c, FAST)
    k = c.choice(["length-one", "one-short", "nan-all", "all-nan", "inf", "nan-inside", "repeat", "constant", "single", "long-tail"])
    A = [np.array(x) for x in m.A]
    y = m.y
    if k == "length-one":
        A = [x[:1] for x in A]
    elif k == "one-short":
        A[-1] = A[-1][:1]
    elif k == "repeat":
        A = [A[0].copy() for _ in A]
    elif k == "constant":
        A = [np.ones_like(x) for x in A]
    elif k == "single":
        A, y = A[:1], None if y is None else y[:1]
    elif k == "long-tail":
        A[0] = np.concatenate([A[0]] * 6)
    X = gen.pad(A)
    if k == "nan-all":
        X[c.rng.randint(len(X))] = np.nan
    elif k == "all-nan":
        X[:] = np.nan
    elif k == "inf":
        X[0, 0] = np.inf
    elif k == "nan-inside":
        X[0, 0, 0] = np.nan
    c.note(kind=k, train=X)

    def go():
        e = m.make()
        e.fit(X.copy()) if y is None else e.fit(X.copy(), y)
        return [m.fitted(e)] + [f(e, X[:2].copy()) for f in m.calls.values()]

    c.cover(m.name, m.flags.get("metric"), k)
    _call(c, "%s fitted on %s" % (m.name, k), go, False, poison=m.name not in ("svc", "svr", "early"))


WORKLOADS = [W(pairs, 420), W(datasets, 260), W(estimators, 160), W(fits, 220)]
META = dict(
    technique="runtime sanitizing: numba bounds checks, malloc and numpy.empty poisoning, memory limit and watchdog under hostile shapes",
    rule="one out-of-bounds access, crash, hang or result that depends on uninitialised memory",
    note="every call is made twice with differently filled fresh memory",
    assumptions="numba reports accesses that bounds checking covers; wrap-around of negative indices is legal numba semantics",
    env={"NUMBA_BOUNDSCHECK": "1"},
)
