"""P14: dataset formatting keeps every value in its place."""
import warnings

import numpy as np

from vmon import gen
from vmon.core import W, to_np
from vmon.util import same_arrays


def _series(c, d, lo=1, hi=12):
    """A series with values of several kinds, holes included, whose last row
    is observed (so that its length is its number of rows)."""
    x = gen.values(c.rng, gen.length(c.rng, lo, hi), d)
    if c.rng.rand() < .3:
        m = c.rng.rand(*x.shape) < .3
        x[m] = np.nan
        if np.isnan(x[-1]).all():
            x[-1, c.rng.randint(d)] = 4.25
    if c.rng.rand() < .08:
        x[c.rng.randint(len(x)), c.rng.randint(d)] = c.choice([np.inf, -np.inf, 0., -0., 1e300, 5e-324])
    return x


def _form(c, x):
    """(container holding x, name)."""
    r = c.rng
    ks = ["array", "fortran", "strided", "reversed-view", "list", "tuple", "pad", "readonly"]
    if x.shape[1] == 1:
        ks += ["flat", "flatlist", "flattuple"]
    finite = np.isfinite(x).all()
    if finite and np.array_equal(x, np.round(x)) and np.abs(x).max() < 1e6:
        ks += ["int", "int32", "uint" if (x >= 0).all() else "int", "intlist"]
    if np.array_equal(x.astype(np.float32).astype(float), x, equal_nan=True):
        ks.append("float32")
    if set(np.unique(x)) <= {0., 1.}:
        ks.append("bool")
    k = c.choice(ks)
    if k == "fortran":
        v = np.asfortranarray(x)
    elif k == "strided":
        v = np.full((2 * len(x), x.shape[1] + 1), 9.)[::2, :-1]
        v[:] = x
    elif k == "reversed-view":
        v = np.ascontiguousarray(x[::-1])[::-1]
    elif k == "list":
        v = x.tolist()
    elif k == "tuple":
        v = tuple(tuple(row) for row in x.tolist())
    elif k == "pad":
        v = np.vstack([x, np.full((int(r.randint(1, 5)), x.shape[1]), np.nan)])
    elif k == "readonly":
        v = x.copy()
        v.setflags(write=False)
    elif k == "flat":
        v = x[:, 0].copy()
    elif k == "flatlist":
        v = x[:, 0].tolist()
    elif k == "flattuple":
        v = tuple(x[:, 0].tolist())
    elif k == "int":
        v = x.astype(int)
    elif k == "int32":
        v = x.astype(np.int32)
    elif k == "uint":
        v = x.astype(np.uint8) if x.max() < 256 else x.astype(np.uint32)
    elif k == "intlist":
        v = x.astype(int).tolist()
    elif k == "float32":
        v = x.astype(np.float32)
    elif k == "bool":
        v = x.astype(bool)
    else:
        v = x.copy()
    return v, k


def _freeze(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if hasattr(v, "clone"):
        return v.clone()
    if isinstance(v, (list, tuple)):
        return type(v)(_freeze(u) for u in v)
    return v


def _same(a, b):
    if hasattr(a, "clone"):
        a, b = a.numpy(), b.numpy()
    if isinstance(a, np.ndarray):
        return same_arrays([a], [b])
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a == b or a != a


def _want(ts):
    return gen.pad(ts)


def _place(c, got, ts, what):
    """Every value at its (series, time, feature) index, NaN afterwards."""
    X = to_np(got)
    w = _want(ts)
    c.equal(X, w, what)
    c.ok(X.dtype == np.float64, "%s: double precision" % what, got=str(X.dtype))


def collections(c):
    """Lists and tuples of series in mixed containers."""
    from tslearn.utils import (check_dataset, check_equal_size, check_variable_length_input, to_time_series,
                               to_time_series_dataset, ts_size)
    d = gen.dim(c.rng, 4)
    eq = c.rng.rand() < .3
    hi, many = 12, int(c.rng.randint(1, 7))
    if c.rng.rand() < .04:
        hi = int(c.choice([60, 300, 1500]))
    elif c.rng.rand() < .03:
        many = int(c.choice([40, 120, 300]))
    L = gen.length(c.rng, 1, hi)
    ts = [_series(c, d, L if eq else 1, L if eq else hi) for _ in range(many)]
    forms = [_form(c, x) for x in ts]
    coll = [v for v, _ in forms]
    kinds = [k for _, k in forms]
    if c.rng.rand() < .2:
        coll = tuple(coll)
    c.note(series=ts, forms=kinds)
    # a list whose first element is a flat list of numbers and which has one series
    # is a dataset of one series all the same
    before = _freeze(coll)
    X = to_time_series_dataset(coll)
    _place(c, X, ts, "dataset of a collection")
    c.ok(_same(before, coll), "collection untouched", forms=kinds)
    c.ok(not any(isinstance(v, np.ndarray) and np.shares_memory(v, X) for v in coll), "dataset owns its memory")
    Y = to_time_series_dataset(X)
    c.equal(Y, X, "formatting is idempotent")
    c.ok(not np.shares_memory(X, Y), "formatting copies")
    P = gen.pad(ts, int(c.rng.randint(1, 4)) if c.rng.rand() < .95 else 200)
    c.equal(to_time_series_dataset(P), X, "superfluous padding removed")
    for v, k, x in zip(coll, kinds, ts):
        c.ok(ts_size(v) == len(x), "ts_size is the observed length", form=k, got=ts_size(v), want=len(x))
        one = to_time_series(v)
        c.equal(one[:len(x)], x, "to_time_series keeps the values", form=k)
        c.ok(one.ndim == 2 and np.isnan(one[len(x):]).all(), "to_time_series only adds what was there")
        c.equal(to_time_series(v, remove_nans=True), x, "to_time_series(remove_nans) strips the padding only", form=k)
        if isinstance(v, np.ndarray):
            c.ok(not np.shares_memory(one, v), "to_time_series copies")
    c.ok(bool(check_equal_size(coll)) == (len({len(x) for x in ts}) == 1), "check_equal_size", lengths=[len(x) for x in ts])
    if not any(np.isinf(x).any() for x in ts):
        c.equal(check_variable_length_input(coll), X, "check_variable_length_input formats alike")
        c.equal(check_variable_length_input(P), X, "check_variable_length_input formats padded arrays alike")
    c.equal(check_dataset(coll), X, "check_dataset formats alike")
    c.ok(_same(before, coll), "collection untouched by all helpers", forms=kinds)
    c.cover(tuple(sorted(set(kinds))), d, len(ts), eq)


def single_and_arrays(c):
    """One series of numbers, 2d arrays (univariate rows), 3d arrays, frames, empties."""
    import pandas as pd
    from tslearn.utils import check_equal_size, to_time_series, to_time_series_dataset, ts_size, ts_zeros
    k = c.choice(["flat", "2d", "3d", "frame", "empty", "allnan", "ragged-lists"])
    r = c.rng
    if k == "flat":
        x = _series(c, 1)
        v, form = c.choice([(x[:, 0].tolist(), "list"), (x[:, 0].copy(), "array"), (tuple(x[:, 0]), "tuple")])
        c.note(series=x, form=form)
        _place(c, to_time_series_dataset(v), [x], "a flat series is a dataset of one")
    elif k == "2d":
        n, sz = int(r.randint(1, 6)), int(r.randint(1, 9))
        if r.rand() < .05:
            n, sz = c.choice([(3, 700), (300, 4), (80, 80)])
        ts = [_series(c, 1, sz, sz) for _ in range(n)]
        A = np.vstack([x[:, 0] for x in ts])
        if r.rand() < .3:
            A = np.asfortranarray(A)
        c.note(A=A)
        _place(c, to_time_series_dataset(A), ts, "rows of a 2d array are univariate series")
        _place(c, to_time_series_dataset(A.tolist()), ts, "rows of nested lists are univariate series")
    elif k == "3d":
        d = gen.dim(r, 4)
        ts = [_series(c, d) for _ in range(int(r.randint(1, 6)) if r.rand() < .95 else 250)]
        A = gen.pad(ts, int(r.randint(0, 4)))
        A = c.choice([A, np.asfortranarray(A), A[::-1].copy()[::-1], np.moveaxis(np.moveaxis(A, 0, -1).copy(), -1, 0)])
        B = A.copy()
        c.note(A=A)
        _place(c, to_time_series_dataset(A), ts, "3d arrays keep their layout")
        _place(c, to_time_series_dataset(A.tolist()), ts, "nested lists keep their layout")
        c.equal(A, B, "3d array untouched")
        if np.isfinite(A).all():
            c.equal(to_time_series_dataset(A.astype(np.float32)), A.astype(np.float32).astype(float), "float32 arrays")
            c.equal(to_time_series_dataset(A, dtype=np.float32), A.astype(np.float32), "dtype option")
    elif k == "frame":
        n, sz = int(r.randint(1, 6)), int(r.randint(1, 9))
        ts = [_series(c, 1, sz, sz) for _ in range(n)]
        df = pd.DataFrame(np.hstack(ts).T, index=list(r.permutation(n)), columns=["c%d" % i for i in r.permutation(sz)])
        c.note(df=df.values)
        _place(c, to_time_series_dataset(df), ts, "rows of a frame are univariate series")
    elif k == "empty":
        for e in ([], (), np.zeros((0, 3, 1))):
            c.ok(to_time_series_dataset(e).shape == (0, 0, 0), "no series: empty dataset")
            c.ok(check_equal_size(e), "no series: equal sizes")
        sz, d = int(r.randint(0, 7)), int(r.randint(1, 4))
        z = ts_zeros(sz, d)
        c.ok(z.shape == (sz, d) and not z.any(), "ts_zeros")
        c.ok(ts_zeros(sz).shape == (sz, 1), "ts_zeros default")
    elif k == "allnan":
        d = gen.dim(r, 3)
        ts = [_series(c, d) for _ in range(int(r.randint(1, 4)))]
        i = int(r.randint(len(ts) + 1))
        A = gen.pad(ts, int(r.randint(0, 3)))
        A = np.insert(A, i, np.nan, axis=0)
        c.note(A=A)
        c.ok(ts_size(A[i]) == 0 and to_time_series(A[i], remove_nans=True).shape == (0, d), "an unobserved series is empty")
        X = to_time_series_dataset(A)
        c.equal(X, A[:, :X.shape[1]], "an unobserved series stays unobserved")
        c.ok(X.shape == (len(ts) + 1, max(map(len, ts)), d), "an unobserved series does not count", shape=X.shape)
        c.ok(not check_equal_size(A), "check_equal_size with an unobserved series")
    else:
        ts = [_series(c, 1) for _ in range(int(r.randint(2, 6)))]
        c.note(ts=ts)
        _place(c, to_time_series_dataset([x[:, 0].tolist() for x in ts]), ts, "ragged nested lists")
        _place(c, to_time_series_dataset([x.tolist() for x in ts]), ts, "ragged nested lists of rows")
    c.cover(k)


def tensors(c):
    import torch
    from tslearn.utils import check_equal_size, to_time_series, to_time_series_dataset, ts_size
    d = gen.dim(c.rng, 3)
    ts = [_series(c, d) for _ in range(int(c.rng.randint(1, 5)))]
    c.note(series=ts)
    T = [torch.from_numpy(x.copy()) for x in ts]
    B = [t.clone() for t in T]
    X = to_time_series_dataset(T)
    c.ok(isinstance(X, torch.Tensor), "tensors give tensors", got=str(type(X)))
    c.equal(to_np(X), _want(ts), "tensors keep their values")
    P = torch.from_numpy(gen.pad(ts, 2))
    c.equal(to_np(to_time_series_dataset(P)), _want(ts), "tensor dataset keeps its values")
    c.equal(to_np(to_time_series_dataset(P, be="numpy")), _want(ts), "tensor dataset to NumPy")
    c.equal(to_np(to_time_series_dataset(_want(ts), be="torch")), _want(ts), "NumPy dataset to tensor")
    for t, x in zip(T, ts):
        c.ok(int(ts_size(t)) == len(x), "ts_size of tensors")
        c.equal(to_np(to_time_series(t, remove_nans=True)), x, "to_time_series of tensors")
    c.ok(bool(check_equal_size(T)) == (len({len(x) for x in ts}) == 1), "check_equal_size of tensors")
    c.ok(all(_same(u, v) for u, v in zip(B, T)), "tensors untouched")
    for x in ts:
        if d == 1:
            f = torch.from_numpy(x[:, 0].copy())
            c.equal(to_np(to_time_series(f)), x, "flat tensor is a univariate series")
    c.cover(d, len(ts))


def refusals(c):
    """Conflicting feature counts, and the options of check_dataset / check_dims."""
    from tslearn.utils import check_dataset, check_dims, to_time_series_dataset
    r = c.rng
    d1 = int(r.randint(1, 5))
    d2 = int(c.choice([d for d in range(1, 5) if d != d1]))
    n = int(r.randint(2, 6))
    odd = set(r.permutation(n)[:int(r.randint(1, n))].tolist())
    ts = [_series(c, d2 if i in odd else d1, 1, 8) for i in range(n)]
    L = [c.choice([x, x.tolist()]) for x in ts]
    c.note(series=ts)
    c.raises((ValueError,), lambda: to_time_series_dataset(L), "conflicting feature counts are refused",
             dims=[x.shape[1] for x in ts])
    eq = r.rand() < .5
    m = int(r.randint(1, 4))
    L = gen.length(r, 2, 8)
    ts = [_series(c, d1, L, L) for _ in range(m)]
    if not eq and m > 1:
        ts[0] = ts[0][:-1]
        if np.isnan(ts[0][-1]).all():
            ts[0][-1] = 1.
    else:
        eq = True
    X = gen.pad(ts)
    for flag, holds in (("force_univariate", d1 == 1), ("force_equal_length", eq), ("force_single_time_series", m == 1)):
        if holds:
            c.equal(check_dataset(ts, **{flag: True}), X, "check_dataset accepts", flag=flag)
        else:
            c.raises((ValueError,), lambda: check_dataset(ts, **{flag: True}), "check_dataset refuses", flag=flag)
    # check_dims
    c.raises((ValueError,), lambda: check_dims(None), "check_dims refuses None")
    c.ok(check_dims(X) is X, "check_dims leaves datasets alone")
    if d1 == 1:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c.equal(check_dims(X[:, :, 0]), X, "check_dims extends univariate arrays")
        c.equal(check_dims(X[:, :, 0], extend=False), X[:, :, 0], "check_dims(extend=False) leaves 2d arrays alone")
    fit = (int(r.randint(1, 9)), X.shape[1] + int(c.choice([0, 1, -1])), X.shape[2] + int(c.choice([0, 0, 1])))
    same = fit[1:] == X.shape[1:]
    feat = fit[2] == X.shape[2]
    for kw, good in (({}, same), ({"check_n_features_only": True}, feat)):
        if good:
            c.equal(check_dims(X, X_fit_dims=fit, **kw), X, "check_dims accepts matching dimensions", fit=fit)
        else:
            c.raises((ValueError,), lambda: check_dims(X, X_fit_dims=fit, **kw), "check_dims refuses other dimensions",
                     fit=fit, shape=X.shape, kw=kw)
    c.cover(d1, d2, n, eq, m, same, feat)


def estimators(c):
    """Every estimator reads the same numbers alike from every container and type."""
    from vmon import zoo
    m = zoo.draw(c, [k for k in zoo.ALL if k != "autovarima"])
    m.A, m.Q = ([np.round(3 * x) for x in S] for S in (m.A, m.Q))
    X, Q = gen.pad(m.A), gen.pad(m.Q)

    def run(g):
        e = m.make()
        with zoo.quiet():
            e.fit(g(X)) if m.y is None else e.fit(g(X), m.y)
            o = {n: zoo.as_np(f(e, g(Q))) for n, f in m.calls.items()}
        return dict(o, **{"fitted " + n: v for n, v in m.fitted(e).items()})
    try:
        want = run(lambda a: a.copy())
    except Exception:
        c.event("data not fitted")        # rounding may leave constant or equal series
        c.skip()
        return
    forms = ["float32", "fortran", "nested list", "strided", "read-only"]
    if np.isfinite(X).all() and np.isfinite(Q).all():
        forms += ["int", "int32", "int"]
    if X.shape[2] == 1:
        forms += ["2d", "2d"]
    k = c.choice(forms)
    c.note(form=k, X=X, Q=Q)

    def g(a):
        if k == "fortran":
            return np.asfortranarray(a)
        if k == "nested list":
            return a.tolist()
        if k == "strided":
            v = np.full((a.shape[0] * 2, a.shape[1] + 1, a.shape[2]), 5.)[::2, 1:]
            v[:] = a
            return v
        if k == "read-only":
            v = a.copy()
            v.setflags(write=False)
            return v
        return a[:, :, 0].copy() if k == "2d" else a.astype({"float32": np.float32, "int": int, "int32": np.int32}[k])
    got = run(g)
    tol = 1e-9 if k != "float32" else 1e-4 if m.name in ("paa", "shapelets") else 1e-6
    for n in want:
        c.ok(zoo.same(got[n], want[n], tol, tol), "an estimator reads the same numbers alike from every container", model=m.name,
             form=k, output=n, got=got[n], want=want[n])
    c.event("estimators compared over containers")
    c.cover("estimator", m.name, m.flags["metric"], k)


WORKLOADS = [W(estimators, 160), W(collections, 1500), W(single_and_arrays, 700), W(tensors, 300), W(refusals, 500)]
META = dict(
    technique="runtime monitoring: place-of-every-value oracle and argument checksums over generated containers",
    rule="series, holes, containers (lists, tuples, arrays of every layout and type, frames, tensors) drawn per case",
    note="Oracle is the padded array built element by element from the series the containers were made of.",
    assumptions=["values are floats, integers or booleans"])
