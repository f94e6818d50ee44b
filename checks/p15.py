"""P15: text files and other libraries' formats round-trip."""
import os
import shutil
import tempfile
import warnings

import numpy as np

from vmon import gen
from vmon.core import W


def _data(c, equal=None, n=None, d=None, lo=1, hi=12, holes=True):
    """Series whose last row is fully observed (padding is unambiguous)."""
    ts = gen.dataset(c.rng, n, lo, hi, d if d else gen.dim(c.rng, 4), equal)
    for x in ts:
        if holes and c.rng.rand() < .15 and len(x) > 1:
            x[:-1][c.rng.rand(len(x) - 1, x.shape[1]) < .3] = np.nan
        if c.rng.rand() < .1:
            x[c.rng.randint(len(x)), c.rng.randint(x.shape[1])] = c.choice([0., -0., 1e300, -1e-300, 5e-324, 1 / 3, 2.**53 + 2])
    return ts


def _in(c, ts):
    """The dataset in one of the forms users hold."""
    k = c.choice(["array", "array", "padded", "list", "fortran"])
    X = gen.pad(ts, int(c.rng.randint(1, 4)) if k == "padded" else 0)
    if k == "fortran":
        X = np.asfortranarray(X)
    return (list(ts) if k == "list" else X), k


def _keep(X):
    return [x.copy() for x in X] if isinstance(X, list) else X.copy()


def _untouched(c, X, B, what):
    same = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(X, B)) and len(X) == len(B)
    c.ok(same, "%s leaves the caller's data alone" % what)


def text(c):
    from tslearn.utils import (load_time_series_txt, load_timeseries_txt, save_time_series_txt, save_timeseries_txt,
                               str_to_time_series, str_to_timeseries, time_series_to_str, timeseries_to_str)
    ts = _data(c)
    X, k = _in(c, ts)
    B = _keep(X)
    c.note(ts=ts, form=k)
    W_ = gen.pad(ts)
    tmp = tempfile.mkdtemp(prefix="p15_")
    try:
        f = os.path.join(tmp, "data set.txt")
        if c.rng.rand() < .3:
            with open(f, "w") as h:
                h.write("something longer that was there before\n" * 50)
        sv, ld = (save_time_series_txt, load_time_series_txt) if c.rng.rand() < .7 else (save_timeseries_txt, load_timeseries_txt)
        sv(f, X)
        c.equal(ld(f), W_, "text file: default format is exact")
        _untouched(c, X, B, "saving to text")
        c.ok(len(open(f).read().splitlines()) == len(ts), "text file: a line per series")
        fmt, tol = c.choice([("%.3f", 5.0001e-4), ("%.6e", 0.), ("%.17g", 0.), ("%.1f", .0500001)])
        sv(f, X, fmt=fmt)
        if np.nanmax(np.abs(W_)) < 1e9:
            c.close(ld(f), W_, "text file: up to the printed precision", rtol=1e-6, atol=tol, fmt=fmt)
    finally:
        shutil.rmtree(tmp)
    for x in ts:
        s = (time_series_to_str if c.rng.rand() < .7 else timeseries_to_str)(x)
        c.equal((str_to_time_series if c.rng.rand() < .7 else str_to_timeseries)(s), x, "string form is exact")
        c.ok(s.count("|") == x.shape[1] - 1, "string form: features separated")
    if (W_ == np.round(W_)).all() and np.abs(W_).max() < 1e9:
        c.equal(str_to_time_series(time_series_to_str(ts[0], fmt="%d")), ts[0], "integer format")
    c.cover("text", len(ts), ts[0].shape[1], k)


def _rows(c):
    import pandas as pd
    return pd


def pandas_formats(c):
    import pandas as pd
    from tslearn import utils as U
    ts = _data(c)
    d = ts[0].shape[1]
    X, k = _in(c, ts)
    B = _keep(X)
    W_ = gen.pad(ts)
    c.note(ts=ts, form=k)
    # sktime: a column per feature, a pandas series per cell
    df = U.to_sktime_dataset(X)
    c.ok(list(df.columns) == ["dim_%d" % i for i in range(d)] and len(df) == len(ts), "sktime: one column per feature")
    for j in range(d):
        for i, x in enumerate(ts):
            cell = df.iloc[i, j]
            c.ok(isinstance(cell, pd.Series), "sktime: cells are series")
            c.equal(cell.values, x[:, j], "sktime: cell holds the observed values")
    c.equal(U.from_sktime_dataset(df), W_, "sktime round trip")
    perm = c.rng.permutation(len(ts))
    c.equal(U.from_sktime_dataset(df.iloc[perm]), gen.pad(ts, 0)[perm], "sktime: rows taken in their order")
    cols = list(c.rng.permutation(list(df.columns)))
    c.equal(U.from_sktime_dataset(df[cols]), W_, "sktime: features taken by name")
    df2 = df.copy()
    df2["label"] = 1
    c.equal(U.from_sktime_dataset(df2), W_, "sktime: other columns are no features")
    c.raises((ValueError,), lambda: U.from_sktime_dataset(df.rename(columns={"dim_0": "dim_%d" % (d + 1)})), "sktime: gap in features refused")
    # tsfresh: flat frame
    df = U.to_tsfresh_dataset(X)
    c.ok(set(df.columns) == {"id", "time"} | {"dim_%d" % i for i in range(d)}, "tsfresh: columns")
    c.ok(len(df) == sum(map(len, ts)), "tsfresh: a row per time stamp", rows=len(df))
    for i, x in enumerate(ts):
        g = df[df["id"] == i]
        c.equal(g[["dim_%d" % j for j in range(d)]].values.astype(float), x, "tsfresh: rows of a series hold its values")
        c.equal(g["time"].values.astype(float), np.arange(len(x)).astype(float), "tsfresh: time stamps")
    c.equal(U.from_tsfresh_dataset(df), W_, "tsfresh round trip")
    ids = c.choice([["s%d" % v for v in c.rng.permutation(50)[:len(ts)]], (c.rng.permutation(5000)[:len(ts)] - 2500).tolist(),
                    (c.rng.permutation(200)[:len(ts)] * .5).tolist()])
    df3 = df.copy()
    df3["id"] = [ids[int(i)] for i in df["id"]]
    c.note(ids=ids)
    c.equal(U.from_tsfresh_dataset(df3), W_, "tsfresh: series kept in their order, whatever the ids")
    # blocks of other series may be interleaved, rows of one series stay ordered
    if len(ts) > 1:
        df4 = df3.sort_values("time", kind="stable")
        c.equal(U.from_tsfresh_dataset(df4), W_, "tsfresh: interleaved series")
    shuffled = df3.iloc[c.rng.permutation(len(df3))]
    first = [ids.index(v) for v in shuffled["id"].unique()]
    c.equal(U.from_tsfresh_dataset(shuffled), W_[first], "tsfresh: shuffled rows, put back by their time stamps")
    df5 = df3.reset_index(drop=True)
    c.equal(U.from_tsfresh_dataset(df5), W_, "tsfresh: any index")
    _untouched(c, X, B, "to_sktime/to_tsfresh")
    for bad in (W_, None, W_.tolist()):
        c.raises((ValueError,), lambda: U.from_sktime_dataset(bad), "sktime: other types refused")
        c.raises((ValueError,), lambda: U.from_tsfresh_dataset(bad), "tsfresh: other types refused")
        c.raises((ValueError,), lambda: U.from_pyflux_dataset(bad), "pyflux: other types refused")
    # pyflux: one series, equal features
    x = ts[0]
    for form in ([x], x[None], gen.pad([x], 2)) + (([x[:, 0].tolist()], ) if d == 1 else ()):
        df = U.to_pyflux_dataset(form)
        c.ok(df.shape == x.shape and list(df.columns) == ["dim_%d" % i for i in range(d)], "pyflux: one row per time stamp", shape=df.shape)
        c.equal(df.values, x, "pyflux: values")
        c.equal(U.from_pyflux_dataset(df), x[None], "pyflux round trip")
    if d == 1:
        c.equal(U.from_pyflux_dataset(U.to_pyflux_dataset(x[:, 0])), x[None], "pyflux round trip of a flat series")
    if len(ts) > 1:
        c.raises((ValueError,), lambda: U.to_pyflux_dataset(X), "pyflux: several series refused")
    c.cover("pandas", len(ts), d, k, len({len(x) for x in ts}) == 1)


def array_formats(c):
    from tslearn import utils as U
    ts = _data(c)
    d = ts[0].shape[1]
    eq = len({len(x) for x in ts}) == 1
    X, k = _in(c, ts)
    B = _keep(X)
    W_ = gen.pad(ts)
    c.note(ts=ts, form=k)
    # scikit-learn: rows are flattened series
    Z, dd = U.to_sklearn_dataset(X, return_dim=True)
    c.ok(dd == d and Z.shape == (len(ts), W_.shape[1] * d), "sklearn: shape", shape=Z.shape)
    c.equal(Z.reshape(len(ts), -1, dd), W_, "sklearn: reshaping gives the dataset back")
    c.equal(U.to_sklearn_dataset(X), Z, "sklearn: return_dim changes nothing else")
    # seglearn: array of arrays
    S = U.to_seglearn_dataset(X)
    c.ok(isinstance(S, np.ndarray) and len(S) == len(ts), "seglearn: one item per series")
    for s, x in zip(S, ts):
        c.equal(np.asarray(s, dtype=float), x, "seglearn: items hold the observed values")
    c.equal(U.from_seglearn_dataset(S), W_, "seglearn round trip")
    # stumpy: list of (d, sz) or flat arrays
    S = U.to_stumpy_dataset(X)
    for s, x in zip(S, ts):
        c.equal(s, x[:, 0] if d == 1 else x.T, "stumpy: items are feature-major")
    c.ok(len(S) == len(ts), "stumpy: one item per series")
    c.equal(U.from_stumpy_dataset(S), W_, "stumpy round trip")
    # pyts: equal lengths only, (n, sz) or (n, d, sz)
    if eq:
        P = U.to_pyts_dataset(X)
        c.equal(P, W_[:, :, 0] if d == 1 else W_.transpose(0, 2, 1), "pyts: feature-major")
        if not np.isnan(W_).any():
            c.equal(U.from_pyts_dataset(P), W_, "pyts round trip")
    else:
        c.raises((ValueError,), lambda: U.to_pyts_dataset(X), "pyts: different lengths refused")
    for bad in (np.zeros(3), np.zeros((1, 2, 3, 1))):
        c.raises((ValueError,), lambda: U.from_pyts_dataset(bad), "pyts: other dimensions refused")
    _untouched(c, X, B, "array converters")
    c.cover("arrays", len(ts), d, eq, k)


def cesium(c):
    from tslearn import utils as U
    from cesium.time_series import TimeSeries
    ts = _data(c, lo=2, holes=False)
    d = ts[0].shape[1]
    X, k = _in(c, ts)
    B = _keep(X)
    c.note(ts=ts, form=k)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        S = U.to_cesium_dataset(X)
        c.ok(all(type(s) is TimeSeries for s in S) and len(S) == len(ts), "cesium: time series objects")
        for s, x in zip(S, ts):
            c.equal(np.asarray(s.measurement, dtype=float), x[:, 0] if d == 1 else x.T, "cesium: measurements")
        c.equal(U.from_cesium_dataset(S), gen.pad(ts), "cesium round trip")
        for bad in (gen.pad(ts), [1, 2], ts):
            c.raises((ValueError,), lambda: U.from_cesium_dataset(bad), "cesium: other types refused")
    _untouched(c, X, B, "to_cesium")
    c.cover("cesium", len(ts), d)


def large(c):
    """Files well beyond any buffer: many series, long lines, millions of characters."""
    from tslearn.utils import from_pyts_dataset, load_time_series_txt, save_time_series_txt, to_pyts_dataset
    r = c.rng
    n, sz, d = [(int(r.randint(60, 160)), int(r.randint(300, 700)), 1), (3, int(r.randint(20000, 60000)), 1),
                (int(r.randint(20000, 40000)), 3, 1), (int(r.randint(40, 80)), int(r.randint(100, 300)), 3)][r.randint(4)]
    X = r.randn(n, sz, d)
    if r.rand() < .5:
        for i in range(1, n):
            X[i, int(r.randint(1, sz + 1)):] = np.nan
    c.note(shape=X.shape)
    tmp = tempfile.mkdtemp(prefix="p15_")
    try:
        f = os.path.join(tmp, "large.txt")
        save_time_series_txt(f, X)
        size = os.path.getsize(f)
        Y = load_time_series_txt(f)
        c.ok(Y.shape == X.shape, "large text file: every series comes back", shape=Y.shape, want=X.shape, size=size)
        c.ok(Y.shape == X.shape and np.array_equal(Y, X, equal_nan=True), "large text file: default format is exact", size=size)
        c.event("characters", size)
        c.cover("large", int(np.log2(size)), d)
    finally:
        shutil.rmtree(tmp)
    if not np.isnan(X).any():
        c.ok(np.array_equal(from_pyts_dataset(to_pyts_dataset(X)), X), "large array format round trip")


WORKLOADS = [W(large, 6), W(text, 350), W(pandas_formats, 300), W(array_formats, 500), W(cesium, 200)]
META = dict(
    technique="runtime monitoring: round-trip and cell-by-cell oracles over generated datasets, in scratch directories",
    rule="datasets (holes, extreme values, lengths, features, containers) drawn per case and sent through every format",
    note="Each converted object is also compared cell by cell with the series it was made of, so that converters that "
         "are wrong in both directions are seen.",
    assumptions=["sktime, tsfresh, pyts, seglearn and pyflux are not installed: their documented containers are checked",
                 "the last row of every series is observed in all features"])
