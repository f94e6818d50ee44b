"""P16: a saved and reloaded model behaves exactly like the original."""
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from vmon import gen, zoo
from vmon.core import W


def _params(e):
    out = {}
    for k, v in e.get_params(deep=False).items():
        if hasattr(v, "get_config"):
            v = str(v.get_config())
        out[k] = v
    return out


def _same_param(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(_same_param(a[k], b[k]) for k in a)
    if a is None or isinstance(a, str):
        return a == b and type(b) is type(a)
    if hasattr(a, "get_params"):
        return type(a) is type(b)
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == "f")


def _same_params(a, b):
    return set(a) == set(b) and all(_same_param(a[k], b[k]) for k in a)


def _fitted(c, names=zoo.SAVED, **kw):
    m = zoo.draw(c, names, **kw)
    e = m.make()
    try:
        m.fit(e)
        o = m.outputs(e)
    except Exception:
        if m.flags.get("may_fail"):
            c.skip()
        raise
    return m, e, o, m.fitted(e)


def _formats(m):
    s = m.flags.get("save")
    return s if isinstance(s, list) else ["json", "hdf5", "pickle"]


def _judge(c, m, r, e, o, s, fmt, params=None):
    c.ok(type(r) is type(e), "reloaded model has the same class", got=type(r))
    c.ok(_same_params(_params(e) if params is None else params, _params(r)), "reloaded model has the same parameters", fmt=fmt, got=_params(r))
    g = m.outputs(r)
    for k in o:
        c.ok(zoo.same(g[k], o[k]), "reloaded model gives the same results", method=k, fmt=fmt, got=g[k], want=o[k])
    f = m.fitted(r)
    for k in s:
        c.ok(zoo.same(f[k], s[k]), "reloaded model has the same fitted results", name=k, fmt=fmt, got=f[k], want=s[k])
    c.event("reloads_" + fmt)


def _snapshot(e):
    return {k: copy.deepcopy(v) for k, v in vars(e).items() if not k.startswith("model") and "layer" not in k and "_model" not in k}


def _vars_same(a, b):
    return [k for k in set(a) | set(b) if not (k in a and k in b and _deep(a[k], b[k]))]


def _deep(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(_deep(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_deep(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return zoo.same(a, b)
    if isinstance(a, (int, float, str, bool, type(None), np.generic)):
        return a == b or a != a and b != b
    if hasattr(a, "__dict__") and "tslearn" in type(a).__module__:
        return not _vars_same(vars(a), vars(b))
    return True


def _tmp():
    return tempfile.mkdtemp(prefix="p16_")


def files(c):
    """Every file format; saving twice; saving leaves the model alone."""
    m, e, o, s = _fitted(c)
    td = _tmp()
    try:
        before, p0 = _snapshot(e), _params(e)
        fs = _formats(m)
        fs = [fs[i] for i in c.rng.permutation(len(fs))]
        for fmt in fs:
            p = os.path.join(td, "m." + fmt)
            with zoo.quiet():
                getattr(e, "to_" + fmt)(p)
                r = getattr(m.cls, "from_" + fmt)(p)
            _judge(c, m, r, e, o, s, fmt, p0)
            bad = _vars_same(before, _snapshot(e))
            c.ok(not bad, "saving leaves the original unchanged", fmt=fmt, changed=bad)
            # saved again from the reloaded model, in another format
            f2 = fs[int(c.rng.randint(len(fs)))]
            p2 = os.path.join(td, "second_%s.%s" % (fmt, f2))
            with zoo.quiet():
                getattr(r, "to_" + f2)(p2)
                r2 = getattr(m.cls, "from_" + f2)(p2)
            _judge(c, m, r2, e, o, s, fmt + "+" + f2, p0)
        g = m.outputs(e)
        c.ok(all(zoo.same(g[k], o[k]) for k in o), "the original still gives the same results")
    finally:
        shutil.rmtree(td, ignore_errors=True)
    c.event("models_saved")


def refit_reloaded(c):
    """A reloaded model can be fitted again like a new one."""
    m, e, o, s = _fitted(c, [k for k in zoo.SAVED if k not in ("shapelets",)])
    td = _tmp()
    try:
        fmt = c.choice(_formats(m))
        p = os.path.join(td, "m")
        with zoo.quiet():
            getattr(e, "to_" + fmt)(p)
            r = getattr(m.cls, "from_" + fmt)(p)
        m.fit(r)
        g, f = m.outputs(r), m.fitted(r)
        c.ok(all(zoo.same(g[k], o[k], 1e-12, 1e-12) for k in o), "refitting a reloaded model gives the same results", fmt=fmt, got=g, want=o)
        c.ok(all(zoo.same(f[k], s[k], 1e-12, 1e-12) for k in s), "refitting a reloaded model gives the same fitted results", fmt=fmt, got=f, want=s)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    c.event("refits")


def twice(c):
    """Two models, one after the other, to the same or to different files."""
    name = c.choice([k for k in zoo.SAVED if k not in ("shapelets", "autovarima")])
    m1, e1, o1, s1 = _fitted(c, [name])
    m2, e2, o2, s2 = _fitted(c, [name])
    td = _tmp()
    try:
        for fmt in _formats(m1):
            p = os.path.join(td, "a." + fmt)
            q = os.path.join(td, "b." + fmt)
            with zoo.quiet():
                getattr(e1, "to_" + fmt)(p)
                getattr(e2, "to_" + fmt)(q)
                r2 = getattr(m2.cls, "from_" + fmt)(q)
                r1 = getattr(m1.cls, "from_" + fmt)(p)
            _judge(c, m2, r2, e2, o2, s2, fmt)
            _judge(c, m1, r1, e1, o1, s1, fmt)
            if fmt == "hdf5":
                with open(p, "rb") as f:
                    old = f.read()
                c.raises(FileExistsError, lambda: e2.to_hdf5(p), "an existing HDF5 file is refused")
                with open(p, "rb") as f:
                    c.ok(f.read() == old, "a refused save leaves the file alone")
            else:
                with zoo.quiet():
                    getattr(e2, "to_" + fmt)(p)
                    r = getattr(m2.cls, "from_" + fmt)(p)
                _judge(c, m2, r, e2, o2, s2, fmt)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    c.event("pairs")


def unfitted(c):
    from sklearn.exceptions import NotFittedError
    m = zoo.draw(c, zoo.SAVED)
    e = m.make()
    td = _tmp()
    try:
        for fmt in _formats(m):
            p = os.path.join(td, "m." + fmt)
            c.raises(NotFittedError, lambda: getattr(e, "to_" + fmt)(p), "an unfitted model is refused")
            c.ok(not os.path.exists(p), "a refused model leaves no file", fmt=fmt)
        with open(os.path.join(td, "x"), "w") as f:
            f.write("kept")
        for fmt in ("json", "pickle"):
            c.raises(NotFittedError, lambda: getattr(e, "to_" + fmt)(os.path.join(td, "x")), "an unfitted model is refused")
            with open(os.path.join(td, "x")) as f:
                c.ok(f.read() == "kept", "a refused model leaves an existing file alone", fmt=fmt)
    finally:
        shutil.rmtree(td, ignore_errors=True)


def python_copies(c):
    """Pickling, deep copies and clones of every estimator."""
    from sklearn.base import clone
    names = [k for k in zoo.ALL if k != "shapelets"]
    m, e, o, s = _fitted(c, names)
    before = _snapshot(e)
    for proto in c.choice([(2,), (4,), (pickle.HIGHEST_PROTOCOL,)]):
        _judge(c, m, pickle.loads(pickle.dumps(e, protocol=proto)), e, o, s, "python_pickle")
    _judge(c, m, copy.deepcopy(e), e, o, s, "deepcopy")
    k = clone(e)
    c.ok(type(k) is type(e) and _same_params(_params(e), _params(k)), "a clone has the same parameters")
    fresh = set(vars(m.make()))
    c.ok(set(vars(k)) <= fresh, "a clone carries no fitted state", extra=sorted(set(vars(k)) - fresh))
    m.fit(k)
    g, f = m.outputs(k), m.fitted(k)
    c.ok(all(zoo.same(g[q], o[q]) for q in o) and all(zoo.same(f[q], s[q]) for q in s), "a fitted clone gives the same results", got=g, want=o)
    # the clone or copy is independent of the original
    u = pickle.loads(pickle.dumps(m.make()))
    c.ok(_same_params(_params(u), _params(m.make())), "an unfitted estimator pickles")
    bad = _vars_same(before, _snapshot(e))
    c.ok(not bad, "copies leave the original unchanged", changed=bad)
    g = m.outputs(e)
    c.ok(all(zoo.same(g[q], o[q]) for q in o), "the original still gives the same results")


def hdf5_dicts(c):
    """The nested dictionaries behind HDF5 files."""
    from tslearn import hdftools
    r = c.rng

    def leaf():
        k = r.randint(0, 9)
        if k == 0:
            return str(c.choice(["", "abc", "None", "é à", "x y"]))
        if k == 1:
            return int(r.randint(-5, 10 ** 6))
        if k == 2:
            return float(r.randn() * 10.0 ** r.randint(-8, 8))
        if k == 3:
            return np.array(["a", "bcd", "é"])[:int(r.randint(1, 4))]
        if k == 4:
            return bool(r.rand() < .5)
        dt = c.choice([np.float64, np.float32, np.int64, np.int8, np.int32, bool])
        shape = tuple(int(x) for x in r.randint(0 if r.rand() < .2 else 1, 4, size=r.randint(1, 4)))
        if r.rand() < .15:      # as large as the series a model may keep
            shape = tuple(int(x) for x in r.randint(8, 30, size=r.randint(2, 4)))
        a = (r.randn(*shape) * 20)
        if r.rand() < .4:
            a = a * 10. ** r.uniform(-12, 12, size=shape if r.rand() < .5 else 1)
            a = np.clip(a, -1e9, 1e9) if dt not in (np.float64, np.float32) else a
        if dt is np.float64 and r.rand() < .3 and a.size:
            a.ravel()[0] = c.choice([np.nan, np.inf, -np.inf])
        return a.astype(dt)

    def tree(depth):
        d = {}
        for i in range(int(r.randint(0 if depth < 2 else 1, 4))):
            key = "k%d%s" % (i, c.choice(["", "_", "__x"]))
            d[key] = tree(depth - 1) if depth and r.rand() < .35 else leaf()
        return d

    d = tree(2)
    if not d:
        d = {"k": leaf()}
    group = c.choice(["data", "g1", "a"])
    c.note(d=d, group=group)
    td = _tmp()
    try:
        p = os.path.join(td, "d.h5")
        hdftools.save_dict(d, p, group)
        got = hdftools.load_dict(p, group)
        c.raises(FileExistsError, lambda: hdftools.save_dict({"a": 1}, p, group), "an existing file is refused")
        again = hdftools.load_dict(p, group)
    finally:
        shutil.rmtree(td, ignore_errors=True)

    def eq(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) and all(eq(a[k], b[k]) for k in a)
        if isinstance(a, str):
            return (b.decode() if isinstance(b, bytes) else b) == a
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.dtype == b.dtype or a.dtype.kind in "ifb" and a.ndim == 0) and (np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b))
    c.ok(eq(d, got), "a nested dictionary comes back as it was saved", got=got)
    c.ok(eq(d, again), "a refused save leaves the dictionary alone", got=again)
    c.event("dicts")


def large(c):
    """Models that keep many values, of every magnitude."""
    from tslearn.clustering import KernelKMeans, TimeSeriesKMeans
    from tslearn.neighbors import KNeighborsTimeSeries, KNeighborsTimeSeriesClassifier, KNeighborsTimeSeriesRegressor
    r = c.rng
    n, sz, d = int(r.randint(10, 40)), int(r.randint(30, 90)), int(r.randint(1, 4))
    X = r.randn(n, sz, d) * 10. ** c.choice([-9., -5., 0., 4., 9.])
    if r.rand() < .4:
        X = X * 10. ** r.uniform(-6, 6, size=(n, sz, 1))
    y = np.arange(n) % 3
    k = c.choice(["knn", "knn_clf", "knn_reg", "kmeans", "kernel_kmeans"])
    e = {"knn": lambda: KNeighborsTimeSeries(n_neighbors=3, metric=c.choice(["euclidean", "dtw"])),
         "knn_clf": lambda: KNeighborsTimeSeriesClassifier(n_neighbors=3, metric=c.choice(["euclidean", "dtw"])),
         "knn_reg": lambda: KNeighborsTimeSeriesRegressor(n_neighbors=3, weights="distance", metric=c.choice(["euclidean", "dtw"])),
         "kmeans": lambda: TimeSeriesKMeans(n_clusters=3, n_init=1, max_iter=3, metric="euclidean", random_state=0),
         "kernel_kmeans": lambda: KernelKMeans(n_clusters=2, kernel="rbf", max_iter=2, random_state=0)}[k]()
    c.note(model=k, n=n, sz=sz, d=d, params=e.get_params(), magnitude=[float(np.abs(X).min()), float(np.abs(X).max())])
    with zoo.quiet():
        e.fit(X, y)
    Q = X[:5] + r.randn(5, sz, d) * np.abs(X[:5]) * .1

    def out(m):
        with zoo.quiet():
            return list(m.kneighbors(Q)) if k == "knn" else [*m.kneighbors(Q), m.predict(Q)] if "knn" in k else m.predict(Q)
    attrs = ["_ts_fit", "_X_fit", "_fit_X", "_y", "cluster_centers_", "labels_", "inertia_", "sample_weight_"]
    try:
        want = out(e)
    except AttributeError:
        if k != "kernel_kmeans":
            raise
        return         # every attempt ended with an empty cluster
    td = _tmp()
    try:
        for fmt in ("json", "hdf5", "pickle"):
            p = os.path.join(td, "m." + fmt)
            with zoo.quiet():
                getattr(e, "to_" + fmt)(p)
                m = getattr(type(e), "from_" + fmt)(p)
            for a in attrs:
                u, v = getattr(e, a, None), getattr(m, a, None)
                if u is not None and v is not None:
                    c.ok(np.array_equal(np.asarray(u), np.asarray(v), equal_nan=np.asarray(u).dtype.kind == "f"),
                         "every value a model keeps comes back exactly", fmt=fmt, name=a)
                    c.event("values compared", int(np.asarray(u).size))
            c.ok(zoo.same(out(m), want), "reloaded model gives the same results", fmt=fmt)
            c.event("reloads_" + fmt)
    finally:
        shutil.rmtree(td, ignore_errors=True)
    c.cover("large", k)


WORKLOADS = [W(large, 24), W(files, 140), W(refit_reloaded, 60), W(twice, 40), W(unfitted, 30), W(python_copies, 90), W(hdf5_dicts, 120)]

META = dict(
    technique="runtime monitoring: round-trip monitors comparing every output, parameter and fitted result of original and reloaded models",
    rule="for randomly configured fitted estimators, outputs on unseen data, fitted results and parameters after saving and loading must equal the original's exactly; hooked snapshots of the original's attributes must not change",
    note="all serialisable estimators in three formats, all estimators through pickling, deep copies and clones; shapelet models are not pickled directly (keras), only through to_pickle and to_json",
    assumptions=["parameters compare by value (HDF5 returns NumPy scalars)", "callables and random-state objects as parameters are not saved to JSON or HDF5"],
)
