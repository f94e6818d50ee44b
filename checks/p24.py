"""P24: DBSCAN and silhouette follow their definitions on the chosen metric."""
import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np
from vmon.util import scale_of


def _lib_matrix(c, metric, A, mp):
    """Distances from pairwise reference programs (or pairwise library calls
    for the measures whose own properties judge them)."""
    from tslearn import metrics as M
    n = len(A)
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            x, y = A[i], A[j]
            if i == j:
                continue
            C = ref.sqdist(x, y)
            if metric == "euclidean":
                D[i, j] = np.sqrt(np.trace(C))
            elif metric in ("dtw", "frechet"):
                mask = ref.sakoe_mask(len(x), len(y), mp["sakoe_chiba_radius"]) if "sakoe_chiba_radius" in mp else None
                v = ref.align_min(C, mask, "sum" if metric == "dtw" else "max")
                D[i, j] = np.sqrt(max(v, 0.))
            elif metric == "softdtw_normalized":
                D[i, j] = _sdtwn(x, y, mp.get("gamma", 1.))
            elif metric == "ctw":
                D[i, j] = M.ctw(A[min(i, j)], A[max(i, j)], **mp)
    return D


def _sdtwn(x, y, g):
    s = lambda a, b: ref.soft_dtw(ref.sqdist(a, b), g)
    return s(x, y) - .5 * (s(x, x) + s(y, y))


def _draw(c, metric, nmax=14, exact=False):
    d = gen.dim(c.rng, 2)
    n = int(c.rng.randint(3, nmax))
    if metric == "ctw":
        n, d = min(n, 5), 2
    equal = metric == "euclidean" or c.rng.rand() < .4
    if metric == "ctw":
        A = [c.rng.randn(int(c.rng.randint(5, 9)), d) for _ in range(n)]
    else:
        A = gen.dataset(c.rng, n, 1 if exact else 2, 7, d, equal=equal, kind="ties" if exact else c.choice(["gauss", "walk", "sine", "ties"]))
    if not exact and c.rng.rand() < .7:
        c0 = [3 * c.rng.randn(d) for _ in range(3)]
        A = [x * .4 + c0[int(c.rng.randint(3))] for x in A]
    mp = {}
    if metric in ("dtw", "frechet") and c.rng.rand() < .4:
        mp = {"sakoe_chiba_radius": int(c.choice([6, 7]))}
        if equal:
            mp["sakoe_chiba_radius"] = int(c.choice([0, 1, 2]))
        if c.rng.rand() < .5:
            mp["global_constraint"] = "sakoe_chiba"
    if metric == "softdtw_normalized" and c.rng.rand() < .6:
        mp = {"gamma": float(c.choice([.1, 2.]))}
    return A, mp


def _components(D, eps, min_ts):
    near = D <= eps
    core = near.sum(1) >= min_ts
    n = len(D)
    comp = np.full(n, -1)
    k = 0
    for i in range(n):
        if core[i] and comp[i] < 0:
            todo = [i]
            comp[i] = k
            while todo:
                u = todo.pop()
                for v in range(n):
                    if core[v] and near[u, v] and comp[v] < 0:
                        comp[v] = k
                        todo.append(v)
            k += 1
    return near, core, comp, k


def _judge(c, m, D, eps, min_ts, X):
    near, core, comp, k = _components(D, eps, min_ts)
    lab = to_np(m.labels_)
    c.ok(lab.shape == (len(D),), "one label per series")
    c.equal(np.sort(m.core_ts_indices_), np.nonzero(core)[0], "core series are those with enough neighbours within eps", eps=eps, D=D)
    good = True
    for i in np.nonzero(core)[0]:
        for j in np.nonzero(core)[0]:
            good &= bool((lab[i] == lab[j]) == (comp[i] == comp[j]))
    c.ok(good and (lab[core] >= 0).all(), "core series share a label exactly when they are connected", labels=lab, components=comp)
    for i in np.nonzero(~core)[0]:
        reach = {int(lab[j]) for j in np.nonzero(near[i] & core)[0]}
        if reach:
            c.event("border series seen")
            c.ok(int(lab[i]) in reach, "a border series belongs to a cluster that reaches it", series=i, labels=lab)
        else:
            c.event("noise seen")
            c.ok(lab[i] == -1, "an unreachable series is noise", series=i, labels=lab)
    c.ok(set(lab.tolist()) - {-1} == set(range(k)), "clusters are numbered from zero", labels=lab)
    if len(m.core_ts_indices_):
        c.equal(m.components_, X[m.core_ts_indices_], "components are the core series")
    return k, int(core.sum())


def _gap_eps(c, D):
    """A radius away from every distance."""
    v = np.unique(D[np.triu_indices(len(D), 1)])
    q = c.rng.randint(0, len(v))
    eps = (v[q] + v[q + 1]) / 2 if q + 1 < len(v) else v[-1] * 1.2 + .1
    if not np.isfinite(eps) or np.min(np.abs(np.append(D.ravel(), 0) - eps)) < 1e-6 * max(1., np.abs(D[np.isfinite(D)]).max()) or eps <= 0:
        c.skip()
    return float(eps)


def dbscan(c):
    from tslearn.clustering import TimeSeriesDBSCAN
    metric = c.choice(["dtw", "dtw", "frechet", "softdtw_normalized", "euclidean", "ctw"])
    A, mp = _draw(c, metric)
    D = _lib_matrix(c, metric, A, mp)
    eps, min_ts = _gap_eps(c, D), int(c.choice([1, 2, 2, 3, 3, 4]))
    X = gen.pad(A, 0 if metric == "euclidean" else int(c.choice([0, 0, 2])))
    c.note(metric=metric, X=X, eps=eps, min_ts=min_ts, metric_params=mp)
    m = TimeSeriesDBSCAN(eps=eps, min_ts=min_ts, metric=metric, metric_params=mp or None, n_jobs=c.choice([None, None, 2]))
    keep = X.copy()
    lab = m.fit_predict(X)
    c.equal(X, keep, "data untouched")
    c.equal(lab, m.labels_, "fit_predict returns the labels")
    from tslearn.utils import to_time_series_dataset
    k, nc = _judge(c, m, D, eps, min_ts, to_time_series_dataset(X))
    # the same through precomputed distances
    p = TimeSeriesDBSCAN(eps=eps, min_ts=min_ts, metric="precomputed").fit(np.nan_to_num(D, posinf=1e9))
    c.equal(p.labels_, m.labels_, "precomputed distances give the same labels")
    c.equal(p.core_ts_indices_, m.core_ts_indices_, "precomputed distances give the same core series")
    c.cover(metric, len(A), k, nc, min_ts, tuple(sorted(mp)))


def boundary(c):
    """Distances exactly equal to eps count."""
    from tslearn.clustering import TimeSeriesDBSCAN
    metric = c.choice(["dtw", "frechet", "precomputed"])
    n = int(c.rng.randint(3, 12))
    A = [c.rng.randint(0, 9, size=(1, 1)).astype(float) for _ in range(n)]
    D = np.abs(np.array(A)[:, :, 0] - np.array(A)[:, 0][None, :, 0])
    eps, min_ts = float(c.rng.randint(1, 4)), int(c.rng.randint(1, 5))
    c.note(metric=metric, D=D, eps=eps, min_ts=min_ts)
    X = D if metric == "precomputed" else np.array(A)
    m = TimeSeriesDBSCAN(eps=eps, min_ts=min_ts, metric=metric).fit(X)
    if metric == "precomputed":
        X = X[:, :, None]
    k, nc = _judge(c, m, D, eps, min_ts, X)
    c.cover(metric, n, k, nc, min_ts)


def _sil(D, lab):
    n = len(D)
    out = []
    for i in range(n):
        same = [j for j in range(n) if lab[j] == lab[i] and j != i]
        if not same:
            out.append(0.)
            continue
        a = np.mean([D[i, j] for j in same])
        b = min(np.mean([D[i, j] for j in range(n) if lab[j] == k]) for k in set(lab.tolist()) if k != lab[i])
        out.append(0. if max(a, b) == 0 else (b - a) / max(a, b))
    return float(np.mean(out))


def silhouette(c):
    from tslearn.clustering import silhouette_score
    from tslearn import metrics as M
    metric = c.choice(["dtw", None, "softdtw", "euclidean", "callable", "callable", "precomputed"])
    base = {None: "dtw", "softdtw": "softdtw_normalized", "callable": "frechet", "precomputed": "dtw"}.get(metric, metric)
    A, mp = _draw(c, base, nmax=11)
    n = len(A)
    lab = c.rng.randint(0, int(c.rng.randint(2, 4)), size=n)
    if not 2 <= len(set(lab.tolist())) <= n - 1:
        lab[:] = 0
        lab[0] = 1
    D = _lib_matrix(c, base, A, mp)
    if not np.isfinite(D).all():
        c.skip()
    X = gen.pad(A, 0 if metric in ("euclidean",) else int(c.choice([0, 0, 1])))
    c.note(metric=str(metric), X=X, labels=lab, metric_params=mp)
    s = 1e-9 if base != "softdtw_normalized" else 1e-6
    want = _sil(D, lab)
    # a mean near zero makes the score of near-identical series ill-defined
    if min(np.abs(D[~np.eye(n, dtype=bool)])) < 1e-7 * max(1e-9, np.abs(D).max()) and metric == "softdtw":
        c.skip()
    if metric == "precomputed":
        got = silhouette_score(D, lab, metric="precomputed")
    elif metric == "callable":
        got = silhouette_score(X, lab, metric=M.frechet, metric_params=mp or None)
        if mp:
            c.close(silhouette_score(X, lab, metric=M.frechet, **mp), want, "keyword arguments reach the metric", atol=1e-7)
    else:
        if mp and c.rng.rand() < .4:
            got = silhouette_score(X, lab, metric=metric, **mp)
        else:
            got = silhouette_score(X, lab, metric=metric, metric_params=mp or None, n_jobs=c.choice([None, 2]) if metric != "euclidean" else None)
    c.close(got, want, "silhouette score is the one of its definition", rtol=1e-6, atol=1e-6)
    c.ok(-1 - 1e-9 <= got <= 1 + 1e-9 or base == "softdtw_normalized", "silhouette score lies in [-1, 1]")
    perm = c.rng.permutation(n)
    if metric not in ("precomputed", "callable"):
        got2 = silhouette_score(X[perm], lab[perm], metric=metric, metric_params=mp or None)
        c.close(got2, want, "silhouette score does not depend on the order", rtol=1e-6, atol=1e-6)
    # random subset
    if n >= 6:
        from sklearn.metrics import silhouette_score as sk
        k = n - 1
        seed = int(c.rng.randint(100))
        try:
            w2 = sk(D, lab, metric="precomputed", sample_size=k, random_state=seed)
        except ValueError:
            w2 = None
        if w2 is not None and metric != "precomputed":
            g2 = silhouette_score(X, lab, metric=M.frechet if metric == "callable" else metric, metric_params=mp or None,
                                  sample_size=k, random_state=seed)
            c.close(g2, w2, "silhouette score of a seeded random subset", rtol=1e-6, atol=1e-6)
    c.cover(str(metric), n, len(set(lab.tolist())), tuple(sorted(mp)), len({len(x) for x in A}) == 1)


def silhouette_crowd(c):
    """The silhouette score of hundreds of series in many unequal clusters."""
    from tslearn.clustering import silhouette_score
    metric = c.choice(["dtw", "dtw", "softdtw", "euclidean", "precomputed"])
    n = int(c.choice([40, 130, 270, 520])) if metric != "softdtw" else int(c.choice([40, 90]))
    A = gen.dataset(c.rng, n, 2, 6, gen.dim(c.rng, 2), equal=metric == "euclidean", kind="gauss")
    k = int(c.choice([2, 5, 12]))
    lab = np.minimum(c.rng.geometric(.4, size=n) - 1, k - 1)
    lab[:2] = [0, 1]
    A = [x + 3. * l for x, l in zip(A, lab)]
    D = _lib_matrix(c, {"softdtw": "softdtw_normalized", "precomputed": "dtw"}.get(metric, metric), A, {})
    c.note(metric=metric, n=n, labels=lab)
    names = lab if c.rng.rand() < .5 else np.array(["c%d" % l for l in lab])
    if metric == "precomputed":
        got = silhouette_score(D, names, metric="precomputed")
    else:
        got = silhouette_score(gen.pad(A), names, metric=metric, n_jobs=c.choice([None, 2]) if metric == "dtw" else None)
    c.close(got, _sil(D, lab), "silhouette score is the one of its definition", rtol=1e-6, atol=1e-6)
    c.event("series in large silhouettes", n)
    c.cover("silhouette crowd", metric, n, k)


def chains(c):
    """Long chains, combs and grids of series: groups of large diameter, hundreds of series."""
    from tslearn.clustering import TimeSeriesDBSCAN
    r = c.rng
    n = int(c.choice([40, 80, 150, 260]))
    kind = c.choice(["chain", "ring", "comb", "clouds"])
    if kind == "chain":
        P = np.stack([np.cumsum(np.where(r.rand(n) < .03, 3., 1.)), np.zeros(n)], 1)
    elif kind == "ring":
        a = np.arange(n) * 2 * np.pi / n
        P = np.stack([np.cos(a), np.sin(a)], 1) * n / (2 * np.pi)
    elif kind == "comb":
        P = np.stack([np.repeat(np.arange(n // 4), 4), np.tile(np.arange(4), n // 4)], 1).astype(float)
    else:
        P = r.randn(n, 2) * .4 + 4 * r.randint(0, 4, size=(n, 2))
    P = P + r.uniform(-.02, .02, size=P.shape)
    P = P[r.permutation(len(P))] if r.rand() < .7 else P
    sz = int(r.randint(2, 5))
    X = np.repeat(P[:, None, :], sz, 1) / np.sqrt(sz)     # constant series: every alignment costs the same
    metric = c.choice(["euclidean", "dtw", "precomputed"])
    D = np.sqrt(((P[:, None] - P[None]) ** 2).sum(-1))
    eps, min_ts = float(c.choice([1.2, 1.2, 2.3])), int(c.choice([1, 2, 3, 4]))
    if np.abs(D - eps).min() < 1e-6:
        c.skip()
    c.note(kind=kind, metric=metric, P=P, sz=sz, eps=eps, min_ts=min_ts)
    m = TimeSeriesDBSCAN(eps=eps, min_ts=min_ts, metric=metric, n_jobs=c.choice([None, 2]))
    m.fit(D if metric == "precomputed" else X)
    near, core, comp, k = _components(D, eps, min_ts)
    lab = to_np(m.labels_)
    c.equal(np.sort(m.core_ts_indices_), np.nonzero(core)[0], "many series: core series")
    pairs = {(int(a), int(b)) for a, b in zip(lab[core], comp[core])}
    c.ok(len(pairs) == k == len({a for a, _ in pairs}) and -1 not in lab[core],
         "many series: core series share a label exactly when they are connected", labels=lab, components=comp)
    for i in np.nonzero(~core)[0]:
        reach = {int(v) for v in lab[near[i] & core]}
        c.ok(int(lab[i]) in (reach or {-1}), "many series: border and noise", series=int(i))
    c.event("series in large datasets", n)
    c.cover(kind, metric, k, min_ts, n)


WORKLOADS = [W(silhouette_crowd, 20), W(chains, 24), W(dbscan, 70), W(boundary, 40), W(silhouette, 70)]
META = dict(
    technique="runtime monitors comparing core series, connected components, border and noise labels, and silhouette scores with "
              "their definitions on distances recomputed by reference programs",
    rule="distinct (metric, size, clusters, core series, parameters) combinations observed",
    note="TimeSeriesDBSCAN on DTW, Frechet, normalised soft-DTW, CTW, Euclidean and precomputed distances (including radii equal to a "
         "distance) and silhouette_score on every documented metric kind, seeded subsets included.",
    assumptions=["random radii are kept away from the distances, exact ties are driven with exactly representable distances",
                 "CTW distances come from pairwise library calls (judged by P09)"])
