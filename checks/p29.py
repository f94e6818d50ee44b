"""P29: forecasts follow the fitted model equations."""
import contextlib
import io
import warnings

import numpy as np

from vmon import gen, ref
from vmon.core import W, to_np


def _ar(rng, p, f):
    """Coefficients of a recursion whose solutions neither vanish nor explode."""
    for _ in range(200):
        A = rng.randn(p, f, f) * .8
        comp = np.zeros((p * f, p * f))
        comp[:f] = np.concatenate([a.T for a in A], 1)
        if p > 1:
            comp[f:, :-f] = np.eye((p - 1) * f)
        r = np.abs(np.linalg.eigvals(comp))
        if r.max() < 1.03 and r.min() > .6:
            return A
    return None


def _run(A, cst, start, n):
    x = [v for v in start]
    p = len(A)
    while len(x) < n:
        x.append(cst + sum((x[-k - 1] @ A[k] for k in range(p)), np.zeros(len(cst))))
    return np.array(x)


def _integrate(w, d, s, rng, n):
    """A series whose seasonal then d-th order differences are w."""
    x = w
    for _ in range(d):
        x = np.vstack([rng.randn(1, x.shape[1]), x])
        x = np.cumsum(x, 0)
    if s:
        head = 2 * rng.randn(s, x.shape[1])
        out = list(head)
        for v in x:
            out.append(v + out[-s])
        x = np.array(out)
    return x


def _ols(ts, p, const):
    """Own least squares of a series on its p lags."""
    n, f = ts.shape
    Y = ts[p:]
    cols = [np.ones((n - p, 1))] if const else []
    cols += [ts[p - k - 1:n - k - 1] for k in range(p)]
    Z = np.hstack(cols) if cols else np.zeros((n - p, 0))
    if Z.shape[1] == 0:
        return None, np.zeros((0, f)), 1.
    if Z.shape[0] < Z.shape[1]:
        return None, None, np.inf
    cond = np.linalg.cond(Z)
    B = np.linalg.lstsq(Z, Y, rcond=None)[0]
    return (B[0] if const else None), (B[1:] if const else B).reshape(p, f, f), cond


def _difference(x, d, s):
    if s:
        x = x[s:] - x[:-s]
    return np.diff(x, n=d, axis=0)


def _residuals(w, ar, ma, c):
    """One-step errors of the model on a differenced series (zero initial errors)."""
    p, q = len(ar), len(ma)
    st = max(p, q)
    e = {t: np.zeros(w.shape[1]) for t in range(st - q, st)}
    for t in range(st, len(w)):
        v = c.copy()
        for k in range(p):
            v = v + w[t - k - 1] @ ar[k]
        for k in range(q):
            v = v + e[t - k - 1] @ ma[k]
        e[t] = w[t] - v
    return e, st


def _forecast(x, ar, ma, c, d, s, n):
    """Plain forecasts of the model equations, one series at a time."""
    w = _difference(x, d, s)
    e, st = _residuals(w, ar, ma, c)
    ww, xx = list(w), list(x)
    for h in range(n):
        t = len(ww)
        v = c.copy()
        for k in range(len(ar)):
            v = v + ww[t - k - 1] @ ar[k]
        for k in range(len(ma)):
            v = v + e.get(t - k - 1, np.zeros(x.shape[1])) @ ma[k]
        e[t] = np.zeros(x.shape[1])
        ww.append(v)
        # undo the d differences of the seasonal differences, then the season
        y = [a - b for a, b in zip(xx[s:], xx[:-s])] if s else xx
        last = 0.
        cur = np.array(y[-d:]) if d else None
        for j in range(d):
            last = last + np.diff(cur, n=j, axis=0)[-1]
        z = v + last
        xx.append(z + xx[-s] if s else z)
    return np.array(xx[len(x):])


def _coeffs(m, f):
    c = to_np(m.intercept_)
    return to_np(m.ar_coeffs_), to_np(m.ma_coeffs_), (c if c.size else np.zeros(f))


def recovery(c):
    """Noise-free recursions are recovered and continued."""
    from tslearn.forecasting import VARIMA
    rng = c.rng
    f = int(c.choice([1, 1, 2, 3]))
    p, d = int(rng.randint(1, 4 if f == 1 else 3)), int(c.choice([0, 0, 1, 2]))
    s = c.choice([None, None, 2, 3, 5])
    const = bool(rng.rand() < .6)
    A = _ar(rng, p, f)
    if A is None:
        c.skip()
    cst = rng.randn(f) if const else np.zeros(f)
    N, n, h = int(rng.randint(1, 5)), int(rng.randint(14, 30)), int(rng.randint(1, 6))
    series, cont = [], []
    for i in range(N):
        li = n + (int(rng.randint(0, 6)) if rng.rand() < .4 else 0)
        w = _run(A, cst, rng.randn(p, f), li + h)
        x = _integrate(w, d, s, rng, None)
        wd = _difference(x[:-h], d, s)
        if _ols(wd, p, const)[2] > 1e3 or not np.isfinite(x).all() or np.abs(x).max() > 1e5:
            c.skip()
        series.append(x[:-h])
        cont.append(x[-h:])
    c.note(p=p, d=d, s=s, const=const, A=A, c=cst, series=series)
    m = VARIMA(p, d, 0, with_constant=const, seasonal_period=s).fit(gen.pad(series))
    c.close(m.ar_coeffs_, A, "autoregressive coefficients are recovered", rtol=1e-5, atol=1e-5)
    if const:
        c.close(m.intercept_, cst, "the intercept is recovered", rtol=1e-5, atol=1e-5)
    else:
        c.equal(np.size(m.intercept_), 0, "no intercept without constant")
    got = to_np(m.predict(n=h))
    for g, w, x in zip(got, cont, series):
        c.close(g, w, "forecasts continue the recursion", rtol=1e-4, atol=1e-4 * max(1., np.abs(x).max()))
    c.cover("recovery-p%d-d%d-s%s-f%d-%s" % (p, d, s, f, const))


def polynomial(c):
    """Trends of degree d and periodic patterns are continued exactly."""
    from tslearn.forecasting import VARIMA
    rng = c.rng
    d, f = int(rng.randint(1, 4)), int(c.choice([1, 2]))
    s = c.choice([None, 4])
    n, h, N = int(rng.randint(12, 20)), int(rng.randint(1, 7)), int(rng.randint(1, 4))
    t = np.arange(n + h)[:, None]
    co = rng.randint(-3, 4, size=(N, d + 1, f)).astype(float)
    co[:, d] = rng.randint(1, 3, size=f)          # the common leading coefficient
    per = rng.randn(N, s, f) if s else None
    X = np.array([sum(co[i, k] * t.astype(float) ** k for k in range(d + 1)) + (per[i][t[:, 0] % s] if s else 0.) for i in range(N)])
    # a seasonal difference removes one degree
    dd = d - 1 if s else d
    c.note(d=dd, s=s, X=X[:, :n])
    m = VARIMA(0, dd, 0, with_constant=True, seasonal_period=s).fit(X[:, :n])
    c.close(m.predict(n=h), X[:, n:], "trend and season are continued", rtol=1e-7, atol=1e-7 * np.abs(X).max())
    c.cover("poly-d%d-s%s" % (dd, s))


def _data(c, need, f=None):
    rng = c.rng
    f = f or int(c.choice([1, 1, 2, 3]))
    N = int(rng.randint(1, 6))
    hi = need + int(rng.randint(4, 26))
    equal = rng.rand() < .3
    kind = c.choice(["noise", "walk", "ar", "season"])
    out = []
    for i in range(N):
        n = hi if equal or i == 0 else int(rng.randint(min(need + 3, hi), hi + 1))
        e = rng.randn(n + 1, f)
        x = {"noise": e[1:], "walk": np.cumsum(e[1:], 0), "ar": None, "season": e[1:] * .3 + 2 * np.sin(np.arange(n) * 2 * np.pi / 4)[:, None]}[kind]
        if x is None:
            x = np.zeros((n, f))
            x[0] = e[0]
            for t in range(1, n):
                x[t] = .6 * x[t - 1] + e[t] + .5 * e[t - 1]
        out.append(x + c.choice([0., 3.]))
    return out, f


def equations(c):
    """On any data, forecasts are those of the model equations with the exposed
    coefficients; likelihood and coefficients agree with their definitions."""
    from tslearn.forecasting import VARIMA
    rng = c.rng
    p, d, q = int(rng.randint(0, 4)), int(c.choice([0, 0, 1, 2])), int(c.choice([0, 0, 1, 2, 3]))
    s = c.choice([None, None, None, 2, 4])
    const = bool(rng.rand() < .6)
    need = p + q + d + 1 + (s or 0)
    series, f = _data(c, need + max(p, q) + p)
    c.note(p=p, d=d, q=q, s=s, const=const, series=series)
    m = VARIMA(p, d, q, with_constant=const, seasonal_period=s, max_iter=int(c.choice([0, 5, 25])) if q else 50)
    X = gen.pad(series, int(c.choice([0, 0, 1])))
    keep = X.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.ok(m.fit(X) is m, "fit returns the estimator")
    ar, ma, cst = _coeffs(m, f)
    c.ok(ar.shape == (p, f, f) and ma.shape == (q, f, f), "shapes of the coefficients")
    h = int(rng.randint(1, 8))
    got = to_np(m.predict(n=h))
    c.ok(got.shape == (len(series), h, f), "one forecast per series, step and feature")
    scale = max(1., max(np.abs(x).max() for x in series))
    other, _ = _data(c, need + 1, f)
    # a moving average that is not invertible amplifies rounding without bound
    for x in series + other:
        e, _ = _residuals(_difference(x, d, s or 0), ar, ma, cst)
        if max([np.abs(v).max() for v in e.values()] + [0.]) > 1e4 * scale:
            c.cover("eq-unstable")
            c.skip()
    for g, x in zip(got, series):
        want = _forecast(x, ar, ma, cst, d, s or 0, h)
        c.close(g, want, "forecasts are those of the model equations", rtol=1e-8, atol=1e-8 * max(scale, np.abs(want).max()))
    # forecasts of the training data passed explicitly, twice, one by one
    for _ in range(2):
        c.close(m.predict(X, n=h), got, "forecasts of the training data passed explicitly", rtol=1e-10, atol=1e-10 * scale)
    c.close(m.predict(n=h), got, "forecasts of the training data after other forecasts", rtol=0, atol=0)
    for i, x in enumerate(series):
        c.close(to_np(m.predict(x[None], n=h))[0], got[i], "each series is forecast independently of the others", rtol=1e-10, atol=1e-10 * scale)
    perm = rng.permutation(len(series))
    c.close(m.predict(gen.pad([series[i] for i in perm], 2), n=h), got[perm], "permuting (and padding) the series permutes the forecasts", rtol=1e-10, atol=1e-10 * scale)
    h2 = h + int(rng.randint(1, 5))
    c.close(to_np(m.predict(n=h2))[:, :h], got, "a longer horizon extends a shorter one", rtol=0, atol=0)
    c.close(to_np(m.predict(X, n=h2))[:, :h], got, "a longer horizon extends a shorter one (explicit data)", rtol=1e-10, atol=1e-10 * scale)
    # other series
    g2 = to_np(m.predict(gen.pad(other), n=h))
    for g, x in zip(g2, other):
        want = _forecast(x, ar, ma, cst, d, s or 0, h)
        c.close(g, want, "forecasts of new series are those of the model equations", rtol=1e-8,
                atol=1e-8 * max(1., np.abs(x).max(), np.abs(want).max()))
    c.ok(np.array_equal(X, keep, equal_nan=True), "the inputs are unchanged")
    # likelihood at the exposed coefficients
    sse, nv = 0., 0
    for x in series:
        w = _difference(x, d, s or 0)
        e, st = _residuals(w, ar, ma, cst)
        sse += sum(float((e[t] ** 2).sum()) for t in range(st, len(w)))
        nv += len(w)
    var = sse / (nv - len(series) * max(p, q)) if nv > len(series) * max(p, q) else np.nan
    if var > 1e-12:
        c.close(m.lle_, -nv * (np.log(2 * np.pi) + np.log(var) + 1) / 2, "log-likelihood of the exposed coefficients", rtol=1e-7, atol=1e-6)
    if q == 0:
        fits = [_ols(_difference(x, d, s or 0), p, const) for x in series]
        if all(k[2] < 1e5 for k in fits):
            if p:
                c.close(ar, np.mean([k[1] for k in fits], 0), "coefficients are the average least-squares fits", rtol=1e-6, atol=1e-8)
            if const:
                c.close(cst, np.mean([k[0] for k in fits], 0), "the intercept is the average least-squares fit", rtol=1e-6, atol=1e-8 * scale)
    c.cover("eq-p%d-d%d-q%d-s%s-f%d" % (p, d, q, s, f))


def optimise(c):
    """More optimiser steps never lower the likelihood; fit_predict is fit then
    predict; refitting forgets; too short and ill-shaped data are refused."""
    from sklearn.exceptions import NotFittedError
    from tslearn.forecasting import VARIMA
    rng = c.rng
    p, d, q = int(rng.randint(0, 3)), int(c.choice([0, 1])), int(c.choice([1, 2]))
    s = c.choice([None, None, 3])
    series, f = _data(c, p + q + d + 1 + (s or 0) + 6)
    X = gen.pad(series)
    c.note(p=p, d=d, q=q, s=s, X=X)
    kw = dict(p=p, d=d, q=q, seasonal_period=s, with_constant=bool(rng.rand() < .5))
    last = -np.inf
    for it in (1, 6, 30):
        m = VARIMA(max_iter=it, **kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.fit(X)
        c.ok(m.lle_ >= last - 1e-9 * max(1, abs(last)), "more optimiser steps never lower the likelihood", detail=dict(at=it, lle=m.lle_, before=last))
        last = m.lle_
    want = to_np(m.predict(n=2))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c.close(VARIMA(max_iter=30, **kw).fit_predict(X, n=2), want, "fit_predict is fit then predict", rtol=0, atol=0)
        m2 = VARIMA(max_iter=30, **kw).fit(gen.pad([x[::-1] + 1. for x in series[:1]]))
        m2.fit(X)
        c.close(m2.predict(n=2), want, "a refitted model forgets the first fit", rtol=0, atol=0)
        c.raises((NotFittedError,), lambda: VARIMA().predict(), "an unfitted model is refused")
        need = p + q + d + 1 + (s or 0)
        c.raises((ValueError,), lambda: VARIMA(**kw).fit(X[:, :need - 1]), "too short series are refused by fit")
        c.raises((ValueError,), lambda: m.predict(X[:, :need - 1]), "too short series are refused by predict")
        c.raises((ValueError,), lambda: m.predict(np.concatenate([X, X], 2)), "a wrong number of features is refused")
    c.close(m.predict(n=2), want, "refused calls leave the model alone", rtol=0, atol=0)
    c.cover("opt-p%d-d%d-q%d" % (p, d, q))


def ma_process(c):
    """Long moving-average processes: the exposed coefficients are by lag."""
    from tslearn.forecasting import VARIMA
    rng = c.rng
    for q in (1, 2):
        th = np.array([[.8], [.1, .7]][q - 1])
        e = rng.randn(4, 300 + q, 1)
        X = e[:, q:] + sum(th[k] * e[:, q - k - 1:-k - 1] for k in range(q))
        m = VARIMA(0, 0, q, max_iter=150).fit(X)
        c.close(to_np(m.ma_coeffs_).ravel(), th, "moving-average coefficients are close to those of the process, by lag", rtol=0, atol=.2)
        c.cover("ma%d" % q)


def auto(c):
    """Automatic orders: bounds, forecasts of the chosen model, optimality among
    the basic candidates, determinism."""
    from statsmodels.tsa.stattools import kpss
    from tslearn.forecasting import VARIMA, AutoVARIMA
    rng = c.rng
    kw = dict(max_p=int(rng.randint(0, 3)), max_d=int(rng.randint(0, 3)), max_q=int(rng.randint(0, 3)), max_iter=int(c.choice([3, 8])),
              default_d_for_non_stationarity=c.choice([0, 1, 0, 1, None]), seasonal_period=c.choice([None, None, 4]))
    if c.rng.rand() < .35:
        kw.update(max_p=int(c.choice([2, 3])), max_q=2, max_iter=3)
    kind = c.choice(["data", "data", "alt", "poly", "const"])
    if kind == "data":
        series, f = _data(c, 22)
    else:
        n = int(rng.randint(22, 34))
        t = np.arange(n)[:, None].astype(float)
        series = [{"alt": (-1.) ** t, "poly": t ** int(rng.randint(1, 3)), "const": 0 * t + 3.}[kind] * (i + 1) for i in range(2)]
        f = 1
    X = gen.pad(series)
    c.note(params=kw, X=X)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            m = AutoVARIMA(**kw).fit(X)
        except ValueError:
            if kw["default_d_for_non_stationarity"] is not None:
                raise
            # nothing to fall back on: legitimate only when no order makes the data stationary
            alt = AutoVARIMA(**dict(kw, default_d_for_non_stationarity=kw["max_d"] + 1)).fit(X)
            c.ok(alt.best_estimator_.d == kw["max_d"] + 1, "refusal only when no differencing order makes the data stationary",
                 d=alt.best_estimator_.d)
            c.event("refusals of non-stationary data")
            c.cover("auto-refused")
            return
        junk = [object() for _ in range(int(rng.randint(1, 500)))]
        with contextlib.redirect_stdout(io.StringIO()):
            m2 = AutoVARIMA(verbose=int(rng.randint(0, 3)), **kw).fit(X.copy())
        b = m.best_estimator_
        key = lambda e: (e.p, e.d, e.q, e.with_constant, e.seasonal_period)
        c.equal(key(m2.best_estimator_), key(b), "the selection is reproducible")
        c.ok(b.p <= kw["max_p"] and b.q <= kw["max_q"] and b.seasonal_period == kw["seasonal_period"], "orders respect their bounds")
        c.ok(b.d <= max(kw["max_d"], kw["default_d_for_non_stationarity"] or 0), "the differencing order respects its bound")
        s = kw["seasonal_period"] or 0
        h = int(rng.randint(1, 4))
        got = to_np(m.predict(n=h))
        eq = lambda g, what: c.ok(np.allclose(to_np(g), got, rtol=1e-9, atol=1e-9 * max(1., np.nanmax(np.abs(got))), equal_nan=True), what)
        eq(b.predict(n=h), "forecasts are those of the chosen model")
        eq(m.predict(X, n=h), "forecasts of the training data passed explicitly")
        eq(AutoVARIMA(**kw).fit_predict(X, n=h), "fit_predict is fit then predict")
        fresh = VARIMA(b.p, b.d, b.q, with_constant=b.with_constant, seasonal_period=b.seasonal_period, max_iter=b.max_iter).fit(X)
        eq(fresh.predict(n=h), "the chosen model is the one fitted on the data with its orders")
        if kind != "data":
            c.cover("auto-" + kind)
            return
        # differencing order: the first at which every feature of every series passes the test
        d = 0
        while d <= kw["max_d"]:
            W_ = [_difference(x, d, s) for x in series]
            ps = [kpss(w[:, k], regression="c")[1] for w in W_ for k in range(f)]
            if all(v > .05 for v in ps):
                break
            d += 1
        want = d if d <= kw["max_d"] else kw["default_d_for_non_stationarity"]
        c.equal(b.d, want, "the differencing order is the first that makes every series stationary")
        # Akaike criterion: no basic candidate beats the chosen model
        aic = lambda e: 2 * (e.p + e.q + (2 if e.with_constant else 1) - e.lle_)
        cand = [(0, 0, b.d < 2)] + ([(1, 0, b.d < 2)] if kw["max_p"] > 0 else []) + ([(0, 1, b.d < 2)] if kw["max_q"] > 0 else [])
        cand += [(0, 0, False)] if b.d <= 1 else []
        cand += [(2, 2, b.d < 2)] if min(kw["max_p"], kw["max_q"]) > 1 else []
        # and none of its neighbours
        for p in (b.p - 1, b.p, b.p + 1):
            for q in (b.q - 1, b.q, b.q + 1):
                if 0 <= p <= kw["max_p"] and 0 <= q <= kw["max_q"]:
                    cand.append((p, q, b.with_constant))
        cand.append((b.p, b.q, not b.with_constant))
        for p, q, k in cand:
            try:
                e = VARIMA(p, b.d, q, with_constant=k, seasonal_period=kw["seasonal_period"], max_iter=kw["max_iter"]).fit(X)
            except ValueError:
                continue
            c.ok(not aic(e) < aic(b) - 1e-9 * abs(aic(b)), "no neighbouring model has a smaller criterion",
                 detail=dict(candidate=(p, q, k), aic=aic(e), best=aic(b), chosen=key(b)))
    c.cover("auto-d%d-s%s" % (b.d, s))


def large(c):
    """Long histories, many series, high orders, long seasons and far horizons."""
    from tslearn.forecasting import VARIMA
    rng = c.rng
    what = c.choice(["long", "many", "orders", "horizon", "wide"])
    p, d, q, s, f, N, n, h = int(rng.randint(0, 3)), int(c.choice([0, 1])), int(c.choice([0, 0, 1])), c.choice([None, None, 4]), 1, 3, 60, 4
    if what == "long":
        n = int(c.choice([300, 700, 1500]))
        s = c.choice([None, 12, 24, 52])
    elif what == "many":
        N = int(c.choice([40, 130]))
    elif what == "orders":
        p, q, d, s = int(rng.randint(4, 10)), int(rng.randint(0, 6)), int(rng.randint(0, 4)), c.choice([None, 7, 13])
        n = 140
    elif what == "horizon":
        h = int(c.choice([40, 90, 200]))
        s = c.choice([None, 5, 30])
        n = 90
    else:
        f, p, n = int(rng.randint(4, 9)), int(rng.randint(0, 3)), 120
    const = bool(rng.rand() < .6)
    t = np.arange(n)[:, None]
    series = []
    for i in range(N):
        k = n if i == 0 else int(rng.randint(n - 15, n + 1))
        e = .7 * rng.randn(n, f)
        x = e + .5 * np.sin(2 * np.pi * t / (s or 9))
        x[1:] += .5 * e[:-1]
        series.append((np.cumsum(x, 0) if d else x)[:k])
    X = gen.pad(series)
    c.note(what=what, p=p, d=d, q=q, s=s, f=f, N=N, n=n, h=h, const=const, first=series[0][:10])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = VARIMA(p, d, q, with_constant=const, seasonal_period=s, max_iter=int(c.choice([0, 2])) if q else 50).fit(X)
    ar, ma, cst = _coeffs(m, f)
    c.ok(ar.shape == (p, f, f) and ma.shape == (q, f, f), "shapes of the coefficients")
    got, again = to_np(m.predict(n=h)), to_np(m.predict(X, n=h))
    c.ok(got.shape == (N, h, f), "one forecast per series, step and feature")
    sel = sorted(set([0, N - 1] + rng.randint(0, N, size=5).tolist()))
    other = [series[0][:n - 20], series[0][5:] + 1.]
    new = to_np(m.predict(gen.pad(other), n=h))
    for x, g in [(series[i], got[i]) for i in sel] + [(series[i], again[i]) for i in sel] + list(zip(other, new)):
        e, _ = _residuals(_difference(x, d, s or 0), ar, ma, cst)
        if max([np.abs(v).max() for v in e.values()] + [0.]) > 1e3 * max(1., np.abs(x).max()):
            c.cover("large-unstable")
            continue
        want = _forecast(x, ar, ma, cst, d, s or 0, h)
        if np.abs(want).max() > 1e4 * max(1., np.abs(x).max()):
            c.cover("large-explosive")
            continue
        c.close(g, want, "forecasts are those of the model equations", rtol=1e-7, atol=1e-7 * max(1., np.abs(want).max(), np.abs(x).max()))
    if q == 0 and (p or const):
        fits = [_ols(_difference(x, d, s or 0), p, const) for x in series]
        if all(k[2] < 1e4 for k in fits):
            if p:
                c.close(ar, np.mean([k[1] for k in fits], 0), "coefficients are the average least-squares fits", rtol=1e-6, atol=1e-7)
            if const:
                c.close(cst, np.mean([k[0] for k in fits], 0), "the intercept is the average least-squares fit", rtol=1e-6, atol=1e-7)
    c.cover("large-%s-p%d-d%d-q%d-s%s" % (what, p, d, q, s))


WORKLOADS = [W(large, 24), W(recovery, 60), W(polynomial, 20), W(equations, 80), W(optimise, 20), W(ma_process, 2), W(auto, 16)]

META = dict(
    technique="runtime monitoring: forecasts are checked step by step against a plain interpreter of the exposed model equations and against the generating recursion",
    rule="Forecasts equal those of a per-series interpreter of the (seasonal, differenced) model equations with the exposed coefficients; noise-free recursions are recovered and continued; "
         "explicit, single, permuted, padded and longer-horizon forecasts agree; the likelihood is that of the exposed coefficients and never falls with more optimiser steps.",
    note="Recoveries are judged when the least-squares problem is well conditioned (below 1e3). Errors before the first usable time stamp are taken as zero.",
    assumptions="statsmodels' KPSS test is the stationarity test",
    case_timeout=120,
)
