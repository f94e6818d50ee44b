"""Seeded workload generators (realistic, hostile and degenerate series)."""
import numpy as np

KINDS = ["gauss", "walk", "ties", "const", "sine", "spikes", "offset", "tiny",
         "steps", "negative", "sorted", "binary"]


def values(rng, sz, d, kind=None):
    kind = kind or KINDS[rng.randint(len(KINDS))]
    if kind == "gauss":
        x = rng.randn(sz, d)
    elif kind == "walk":
        x = np.cumsum(rng.randn(sz, d), axis=0)
    elif kind == "ties":
        x = rng.randint(-2, 3, size=(sz, d)).astype(float)
    elif kind == "const":
        x = np.full((sz, d), float(rng.randint(-3, 4))) + np.zeros((sz, d))
    elif kind == "sine":
        t = np.arange(sz)[:, None]
        x = np.sin(t * (0.2 + rng.rand(1, d)) + rng.rand(1, d) * 6) * (0.5 + 3 * rng.rand())
    elif kind == "spikes":
        x = 0.1 * rng.randn(sz, d)
        x[rng.randint(sz, size=max(1, sz // 5))] += 10 * rng.randn()
    elif kind == "offset":
        x = rng.randn(sz, d) + rng.choice([50., -80., 300.])
    elif kind == "tiny":
        x = 1e-3 * rng.randn(sz, d)
    elif kind == "steps":
        n = int(rng.randint(1, 5))
        x = np.repeat(rng.randint(-4, 5, size=(-(-sz // n), d)).astype(float), n, axis=0)[:sz]
    elif kind == "negative":
        x = -np.abs(rng.randn(sz, d)) - 1
    elif kind == "sorted":
        x = np.sort(rng.randn(sz, d), axis=0) * 2
        if rng.rand() < .5:
            x = x[::-1].copy()
    elif kind == "binary":
        x = rng.randint(0, 2, size=(sz, d)).astype(float)
    else:
        raise ValueError(kind)
    return np.ascontiguousarray(x, dtype=float)


def length(rng, lo=1, hi=40):
    u = rng.rand()
    if u < .12:
        n = lo
    elif u < .2:
        n = lo + 1
    elif u < .65:
        n = rng.randint(lo, min(hi, lo + 9) + 1)
    else:
        n = rng.randint(lo, hi + 1)
    return int(min(max(n, lo), hi))


def dim(rng, hi=4):
    d = int(rng.choice([1, 1, 1, 2, 3, hi]))
    return d if hi < 3 or rng.rand() > .05 else int(rng.choice([5, 8, 13]))


def series(rng, lo=1, hi=40, d=None, kind=None):
    d = d or dim(rng)
    return values(rng, length(rng, lo, hi), d, kind)


def pair(rng, lo=1, hi=40, d=None, same_len=None):
    """Two series of one dimension; often related (warped, shifted, equal)."""
    d = d or dim(rng)
    a = series(rng, lo, hi, d)
    u = rng.rand()
    if same_len:
        b = values(rng, len(a), d)
        if u < .3:
            b = a + 0.3 * rng.randn(*a.shape)
        elif u < .4:
            b = a.copy()
        return a, b
    if u < .35:
        b = series(rng, lo, hi, d)
    elif u < .5:   # locally stretched copy
        idx = np.sort(rng.randint(0, len(a), size=length(rng, lo, hi)))
        b = a[idx] + (0.05 * rng.randn(len(idx), d) if rng.rand() < .6 else 0.)
    elif u < .6:
        b = a.copy()
    elif u < .75:
        b = a + 0.2 * rng.randn(*a.shape)
    elif u < .82:
        k = int(rng.randint(0, len(a)))
        b = np.roll(a, k, axis=0)
    elif u < .9:   # one end held: the simplest alignment is the best, without a constraint
        k = max(lo, min(hi, len(a) + int(rng.randint(0, 7)))) - len(a)
        if k < 0:
            b = a.copy()
        elif rng.rand() < .7:
            b = np.concatenate([a, np.repeat(a[-1:], k, axis=0)])
        else:
            b = np.concatenate([np.repeat(a[:1], k, axis=0), a])
        if rng.rand() < .5:
            a, b = b, a
    else:
        b = series(rng, lo, hi, d, "ties")
    return a, np.ascontiguousarray(b, dtype=float)


def dataset(rng, n=None, lo=1, hi=25, d=None, equal=None, extra_pad=None, kind=None):
    """List of series, and the padded (n, sz, d) array."""
    n = n or int(rng.randint(1, 8))
    d = d or dim(rng, 3)
    equal = rng.rand() < .4 if equal is None else equal
    L = length(rng, lo, hi)
    out = []
    for i in range(n):
        li = L if equal else length(rng, lo, hi)
        if out and rng.rand() < .15:
            x = out[rng.randint(len(out))].copy()       # duplicate series
        else:
            x = values(rng, li, d, kind)
        out.append(x)
    return out


def pad(ts_list, extra=0):
    sz = max(len(x) for x in ts_list) + extra
    d = ts_list[0].shape[1]
    X = np.full((len(ts_list), sz, d), np.nan)
    for i, x in enumerate(ts_list):
        X[i, :len(x)] = x
    return X


def reform(rng, x, allow_list=True, allow_pad=True):
    """The same series in one of the container/dtype/layout forms users pass."""
    opts = ["plain", "fortran", "strided"]
    if allow_list:
        opts.append("list")
    if x.shape[1] == 1:
        opts += ["flat", "flatlist"] if allow_list else ["flat"]
    if allow_pad:
        opts.append("pad")
    if np.array_equal(x, np.round(x)) and np.abs(x).max() < 1e6:
        opts.append("int")
    k = opts[rng.randint(len(opts))]
    if k == "fortran":
        return np.asfortranarray(x), k
    if k == "strided":
        y = np.full((len(x) * 2, x.shape[1] + 1), 7.7)
        y[::2, :-1] = x
        return y[::2, :-1], k
    if k == "list":
        return x.tolist(), k
    if k == "flat":
        return x[:, 0].copy(), k
    if k == "flatlist":
        return x[:, 0].tolist(), k
    if k == "pad":
        return np.vstack([x, np.full((int(rng.randint(1, 4)), x.shape[1]), np.nan)]), k
    if k == "int":
        return x.astype(int), k
    return x.copy(), k


def constraint(rng, sz1, sz2, p_none=.35):
    """Keyword arguments for a global constraint; and its (kind, param)."""
    u = rng.rand()
    if u < p_none:
        return {}, ("none", None)
    if u < p_none + (1 - p_none) * .6:
        r = int(rng.choice([0, 1, 2, 3, 5, max(sz1, sz2)]))
        v = rng.rand()
        if v < .15:
            return {"global_constraint": "sakoe_chiba"}, ("sakoe_chiba", 1)
        if v < .6:
            return {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": r}, ("sakoe_chiba", r)
        if v < .7:   # the explicit choice wins over the other parameter
            return {"global_constraint": "sakoe_chiba", "sakoe_chiba_radius": r,
                    "itakura_max_slope": 1.5}, ("sakoe_chiba", r)
        return {"sakoe_chiba_radius": r}, ("sakoe_chiba", r)
    s = float(rng.choice([1.2, 1.5, 2., 2.5, 3., 4., 6.]))
    v = rng.rand()
    if v < .15:
        return {"global_constraint": "itakura"}, ("itakura", 2.0)
    if v < .6:
        return {"global_constraint": "itakura", "itakura_max_slope": s}, ("itakura", s)
    if v < .7:
        return {"global_constraint": "itakura", "itakura_max_slope": s,
                "sakoe_chiba_radius": 1}, ("itakura", s)
    return {"itakura_max_slope": s}, ("itakura", s)
