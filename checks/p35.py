"""P35: the archive loader, driven through a scripted server.

A scripted HTTP server on the loopback serves generated archives and misbehaves on
demand; every load is judged against a model of the cache (which version of the dataset a
load may return, whether a download may happen), against the server's request log and
against a checksum of every other cached dataset.  Crash cases fork a child that dies in
the middle of a download or extraction, then load again from what it left behind.
"""
import hashlib
import http.server
import io
import os
import shutil
import sys
import tempfile
import threading
import urllib.request
import warnings
import zipfile
from pathlib import Path

import numpy as np

from vmon.core import W

NAMES = ["Toy", "AtrialFibrilation", "StarLightCurves", "Coffee2"]
ALIASES = {"AtrialFibrilation": "AtrialFibrillation", "StarLightCurves": "StarlightCurves"}
BAD = ["404", "500", "cut", "garbage", "crc", "ziptrunc", "reset", "empty", "nolength-cut"]


class _Server:
    """Loopback server: self.plan[path] = (mode, bytes); self.log = [path, ...]."""

    def __init__(self):
        self.plan, self.log = {}, []
        owner = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.0"

            def log_message(self, *a):
                pass

            def do_GET(self):
                path = self.path.lstrip("/")
                owner.log.append(path)
                mode, body = owner.plan.get(path, ("404", b""))
                if mode in ("404", "500"):
                    self.send_error(int(mode))
                    return
                if mode == "reset":
                    self.connection.close()
                    return
                sent = body
                if mode == "cut" or mode == "nolength-cut":
                    sent = body[:max(1, len(body) * 2 // 3)]
                self.send_response(200)
                if mode != "nolength-cut":
                    self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                try:
                    self.wfile.write(sent)
                except OSError:
                    pass

        self.httpd = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.httpd.daemon_threads = True
        threading.Thread(target=self.httpd.serve_forever, daemon=True).start()
        self.url = "http://127.0.0.1:%d/" % self.httpd.server_address[1]


_SRV = None


def _server():
    global _SRV
    if _SRV is None:
        _SRV = _Server()
    _SRV.plan.clear()
    del _SRV.log[:]
    return _SRV


class _World:
    """Scratch cache directory, server and patched loader for one case."""

    def __init__(self, c):
        import tslearn.datasets.ucr_uea as U
        import tslearn.datasets.datasets as D
        self.c, self.U, self.D = c, U, D
        self.top = Path(tempfile.mkdtemp(prefix="p35_"))
        self.tmp = self.top / "tmp"
        self.tmp.mkdir()
        self.root = self.top / "home" / "cache"
        self.keep = self.top / "home" / "precious.txt"
        self.srv = _server()

    def __enter__(self):
        self.old = (self.U.BASE_URL, tempfile.tempdir)
        self.U.BASE_URL = self.srv.url
        tempfile.tempdir = str(self.tmp)
        self.root.parent.mkdir(parents=True)
        self.keep.write_text("keep")
        (self.root.parent / "neighbour").mkdir()
        (self.root.parent / "neighbour" / "n.txt").write_text("n")
        return self

    def __exit__(self, *a):
        self.U.BASE_URL, tempfile.tempdir = self.old
        shutil.rmtree(self.top, ignore_errors=True)

    def loader(self, **kw):
        return self.U.UCR_UEA_datasets(root_dir=self.root, **kw)

    @property
    def data(self):
        return self.root / "UCR_UEA"

    def dataset_dir(self, name):
        return self.data / name

    def checksums(self, skip=()):
        """Content of everything under home, except the named datasets."""
        out = {}
        for p in sorted(self.root.parent.rglob("*")):
            rel = p.relative_to(self.root.parent).as_posix()
            parts = rel.split("/")
            if len(parts) >= 3 and parts[:2] == ["cache", "UCR_UEA"] and (
                    parts[2] in skip or parts[2].startswith(".")):
                continue
            out[rel] = hashlib.sha1(p.read_bytes()).hexdigest() if p.is_file() else "dir"
        return out

    def leftovers(self):
        left = [p.name for p in self.tmp.iterdir()]
        if self.data.exists():
            left += [p.name for p in self.data.iterdir() if p.name.startswith(".")]
        return left


# ---------------------------------------------------------------- dataset files
class Data:
    """One version of a dataset: the arrays expected back and its files."""

    def __init__(self, name, fmt, train, test, files):
        self.name, self.fmt, self.train, self.test, self.files = name, fmt, train, test, files


def _labels(c, n, fmt):
    if fmt == "txt":
        pool = c.choice([[1, 2, 3], [-1, 1], [0, 10, 200]])
    else:
        pool = c.choice([["1", "2", "3"], ["walk", "run"], ["-1", "1"]])
    return [pool[c.rng.randint(len(pool))] for _ in range(n)], pool


def _txt(c, X, y, style):
    rows = []
    for xi, yi in zip(X, y):
        lab = {"plain": "%d" % yi, "sci": "%.7e" % yi}[style]
        rows.append("  ".join([lab] + [repr(float(v)) if np.isfinite(v) else "NaN" for v in xi[:, 0]]))
    return "\n".join(rows) + "\n"


def _arff_uni(name, X, y, pool):
    head = ["@relation %s" % name]
    head += ["@attribute att%d numeric" % i for i in range(X.shape[1])]
    head += ["@attribute target {%s}" % ",".join(pool), "@data"]
    return "\n".join(head + [",".join([repr(float(v)) for v in xi[:, 0]] + [yi])
                             for xi, yi in zip(X, y)]) + "\n"


def _arff_multi(name, X, y, pool):
    head = ["@relation %s" % name, "@attribute relationalAtt relational"]
    head += ["@attribute t%d numeric" % i for i in range(X.shape[1])]
    head += ["@end relationalAtt", "@attribute classAttribute {%s}" % ",".join(pool), "@data"]
    rows = ["'%s',%s" % ("\\n".join(",".join(repr(float(v)) for v in xi[:, k])
                                   for k in range(X.shape[2])), yi) for xi, yi in zip(X, y)]
    return "\n".join(head + rows) + "\n"


def _expected(X):
    """What a reader of a padded text file should get: all-padding columns dropped."""
    last = np.max(np.nonzero(np.isfinite(X).any(axis=(0, 2)))[0]) + 1
    return X[:, :last]


def _make(c, name, fmt=None):
    fmt = fmt or c.choice(["txt", "txt", "arff1", "arffm", "both"])
    d = c.rng.randint(2, 4) if fmt == "arffm" else 1
    sz = c.rng.randint(2, 9)
    both = fmt == "both"
    real = "txt" if both else fmt
    files, parts = {}, []
    _, pool = _labels(c, 1, real)
    ragged = real == "txt" and c.rng.rand() < .3
    for part in ("TRAIN", "TEST"):
        n = c.rng.randint(1, 6)
        X = np.round(c.rng.randn(n, sz, d) * c.choice([1., 1e3, 1e-3]), c.rng.randint(2, 12))
        if ragged:
            for i in range(n):
                X[i, c.rng.randint(1, sz + 1):] = np.nan
        y = [pool[c.rng.randint(len(pool))] for _ in range(n)]
        if real == "txt":
            body, ext = _txt(c, X, y, c.choice(["plain", "sci"])), "txt"
            parts.append((_expected(X), np.array(y)))
        elif real == "arff1":
            body, ext = _arff_uni(name, X, y, pool), "arff"
            parts.append((X, np.array(y, dtype=str)))
        else:
            body, ext = _arff_multi(name, X, y, pool), "arff"
            parts.append((X, np.array(y, dtype=str)))
        files["%s_%s.%s" % (name, part, ext)] = body.encode()
        if both:   # the ARFF twin holds other numbers: TXT is the one used
            files["%s_%s.arff" % (name, part)] = _arff_uni(
                name, np.nan_to_num(X) + 1000., [str(v) for v in y], [str(v) for v in pool]).encode()
    if not both and c.rng.rand() < .35:     # a lone file of the other format: only complete pairs count
        part = c.choice(["TRAIN", "TEST"])
        Z = 1000. + c.rng.randn(3, sz, 1)
        if real == "txt":
            files["%s_%s.arff" % (name, part)] = _arff_uni(name, Z, ["1"] * 3, ["1"]).encode()
        else:
            files["%s_%s.txt" % (name, part)] = _txt(c, Z, [1] * 3, "plain").encode()
        c.event("lone_files_of_other_format")
    files["README.md"] = b"about " + os.urandom(4)
    return Data(name, fmt, parts[0], parts[1], files)


def _zip(files, c=None, mode="ok", drop=None):
    buf = io.BytesIO()
    order = list(files)
    if c is not None:
        c.rng.shuffle(order)
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_STORED if mode == "crc" else zipfile.ZIP_DEFLATED) as z:
        for f in order:
            if f != drop:
                z.writestr(f, files[f])
    body = buf.getvalue()
    if mode == "crc":       # flip a digit inside the last data file stored in the archive
        f = [k for k in order if "_TE" in k or "_TR" in k][-1]
        at = body.find(files[f]) + len(files[f]) - 3
        body = body[:at] + (b"7" if body[at:at + 1] != b"7" else b"8") + body[at + 1:]
    elif mode == "ziptrunc":
        body = body[:len(body) * 3 // 5]
    elif mode == "garbage":
        body = os.urandom(200)
    elif mode == "empty":
        body = b""
    return body


def _matches(c, out, data, what):
    ok = c.ok(isinstance(out, tuple) and len(out) == 4, what + ": four values", got=repr(out)[:200])
    if not ok:
        return
    for got, want, part in ((out[0], data.train[0], "X_train"), (out[1], data.train[1], "y_train"),
                            (out[2], data.test[0], "X_test"), (out[3], data.test[1], "y_test")):
        g = None if got is None else np.asarray(got)
        same = (g is not None and g.shape == want.shape and
                (np.array_equal(g, want, equal_nan=True) if want.dtype.kind == "f"
                 else np.array_equal(g.astype(str), want.astype(str))))
        c.ok(same, "%s: %s is what the files hold" % (what, part),
             got=None if g is None else g.ravel()[:6].tolist(), want=want.ravel()[:6].tolist(),
             shapes=(None if g is None else list(g.shape), list(want.shape)))


def _empty(out):
    return isinstance(out, tuple) and len(out) == 4 and all(v is None for v in out)


def _load(c, L, name):
    """Load with every warning recorded; an exception is a violation of 'a warning and None'."""
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        try:
            out = L.load_dataset(name)
        except Exception as e:
            c.violate("loading %r raised %s: %s" % (name, type(e).__name__, e))
            c.stop()
    return out, [w for w in seen if issubclass(w.category, (RuntimeWarning, UserWarning))]


def history(c):
    """Random history of loads, server changes and cache damage over a few datasets."""
    with _World(c) as w:
        names = list(c.rng.permutation(NAMES)[:c.rng.randint(2, 4)])
        names = [str(n) for n in names]
        cached = {n: set() for n in names}      # versions the cache may hold (Data objects)
        inside = {n: False for n in names}      # cache known to hold exactly one complete version
        offered = {n: None for n in names}
        w.loader()
        trace = []
        for step in range(c.rng.randint(4, 9)):
            op = c.choice(["serve", "serve", "load", "load", "load", "refresh", "damage", "bad-name", "list"])
            n = c.choice(names)
            if op == "serve" or offered[n] is None:
                data = _make(c, n)
                mode = "ok" if c.rng.rand() < .6 else c.choice(BAD + ["no-test", "unparsable", "other-folder"])
                files = dict(data.files)
                drop = None
                if mode == "no-test":
                    files = {k: v for k, v in files.items() if "_TEST" not in k}
                elif mode == "unparsable":
                    for k in files:
                        if "_TEST" in k:
                            files[k] = b"@relation x\n1 2 three\n4,5\n"
                elif mode == "other-folder":
                    files = {"sub/" + k: v for k, v in files.items()}
                body = _zip(files, c, mode, drop)
                http_mode = mode if mode in ("404", "500", "cut", "reset", "nolength-cut") else "ok"
                w.srv.plan[n + ".zip"] = (http_mode, body)
                offered[n] = (mode, data)
                trace.append(("serve", n, mode, data.fmt))
                c.event("served_" + mode)
            if op in ("load", "refresh"):
                L = w.loader(use_cache=(op == "load"))
                ask = ALIASES.get(n, n) if c.rng.rand() < .5 else n
                others = w.checksums(skip=(n,))
                del w.srv.log[:]
                out, warned = _load(c, L, ask)
                hits = [p for p in w.srv.log if p.endswith(".zip")]
                trace.append((op, ask, len(hits)))
                c.note(trace=trace)
                mode, data = offered[n]
                c.ok(all(p == n + ".zip" for p in hits), "only the requested archive is downloaded", got=hits)
                c.ok(len(hits) <= 1, "one download per load", got=hits)
                if op == "load" and inside[n]:
                    c.ok(not hits, "a cached dataset is not downloaded again")
                if op == "refresh":
                    c.ok(len(hits) == 1, "use_cache=False downloads")
                if not cached[n]:
                    c.ok(len(hits) == 1, "a dataset that is not (completely) cached is downloaded", trace=trace)
                if hits:
                    if mode == "ok":
                        _matches(c, out, data, "fresh download")
                        cached[n], inside[n] = {data}, True
                        c.event("fresh_loads")
                    else:
                        c.ok(_empty(out), "download %r gives an empty result" % mode,
                             got=repr(out)[:200])
                        c.ok(len(warned) > 0, "download %r gives a warning" % mode)
                        # a complete but unreadable archive may be cached as is
                        if mode == "unparsable":
                            cached[n] = {None}
                        else:
                            cached[n] = set(v for v in cached[n] if v is not None)
                        inside[n] = False
                        c.event("failed_loads")
                else:
                    if not cached[n]:
                        c.ok(_empty(out), "nothing was downloaded and nothing is cached", got=repr(out)[:100])
                    elif cached[n] == {None}:
                        c.ok(_empty(out) and len(warned) > 0, "unreadable cached files give a warning and nothing")
                        c.event("unreadable_loads")
                    else:
                        v = [x for x in cached[n] if x is not None][0]
                        _matches(c, out, v, "cached load")
                        c.event("cached_loads")
                c.ok(w.checksums(skip=(n,)) == others or set(cached) == {n},
                     "the rest of the cache and its surroundings are untouched")
                if not _empty(out):
                    c.ok(ask == n or not hasattr(L, "_filenames") or n in L._filenames.values(), "alias", ask=ask)
                c.ok(not w.leftovers(), "no temporary files are left", got=w.leftovers())
            elif op == "damage" and w.dataset_dir(n).is_dir():
                kind = c.choice(["drop-test", "drop-train", "drop-all", "file", "extra"])
                if kind == "file":
                    shutil.rmtree(w.dataset_dir(n))
                    w.dataset_dir(n).write_text("not a directory")
                elif kind == "extra":
                    (w.dataset_dir(n) / "notes.txt").write_text("x")
                else:
                    for f in list(w.dataset_dir(n).rglob("*")):
                        if kind == "drop-all" or ("_" + kind[5:].upper() + ".") in f.name:
                            if f.is_file():
                                f.unlink()
                trace.append(("damage", n, kind))
                c.event("damage_" + kind)
                if kind != "extra":
                    cached[n], inside[n] = set(), False
            elif op == "bad-name":
                before = w.checksums()
                bad = c.choice(["", ".", "..", "../..", "Nope", n + "/..", "../UCR_UEA/" + n, "no/such",
                                str(w.root.parent / "neighbour"), "../../neighbour"])
                L = w.loader(use_cache=bool(c.rng.randint(2)))
                out, warned = _load(c, L, bad)
                trace.append(("bad-name", bad))
                c.note(trace=trace)
                c.ok(_empty(out) and len(warned) > 0, "%r is reported as missing" % bad, got=repr(out)[:100])
                c.ok(w.checksums() == before, "asking for %r deletes nothing" % bad)
                c.event("bad_names")
            elif op == "list":
                got = set(w.loader().list_cached_datasets())
                must = set(x for x in names if inside[x])
                c.ok(must <= got <= set(names), "list_cached_datasets lists what is cached",
                     got=sorted(got), must=sorted(must))
                c.event("lists")
        c.cover("|".join("%s:%s" % (t[0], t[2] if t[0] == "serve" else "") for t in trace))


def crash(c):
    """A process dies during a load; the next load gives intact data or downloads again."""
    with _World(c) as w:
        n = c.choice(NAMES)
        old, new = _make(c, n), _make(c, n)
        had = c.rng.rand() < .4
        w.loader()
        if had:
            w.srv.plan[n + ".zip"] = ("ok", _zip(old.files, c))
            _load(c, w.loader(), n)
        w.srv.plan[n + ".zip"] = ("ok", _zip(new.files, c))
        refresh = had
        point = c.choice(["copy", "copy", "open", "rename", "download"])
        k = c.rng.randint(1, 5)
        frac = c.rng.rand()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                import zipfile as zf
                count = [0]
                if point == "copy":
                    def dying(src, dst, length=0):
                        body = src.read()
                        count[0] += 1
                        if count[0] == k:
                            dst.write(body[:int(len(body) * frac)])
                            dst.flush()
                            os._exit(9)
                        dst.write(body)
                    zf.shutil = type("S", (), {"copyfileobj": staticmethod(dying)})
                else:
                    want = {"open": "open", "rename": "os.rename", "download": "urllib.Request"}[point]
                    def hook(event, args):
                        if event == want and (event != "open" or str(w.data) in str(args[0])):
                            count[0] += 1
                            if count[0] == k:
                                os._exit(9)
                    sys.addaudithook(hook)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    w.loader(use_cache=not refresh).load_dataset(n)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        died = os.waitstatus_to_exitcode(status) == 9
        c.event("child_died" if died else "child_survived")
        c.note(point=point, k=k, had=had, died=died,
               left=sorted(p.relative_to(w.data).as_posix() for p in w.data.rglob("*")))
        del w.srv.log[:]
        listed = set(w.loader().list_cached_datasets())
        c.ok(listed <= {n}, "only datasets are listed", got=sorted(listed))
        del w.srv.log[:]
        out, _ = _load(c, w.loader(), n)
        hits = [p for p in w.srv.log if p.endswith(".zip")]
        if hits or not had:
            _matches(c, out, new, "load after a crash")
        else:
            same_old = (out[0] is not None and out[0].shape == old.train[0].shape
                        and np.array_equal(out[0], old.train[0], equal_nan=True))
            _matches(c, out, old if same_old else new, "load after a crash")
        if not died:
            c.ok(not hits, "a finished load is cached")


def write_fault(c):
    """The disk fills up (or a write fails) part way through the extraction."""
    with _World(c) as w:
        n = c.choice(NAMES)
        data = _make(c, n)
        w.loader()
        w.srv.plan[n + ".zip"] = ("ok", _zip(data.files, c))
        k, frac, count = c.rng.randint(1, 4), c.rng.rand(), [0]
        real = zipfile.shutil

        def failing(src, dst, length=0):
            body = src.read()
            count[0] += 1
            if count[0] == k:
                dst.write(body[:int(len(body) * frac)])
                raise OSError(28, "No space left on device")
            dst.write(body)

        zipfile.shutil = type("S", (), {"copyfileobj": staticmethod(failing)})
        try:
            out, warned = _load(c, w.loader(), n)
        finally:
            zipfile.shutil = real
        hit = count[0] >= k
        c.note(k=k, frac=frac, hit=hit)
        if hit:
            c.ok(_empty(out) and len(warned) > 0, "a failed extraction gives a warning and nothing",
                 got=repr(out)[:200])
            c.event("write_faults")
        else:
            _matches(c, out, data, "no fault")
        c.ok(not w.leftovers(), "no temporary files are left", got=w.leftovers())
        del w.srv.log[:]
        out, _ = _load(c, w.loader(), n)
        _matches(c, out, data, "load after a failed extraction")
        c.ok(len([p for p in w.srv.log if p.endswith(".zip")]) == (1 if hit else 0),
             "the failed dataset is downloaded again")


def threads(c):
    """Several loaders of the same root used from several threads at once."""
    with _World(c) as w:
        names = [str(x) for x in c.rng.permutation(NAMES)[:3]]
        ds = {n: _make(c, n) for n in names}
        for n in names:
            w.srv.plan[n + ".zip"] = ("ok", _zip(ds[n].files, c))
        L = w.loader()
        jobs = [names[i % 3] for i in range(3)]
        out, errs = {}, []
        bar = threading.Barrier(len(jobs))

        def go(i, n):
            bar.wait()
            try:
                with warnings.catch_warnings():
                    out[i] = L.load_dataset(n)
            except Exception as e:      # pragma: no cover
                errs.append(e)

        ts = [threading.Thread(target=go, args=a) for a in enumerate(jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        c.ok(not errs and len(out) == len(jobs), "concurrent loads of distinct datasets finish", errs=repr(errs))
        for i, n in enumerate(jobs):
            if i in out:
                _matches(c, out[i], ds[n], "concurrent load")
                c.event("concurrent_loads")


def lists(c):
    """Dataset lists, cache_all and the bundled scores."""
    with _World(c) as w:
        uni = [str(x) for x in c.rng.permutation(["Toy", "Coffee2", "CinCECGtorso", "StarlightCurves", "Gone"])]
        mul = ["PenDigits2"]
        csv = "problem,x\n" + "".join("%s,1\n" % n for n in uni)
        w.srv.plan["Archives/summaryUnivariate.csv"] = ("ok", csv.encode())
        w.srv.plan["Archives/summaryMultivariate.csv"] = (
            "ok", ("Problem,x\n" + "".join("%s,1\n" % n for n in mul)).encode())
        fixed = {"CinCECGtorso": "CinCECGTorso", "StarlightCurves": "StarLightCurves"}
        L = w.loader()
        want_u = [fixed.get(n, n) for n in uni]
        c.equal(L.list_univariate_datasets(), want_u, "univariate list")
        c.equal(L.list_multivariate_datasets(), mul, "multivariate list")
        c.equal(L.list_datasets(), want_u + mul, "all datasets")
        ds = {}
        for n in want_u + mul:
            if n != "Gone":
                ds[n] = _make(c, n, "arffm" if n in mul else None)
                w.srv.plan[n + ".zip"] = ("ok", _zip(ds[n].files, c))
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            L.cache_all()
        c.ok(any("Gone" in str(x.message) for x in seen), "cache_all reports the dataset it could not get")
        c.equal(sorted(L.list_cached_datasets()), sorted(ds), "cache_all caches the others")
        del w.srv.log[:]
        for n in ds:
            out, _ = _load(c, L, n)
            _matches(c, out, ds[n], "after cache_all")
        c.ok(not w.srv.log, "loads after cache_all use the cache", got=w.srv.log[:3])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            acc = L.baseline_accuracy()
            pick = [str(x) for x in c.rng.choice(sorted(acc), 3, replace=False)]
            meth = [str(x) for x in c.rng.choice(sorted(set.union(*[set(v) for v in acc.values()])), 2, replace=False)]
            sub = L.baseline_accuracy(list_datasets=pick, list_methods=meth)
        c.equal(sub, {n: {m: acc[n][m] for m in meth if m in acc[n]} for n in acc if n in pick},
                "baseline_accuracy restricted to some datasets and methods")
        c.ok(all(0 <= v <= 1 for d in acc.values() for v in d.values()), "accuracies are rates")
        c.event("lists")


def bundled(c):
    from tslearn.datasets import CachedDatasets
    L = CachedDatasets()
    for n in sorted(L.list_datasets()):
        a, b = L.load_dataset(n), L.load_dataset(n)
        with np.load(os.path.join(str(L.path), n + ".npz")) as z:
            for got, key in zip(a, ("X_train", "y_train", "X_test", "y_test")):
                c.ok(np.array_equal(got, z[key], equal_nan=got.dtype.kind == "f"), "bundled %s %s" % (n, key))
        c.ok(len(a[0]) == len(a[1]) and len(a[2]) == len(a[3]) and a[0].ndim == 3 and a[2].ndim == 3,
             "one label per series")
        a[0][:] = 0
        c.ok(np.array_equal(L.load_dataset(n)[0], b[0], equal_nan=True), "a caller's edits do not reach later loads")
        c.event("bundled")
    c.raises((IOError,), lambda: L.load_dataset("No_such_dataset"), "unknown bundled dataset")


WORKLOADS = [W(history, 260), W(crash, 120), W(write_fault, 60), W(threads, 20), W(lists, 12), W(bundled, 1, 1)]
META = dict(
    technique="runtime monitoring: cache-history model checked against a scripted misbehaving server, "
              "request log, cache checksums and crash injection",
    rule="one violating load in any history",
    note="every load judged against the version offered by the server or held by the cache",
    assumptions="HTTP over the loopback; scipy's ARFF reader is trusted for the format",
)
