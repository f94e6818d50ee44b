"""Runtime-monitoring harness: cases, monitors, verdicts.

A *check* module (checks/pNN.py) exposes ``WORKLOADS``: a list of ``W`` records.
Every case of a workload drives the real tslearn code with generated inputs,
while monitors (``Case.ok`` / ``Case.close`` ...) observe what it returned,
raised or changed.  A monitor that fires records a violation with what is
needed to replay the case; an exception that escapes from a call on valid
input is a violation too.
"""
import hashlib
import json
import math
import traceback
from collections import Counter

import numpy as np


def stable_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:4], "little") & 0x7FFFFFFF


class W:
    """A workload: ``fn(case)`` run ``quick`` (``thorough``) times."""

    def __init__(self, fn, quick, thorough=None, name=None, warnings_ok=True):
        self.fn = fn
        self.name = name or fn.__name__
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12

    def count(self, tier):
        return self.thorough if tier == "thorough" else self.quick


class Skip(Exception):
    """Raised by a case whose generated input falls outside the property."""


class CaseFailed(Exception):
    """Raised to stop a case after a violation that makes the rest moot."""


def brief(x, depth=0):
    """JSON-able, bounded description of a value."""
    try:
        import torch
        if isinstance(x, torch.Tensor):
            x = x.detach().cpu().numpy()
    except Exception:
        pass
    if isinstance(x, np.ndarray):
        if x.size <= 160:
            return {"shape": list(x.shape), "dtype": str(x.dtype),
                    "data": repr(x.tolist())[:4000]}
        return {"shape": list(x.shape), "dtype": str(x.dtype),
                "head": repr(x.ravel()[:24].tolist())}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item() if not (isinstance(x, np.floating) and not math.isfinite(x)) else repr(x.item())
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    if isinstance(x, dict) and depth < 3:
        return {str(k): brief(v, depth + 1) for k, v in list(x.items())[:30]}
    if isinstance(x, (list, tuple)) and depth < 3 and len(x) <= 60:
        return [brief(v, depth + 1) for v in x]
    return repr(x)[:1500]


class Case:
    def __init__(self, prop, workload, index, base_seed, tier):
        self.prop = prop
        self.workload = workload
        self.index = index
        self.base_seed = base_seed
        self.tier = tier
        self.seed = stable_seed(base_seed, prop, workload, index)
        self.rng = np.random.RandomState(self.seed)
        self.events = Counter()
        self.covered = set()
        self.violations = []
        self.findings = []
        self.notes = {}

    # -- observation -----------------------------------------------------
    def note(self, **kw):
        """Remember inputs, for the replay file and the evidence samples."""
        self.notes.update(kw)

    def event(self, name, n=1):
        self.events[name] += n

    def cover(self, *key):
        """Signature of a distinct behaviour this case drove."""
        self.covered.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def violate(self, what, **info):
        self.violations.append({
            "what": what,
            "info": {k: brief(v) for k, v in info.items()},
            "inputs": {k: brief(v) for k, v in self.notes.items()},
        })

    def ok(self, cond, what, **info):
        self.events[what] += 1
        cond = bool(cond)
        if not cond:
            self.violate(what, **info)
        return cond

    def close(self, got, want, what, rtol=1e-7, atol=1e-9, **info):
        """Monitor: got == want within a tolerance (NaN/inf must match)."""
        self.events[what] += 1
        try:
            g = to_np(got)
            w = to_np(want)
            good = g.shape == w.shape and bool(
                np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        except Exception as e:  # different kinds of things
            good = False
            info["compare_error"] = repr(e)
        if not good:
            self.violate(what, got=got, want=want, **info)
        return good

    def equal(self, got, want, what, **info):
        self.events[what] += 1
        try:
            g, w = to_np(got), to_np(want)
            if g.dtype.kind in "fc" and w.dtype.kind in "fc":
                good = g.shape == w.shape and bool(np.array_equal(g, w, equal_nan=True))
            else:
                good = g.shape == w.shape and bool(np.array_equal(g, w))
        except Exception as e:
            good = False
            info["compare_error"] = repr(e)
        if not good:
            self.violate(what, got=got, want=want, **info)
        return good

    def raises(self, excs, fn, what, **info):
        """Monitor: fn must raise one of excs."""
        self.events[what] += 1
        try:
            r = fn()
        except excs:
            return True
        except Exception as e:
            self.violate(what, raised=repr(e), **info)
            return False
        self.violate(what, returned=r, **info)
        return False

    def finding(self, key, holds, text, **info):
        """A specific input that is a recorded genuine defect (if listed)."""
        self.events["finding-probe"] += 1
        if not holds:
            self.findings.append({
                "key": key, "text": text,
                "info": {k: brief(v) for k, v in info.items()}})

    def choice(self, seq):
        return seq[self.rng.randint(len(seq))]

    def skip(self):
        raise Skip()

    def stop(self):
        raise CaseFailed()


def to_np(x):
    try:
        import torch
        if isinstance(x, torch.Tensor):
            return x.detach().cpu().numpy()
    except ImportError:
        pass
    return np.asarray(x)


def run_case(prop, workload, index, base_seed, tier):
    """Run one case; any escaping exception is a violation."""
    c = Case(prop, workload.name, index, base_seed, tier)
    np.random.seed(c.seed)
    try:
        import random
        random.seed(c.seed)
        workload.fn(c)
    except Skip:
        c.events["skipped"] += 1
    except CaseFailed:
        pass
    except Exception as e:
        tb = traceback.format_exc()
        c.events["escaped-exception"] += 1
        c.violate("unexpected exception: %s" % type(e).__name__,
                  message=str(e)[:1500], traceback=tb[-3500:])
    return c
