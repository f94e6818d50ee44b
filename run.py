#!/usr/bin/env python
"""Runs one check: run.py PNN [--tier quick|thorough] [--replay FILE]

exit 0: no monitor fired; exit 1: VIOLATION line printed; 2: inconclusive.
"""
import argparse
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def load_check(prop):
    return importlib.import_module("checks." + prop.lower())


def known_findings():
    out = {}
    path = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            rec = json.loads(line)
            if rec.get("status") == "known":
                out[(rec["property"], rec["key"])] = rec["what_fails"]
    return out


# ---------------------------------------------------------------- worker
def worker(a):
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.WARNING)
    from vmon import core
    mod = load_check(a.prop)
    import tslearn
    src = os.path.realpath(tslearn.__file__)
    assert src.startswith(os.path.realpath(REPO) + os.sep), src
    shard, n = map(int, a.worker.split("/"))
    skip = set(filter(None, (a.skip or "").split(",")))
    events, covered, samples = Counter(), set(), []
    per_w = Counter()
    violations, findings = [], []
    seen_v = Counter()
    evaluations = 0
    t_end = time.time() + a.budget
    truncated = 0
    only = a.only
    order = []
    for w in mod.WORKLOADS:
        for i in range(w.count(a.tier)):
            order.append((i, w))
    # interleave the workloads: a run cut short by its budget still saw them all
    order = [(i, w) for k, (i, w) in enumerate(
        sorted(order, key=lambda t: t[0] / max(1, t[1].count(a.tier)))) if k % n == shard]
    if only:
        name, idx = only.rsplit(":", 1)
        order = [(int(idx), w) for w in mod.WORKLOADS if w.name == name]
    prog = open(a.out + ".prog", "w")
    for i, w in order:
        cid = "%s:%d" % (w.name, i)
        if cid in skip:
            continue
        if time.time() > t_end:
            truncated += 1
            continue
        prog.seek(0)
        prog.write("%-80s" % cid)
        prog.flush()
        c = core.run_case(a.prop, w, i, a.seed, a.tier)
        evaluations += 1
        per_w[w.name] += 1
        events.update(c.events)
        covered |= {w.name + "/" + k for k in c.covered}
        if c.notes and len(samples) < 200 and per_w[w.name] <= 2:
            samples.append({"workload": w.name, "index": i, "seed": c.seed,
                            "inputs": {k: core.brief(v) for k, v in c.notes.items()}})
        for v in c.violations:
            key = (w.name, v["what"])
            seen_v[key] += 1
            if seen_v[key] <= 2:
                v.update(workload=w.name, index=i, base_seed=a.seed, tier=a.tier,
                         property=a.prop)
                violations.append(v)
        for f in c.findings:
            f.update(workload=w.name, index=i, base_seed=a.seed, tier=a.tier)
            findings.append(f)
    with open(a.out, "w") as f:
        json.dump({"events": events, "covered": sorted(covered), "samples": samples,
                   "violations": violations, "findings": findings,
                   "evaluations": evaluations, "per_workload": per_w,
                   "truncated": truncated,
                   "n_violating": {"%s | %s" % k: n_ for k, n_ in seen_v.items()}}, f)


# ---------------------------------------------------------------- parent
def base_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", KERAS_BACKEND="torch",
               CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="2", LANG="C.UTF-8",
               TQDM_DISABLE="1", TF_CPP_MIN_LOG_LEVEL="3")
    env.pop("PYTHONPATH", None)
    return env


class Shard:
    def __init__(self, a, k, n, tmp, env, budget, skip=(), only=None):
        self.out = os.path.join(tmp, "s%s_%d.json" % (k, int(time.time() * 1e6) % 10**9))
        cmd = [sys.executable, os.path.abspath(__file__), a.prop, "--tier", a.tier,
               "--seed", str(a.seed), "--worker", "%d/%d" % (k, n), "--out", self.out,
               "--budget", str(budget)]
        if skip:
            cmd += ["--skip", ",".join(skip)]
        if only:
            cmd += ["--only", only]
        self.k = k
        self.skip = list(skip)
        self.log = open(self.out + ".log", "wb")
        self.p = subprocess.Popen(cmd, env=env, stdout=self.log, stderr=self.log,
                                  cwd=tmp, start_new_session=True)
        self.last = None
        self.last_t = time.time()

    def current(self):
        try:
            return open(self.out + ".prog").read().strip()
        except OSError:
            return ""

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        self.log.flush()
        return open(self.out + ".log", "rb").read()[-3000:].decode("utf8", "replace")


def supervise(a, tmp, env, nshards, budget, case_timeout):
    """Runs the shards; returns (results, extra violations, problems)."""
    results, extra, problems = [], [], []
    live = [Shard(a, k, nshards, tmp, env, budget) for k in range(nshards)]
    t_start = time.time()
    limit = budget + 3 * case_timeout + 60
    while live:
        if time.time() - t_start > limit:
            for s in live:
                s.kill()
                problems.append("shard %d stopped at the overall time limit, in %s" % (s.k, s.current()))
            break
        time.sleep(0.05)
        for s in list(live):
            rc = s.p.poll()
            cur = s.current()
            if cur != s.last:
                s.last, s.last_t = cur, time.time()
            hung = rc is None and time.time() - s.last_t > case_timeout
            if rc is None and not hung:
                continue
            live.remove(s)
            if rc == 0 and os.path.exists(s.out):
                results.append(json.load(open(s.out)))
                continue
            if hung and extra:           # one confirmed hang is enough
                s.kill()
                problems.append("shard %d also hung, in %s" % (s.k, cur))
                continue
            kind = "did not return" if hung else "process died (status %s)" % rc
            if hung:
                s.kill()
            tail = s.tail()
            if not cur:
                problems.append("shard %d %s before its first case:\n%s" % (s.k, kind, tail))
                continue
            if rc is not None and rc > 0:
                problems.append("shard %d harness error at %s:\n%s" % (s.k, cur, tail))
                continue
            # confirm alone, with more time
            t = Shard(a, 0, 1, tmp, env, 10**6, only=cur)
            t0 = time.time()
            while t.p.poll() is None and time.time() - t0 < 1.5 * case_timeout:
                time.sleep(0.1)
            rc2 = t.p.poll()
            if rc2 is None or rc2 < 0:
                what = "call did not return" if rc2 is None else "process killed by signal %d" % -rc2
                if rc2 is None:
                    t.kill()
                name, idx = cur.rsplit(":", 1)
                extra.append({"what": what, "workload": name, "index": int(idx),
                              "base_seed": a.seed, "tier": a.tier, "property": a.prop,
                              "info": {"first": kind, "log": t.tail()}, "inputs": {}})
            else:
                if os.path.exists(t.out):
                    results.append(json.load(open(t.out)))
                problems.append("case %s: %s, not reproduced alone" % (cur, kind))
            if len(extra) < 2:
                live.append(Shard(a, s.k, nshards, tmp, env, budget, skip=s.skip + [cur]))
    return results, extra, problems


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--out")
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--skip")
    ap.add_argument("--only")
    ap.add_argument("--shards", type=int, default=0)
    a = ap.parse_args()
    a.prop = a.prop.upper()
    if a.worker:
        return worker(a)
    t0 = time.time()
    if a.replay:
        rec = json.load(open(a.replay))
        a.seed, a.tier = rec["base_seed"], rec["tier"]
        a.only = "%s:%d" % (rec["workload"], rec["index"])
    os.chdir(HERE)
    meta = load_check(a.prop).META
    tmp = tempfile.mkdtemp(prefix="vmon_")
    env = base_env()
    quick = a.tier != "thorough"
    if quick:
        env["NUMBA_OPT"] = "0"        # halves compile time; thorough optimises
    env.update(meta.get("env", {}))
    nshards = a.shards or (meta.get("shards", 4) if quick else 8)
    budget = a.budget or (meta.get("budget", 240) if quick else 3000)
    case_timeout = meta.get("case_timeout", 100 if quick else 200)
    env["VMON_TMP"] = tmp
    try:
        if a.only:
            s = Shard(a, 0, 1, tmp, env, 10**6, only=a.only)
            try:
                rc = s.p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                s.kill()
                print("case %s did not return" % a.only)
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            if rc < 0:
                print("case %s died with status %d" % (a.only, rc))
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1
            if rc:
                print(s.tail())
                return 2
            results, extra, problems = [json.load(open(s.out))], [], []
        else:
            results, extra, problems = supervise(a, tmp, env, nshards, budget, case_timeout)
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    events, covered, per_w, nviol = Counter(), set(), Counter(), Counter()
    samples, violations, findings = [], list(extra), []
    evaluations = truncated = 0
    for r in results:
        events.update(r["events"])
        covered |= set(r["covered"])
        per_w.update(r["per_workload"])
        nviol.update(r["n_violating"])
        samples += r["samples"]
        violations += r["violations"]
        findings += r["findings"]
        evaluations += r["evaluations"]
        truncated += r["truncated"]
    known = known_findings()
    printed = set()
    for f in findings:
        k = (a.prop, f["key"])
        if k in known:
            if k not in printed:
                printed.add(k)
                print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k]))
        else:
            violations.append(dict(f, what="%s: %s" % (f["key"], f["text"]),
                                   property=a.prop, inputs={}))
    # one replay file per distinct (workload, monitor)
    lines, seen = [], set()
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for v in sorted(violations, key=lambda v: (v["workload"], v["what"], v["index"])):
        key = (v["workload"], v["what"])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join("replays", "%s_%s_%d_s%d_%d.json" % (
            a.prop, v["workload"], v["index"], v["base_seed"], len(seen)))
        if not a.replay:
            json.dump(v, open(os.path.join(HERE, path), "w"), indent=1)
        else:
            path = a.replay
        print("monitor fired: [%s #%d] %s  %s" % (
            v["workload"], v["index"], v["what"], json.dumps(v.get("info", {}))[:600]))
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
    if not a.only:
        evidence = {
            "property": a.prop,
            "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(covered),
                "rule": meta["rule"],
                "workloads": {w.name: " ".join((w.fn.__doc__ or "").split()) for w in load_check(a.prop).WORKLOADS},
                "monitor_events": dict(sorted(events.items())),
                "cases_per_workload": dict(sorted(per_w.items())),
                "cases_not_reached_within_budget": truncated,
                "shards": len(results),
                "inconclusive_notes": problems,
                "samples": sorted(samples, key=lambda s: (s["index"], s["workload"]))[:8],
            },
            "assumptions": [meta["assumptions"]] if isinstance(meta.get("assumptions"), str) else meta.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(evidence, open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"),
                  indent=1, default=str)
    print("%s tier=%s seed=%d: %d cases, %d monitor events, %d distinct behaviours, "
          "%d violations, %.1fs" % (a.prop, a.tier, a.seed, evaluations,
                                    sum(events.values()), len(covered), len(violations),
                                    time.time() - t0))
    if os.environ.get("VMON_VERBOSE"):
        for k, n in sorted(events.items()):
            print("   %7d  %s" % (n, k))
    for k, n in sorted(nviol.items()):
        print("   violated %d times: %s" % (n, k))
    for p in problems:
        print("note:", p)
    if lines:
        for ln in lines[:12]:
            print(ln)
        return 1
    monitored = sum(n for k, n in events.items() if k not in ("skipped",))
    if not results or monitored == 0 or (problems and len(results) < nshards and not a.only):
        print("INCONCLUSIVE property=%s: the monitors observed too little" % a.prop)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
