"""Decides one property:  run_check.py C01   (VERIF_SEED, VERIF_TIER in the environment)
Replays a saved case:   run_check.py --replay FILE

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
"""
import concurrent.futures
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import build  # noqa: E402

PY = build.PY
NPROC = 8


def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "GOMP_", "PYTHON", "LD_"))}
    e.update(OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
             PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8",
             # freshly allocated memory is filled with a recognisable non-zero pattern, so
             # that results built from uninitialised memory are wrong every time
             MALLOC_PERTURB_="128", GLIBC_TUNABLES="glibc.malloc.tcache_count=0")
    e.update(extra or {})
    return e


class Shard:
    def __init__(self, k, job, work, e):
        self.k, self.job = k, job
        self.jobfile = os.path.join(work, "job%s.json" % k)
        job.update(hist=os.path.join(work, "hist%s.txt" % k), out=os.path.join(work, "out%s.json" % k), current=os.path.join(work, "cur%s.json" % k),
                   tmp=os.path.join(work, "tmp%s" % k))
        json.dump(job, open(self.jobfile, "w"))
        self.err = open(os.path.join(work, "err%s.txt" % k), "wb")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), self.jobfile], env=e,
                                  stdout=subprocess.DEVNULL, stderr=self.err, cwd=work, start_new_session=True)
        self.t0 = time.time()

    def result(self):
        try:
            return json.load(open(self.job["out"]))
        except (OSError, ValueError):
            return None

    def current(self):
        try:
            return json.load(open(self.job["current"]))
        except (OSError, ValueError):
            return None

    def stuck_for(self):
        try:
            return time.time() - os.path.getmtime(self.job["current"])
        except OSError:
            return time.time() - self.t0

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def errtext(self):
        self.err.flush()
        return open(self.err.name, errors="replace").read()[-4000:]


def replay_once(base, case, work, tag, timeout, before=()):
    """The case in a fresh process, after the cases in `before` -> (failed, message)"""
    job = dict(base, replay=case, before=list(before), examples=0, shard=0, nshards=1, limit_s=1e9, shrink_s=1e9)
    s = Shard(tag, job, work, env(base.get("env")))
    if before:
        # a history: a time-out is no answer here (it is long by itself)
        try:
            s.p.wait(timeout)
        except subprocess.TimeoutExpired:
            s.kill()
            return False, None
    try:
        s.p.wait(timeout)
    except subprocess.TimeoutExpired:
        s.kill()
        return True, "no answer within %d s (hang)" % timeout
    s.kill()
    r = s.result()
    if r is None:
        return True, "the process died: exit status %s\n%s" % (s.p.returncode, s.errtext()[-1500:])
    if r["failures"]:
        return True, r["failures"][0]["message"]
    return False, None


def read_history(path):
    """The cases a worker ran, up to and including the one that failed."""
    try:
        lines = open(path, "rb").read().split(b"\n")
    except OSError:
        return []
    out = []
    for line in lines:
        try:
            if line:
                out.append(json.loads(line.decode()))
        except ValueError:
            break
    return out


def with_history(base, paths, work, budget):
    """Failures that no single case reproduces in a process of its own: replay what the worker
    ran before them, in one fresh process, and minimise that list.
    -> (case, message, preceding cases) or None"""
    t0 = time.time()
    hs = sorted((h for h in map(read_history, paths) if len(h) > 1), key=len)[:NPROC]

    def fails(cases, tag):
        left = budget - (time.time() - t0)
        if left < 2:
            return False, None
        return replay_once(base, cases[-1], work, tag, min(left, 180), cases[:-1])

    def many(lists):
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            return list(ex.map(lambda k: fails(lists[k], "h%d" % k), range(len(lists))))

    hits = [(h, m) for h, (f, m) in zip(hs, many(hs)) if f]
    if not hits:
        return None
    best, msg = min(hits, key=lambda x: len(x[0]))
    n, tails = 2, []
    while n < len(best):
        tails.append(best[-n:])
        n *= 2
    for h, (f, m) in zip(tails, many(tails[:NPROC])):
        if f:
            best, msg = h, m
            break
    # remove blocks of preceding cases, then single ones
    size = max(1, (len(best) - 1) // 2)
    while size >= 1 and len(best) > 2 and time.time() - t0 < budget * 0.6:
        cuts = [best[:k] + best[min(k + size, len(best) - 1):] for k in range(0, len(best) - 1, size)]
        cuts = [c for c in cuts if len(c) >= 2]
        done = False
        for a in range(0, len(cuts), NPROC):
            for c, (f, m) in zip(cuts[a:a + NPROC], many(cuts[a:a + NPROC])):
                if f:
                    best, msg, done = c, m, True
                    break
            if done or time.time() - t0 > budget * 0.6:
                break
        if not done:
            size //= 2
        size = min(size, max(1, (len(best) - 1) // 2)) if size else 0
    again = many([best] * 3)
    if sum(f for f, _ in again) < 2:
        return None
    return best[-1], next(m for f, m in again if f), best[:-1]


def decide(cid, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("checks." + cid.lower())
    builds = build.release()
    extra = {}
    if hasattr(mod, "BUILDS"):
        extra = mod.BUILDS()
    t_build = time.time() - t0
    known_file = json.load(open(os.path.join(ROOT, "known_findings.json")))
    listed = {f["id"]: f for f in known_file["findings"] if f["property"] == cid}
    work = tempfile.mkdtemp(prefix="verif-%s-" % cid)
    nshards = getattr(mod, "SHARDS", NPROC)
    total = mod.BUDGET[tier]
    base = {"check": cid, "tier": tier, "site": builds["site"], "exe": builds["exe"],
            "limit_s": getattr(mod, "LIMIT", {}).get(tier, 420 if tier == "quick" else 3000),
            "shrink_s": getattr(mod, "SHRINK_S", 40), "nshards": nshards, "limit_as": getattr(mod, "LIMIT_AS", True),
            "env": dict(getattr(mod, "ENV", {}), **extra)}
    case_limit = getattr(mod, "CASE_LIMIT", 120)
    shards = []
    for k in range(nshards):
        h = hashlib.sha256(("%s/%d/%d" % (cid, seed, k)).encode()).digest()
        job = dict(base, shard=k, seed=int.from_bytes(h[:6], "big"), examples=-(-total // nshards))
        shards.append(Shard(k, job, work, env(base["env"])))
    failures = []      # (case, message)
    suspects = []      # cases that were running when a worker died or hung
    results = []
    harness = []
    live = list(shards)
    first_fail = None
    while live:
        time.sleep(0.05)
        for s in list(live):
            if s.p.poll() is not None:
                live.remove(s)
                r = s.result()
                if s.p.returncode != 0:
                    c = s.current()
                    if c is not None:
                        suspects.append((c, "the worker died: exit status %s; %s" % (s.p.returncode, s.errtext()[-800:]), s))
                    else:
                        harness.append("worker %s died before its first case: %s" % (s.k, s.errtext()[-2000:]))
                    continue
                if r is None:
                    harness.append("worker %s left no result: %s" % (s.k, s.errtext()[-2000:]))
                    continue
                results.append(r)
                if r["failures"]:
                    failures.append((r["failures"][0]["case"], r["failures"][0]["message"]))
                    first_fail = first_fail or time.time()
                if r.get("harness_error"):
                    harness.append("\n".join(r["notes"]))
            elif s.stuck_for() > case_limit:
                s.kill()
                live.remove(s)
                c = s.current()
                r = s.result()
                if r and r["failures"]:
                    failures.append((r["failures"][0]["case"], r["failures"][0]["message"]))
                elif c is not None:
                    suspects.append((c, "no answer within %d s" % case_limit, None))
        if first_fail and live and time.time() - first_fail > 3:
            # one minimal failing case is enough; others keep what they have found
            for s in list(live):
                r = s.result()
                s.kill()
                live.remove(s)
                if r:
                    results.append(r)
    # a crash: let Hypothesis shrink it with every case in its own process
    if suspects and not failures:
        c, msg, s = suspects[0]
        if s is not None:
            job = dict(s.job, isolate=True, limit_s=200, shrink_s=30)
            k = "iso"
            iso = Shard(k, job, work, env(base["env"]))
            try:
                iso.p.wait(300)
            except subprocess.TimeoutExpired:
                pass
            iso.kill()
            r = iso.result()
            if r and r["failures"]:
                failures.append((r["failures"][0]["case"], r["failures"][0]["message"]))
    hist_paths = [s.job["hist"] for s in shards
                  if (s.result() or {}).get("failures") or any(s is x[2] for x in suspects)]
    cands = sorted(failures, key=lambda f: len(json.dumps(f[0]))) + [(c, m) for c, m, _ in suspects]
    violation = None
    unreproduced = []
    for case, msg in cands[:6]:
        hits, last = 0, msg
        for t in range(3):
            failed, m = replay_once(base, case, work, "rep%d" % t, case_limit)
            if failed:
                hits += 1
                last = m or last
        if hits >= 2:
            violation = (case, last, [])
            break
        unreproduced.append({"case": case, "message": msg, "hits": hits})
    if not violation:
        # what was seen once and is a violation whatever the reason (a result that depends on the
        # schedule) need not come back on demand
        certain = [u for u in unreproduced if getattr(mod, "CERTAIN", lambda m: False)(u["message"])]
        if certain:
            violation = (certain[0]["case"], certain[0]["message"] + "\n(seen in the run, not in %d replays: it depends on the schedule)"
                         % (3 * getattr(mod, "REPLAY_TRIES", 1)), [])
    if hist_paths and not violation:
        violation = with_history(base, hist_paths, work, 240)
    # evidence
    tags, nontriv, samples, known = {}, set(), [], {}
    for r in results:
        for k, v in r["tags"].items():
            tags[k] = tags.get(k, 0) + v
        nontriv.update(r["nontrivial"])
        samples += r["samples"][:2]
        known.update(r["known"])
    evals = sum(r["evaluations"] for r in results)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": cid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": mod.RULE,
                       "samples": samples[:4] or ["(none)"], "classes": dict(sorted(tags.items())),
                       "workers": nshards, "build_s": round(t_build, 1),
                       "stopped_early": any(r.get("stopped_early") for r in results)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    if unreproduced:
        ev["coverage"]["unreproduced"] = unreproduced[:3]
    if harness:
        ev["coverage"]["harness_errors"] = harness[:3]
    unlisted = sorted(set(known) - set(listed))
    path = os.path.join(ROOT, "evidence", cid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for fid in sorted(set(known) & set(listed)):
        print("KNOWN-FINDING: property=%s %s: %s" % (cid, fid, listed[fid]["what"]))
    if unlisted and not violation:
        violation = ({"finding": unlisted[0]}, known[unlisted[0]], [])
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s"
          % (cid, tier, seed, evals, len(nontriv), t_build, time.time() - t0))
    if violation:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        case, msg, before = violation
        if before:
            msg += "\n(in a process that first ran the %d cases under \"before\" in the replay file)" % len(before)
        rp = os.path.join(ROOT, "replays", "%s-%s.json" % (cid, hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]))
        with open(rp, "w") as f:
            json.dump({"property": cid, "tier": tier, "message": msg, "before": before, "case": case}, f, indent=1)
        print("what failed: %s" % msg)
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        return 1
    if harness or not results:
        print("harness error: %s" % "\n".join(harness)[:4000], file=sys.stderr)
        return 2
    return 0


def main():
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        mod = importlib.import_module("checks." + d["property"].lower())
        b = build.release()
        extra = mod.BUILDS() if hasattr(mod, "BUILDS") else {}
        work = tempfile.mkdtemp(prefix="verif-replay-")
        base = {"check": d["property"], "tier": d.get("tier", "quick"), "site": b["site"], "exe": b["exe"],
                "limit_as": getattr(mod, "LIMIT_AS", True), "env": dict(getattr(mod, "ENV", {}), **extra)}
        failed, msg = replay_once(base, d["case"], work, "r", max(getattr(mod, "CASE_LIMIT", 120), 300 * bool(d.get("before"))),
                                   d.get("before", ()))
        shutil.rmtree(work, ignore_errors=True)
        if failed:
            print("what failed: %s" % msg)
            print("VIOLATION property=%s replay=%s" % (d["property"], sys.argv[2]))
            return 1
        print("the case passes")
        return 0
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return decide(cid, tier, seed)
    except build.BuildError as e:
        print("the tree does not build: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
