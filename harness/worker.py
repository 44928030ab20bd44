"""Runs the generated cases of one check in one process (one shard), or replays one case."""
import collections
import hashlib
import importlib
import json
import os
import resource
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
# hypothesis and jsonschema come from the tooling venv (same Python version); it is last on
# the path, so numpy, scipy and matplotlib are the ones of the package's own environment.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


class Ctx:
    """What a check gets: the package under test, a scratch directory, bookkeeping."""

    def __init__(self, site, exe, tmp, tier):
        self.site, self.exe, self.tmp, self.tier = site, exe, tmp, tier
        self.known_seen = {}
        self._bx = None
        self.store = {}

    @property
    def bx(self):
        if self._bx is None:
            sys.path.insert(0, self.site)
            import booz_xform
            assert booz_xform.__file__.startswith(self.site), booz_xform.__file__
            self._bx = booz_xform
        return self._bx

    def path(self, name):
        return os.path.join(self.tmp, name)

    def known(self, fid, what):
        self.known_seen.setdefault(fid, what)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def execute(mod, case, ctx):
    """Returns (info, None) or (None, message)."""
    from bx import Violation
    try:
        return mod.run(case, ctx) or {}, None
    except Violation as e:
        return None, str(e)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.format_exc(limit=-4)
        return None, "unexpected %s: %s\n%s" % (type(e).__name__, e, tb)


def main():
    job = json.load(open(sys.argv[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if job.get("limit_as", True):
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    mod = importlib.import_module("checks." + job["check"].lower())
    tmp = job["tmp"]
    os.makedirs(tmp, exist_ok=True)
    ctx = Ctx(job["site"], job["exe"], tmp, job["tier"])
    os.chdir(tmp)
    out = job["out"]
    cur = os.open(job["current"], os.O_RDWR | os.O_CREAT, 0o600)
    res = {"evaluations": 0, "tags": {}, "nontrivial": [], "samples": [], "failures": [], "notes": [], "known": {}}
    tags = collections.Counter()
    nontrivial = set()
    fail = {"best": None, "first": None}
    start = time.time()
    stopped = [False]
    if hasattr(mod, "setup"):
        mod.setup(ctx)

    def dump():
        res["tags"] = dict(tags)
        res["nontrivial"] = sorted(nontrivial)
        res["known"] = ctx.known_seen
        res["stopped_early"] = stopped[0]
        res["wall"] = time.time() - start
        if fail["best"]:
            res["failures"] = [fail["best"]]
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    hist = None
    if job.get("hist"):
        hist = os.open(job["hist"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)

    def note_current(text):
        # every case up to the first failing one, in order: a failure that needs what earlier
        # cases left behind in the process is replayed with them
        if hist is not None and fail["best"] is None:
            os.write(hist, text.encode() + b"\n")
        data = text.encode()
        os.pwrite(cur, data, 0)
        os.ftruncate(cur, len(data))

    class Found(Exception):
        pass

    def one(case):
        text = canon(case)
        if fail["best"] is not None and time.time() - fail["first"] > job["shrink_s"]:
            dump()
            shutil.rmtree(tmp, ignore_errors=True)
            os._exit(0)
        if time.time() - start > job["limit_s"]:
            stopped[0] = True
            return
        note_current(text)
        if job.get("isolate"):
            info, msg = isolated(case)
        else:
            info, msg = execute(mod, case, ctx)
        res["evaluations"] += 1
        if msg is None:
            for t in info.get("tags", ()):
                tags[t] += 1
            for t, k in info.get("counts", {}).items():
                tags[t] += k
            if info.get("nontrivial"):
                h = hashlib.sha1((text + info.get("key", "")).encode()).hexdigest()[:16]
                if h not in nontrivial:
                    nontrivial.add(h)
                    if len(res["samples"]) < 3 or (len(nontrivial) % 997 == 0 and len(res["samples"]) < 6):
                        res["samples"].append(info.get("sample", case))
            return
        cand = {"case": case, "message": msg}
        if fail["best"] is None:
            fail["best"], fail["first"] = cand, time.time()
            print("first failure: " + msg[:500], file=sys.stderr, flush=True)
            dump()
        elif len(text) <= len(canon(fail["best"]["case"])):
            fail["best"] = cand
        raise Found(msg)

    def isolated(case):
        """Run the case in a forked child, so that a crash becomes an ordinary failure."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                info, msg = execute(mod, case, ctx)
                os.write(w, json.dumps([info, msg]).encode()[:60000])
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        data = b""
        while True:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if os.WIFSIGNALED(status):
            return None, "the process died from signal %d" % os.WTERMSIG(status)
        return tuple(json.loads(data.decode()))

    if job.get("replay") is not None:
        for case in job.get("before", []) + [job["replay"]]:
            note_current(canon(case))
            # what depends on the schedule of threads is tried several times
            tries = getattr(mod, "REPLAY_TRIES", 1) if case is job["replay"] else 1
            for _ in range(tries):
                info, msg = execute(mod, case, ctx)
                if msg is not None or time.time() - start > 60:
                    break
            res["evaluations"] += 1
            if msg is not None:
                fail["best"] = {"case": case, "message": msg, "at": res["evaluations"] - 1}
                break
        dump()
        shutil.rmtree(tmp, ignore_errors=True)
        return

    # fixed cases (corners, regressions) are spread over the shards
    try:
        for k, case in enumerate(getattr(mod, "CORNERS", ())):
            if k % job["nshards"] == job["shard"]:
                one(case)
                tags["corner case"] += 1
    except Found:
        dump()
        return

    if job["examples"] > 0:
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings

        @seed(job["seed"])
        @settings(max_examples=job["examples"], database=None, deadline=None,
                  phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck),
                  verbosity=Verbosity.quiet, report_multiple_bugs=False, print_blob=False)
        @given(mod.strategy(job["tier"]))
        def prop(case):
            one(case)

        try:
            prop()
        except Found:
            pass
        except BaseException as e:
            if fail["best"] is None:
                res["notes"].append("harness: %s: %s" % (type(e).__name__, str(e)[:2000]))
                res["notes"].append(traceback.format_exc(limit=-6))
                res["harness_error"] = True
    if hasattr(mod, "teardown"):
        mod.teardown(ctx)
    dump()
    shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
