"""Runner for the runtime-monitoring checks.

A check module (``checks/pXX.py``) drives the real parce code through many
cases and watches it with monitors.  It defines::

    PROPERTY = "P01"
    RULE = "how the cases are made, what makes one non-trivial"
    PLAN = {"quick": {"kind": count, ...}, "thorough": {...}}
    REQUIRED = {"counter": minimum}         # below it the run says nothing (exit 2)
    ASSUMPTIONS = [...]
    def case_<kind>(ctx): ...

Every case gets its own deterministic random generator, derived from the
property, the seed, the kind and the index; a violation is replayed by those
four.  A case reports with ``ctx.check(...)``/``ctx.fail(...)``; an exception
leaving a case is a violation as well (the workloads only do legal things).

Monitors that every case runs under:

* a CPU-time limit per case (hang sanitizer, SIGPROF),
* a wall-clock limit per case (deadlock sanitizer, SIGALRM),
* an address-space limit per worker process (run-away growth),
* process-death detection (e.g. interpreter crash by C-stack overflow),
* sys.unraisablehook and threading.excepthook: errors swallowed in callbacks
  and threads are violations.

"""
import collections
import gc
import hashlib
import importlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known-findings.txt")

BUDGET = {"quick": 150, "thorough": 780}        # wall seconds, soft: no new cases after it
CPU_LIMIT = 40
WALL_LIMIT = 200
MEM_LIMIT = 3 << 30
WORKERS = 8


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class Ctx:
    """Passed to every case."""

    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.counts = collections.Counter()
        self.keys = set()
        self.samples = {}
        self.known = set()
        self.evaluations = 0
        self.background = []        # errors seen in threads/unraisable hooks
        self._cleanup = []

    def start(self, kind, index):
        self.kind = kind
        self.index = index
        self.rng = random.Random("{}|{}|{}|{}".format(self.prop, self.seed, kind, index))
        self.detail = {}
        self.background.clear()

    # -- reporting
    def fail(self, msg, **detail):
        self.detail.update(detail)
        raise Violation(msg)

    def check(self, cond, msg, **detail):
        self.counts["assertions"] += 1
        if not cond:
            self.fail(msg, **detail)

    def equal(self, got, expected, msg, **detail):
        self.counts["assertions"] += 1
        if not (got == expected):
            self.fail(msg, got=short(got), expected=short(expected), **detail)

    def raises(self, exc, func, *args, **kwargs):
        self.counts["assertions"] += 1
        try:
            func(*args, **kwargs)
        except exc:
            return
        self.fail("{} not raised".format(exc))

    def note(self, **detail):
        """Remember what the current case is about, for the replay file."""
        self.detail.update(detail)

    def count(self, name, n=1):
        self.counts[name] += n

    def distinct(self, *key):
        self.keys.add(int.from_bytes(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big"))

    def sample(self, obj):
        l = self.samples.setdefault(self.kind, [])
        if len(l) < 2:
            l.append(json.loads(json.dumps(obj, default=repr)))

    def known_finding(self, key):
        self.known.add(key)

    def scratch(self):
        """A scratch directory, removed when the case is done."""
        import tempfile
        d = tempfile.mkdtemp(prefix="parce-verif-")
        self._cleanup.append(d)
        return d

    def cleanup(self):
        import shutil
        while self._cleanup:
            shutil.rmtree(self._cleanup.pop(), ignore_errors=True)


def short(obj, n=1500):
    s = obj if isinstance(obj, str) else repr(obj)
    return s if len(s) <= n else s[:n] + "…({} chars)".format(len(s))


def schedule(plan):
    """All (kind, index) pairs, kinds interleaved proportionally."""
    total = sum(plan.values())
    out = []
    for kind, n in plan.items():
        for i in range(n):
            out.append(((i + .5) / n, kind, i))
    out.sort()
    return [(kind, i) for _, kind, i in out]


def load(prop):
    sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    return importlib.import_module("checks." + prop.lower())


def run_case(mod, ctx, kind, index):
    """Run one case under the per-case monitors; return None or a violation dict."""
    ctx.start(kind, index)
    cpu = getattr(mod, "CPU_LIMIT", CPU_LIMIT)
    wall = getattr(mod, "WALL_LIMIT", WALL_LIMIT)
    msg = None
    try:
        signal.setitimer(signal.ITIMER_PROF, cpu)
        signal.setitimer(signal.ITIMER_REAL, wall)
        try:
            getattr(mod, "case_" + kind)(ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
        if ctx.background:
            msg = "error in a callback or thread: " + ctx.background[0]
    except Violation as e:
        msg = str(e)
    except Hang as e:
        msg = str(e)
        ctx.detail["traceback"] = traceback.format_exc()[-3000:]
    except MemoryError:
        msg = "memory limit exceeded"
    except Exception as e:
        msg = "unexpected exception {}: {}".format(type(e).__name__, short(str(e), 300))
        ctx.detail["traceback"] = traceback.format_exc()[-3000:]
    finally:
        ctx.cleanup()
    ctx.evaluations += 1
    if msg is not None:
        return {"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "kind": kind, "index": index,
                "message": msg, "detail": json.loads(json.dumps(ctx.detail, default=repr))}


def install_monitors(ctx):
    def on_prof(sig, frame):
        # fire again soon, if somebody swallows it
        signal.setitimer(signal.ITIMER_PROF, 2)
        raise Hang("hang: case used more CPU time than the limit")

    def on_alarm(sig, frame):
        signal.setitimer(signal.ITIMER_REAL, 2)
        raise Hang("stuck: case did not finish in the wall-clock limit")

    signal.signal(signal.SIGPROF, on_prof)
    signal.signal(signal.SIGALRM, on_alarm)

    def unraisable(u):
        ctx.background.append("unraisable {}: {!r}".format(type(u.exc_value).__name__, u.exc_value))

    def thread_hook(a):
        ctx.background.append("in thread: {}: {!r}\n{}".format(a.exc_type.__name__, a.exc_value,
            ''.join(traceback.format_tb(a.exc_traceback))[-1500:]))

    sys.unraisablehook = unraisable
    threading.excepthook = thread_hook


def child(mod, ctx, cases, deadline, shm, slot, nslots, path):
    """Worker process."""
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    install_monitors(ctx)
    violation = None
    skipped = 0
    if hasattr(mod, "setup"):
        mod.setup(ctx)
    for n, (num, kind, index) in enumerate(cases):
        if shm[0] or time.monotonic() > deadline:
            skipped = len(cases) - n
            break
        struct.pack_into("q", shm, 8 + slot * 8, num + 1)
        violation = run_case(mod, ctx, kind, index)
        if violation:
            shm[0] = 1
            break
    struct.pack_into("q", shm, 8 + slot * 8, 0)
    res = {"violation": violation, "counts": ctx.counts, "samples": ctx.samples, "evaluations": ctx.evaluations,
           "known": sorted(ctx.known), "skipped": skipped}
    with open(path + ".keys", "wb") as f:
        f.write(b''.join(k.to_bytes(8, "big") for k in ctx.keys))
    with open(path, "w") as f:
        json.dump(res, f)
        f.flush()


def known_entries(prop):
    """{key: text} of the known findings for the property."""
    d = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    fields = line.split(None, 3)
                    if len(fields) == 4 and fields[1] == "property=" + prop:
                        d[fields[2].partition("=")[2]] = fields[3]
    except FileNotFoundError:
        pass
    return d


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--selftest", action="store_true")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    p.add_argument("--kind")
    p.add_argument("--index", type=int)
    p.add_argument("--scale", type=float, default=1.0)
    p.add_argument("--workers", type=int, default=WORKERS)
    p.add_argument("--outdir", default=os.path.join(VERIF, "evidence"))
    a = p.parse_args(argv)
    if a.selftest:
        return selftest()
    prop = a.property.upper()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.monotonic()
    os.makedirs(a.outdir, exist_ok=True)
    try:
        mod = load(prop)
    except Exception:
        # parce could not even be imported: the code under test is broken
        traceback.print_exc()
        return report(a, prop, {"property": prop, "seed": a.seed, "tier": a.tier, "kind": "import", "index": 0,
            "message": "import failed", "detail": {"traceback": traceback.format_exc()}})

    ctx = Ctx(prop, a.tier, a.seed)
    if a.replay or a.kind:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            ctx.seed, ctx.tier, kind, index = r["seed"], r["tier"], r["kind"], r["index"]
        else:
            kind, index = a.kind, a.index or 0
        install_monitors(ctx)
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        v = run_case(mod, ctx, kind, index)
        print(json.dumps(v, indent=1, ensure_ascii=False) if v else "no violation")
        return 1 if v else 0

    plan = {k: max(1, int(n * a.scale)) for k, n in mod.PLAN[a.tier].items()}
    cases = [(num, kind, i) for num, (kind, i) in enumerate(schedule(plan))]
    if hasattr(mod, "WORKERS") and a.workers == WORKERS:
        a.workers = mod.WORKERS
    deadline = t0 + getattr(mod, "BUDGET", BUDGET)[a.tier]
    shm = mmap.mmap(-1, 4096)
    tmp = tempfile.mkdtemp(prefix="parce-verif-run-")
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(a.workers):
        path = os.path.join(tmp, "r%d" % k)
        pid = os.fork()
        if not pid:
            rc = 70
            try:
                os.setpgid(0, 0)
                child(mod, ctx, cases[k::a.workers], deadline, shm, k, a.workers, path)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(rc)
        pids[pid] = k
    hard = deadline + max(CPU_LIMIT, getattr(mod, "WALL_LIMIT", WALL_LIMIT)) + 30
    violation = None
    broken = None

    def current(k):
        n = struct.unpack_from("q", shm, 8 + k * 8)[0]
        return cases[n - 1] if n else None

    while pids:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid:
            k = pids.pop(pid, None)
            if k is None:
                continue
            if os.WIFSIGNALED(status):
                sig, cur = os.WTERMSIG(status), current(k)
                if sig == signal.SIGKILL or not cur:
                    broken = broken or "worker killed by signal {} at {}".format(sig, cur)
                else:
                    shm[0] = 1
                    violation = {"property": prop, "seed": a.seed, "tier": a.tier, "kind": cur[1], "index": cur[2],
                        "message": "process died with signal {}".format(sig), "detail": {}}
            elif os.WEXITSTATUS(status):
                broken = broken or "worker exited with {}".format(os.WEXITSTATUS(status))
        elif time.monotonic() > hard:
            for pid, k in pids.items():
                cur = current(k)
                if cur and not violation:
                    violation = {"property": prop, "seed": a.seed, "tier": a.tier, "kind": cur[1], "index": cur[2],
                        "message": "case does not end (not even by a signal)", "detail": {}}
                os.kill(pid, signal.SIGKILL)
            for pid in pids:
                os.waitpid(pid, 0)
            pids.clear()
        else:
            time.sleep(.05)

    counts = collections.Counter()
    samples = {}
    keys = set()
    evaluations = skipped = 0
    known = set()
    for k in range(a.workers):
        path = os.path.join(tmp, "r%d" % k)
        if not os.path.exists(path):
            continue
        with open(path) as f:
            r = json.load(f)
        with open(path + ".keys", "rb") as f:
            b = f.read()
        keys.update(b[i:i+8] for i in range(0, len(b), 8))
        if r["violation"] and not violation:
            violation = r["violation"]
        counts.update(r["counts"])
        evaluations += r["evaluations"]
        skipped += r["skipped"]
        known.update(r["known"])
        for kind, l in r["samples"].items():
            s = samples.setdefault(kind, [])
            s.extend(l[:max(0, 2 - len(s))])
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    listed = known_entries(prop)
    for key in sorted(known):
        if key in listed:
            print("KNOWN-FINDING: property={} {}".format(prop, listed[key]))
        elif not violation:
            violation = {"property": prop, "seed": a.seed, "tier": a.tier, "kind": "known", "index": 0,
                "message": "finding not in the known-findings file: " + key, "detail": {}}

    if violation:
        rc = report(a, prop, violation)
    elif broken:
        print("INCONCLUSIVE property={} {}".format(prop, broken))
        rc = 2
    else:
        low = {k: n for k, n in getattr(mod, "REQUIRED", {}).items() if counts[k] < n}
        if low:
            print("INCONCLUSIVE property={} too little observed: {}".format(
                prop, ', '.join("{}={} (need {})".format(k, counts[k], n) for k, n in low.items())))
            rc = 2
        else:
            rc = 0
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "planned": plan,
            "not_run_for_time": skipped,
            "observed": dict(sorted(counts.items())),
            "samples": [dict(kind=kind, case=c) for kind, l in sorted(samples.items()) for c in l],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violation else 0,
    }
    name = os.path.join(a.outdir, prop + ".json")
    with open(name + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(name + ".tmp", name)
    print("{} {} seed={} evaluations={} distinct={} skipped={} wall={:.1f}s -> {}".format(
        prop, a.tier, a.seed, evaluations, len(keys), skipped, time.monotonic() - t0,
        {0: "held", 1: "VIOLATED", 2: "inconclusive"}[rc]))
    return rc


def selftest():
    """Import the code under test and all checks (setup_cmd)."""
    for n in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if n.startswith("p") and n.endswith(".py"):
            mod = load(n[:-3])
            for tier in ("quick", "thorough"):
                for kind in mod.PLAN[tier]:
                    getattr(mod, "case_" + kind)
            print("ok", n[:-3].upper(), {k: sum(v.values()) for k, v in mod.PLAN.items()})
    return 0


COMMON_ASSUMPTIONS = [
    "what is claimed holds for the executions observed; the workload is random and bounded",
    "CPython 3.12 of /opt/venv, parce imported from /repo's working tree",
]


def report(a, prop, violation):
    d = os.path.join(a.outdir, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "{}-{}-{}-{}.json".format(prop, violation["seed"], violation["kind"], violation["index"]))
    with open(path, "w") as f:
        json.dump(violation, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print("  {} case {}:{}: {}".format(prop, violation["kind"], violation["index"], violation["message"]))
    for k, v in violation["detail"].items():
        print("    {}: {}".format(k, ascii(v)[1:-1] if isinstance(v, str) and not v.isprintable() and k != "traceback" else short(v, 500)))
    print("VIOLATION property={} replay={}".format(prop, path))
    return 1
