"""Runs a check: forks workers, drives the real jpylyzer code, collects what the
monitors observed, writes evidence and replay material.

A check module defines PROPERTY, items(tier, seed) -> iterable of JSON-serialisable
work items and run(item, ctx) -> None; run() reports through ctx.violation().
"""

import gc
import hashlib
import json
import multiprocessing
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "jpylyzer") + os.sep
CHUNK = 4
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Hang(BaseException):
    """Watchdog: CPU time of one analysis used up."""


class StepLimit(BaseException):
    """Logical step budget of one analysis used up."""


def step_budget(size):
    return 2000000 + 600 * size


class StepMonitor:
    """Counts executed source lines of the code under test (sys.monitoring LINE
    events) and aborts -- persistently, because the code has catch-all handlers --
    when the budget is used up."""

    TOOL = 4

    def __init__(self, budget):
        self.budget = budget
        self.n = 0

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "steps")
        self.codes = set()

        def line(code, _):
            if not code.co_filename.startswith(PKG):
                return mon.DISABLE
            self.n += 1
            if self.n > self.budget:
                raise StepLimit(self.n)
            return None

        mon.register_callback(self.TOOL, mon.events.LINE, line)
        mon.restart_events()
        mon.set_events(self.TOOL, mon.events.LINE)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.LINE, None)
        mon.free_tool_id(self.TOOL)
        return False


def _on_alarm(*_):
    raise Hang()


class Raised:
    """Analysis ended with an exception instead of a report."""

    def __init__(self, exc, tb=""):
        self.exc = exc
        self.tb = tb

    def __str__(self):
        return "%s: %s" % (type(self.exc).__name__, str(self.exc)[:300])


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.n = Counter()          # free-form counters
        self.seen = {}              # name -> set of hashes / strings
        self.samples = []
        self.viol = []
        self.item = None
        self.cpu_limit = 20.0
        self.cases = 0
        self._fileno = 0
        self.stop = False
        self.replay = False         # a single recorded case is run again

    # -- evidence
    def note(self, name, value):
        s = self.seen.setdefault(name, set())
        if len(s) < 200000:
            s.add(value)

    def sig(self, obj):
        self.note("signature", hashlib.md5(repr(obj).encode("utf-8", "replace")).hexdigest()[:16])

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(str(s)[:400])

    def violation(self, msg, files=None, **info):
        self.viol.append({"msg": str(msg)[:2000], "item": self.item,
                          "files": files or {}, "info": info})
        if len(self.viol) >= 3:
            self.stop = True

    def odd(self, k):
        """Pseudo-random number below k that depends on the work item only."""
        return zlib.crc32(repr(self.item).encode()) % k

    # -- running the code under test
    def write(self, data, name="image.jp2"):
        p = os.path.join(self.scratch, name)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def analyse(self, data, fmt, verbose=True, pm=True, nullxml=False, mix=0,
                name="image.jp2"):
        """Report element or Raised.  Decides 'hang' by counting steps."""
        return self.analyse_path(self.write(data, name), fmt, verbose, pm, nullxml, mix,
                                 len(data))

    def analyse_path(self, path, fmt, verbose=True, pm=True, nullxml=False, mix=0,
                     size=None):
        from jpylyzer.jpylyzer import checkOneFile
        self.cases += 1
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu_limit, 0.05)
        try:
            return checkOneFile(path, fmt, verbose, pm, nullxml, mix)
        except Hang:
            hung = True
        except Exception as e:
            return Raised(e, traceback.format_exc()[-1500:])
        except SystemExit as e:
            return Raised(e, traceback.format_exc()[-1500:])
        finally:
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            except Hang:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if size is None:
            size = os.path.getsize(path)
        return self.stepped(path, fmt, verbose, pm, nullxml, mix, size)[0]

    def stepped(self, path, fmt, verbose, pm, nullxml, mix, size):
        """(report or Raised, number of steps) under the step budget."""
        from jpylyzer.jpylyzer import checkOneFile
        with StepMonitor(step_budget(size)) as sm:
            try:
                res = checkOneFile(path, fmt, verbose, pm, nullxml, mix)
            except StepLimit as e:
                res = Raised(e)
            except (Exception, SystemExit) as e:
                res = Raised(e, traceback.format_exc()[-1500:])
        if sm.n > sm.budget:
            res = Raised(StepLimit("no report after %d steps for a file of %d bytes"
                                   % (sm.budget, size)))
        return res, sm.n


def queue(items, w, ctr):
    """Next items off the shared queue."""
    while True:
        with ctr.get_lock():
            i = ctr.value
            ctr.value += CHUNK
        if i >= len(items):
            return
        yield from items[i:i + CHUNK]


def _child(mod, items, w, ctx, fd, ctr):
    """Worker process."""
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)
    sys.stdout = os.fdopen(os.dup(1), "w")
    sys.stderr = os.fdopen(os.dup(2), "w", errors="replace")
    signal.signal(signal.SIGVTALRM, _on_alarm)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    err = None
    done = 0
    t0 = time.time()
    cap = getattr(mod, "WALL_CAP", {}).get(ctx.tier, 420 if ctx.tier == "quick" else 2400)
    try:
        if hasattr(mod, "setup"):
            mod.setup(ctx)
        for item in queue(items, w, ctr):
            if time.time() - t0 > cap:
                ctx.n["stopped_by_wall_cap"] = 1
                break
            ctx.item = item
            try:
                mod.run(item, ctx)
            except (AttributeError, TypeError, ValueError, LookupError, AssertionError, RecursionError,
                    UnicodeError, SyntaxError):
                # (never on the unchanged tree) the result lacks what every report has
                ctx.violation("result cannot be examined: " + traceback.format_exc()[-1500:])
            done += 1
            if done % 500 == 0:
                gc.collect()
            if ctx.stop:
                break
    except BaseException:
        err = "item %r\n%s" % (ctx.item, traceback.format_exc())
    out = pickle.dumps({"n": ctx.n, "seen": ctx.seen, "samples": ctx.samples,
                        "viol": ctx.viol, "cases": ctx.cases, "items": done, "err": err})
    with os.fdopen(fd, "wb") as f:
        f.write(out)
    os._exit(0)


def run_check(mod, tier, seed, only=None):
    t0 = time.time()
    prop = mod.PROPERTY
    import warnings
    warnings.simplefilter("ignore")
    import jpylyzer.jpylyzer  # noqa: the code under test, before forking
    here = os.path.realpath(jpylyzer.jpylyzer.__file__)
    if not here.startswith(PKG):
        print("ERROR: code under test imported from %s, not %s" % (here, PKG))
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    items = [only] if only is not None else list(mod.items(tier, seed))
    items.sort(key=lambda x: x[0] != "x")   # the long ones first
    ctr = multiprocessing.Value("i", 0)
    procs = []
    try:
        for w in range(min(NWORK, len(items))):
            rfd, wfd = os.pipe()
            d = os.path.join(scratch, "w%d" % w)
            os.mkdir(d)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                ctx = Ctx(prop, tier, seed, d)
                ctx.replay = only is not None
                _child(mod, items, w, ctx, wfd, ctr)
            os.close(wfd)
            procs.append((pid, rfd))
        res, died = [], []
        for pid, rfd in procs:
            with os.fdopen(rfd, "rb") as f:
                raw = f.read()
            _, st = os.waitpid(pid, 0)
            if raw:
                res.append(pickle.loads(raw))
            else:
                died.append(st)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    n, seen, samples, viol, cases, done = Counter(), {}, [], [], 0, 0
    errs = []
    for r in res:
        n += r["n"]
        for k, v in r["seen"].items():
            seen.setdefault(k, set()).update(v)
        samples += r["samples"]
        viol += r["viol"]
        cases += r["cases"]
        done += r["items"]
        if r["err"]:
            errs.append(r["err"])
    code = 0
    if viol:
        code = 1
    elif errs or died:
        code = 2
    known = [] if only is not None else run_known(prop)
    for line in known:
        print(line)
    if only is None:
        write_evidence(mod, tier, seed, n, seen, samples, viol, cases, done, len(items),
                       time.time() - t0)
    if code == 0 and only is None:
        gaps = mod.gaps(n, seen) if hasattr(mod, "gaps") else []
        if not cases or not seen.get("signature"):
            gaps = list(gaps) + ["nothing observed"]
        if gaps:
            print("INCONCLUSIVE property=%s monitors not reached: %s" % (prop, gaps))
            code = 2
    for e in errs[:2]:
        print("ERROR in worker:", e)
    if died:
        print("ERROR: worker died with status", died)
    for i, v in enumerate(viol[:3]):
        path = save_replay(prop, tier, seed, i, v) if only is None else "-"
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + v["msg"])
    print("%s %s seed=%d: %d items, %d analyses, %d distinct report signatures, "
          "%d violation(s), %.1f s" % (prop, tier, seed, done, cases,
                                       len(seen.get("signature", ())), len(viol),
                                       time.time() - t0))
    return code


def run_known(prop):
    try:
        import known
    except ImportError:
        return []
    return known.check(prop)


def save_replay(prop, tier, seed, i, v):
    d = os.path.join(VERIF, "evidence", "replay", "%s-%d" % (prop, i))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for name, data in v["files"].items():
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
    with open(os.path.join(d, "case.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "item": v["item"],
                   "message": v["msg"], "info": {k: str(x) for k, x in v["info"].items()},
                   "replay_cmd": "/opt/venv/bin/python -B check.py %s --replay %s" % (
                       prop, os.path.join(d, "case.json"))}, f, indent=1)
    return os.path.join(d, "case.json")


def write_evidence(mod, tier, seed, n, seen, samples, viol, cases, done, total, wall):
    cov = {
        "evaluations": cases,
        "distinct_nontrivial": len(seen.get("signature", ())),
        "rule": getattr(mod, "RULE", "distinct reports: set of (test, outcome) pairs together "
                                     "with the set of reported property tags"),
        "samples": samples[:20] or ["none"],
        "work_items_done": done,
        "work_items_planned": total,
        "counters": {k: n[k] for k in sorted(n)},
        "distinct_observed": {k: len(v) for k, v in sorted(seen.items())},
    }
    for k in ("tests_true", "tests_false"):
        if k in seen:
            cov[k] = sorted(seen[k])
    ev = {"property": mod.PROPERTY, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "wall_s": round(wall, 2), "violations": len(viol),
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    p = os.path.join(VERIF, "evidence")
    os.makedirs(p, exist_ok=True)
    tmp = os.path.join(p, ".%s.tmp" % mod.PROPERTY)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(p, mod.PROPERTY + ".json"))
