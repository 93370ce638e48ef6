"""The explorer: enumerate every case of a check, run each on the real code, compare with the check's oracle.

A check module `mc.cNN` has

    LEVEL, RULE           for the evidence file
    cases(tier)           generator of JSON-able cases; finite, deterministic, simplest first
    run_case(case, ctx)   run the real code on `case`, compare; report through `ctx`
    BUDGET (optional)     {"quick": 600s, "thorough": s}; when it runs out, the run is reported as capped
    TIMEOUT (optional)    CPU seconds per case; a case that takes longer, or that is blocked, is a violation (no answer)
    setup() (optional)    once per worker process

The cases are divided over worker processes by index, so the set explored does not depend on the number of workers.
"""
import hashlib
import importlib
import json
import mmap
import os
import signal
import struct
import sys
import time
import traceback

from .patience import Patience

FAILFAST = bool(os.environ.get("MC_FAILFAST"))  # a development aid: stop at the first violation
TIMES = os.environ.get("MC_TIMES")  # another one: a file for the time taken by each case
HOME = os.environ.get("MC_HOME") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = os.environ.get("MC_TMP") or "/tmp"
REPO = os.environ.get("MC_REPO") or "/repo"
MAXVIOL = 3  # per worker


class CaseTimeout(BaseException):
    pass


def h64(x):
    if not isinstance(x, (str, bytes)):
        x = repr(x)
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), "little")


class Ctx:
    """What a case reports: states (canonical), transitions, comparisons with the oracle, outcomes, violations."""
    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.evaluations = 0
        self.outcomes = set()
        self.nontrivial = set()
        self.violations = []
        self.samples = []
        self.case = None

    def state(self, canon):
        """Record the canonical form of a state/program reached; return True if it is new (in this worker)."""
        h = h64(canon)
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.validated += n

    def outcome(self, label):
        self.outcomes.add(h64(label))

    def fail(self, msg, key=None):
        self.violations.append({"msg": str(msg), "key": key, "case": self.case})

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return cond

    def equal(self, got, want, what, key=None):
        self.validated += 1
        if got != want:
            if isinstance(got, tuple) and isinstance(want, tuple):
                from .astutil import first_diff
                self.fail(f"{what}:\n  first difference at {first_diff(got, want)}", key)
            else:
                self.fail(f"{what}:\n  got:  {got!r}\n  want: {want!r}", key)
            return False
        return True


def known_findings(prop):
    out = {}
    try:
        with open(os.path.join(HOME, "known_findings.txt"), encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=" + prop + " "):
                    rest = line.split(" ", 2)[2]
                    assert rest.startswith("key=")
                    key, _, desc = rest[4:].partition(" ")
                    out[key] = desc
    except FileNotFoundError:
        pass
    return out


def one_case(mod, case, ctx, timeout):
    ctx.case = case
    ctx.evaluations += 1
    patience = Patience(timeout, os.getpid())

    def onalarm(signum, frame):
        if patience.over():
            raise CaseTimeout()
        signal.setitimer(signal.ITIMER_REAL, patience.left())
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    began = time.time()
    try:
        mod.run_case(case, ctx)
    except CaseTimeout:
        ctx.fail(f"no answer within {timeout} s")
    except KeyboardInterrupt:
        raise
    except BaseException:
        ctx.fail("unexpected exception\n" + traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if TIMES:
        with open(TIMES, "a") as f:
            f.write(f"{mod.__name__} {time.time() - began:.2f} {json.dumps(case, default=str)[:100]}\n")
    if len(ctx.violations) == 0 and len(ctx.samples) < 2:
        ctx.samples.append(case)


def worker(mod, tier, w, n, cursor, outpath, known, deadline):
    ctx = Ctx()
    capped = None
    timeout = getattr(mod, "TIMEOUT", 60)
    total = 0
    knownseen = set()
    try:
        if hasattr(mod, "setup"):
            ctx.case = "setup"
            mod.setup()
        for i, case in enumerate(mod.cases(tier)):
            if i % n != w:
                continue
            if time.time() > deadline:
                capped = i
                break
            struct.pack_into("q", cursor, 8 * w, i)
            total += 1
            one_case(mod, case, ctx, timeout)
            for v in ctx.violations:
                if v["key"] in known:
                    knownseen.add(v["key"])
            ctx.violations = [v for v in ctx.violations if v["key"] not in known]
            if len(ctx.violations) >= MAXVIOL or ctx.violations and FAILFAST:
                break
    except BaseException:
        ctx.fail("unexpected exception in the explorer\n" + traceback.format_exc())
    data = {"states": sorted(ctx.states), "outcomes": sorted(ctx.outcomes), "nontrivial": sorted(ctx.nontrivial),
            "transitions": ctx.transitions, "validated": ctx.validated, "evaluations": ctx.evaluations,
            "violations": ctx.violations, "samples": ctx.samples, "capped": capped, "knownseen": sorted(knownseen)}
    with open(outpath + ".tmp", "w") as f:
        json.dump(data, f)
    os.rename(outpath + ".tmp", outpath)


def failed(out):
    try:
        with open(out) as f:
            return bool(json.load(f)["violations"])
    except Exception:
        return True


def nthcase(mod, tier, i):
    for j, case in enumerate(mod.cases(tier)):
        if j == i:
            return case


def write_replay(prop, k, v):
    d = os.path.join(HOME, "replays")
    try:
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{k}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": v["case"], "msg": v["msg"]}, f, indent=1)
        return path
    except OSError:
        return "-"


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    known = known_findings(prop)
    try:
        mod = importlib.import_module("mc." + prop.lower())
    except BaseException:
        path = write_replay(prop, 0, {"case": "import", "msg": traceback.format_exc()})
        traceback.print_exc()
        print(f"VIOLATION property={prop} replay={path}")
        print("  the code under test cannot be imported")
        return 1
    budget = getattr(mod, "BUDGET", {}).get(tier, 600 if tier == "quick" else 3600)
    deadline = t0 + budget
    n = min(int(os.environ.get("MC_WORKERS") or 8), getattr(mod, "WORKERS", 64))
    cursor = mmap.mmap(-1, 8 * n)
    for w in range(n):
        struct.pack_into("q", cursor, 8 * w, -1)
    sys.stdout.flush()
    sys.stderr.flush()
    pids = {}
    outs = [os.path.join(TMP, f"out-{prop}-{w}.json") for w in range(n)]
    logdir = os.path.join(TMP, "logs")
    os.makedirs(logdir, exist_ok=True)
    for w in range(n):
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.setpgid(0, 0)
                wd = os.path.join(TMP, f"work{w}")
                os.makedirs(wd, exist_ok=True)
                os.chdir(wd)
                fd = os.open(os.path.join(logdir, f"{w}.log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                nul = os.open(os.devnull, os.O_RDONLY)
                os.dup2(nul, 0)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                worker(mod, tier, w, n, cursor, outs[w], known, deadline)
                rc = 0
            finally:
                os._exit(rc)
        pids[pid] = w
    # the worker itself watches the time of a case, unless the code under test keeps it from running at all
    limit = getattr(mod, "TIMEOUT", 60)
    hard = max(deadline, t0 + 800) if tier == "quick" else deadline + 2 * limit + 30
    lastmove = {}
    stuck = set()
    slow = set()
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in pids:
            w = pids.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if FAILFAST and failed(outs[w]):
                for pid in pids:
                    os.killpg(pid, signal.SIGKILL)
                outs = [outs[w]]
                n = 1
                break
            continue
        now = time.time()
        for pid, w in list(pids.items()):
            i, = struct.unpack_from("q", cursor, 8 * w)
            if lastmove.get(w, (None, None))[0] != i:
                lastmove[w] = (i, Patience(2 * limit + 60, pid))
            elif lastmove[w][1].over() or now > hard:
                (slow if now > hard else stuck).add(w)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
        time.sleep(0.02)
    agg = {"states": set(), "outcomes": set(), "nontrivial": set(), "transitions": 0, "validated": 0, "evaluations": 0,
           "violations": [], "samples": [], "capped": [], "knownseen": set()}
    for w in range(n):
        try:
            with open(outs[w]) as f:
                d = json.load(f)
        except Exception:
            i, = struct.unpack_from("q", cursor, 8 * w)
            if w in slow:
                agg["capped"].append(max(i, 0))
                continue
            try:
                case = nthcase(mod, tier, i)
            except BaseException:
                case = None
            try:
                with open(os.path.join(logdir, f"{w}.log"), errors="replace") as f:
                    log = f.read()[-2000:]
            except OSError:
                log = ""
            agg["violations"].append({"msg": ("no answer" if w in stuck else "process died") + f" in case #{i}\n{log}", "key": None, "case": case})
            continue
        for k in ("states", "outcomes", "nontrivial", "knownseen"):
            agg[k].update(d[k])
        for k in ("transitions", "validated", "evaluations"):
            agg[k] += d[k]
        agg["violations"] += d["violations"]
        agg["samples"] += d["samples"]
        if d["capped"] is not None:
            agg["capped"].append(d["capped"])
    rc = 0
    for key in sorted(agg["knownseen"]):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    viol = agg["violations"]
    viol.sort(key=lambda v: len(json.dumps(v["case"], default=str)))
    for k, v in enumerate(viol[:5]):
        rc = 1
        path = write_replay(prop, k, v)
        print(f"VIOLATION property={prop} replay={path}")
        print("  case: " + json.dumps(v["case"], default=str)[:1500])
        for line in v["msg"].splitlines()[:40]:
            print("  " + line[:600])
    wall = time.time() - t0
    level = mod.LEVEL
    cov = {}
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = agg["evaluations"]
        cov["distinct_nontrivial"] = len(agg["states"])
        cov["rule"] = mod.RULE
        cov["comparisons_with_oracle"] = agg["validated"]
    else:
        cov["states"] = len(agg["states"])
        cov["transitions"] = agg["transitions"]
        cov["traces_validated_against_impl"] = agg["validated"]
        cov["cases"] = agg["evaluations"]
        cov["rule"] = mod.RULE
    cov["distinct_outcomes"] = len(agg["outcomes"])
    cov["samples"] = agg["samples"][:4]
    cov["exhaustive"] = not agg["capped"] and not viol
    if agg["capped"]:
        cov["cap"] = f"time budget of {budget} s: every case with index below {min(agg['capped'])} was explored"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
    with open(os.path.join(HOME, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {'VIOLATED' if rc else 'held'} cases={agg['evaluations']} states={len(agg['states'])} transitions={agg['transitions']} "
          f"compared={agg['validated']} outcomes={len(agg['outcomes'])}{' CAPPED' if agg['capped'] else ''} wall={wall:.1f}s")
    return rc


def replay(prop, path):
    mod = importlib.import_module("mc." + prop.lower())
    with open(path) as f:
        case = json.load(f)["case"]
    ctx = Ctx()
    if hasattr(mod, "setup"):
        mod.setup()
    one_case(mod, case, ctx, getattr(mod, "TIMEOUT", 60) * 10)
    for v in ctx.violations:
        print(f"VIOLATION property={prop} replay={path}")
        print(v["msg"])
    return 1 if ctx.violations else 0


if __name__ == "__main__":
    # run as the module `mc.core`, not as `__main__`, so that the checks see the same classes
    from mc import core
    prop = sys.argv[1]
    if sys.argv[2] == "--replay":
        sys.exit(core.replay(prop, sys.argv[3]))
    sys.exit(core.run(prop, sys.argv[2]))
