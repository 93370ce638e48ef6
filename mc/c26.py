"""C26: the bytecode cache cleaner, on real directory trees in a scratch directory, with files vanishing meanwhile.

Containment: the workers drop to an unprivileged user where they can, and an audit hook refuses (and reports) the
removal of anything outside the scratch directory, and any subprocess.
"""
import itertools
import os
import shutil
import stat
import sys

from mcpyrate.pycachecleaner import deletepycachedirs, getpycachedirs

from . import core

LEVEL = "fault_enumeration"
RULE = ("cases: directory trees built from every pair (thorough: triple) of elements (caches with every kind of content, look-alike names, files and links named as a cache, links to directories, loops) placed at 4 depths, x way of naming the root; "
        "faults: before each single file system operation of the cleaner, its target vanishes; comparison: exactly the cache directories listed and gone, everything else byte-identical, second run is a no-op")
BUDGET = {"quick": 600, "thorough": 3000}
SCRATCH = [None]
HOOK = {"on": False, "events": [], "vanish": None, "escaped": []}


def target(path, dir_fd):
    path = os.fsdecode(path)
    if dir_fd is not None and dir_fd != -1 and not os.path.isabs(path):
        path = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"), path)
    path = os.path.abspath(path)  # also removes a final "/." or "/"
    return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))


def hook(event, args):
    if not HOOK["on"]:
        return
    if event in ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty"):
        HOOK["escaped"].append((event, repr(args)))
        raise PermissionError("refused by the check: " + event)
    if event in ("os.remove", "os.rmdir", "os.rename", "os.truncate", "shutil.rmtree", "os.chmod", "os.chown"):
        p = target(args[0], args[-1] if isinstance(args[-1], int) and event not in ("os.truncate",) else None)
        if event == "shutil.rmtree":
            p = target(args[0], args[1] if len(args) > 1 else None)
        if not (p + "/").startswith(SCRATCH[0] + "/"):
            HOOK["escaped"].append((event, p))
            raise PermissionError("refused by the check: " + event + " " + p)
        if event not in ("os.remove", "os.rmdir"):
            return
    elif event in ("os.scandir", "os.listdir"):
        if isinstance(args[0], int):
            return
        p = target(args[0] if args[0] is not None else ".", None)
        if not (p + "/").startswith(SCRATCH[0] + "/"):
            return
    else:
        return
    k = len(HOOK["events"])
    HOOK["events"].append((event, p))
    if HOOK["vanish"] == k:
        HOOK["on"] = False
        try:
            wipe(p)
        finally:
            HOOK["on"] = True


def wipe(p):
    try:
        if os.path.islink(p) or not os.path.isdir(p):
            os.unlink(p)
        else:
            shutil.rmtree(p)
    except FileNotFoundError:
        pass


def setup():
    d = os.path.join(os.getcwd(), "scratch")
    os.makedirs(d, exist_ok=True)
    if os.getuid() == 0:
        try:
            os.chmod(core.TMP, 0o777)
            os.chmod(os.getcwd(), 0o777)
            os.chown(d, 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            pass
    SCRATCH[0] = os.path.realpath(d)
    sys.addaudithook(hook)


def w(p, text="data"):
    with open(p, "w") as f:
        f.write(text)


def cache(d, content):
    d = os.path.join(d, "__pycache__")
    os.mkdir(d)
    content(d)


def c_files(d):
    w(d + "/a.cpython-312.pyc")
    w(d + "/not a pyc.txt")
    w(d + "/.hidden")


def c_nested(d):
    w(d + "/a.pyc")
    os.makedirs(d + "/sub/deep")
    w(d + "/sub/deep/x.pyc")
    w(d + "/sub/y")
    os.mkdir(d + "/empty")


def c_self(d):
    os.mkdir(d + "/__pycache__")
    w(d + "/__pycache__/a.pyc")
    os.makedirs(d + "/s/__pycache__")


def c_links(d):
    os.symlink(OUT + "/file", d + "/link to file")
    os.symlink(OUT + "/nowhere", d + "/dangling")


def c_dirlink(d):
    os.symlink(OUT, d + "/link to dir")
    w(d + "/a.pyc")


def c_deepdirlink(d):
    os.mkdir(d + "/sub")
    os.symlink(OUT + "/dir", d + "/sub/link")


def c_cachelink(d):
    os.symlink(OUT + "/__pycache__", d + "/__pycache__")


def c_readonly(d):
    w(d + "/ro.pyc")
    os.chmod(d + "/ro.pyc", 0o444)
    os.mkfifo(d + "/fifo")


OUT = "../../out"  # replaced by an absolute path per tree
ELEMENTS = {
    "empty": lambda d: cache(d, lambda c: None),
    "files": lambda d: cache(d, c_files),
    "nested": lambda d: cache(d, c_nested),
    "self": lambda d: cache(d, c_self),
    "links": lambda d: cache(d, c_links),
    "dirlink": lambda d: cache(d, c_dirlink),
    "deepdirlink": lambda d: cache(d, c_deepdirlink),
    "cachelink": lambda d: cache(d, c_cachelink),
    "readonly": lambda d: cache(d, c_readonly),
    "cachefile": lambda d: w(d + "/__pycache__"),
    "cachesym": lambda d: os.symlink(OUT + "/__pycache__", d + "/__pycache__"),
    "cachesymdir": lambda d: os.symlink(OUT + "/dir", d + "/__pycache__"),
    "cachedangling": lambda d: os.symlink(OUT + "/nowhere", d + "/__pycache__"),
    "lookalike": lambda d: (os.makedirs(d + "/x__pycache__"), os.makedirs(d + "/__pycache__x", exist_ok=True), os.makedirs(d + "/__PYCACHE__"), os.makedirs(d + "/pycache"), os.makedirs(d + "/__pycache__.d"), w(d + "/__pycache__x/a.pyc"), w(d + "/x__pycache__/b.pyc")),
    "incache": lambda d: (os.makedirs(d + "/__pycache__ /__pycache__"), w(d + "/__pycache__ /a"), w(d + "/__pycache__ /__pycache__/a.pyc")),
    "pyc": lambda d: (w(d + "/a.pyc"), w(d + "/a.py"), w(d + "/.pyc")),
    "hidden": lambda d: (os.makedirs(d + "/.hid/__pycache__"), w(d + "/.hid/__pycache__/a.pyc"), w(d + "/.hid/keep")),
    "odd": lambda d: (os.makedirs(d + "/od\nd é dir/__pycache__"), w(d + "/od\nd é dir/__pycache__/a b.pyc")),
    "dirsym": lambda d: os.symlink(OUT, d + "/linkdir"),
    "loop": lambda d: os.symlink(".", d + "/loop"),
    "uploop": lambda d: os.symlink("..", d + "/uploop"),
}
PLACES = ["", "pkg", "pkg/sub/deep", "__pycache__x"]
ROOTS = ["abs", "rel", "dot", "slash"]


def cases(tier):
    el = [(p, e) for p in range(len(PLACES)) for e in ELEMENTS]
    combos = [()] + [(a,) for a in el]
    for a, b in itertools.combinations(el, 2):
        if clash(a, b):
            continue
        combos.append((a, b))
    if tier == "thorough":
        for c in itertools.combinations(el, 3):
            if any(clash(a, b) for a, b in itertools.combinations(c, 2)):
                continue
            combos.append(c)
    for i in range(0, len(combos), 20):
        yield ["trees", combos[i:i + 20]]
    yield ["errors"]


CACHES = {"empty", "files", "nested", "self", "links", "dirlink", "deepdirlink", "cachelink", "readonly", "cachefile", "cachesym", "cachesymdir", "cachedangling"}


def clash(a, b):
    return a[0] == b[0] and a[1] in CACHES and b[1] in CACHES


def snapshot(d):
    out = {}
    def rec(p, rel):
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            out[rel] = ("link", os.readlink(p))
        elif stat.S_ISDIR(st.st_mode):
            out[rel] = ("dir", stat.S_IMODE(st.st_mode))
            for n in sorted(os.listdir(p)):
                rec(p + "/" + n, rel + "/" + n)
        elif stat.S_ISREG(st.st_mode):
            with open(p) as f:
                out[rel] = ("file", stat.S_IMODE(st.st_mode), f.read())
        else:
            out[rel] = ("other", st.st_mode)
    rec(d, "")
    return out


def make(combo, n):
    global OUT
    base = os.path.join(SCRATCH[0], f"t{n}")
    wipe(base)
    os.makedirs(base + "/out/dir")
    os.makedirs(base + "/out/__pycache__")
    w(base + "/out/file")
    w(base + "/out/dir/f")
    w(base + "/out/__pycache__/keep.pyc")
    os.mkdir(base + "/out/dir/__pycache__")
    w(base + "/out/dir/__pycache__/keep.pyc")
    OUT = base + "/out"
    os.makedirs(base + "/root")
    for p in PLACES[1:]:
        os.makedirs(base + "/root/" + p, exist_ok=True)
    for p, e in combo:
        ELEMENTS[e](os.path.join(base, "root", PLACES[p]))
    return base


def expected(snap):
    """paths of the cache directories below the root, and the snapshot after cleaning"""
    caches = [r for r, v in snap.items() if v[0] == "dir" and r.rsplit("/", 1)[-1] == "__pycache__" and r.startswith("/root/")]
    after = {r: v for r, v in snap.items() if not any(r == c or r.startswith(c + "/") for c in caches)}
    return caches, after


def name(base, how):
    if how == "abs":
        return base + "/root"
    if how == "slash":
        return base + "/root/"
    if how == "rel":
        os.chdir(base)
        return "root"
    os.chdir(base + "/root")
    return "."


def attempt(f, path, vanish=None):
    HOOK.update(on=True, events=[], vanish=vanish, escaped=[])
    try:
        return f(path), None
    except Exception as err:
        return None, err
    finally:
        HOOK["on"] = False


def run_case(case, ctx):
    home = os.getcwd()
    try:
        if case[0] == "errors":
            run_errors(ctx)
        else:
            for i, combo in enumerate(case[1]):
                for how in (ROOTS if len(combo) < 2 else ("abs",)):
                    if not one(combo, how, ctx):
                        return
    finally:
        os.chdir(home)
        wipe(os.path.join(SCRATCH[0], "t0"))


def one(combo, how, ctx):
    base = make(combo, 0)
    before = snapshot(base)
    caches, after = expected(before)
    what = f"tree {[(PLACES[p] or '.', e) for p, e in combo]} root named {how}"
    path = name(base, how)
    ctx.state(tuple(sorted(before.items())))
    got, err = attempt(getpycachedirs, path)
    ctx.step()
    if not ctx.check(err is None, what + f": listing failed: {err!r}"):
        return False
    real = sorted(os.path.join(os.path.realpath(os.path.dirname(g)), os.path.basename(g)) for g in got)
    ok = ctx.check(real == sorted(base + c for c in caches), lambda: what + f": listed {sorted(got)}, want {sorted(base + c for c in caches)}")
    ok = ok and ctx.check(all(g.startswith(path) for g in got), what + ": a listed path does not start with the given path")
    ok = ok and ctx.check(snapshot(base) == before and not HOOK["escaped"], what + ": listing changed something")
    if not ok:
        return False
    _, err = attempt(deletepycachedirs, path)
    ctx.step()
    events = list(HOOK["events"])
    ctx.outcome(len(events))
    ok = ctx.check(not HOOK["escaped"], what + f": tried to delete outside: {HOOK['escaped']}")
    ok = ok and ctx.check(err is None, what + f": cleaning failed: {err!r}")
    ok = ok and compare(ctx, snapshot(base), after, what + ": after cleaning")
    if not ok:
        return False
    _, err = attempt(deletepycachedirs, path)
    ok = ctx.check(err is None and not HOOK["escaped"], what + f": second cleaning failed: {err!r} {HOOK['escaped']}") and compare(ctx, snapshot(base), after, what + ": after a second cleaning")
    if not ok:
        return False
    if len(combo) > 1 and how != "abs":
        return True
    # faults: the target of the k-th operation vanishes just before it
    vanishable = [k for k, (e, p) in enumerate(events)]
    for k in vanishable:
        if os.path.realpath(events[k][1]) == os.path.realpath(base + "/root"):
            continue
        base = make(combo, 0)
        path = name(base, how)
        _, err = attempt(deletepycachedirs, path, vanish=k)
        ctx.step()
        gone = events[k][1]
        relgone = gone[len(base):]
        want = {r: v for r, v in after.items() if not (r == relgone or r.startswith(relgone + "/"))}
        fault = what + f": {relgone} vanishes just before operation {k} ({events[k][0]})"
        ctx.state((tuple(sorted(before.items())), k))
        ok = ctx.check(err is None and not HOOK["escaped"], fault + f": cleaning failed: {err!r} {HOOK['escaped']}") and compare(ctx, snapshot(base), want, fault)
        if not ok:
            return False
    return True


def compare(ctx, got, want, what):
    ctx.trace()
    return ctx.check(got == want, lambda: f"{what}: left over {sorted(set(got) - set(want))}, lost {sorted(set(want) - set(got))}, changed {[k for k in got if k in want and got[k] != want[k]]}")


def run_errors(ctx):
    base = make((), 0)
    os.mkdir(base + "/root/__pycache__")
    w(base + "/root/__pycache__/a.pyc")
    w(base + "/root/file")
    os.symlink(base + "/nowhere", base + "/root/dangling")
    before = snapshot(base)
    for p in (base + "/root/file", base + "/nowhere", base + "/root/dangling", "", base + "/root/__pycache__/a.pyc", base + "/root/file/x"):
        for f in (getpycachedirs, deletepycachedirs):
            _, err = attempt(f, p)
            ctx.step()
            ctx.check(isinstance(err, OSError) and not HOOK["escaped"], f"{f.__name__}({p!r}): {err!r}, want an OSError")
            compare(ctx, snapshot(base), before, f"{f.__name__}({p!r})")
    # a cache directory itself as the root: only caches below it
    _, err = attempt(deletepycachedirs, base + "/root/pkg")
    ctx.check(err is None and snapshot(base) == before, "cleaning a subdirectory touched something else")
    ctx.state("errors")
