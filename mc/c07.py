"""C07: crashes while writing caches, failing writes and reads, and damaged cache files never change an import.

Every file system operation that an import makes below the project directory is a crash point (process killed before it,
after it, or having written only a part), and a fault point (it fails, once or from then on). Every state so reached, and
every damaged state of the cache files, is followed by every continuation: import, or an edit of any file and import.
"""
import errno
import os
import pickle
import re
import shutil

from . import c06, disk
from .c06 import Node, start
from .disk import Disk, Zygote
from .projects import PROJECTS

LEVEL = "fault_enumeration"
RULE = ("project x cache state before (none, complete, stale after each edit) x each file system operation of the import x (killed before, after, at each prefix class of a write; failing once or from then on with each errno), "
        "and every prefix and every kind of foreign content of each cache file; x continuation (none, edit of each file); compared: the module's value now and in the following processes, that the caches end up as if nothing had happened, and that nothing is then expanded again")
BUDGET = {"quick": 600, "thorough": 6000}
TIMEOUT = 600
ASSUMPTIONS = ["a file system operation is a call to open (for writing), write, close, rename, unlink or mkdir, observed below Python by interposition",
               "bytecode files longer than their header are read by Python itself, which does not detect damage in them; only damage that Python writes (none, its writes are atomic) or detects is enumerated for them",
               "foreign data in the macro-import cache: contents of another structure; a cache of the right structure and time stamp with wrong import statements cannot be recognized",
               "temporary files that Python itself leaves behind when killed are removed before the next import: their name is an address, which in a forked process would repeat"]
Z = None
ERR = [errno.ENOSPC, errno.EACCES, errno.EIO, errno.EROFS]
PARTS = [0, 1, 16, 100, -1]


def setup():
    global Z
    Z = Zygote(os.getcwd(), shim=True)
    c06.Z = Z


def importop(pr, dsk, node, mod, write=True, fault=None):
    dsk.restore(node.files)
    dsk.dirty()
    req = dict(root=dsk.root, modules=[mod], write=write)
    if fault:
        req["fault"] = fault
    out = Z.run(**req)
    files = dsk.read()
    if fault:
        # Python's own temporary file, named by an address, which in this setup (not in general) would be the same again
        files = {p: v for p, v in files.items() if not re.search(r"\.pyc\.\d+$", p)}
    return out, Node(files, node.c, node.src, node.clean, node.clock, node.hist + (("import", mod, fault),))


def edit(pr, node, p, v):
    t = node.clock + 1
    files = dict(node.files)
    files[p] = (pr.files[p][v].encode(), t * 10**9)
    return Node(files, dict(node.c, **{p: v}), dict(node.src, **{p: t}), node.clean, t, node.hist + (("edit", p, v),))


def caches(files):
    """Canonical caches, without left-over temporary files."""
    return tuple(x for x in disk.cachestate(files, "") if x[0].endswith(".pyc") or x[0].endswith(".pickle"))


def settle(pr, dsk, node, mod, ctx, what):
    """Import until the caches do not change any more. Each value must be right; at the end, nothing is expanded."""
    want = ("ok", pr.expect(mod, node.c))
    out = None
    for i in range(4):
        before = caches(node.files)
        out, node = importop(pr, dsk, node, mod)
        ctx.step()
        if "exit" in out:
            ctx.fail(f"{what}: import {i + 1} after it: the process died ({out['exit']})")
            return None
        if not ctx.equal(out["results"][mod], want, f"{what}: value of {mod} at import {i + 1} after it"):
            return None
        if i >= 1:
            ctx.check(not out["log"], f"{what}: macros or dialects run again at import {i + 1} after it: {out['log']}")
        if caches(node.files) == before:
            break
    return node


REF = {}


def reference(pr, dsk, node, mod, ctx):
    """Caches after importing with no caches at all, from the same sources."""
    key = (pr.name, mod, tuple(sorted(node.c.items())), tuple(sorted(node.src.items())))
    if key not in REF:
        files = {p: v for p, v in node.files.items() if p in pr.files}
        n = settle(pr, dsk, Node(files, node.c, node.src, frozenset(), node.clock, ()), mod, ctx, "without caches")
        REF[key] = caches(n.files) if n else None
    return REF[key]


def follow(pr, dsk, node, mod, ctx, what, edits):
    """After the fault: the next imports; also if a file is edited before."""
    for e in [None] + edits:
        n, w = node, what
        if e:
            n, w = edit(pr, node, *e), f"{what}; then edit {e[0]} to {e[1]}"
        ref = reference(pr, dsk, n, mod, ctx)
        end = settle(pr, dsk, n, mod, ctx, w)
        if end is None:
            return False
        ctx.state((pr.name, mod, w))
        got = caches(end.files)
        if ref is not None:
            # the cache of the module itself, and whatever was cached without faults, is there again
            gd = {x[0]: x for x in got}
            for x in ref:
                if not ctx.check(gd.get(x[0]) == x, lambda: f"{w}: cache {x[0]} not repaired: {gd.get(x[0])} instead of {x}"):
                    return False
    return True


def edits_of(pr, node, mod):
    """One edit of each file that the module depends on."""
    out = []
    for p in sorted(pr.closure(pr.modules[mod], node.c)):
        for v in pr.files[p]:
            if v != node.c[p]:
                out.append([p, v])
                break
    return out


def before_states(pr, dsk, mod, ctx):
    """(label, node): cache states in which the import happens."""
    n0 = start(pr, int(Z.newest) + 10)
    yield "no caches", n0
    _, n1 = importop(pr, dsk, n0, mod)
    yield "caches of one import", n1
    _, n2 = importop(pr, dsk, n1, mod)
    yield "complete caches", n2
    for p, v in edits_of(pr, n2, mod):
        yield f"caches before an edit of {p}", edit(pr, n2, p, v)


def foreign(own, files, path):
    """Contents for a cache file."""
    d = None
    try:
        d = pickle.loads(own)
    except Exception:
        pass
    out = [b"", b"\0", b"garbage\n", b"\x80", b".", b"N.", own + b"x", own + own, own[::-1], b"import os\n", pickle.dumps(None), pickle.dumps([]), pickle.dumps({}), pickle.dumps(3), pickle.dumps("x" * 5000),
           b"cnosuchmodule\nnosuch\n.", b"cbuiltins\nnosuch\n.", b"(lp0\n"]
    for p, v in files.items():
        if p != path and (p.endswith(".pickle") or p.endswith(".pyc")):
            out.append(v[0])
    if isinstance(d, dict):
        for k in list(d):
            x = dict(d)
            del x[k]
            out.append(pickle.dumps(x))
            for bad in (None, 3, "x"):
                x = dict(d)
                x[k] = bad
                if k == "has_relative_macroimports":
                    continue
                out.append(pickle.dumps(x))
            out.append(pickle.dumps({k: d[k]}))
        out.append(pickle.dumps(list(d.values())))
        out.append(pickle.dumps({"version": 2, "data": d}))
        for pr in range(pickle.HIGHEST_PROTOCOL + 1):
            out.append(pickle.dumps({"st_mtime_ns": d.get("st_mtime_ns")}, protocol=pr))
    return out


def cases(tier):
    deep = tier != "quick"
    for name, pr in PROJECTS.items():
        for mod in pr.modules:
            if mod != next(iter(pr.modules)) and not deep:
                continue
            nstates = 3 + len(edits_of(pr, start(pr, 0), mod))
            for s in range(nstates):
                for kind in ("kill", "part", "fail", "failread", "failall"):
                    yield [name, mod, s, kind, deep]
                if deep or s == 0 and name in ("chain", "dialect"):
                    yield [name, mod, s, "kill2", deep]
            for s in (1, 2):
                for part in range(16):
                    yield [name, mod, s, "prefix", deep, part, 16]
            for s in (1, 2) if deep else (2,):
                for part in range(8):
                    yield [name, mod, s, "foreign", deep, part, 8]
                yield [name, mod, s, "shape", deep]


def run_case(case, ctx):
    name, mod, s, kind, deep = case[:5]
    pr = PROJECTS[name]
    dsk = Disk(os.path.join(os.getcwd(), "proj"))
    node = label = None
    for i, (lab, n) in enumerate(before_states(pr, dsk, mod, ctx)):
        if i == s:
            node, label = n, lab
            break
    eds = edits_of(pr, node, mod)
    w = f"project {name}, import {mod}, {label}"
    want = ("ok", pr.expect(mod, node.c))
    if kind == "prefix" or kind == "foreign":
        j = 0
        for p in sorted(node.files):
            if p in pr.files:
                continue
            data, t = node.files[p]
            if kind == "prefix":
                alts = [data[:k] for k in range(len(data) if p.endswith(".pickle") else min(16, len(data)))]
            elif p.endswith(".pickle"):
                alts = foreign(data, node.files, p)
            else:
                alts = [b"", b"\0" * 16, b"garbage", b"\xcb\r\r\n", data[:4] + b"\0" * 12, b"\0\0\0\0" + data[4:], data[:8] + b"\0\0\0\0" + data[12:]]
            for k, a in enumerate(alts):
                j += 1
                if j % case[6] != case[5]:
                    continue
                files = dict(node.files)
                files[p] = (a, t)
                n = Node(files, node.c, node.src, node.clean, node.clock, node.hist)
                what = f"{w}: {p} " + (f"truncated to {k} of {len(data)} bytes" if kind == "prefix" else f"holds {a[:200]!r}")
                some = eds if deep or kind == "foreign" or k % 8 == 0 else []
                if not follow(pr, dsk, n, mod, ctx, what, some):
                    return
        return
    if kind == "shape":
        # something else than a file at the place of a cache file, or of the cache directory
        for p in sorted(node.files):
            if p in pr.files:
                continue
            full = os.path.join(dsk.root, p)
            for how in ("dir", "dangling", "loop", "link") if p.endswith(".pickle") else ():
                dsk.restore(node.files)
                os.remove(full)
                if how == "dir":
                    os.mkdir(full)
                else:
                    os.symlink({"dangling": "/nonexistent/file", "loop": full, "link": os.path.join(dsk.root, "elsewhere")}[how], full)
                dsk.dirty()
                for k in range(2):
                    out = Z.run(root=dsk.root, modules=[mod], write=True)
                    ctx.step()
                    ctx.equal(out["results"][mod], want, f"{w}: {p} is a {how}: value at import {k + 1}")
                ctx.state((name, p, how))
                shutil.rmtree(dsk.root)
                os.mkdir(dsk.root)
                dsk.current = {}
        for how in ("file", "dangling"):
            src = {p: v for p, v in node.files.items() if p in pr.files}
            dsk.restore(src)
            for d in {os.path.dirname(p) for p in src}:
                c = os.path.join(dsk.root, d, "__pycache__")
                if how == "file":
                    with open(c, "w"):
                        pass
                else:
                    os.symlink("/nonexistent/dir", c)
            dsk.dirty()
            for k in range(2):
                out = Z.run(root=dsk.root, modules=[mod], write=True)
                ctx.step()
                ctx.equal(out["results"][mod], want, f"{w}: __pycache__ is a {how}: value at import {k + 1}")
            ctx.state((name, "pycache", how))
            shutil.rmtree(dsk.root)
            os.mkdir(dsk.root)
            dsk.current = {}
        return
    reads = 1 if kind in ("failread", "failall") else 0
    out, _ = importop(pr, dsk, node, mod, fault=[-1, 0, 0, reads])
    ops = out["ops"]
    log = out["oplog"].splitlines()
    ctx.equal(out["results"][mod], want, f"{w}: value")
    if kind in ("kill", "part"):
        for at in range(ops):
            if kind == "kill":
                faults = [[at, 1, 0, 0], [at, 2, 1 << 30, 0]] if at == ops - 1 or log[at].startswith("write") else [[at, 1, 0, 0]]
            elif log[at].startswith("write"):
                faults = [[at, 2, k, 0] for k in PARTS]
            else:
                continue
            for f in faults:
                out, n = importop(pr, dsk, node, mod, fault=f)
                what = f"{w}: killed at operation {at} ({log[at]}), {f[1:3]}"
                ctx.check("exit" in out and out["exit"] == 77, f"{what}: not killed: {out}")
                ctx.outcome(log[at].split()[0])
                if not follow(pr, dsk, n, mod, ctx, what, eds if kind == "kill" or deep else []):
                    return
    elif kind in ("fail", "failread", "failall"):
        for at in range(ops):
            if kind == "failread" and not log[at].startswith(("openr", "read")):
                continue
            if kind == "fail" and log[at].startswith(("openr", "read")):
                continue
            for e in ERR if deep else ERR[:2] if kind == "fail" else ERR[::3]:
                out, n = importop(pr, dsk, node, mod, fault=[at, 4 if kind == "failall" else 3, e, reads])
                what = f"{w}: operation {at} ({log[at]}) fails with {errno.errorcode[e]}{' and all later ones' if kind == 'failall' else ''}"
                if not ctx.check("exit" not in out, f"{what}: process died: {out}"):
                    return
                if not ctx.equal(out["results"][mod], want, f"{what}: value"):
                    return
                ctx.outcome((log[at].split()[0], e))
                ctx.state((name, mod, what))
                if not follow(pr, dsk, n, mod, ctx, what, eds if deep else []):
                    return
    elif kind == "kill2":
        for at in range(ops):
            out, n = importop(pr, dsk, node, mod, fault=[at, 1, 0, 0])
            if "exit" not in out:
                continue
            out2, _ = importop(pr, dsk, n, mod, fault=[-1, 0, 0, 0])
            log2 = out2["oplog"].splitlines()
            for at2 in range(out2["ops"]):
                for f in [[at2, 1, 0, 0]] + ([[at2, 2, k, 0] for k in PARTS] if log2[at2].startswith("write") else []):
                    out3, n3 = importop(pr, dsk, n, mod, fault=f)
                    if not follow(pr, dsk, n3, mod, ctx, f"{w}: killed at operation {at} ({log[at]}), then at {at2} ({log2[at2]}) {f[1:3]}", eds if deep else []):
                        return
