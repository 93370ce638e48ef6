"""C06: importing a module always reflects the current macro definitions; cached bytecode is used when it may be.

Explicit-state exploration of a project on disk: a state is every file with its time stamp, caches included (time stamps by
rank). Transitions edit a file, import a module in a fresh process with macros enabled (writing bytecode or not), or delete a
cache file. They run for real; after each import the module's value, the macro and dialect runs, and the reported time stamps
are compared with a model that knows only the sources. The same for sessions: one process, in which everything is reloaded after edits.
"""
import itertools
import os

from . import disk
from .disk import Disk, Zygote
from .projects import PROJECTS

LEVEL = "model_checking"
RULE = ("projects (chain of macro modules, dialect, packages, phases, quotes) x every history of edits, imports in fresh processes (bytecode writing on/off), and deletions of caches, to a depth, "
        "states identified by file contents and order of time stamps; all histories of edits and reloads within one process; compared: value of the module, macro and dialect runs, reported time stamps")
BUDGET = {"quick": 600, "thorough": 6000}
TIMEOUT = 1500
ASSUMPTIONS = ["each edit gives the file a time stamp one second later than any before, and later than those of mcpyrate's own files",
               "a fresh process is a fork of a process that has imported only mcpyrate; every 50th import also runs in a new Python process and is compared"]
DEPTH = {"quick": 5, "thorough": 7}
LIMIT = {"quick": 10**9, "thorough": 10**9}
Z = None


def setup():
    global Z
    Z = Zygote(os.getcwd())


def operations(pr):
    ops = []
    for p, vs in pr.files.items():
        for v in vs:
            if len(vs) > 1:
                ops.append(("edit", p, v))
    for m in pr.modules:
        ops.append(("import", m, True))
        ops.append(("import", m, False))
    for p in pr.files:
        if len(pr.files[p]) > 1:
            ops.append(("delete", p, ".pyc"))
            ops.append(("delete", p, ".pickle"))
    ops.append(("touch", next(iter(pr.modules.values())), None))
    return ops


def cases(tier):
    for name, pr in PROJECTS.items():
        for write in (True, False):
            for i in range(len(edits(pr))):
                yield {"session": name, "write": write, "first": i, "length": 3 if tier == "quick" else 5}
    for name, pr in PROJECTS.items():
        ops = operations(pr)
        # the first step: an import (a history without caches is no history)
        for i, op in enumerate(ops):
            if op[0] == "import" and op[2]:
                for j, op2 in enumerate(ops):
                    yield [name, [i, j], DEPTH[tier]]


def edits(pr):
    return [(p, v) for p, vs in pr.files.items() if len(vs) > 1 for v in vs]


def session(case, ctx):
    """One process: import, then every sequence of edits and reloads (of all the loaded modules, dependencies first) that begins with a certain edit and ends with a reload."""
    pr = PROJECTS[case["session"]]
    dsk = Disk(os.path.join(os.getcwd(), "proj"))
    begin = start(pr, int(Z.newest) + 10)
    top = next(iter(pr.modules))
    names = [p[:-3].replace("/__init__", "").replace("/", ".") for p in reversed(list(pr.files))]
    for rest in itertools.product([None] + edits(pr), repeat=case["length"] - 1):
        seq = [edits(pr)[case["first"]], *rest, None]
        c, src, t = dict(begin.c), dict(begin.src), begin.clock
        ops, wants = [], []
        for o in seq:
            if o is None:
                if ops and ops[-1][0] == "reload":
                    break
                ops.append(("reload", names))
                wants.append((dict(c), dict(src)))
            else:
                if c[o[0]] == o[1]:
                    break
                t += 1
                c[o[0]], src[o[0]] = o[1], t
                ops.append(("write", o[0], pr.files[o[0]][o[1]].encode(), t * 10**9))
                wants.append(None)
        else:
            w = f"project {pr.name}, in one process: import {top}, then {' '.join('reload' if o is None else f'edit({o[0]},{o[1]})' for o in seq)} (bytecode {'' if case['write'] else 'not '}written)"
            dsk.restore(begin.files)
            dsk.dirty()
            out = Z.run(root=dsk.root, modules=[top], write=case["write"], stats=list(pr.files), session=ops)
            if not ctx.equal(out["results"][top], ("ok", pr.expect(top, begin.c)), f"{w}: value of {top}"):
                return
            for got, want in zip(out["session"], wants):
                if want is None:
                    continue
                c1, src1 = want
                for m, p in pr.modules.items():
                    if m in got[0]:
                        if not ctx.equal(got[0][m], ("ok", pr.expect(m, c1)), f"{w}: value of {m}"):
                            return
                for p in pr.files:
                    ctx.equal(got[1][p], float(max(src1[x] for x in pr.closure(p, c1))), f"{w}: time stamp reported for {p}")
            ctx.state((pr.name, case["write"], seq))
            ctx.step(len(seq))
            ctx.trace(1)


class Node:
    __slots__ = ("files", "c", "src", "clean", "clock", "hist")

    def __init__(self, files, c, src, clean, clock, hist):
        self.files, self.c, self.src, self.clean, self.clock, self.hist = files, c, src, clean, clock, hist


def start(pr, base):
    files, src = {}, {}
    t = base
    for p, vs in pr.files.items():
        t += 1
        files[p] = (next(iter(vs.values())).encode(), t * 10**9)
        src[p] = t
    return Node(files, pr.initial(), src, frozenset(), t, ())


def canon(node, root):
    cs = disk.cachestate(node.files, root)
    times = set(node.src.values())
    disk.find_times(cs, times)
    rank = {t: i for i, t in enumerate(sorted(times))}
    return (tuple(sorted(node.c.items())), tuple((p, rank[t]) for p, t in sorted(node.src.items())), disk.canon_times(cs, rank), tuple(sorted(node.clean)))


def mentions(pr, path):
    """Does the cache file `path` belong to source file p?"""
    d, f = os.path.split(path)
    if os.path.basename(d) != "__pycache__":
        return None
    stem = f.split(".", 1)[0]
    src = os.path.join(os.path.dirname(d), stem + ".py")
    return src if src in pr.files else None


def apply(pr, dsk, node, op, ctx):
    """Returns the successor, or None (not enabled, or same)."""
    kind, a, b = op
    hist = node.hist + (op,)
    if kind == "edit":
        if node.c[a] == b:
            return None
        t = node.clock + 1
        files = dict(node.files)
        files[a] = (pr.files[a][b].encode(), t * 10**9)
        # whoever depends on it is no longer known to be cached
        clean = frozenset(p for p in node.clean if a not in pr.closure(p, node.c))
        return Node(files, dict(node.c, **{a: b}), dict(node.src, **{a: t}), clean, t, hist)
    if kind == "touch":
        t = node.clock + 1
        files = dict(node.files)
        files[a] = (files[a][0], t * 10**9)
        clean = frozenset(p for p in node.clean if a not in pr.closure(p, node.c))
        return Node(files, node.c, dict(node.src, **{a: t}), clean, t, hist)
    if kind == "delete":
        gone = [p for p in node.files if mentions(pr, p) == a and p.endswith(b)]
        if not gone:
            return None
        files = {p: v for p, v in node.files.items() if p not in gone}
        return Node(files, node.c, node.src, node.clean - {a} if b == ".pyc" else node.clean, node.clock, hist)
    dsk.restore(node.files)
    req = dict(root=dsk.root, modules=[a], write=b, stats=list(pr.files))
    dsk.dirty()
    out = Z.run(**req)
    files = dsk.read()
    ctx.step()
    w = f"project {pr.name}: after {' '.join(short(o) for o in hist)}"
    want = ("ok", pr.expect(a, node.c))
    if not ctx.equal(out["results"][a], want, f"{w}: value of {a}"):
        return None
    ctx.outcome((a, want))
    for p in pr.files:
        newest = max(node.src[x] for x in pr.closure(p, node.c))
        ctx.equal(out["stats"][p], float(newest), f"{w}: time stamp reported for {p}")
    # no macro or dialect ran for a module whose bytecode is up to date
    ran = sorted({os.path.relpath(x[1], dsk.root) for x in out["log"]})
    for p in ran:
        ctx.check(p not in node.clean, f"{w}: macros or dialects ran for {p}, although its bytecode is up to date: {out['log']}")
    for p, v in node.files.items():
        if p in pr.files:
            ctx.check(files.get(p) == v, f"{w}: source file {p} modified")
    if not b:
        ctx.check(set(files) == set(node.files) and all(files[p][0] == node.files[p][0] for p in files), f"{w}: files changed, although no bytecode is to be written: {sorted(set(files) ^ set(node.files))}")
    clean = node.clean
    if b:
        # the module, and (if it was compiled or run) the modules it imported, are now cached
        clean = clean | pr.closure(pr.modules[a], node.c)
    return Node(files, node.c, node.src, frozenset(clean), node.clock, hist)


def short(o):
    return f"{o[0]}({o[1]}" + (f",{o[2]}" if o[2] is not None else "") + ")"


def run_case(case, ctx):
    if isinstance(case, dict):
        return session(case, ctx)
    name, first, depth = case
    pr = PROJECTS[name]
    ops = operations(pr)
    dsk = Disk(os.path.join(os.getcwd(), "proj"))
    node = start(pr, int(Z.newest) + 10)
    for i in first:
        n = apply(pr, dsk, node, ops[i], ctx)
        if n is None:
            return
        node = n
    seen = {canon(node, dsk.root)}
    ctx.state((name, min(seen)))
    frontier = [node]
    count = 0
    for d in range(depth - len(first)):
        nxt = []
        for node in frontier:
            for op in ops:
                n = apply(pr, dsk, node, op, ctx)
                if len(ctx.violations) > 2:
                    return
                if n is None:
                    continue
                if op[0] == "import":
                    count += 1
                    if count % 50 == 1:
                        dsk.restore(node.files)
                        dsk.dirty()
                        new = Z.fresh(root=dsk.root, modules=[op[1]], write=op[2], stats=list(pr.files))
                        got = dsk.read()
                        ctx.equal(new["results"][op[1]], ("ok", pr.expect(op[1], node.c)), f"{' '.join(short(o) for o in n.hist)}: in a new Python process")
                        m = Node(got, node.c, node.src, n.clean, n.clock, n.hist)
                        ctx.check(canon(m, dsk.root) == canon(n, dsk.root), lambda: f"{' '.join(short(o) for o in n.hist)}: files differ between a forked and a new process")
                k = canon(n, dsk.root)
                if k in seen:
                    continue
                seen.add(k)
                ctx.state((name, k))
                nxt.append(n)
        frontier = nxt
