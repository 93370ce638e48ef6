"""C05: macro-imports bind exactly the named macros, and vanish at run time.

Every sequence of import statements over a small package tree, in modules at each level of the tree, is imported for
real (in a child process with macros enabled) and compared with a reference model of name binding.
"""
import ast
import importlib
import itertools
import os
import re
import shutil
import sys

from .proc import ChildDied, forked, plain

LEVEL = "model_checking"
RULE = ("every sequence of up to 2 (thorough: 3) statements from an alphabet of absolute, relative, renamed, overlapping, erroneous and near-miss macro-imports, x level of the importing module x placement in the module; "
        "compared: what each name expands to, names bound at run time, error type and place; and that a module without macro-imports imported next sees none; circular macro-imports of every length up to 3 (5)")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 120
ASSUMPTIONS = ["relative macro-imports beyond the top-level package, or outside any package, must be an error; which text it has is not checked"]

# module -> {macro: what it expands to}; None: not callable
TREE = {
    "top": {"a": "top.a", "b": "top.b", "notcallable": None, "part": "top.part", "inst": "top.inst", "meth": "top.meth", "lam": "top.lam"},
    "lib": {"a": "lib.a", "macros": None},
    "other": {"a": "other.a", "c": "other.c"},
    "pk": {"a": "pk.a", "c": "pk.c"},
    "pk.mac": {"a": "pk.mac.a", "b": "pk.mac.b"},
    "pk.sub": {"a": "pk.sub.a"},
    "pk.sub.mac": {"a": "pk.sub.mac.a", "d": "pk.sub.mac.d", "notcallable": None},
    "pk.sub.deep": {},
    "pk.sub.deep.mac": {"a": "pk.sub.deep.mac.a"},
}
# callables that are not plain functions
SPECIAL = """
import functools
def two(value, tree, **kw):
    return ast.Constant(value=value)
part = functools.partial(two, 'top.part')
class Inst:
    def __init__(self, v):
        self.v = v
    def __call__(self, tree, **kw):
        return ast.Constant(value=self.v)
    def meth(self, tree, **kw):
        return ast.Constant(value=self.v)
inst = Inst('top.inst')
meth = Inst('top.meth').meth
lam = lambda tree, **kw: ast.Constant(value='top.lam')
"""
PKGS = {"pk", "pk.sub", "pk.sub.deep"}
USERS = {"top": "", "pk": "pk.", "sub": "pk.sub.", "init": "pk.", "deep": "pk.sub.deep."}
NAMES = ["a", "b", "c", "d", "x", "y", "notcallable", "macros", "top", "mac", "nosuch"]

STMTS = [
    "from top import macros, a",
    "from top import macros, a as x",
    "from top import macros, a, b as a",
    "from top import macros, b as x, a as x",
    "from other import macros, a, c",
    "from pk import macros, a, c as y",
    "from pk.mac import macros, a, b",
    "from pk.sub.mac import macros, a as b, d",
    "from .mac import macros, a",
    "from ..mac import macros, b, a as y",
    "from ...top import macros, a",
    "from ...mac import macros, a as d",
    "from ....top import macros, b",
    "from top import macros, part as x, inst as y",
    "from top import macros, meth as a, lam as d",
    "from .sub.mac import macros, d",
    "from .sub import macros, a",
    "from . import macros, a",
    "from .nosuch import macros, a",
    "from nosuch import macros, a",
    "from nosuch.deep import macros, a",
    "from top.deep import macros, a",
    "from pk.nosuch import macros, a",
    "from top import macros, nosuch",
    "from top import macros, a, nosuch as x",
    "from top import macros, notcallable",
    "from .mac import macros, notcallable as x",
    "from .__self__ import macros, a",
    "from top import macros",
    "from math import macros, sqrt as y",
    "from zlib import macros, crc32 as y",
    "from nspkg import macros, a",
    # near misses
    "from top import macros as m, a",
    "from lib import macros as m, a",
    "from lib import macros as macros, a as x",
    "from lib import a, macros",
    "from other import macros as macros",
    "from top import a as x",
    "import top as a",
    "a = 'plain'",
    "from other import (macros,\n    a as b,\n    c)",
]
CORE = [STMTS.index(s) for s in ("from top import macros, a", "from top import macros, a as x", "from top import macros, a, b as a", "from other import macros, a, c", "from pk.mac import macros, a, b",
                                 "from pk.sub.mac import macros, a as b, d", "from .mac import macros, a", "from ..mac import macros, b, a as y", "from ...mac import macros, a as d",
                                 "from top import macros, meth as a, lam as d", "from .sub import macros, a", "from top import macros, nosuch", "from lib import macros as macros, a as x",
                                 "from top import a as x", "a = 'plain'")]

# where the statement is, instead of at the top level
PLACES = {
    "func": "def ff():\n    {0}\n    return 1",
    "class": "class C:\n    try:\n        {0}\n    except ImportError: pass",
    "if": "if never:\n    {0}",
    "else": "if not never: pass\nelse:\n    {0}",
    "try": "try:\n    {0}\nexcept ImportError: pass",
    "with": "import contextlib\nwith contextlib.suppress(ImportError):\n    {0}",
    "for": "for i in ():\n    {0}",
    "string": "'''\n{0}\n'''",
    "last": None,
    "aftercode": None,
}


class Err(Exception):
    pass


def resolve(level, mod, pkg):
    if not level:
        return mod
    parts = pkg.rstrip(".").split(".") if pkg.rstrip(".") else []
    if not parts or level > len(parts):
        raise Err("outside")
    base = parts[:len(parts) - (level - 1)]
    return ".".join(base + [mod])


def model(stmts, pkg):
    """Bindings name -> expansion, and the modules imported; or an error (kind, index of the statement)."""
    bound, mods = {}, []
    for i, s in enumerate(stmts):
        t = ast.parse(s).body[0]
        if not (type(t) is ast.ImportFrom and t.names[0].name == "macros" and not t.names[0].asname):
            continue
        try:
            if t.level and not pkg:
                raise Err("outside")
            if t.module is None:
                raise Err("syntax")
            if t.module == "__self__" and t.level:
                raise Err("syntax")
            m = resolve(t.level, t.module, pkg)
            if m in ("math", "zlib"):
                bound["y"] = "callable"
                mods.append(m)
                continue
            if m == "nspkg":
                raise Err("name")
            if m not in TREE:
                raise Err("module")
            for n in t.names[1:]:
                if TREE[m].get(n.name) is None:
                    raise Err("name")
                bound[n.asname or n.name] = TREE[m][n.name]
            mods.append(m)
        except Err as e:
            return ("error", e.args[0], i), None
    return bound, mods


def build(d):
    for m, macros in TREE.items():
        path = os.path.join(d, *m.split("."))
        if m in PKGS:
            os.makedirs(path, exist_ok=True)
            path = os.path.join(path, "__init__")
        with open(path + ".py", "w") as f:
            f.write("import ast\n")
            if m == "top":
                f.write(SPECIAL)
            for n, v in macros.items():
                if m == "top" and n in ("part", "inst", "meth", "lam"):
                    continue
                if v is None:
                    f.write(f"{n} = 3\n")
                else:
                    f.write(f"def {n}(tree, **kw):\n    return ast.Constant(value={v!r})\n")
    os.makedirs(os.path.join(d, "nspkg"), exist_ok=True)


def source(stmts, place):
    uses = "".join(f"def use_{n}():\n    return {n}['not expanded']\n" for n in NAMES)
    if place == "after":
        return "'''doc'''\n" + uses + "\n".join(stmts) + "\n"
    if place == "first":
        return "\n".join(stmts) + "\n" + uses
    if place == "mixed":
        return "from __future__ import annotations\nbefore = 1\n" + "\nbetween = 2\n".join(stmts) + "\n" + uses
    inner = PLACES[place].format(stmts[0].replace("\n", " "))
    return "never = False\n" + inner + "\n" + uses


def place_line(src, stmt):
    return src[:src.index(stmt)].count("\n") + 1


def child(d, jobs):
    """Import the modules, in this process."""
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    import mcpyrate.activate  # noqa: F401
    out = []
    for name in jobs:
        try:
            m = importlib.import_module(name)
        except BaseException as e:
            chain = []
            x = e
            while x is not None:
                chain.append((type(x).__name__, re.sub("\x1b\\[[0-9;]*m", "", str(x)), isinstance(x, ImportError), isinstance(x, SyntaxError)))
                x = x.__cause__ or x.__context__
            out.append(("error", chain))
            continue
        got = {}
        for n in NAMES:
            try:
                r = getattr(m, f"use_{n}")()
                got[n] = r if isinstance(r, str) else repr(type(r))
            except Exception as e:
                got[n] = ("raises", type(e).__name__)
        names = sorted(k for k in vars(m) if not k.startswith("__") and not k.startswith("use_") and k != "_mcpyrate_coverage")
        out.append(("ok", got, names, {k: getattr(vars(m)[k], "__name__", None) if type(vars(m)[k]).__name__ == "module" else "value" for k in names}))
    return out


def runtime(stmts):
    """Names that the statements, none of which is a macro-import, bind when run. (None: fail)"""
    ns = {}
    return ns


def predict(stmts, place, pkg, modname):
    """What the module must do."""
    r = model(stmts, pkg) if place in ("first", "after", "mixed") else ({}, [])
    if r[1] is None:
        # any of the wrong statements may be the one reported
        all_ = [(i, e[0]) for i, e in ((i, model([s], pkg)) for i, s in enumerate(stmts)) if e[1] is None]
        return "error", sorted({e[1] for i, e in all_}), [i for i, e in all_]
    bound, mods = r
    if bound.get("y") == "callable":
        return "error", ["use"], []
    # now the run-time part
    rt = {}
    error = None
    for s in stmts if place in ("first", "after", "mixed") else []:
        t = ast.parse(s).body[0]
        if type(t) is ast.ImportFrom and t.names[0].name == "macros" and not t.names[0].asname:
            m = resolve(t.level, t.module, pkg)
            rt[m.split(".")[0]] = "module"
        elif s == "from lib import macros as macros, a as x":
            rt["macros"] = rt["x"] = "value"
        elif s == "from lib import a, macros":
            rt["macros"] = rt["a"] = "value"
        elif "macros" in s and s != "from lib import macros as m, a":
            return ("error", ["runtime"], [])
        elif "macros" in s:
            rt["m"] = rt["a"] = "value"
        elif s.startswith("from top import a as x"):
            rt["x"] = "value"
        elif s.startswith("import top"):
            rt["a"] = "module"
        elif s.startswith("a ="):
            rt["a"] = "plain"
    return bound, rt


def check(stmts, place, user, got, want, src, fname, ctx):
    w = f"module {fname}:\n{src.split('def use_')[0] if place != 'after' else src}"
    if want[0] == "error":
        kinds, idx = want[1], want[2]
        if not ctx.check(got[0] == "error", f"{w}: no error ({kinds})"):
            return
        chain = got[1]
        if kinds == ["use"]:
            ctx.check(chain[0][0] == "MacroApplicationError", f"{w}: error is {chain[0]}")
            return
        ctx.check(any(c[2] or c[3] for c in chain), f"{w}: error is {chain[0]}")
        if "outside" not in kinds and idx:
            lines = [place_line(src, stmts[i]) for i in idx]
            texts = " ".join(c[1] for c in chain)
            ctx.check(os.path.basename(fname) in texts and any(re.search(r"\.py:%d\b" % line, texts) for line in lines), f"{w}: error does not name file and line {lines}: {texts[:500]}")
            ctx.check(any(c[3] if kinds == ["syntax"] else c[2] if "syntax" not in kinds else c[2] or c[3] for c in chain), f"{w}: {kinds}: error is {chain[0][0]}")
        return
    if not ctx.check(got[0] == "ok", lambda: f"{w}: fails: {got[1][0]}"):
        return
    bound, rt = want
    exp = {}
    for n in NAMES:
        if n in bound:
            exp[n] = bound[n] if bound[n] != "callable" else ("raises", "MacroApplicationError")
        elif n in rt:
            exp[n] = ("raises", "TypeError")
        else:
            exp[n] = ("raises", "NameError")
    g = dict(got[1])
    if "a" in rt and rt["a"] == "plain":
        exp["a"] = exp["a"] if "a" in bound else ("raises", "TypeError")
    for n in NAMES:
        ctx.equal(g[n], exp[n], f"{w}: use of {n}")
    extra = {"mixed": ["before", "between"] if len(stmts) > 1 else ["before"]}.get(place, [])
    if place == "mixed":
        extra = extra + ["annotations"]
    if place in PLACES:
        return
    ctx.equal(sorted(got[2]), sorted(set(list(rt) + extra)), f"{w}: names bound at run time")
    for k, v in rt.items():
        if v == "module" and k != "a":
            ctx.equal(got[3].get(k), k, f"{w}: module bound to {k}")


ROOT = []


def go(batch, ctx):
    """batch: list of (stmts, place, user)."""
    d = os.path.join(os.getcwd(), "c05")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    build(d)
    jobs, meta = [], []
    try:
        for i, (stmts, place, user) in enumerate(batch):
            pkg = USERS[user]
            src = source(stmts, place)
            name = pkg + f"u_{i}"
            path = os.path.join(d, *name.split(".")) + ".py"
            if user == "init":
                # the package itself is the importing module
                path = path[:-3]
                os.makedirs(path)
                path += "/__init__.py"
                pkg = name + "."
            with open(path, "w") as f:
                f.write(src)
            jobs.append(name)
            meta.append((stmts, place, user, src, path, pkg))
            if i % 7 == 0:
                # a bystander
                n2 = USERS[user] + f"plain_{i}"
                with open(os.path.join(d, *n2.split(".")) + ".py", "w") as f:
                    f.write(source([], "first"))
                jobs.append(n2)
                meta.append(([], "first", user, source([], "first"), n2 + ".py", USERS[user]))
        try:
            res = forked(child, d, jobs, timeout=100)
        except ChildDied as e:
            ctx.fail(f"importing: {e}")
            return
        for name, (stmts, place, user, src, path, pkg), got in zip(jobs, meta, res):
            ctx.state((stmts, place, user))
            ctx.step()
            check(stmts, place, user, got, predict(stmts, place, pkg, name), src, path, ctx)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def programs(tier):
    deep = tier != "quick"
    for u in USERS:
        for s in STMTS:
            for p in ("first", "after", "mixed"):
                yield [s], p, u
    for s in STMTS[:28]:
        for p in PLACES:
            if PLACES[p]:
                yield [s], p, "sub"
    for u in USERS:
        for two in itertools.product(STMTS, repeat=2):
            yield list(two), "mixed" if (STMTS.index(two[0]) + STMTS.index(two[1])) % 2 else "first", u
    for u in USERS if deep else ["sub"]:
        for three in itertools.product([STMTS[i] for i in (CORE if not deep else range(len(STMTS)))], repeat=3):
            yield list(three), "first", u


def cycle_child(d, name):
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    import mcpyrate.activate  # noqa: F401
    try:
        importlib.import_module(name)
    except BaseException as e:
        chain = []
        while e is not None:
            chain.append((isinstance(e, ImportError), plain(e)[:2000]))
            e = e.__cause__ or e.__context__
        return chain
    return None


def cycle(n, tail, where, ctx):
    """`tail` modules, the last of which macro-imports from the first of a cycle of n modules."""
    d = os.path.join(os.getcwd(), "c05")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "cy"))
    mods = [f"t{i}" for i in range(tail)] + [f"c{i}" for i in range(n)]
    try:
        for i, m in enumerate(mods):
            target = mods[i + 1] if i + 1 < len(mods) else mods[tail]
            rel = f"from .{target}" if where == "package" else f"from {target}"
            with open(os.path.join(d, "cy" if where == "package" else "", m + ".py"), "w") as f:
                f.write(f"import ast\n{rel} import macros, f\ndef f(tree, **kw):\n    return tree\n")
        if where == "package":
            with open(os.path.join(d, "cy", "__init__.py"), "w"):
                pass
        got = forked(cycle_child, d, ("cy." if where == "package" else "") + mods[0], timeout=60)
        w = f"circular macro-imports {mods} ({where})"
        ctx.state((n, tail, where))
        ctx.step()
        if ctx.check(got is not None, f"{w}: no error"):
            ctx.check(any(imp and re.search(r"c\d\.py:2\b", text) for imp, text in got), f"{w}: no import error names the file and line: {got[:3]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cases(tier):
    for n in range(1, 4 if tier == "quick" else 6):
        for tail in range(3):
            for where in ("top", "package"):
                yield ["cycle", n, tail, where]
    batch = []
    for p in programs(tier):
        batch.append(p)
        if len(batch) == 40:
            yield batch
            batch = []
    if batch:
        yield batch


def run_case(case, ctx):
    if case[0] == "cycle":
        cycle(*case[1:], ctx)
    else:
        go(case, ctx)
