"""C08: multi-phase compilation runs each phase in order and lifts its code.

Every layout of a few top-level items over the phases 0..3 is compiled and run for real, and the sequence of everything
that happens - dialect stages, macro expansions, executed statements, each with the phase it happens in - is compared
with a reference model of extraction and lifting.
"""
import ast
import builtins
import contextlib
import importlib
import io
import itertools
import os
import shutil
import sys

from .proc import ChildDied, forked, plain

LEVEL = "model_checking"
RULE = ("every sequence of up to 3 (thorough: 4) top-level items x phase 0..3 of each, items: logged statement, macro definition, self-macro-import and use, external macro and use, dialect-import, annotated function, "
        "statement depending on `__phase__`, failing statement; x future import statements (none, one, several, with several names each) and docstring x position of the import that requests phases x imported from disk / run at run time from text or AST / expanded only; "
        "every misplaced or malformed form of `with phase` at every place; compared: the full log, the final namespace, the docstring, the table of loaded modules, the parent package")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 200
ASSUMPTIONS = ["a phase that no block declares, below the highest one, is compiled too, of the lifted code alone"]

KINDS = "SMUXDACRG"
# S logged statement; M macro definition; U self-import + use; X external macro; D dialect; A annotated function;
# C statement of one phase only; R failure in one phase only; G a use without an import of its own


FUTURES = [["from __future__ import annotations"],
           ["from __future__ import division", "from __future__ import generators", "from __future__ import annotations"],
           ["from __future__ import annotations, division", "from __future__ import nested_scopes as scopes"],
           ["from __future__ import division", "from __future__ import (generators, nested_scopes, annotations as later)", "from __future__ import with_statement"]]


def item_lines(i, kind, p):
    if kind == "S":
        return [f"v{i} = {i}", f"log('S', {i}, __phase__, here())"]
    if kind == "M":
        return [f"def m(tree, **kw):", f"    log('expand', {i}, __phase__, atexp())", f"    return ast.Constant(value=('m', {i}, __phase__))", f"log('M', {i}, __phase__)"]
    if kind == "U":
        return ["from __self__ import macros, m", f"log('U', {i}, __phase__, m[{i}])"]
    if kind == "X":
        return ["from c08_mac import macros, e", f"log('X', {i}, __phase__, e[{i}])"]
    if kind == "D":
        return [f"from c08_dia import dialects, D{i}", f"log('D', {i}, __phase__)"]
    if kind == "A":
        return [f"def f{i}(x: nosuchname):", "    pass", f"log('A', {i}, __phase__, f{i}.__annotations__['x'])"]
    if kind == "C":
        return [f"if __phase__ == {max(p - 1, 0)}:", f"    log('C', {i}, __phase__)"]
    if kind == "R":
        return [f"if __phase__ == {max(p - 1, 0)}:", "    raise ValueError('R')"]
    if kind == "G":
        return [f"log('G', {i}, __phase__, m[{i}])"]


class Layout:
    def __init__(self, items, doc=False, future=False, header="first", debug=False):
        self.items, self.doc, self.future, self.header, self.debug = items, doc, future, header, debug

    def source(self):
        out = []
        if self.doc:
            out.append("'''The docstring.'''")
        if self.future:
            out += FUTURES[self.future - 1]
        req = ["from mcpyrate.multiphase import macros, phase"]
        if self.debug:
            req.append("from mcpyrate.debug import macros, step_phases")
        if self.header == "first":
            out += req
        for i, (k, p) in enumerate(self.items):
            if self.header == "middle" and i == 1:
                out += req
            lines = item_lines(i, k, p)
            if p:
                out.append(f"with phase[{p}]:")
                lines = ["    " + x for x in lines]
            out += lines
        if self.header == "last" or self.header == "middle" and len(self.items) < 2:
            out += req
        return "\n".join(out) + "\n"


class Stop(Exception):
    pass


def model(lay):
    """(log, error type name or None)"""
    log = []
    n = max(p for k, p in lay.items)
    items = list(enumerate(lay.items))
    temp = {}
    try:
        for ph in range(n, -1, -1):
            prog = [(i, k, p) for i, (k, p) in items if p >= ph]
            if not prog and ph:
                continue
            # dialects: AST stage
            ds = [i for i, k, p in prog if k == "D"]
            tags = [(k, i) for i, k, p in prog if k != "R"]
            for d in ds:
                log.append(("ast", d, tags))
            # macro-imports bind for the whole phase; the definitions come from the phase before
            bound = {}
            for i, k, p in prog:
                if k == "U":
                    if "m" not in temp:
                        raise Stop("ImportError")
                    bound["m"] = temp["m"]
                if k == "X":
                    bound["e"] = True
            # expansion, in source order
            value = {}
            for i, k, p in prog:
                if k in "UG" and "m" in bound:
                    d, dph = bound["m"]
                    log.append(("expand", d, dph, True))
                    value[i] = ("m", d, dph)
                if k == "X":
                    log.append(("external", i))
                    value[i] = ("e", i)
            for d in ds:
                log.append(("post", d, tags))
            # execution
            for i, k, p in prog:
                one = max(p - 1, 0)
                if k == "S":
                    log.append(("S", i, ph, True))
                elif k == "M":
                    log.append(("M", i, ph))
                    temp["m"] = (i, ph)
                elif k in "UX":
                    log.append((k, i, ph, value[i]))
                elif k == "D":
                    log.append(("D", i, ph))
                elif k == "A":
                    if not lay.future:
                        raise Stop("NameError")
                    log.append(("A", i, ph, "nosuchname"))
                elif k == "C" and ph == one:
                    log.append(("C", i, ph))
                elif k == "R" and ph == one:
                    raise Stop("ValueError")
                elif k == "G":
                    if i not in value:
                        # a plain name at run time
                        raise Stop("TypeError" if any(x[1] == "M" and x[0] < i for x in prog) else "NameError" if "m" not in temp or ph == 0 else "TypeError")
                    log.append(("G", i, ph, value[i]))
    except Stop as e:
        return log, e.args[0]
    return log, None


MAC = """import ast, builtins
def e(tree, **kw):
    builtins.MCLOG.append(('external', tree.value))
    return ast.Constant(value=('e', tree.value))
"""

DIA = """import ast, builtins
from mcpyrate.dialects import Dialect
def tags(tree):
    return [(x.args[0].value, x.args[1].value) for x in ast.walk(tree)
            if type(x) is ast.Call and type(x.func) is ast.Name and x.func.id == 'log' and type(x.args[0]) is ast.Constant and x.args[0].value in list('SMUXDACG')]
class Base(Dialect):
    def transform_ast(self, tree):
        builtins.MCLOG.append(('ast', self.n, sorted(tags(tree), key=lambda x: x[1])))
        return tree
    def postprocess_ast(self, tree):
        builtins.MCLOG.append(('post', self.n, sorted(tags(tree), key=lambda x: x[1])))
        return tree
""" + "".join(f"class D{i}(Base):\n    n = {i}\n" for i in range(6))


def install(d):
    for n, s in (("c08_mac", MAC), ("c08_dia", DIA)):
        with open(os.path.join(d, n + ".py"), "w") as f:
            f.write(s)
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    builtins.MCLOG = []

    def log(*a):
        builtins.MCLOG.append(a)

    def here():
        """Is the module that runs the one visible under its name?"""
        g = sys._getframe(1).f_globals
        return sys.modules[g["__name__"]].__dict__ is g

    def atexp():
        """Is the module that defines the running macro visible under its name?"""
        g = sys._getframe(1).f_globals
        return sys.modules[g["__name__"]].__dict__ is g
    builtins.log, builtins.here, builtins.atexp, builtins.ast = log, here, atexp, ast
    import __future__  # noqa: F401
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import c08_dia  # noqa: F401
    import c08_mac  # noqa: F401
    return mcpyrate.compiler


def errname(e):
    seen = []
    while e is not None:
        seen.append(type(e).__name__)
        e = e.__cause__ or e.__context__
    return seen


def child(d, jobs):
    """Each job: (name, source, mode)."""
    compiler = install(d)
    import c08_pkg
    out = []
    for name, src, mode in jobs:
        builtins.MCLOG.clear()
        importlib.invalidate_caches()
        err = None
        ns = {}
        doc = "absent"
        module = None
        stderr = io.StringIO()
        marker = object()
        c08_pkg.__dict__.pop("inner", None)
        before = None
        try:
            with contextlib.redirect_stderr(stderr):
                if mode == "import":
                    with open(os.path.join(d, name + ".py"), "w") as f:
                        f.write(src)
                    before = dict(sys.modules)
                    module = importlib.import_module(name)
                elif mode in ("text", "ast"):
                    made = compiler.create_module(name, filename=os.path.join(d, name + ".py"))
                    before = dict(sys.modules)
                    module = compiler.run(src if mode == "text" else ast.parse(src), made)
                    if module is not made:
                        err = ["other module"]
                elif mode in ("pkg", "fresh"):
                    # not in sys.modules, or another version there
                    c08_pkg.inner = marker
                    name = "c08_pkg.inner"
                    if mode == "pkg":
                        old = type(sys)("c08_pkg.inner")
                        sys.modules[name] = old
                    before = dict(sys.modules)
                    code = compiler.compile(src, os.path.join(d, "inner.py"), self_module=name)
                    after = dict(sys.modules)
                    if c08_pkg.inner is not marker:
                        err = ["the parent package was changed"]
                    builtins.MCLOG.append(("compiled", before == after))
                    module = type(sys)(name)
                    sys.modules[name] = module
                    exec(code, module.__dict__)
        except BaseException as e:
            err = errname(e) if not isinstance(e, RecursionError) else ["RecursionError"]
        after = dict(sys.modules)
        if module is not None:
            ns = sorted(k for k in vars(module) if k[0] in "vf" and k[1:].isdigit() or k == "m")
            doc = module.__doc__
            ph = getattr(module, "__phase__", None)
        else:
            ph = None
        if err and module is None or mode in ("text", "ast"):
            pass
        else:
            # the finished module itself
            same_module = after.get(name) is module
            after.pop(name, None)
            if mode == "pkg":
                before.pop(name)
            if not same_module:
                after["other module under the name"] = name
        same = sorted(k for k in {*before, *after} if before.get(k) is not after.get(k) and not k.startswith("encodings."))
        sys.modules.pop(name, None)
        out.append((list(builtins.MCLOG), err, ns, doc, ph, same, plain(stderr.getvalue())))
        with contextlib.suppress(OSError):
            os.unlink(os.path.join(d, name + ".py"))
    return out


BAD = ["with phase[0]:", "with phase[-1]:", "with phase[x]:", "with phase[1, 2]:", "with phase['1']:", "with phase[1] as y:", "with phase[1], phase[2]:", "with phase[1.0]:", "with phase:", "with phase[2 - 1]:", "with phase[()]:",
       "with phase[None]:", "with phase(1):", "with phase(0):"]
PLACES = {
    "if": "if True:\n    {0}\n        log('bad')\n",
    "else": "if False: pass\nelse:\n    {0}\n        log('bad')\n",
    "def": "def ff():\n    {0}\n        log('bad')\nff()\n",
    "class": "class CC:\n    {0}\n        log('bad')\n",
    "try": "try:\n    {0}\n        log('bad')\nfinally: pass\n",
    "for": "for i in (1,):\n    {0}\n        log('bad')\n",
    "with": "import contextlib\nwith contextlib.suppress(ZeroDivisionError):\n    {0}\n        log('bad')\n",
    "phase1": "with phase[1]:\n    {0}\n        log('bad')\n",
    "phasedef": "with phase[2]:\n    def f():\n        {0}\n            log('bad')\n",
    "phase2": "with phase[2]:\n    {0}\n        log('bad')\n",
}
OTHER = ["x = phase[1]", "phase[1]", "@phase[1]\ndef g(): pass", "@phase[1]\nclass g: pass", "phase[1](2)", "print(step_phases)", "step_phases[1]", "with step_phases:\n    pass", "async def g():\n    async with phase[1]: pass"]


def wrong(tier):
    """(source, what): must be an error, before anything of the module runs in phase 0."""
    head = "from mcpyrate.multiphase import macros, phase\nfrom mcpyrate.debug import macros, step_phases\n"
    good = "with phase[1]:\n    log('good', __phase__)\n"
    for b in BAD:
        for pre in ("", good):
            for post in ("", "log('after')\n"):
                yield head + pre + b + "\n    log('bad')\n" + post, b
    for n, p in PLACES.items():
        for b in ("with phase[1]:", "with phase[2]:", "with phase[3]:") + (tuple(BAD) if tier != "quick" else ()):
            for pre in ("", good):
                yield head + pre + p.format(b), n + " " + b
    for o in OTHER[:-1]:
        for pre in ("", good):
            yield head + pre + o + "\n", o
    yield good + "\n", "no request"
    yield "import mcpyrate.multiphase as phase\n" + good, "no request"


def wrongs(ctx, part, tier):
    d = os.path.join(os.getcwd(), "c08")
    shutil.rmtree(d, ignore_errors=True)
    prepare(d)
    try:
        todo = [x for j, x in enumerate(wrong(tier)) if j % 8 == part]
        jobs = [(f"c08_w{i}", s, mode) for i, (s, w) in enumerate(todo) for mode in ("import", "text", "fresh")]
        try:
            res = forked(child, d, jobs, timeout=150)
        except ChildDied as e:
            ctx.fail(f"{e}")
            return
        for (name, src, mode), (log, err, ns, doc, ph, same, stderr) in zip(jobs, res):
            ctx.state((src, mode))
            ctx.step()
            w = f"{mode} of:\n{src}"
            if not ctx.check(err is not None, lambda: f"{w}: no error; executed {log}"):
                continue
            if "multiphase import macros" in src:
                # inside a higher phase, nothing named `phase` is bound
                ctx.check("SyntaxError" in err or "NameError" in err and "with phase[1]:\n    with" in src or "NameError" in err and "with phase[2]:\n    with" in src, f"{w}: error is {err}")
            ctx.check(not any(x[0] in ("bad", "after") for x in log), lambda: f"{w}: executed {log}")
            ctx.equal(same, [], f"{w}: changes in the table of loaded modules")
            bad = [x for x in log if x[0] == "good" and x[1] == 0]
            ctx.check(not bad, lambda: f"{w}: executed {log}")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def prepare(d):
    os.makedirs(os.path.join(d, "c08_pkg"))
    with open(os.path.join(d, "c08_pkg", "__init__.py"), "w") as f:
        f.write("")


def layouts(tier):
    """(layout args, mode)"""
    deep = tier != "quick"
    every = [(k, p) for k in KINDS for p in range(4)]
    few = [(k, p) for k in "SMU" for p in range(3)] + [("X", 1), ("D", 1), ("D", 0), ("G", 0), ("G", 1), ("R", 1), ("C", 2)]
    ok = lambda items: any(p for k, p in items)
    futs = (0, 1, 2, 3, 0, 4) if not deep else (0, 1, 2, 3, 4)
    pre = [(doc, fut, h, dbg) for doc in (False, True) for fut in futs for h in ("first", "last", "middle") for dbg in (False, True)]
    modes = ("import", "text", "ast", "pkg", "fresh")
    n = 0
    for items in itertools.chain(((a,) for a in every), itertools.product(every, repeat=2)):
        n += 1
        if len(items) == 1 or deep:
            for x in pre:
                for m in modes:
                    yield items, x, m
        else:
            for j, x in enumerate(pre[n % 5::5]):
                yield items, x, modes[(n + j) % 5]
    for items in itertools.product(every if deep else few, every if deep else few, every if deep else few):
        n += 1
        if deep:
            yield items, pre[n % len(pre)], modes[n % 5]
            yield items, (False, 1, "first", False), "import"
        else:
            yield items, pre[(n * 7) % len(pre)], modes[n % 5]
    if deep:
        core = [("S", 0), ("S", 1), ("M", 1), ("M", 2), ("M", 3), ("U", 0), ("U", 1), ("U", 2), ("G", 0), ("D", 1), ("R", 1)]
        for items in itertools.product(core, repeat=4):
            n += 1
            yield items, pre[(n * 7) % len(pre)], modes[n % 5]


PARTS = {"quick": 64, "thorough": 512}


def cases(tier):
    for p in range(8):
        yield {"kind": "wrong", "part": p, "tier": tier}
    for p in range(PARTS[tier]):
        yield {"kind": "lay", "part": p, "tier": tier}


def go(case, ctx):
    d = os.path.join(os.getcwd(), "c08")
    shutil.rmtree(d, ignore_errors=True)
    prepare(d)
    todo = [x for j, x in enumerate(layouts(case["tier"])) if j % PARTS[case["tier"]] == case["part"]]
    lays = [(Layout(list(items), *pre), mode) for items, pre, mode in todo]
    # without any block there is nothing to check here but that it works as ever
    jobs = [(f"c08_u{i}", lay.source(), mode) for i, (lay, mode) in enumerate(lays)]
    try:
        try:
            res = forked(child, d, jobs, timeout=180)
        except ChildDied as e:
            ctx.fail(f"{e}")
            return
        for (lay, mode), (name, src, _), got in zip(lays, jobs, res):
            check(lay, mode, src, got, ctx)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(lay, mode, src, got, ctx):
    log, err, ns, doc, ph, same, stderr = got
    ctx.state((lay.items, lay.doc, lay.future, lay.header, lay.debug, mode))
    want, werr = model(lay)
    ctx.trace(len(want))
    w = f"{mode} of:\n{src}"
    compiled = [x for x in log if x[0] == "compiled"]
    log = [x for x in log if x[0] != "compiled"]
    for c in compiled:
        ctx.check(c[1], f"{w}: compiling left a change in the table of loaded modules")
    if mode in ("pkg", "fresh"):
        pass
    ctx.equal([tuple(x) for x in log], want, f"{w}: what ran")
    if werr is None:
        ctx.check(err is None, f"{w}: fails: {err}")
        if err is None:
            names = sorted({f"v{i}" for i, (k, p) in enumerate(lay.items) if k == "S"} | {f"f{i}" for i, (k, p) in enumerate(lay.items) if k == "A"} | {"m" for k, p in lay.items if k == "M"})
            ctx.equal(ns, names, f"{w}: names defined")
            ctx.equal(ph, 0, f"{w}: `__phase__` of the finished module")
            ctx.equal(doc, "The docstring." if lay.doc else None, f"{w}: docstring")
            ctx.equal(same, [], f"{w}: changes in the table of loaded modules")
            if lay.debug:
                n = max(p for k, p in lay.items)
                heads = [x for x in range(4) if f"PHASE {x}" in stderr]
                ctx.equal(heads, list(range(n + 1)), f"{w}: phases shown")
    else:
        ctx.check(err is not None and werr in err, f"{w}: expected {werr}, got {err}")
        ctx.equal(same, [], f"{w}: changes in the table of loaded modules (failed compile)")


def run_case(case, ctx):
    if case["kind"] == "wrong":
        wrongs(ctx, case["part"], case["tier"])
    else:
        go(case, ctx)
