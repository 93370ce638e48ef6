"""C09: dialects transform a module in the documented order, each exactly once.

The dialects of a small library behave, at each stage, as a table says. Every table over a set of behaviours x every
layout of dialect-imports x every form of the source is expanded for real; the log of all stages (what each saw, in
which instance, for which line) and the result are compared with a reference model of the documented algorithm.
"""
import ast
import builtins
import contextlib
import importlib
import io
import itertools
import os
import re
import shutil
import sys

from .proc import ChildDied, forked, plain

LEVEL = "model_checking"
RULE = ("every behaviour (absent, declines, passes, edits, drops or adds dialect-imports, raises, empty result) of the source, AST and post-processing stage of one dialect, every pair of behaviours of two dialects at a stage (thorough: every pair at two stages, triples at one), "
        "x layouts of 1-3 dialect-imports (repeated, several names, absolute and relative, wrong names, each place in the module) x source as file, text, bytes, tree and list, with and without the stepper; "
        "compared: the log of stages with the content seen, instances and lines, the resulting module, the error and what it names")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 200
ASSUMPTIONS = ["text that only looks like a dialect-import (in a string) and unusual white space inside a dialect-import are left open"]

SRC = ["none", "decline", "pass", "edit", "prepend", "dropself", "dropB", "injfirst", "injlast", "raise", "empty", "noresult"]
AST = ["none", "decline", "pass", "edit", "new", "dropB", "injfirst", "injlast", "raise", "noresult", "emptylist"]
POST = ["none", "decline", "pass", "edit", "raise", "noresult"]
INJ = "from c09_dia import dialects, C"
DIM = re.compile(r"^from\s+([.\w]+)\s+import dialects, (.*)$")


class Failure(Exception):
    def __init__(self, kind, names, line=None):
        self.kind, self.names, self.line = kind, names, line


def mentions(line, name):
    m = DIM.match(line)
    return bool(m) and name in [x.strip() for x in m.group(2).split(",")]


# ---------------------------------------------------------------------------------------------------------------
# the reference

class Inst:
    count = 0

    def __init__(self, name, mod):
        Inst.count += 1
        self.name, self.mod, self.id = name, mod, Inst.count


REAL = {"A", "B", "C", "N"}
WRONG = {"fn", "cls"}


class Model:
    def __init__(self, lines, conf, mode, pkg=""):
        self.lines, self.conf, self.mode, self.pkg = list(lines), conf, mode, pkg
        self.log, self.shown = [], []
        self.step, self.debug = 0, False

    def stage(self, name, stage):
        return self.conf.get(name, {}).get(stage, "none")

    def names(self, stmt, line):
        """Absolute module and names; failure if they cannot be bound."""
        m = DIM.match(stmt)
        mod = m.group(1)
        if mod.startswith("."):
            mod = self.pkg + "." + mod[1:]
        if mod in ("c09_nosuch",):
            raise Failure("ImportError", [mod], line)
        names = [x.strip() for x in m.group(2).split(",")]
        for n in names:
            if " as " in n:
                raise Failure("any", [], line)
        for n in names:
            if n not in REAL | WRONG | {"StepExpansion"}:
                raise Failure("ImportError", [n], line)
        return mod, names

    def make(self, mod, n):
        if n in WRONG:
            raise Failure("TypeError", [n])
        i = Inst(n, mod)
        if n == "StepExpansion":
            return i
        if self.stage(n, "init") == "raise":
            raise Failure("ImportError", [n])
        return i

    def took(self, mod, n, method):
        self.step += 1
        if self.debug:
            self.shown.append((f"{mod}.{n}.{method}", self.step))

    def source(self):
        seen = set()
        while True:
            for k, line in enumerate(self.lines):
                if DIM.match(line) and line not in seen:
                    break
            else:
                return
            seen.add(line)
            mod, names = self.names(line, k + 1)
            for n in names:
                inst = self.make(mod, n)
                if n == "StepExpansion":
                    self.debug = True
                    self.took(mod, n, "transform_source")
                    continue
                if n == "N":
                    continue
                how = self.stage(n, "source")
                if how == "none":
                    continue
                self.log.append(("source", n, inst.id, k + 1, 0, tuple(self.lines)))
                if how == "decline":
                    continue
                if how in ("raise", "empty", "noresult"):
                    raise Failure("ImportError", [n, "transform_source"])
                self.lines = edit_lines(self.lines, n, how)
                self.took(mod, n, "transform_source")

    def asts(self):
        """self.body: list of (text, lineno)"""
        self.instances = []
        while True:
            for k, (line, no) in enumerate(self.body):
                if DIM.match(line):
                    break
            else:
                return
            mod, names = self.names(line, no)
            self.body[k] = (f"import {mod}", no)
            for n in names:
                inst = self.make(mod, n)
                self.instances.append(inst)
                if n == "StepExpansion":
                    if not self.debug:
                        self.debug = True
                        self.took(mod, n, "transform_ast")
                    continue
                if n == "N":
                    continue
                how = self.stage(n, "ast")
                if how == "none":
                    continue
                self.log.append(("ast", n, inst.id, no, 0, tuple(x for x, _ in self.body)))
                if how == "decline":
                    continue
                if how in ("raise", "noresult", "emptylist"):
                    raise Failure("ImportError", [n, "transform_ast"])
                self.body = edit_body(self.body, n, how)
                self.took(mod, n, "transform_ast")

    def post(self):
        for inst in self.instances:
            n = inst.name
            if n in ("StepExpansion", "N"):
                continue
            how = self.stage(n, "post")
            if how == "none":
                continue
            self.log.append(("post", n, inst.id, None, None, tuple(x for x, _ in self.body)))
            if how == "decline":
                continue
            if how in ("raise", "noresult"):
                raise Failure("ImportError", [n, "postprocess_ast"])
            if how == "edit":
                self.body = self.body + [(f"p_{n} = 1", 1)]
            self.took(inst.mod, n, "postprocess_ast")

    def run(self):
        Inst.count = 0
        try:
            if self.mode not in ("tree", "list"):
                self.source()
            text = [x for x in self.lines]
            self.body = [(x, i + 1) for i, x in enumerate(text) if not x.startswith("#") and x]
            self.asts()
            for i, (x, no) in enumerate(self.body):
                if "mac[" in x:
                    self.log.append(("expand", int(re.search(r"mac\[(\d+)\]", x).group(1))))
                    x = re.sub(r"mac\[(\d+)\]", lambda m: str(100 + int(m.group(1))), x)
                elif x.startswith("from c09_mac import macros"):
                    x = "import c09_mac"
                self.body[i] = (x, no)
            self.post()
        except Failure as e:
            return ("error", e.kind, e.names, e.line)
        return ("ok", [x for x, _ in self.body])


def edit_lines(lines, n, how):
    if how == "edit":
        return lines + [f"s_{n} = 1"]
    if how == "prepend":
        return [f"s0_{n} = 1"] + lines
    if how == "dropself":
        return [x for x in lines if not mentions(x, n)]
    if how == "dropB":
        return [x for x in lines if not mentions(x, "B")]
    if how == "injfirst":
        return [INJ] + lines
    if how == "injlast":
        return lines + [INJ]
    return lines


def edit_body(body, n, how):
    if how == "edit":
        return body + [(f"a_{n} = mac[2]", 1)]
    if how == "dropB":
        return [x for x in body if not mentions(x[0], "B")]
    if how == "injfirst":
        return [(INJ, 1)] + body
    if how == "injlast":
        return body + [(INJ, 1)]
    return body


# ---------------------------------------------------------------------------------------------------------------
# the real thing

DIA = '''import ast, builtins
from mcpyrate.dialects import Dialect
from mc.c09 import edit_lines, edit_body, INJ
def show(tree):
    return tuple(ast.unparse(s) for s in tree.body)
class Base(Dialect):
    def __init__(self, expander):
        super().__init__(expander)
        if builtins.MCCONF.get(type(self).__name__, {}).get("init") == "raise":
            raise ValueError("init")
    def how(self, stage):
        return builtins.MCCONF.get(type(self).__name__, {}).get(stage, "none")
    def transform_source(self, text):
        how, n = self.how("source"), type(self).__name__
        if how == "none":
            return super().transform_source(text)
        builtins.MCLOG.append(("source", n, self, self.lineno, self.col_offset, tuple(text.split("\\n")[:-1]), self.expander.filename))
        if how == "decline":
            return NotImplemented
        if how == "raise":
            raise ValueError("source")
        if how == "empty":
            return ""
        if how == "noresult":
            return None
        return "\\n".join(edit_lines(text.split("\\n")[:-1], n, how)) + "\\n"
    def transform_ast(self, tree):
        how, n = self.how("ast"), type(self).__name__
        if how == "none":
            return super().transform_ast(tree)
        builtins.MCLOG.append(("ast", n, self, self.lineno, self.col_offset, show(tree), self.expander.filename))
        if how == "decline":
            return NotImplemented
        if how == "raise":
            raise ValueError("ast")
        if how == "noresult":
            return None
        if how == "emptylist":
            return []
        body = edit_body([(ast.unparse(s), s) for s in tree.body], n, how)
        body = [s if isinstance(s, ast.AST) else ast.parse(t).body[0] for t, s in body]
        if how == "new":
            return ast.Module(body=body, type_ignores=[])
        tree.body = body
        return tree
    def postprocess_ast(self, tree):
        how, n = self.how("post"), type(self).__name__
        if how == "none":
            return super().postprocess_ast(tree)
        builtins.MCLOG.append(("post", n, self, None, None, show(tree), self.expander.filename))
        if how == "decline":
            return NotImplemented
        if how == "raise":
            raise ValueError("post")
        if how == "noresult":
            return None
        if how == "edit":
            tree.body = tree.body + ast.parse(f"p_{n} = 1").body
        return tree
class A(Base): pass
class B(Base): pass
class C(Base): pass
class N(Dialect): pass
class cls: pass
def fn(*a): pass
num = 3
'''
MAC = """import ast, builtins
def mac(tree, **kw):
    builtins.MCLOG.append(('expand', tree.value))
    return ast.copy_location(ast.Constant(value=100 + tree.value), tree)
"""


def prepare(d):
    os.makedirs(os.path.join(d, "c09_pkg"))
    for n, s in (("c09_dia", DIA), ("c09_mac", MAC), ("c09_pkg/__init__", ""), ("c09_pkg/dia", "from c09_dia import *\nfrom c09_dia import A, B, C, N, cls, fn, num\n")):
        with open(os.path.join(d, n + ".py"), "w") as f:
            f.write(s)


def child(d, jobs):
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    builtins.MCLOG, builtins.MCCONF = [], {}
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler as compiler
    import mcpyrate.debug  # noqa: F401
    import c09_dia  # noqa: F401
    import c09_mac  # noqa: F401
    import c09_pkg.dia  # noqa: F401
    out = []
    for num, (lines, conf, mode) in enumerate(jobs):
        builtins.MCLOG.clear()
        builtins.MCCONF = conf
        text = "\n".join(lines) + "\n"
        name = f"c09_pkg.u{num}"
        path = os.path.join(d, "c09_pkg", f"u{num}.py")
        err = io.StringIO()
        kept = len(sys.modules)
        names = body = None
        try:
            with contextlib.redirect_stderr(err):
                if mode == "import":
                    with open(path, "wb") as f:
                        f.write(text.encode("latin-1" if "latin-1" in text else "utf-8"))
                    importlib.invalidate_caches()
                    m = importlib.import_module(name)
                    names = {k: v for k, v in vars(m).items() if k[0] in "sapru" and (k[1:2] == "_" or k[1:3] == "0_" or k in ("r", "u"))}
                else:
                    src = {"text": lambda: text, "bytes": lambda: text.encode("latin-1" if "latin-1" in text else "utf-8"), "tree": lambda: ast.parse(text), "list": lambda: ast.parse(text).body}[mode]()
                    # relative imports need the package of the module
                    t = compiler.expand(src, path, self_module=name)
                    body = [ast.unparse(s) for s in t.body]
                    compile(t, path, "exec")
            res = ("ok", body, names)
        except BaseException as e:
            chain = []
            x = e
            while x is not None:
                chain.append((type(x).__name__, plain(x)))
                x = x.__cause__ or x.__context__
            res = ("error", chain)
        ids = []

        def idof(o):
            for i, x in enumerate(ids):
                if x is o:
                    return i
            ids.append(o)
            return len(ids) - 1
        log = [x if x[0] == "expand" else x[:2] + (idof(x[2]),) + x[3:6] + (x[6] == path,) for x in builtins.MCLOG]
        left = name in sys.modules
        sys.modules.pop(name, None)
        with contextlib.suppress(OSError):
            os.unlink(path)
        out.append((res, log, left, len(sys.modules) - kept, plain(err.getvalue())))
    return out


def canonical(log):
    """Instances numbered in order of appearance."""
    ids = {}
    return [x if x[0] == "expand" else x[:2] + (ids.setdefault(x[2], len(ids)),) + tuple(x[3:]) for x in log]


def norm(lines):
    return tuple(ast.unparse(ast.parse(x).body[0]) for x in lines)


STEP = "from mcpyrate.debug import dialects, StepExpansion"


def D(*names, mod="c09_dia"):
    return f"from {mod} import dialects, " + ", ".join(names)


def module(dims, place="head", head=()):
    doc, mac, use = "'''doc'''", "from c09_mac import macros, mac", "r = mac[1]"
    parts = {"top": [*dims, doc, mac, use], "head": [doc, *dims, mac, use], "after": [doc, "", mac, *dims, use], "bottom": [doc, mac, use, *dims],
             "split": [doc, *dims[:1], mac, *dims[1:2], use, *dims[2:]]}[place]
    return [*head, *parts]


LAYOUTS1 = [[D("A")], [D("A", mod=".dia")], [D("A", mod="c09_pkg.dia")]]
LAYOUTS2 = [[D("A"), D("B")], [D("A", "B")], [D("B"), D("A")], [D("B", "A")], [D("A"), D("B"), D("A")], [D("A", "B"), D("B")], [D("A"), D("A", mod=".dia"), D("B")], [D("N"), D("A"), D("B")]]
LAYOUTS3 = [[D("A"), D("B"), D("C")], [D("A", "B"), D("C")], [D("C"), D("A"), D("B")], [D("B", "C"), D("A")]]
BAD = [[D("nosuch")], [D("fn")], [D("num")], [D("cls")], [D("A"), D("fn")], [D("A", "fn")], [D("fn", "A")], [D("A", "nosuch")], [D("A as B")], [D("A", mod="c09_nosuch")], [D("A"), D("A", mod="c09_nosuch")], [D("A"), D("B"), D("num")]]


def items(tier):
    """(lines, conf, mode)"""
    deep = tier != "quick"
    modes = ("import", "text", "bytes", "tree", "list")
    latin = ["# -*- coding: latin-1 -*-", "u = 'é'"]
    n = 0
    # one dialect: everything
    for s, a, p in itertools.product(SRC, AST, POST):
        conf = {"A": {"source": s, "ast": a, "post": p}, "B": {"source": "pass", "ast": "pass", "post": "pass"}, "C": {"source": "edit", "ast": "edit", "post": "edit"}}
        for lay in LAYOUTS1:
            for mode in modes:
                n += 1
                if not deep and n % 3:
                    continue
                yield module(lay, ("top", "head", "after", "bottom")[n % 4], latin if n % 5 == 0 else ()), conf, mode
    # two: pairs at one stage
    for stage, kinds in (("source", SRC), ("ast", AST), ("post", POST)):
        for x, y in itertools.product(kinds, repeat=2):
            for lay in LAYOUTS2:
                for rest in (("pass", "none", "decline") if deep else ("pass",)):
                    conf = {k: {"source": rest, "ast": rest, "post": rest} for k in "ABC"}
                    conf["A"][stage], conf["B"][stage] = x, y
                    for mode in ("import", "tree") if stage != "source" else ("import",):
                        n += 1
                        yield module(lay, ("head", "split", "bottom")[n % 3], latin if n % 7 == 0 else ()), conf, mode
    # stepper
    for x, y in itertools.product(range(4 if not deep else 9), repeat=2):
        for stage, kinds in (("source", SRC), ("ast", AST), ("post", POST)):
            if max(x, y) >= len(kinds):
                continue
            for lay in LAYOUTS2[:4]:
                for at in (0, 1):
                    for mode in ("import", "tree"):
                        conf = {k: {"source": "edit", "ast": "edit", "post": "edit"} for k in "ABC"}
                        conf["A"][stage], conf["B"][stage] = kinds[x], kinds[y]
                        yield module(lay[:at] + [STEP] + lay[at:]), conf, mode
    # wrong ones
    for lay in BAD:
        for how in ("pass", "edit", "none"):
            for place in ("head", "bottom", "split"):
                for mode in modes:
                    yield module(lay, place), {k: {"source": how, "ast": how, "post": how} for k in "ABC"}, mode
    for who in "AB":
        for lay in LAYOUTS2:
            for mode in modes:
                conf = {k: {"source": "pass", "ast": "pass", "post": "pass"} for k in "ABC"}
                conf[who]["init"] = "raise"
                yield module(lay), conf, mode
    # three
    few = {"source": ["none", "edit", "dropB", "injfirst", "prepend", "dropself"], "ast": ["none", "edit", "dropB", "injlast", "new"], "post": ["decline", "edit", "noresult"]}
    for stage, kinds in few.items():
        for x, y, z in itertools.product(kinds, repeat=3):
            if z.startswith("inj"):
                continue
            for lay in LAYOUTS3:
                n += 1
                if not deep and n % 2:
                    continue
                conf = {k: {"source": "edit", "ast": "edit", "post": "edit"} for k in "ABC"}
                conf["A"][stage], conf["B"][stage], conf["C"][stage] = x, y, z
                yield module(lay, "split"), conf, "import"
    if deep:
        for s1, s2, a1, a2 in itertools.product(SRC[1:9], SRC[1:9], AST[1:8], AST[1:8]):
            for lay in LAYOUTS2:
                n += 1
                conf = {"A": {"source": s1, "ast": a1, "post": "pass"}, "B": {"source": s2, "ast": a2, "post": "edit"}, "C": {"source": "decline", "ast": "pass", "post": "pass"}}
                if n % 3 == 0:
                    yield module(lay, ("head", "split", "bottom")[n % 3]), conf, ("import", "text")[n % 2]
    # several inputs that are not dialect-imports
    for x in ("from c09_dia import A", "from c09_dia import A, dialects" if False else "import c09_dia", "if False:\n    from c09_dia import dialects, A", "def f():\n    from c09_dia import dialects, A", "from c09_dia import (A)"):
        for mode in modes:
            yield ["'''doc'''", *x.split("\n"), "r = 1"], {"A": {"source": "edit", "ast": "edit", "post": "edit"}}, mode + "!"


PARTS = {"quick": 48, "thorough": 512}


def cases(tier):
    for p in range(PARTS[tier]):
        yield {"part": p, "tier": tier}


def run_case(case, ctx):
    todo = [x for j, x in enumerate(items(case["tier"])) if j % PARTS[case["tier"]] == case["part"]]
    d = os.path.join(os.getcwd(), "c09")
    shutil.rmtree(d, ignore_errors=True)
    prepare(d)
    try:
        try:
            res = forked(child, d, [(l, c, m.rstrip("!")) for l, c, m in todo], timeout=180)
        except ChildDied as e:
            ctx.fail(f"{e}")
            return
        for (lines, conf, mode), got in zip(todo, res):
            check(lines, conf, mode, got, ctx)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(lines, conf, mode, got, ctx):
    res, log, left, more, stderr = got
    ctx.state((lines, sorted((k, sorted(v.items())) for k, v in conf.items()), mode))
    w = f"{mode} with {conf} of:\n" + "\n".join(lines) + "\n"
    if mode.endswith("!"):
        ctx.equal(log, [], f"{w}: dialect stages of a module without dialect-imports")
        ctx.equal(res[0], "ok", f"{w}: outcome")
        if res[0] == "ok" and mode != "import!":
            ctx.equal(list(norm(res[1])), list(norm(ast.unparse(x) for x in ast.parse("\n".join(lines)).body)), f"{w}: result")
        return
    m = Model(lines, conf, mode, "c09_pkg")
    want = m.run()
    ctx.trace(len(m.log))
    ctx.check(all(x[0] == "expand" or x[-1] for x in log), f"{w}: wrong file name in a stage")
    glog = canonical([x if x[0] == "expand" else x[:-1] for x in log])
    wlog = canonical([x if x[0] == "expand" else x[:5] + ((norm(x[5]) if x[0] != "source" else x[5]),) for x in m.log])
    ctx.equal(glog, wlog, f"{w}: log of stages")
    if want[0] == "error":
        if not ctx.check(res[0] == "error", f"{w}: no error ({want[1]} expected)"):
            return
        kinds = [k for k, t in res[1]]
        if want[1] != "any":
            ctx.check(kinds[0] in (want[1], "ModuleNotFoundError" if want[1] == "ImportError" else want[1]) , f"{w}: error is {res[1][0]}")
            ctx.check(any(all(re.search(r"\b%s\b" % re.escape(n), t) for n in want[2]) for k, t in res[1]), lambda: f"{w}: error does not name {want[2]}: {res[1][0]}")
        if want[3] is not None:
            ctx.check(any(re.search(r"u\d+\.py:%d\b" % want[3], t) for k, t in res[1]), lambda: f"{w}: error does not name line {want[3]}: {res[1]}")
        ctx.check(not left, f"{w}: the module stays loaded")
        return
    if not ctx.check(res[0] == "ok", lambda: f"{w}: fails: {res[1][0]}"):
        return
    if mode == "import":
        names = {}
        exec("\n".join(x for x in want[1] if not x.startswith("import")), {}, names)
        ctx.equal({k: v for k, v in res[2].items()}, {k: v for k, v in names.items() if not k.startswith("__")}, f"{w}: names defined")
    else:
        ctx.equal(tuple(res[1]), norm(want[1]), f"{w}: result")
    shown = [(a, int(b)) for a, b in re.findall(r"after (?:dialect )?(\S+) \(step (\d+)\)", re.sub(r"<(\S+) object at \S+>", r"\1", stderr))]
    ctx.equal([x[0].split(".")[-2:] + [x[1]] for x in shown], [x[0].split(".")[-2:] + [x[1]] for x in m.shown], f"{w}: steps shown")
    if not m.debug:
        ctx.equal(stderr, "", f"{w}: printed")
