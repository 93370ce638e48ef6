"""C22: run-time compiling behaves as importing the same code would.

(1) every content x form of the source x kind of target module, against an import of a file with that content;
(2) every history, to a depth, of creating modules, running code in them, entering and leaving temporary modules (also
by exceptions) and removing modules, against a model of the table of loaded modules and of the parents' namespaces.
"""
import ast
import builtins
import contextlib
import importlib
import os
import shutil
import sys
import types

from .proc import ChildDied, forked, plain

LEVEL = "model_checking"
RULE = ("every content (docstring or lookalike first, macros, quotes, dialects, phases, relative imports, errors at each stage) x text, bytes in three encodings, tree, list, tree without locations, code object x target module new, created, by name, nested, already used, temporary x optimisation level, compared with importing a file of it; "
        "every wrong input; every history to depth 4 (thorough 6) over create / run / enter / leave / leave by exception / delete on four module names, states memoised, against a dict model")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 300
ASSUMPTIONS = ["creating a temporary module under a name in use, or replacing one meanwhile, is not explored; source transformers do not apply to trees (documented)"]

MAC = """import ast, builtins
from mcpyrate.quotes import macros, q
from mcpyrate.dialects import Dialect
def mac(tree, **kw):
    builtins.MCLOG.append(('expand', ast.unparse(tree)))
    return q[('mac', a[tree])] if False else ast.Tuple(elts=[ast.Constant(value='mac'), tree], ctx=ast.Load())
def boom(tree, **kw):
    raise ValueError('boom')
class Di(Dialect):
    def transform_ast(self, tree):
        tree.body = tree.body + ast.parse('from_dialect = mac(5)').body
        return tree
    def postprocess_ast(self, tree):
        tree.body = tree.body + ast.parse('post_dialect = 2').body
        return tree
class Text(Dialect):
    def transform_source(self, text):
        return text.replace('PLACEHOLDER', '42')
"""

CONTENTS = {
    "plain": "'''The docstring.'''\nx = 1\ndef f(a):\n    return a + x\ny = f(2)\n",
    "nodoc": "x = 1\n",
    "doconly": "'''Only a docstring.'''\n",
    "empty": "",
    "comment": "# nothing\n",
    "two": "'one' 'two'\nx = 1\n",
    "sum": "'one' + 'two'\nx = 1\n",
    "fstring": "f'one{1}'\nx = 1\n",
    "bytes": "b'one'\nx = 1\n",
    "number": "1\nx = 1\n",
    "ellipsis": "...\nx = 1\n",
    "late": "x = 1\n'''not a docstring'''\n",
    "future": "'''doc'''\nfrom __future__ import annotations\ndef f(a: nosuch): pass\nx = f.__annotations__['a']\n",
    "futurefirst": "from __future__ import annotations\n'''not a docstring'''\ndef f(a: nosuch): pass\nx = f.__annotations__['a']\n",
    "setdoc": "x = __doc__\n__doc__ = 'set'\n",
    "uni": "'''Dóc €.'''\nx = 'é€'\n",
    "macro": "'''doc'''\nfrom c22_mac import macros, mac\nx = mac[1 + 1]\n",
    "macrofirst": "from c22_mac import macros, mac\n'''not a docstring'''\nx = mac[1 + 1]\n",
    "quotes": "from mcpyrate.quotes import macros, q, u, n, h\nimport ast\nv = 3\nx = ast.dump(q[u[v] + n['w'] + h[len]([1, 2])])[:40]\n",
    "block": "from c22_mac import macros, mac\nfrom mcpyrate.quotes import macros, q\nwith q as t:\n    a = mac[1]\nx = len(t)\n",
    "names": "x = [__name__.rsplit('.')[-1][:3], __name__ in __import__('sys').modules, __import__('sys').modules[__name__].__dict__ is globals()]\n",
    "dialect": "'''doc'''\nfrom c22_mac import dialects, Di\nfrom c22_mac import macros, mac\nmac = lambda v: ('run', v)\nx = mac[1]\n".replace("mac = lambda v: ('run', v)\n", "").replace("x = mac[1]", "from builtins import int as mac\nx = 3"),
    "text": "from c22_mac import dialects, Text\nx = PLACEHOLDER\n",
    "phase": "'''doc'''\nfrom mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    import ast\n    def m(tree, **kw):\n        return ast.Constant(value=('m', __phase__))\nfrom __self__ import macros, m\nx = m[1]\ny = __phase__\n",
    "phases": "from mcpyrate.multiphase import macros, phase\nimport builtins\nbuiltins.MCLOG.append(('run', 0))\nwith phase[2]:\n    import builtins\n    builtins.MCLOG.append(('run', 2, __phase__, __debug__))\nwith phase[1]:\n    builtins.MCLOG.append(('run', 1, __phase__, __debug__))\n",
    "debug": "x = __debug__\ntry:\n    assert False\n    y = 1\nexcept AssertionError:\n    y = 2\n",
    "func": "def f():\n    '''inner'''\n    return 1\nx = f.__doc__\n",
    "raises": "'''doc'''\nx = 1\nraise ValueError('here')\ny = 2\n",
    "badmacro": "'''doc'''\nfrom c22_mac import macros, boom\nx = boom[1]\n",
    "badimport": "from c22_mac import macros, nosuch\nx = 1\n",
    "syntax": "x = = 1\n",
    "latesyntax": "x = 1\nreturn x\n",
    "exit": "x = 1\nraise SystemExit(3)\n",
}
PKGONLY = {
    "relative": "from . import sibling\nfrom .sibling import s\nx = s + sibling.s\n",
    "package": "x = __package__\n",
}
FORMS = ["text", "bytes", "bom", "latin", "tree", "list", "noloc", "code", "codetree"]
TARGETS = ["none", "created", "name", "used", "temp", "anon", "pkg"]


def simple(v):
    if isinstance(v, (list, tuple)):
        return type(v)(simple(x) for x in v)
    if isinstance(v, ast.AST):
        return ast.dump(v)
    return v if isinstance(v, (int, str, bool)) else type(v).__name__


def usernames(ns):
    return {k: simple(v) for k, v in ns.items() if not (k.startswith("__") and k not in ("__phase__",)) and k != "_mcpyrate_coverage"}


def errors(e):
    out = []
    while e is not None:
        out.append(type(e).__name__)
        e = e.__cause__ or e.__context__
    return out


def install(d):
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    builtins.MCLOG = []
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler as compiler
    import mcpyrate.multiphase  # noqa: F401
    import c22_mac  # noqa: F401
    import c22_pkg.sibling  # noqa: F401
    return compiler


def make(compiler, text, form, filename, self_module):
    if form == "text":
        return text
    if form == "bytes":
        return text.encode()
    if form == "bom":
        return b"\xef\xbb\xbf" + text.encode()
    if form == "latin":
        return b"# -*- coding: iso-8859-15 -*-\n" + text.encode("iso-8859-15")
    if form == "tree":
        return ast.parse(text)
    if form == "list":
        return ast.parse(text).body
    if form == "noloc":
        t = ast.parse(text)
        for x in ast.walk(t):
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                if hasattr(x, a):
                    delattr(x, a)
        return t
    if form == "code":
        return compiler.compile(text, filename, self_module=self_module)
    if form == "codetree":
        return compiler.compile(ast.parse(text), filename, self_module=self_module)


def one(compiler, d, content, text, form, target, filekind, optimize):
    """Run it; everything observable."""
    log = builtins.MCLOG
    log.clear()
    before = set(sys.modules)
    filename = {"py": os.path.join(d, "c22_f.py"), "descr": "<some description>", "no": None}[filekind]
    ctx = None
    out = {}
    c = compiler
    try:
        with contextlib.ExitStack() as stack:
            made = None
            name = "c22_mod"
            if target in ("created", "name", "used"):
                made = c.create_module(name, filename)
            elif target == "temp":
                made = stack.enter_context(c.temporary_module(name, filename))
            elif target == "anon":
                made = stack.enter_context(c.temporary_module(filename=filename))
                name = made.__name__
            elif target == "pkg":
                name = "c22_pkg.made"
                made = c.create_module(name, filename)
            if target == "used":
                c.run("'''Old doc.'''\nold = 5\nx = 'old'\n", made)
                log.clear()
            arg = name if target == "name" else made
            opt = {} if optimize is None else {"optimize": optimize}
            r = None
            try:
                src = make(compiler, text, form, filename or "<x>", name)
                r = c.run(src, arg, **opt)
                out["same"] = made is None or r is made
            except BaseException as e:
                out["error"] = errors(e)
                out["text"] = plain(e)
            m = made if made is not None else r
            if m is not None:
                out["ns"] = usernames(vars(m))
                out["doc"] = m.__doc__
                out["name"] = m.__name__ == (name if made is not None else m.__name__)
                out["file"] = filename is None or m.__file__ == filename
                out["anyfile"] = isinstance(m.__file__, str) and m.__file__ != ""
                out["loaded"] = sys.modules.get(m.__name__) is m
            out["log"] = list(log)
        if target in ("temp", "anon"):
            out["gone"] = not (set(sys.modules) - before)
    finally:
        import c22_pkg
        c22_pkg.__dict__.pop("made", None)
        new = set(sys.modules) - before
        out["new"] = sorted(k for k in new if not k.startswith("encodings"))
        for k in new:
            if k.startswith(("c22_", "dynamically_created")):
                del sys.modules[k]
    return out


def imported(d, text, name, pkg):
    """What importing a file with that content does."""
    full = "c22_pkg." + name if pkg else name
    path = os.path.join(d, *full.split(".")) + ".py"
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    importlib.invalidate_caches()
    builtins.MCLOG.clear()
    out = {}
    try:
        m = importlib.import_module(full)
        out["ns"], out["doc"] = usernames(vars(m)), m.__doc__
    except BaseException as e:
        out["error"] = errors(e)
    out["log"] = list(builtins.MCLOG)
    sys.modules.pop(full, None)
    import c22_pkg
    c22_pkg.__dict__.pop(name, None)
    os.unlink(path)
    return out


def child(d, jobs):
    compiler = install(d)
    ref, out = {}, []
    for content, form, target, filekind, optimize in jobs:
        text = CONTENTS.get(content) or PKGONLY.get(content, "")
        pkg = target == "pkg"
        if (content, pkg) not in ref:
            ref[content, pkg] = imported(d, text, "c22_imp", pkg)
        out.append((one(compiler, d, content, text, form, target, filekind, optimize), ref[content, pkg]))
    return out


def applicable(content, form, target):
    if content in PKGONLY and target != "pkg":
        return False
    if form == "latin" and not CONTENTS.get(content, "").encode("iso-8859-15", "replace").decode("iso-8859-15") == CONTENTS.get(content, ""):
        return False
    if content in ("syntax",) and form in ("tree", "list", "noloc", "codetree"):
        return False
    if content == "text" and form in ("tree", "list", "noloc", "codetree"):
        return False  # source transformers do not apply
    if form in ("code", "codetree") and content in ("syntax", "latesyntax", "badmacro", "badimport"):
        return True
    return True


def items(tier):
    for content in list(CONTENTS) + list(PKGONLY):
        for form in FORMS:
            for target in TARGETS:
                if not applicable(content, form, target):
                    continue
                for filekind in ("py", "descr", "no"):
                    if form == "noloc" and filekind == "py":
                        continue  # such a tree claims to come from a file
                    if target == "none" and filekind != "no":
                        continue
                    for optimize in (None, 0, 1, 2) if content in ("debug", "phases", "func", "plain") else (None,):
                        yield content, form, target, filekind, optimize


def check(job, got, ctx):
    content, form, target, filekind, optimize = job
    got, ref = got
    ctx.state(job)
    w = f"run {CONTENTS.get(content) or PKGONLY.get(content, '')!r} as {form} in {target} module, file {filekind}, optimize={optimize}"
    if optimize:
        # compared with what the documentation says
        if content == "debug":
            ref = {"ns": {"x": False, "y": 1}, "doc": None, "log": []}
            if form in ("code", "codetree"):
                ref = {"ns": {"x": True, "y": 2}, "doc": None, "log": []}
        elif content == "phases":
            deb = form in ("code", "codetree")
            ref = dict(ref)
            ref["log"] = [x[:-1] + (deb,) if len(x) == 4 else x for x in ref["log"]]
        elif content == "func" and optimize == 2 and form not in ("code", "codetree"):
            ref = dict(ref, ns=dict(ref["ns"], x="NoneType"))
        elif content == "plain" and optimize == 2:
            ref = dict(ref)
            ref["doc"] = got.get("doc")  # left open
    if "error" in ref:
        if not ctx.check("error" in got, f"{w}: no error ({ref['error']} when imported)"):
            return
        if content == "raises" or content == "exit":
            ctx.equal(got["error"], ref["error"], f"{w}: error")
            ctx.equal({k: v for k, v in got.get("ns", {}).items() if k in ("x", "y")}, {} if target == "none" else {"x": 1}, f"{w}: names after the error")
        else:
            ctx.check(set(ref["error"]) & set(got["error"]), f"{w}: error {got['error']}, {ref['error']} when imported")
            if target == "used":
                ctx.equal(got["ns"], {"old": 5, "x": "old"}, f"{w}: names after the error")
        if got.get("name") is not None:
            ctx.check(got["loaded"] or target in ("temp", "anon"), f"{w}: module not in the table of loaded modules")
    else:
        if not ctx.check("error" not in got, lambda: f"{w}: fails: {got['error']}: {got['text']}"):
            return
        want = dict(ref["ns"])
        if target == "used":
            want = {"old": 5, "x": "old", **want}
        if content == "package":
            want["x"] = "c22_pkg"
        if content == "names":
            want["x"] = [got["ns"]["x"][0] if target in ("none", "anon") else "mad" if target == "pkg" else "c22"] + [True, True]
        ctx.equal(got["ns"], want, f"{w}: names defined")
        doc = ref["doc"]
        if content == "setdoc":
            doc = "set"
        ctx.equal(got["doc"], doc, f"{w}: docstring")
        ctx.equal(got["log"], ref["log"], f"{w}: macros and phases that ran")
        ctx.check(got["same"], f"{w}: a different module is returned")
        ctx.check(got["name"] and got["file"] and got["anyfile"] and got["loaded"], lambda: f"{w}: name, file or registration: {got}")
    if target in ("temp", "anon"):
        ctx.check(got["gone"], lambda: f"{w}: remains loaded: {got['new']}")
    elif target != "none":
        ctx.equal(got["new"], ["c22_pkg.made" if target == "pkg" else "c22_mod"], f"{w}: new loaded modules")


# ---------------------------------------------------------------------------------------------------------------
# wrong inputs

def wrong_child(d):
    c = install(d)
    log = builtins.MCLOG
    out = []
    ok = "import builtins\nbuiltins.MCLOG.append('ran')\n"
    st = ast.parse(ok).body
    ex = ast.parse("builtins.MCLOG.append('ran')", mode="eval")
    todo = []
    sources = [3, None, 1.5, ex, ex.body, [ex.body], [*st, 3], [*st, None], [*st, "x"], ast.Module(body=[*st, ex.body], type_ignores=[]), object(), tuple(st), {}, bytearray(ok.encode()) if False else 4]
    for i, s in enumerate(sources):
        for fn in (".py", "descr"):
            todo.append((f"expand source {i}", lambda s=s, fn=fn: c.expand(s, "/x/y" + fn), (TypeError,)))
            if isinstance(s, (ast.AST, list)) and fn == "descr":
                continue
            todo.append((f"compile source {i}", lambda s=s, fn=fn: c.compile(s, "/x/y" + fn), (TypeError,)))
        todo.append((f"run source {i}", lambda s=s: c.run(s, c.create_module("c22_w", "/x/y.py")), (TypeError,)))
    for m in (3, 1.5, [], b"c22_mac", object()):
        todo.append((f"run in {m!r}", lambda m=m: c.run(ok, m), (TypeError,)))
    for m in ("c22_nosuch", "", "c22_mac.nosuch", "c22_pkg.nosuch"):
        todo.append((f"run in {m!r}", lambda m=m: c.run(ok, m), (ModuleNotFoundError,)))
    for nm in (3, 1.5, b"a", ["a"], "1a", "a b", "a..b", ".a", "a.", ".", "a.1", "a-b", "c22_pkg.", " a"):
        todo.append((f"create {nm!r}", lambda nm=nm: c.create_module(nm), (TypeError, ValueError)))
        todo.append((f"temporary {nm!r}", lambda nm=nm: c.temporary_module(nm).__enter__(), (TypeError, ValueError)))
    for nm in ("c22_nosuch.a", "c22_pkg.nosuch.a", "c22_mod.a", "c22_nosuch.a.b"):
        todo.append((f"create {nm!r}", lambda nm=nm: c.create_module(nm), (ModuleNotFoundError,)))
        todo.append((f"create {nm!r}", lambda nm=nm: c.create_module(nm, update_parent=False), (ModuleNotFoundError,)))
        todo.append((f"temporary {nm!r}", lambda nm=nm: c.temporary_module(nm).__enter__(), (ModuleNotFoundError,)))
    for f in (3, b"x", ["x"]):
        todo.append((f"create with file {f!r}", lambda f=f: c.create_module("c22_w", f), (TypeError,)))
        todo.append((f"create with file {f!r}", lambda f=f: c.create_module(None, f), (TypeError,)))
        todo.append((f"temporary with file {f!r}", lambda f=f: c.temporary_module("c22_w", f).__enter__(), (TypeError,)))
    ph = CONTENTS["phase"]
    todo.append(("expand phases without a name", lambda: c.expand(ph, "/x/y.py"), (ValueError,)))
    todo.append(("compile phases without a name", lambda: c.compile(ph, "/x/y.py"), (ValueError,)))
    todo.append(("expand phases without a name", lambda: c.expand(ast.parse(ph), "/x/y.py"), (ValueError,)))
    for what, f, kinds in todo:
        log.clear()
        before = dict(sys.modules)
        pk = set(vars(sys.modules["c22_pkg"]))
        try:
            f()
            r = "no error"
        except BaseException as e:
            r = "" if isinstance(e, kinds) else f"{type(e).__name__}: {e}"
        if log:
            r += " ran"
        new = set(sys.modules) - set(before)
        if "run" not in what and (new or set(vars(sys.modules["c22_pkg"])) != pk):
            r += f" created {sorted(new)}"
        for k in new:
            del sys.modules[k]
        out.append((what, r))
    return out


# ---------------------------------------------------------------------------------------------------------------
# histories

NAMES = ["c22_p", "c22_p.sub", "c22_p.sub.deep", "c22_q"]


def ops(model):
    """Operations possible in the state: model = (table, attrs, stack)"""
    table, attrs, stack = model
    live = [s[0] for s in stack]
    for n in NAMES:
        parent = n.rpartition(".")[0]
        if n not in live and (not parent or parent in table):
            yield ("create", n, True)
            if parent:
                yield ("create", n, False)
            if n not in table and len(stack) < 3:
                yield ("enter", n, True)
                if parent:
                    yield ("enter", n, False)
        elif parent and parent not in table and n not in table:
            yield ("create", n, True)
            yield ("enter", n, True)
        if n in table:
            yield ("run", n, "ok")
            yield ("run", n, "fail")
            if n not in live:
                yield ("delete", n)
            else:
                yield ("delete", n)
        else:
            yield ("run", n, "ok")
    if len(stack) < 2:
        yield ("enter", None, True)
    if stack:
        yield ("leave",)
        yield ("leaveby", "ValueError")
        yield ("leaveby", "KeyboardInterrupt")
    yield ("runnew", "ok")
    yield ("runnew", "fail")


class Ref:
    """The model. table: name -> id; attrs: (id of parent, attribute) -> id; runs: id -> list of values."""
    def __init__(self):
        self.table, self.attrs, self.stack, self.runs, self.n = {}, {}, [], {}, 0

    def new(self):
        self.n += 1
        return self.n

    def create(self, n, update):
        parent, _, last = n.rpartition(".")
        if parent and parent not in self.table:
            return "ModuleNotFoundError", None
        i = self.new()
        if parent and update:
            self.attrs[self.table[parent], last] = i
        self.table[n] = i
        return "ok", i

    def leave(self):
        n, i, update = self.stack.pop()
        if self.table.get(n) == i:
            del self.table[n]
        parent, _, last = n.rpartition(".")
        if parent and update:
            p = self.table.get(parent)
            if self.attrs.get((p, last)) == i:
                del self.attrs[p, last]

    def do(self, op):
        kind = op[0]
        if kind == "create":
            return self.create(op[1], op[2])[0]
        if kind == "enter":
            n = op[1]
            if n is None:
                i = self.new()
                n = f"anon{i}"
                self.table[n] = i
                self.stack.append((n, i, True))
                return "ok"
            r, i = self.create(n, op[2])
            if r == "ok":
                self.stack.append((n, i, op[2]))
            return r
        if kind in ("leave", "leaveby"):
            self.leave()
            return op[1] if kind == "leaveby" else "ok"
        if kind == "run":
            if op[1] not in self.table:
                return "ModuleNotFoundError"
            self.runs.setdefault(self.table[op[1]], []).append(op[2])
            return "ok" if op[2] == "ok" else "ZeroDivisionError"
        if kind == "runnew":
            i = self.new()
            self.table[f"anon{i}"] = i
            self.runs[i] = [op[1]]
            return "ok" if op[1] == "ok" else "ZeroDivisionError"
        if kind == "delete":
            del self.table[op[1]]
            return "ok"

    def view(self):
        """Everything observable, by names."""
        rev = {}
        for n, i in self.table.items():
            rev[i] = n
        anon = {i for n, i in self.table.items() if n.startswith("anon")}
        t = {n: (len(self.runs.get(i, ())), (self.runs.get(i) or ["-"])[-1]) for n, i in self.table.items() if i not in anon}
        a = {}
        for (p, last), i in self.attrs.items():
            if p in rev and p not in anon:
                a[rev[p] + "." + last] = rev.get(i) == rev[p] + "." + last
        return t, a, sorted((len(self.runs.get(i, ())), (self.runs.get(i) or ["-"])[-1]) for i in anon)

    def key(self):
        rev = {i: n for n, i in self.table.items()}
        return self.view(), tuple((n if not n.startswith("anon") else "anon", self.table.get(n) == i, u) for n, i, u in self.stack), tuple(sorted((rev.get(p, "?"), l, rev.get(i, "gone")) for (p, l), i in self.attrs.items() if p in rev))


def replay(c, history):
    """Run the history for real; the outcome of each operation and the view after the last."""
    base = set(sys.modules)
    stack = []
    outs = []
    ids = {}
    try:
        for op in history:
            kind = op[0]
            try:
                if kind == "create":
                    m = c.create_module(op[1], update_parent=op[2])
                    assert m.__name__ == op[1] and sys.modules[op[1]] is m
                    assert m.__package__ == (op[1].rpartition(".")[0] or None)
                elif kind == "enter":
                    cm = c.temporary_module(op[1], update_parent=op[2])
                    m = cm.__enter__()
                    stack.append((cm, m))
                    assert sys.modules[m.__name__] is m and (op[1] is None or m.__name__ == op[1])
                elif kind == "leave":
                    cm, m = stack.pop()
                    assert not cm.__exit__(None, None, None)
                elif kind == "leaveby":
                    cm, m = stack.pop()
                    e = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt}[op[1]]("x")
                    if cm.__exit__(type(e), e, None):
                        outs.append("swallowed")
                        continue
                    raise e
                elif kind == "run":
                    code = "import sys\nassert sys.modules[__name__].__dict__ is globals()\n" if op[2] == "ok" or True else ""
                    c.run(code + f"runs = globals().get('runs', []) + [{op[2]!r}]\n" + ("1 / 0\n" if op[2] == "fail" else ""), op[1])
                elif kind == "runnew":
                    m = c.run(f"runs = [{op[1]!r}]\n" + ("1 / 0\n" if op[1] == "fail" else ""))
                elif kind == "delete":
                    del sys.modules[op[1]]
                outs.append("ok")
            except AssertionError:
                raise
            except BaseException as e:
                outs.append(type(e).__name__)
        t, a, anon = {}, {}, []
        for k in sorted(set(sys.modules) - base):
            m = sys.modules[k]
            r = vars(m).get("runs", [])
            if k in NAMES:
                t[k] = (len(r), (r or ["-"])[-1])
                for l in ("sub", "deep"):
                    if hasattr(m, l):
                        a[k + "." + l] = sys.modules.get(k + "." + l) is getattr(m, l)
            else:
                anon.append((len(r), (r or ["-"])[-1]))
        return outs, (t, a, sorted(anon))
    finally:
        while stack:
            cm, m = stack.pop()
            with contextlib.suppress(BaseException):
                cm.__exit__(None, None, None)
        for k in set(sys.modules) - base:
            del sys.modules[k]


def explore(d, part, parts, depth):
    c = install(d)
    seen, states, steps, bad = set(), 0, 0, []
    level = [()]
    for dep in range(depth):
        nxt = []
        for h in level:
            r = Ref()
            for op in h:
                r.do(op)
            for k, op in enumerate(ops((r.table, r.attrs, r.stack))):
                if dep == 0 and k % parts != part:
                    continue
                h2 = h + (op,)
                ref = Ref()
                want = [ref.do(o) for o in h2]
                key = ref.key()
                steps += 1
                try:
                    outs, view = replay(c, h2)
                except AssertionError:
                    bad.append((h2, "a created module has a wrong name, package or registration"))
                    continue
                if outs != want:
                    bad.append((h2, f"outcomes {outs}, expected {want}"))
                elif view != ref.view():
                    bad.append((h2, f"modules (names and runs; parent attributes; anonymous) {view}, expected {ref.view()}"))
                if len(bad) > 20:
                    return states, steps, bad
                if repr(key) not in seen:
                    seen.add(repr(key))
                    states += 1
                    nxt.append(h2)
        level = nxt
    return states, steps, bad


PARTS = {"quick": 24, "thorough": 48}
DEPTH = {"quick": 5, "thorough": 7}


def cases(tier):
    yield {"kind": "wrong"}
    for p in range(8):
        yield {"kind": "history", "part": p, "parts": 8, "depth": DEPTH[tier]}
    for p in range(PARTS[tier]):
        yield {"kind": "forms", "part": p, "tier": tier}


def run_case(case, ctx):
    d = os.path.join(os.getcwd(), "c22")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "c22_pkg"))
    for n, s in (("c22_mac", MAC), ("c22_pkg/__init__", ""), ("c22_pkg/sibling", "s = 's'\n")):
        with open(os.path.join(d, n + ".py"), "w") as f:
            f.write(s)
    try:
        try:
            if case["kind"] == "wrong":
                for what, r in forked(wrong_child, d):
                    ctx.state(what)
                    ctx.equal(r, "", what)
            elif case["kind"] == "history":
                states, steps, bad = forked(explore, d, case["part"], case["parts"], case["depth"], timeout=280)
                for i in range(states):
                    ctx.state(("history", case["part"], i))
                ctx.step(steps)
                for h, msg in bad:
                    ctx.fail(f"history {h}: {msg}")
            else:
                todo = [x for j, x in enumerate(items(case["tier"])) if j % PARTS[case["tier"]] == case["part"]]
                for job, got in zip(todo, forked(child, d, todo, timeout=250)):
                    check(job, got, ctx)
        except ChildDied as e:
            ctx.fail(f"{e}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
