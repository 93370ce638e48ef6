"""C24: an interactive macro session behaves like a module entered piece by piece.

Breadth-first search over histories of inputs - plain code, macro definitions and bindings, macro-imports of a module
that is edited on disk meanwhile, uses, errors of each stage, incomplete input, help queries. Every transition is
executed on the real console (a new console replays the history) and on the real IPython extension; outcome, printed
value, reported error, variables and macro bindings are compared with a model of the session.
"""
import ast
import builtins
import contextlib
import io
import os
import re
import shutil
import sys

from .proc import ANSI, ChildDied, forked

LEVEL = "model_checking"
RULE = ("breadth-first over all histories to depth 3 (thorough 4; IPython 2 and 3) over 50 inputs and file edits, states memoised: outcome (complete, incomplete, exit, survives), printed value, error reported, variables, macro bindings and what they expand to, compared with a model; "
        "MacroConsole and, where IPython is installed, the IPython extension")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 280
ASSUMPTIONS = ["variables that the session itself binds to imported macro functions are not compared, except that they are bound",
               "whether macro-imports of an input that fails later, in its expansion, stay in effect is left open: such inputs import what is imported already"]

FILE = """import ast
from mcpyrate import namemacro
VERSION = {v}
{pre}
def m(tree, **kw):
    "doc of m v{v}"
    return ast.Constant(value=('m', {v}))
def blk(tree, **kw):
    return tree + ast.parse("z = 'blk'").body
@namemacro
def nm(tree, **kw):
    return ast.Constant(value='nm')
def boom(tree, **kw):
    raise ValueError('boom')
def bad(tree, **kw):
    return ast.Constant(value=object())
def none(tree, **kw):
    return None
def make():
    def inner(tree, **kw):
        return ast.Constant(value='made')
    return inner
made = make()
class K:
    def __call__(self, tree, **kw):
        return ast.Constant(value='inst')
inst = K()
"""
VARIANTS = {
    "v1": FILE.format(v=1, pre=""),
    "v2": FILE.format(v=2, pre=""),
    "syntax": FILE.format(v=3, pre="x = = 1"),
    "raises": FILE.format(v=4, pre="1 / 0"),
    "nom": FILE.format(v=5, pre="").replace("def m(", "def other("),
    "gone": None,
}
ALL = ["boom", "bad", "none", "made", "nm", "blk", "inst"]


class S:
    """The model of a session."""
    def __init__(self):
        self.vars = {"given": "1"}   # name -> repr, or ("fn", version)
        self.bind = {}               # macro name -> value it expands to ("?" : not asked)
        self.file = "v1"
        self.loaded = None           # version of c24_mac loaded
        self.attrs = set()
        self.future = False

    def key(self):
        return repr((sorted(self.vars.items(), key=repr), sorted(self.bind.items()), self.file, self.loaded, sorted(self.attrs), self.future))


class R:
    """What must be observed: printed value, error name."""
    def __init__(self, out="", err=None, more=(), exit=False, help=None):
        self.out, self.err, self.more, self.exit, self.help = out, err, list(more), exit, help


def load(s, names):
    """macro-import from c24_mac: error name or None"""
    v = s.file
    if v == "gone":
        return "ModuleNotFoundError"
    if v == "syntax":
        return "SyntaxError"
    if v == "raises":
        return "ZeroDivisionError"
    s.loaded = {"v1": 1, "v2": 2, "nom": 5}[v]
    # reloading keeps the attributes that the new version does not define
    s.attrs |= set(ALL) | ({"m"} if v != "nom" else set())
    if v != "nom":
        s.mver = s.loaded
    for n in names:
        if n not in s.attrs:
            return "ImportError"
    return None


def value(s, n):
    return {"m": f"('m', {getattr(s, 'mver', 0)})"}.get(n, "?")


def assign(name, val):
    def go(s):
        s.vars[name] = val
        return R()
    return go


def show(name):
    def go(s):
        if name not in s.vars:
            return R(err="NameError")
        return R(out=s.vars[name])
    return go


def incr(s):
    if "x" not in s.vars:
        return R(err="NameError")
    s.vars["x"] = str(int(s.vars["x"]) + 1) if s.vars["x"].isdigit() else s.vars["x"]
    return R()


def deff(v):
    def go(s):
        s.vars["f"] = ("fn", v)
        return R(more=[True, True, True, False])
    return go


def decof(s):
    s.vars["f"] = ("fn", 3)
    s.bind["f"] = "('f', 3)"
    return R(more=[True, True, True, False])


def macrof(s):
    if "f" not in s.vars:
        return R(err="NameError")
    s.bind["f"] = f"('f', {s.vars['f'][1]})"
    return R(out=re.compile(r"<function f at 0x\w+>"))


def selff(s):
    if "f" not in s.vars:
        return R(err="ImportError")
    s.bind["f"] = f"('f', {s.vars['f'][1]})"
    return R()


def use(n):
    def go(s):
        if n in s.bind:
            v = {"boom": None, "made": "'made'", "inst": "'inst'", "none": ""}.get(n, s.bind[n])
            if n == "boom":
                return R(err="MacroApplicationError")
            if n == "bad":
                return R(err="Error")
            return R(out=v)
        # a subscript of a variable
        if n in s.vars:
            return R(err="TypeError")
        return R(err="NameError")
    return go


def nm(s):
    if "nm" in s.bind:
        return R(out="'nm'")
    return R(err="NameError")


def imp(*names):
    def go(s):
        src = [n.split(" as ")[0] for n in names]
        e = load(s, src)
        if e:
            return R(err=e)
        for n in names:
            s.bind[n.split(" as ")[-1]] = value(s, n.split(" as ")[0])
        return R()
    return go


def impuse(s):
    r = imp("m")(s)
    if not r.err:
        r.out = s.bind["m"]
    return r


def file(v):
    def go(s):
        s.file = v
        return R()
    return go


def err(name, more=()):
    return lambda s: R(err=name, more=more)


def block(s):
    more = [True, True, False]
    if "blk" not in s.bind:
        return R(err="NameError", more=more)
    s.vars["x"] = "7"
    s.vars["z"] = "'blk'"
    return R(more=more)


def xboom(s):
    # nothing runs if the expansion fails
    if "boom" in s.bind:
        return R(err="MacroApplicationError")
    s.vars["x"] = "5"
    return R(err="NameError")


def xzero(s):
    s.vars["x"] = "5"
    return R(err="ZeroDivisionError")


def xerr2(s):
    s.vars["x"] = "5"
    return R(err="NameError")


def cond(s):
    s.vars["x"] = "9"
    return R(more=[True, True, False])


def ym(s):
    if "m" in s.bind:
        s.vars["y"] = s.bind["m"]
        return R()
    return R(err="NameError")


def helpx(n, what=None, src=False):
    def go(s):
        if n in s.vars:
            return R(help=what or "")
        if n in s.bind:
            return R(help=("doc of m" if src else "doc of m v" + s.bind[n][6:-1]) if n in ("m", "mm") and not (src and s.file == "gone") else "")
        return R(err="NameError")
    return go


def helpmacros(s):
    return R(help=sorted(s.bind))


def future(s):
    s.future = True
    return R()


def annot(s):
    if not s.future:
        return R(err="NameError", more=[True, False])
    return R(more=[True, False])


PLAIN = {
    "x = 1": assign("x", "1"),
    "x = 'q'": assign("x", "'q'"),
    "x": show("x"),
    "given": show("given"),
    "x = x + 1 if type(x) is int else x": incr,
    "x = (2,\n2)": lambda s: (s.vars.__setitem__("x", "(2, 2)"), R(more=[True, False]))[1],
    "if 1:\n    x = 9\n": cond,
    "x = 5; 1 / 0; x = 6": xzero,
    "": lambda s: R(),
    "# comment": lambda s: R(),
    "x = = 1": err("SyntaxError"),
    "return 1": err("SyntaxError"),
    "assert False": err("AssertionError"),
    "'''a\nb'''": lambda s: R(out="'a\\nb'", more=[True, False]),
    "None": lambda s: R(),
    "raise SystemExit(3)": lambda s: R(exit=True),
}
DEFS = {
    "def f(tree, **kw):\n    'doc of f'\n    return ast.Constant(value=('f', 1))\n": deff(1),
    "def f(tree, **kw):\n    return ast.Constant(value=('f', 2))  # 2\n\n".rstrip("\n") + "\n    # end\n": deff(2),
    "@macro\ndef f(tree, **kw):\n    return ast.Constant(value=('f', 3))\n": decof,
    "macro(f)": macrof,
    "macro(3)": err("TypeError"),
    "macro(lambda tree, **kw: tree)": err("TypeError"),
    "from __self__ import macros, f": selff,
    "from __self__ import macros, nosuch": err("ImportError"),
    "f[0]": use("f"),
}
IMPORTS = {
    "from c24_mac import macros, m": imp("m"),
    "from c24_mac import macros, m as mm": imp("m as mm"),
    "from c24_mac import macros, nosuch": imp("nosuch"),
    "from c24_mac import macros, boom, bad, nm": imp("boom", "bad", "nm"),
    "from c24_mac import macros, blk, none, inst": imp("blk", "none", "inst"),
    "from c24_mac import macros, made": imp("made"),
    "from c24_nosuch import macros, q": err("ModuleNotFoundError"),
    "from c24_mac import macros, m; m[0]": impuse,
    "m[0]": use("m"),
    "mm[0]": use("mm"),
    "y = m[0] if True else 1": ym,
    "y": show("y"),
    "boom[1]": use("boom"),
    "bad[1]": use("bad"),
    "none[1]": use("none"),
    "made[1]": use("made"),
    "inst[1]": use("inst"),
    "nm": nm,
    "with blk:\n    x = 7\n": block,
    "x = 5; boom[1]; x = 6": xboom,
}
HELP = {
    "x?": helpx("x"),
    "f?": helpx("f"),
    "f??": helpx("f"),
    "m?": helpx("m"),
    "m??": helpx("m", src=True),
    "nosuch?": err("NameError"),
    "macros?": helpmacros,
    "1 +?": err("SyntaxError"),
    "x y??": err("SyntaxError"),
    "x = 2  # eh?": assign("x", "2"),
    "x = 2  # eh??": assign("x", "2"),
    "'''what?\nwhat??\nend?'''": lambda s: R(out="'what?\\nwhat??\\nend?'", more=[True, True, False]),
    "(3 # really?\n)": lambda s: R(out="3", more=[True, False]),
}
FUTURE = {"from __future__ import annotations": future, "def g(a: nosuch): pass\n": annot}
FILES = {f"file {v}": file(v) for v in VARIANTS}
INPUTS = {**PLAIN, **DEFS, **IMPORTS, **HELP, **FUTURE, **FILES}
CORE = [k for k in INPUTS if k not in PLAIN or k in ("x = 1", "x", "x = 5; 1 / 0; x = 6", "raise SystemExit(3)", "x = = 1")]


def setfile(d, v):
    path = os.path.join(d, "c24_mac.py")
    with contextlib.suppress(OSError):
        os.unlink(path)
    if VARIANTS[v] is not None:
        with open(path, "w") as f:
            f.write(VARIANTS[v])
    import importlib
    importlib.invalidate_caches()


def bindings(expander):
    out = {}
    for n, f in expander.bindings.items():
        try:
            r = f(ast.Constant(value=0), syntax="expr", expander=None) if n in ("m", "mm", "f") else None
            out[n] = ast.unparse(r) if r is not None else "?"
        except Exception as e:
            out[n] = f"raises {type(e).__name__}"
    return out


def variables(ns):
    out = {}
    for n in ("x", "y", "z", "given", "f"):
        if n in ns:
            out[n] = "function" if callable(ns[n]) else repr(ns[n])
    return out


class Console:
    """The real console, driven line by line."""
    def __init__(self, d):
        from mcpyrate.repl.console import MacroConsole
        self.d = d
        setfile(d, "v1")
        for k in ("c24_mac", "c24_nosuch"):
            sys.modules.pop(k, None)
        self.ns = {"given": 1, "ast": ast}
        self.c = MacroConsole(locals=self.ns)

    def enter(self, text):
        """(printed, error text, more flags, outcome)"""
        out, err = io.StringIO(), io.StringIO()
        more, end = [], "ok"
        if text.startswith("file "):
            setfile(self.d, text[5:])
            return "", "", [], "ok"
        hook = sys.excepthook
        lines = text.split("\n")
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                sys.excepthook = sys.__excepthook__
                for k, line in enumerate(lines):
                    m = self.c.push(line)
                    more.append(bool(m))
                    if not m and k + 1 < len(lines):
                        more.append("rest not asked for")
                        break
                if m:
                    self.c.resetbuffer()
            except SystemExit:
                end = "exit"
                self.c.resetbuffer()
            except BaseException as e:
                end = f"dies: {type(e).__name__}: {e}"
            finally:
                sys.excepthook = hook
        return out.getvalue(), ANSI.sub("", err.getvalue()), more, end

    def view(self):
        return variables(self.ns), bindings(self.c.expander)

    def named(self, n):
        return getattr(self.ns.get(n), "__doc__", None)


class IPy:
    """The real IPython shell with the extension."""
    shell = None

    def __init__(self, d):
        from IPython.core.interactiveshell import InteractiveShell
        from traitlets.config import Config
        self.d = d
        setfile(d, "v1")
        for k in ("c24_mac", "c24_nosuch"):
            sys.modules.pop(k, None)
        cfg = Config()
        cfg.HistoryManager.enabled = False
        cfg.InteractiveShell.colors = "NoColor"
        self.sh = InteractiveShell(config=cfg, user_ns={"given": 1, "ast": ast})
        import mcpyrate.repl.iconsole as ic
        ic._instance = None
        ic.load_ipython_extension(self.sh)

    def enter(self, text):
        out, err = io.StringIO(), io.StringIO()
        if text.startswith("file "):
            setfile(self.d, text[5:])
            return "", "", [], "ok"
        end = "ok"
        more = []
        from IPython.core.inputtransformer2 import TransformerManager  # noqa: F401
        lines = text.split("\n")
        if text == "macros?":
            text = "%macros"
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                for k in range(len(lines) - 1):
                    st, _ = self.sh.check_complete("\n".join(lines[:k + 1]))
                    more.append(st == "incomplete")
                r = self.sh.run_cell(text, store_history=True)
            except SystemExit:
                end = "exit"
            except BaseException as e:
                end = f"dies: {type(e).__name__}: {e}"
        o = ANSI.sub("", out.getvalue())
        e = ANSI.sub("", err.getvalue())
        if end == "ok":
            x = r.error_before_exec or r.error_in_exec
            if isinstance(x, SystemExit):
                end = "exit"
            elif x is not None:
                chain = []
                while x is not None:
                    chain.append(type(x).__name__)
                    x = x.__cause__ or x.__context__
                e += " error: " + " ".join(chain)
                o = o.split("---------------------------------------------------------------------------")[0]
            val = re.search(r"Out\[\d+\]:\s*", o)
            if val:
                o = o[val.end():].rstrip("\n") + "\n" if o[val.end():].strip() else o
        return o, e, more, end

    def view(self):
        import mcpyrate.repl.iconsole as ic
        return variables(self.sh.user_ns), bindings(ic._instance.macro_transformer.expander)

    def named(self, n):
        return getattr(self.sh.user_ns.get(n), "__doc__", None)


def matches(text, r, got, who):
    """Complaints about the outcome of one input."""
    out, err, more, end = got
    bad = []
    if r.exit:
        if end != "exit":
            bad.append(f"SystemExit does not leave the session: {end}")
        return bad
    if end != "ok":
        return [f"the session ends: {end}"]
    nl = text.count("\n")
    want = (r.more or [True] * nl + [False])
    if who == "console" and not text.startswith("file ") and more != want:
        bad.append(f"asks for more: {more}, expected {want}")
    if r.err:
        plain_err = err if who == "console" else err + out
        if r.err not in plain_err and not (who == "ipython" and err.strip()):
            bad.append(f"no {r.err} reported; stderr {err[-300:]!r}")
        if who == "console" and out:
            bad.append(f"printed {out!r}")
        return bad
    shown = out.rstrip("\n")
    if r.help is not None:
        if isinstance(r.help, list):
            for n in r.help:
                if not re.search(r"\b%s\b" % n, out + err):
                    bad.append(f"help does not name macro {n}: {(out + err)!r}")
        elif who == "console":
            if out:
                bad.append(f"printed {out!r}")
            if r.help not in err:
                bad.append(f"help lacks {r.help!r}: {err!r}")
        return bad
    if isinstance(r.out, re.Pattern):
        if not r.out.fullmatch(shown) and not (who == "ipython" and "function" in shown):
            bad.append(f"printed {shown!r}")
    elif shown != (r.out or ""):
        bad.append(f"printed {shown!r}, expected {r.out!r}")
    if "Error" in err or "Traceback" in err:
        bad.append(f"reports an error: {err[-400:]!r}")
    return bad


def applicable(text, who):
    if who == "ipython":
        return text not in ("1 +?", "x y??", "x = 2  # eh?", "x = 2  # eh??", "'''what?\nwhat??\nend?'''", "(3 # really?\n)", "x?", "f?", "f??", "m?", "m??", "nosuch?",
                            "from __future__ import annotations", "def g(a: nosuch): pass\n", "raise SystemExit(3)")
    return True


def step(h, who, d, cls):
    """Replay h; complaints about its last input, and the model state."""
    s = S()
    real = cls(d)
    bad = []
    for k, t in enumerate(h):
        r = INPUTS[t](s)
        got = real.enter(t)
        if k + 1 < len(h):
            continue
        bad += matches(t, r, got, who)
        v, b = real.view()
        wv = {n: ("function" if isinstance(x, tuple) else x) for n, x in s.vars.items()}
        if v != wv:
            bad.append(f"variables {v}, expected {wv}")
        if b != s.bind:
            bad.append(f"macro bindings {b}, expected {s.bind}")
        if t.startswith("from c24_mac import macros, m") and not r.err:
            for n in s.bind:
                if n in ("m", "mm") and real.named(n) != "doc of m v" + s.bind[n][6:-1]:
                    bad.append(f"{n} is not the macro function last imported, after its macro-import: {real.named(n)!r}")
        if r.exit:
            return bad, None
    return bad, s.key()


def explore(d, who, part, parts, depth):
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    os.environ["HOME"] = os.environ["IPYTHONDIR"] = d
    sys.stdin = io.StringIO()
    import mcpyrate.activate  # noqa: F401
    cls = {"console": Console, "ipython": IPy}[who]
    if who == "console":
        import mcpyrate.repl.console  # noqa: F401
    alphabet = [t for t in INPUTS if applicable(t, who)]
    seen, states, steps, bad, level = set(), 0, 0, [], [()]
    prefix_ok = {}
    for dep in range(depth):
        nxt = []
        for num, h in enumerate(level):
            for k, t in enumerate(alphabet):
                if dep and t not in CORE:
                    continue
                mine = (num * len(alphabet) + k) % parts == part
                if dep + 1 == depth and not mine:
                    continue
                h2 = h + (t,)
                steps += 1
                complaints, key = step(h2, who, d, cls)
                if complaints and (mine or dep + 1 == depth):
                    bad += [(h2, c) for c in complaints]
                    if len(bad) > 15:
                        return states, steps, bad
                if complaints or key is None or key in seen:
                    continue
                seen.add(key)
                states += 1
                nxt.append(h2)
        level = nxt
    return states, steps, bad


def ipython():
    import importlib.util
    return importlib.util.find_spec("IPython") is not None


DEPTH = {"quick": (3, 2), "thorough": (4, 3)}


def cases(tier):
    c, i = DEPTH[tier]
    parts = 16 if tier == "quick" else 128
    for p in range(parts):
        yield {"who": "console", "part": p, "parts": parts, "depth": c}
    if ipython():
        for p in range(parts):
            yield {"who": "ipython", "part": p, "parts": parts, "depth": i}


def run_case(case, ctx):
    d = os.path.join(os.getcwd(), "c24")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        states, steps, bad = forked(explore, d, case["who"], case["part"], case["parts"], case["depth"], timeout=270)
    except ChildDied as e:
        ctx.fail(f"{e}")
        return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for i in range(states):
        ctx.state((case["who"], i))
    ctx.step(steps)
    for h, msg in bad:
        ctx.fail(f"{case['who']}: after inputs {list(h)}: {msg}")
