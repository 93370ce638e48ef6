"""C32: code that uses no macros compiles to the same thing as without mcpyrate.

Every program of the snippet grammar, in every form of the source and at every optimisation level, and every erroneous text
obtained by deleting or doubling one token, is compiled by Python itself and through mcpyrate; the code objects are compared
completely (bytecode, constants, names, flags, positions, exception tables), the errors and warnings likewise.
"""
import ast
import builtins
import importlib.machinery
import importlib.util
import io
import os
import py_compile
import sys
import tokenize
import types
import warnings

import mcpyrate.activate  # noqa: F401
from mcpyrate import compiler
from mcpyrate.core import MacroExpansionError  # noqa: F401

from . import snips

def setup():
    mod = types.ModuleType("zz_identity")
    def identity(tree, **kw):
        return tree
    identity.__module__ = "zz_identity"
    mod.identity = identity
    sys.modules["zz_identity"] = mod


LEVEL = "model_checking"
RULE = ("every snippet of the grammar, alone, after a docstring, after a macro-import that is not used, inside a function; x source as text, bytes in several encodings, line endings and beginnings, tree; x optimisation level -1, 0, 1, 2; x run-time compiler, loader, py_compile, import; "
        "every text with one token deleted or doubled; every module of the standard library; compared with Python's own compiler: the whole code object, the error, the warnings")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 300
ASSUMPTIONS = ["a source text that Python cannot parse is an ImportError caused by Python's own error (documented for the run-time compiler and the importer)"]

FIELDS = ["co_name", "co_qualname", "co_filename", "co_firstlineno", "co_argcount", "co_posonlyargcount", "co_kwonlyargcount", "co_nlocals", "co_stacksize", "co_flags", "co_code",
          "co_names", "co_varnames", "co_freevars", "co_cellvars", "co_linetable", "co_exceptiontable"]
N = 60


def const(c):
    if isinstance(c, types.CodeType):
        return describe(c)
    if isinstance(c, tuple):
        return ("tuple",) + tuple(const(x) for x in c)
    if isinstance(c, frozenset):
        return ("frozenset",) + tuple(sorted((repr(const(x)) for x in c)))
    return (type(c).__name__, repr(c))


def describe(code):
    return tuple((f, getattr(code, f)) for f in FIELDS) + (("co_consts", tuple(const(c) for c in code.co_consts)),)


def diff(a, b):
    """names of the differing parts"""
    if not (isinstance(a, tuple) and isinstance(b, tuple)):
        return (a, b)
    da, db = dict(a), dict(b)
    return {k: (da[k], db[k]) for k in da if da[k] != db[k]}


def error(err):
    d = [type(err).__name__, str(err)]
    if isinstance(err, SyntaxError):
        d += [err.filename, err.lineno, err.offset, err.text, err.end_lineno, err.end_offset]
    return ("error",) + tuple(d)


def watched(f):
    """-> (code or error, warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            out = describe(f())
        except ImportError as err:
            out = error(err.__cause__ if err.__cause__ is not None else err)
        except Exception as err:
            out = error(err)
    # a warning from evaluating a constant expression is attributed to the caller of the compiler
    return out, sorted((x.category.__name__, str(x.message)) + ((x.filename, x.lineno) if x.filename.endswith("prog.py") else ()) for x in w
                       if not str(x.message).startswith(("ast.", "Attribute ")))  # of mcpyrate's own code


def native(text, filename, opt=-1):
    return watched(lambda: builtins.compile(text, filename, "exec", dont_inherit=True, optimize=opt))


def same(ctx, got, want, what):
    ctx.step()
    if got[0] != want[0]:
        if got[0][0] == "error" or want[0][0] == "error":
            ctx.fail(f"{what}: {got[0] if got[0][0] == 'error' else 'compiles'}; Python itself: {want[0] if want[0][0] == 'error' else 'compiles'}")
        else:
            ctx.fail(f"{what}: the code differs: {str(diff(got[0], want[0]))[:600]}")
        return False
    return ctx.check(got[1] == want[1], lambda: f"{what}: warnings {got[1]}, from Python itself {want[1]}")


# ------------------------------------------------------------------------------------------------
def cases(tier):
    def groups(kind, it, n=N):
        group = []
        for x in it:
            group.append(x)
            if len(group) == n:
                yield [kind, group]
                group = []
        if group:
            yield [kind, group]
    yield ["forms", [s for s in FORMS]]
    yield from groups("full", snips.stmts(0))
    yield from groups("plain", snips.stmts(1))
    yield from groups("plaine", snips.exprs(1 if tier == "quick" else 2), 150)
    yield from groups("tokens", snips.stmts(0), 20)
    yield from groups("texts", texts(3 if tier == "quick" else 4), 80)
    yield from groups("stdlib", stdlib(tier), 6)
    if tier == "thorough":
        yield from groups("plain", snips.stmts(2), 200)
        yield from groups("tokens", snips.stmts(1), 60)
        yield from groups("full", snips.stmts(1), 60)


FORMS = ["x = 1\n", "x = 'ä'\n", "'''doc'''\nx = '€'\n", "def f(a):\n    'doc'\n    assert a\n    if __debug__:\n        return 1\n\n\nx = f\n", "x = 'a\\\nb'\n", "x = '''a\nb\r\nc'''\n", "", "\n", "# only a comment", "x = (1,\n     2)\n\n\n# end\n"]


def texts(n):
    """all sequences of up to n pieces"""
    pieces = ["x = 1", "\n", "\r\n", "\r", "\t", "    ", "\f", "\\\n", "#c", "if x:", "'doc'", ";", "\ufeff", "\0", "é", "\x1a"]
    out = [""]
    for _ in range(n):
        out = [a + p for a in out for p in pieces]
        yield from out


def stdlib(tier):
    root = os.path.dirname(os.__file__)
    found = []
    for where, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in ("site-packages", "__pycache__", "dist-packages", "test", "tests", "idle_test", "lib2to3"))
        for f in sorted(files):
            p = os.path.join(where, f)
            if f.endswith(".py") and os.path.getsize(p) < (25000 if tier == "quick" else 400000):
                found.append(p)
    if tier == "quick":
        found = found[::4]
    return found


def run_case(case, ctx):
    kind, items = case
    for item in items:
        ctx.state((kind, item))
        globals()["run_" + kind](item, ctx)


def run_plain(s, ctx):
    text = s + "\n"
    name = os.path.join(os.getcwd(), "prog.py")
    want = native(text, name)
    ok = same(ctx, watched(lambda: compiler.compile(text, name)), want, repr(text))
    if ok and want[0][0] != "error":
        ok = same(ctx, watched(lambda: compiler.compile(ast.parse(text), name)), native(ast.parse(text), name), f"the tree of {text!r}")
    return ok


def run_plaine(e, ctx):
    text = "x = " + e + "\n"
    name = os.path.join(os.getcwd(), "prog.py")
    same(ctx, watched(lambda: compiler.compile(text, name)), native(text, name), repr(text))
    # a macro that returns its input: the same code, with the same positions, as without it
    try:
        body = ast.parse("m[" + e + "]", mode="eval").body
    except SyntaxError:
        return
    if not isinstance(body, ast.Subscript) or isinstance(body.slice, (ast.Tuple, ast.Slice, ast.GeneratorExp)) or any(type(n) is ast.JoinedStr for n in ast.walk(body)):
        return
    pre = "import zz_identity\n" if "\n" not in e else ""
    if not pre:
        return
    for a, b in (("m[", " ("), ("m[m[", "  (("), ("f(a, k=m[", "f(a, k= (")):
        end = {"m[": ("]", ")"), "m[m[": ("]]", "))")}.get(a, ("])", "))"))
        used = f"from zz_identity import macros, identity as m\nx = {a}{e}{end[0]}\n"
        plain = f"import zz_identity\nx = {b}{e}{end[1]}\n"
        def expected():
            tree = ast.parse(plain, filename=name)
            first = ast.parse(used).body[0]
            for node in ast.walk(tree.body[0]):
                if "lineno" in node._attributes:
                    ast.copy_location(node, first)
            return builtins.compile(tree, name, "exec", dont_inherit=True)
        if not same(ctx, watched(lambda: compiler.compile(used, name)), watched(expected), f"{used!r}"):
            return


def indent(s):
    # continuation lines of string literals must stay as they are
    try:
        toks = list(tokenize.generate_tokens(io.StringIO(s + "\n").readline))
    except (tokenize.TokenError, IndentationError, SyntaxError):
        return None
    inside = set()
    for t in toks:
        if t.end[0] > t.start[0]:
            inside.update(range(t.start[0] + 1, t.end[0] + 1))
    return "\n".join(l if i in inside else "    " + l for i, l in enumerate(s.split("\n"), 1))


def run_full(s, ctx):
    run_plain(s, ctx)
    here = os.getcwd()
    name = os.path.join(here, "prog.py")
    loader = importlib.machinery.SourceFileLoader("prog", name)
    variants = [s + "\n", "'doc'\n" + s + "\n", "'doc'\nfrom __future__ import annotations\n" + s + "\n", "\n\n# comment\n" + s]
    body = indent(s)
    if body is not None:
        variants += ["def f(q, u, macros):\n" + body + "\n", "async def f():\n    'doc'\n" + body + "\n", "class C:\n" + body + "\n"]
    for text in variants:
        for opt in (-1, 0, 1, 2):
            want = native(text, name, opt)
            if not same(ctx, watched(lambda: compiler.compile(text, name, optimize=opt)), want, f"{text!r} at level {opt}"):
                return
            if not same(ctx, watched(lambda: loader.source_to_code(text.encode("utf-8", "surrogatepass"), name, _optimize=opt)), native(text.encode("utf-8", "surrogatepass"), name, opt), f"{text!r} through the loader at level {opt}"):
                return
    # a macro-import that is not used, in place of which an import remains
    ctx.step()
    if not s.startswith("from __future__"):
        with_import = "from mcpyrate.debug import macros, step_expansion  # noqa\n" + s + "\n"
        def expected():
            tree = ast.parse("import mcpyrate.debug\n" + s + "\n", filename=name)
            first = ast.parse(with_import).body[0]
            for node in ast.walk(tree.body[0]):
                if "lineno" in node._attributes:
                    ast.copy_location(node, first)
            return builtins.compile(tree, name, "exec", dont_inherit=True)
        same(ctx, watched(lambda: compiler.compile(with_import, name)), watched(expected), f"{with_import!r}")


def run_tokens(s, ctx):
    name = os.path.join(os.getcwd(), "prog.py")
    try:
        toks = [t for t in tokenize.generate_tokens(io.StringIO(s + "\n").readline) if t.string.strip()]
    except (tokenize.TokenError, IndentationError, SyntaxError):
        return
    lines = (s + "\n").splitlines(True)
    for t in toks:
        if t.start[0] != t.end[0]:
            continue
        line = lines[t.start[0] - 1]
        for new in ("", t.string + " " + t.string):
            text = "".join(lines[:t.start[0] - 1]) + line[:t.start[1]] + new + line[t.end[1]:] + "".join(lines[t.start[0]:])
            if not same(ctx, watched(lambda: compiler.compile(text, name)), native(text, name), repr(text)):
                return


def run_texts(text, ctx):
    name = os.path.join(os.getcwd(), "prog.py")
    same(ctx, watched(lambda: compiler.compile(text, name)), native(text, name), repr(text))
    if "\r" not in text.replace("\r\n", ""):  # Python's own decoders disagree about these
        data = text.encode("utf-8")
        same(ctx, watched(lambda: compiler.compile(data, name)), native(data, name), repr(data))


def run_forms(s, ctx):
    name = os.path.join(os.getcwd(), "prog.py")
    for cookie, enc, bom in [("", "utf-8", b""), ("", "utf-8", b"\xef\xbb\xbf"), ("# coding: utf-8\n", "utf-8", b""), ("# -*- coding: latin-1 -*-\n", "latin-1", b""), ("#!python\n# vim: set fileencoding=iso-8859-15 :\n", "iso-8859-15", b""),
                             ("# coding: utf-8\n", "utf-8", b"\xef\xbb\xbf"), ("# coding: latin-1\n", "latin-1", b"\xef\xbb\xbf"), ("# coding: nonsense\n", "utf-8", b""), ("", "latin-1", b""), ("# coding: ascii\n", "utf-8", b"")]:
        for eol in ("\n", "\r\n", "\r"):
            for end in ("", "\n", "    ", "\\"):
                try:
                    data = bom + (cookie + s + end).replace("\n", eol).encode(enc)
                except UnicodeEncodeError:
                    continue
                got, want = watched(lambda: compiler.compile(data, name)), native(data, name)
                try:
                    importlib.util.decode_source(data)
                except (SyntaxError, UnicodeDecodeError) as err:
                    # the wording of Python's two decoders differs, and one of them wants \n before the second line
                    ctx.step()
                    ctx.check(got[0][:2] == ("error", type(err).__name__) and (want[0][0] == "error" or eol == "\r"), f"{data!r}: {got[0]}; Python itself: {want[0]}")
                    continue
                if not same(ctx, got, want, repr(data)):
                    return


def run_stdlib(path, ctx):
    with open(path, "rb") as f:
        data = f.read()
    same(ctx, watched(lambda: compiler.compile(data, path)), native(data, path), path)
