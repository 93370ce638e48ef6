"""A grammar of Python source snippets that reaches every AST node type, in every field, nested to a depth bound.

`exprs(d)` and `stmts(d)` enumerate; nothing is sampled. In a template, `{e}` is a hole for an expression and
`{s}` (on a line of its own) a hole for a statement suite. At depth d, one hole at a time of each template holds
each snippet of depth d-1, and the other holes hold a default.
"""
import ast
import re

ATOMS = ["x", "1", "'a'", "b'b'", "1.5", "2j", "None", "True", "...", "''", "u'u'", "10**40", "1e999", "'it\\'s \"q\" \\n\\\\ {z} \u00e4'",
         "b'\\x00\\xff'", "()", "[]", "{{}}", "f'f'", "'\\N{{GREEK SMALL LETTER LAMDA}}'", "'\\ud800'"]
ATOMS = [a.replace("{{", "{").replace("}}", "}") for a in ATOMS]

EXPR = [
    "{e} + {e}", "{e} - {e}", "{e} * {e}", "{e} @ {e}", "{e} / {e}", "{e} // {e}", "{e} % {e}", "{e} ** {e}",
    "{e} << {e}", "{e} >> {e}", "{e} & {e}", "{e} | {e}", "{e} ^ {e}",
    "-{e}", "+{e}", "~{e}", "not {e}",
    "{e} and {e}", "{e} or {e}", "{e} and {e} or {e}",
    "{e} < {e}", "{e} <= {e} > {e}", "{e} == {e}", "{e} != {e}", "{e} >= {e}", "{e} is {e}", "{e} is not {e}", "{e} in {e}", "{e} not in {e}",
    "{e}.attr", "{e}.a.b", "{e}[{e}]", "{e}[{e}:{e}:{e}]", "{e}[:]", "{e}[{e}:]", "{e}[:{e}]", "{e}[::{e}]", "{e}[{e}, {e}]",
    "{e}[{e}:{e}, {e}]", "{e}[{e},]", "{e}[()]", "{e}[*{e}]", "{e}[*{e}, {e}]", "{e}[({e}, {e}), {e}]", "{e}[..., {e}]",
    "{e}()", "{e}({e}, {e})", "{e}(k={e})", "{e}({e}, *{e}, k={e}, **{e})", "{e}(*{e}, {e}, **{e}, j={e})", "{e}({e} for z in {e})",
    "({e},)", "({e}, {e})", "({e}, *{e})", "[{e}]", "[{e}, *{e}]", "{{{e}}}", "{{{e}, {e}}}", "{{*{e}, {e}}}", "{{{e}: {e}}}", "{{**{e}}}", "{{{e}: {e}, **{e}, {e}: {e}}}",
    "[{e} for z in {e}]", "[{e} for z in {e} if {e} if {e}]", "[{e} for y, (z, *w) in {e} for v in {e}]", "{{{e} for z in {e}}}",
    "{{{e}: {e} for z in {e} if {e}}}", "({e} for z in {e})", "[{e} async for z in {e}]", "({e} async for z in {e} if {e} async for w in {e})",
    "[{e} for z.a in {e}]", "[{e} for z[{e}] in {e}]",
    "lambda: {e}", "lambda a: {e}", "lambda a, b={e}, *c, d, e={e}, **f: {e}", "lambda a, /, b: {e}", "lambda a={e}, /, b={e}, *, c={e}: {e}", "lambda *a: {e}", "lambda *, a: {e}", "lambda **a: {e}",
    "{e} if {e} else {e}", "(z := {e})", "await {e}", "(yield)", "(yield {e})", "(yield from {e})",
    "f'{{{e}}}'", "f'a{{{e}}}b{{{e}!r}}c'", "f'{{{e}:>10}}'", "f'{{{e}!s:{{{e}}}}}'", "f'{{{e}!a:a{{{e}}}b}}'", "f'{{{{{{{e}}}}}}}'", "f'\\n\\\\\\'{{{e}}}\"'", "'a' f'{{{e}}}' 'b'", "f'{{{e}=}}'",
    "f'{{{e}:\\x7b\\x7d}}'", "f'\\r\\0{{{e}}}'",
]
# the f-string of a dict or set needs a space after the brace, so those are separate (not parenthesized)
EXPR_FLAT = ["f'{ {1, 2} }'", "f'{ {1: 2}[1]}'", "f'{ {z for z in x} }'", "a[b:c, d:e:f]", "a[:, None]", "x.y.z[0](1)[2]", "-1", "1 .real", "1.5.real", "1j.imag", "-1 ** 2", "(-1) ** 2",
             "2 ** -1", "not not x", "- - x", "a < b < c", "(a < b) < c", "a < (b < c)", "(a, b) < c", "(a and b) and c", "a and (b and c)", "(a or b) and c", "a or b and c",
             "(lambda: x)()", "(yield)", "(await x)[0]", "(x if y else z)(w)", "x if y else (z if w else v)", "(x if y else z) if w else v", "lambda: (yield)", "lambda: lambda: x",
             "'a' 'b'", "(a := (b := c))", "[*a, *b]", "f(*a, *b, **c, **d)", "f(a)(b)(c)", "print((yield))", "{**{}, 'a': 1}", "x[y][z]", "(1).real", "True.real", "....__class__", "None.__class__", "'a'.join(b)",
             "f'{x!r:{w}.{p}}'", "f'{f\"{x}\"}'", "f'{x}{y}'", "f''", "f'{lambda_:x}'", "f'{(lambda: 1)}'", "f'{(a := 1)}'", "f'{a!=b}'", "f'{x:%Y-%m}'", "f'''{\nx\n}'''", "rf'\\d{x}'", "'\\t\\x07\\u2028'"]

PATTERNS = ["_", "a", "1", "-1", "1.5", "2j", "1+2j", "-1-2j", "'s'", "'s' 't'", "b'b'", "None", "True", "x.y", "x.y.z", "[]", "[a]", "[a, b]", "(a, *rest)", "[*_]", "[a, *_, b]", "a, b", "()",
            "{}", "{{'k': v}}", "{{1: a, **rest}}", "{{**rest}}", "{{-1: a, x.y: b, None: c}}", "{{1+2j: a}}", "C()", "C(a)", "C(a, b=c)", "C(b=c, d=1)", "x.C(a)", "a as b", "[a] as b", "(1 | 2) as b", "1 | 2", "(1 | 2) | 3", "(1 as a) | (2 as a)",
            "[1 | 2, (3 as a)]", "C(1 | 2, b=(3 | 4))", "{{'k': 1 | 2}}", "(C(a) as b) | (D(a) as b)", "[a, [b, {{'k': c}}]]", "((1 as a) | 2) as b"]
PATTERNS = [p.replace("{{", "{").replace("}}", "}") for p in PATTERNS]

STMT = [
    "{e}", "x = {e}", "x = y = {e}", "x, y = {e}", "(x, *y) = {e}", "[x, y] = {e}", "x.a = {e}", "{e}.a = {e}", "{e}[{e}] = {e}", "x[{e}:{e}] = {e}", "x, (y.a, z[{e}]) = {e}",
    "x += {e}", "x.a -= {e}", "x[{e}] *= {e}", "x @= {e}", "x /= {e}", "x //= {e}", "x %= {e}", "x **= {e}", "x <<= {e}", "x >>= {e}", "x &= {e}", "x |= {e}", "x ^= {e}",
    "x: {e}", "x: {e} = {e}", "x.a: {e}", "x[{e}]: {e} = {e}", "(x): {e}", "(x): {e} = {e}",
    "del x", "del x, y.a, z[{e}]", "del (x, [y])", "del (x,)", "pass", "break", "continue", "return", "return {e}", "return {e}, *{e}", "raise", "raise {e}", "raise {e} from {e}", "assert {e}", "assert {e}, {e}",
    "global g", "global g, h", "nonlocal g, h",
    "import m", "import m as n, o.p", "from m import a", "from m import a as b, c", "from . import a", "from .. import a", "from .m import a", "from ...m.n import *", "from m import *",
    "type A = {e}", "type A[T] = {e}", "type A[T: {e}, *Ts, **P] = {e}", "type A[T: ({e}, {e})] = {e}",
    "if {e}:\n    {s}", "if {e}:\n    {s}\nelse:\n    {s}", "if {e}:\n    {s}\nelif {e}:\n    {s}\nelse:\n    {s}", "if {e}:\n    {s}\nelse:\n    {s}\n    {s}",
    "while {e}:\n    {s}", "while {e}:\n    {s}\nelse:\n    {s}",
    "for z in {e}:\n    {s}", "for y, z in {e}:\n    {s}\nelse:\n    {s}", "for z.a in {e}:\n    {s}", "for z[{e}] in {e}:\n    {s}", "for z in *{e}, {e}:\n    {s}", "for (y, *z) in {e}:\n    {s}", "for [y, z] in {e}:\n    {s}",
    "async for z in {e}:\n    {s}", "async for y, z in {e}:\n    {s}\nelse:\n    {s}",
    "with {e}:\n    {s}", "with {e} as z:\n    {s}", "with {e} as (y, z), {e}:\n    {s}", "with {e} as z.a, {e} as z[{e}]:\n    {s}", "with ({e}, {e}) as z:\n    {s}", "with (({e}, {e})):\n    {s}", "with {e}, ({e}, {e}):\n    {s}", "with (({e},)):\n    {s}", "with ():\n    {s}",
    "with {e} as [y, *z]:\n    {s}", "async with {e} as z:\n    {s}", "async with {e}, {e}:\n    {s}",
    "try:\n    {s}\nfinally:\n    {s}", "try:\n    {s}\nexcept:\n    {s}", "try:\n    {s}\nexcept {e}:\n    {s}", "try:\n    {s}\nexcept {e} as z:\n    {s}\nexcept ({e}, {e}):\n    {s}\nelse:\n    {s}\nfinally:\n    {s}",
    "try:\n    {s}\nexcept* {e}:\n    {s}", "try:\n    {s}\nexcept* {e} as z:\n    {s}\nexcept* ({e}, {e}):\n    {s}\nelse:\n    {s}\nfinally:\n    {s}",
    "def f():\n    {s}", "def f(a):\n    {s}", "def f(a, b={e}, *c, d, e={e}, **g) -> {e}:\n    {s}", "def f(a: {e}, /, b: {e} = {e}, *c: {e}, d: {e} = {e}, **g: {e}):\n    {s}", "def f(a, /, *, b):\n    {s}", "def f(*, a, b={e}):\n    {s}", "def f(*c: *{e}):\n    {s}", "def f(a={e}, /):\n    {s}",
    "@{e}\ndef f():\n    {s}", "@{e}\n@{e}\ndef f():\n    {s}\n    {s}", "async def f(a={e}):\n    {s}", "@{e}\nasync def f():\n    {s}", "def f[T](a: T) -> T:\n    {s}", "def f[T: {e}, *Ts, **P](*a):\n    {s}", "async def f[T]():\n    {s}",
    "def f():\n    'doc'\n    {s}", "class C:\n    'doc'\n    {s}",
    "class C:\n    {s}", "class C():\n    {s}", "class C({e}, {e}):\n    {s}", "class C({e}, k={e}, *{e}, **{e}):\n    {s}", "@{e}\nclass C({e}):\n    {s}\n    {s}", "class C[T]:\n    {s}", "class C[T: ({e}, {e}), *Ts, **P]({e}):\n    {s}",
    "match {e}:\n    case _:\n        {s}", "match {e}, {e}:\n    case _:\n        {s}", "match *{e}, {e}:\n    case _:\n        {s}", "match {e}:\n    case [a] if {e}:\n        {s}\n    case (1 | 2) if {e}:\n        {s}\n    case (1 as b) if {e}:\n        {s}", "match ({e},):\n    case x.y:\n        {s}",
]
STMT_FLAT = ["match x:\n    case %s:\n        pass" % p for p in PATTERNS] + [
    "'docstring'", "x = 1; y = 2", "if a:\n    pass\nelse:\n    if b:\n        pass\n    else:\n        pass", "if a:\n    if b:\n        pass\nelse:\n    pass",
    "try:\n    try:\n        pass\n    except* A:\n        pass\nexcept B:\n    try:\n        pass\n    except* C:\n        pass", "try:\n    pass\nexcept A:\n    try:\n        pass\n    except* B:\n        try:\n            pass\n        except C:\n            pass\nexcept D:\n    pass",
    "try:\n    pass\nexcept* A:\n    try:\n        pass\n    except B:\n        pass\nexcept* C:\n    pass", "match = 1", "case = match[0]", "type = 1", "_ = type(x)", "match(x)", "print(x, file=y)", "def f():\n    return\n    yield", "async def f():\n    async with a as b, c:\n        async for d in e:\n            await d\n            yield [z async for z in e]",
    "class A:\n    class B:\n        def f(self):\n            nonlocal_ = 1\n            def g():\n                nonlocal nonlocal_\n                global z", "@a.b(c)[d]\n@(e := f)\ndef g(): pass", "x: int = *a, b", "for x in a, b: pass", "return_ = lambda *a, **k: (a, k)", "a = b = c, d = e", "x = yield", "x = yield y", "x = await y", "x += yield", "del a[b:c]", "del a.b.c", "with a as b: pass\nwith c: pass", "with (a as b, c as d): pass", "with (yield): pass", "with (a): pass",
    "def f(a=1, /, b=2, *args: *Ts, c, d=3, **kw: int) -> None: ...", "lambda a, b=1, /, c=2, *d, e, f=3, **g: 0", "type X[T, *U, **V] = dict[T, V]", "assert (a, b)", "global a\nglobal b", "from __future__ import annotations", "raise (yield)", "if (x := y): pass", "while (x := y) > 0: pass", "return (yield)", "x = (1,)", "x = ()", "x[()] = ()", "x = a if b else c, d",
    "'''multi\nline'''", "x = '''multi\n    line\n\ttab'''", "x = 1_000", "x = 0xff", "x = 1e100", "x = 1e-7", "x = 123456789012345678901234567890", "x = .1", "x = 1.", "x = 1e1000j",
]

_HOLE = re.compile(r"\{e\}|\{s\}|\{\{|\}\}")


def _parse_template(t):
    """-> list of str | ("e",) | ("s", indent)"""
    parts = []
    pos = 0
    for m in _HOLE.finditer(t):
        parts.append(t[pos:m.start()])
        if m.group() == "{e}":
            parts.append(("e",))
        elif m.group() == "{s}":
            indent = m.start() - (t.rfind("\n", 0, m.start()) + 1)
            parts.append(("s", indent))
        else:
            parts.append(m.group()[0])
        pos = m.end()
    parts.append(t[pos:])
    return parts


def _fill(parts, k, sub, default_e="x", default_s="pass"):
    """Fill hole number `k` with `sub`, others with the default."""
    out = []
    j = 0
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        this = j == k
        j += 1
        if p[0] == "e":
            if this:
                out.append("(" + sub + ")" if not _isatom(sub) else sub)
            else:
                out.append(default_e)
        else:
            out.append((sub if this else default_s).replace("\n", "\n" + " " * p[1]))
    return "".join(out)


def _isatom(s):
    return s in ATOMS_SET


ATOMS_SET = {"x", "'a'", "None", "()", "[]"}
_E = [(t, _parse_template(t)) for t in EXPR]
_S = [(t, _parse_template(t)) for t in STMT]


def holes(parts, kind):
    j = 0
    for p in parts:
        if not isinstance(p, str):
            if p[0] == kind:
                yield j
            j += 1


def valid(text, mode="exec"):
    try:
        ast.parse(text, mode=mode)
        return True
    except (SyntaxError, ValueError):
        return False


def exprs(depth, atoms=None):
    """All expressions of at most `depth` levels of templates. Each is valid Python."""
    seen = set()
    for e in (atoms or ATOMS):
        if e not in seen:
            seen.add(e)
            yield e
    if depth < 1:
        return
    for e in EXPR_FLAT:
        if e not in seen and valid(e, "eval"):
            seen.add(e)
            yield e
    for t, parts in _E:
        e = _fill(parts, -1, None)
        if e not in seen and valid(e, "eval"):
            seen.add(e)
            yield e
    if depth == 1 and atoms is None:
        subs = ATOMS
    elif depth == 1:
        subs = atoms
    else:
        subs = list(exprs(depth - 1, atoms=["x", "1", "'a'"]))
    for t, parts in _E:
        for k in holes(parts, "e"):
            for sub in subs:
                e = _fill(parts, k, sub)
                if e not in seen and valid(e, "eval"):
                    seen.add(e)
                    yield e


def stmts(depth):
    """All statements of at most `depth` levels of statement templates, with expressions of depth `depth`-1."""
    seen = set()
    def new(s):
        if s not in seen and valid(s):
            seen.add(s)
            return True
        return False
    for t, parts in _S:
        s = _fill(parts, -1, None)
        if new(s):
            yield s
    for s in STMT_FLAT:
        if new(s):
            yield s
    if depth < 1:
        return
    esubs = list(exprs(depth - 1 if depth > 1 else 0)) if depth < 2 else list(exprs(1, atoms=["x", "1", "'a'"]))
    ssubs = list(stmts(depth - 1)) if depth > 1 else list(stmts(0))
    for t, parts in _S:
        for k in holes(parts, "e"):
            for sub in esubs:
                s = _fill(parts, k, sub)
                if new(s):
                    yield s
        for k in holes(parts, "s"):
            for sub in ssubs:
                s = _fill(parts, k, sub)
                if new(s):
                    yield s


def norm_joined(tree):
    """Canonicalize f-strings: merge adjacent constants, drop empty ones (the parser is not consistent here)."""
    for node in ast.walk(tree):
        if isinstance(node, ast.JoinedStr):
            out = []
            for v in node.values:
                if isinstance(v, ast.Constant):
                    if not v.value:
                        continue
                    if out and isinstance(out[-1], ast.Constant):
                        out[-1] = ast.Constant(value=out[-1].value + v.value)
                        continue
                    v = ast.Constant(value=v.value)
                out.append(v)
            node.values = out
    return tree
