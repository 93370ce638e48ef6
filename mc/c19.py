"""C19: location fixing."""
import ast
import itertools

from mcpyrate.astfixers import fix_locations
from mcpyrate.core import Done

from .astutil import ATTRS, preorder, canon

LEVEL = "model_checking"
RULE = ("cases: template trees (expressions, statements, suites, nodes without locations in between, markers) x all assignments of {located, unlocated, no line, no column, no end} to their nodes x modes x reference nodes "
        "{full, without end, without column, without info} x {single node, list, None}; state: distinct (tree, assignment); transition: one fix_locations run; comparison: all positions as the specification says; the code compiles")
BUDGET = {"quick": 600, "thorough": 3000}

TREES = {
    "binop": "x + y",
    "call": "f(a, k=b)",
    "sub": "x[a:b]",
    "lambda": "lambda p, *q: p",
    "comp": "[a for b in c]",
    "assign": "x = y",
    "if": "if a:\n    b\nelse:\n    c",
    "def": "def f(p=a): return p",
    "with": "with a as b: pass",
    "try": "try: a\nexcept B: pass",
    "import": "from m import a, b",
    "match": "match a:\n    case [b, 1]: pass",
    "fstr": "f'{a}'",
    "class": "@d\nclass C(b): pass",
    "two": "a\nb = c",
    "type": "type A[T: b] = c",
    "chain": "a.b.c.d",
    "nested": "if a:\n    if b:\n        c(d)",
}
REFS = ("full", "noend", "nocol", "none", "noline")
BIG = ("nested", "match", "try", "class", "comp", "if", "def")


def cases(tier):
    for name in TREES:
        for wrap in ("module", "list", "marker", "stmt"):
            n = nlocated(TREES[name])
            for first in STATES:
                for mode in ("reference", "update", "overwrite"):
                    yield [name, wrap, first, mode, n if tier == "thorough" else min(n, 5)]
    yield ["none", "", "", "", 0]


STATES = ("full", "none", "noline", "nocol", "noend")


def nlocated(src):
    return sum("lineno" in n._attributes for n in preorder(ast.parse(src)))


def build(src, wrap, states):
    """Parse `src`; give located nodes pairwise different positions according to `states`."""
    mod = ast.parse(src)
    nodes = [n for n in preorder(mod) if "lineno" in n._attributes]
    for i, (n, st) in enumerate(zip(nodes, states)):
        vals = {"lineno": 100 + 10 * i, "col_offset": 5 + i, "end_lineno": 101 + 10 * i, "end_col_offset": 50 + i}
        for a in ATTRS:
            if a in n.__dict__ or True:
                try:
                    delattr(n, a)
                except AttributeError:
                    pass
        drop = {"full": (), "none": ATTRS, "noline": ("lineno", "end_lineno"), "nocol": ("col_offset", "end_col_offset"), "noend": ("end_lineno", "end_col_offset")}[st]
        for a in ATTRS:
            if a not in drop:
                setattr(n, a, vals[a])
    if wrap == "module":
        return mod, mod
    if wrap == "list":
        return mod.body, mod
    if wrap == "stmt":
        return mod.body[0], mod
    m = Done(mod.body)
    return m, mod


def makeref(kind):
    r = ast.Name(id="ref", ctx=ast.Load())
    if kind in ("full", "noend", "nocol"):
        r.lineno = 7
    if kind in ("full", "noend", "noline"):
        r.col_offset = 3
    if kind in ("full",):
        r.end_lineno = 9
        r.end_col_offset = 33
    return r


def get(n, a):
    return getattr(n, a, None)


def expected(tree, ref, mode):
    """{id(node): {attr: value}}; attributes left out are unspecified."""
    out = {}
    def visit(x, line, col, endline, endcol):
        if isinstance(x, list):
            for y in x:
                visit(y, line, col, endline, endcol)
            return
        if not isinstance(x, ast.AST):
            return
        if "lineno" in x._attributes:
            want = {}
            for a, e, rv, re_ in (("lineno", "end_lineno", line, endline), ("col_offset", "end_col_offset", col, endcol)):
                if mode == "overwrite" or get(x, a) is None:
                    want[a] = rv
                    if get(x, e) is None or mode == "overwrite":
                        if re_ is not UNSPEC:
                            want[e] = re_
                else:
                    want[a] = get(x, a)
                    if get(x, e) is not None:
                        want[e] = get(x, e)
            out[id(x)] = want
            if mode == "update":
                line, col = want["lineno"], want["col_offset"]
                endline = want.get("end_lineno", UNSPEC)
                endcol = want.get("end_col_offset", UNSPEC)
        for f in x._fields:
            visit(getattr(x, f, None), line, col, endline, endcol)
    def end(a):
        return UNSPEC if get(ref, a) is None else get(ref, a)
    visit(tree, ref.lineno, ref.col_offset, end("end_lineno"), end("end_col_offset"))
    return out


UNSPEC = object()


def run_case(case, ctx):
    name, wrap, first, mode, free = case
    if name == "none":
        for mode in ("reference", "update", "overwrite"):
            for ref in REFS:
                ctx.step()
                ctx.state((mode, ref))
                ctx.equal(fix_locations(None, makeref(ref), mode=mode), None, "no tree")
                ctx.equal(fix_locations([], makeref(ref), mode=mode), [], "empty list")
            lst = [None, ast.Name(id="x")]
            r = fix_locations(lst, makeref("full"), mode=mode)
            ctx.check(r is lst and lst[0] is None and lst[1].lineno == 7, "list with None")
        return
    src = TREES[name]
    n = nlocated(src)
    free = min(n - 1, free - 1)
    # all assignments to the first `free` nodes after the first; the rest repeat each single state
    for states in itertools.product(STATES, repeat=free):
        for tail in (("none", "full") if n - 1 > free else ("",)):
            st = (first,) + states + (tail,) * (n - 1 - free)
            for refkind in REFS:
                tree, mod = build(src, wrap, st)
                ref = makeref(refkind)
                before = canon(tree)
                nodes = {id(x): x for x in preorder(tree)}
                if refkind in ("full", "noend"):
                    want = expected(tree, ref, mode)
                else:
                    want = {i: {a: get(x, a) for a in ATTRS} for i, x in nodes.items() if "lineno" in x._attributes}
                ctx.state((src, wrap, st))
                ctx.step()
                res = fix_locations(tree, ref, mode=mode)
                if not ctx.check(res is tree, "did not return the tree"):
                    return
                ctx.trace()
                for i, w in want.items():
                    for a, v in w.items():
                        g = get(nodes[i], a)
                        if g != v:
                            ctx.fail(f"{src!r} ({wrap}), nodes {st}, mode={mode}, reference {refkind}: {type(nodes[i]).__name__}.{a} = {g}, should be {v}")
                            return
                if canon(tree) != before:
                    ctx.fail(f"{src!r}: changed more than locations")
                    return
                if wrap in ("module", "list") and refkind in ("full", "noend") and set(st) <= {"full", "none"}:
                    ctx.step()
                    try:
                        compile(mod, "<c19>", "exec")
                    except Exception as err:
                        ctx.fail(f"{src!r}, nodes {st}, mode={mode}, reference {refkind}: does not compile: {err!r}")
                        return
