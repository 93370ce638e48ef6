"""C14: unparse round trip, over the all-node-types grammar."""
import ast
import copy
import re

from mcpyrate.unparser import unparse, unparse_with_fallbacks, UnparserError
from mcpyrate import unparser  # noqa: F401

from . import snips

LEVEL = "model_checking"
RULE = ("cases: every snippet of the all-node-types grammar (mc/snips.py) up to a nesting depth, as module, statement list, bare node, `Expression`; "
        "state: distinct AST; transition: one rendering; comparison: re-parsed AST equal to the original, tree unchanged, color/debug text equal after removing decorations")
BUDGET = {"quick": 600, "thorough": 5000}
TIMEOUT = 60

_ANSI = re.compile(r"\x1b\[[0-9;]*m")
_LNO = re.compile(r"^(\s*)L (?: *\d+|----) ", re.M)
_INV = re.compile(r"\$(?:Module|Interactive|Expression|Expr):")
_WS = re.compile(r"\s+")


def cases(tier):
    yield ["modes"]
    for i, s in enumerate(snips.stmts(0)):
        yield ["broken", s]
    for e in snips.exprs(1, atoms=["x"]):
        yield ["brokene", e]
    group = []
    for s in snips.stmts(1):
        group.append(s)
        if len(group) == 40:
            yield ["s", group]
            group = []
    yield ["s", group]
    group = []
    for e in snips.exprs(2):
        group.append(e)
        if len(group) == 100:
            yield ["e", group]
            group = []
    yield ["e", group]
    if tier == "thorough":
        group = []
        for s in snips.stmts(2):
            group.append(s)
            if len(group) == 200:
                yield ["s", group]
                group = []
        yield ["s", group]


def d(tree, **kw):
    return ast.dump(tree, **kw)


def nd(tree):
    return ast.dump(snips.norm_joined(copy.deepcopy(tree) if False else tree))


def roundtrip(ctx, src, tree, text, mode, what):
    try:
        again = ast.parse(text, mode=mode)
    except (SyntaxError, ValueError) as err:
        ctx.fail(f"{what}: {src!r} renders to invalid code {text!r}: {err}")
        return
    want = ast.parse(src, mode=mode)
    if isinstance(tree, ast.Module) and len(want.body) != len(again.body):
        ctx.fail(f"{what}: {src!r} -> {text!r}: different number of statements")
        return
    ctx.equal(nd(again), nd(want), f"{what}: {src!r} -> {text!r}")


def decorations(ctx, tree, plain, what, kw):
    ctx.step(2)
    color = _ANSI.sub("", unparse(tree, color=True, **kw))
    ctx.equal(color, plain, f"{what}: color")
    dbg = unparse(tree, debug=True, **kw)
    stripped = _WS.sub("", _INV.sub("", _LNO.sub(r"\1", dbg)))
    ctx.equal(stripped, _WS.sub("", plain), f"{what}: debug text {dbg!r}")
    cdbg = _ANSI.sub("", unparse(tree, color=True, debug=True, **kw))
    ctx.equal(cdbg, dbg, f"{what}: color+debug")


def run_case(case, ctx):
    kind = case[0]
    if kind == "e":
        for src in case[1]:
            tree = ast.parse(src, mode="eval")
            before = d(tree, include_attributes=True)
            ctx.state(before)
            text = unparse(tree.body)
            ctx.step()
            roundtrip(ctx, src, tree, text, "eval", "expr")
            ctx.check(d(tree, include_attributes=True) == before, f"unparse changed its input {src!r}")
            if ctx.violations:
                return
    elif kind == "s":
        for src in case[1]:
            tree = ast.parse(src)
            before = d(tree, include_attributes=True)
            ctx.state(before)
            text = unparse(tree)
            ctx.step()
            roundtrip(ctx, src, tree, text, "exec", "module")
            ctx.step()
            ctx.equal(unparse(tree.body), text, f"statement list {src!r}")
            if len(tree.body) == 1:
                ctx.step()
                ctx.equal(unparse(tree.body[0]), text, f"bare statement {src!r}")
            decorations(ctx, tree, text, src, {})
            ctx.check(d(tree, include_attributes=True) == before, f"unparse changed its input {src!r}")
            # inside a block: indentation
            wrapped = "if c:\n    " + src.replace("\n", "\n    ") + "\n    pass\nelse:\n    pass"
            if "'''" not in src and "__future__" not in src and snips.valid(wrapped):
                roundtrip(ctx, wrapped, None, unparse(ast.parse(wrapped)), "exec", "in a block")
            if ctx.violations:
                return
    elif kind == "modes":
        for src in snips.exprs(1):
            tree = ast.parse(src, mode="eval")
            ctx.step()
            ctx.state("E" + d(tree))
            text = unparse(tree)
            roundtrip(ctx, src, tree, text, "eval", "Expression")
            decorations(ctx, tree, text, "Expression " + src, {})
            decorations(ctx, tree.body, unparse(tree.body), "expr " + src, {})
            ctx.step()
            roundtrip(ctx, src, tree, unparse([tree.body]), "eval", "list with an expression")
            if len(ctx.violations) > 3:
                return
        for src in snips.stmts(0):
            src = src + "\n"
            try:
                tree = ast.parse(src, mode="single")
            except SyntaxError:
                continue
            ctx.step()
            ctx.state("I" + d(tree))
            text = unparse(tree)
            roundtrip(ctx, src, ast.parse(src), text, "exec", "Interactive")
            decorations(ctx, tree, text, "Interactive " + src, {})
        # whole modules: every pair of adjacent simple statements keeps its order
        ss = [s for s in snips.stmts(0)]
        for a, b in zip(ss, ss[1:] + ss[:1]):
            src = a + "\n" + b + "\n"
            if snips.valid(src):
                tree = ast.parse(src)
                ctx.step()
                roundtrip(ctx, src, tree, unparse(tree), "exec", "two statements")
    else:  # every single damage of every node of a small tree: rendering for error messages never raises
        src = case[1]
        def fresh():
            return ast.parse(src) if kind == "broken" else ast.parse(src, mode="eval")
        n = len(list(ast.walk(fresh())))
        for i in range(n):
            node0 = list(ast.walk(fresh()))[i]
            for f in node0._fields + node0._attributes:
                for damage in ("del", None, 1, "s", [], [None], "selfmarker"):
                    tree = fresh()
                    node = list(ast.walk(tree))[i]
                    if not hasattr(node, f):
                        continue
                    if damage == "del":
                        try:
                            delattr(node, f)
                        except AttributeError:
                            continue
                    elif damage == "selfmarker":
                        setattr(node, f, object())
                    else:
                        setattr(node, f, damage)
                    for kw in ({}, {"debug": True, "color": True}):
                        ctx.step()
                        try:
                            text = unparse_with_fallbacks(tree, **kw)
                        except Exception as err:
                            ctx.fail(f"unparse_with_fallbacks raised {err!r} on {src!r} with {type(node).__name__}.{f} = {damage!r}")
                            return
                        ctx.trace()
                        ctx.check(isinstance(text, str), "not a string")
                ctx.state((src, i, f))
        for junk in (None, 1, "s", object(), [None], [1], (), {}, ast.expr(), ast.stmt(), ast.AST(), ast.Load()):
            text = unparse_with_fallbacks(junk)
            ctx.check(isinstance(text, str), "not a string")
            try:
                unparse(junk)
            except UnparserError:
                pass
            except Exception:
                pass
