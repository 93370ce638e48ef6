"""C15: the AST dump evaluates back to the same AST."""
import ast
import re

from mcpyrate.astdumper import dump
from mcpyrate.markers import ASTMarker
from mcpyrate.core import Done

from . import snips
from .astutil import canon, clone, slots, put

LEVEL = "model_checking"
RULE = ("cases: every snippet of the all-node-types grammar up to a nesting depth x {as is, each slot wrapped in a marker, each field missing} x attributes x color x multi-line; "
        "state: distinct tree; transition: one dump; comparison: evaluated dump equals the tree, variants differ in white space/escapes only")
BUDGET = {"quick": 600, "thorough": 4000}

_ANSI = re.compile(r"\x1b\[[0-9;]*m")


class MA(ASTMarker):
    pass


class MB(ASTMarker):
    """A marker with more fields."""
    def __init__(self, body=None, note=None, data=None):
        super().__init__(body)
        self.note = note
        self.data = data
        self._fields += ["note", "data"]


NS = {n: getattr(ast, n) for n in dir(ast) if isinstance(getattr(ast, n), type)}
NS.pop("Ellipsis")  # the deprecated node class; the dump shows the builtin constant
NS.update(MA=MA, MB=MB, Done=Done, ASTMarker=ASTMarker, inf=float("inf"), infj=complex(0, float("inf")))


def cases(tier):
    yield ["errors"]
    for s in snips.stmts(0):
        yield ["mark", s, 0]
    for e in snips.exprs(1, atoms=["x"]):
        yield ["mark", e, 1]
    group = []
    for s in snips.stmts(1):
        group.append(s)
        if len(group) == 40:
            yield ["s", group]
            group = []
    yield ["s", group]
    group = []
    for e in snips.exprs(2 if tier == "thorough" else 1):
        group.append(e)
        if len(group) == 40:
            yield ["s", group]
            group = []
    yield ["s", group]
    if tier == "thorough":
        group = []
        for i, s in enumerate(snips.stmts(2)):
            if i % 8:
                continue
            group.append(s)
            if len(group) == 100:
                yield ["s", group]
                group = []
        yield ["s", group]


def examine(ctx, tree, what, deep=True):
    want = canon(tree)
    wantattrs = canon(tree, True)
    if not ctx.state(want):
        return
    multi = dump(tree)
    one = dump(tree, multiline=False)
    ctx.step(2)
    if not ctx.check("\n" not in one, f"{what}: single-line dump has a newline"):
        return
    got = canon(eval("(" + multi + "\n)", dict(NS)))
    ctx.equal(got, want, f"{what}: evaluated multi-line dump {multi}")
    ctx.equal(re.sub(r",\n *", ", ", multi), one, f"{what}: one-line dump")
    if deep:
        for ml in (True, False):
            ctx.step(3)
            base = multi if ml else one
            ctx.equal(_ANSI.sub("", dump(tree, multiline=ml, color=True)), base, f"{what}: color, multiline={ml}")
            attr = dump(tree, multiline=ml, include_attributes=True)
            ctx.equal(canon(eval("(" + attr + "\n)", dict(NS)), True), wantattrs, f"{what}: with attributes, multiline={ml}")
            ctx.equal(_ANSI.sub("", dump(tree, multiline=ml, color=True, include_attributes=True)), attr, f"{what}: color with attributes, multiline={ml}")
    ctx.equal(canon(tree, True), wantattrs, f"{what}: dump changed the tree")


def run_case(case, ctx):
    kind = case[0]
    if kind == "s":
        for src in case[1]:
            tree = ast.parse(src)
            examine(ctx, tree, src)
            ctx.step()
            ctx.equal(canon(eval("(" + dump(tree.body) + "\n)", dict(NS))), canon(tree.body), f"list {src!r}")
            if ctx.violations:
                return
    elif kind == "mark":
        src, mode = case[1], ("eval" if case[2] else "exec")
        n = len(list(slots(ast.parse(src, mode=mode))))
        for i in range(n):
            for mk in (lambda c: MA(c), lambda c: MB(c, note="[not a list", data=[1, "a", None, MA(ast.Name(id="y"))]), lambda c: Done(MA([c, clone(c)])), lambda c: MA(None)):
                tree = ast.parse(src, mode=mode)
                slot = list(slots(tree))[i]
                put(slot, mk(slot[3]))
                examine(ctx, tree, f"{src!r} with a marker in slot {i}", deep=i % 3 == 0)
            tree = ast.parse(src, mode=mode)
            node = list(slots(tree))[i][3]
            for f in node._fields + tuple(a for a in node._attributes):
                tree = ast.parse(src, mode=mode)
                node = list(slots(tree))[i][3]
                if hasattr(node, f):
                    try:
                        delattr(node, f)
                    except AttributeError:
                        continue
                    examine(ctx, tree, f"{src!r} without {f} in slot {i}", deep=i % 3 == 0)
            if ctx.violations:
                return
    else:
        for good in ([], [[]], [None], [ast.Name(id="x"), [ast.Pass()], "s", 1, [[], [None, "["]]], ast.AST(), ast.Load(), ast.Constant(value="[x"), ast.Constant(value=b"["), ast.Constant(value=True),
                     ast.Constant(value=("a", 1)), ast.Global(names=["a", "[b"]), ast.Global(names=[]), [ast.Constant(value=1.5)], MA([[ast.Pass()], []])):
            examine(ctx, good, repr(good))
        for bad in (None, 1, "s", (), {}, object):
            ctx.step()
            ctx.trace()
            try:
                dump(bad)
            except TypeError:
                continue
            ctx.fail(f"dump({bad!r}) did not raise TypeError")
