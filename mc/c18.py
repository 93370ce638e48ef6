"""C18: context fixing gives the parser's contexts."""
import ast

from mcpyrate.astfixers import fix_ctx

from . import snips
from .astutil import canon, slots, put, preorder

LEVEL = "model_checking"
RULE = ("cases: every statement of the all-node-types grammar and all assignment-target shapes nested to a depth x initial contexts {all Load, all Store, all Del, missing, rotating} "
        "x {distinct nodes, all equal expressions shared as one object, all equal nodes shared, one pair of equal expressions shared} x both modes; state: distinct (tree, initial contexts, sharing); "
        "transition: one fix_ctx run; comparison: result equals the parser's tree")
BUDGET = {"quick": 600, "thorough": 4000}

CTX = (ast.Load, ast.Store, ast.Del)


def targets(depth):
    yield "x"
    yield "f().a"
    yield "x[x]"
    yield "x.a.b"
    yield "x[x:x, x]"
    yield "x[x[x]][x.x]"
    yield "(lambda y=x: x).a"
    yield "[x for x in x][x]"
    yield "(x := x)[x].a"
    if depth:
        subs = list(targets(depth - 1))
        for a in subs:
            yield f"({a},)"
            yield f"[{a}]"
            yield f"({a}).a"
            yield f"({a})[x]"
            yield f"x[{a}]"
            for b in subs[:9]:
                yield f"{a}, {b}"
                yield f"[{a}, ({b})]"


def target_stmts(depth):
    for t in targets(depth):
        yield f"{t} = x"
        yield f"x = {t} = {t}"
        yield f"del {t}"
        yield f"for {t} in x: x"
        yield f"for x in {t}: {t} = x"
        yield f"with x as ({t}), {t} as x: {t}"
        yield f"[x for {t} in {t} if {t}]"
        yield f"{t} += x"
        yield f"{t}: {t} = {t}"
        yield f"{t}, *{t} = x"
        yield f"async def f():\n async for {t} in {t}:\n  async with {t} as ({t}): pass"
        yield f"(x := {t}).x = {t}"
        yield f"x[{t}], x.x = {t}"
        yield f"type x = {t}"
        yield f"match {t}:\n case x.x if {t}: {t} = x"
        yield f"{{({t}): {t} async for {t} in {t}}}"
        yield f"def x(x: {t} = {t}, *, y={t}) -> {t}: {t} = x"
        yield f"class x({t}, x={t}): {t} = {t}"


def cases(tier):
    group = []
    def g(gen):
        seen = set()
        group = []
        for s in gen:
            if s in seen or not snips.valid(s):
                continue
            seen.add(s)
            group.append(s)
            if len(group) == 30:
                yield group
                group = []
        yield group
    for x in g(target_stmts(1)):
        yield x
    for x in g(snips.stmts(1)):
        yield x
    for x in g(snips.exprs(1)):
        yield x
    if tier == "thorough":
        for x in g(target_stmts(2)):
            yield x
        for x in g(snips.exprs(2)):
            yield x


def scramble(tree, mode):
    k = 0
    for n in preorder(tree):
        if "ctx" in n._fields:
            if mode == "missing":
                del n.ctx
            elif mode == "rotate":
                n.ctx = CTX[k % 3]()
                k += 1
            else:
                n.ctx = CTX[mode]()


def key(n):
    """Canonical form without contexts."""
    if isinstance(n, ast.AST):
        return (type(n).__name__, tuple(key(getattr(n, f)) for f in n._fields if f != "ctx" and hasattr(n, f)))
    if isinstance(n, list):
        return tuple(key(x) for x in n)
    return (type(n).__name__, repr(n))


def share(tree, cls, only=None):
    """Make all equal nodes (contexts aside) of class `cls` one object. Return the number of shared occurrences."""
    seen = {}
    count = 0
    for i, slot in enumerate(list(slots(tree))):
        n = slot[3]
        if isinstance(n, cls) and not isinstance(n, (ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
            k = key(n)
            if only is not None and k != only:
                continue
            if k in seen:
                put(slot, seen[k])
                count += 1
            else:
                seen[k] = n
    return count


def run_case(case, ctx):
    for src in case:
        want = canon(ast.parse(src))
        for mode in (0, 1, 2, "missing", "rotate"):
            for copying in (False, True):
                tree = ast.parse(src)
                scramble(tree, mode)
                ctx.state((src, mode))
                ctx.step()
                loc = canon(ast.parse(src), True)
                res = fix_ctx(tree, copy_seen_nodes=copying)
                ctx.check(res is tree, f"{src!r}: not in place")
                ctx.equal(canon(res, True), loc, f"{src!r} from {mode}, copying={copying}")
                tree = ast.parse(src)
                scramble(tree, mode)
                ctx.step()
                res = fix_ctx(tree.body, copy_seen_nodes=copying)
                ctx.equal(canon(res), canon(ast.parse(src).body), f"statement list {src!r} from {mode}, copying={copying}")
            for cls in (ast.expr, ast.AST):
                tree = ast.parse(src)
                if not share(tree, cls):
                    continue
                scramble2 = {id(n): n for n in preorder(tree)}
                for j, n in enumerate(scramble2.values()):
                    if "ctx" in n._fields:
                        if mode == "missing":
                            del n.ctx
                        else:
                            n.ctx = CTX[(j if mode == "rotate" else mode) % 3]()
                ctx.state((src, mode, cls.__name__))
                ctx.step()
                res = fix_ctx(tree, copy_seen_nodes=True)
                ctx.equal(canon(res), want, f"{src!r} from {mode} with equal {cls.__name__} nodes shared")
        # one kind of expression shared at a time
        kinds = []
        for n in preorder(ast.parse(src)):
            if isinstance(n, ast.expr):
                k = key(n)
                if k not in kinds:
                    kinds.append(k)
        for k in kinds:
            tree = ast.parse(src)
            if share(tree, ast.expr, only=k):
                ctx.state((src, k))
                ctx.step()
                res = fix_ctx(tree, copy_seen_nodes=True)
                ctx.equal(canon(res), want, f"{src!r} with {k} shared")
        if ctx.violations:
            return
