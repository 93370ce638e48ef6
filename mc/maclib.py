"""A library of small macros for exploring the expander. Each logs how it was called; the log is part of the behaviour."""
import ast
import sys
import types

from mcpyrate import namemacro, parametricmacro
from mcpyrate.core import Done

from .astutil import clone
from .refx import is_name, nf

LOG = []


class Boom(Exception):
    pass


def aslist(t):
    if t is None:
        return []
    return list(t) if isinstance(t, list) else [t]


def P(src):
    return ast.parse(src, mode="eval").body


def wrapped(tag, tree, syntax):
    """Put `tree` in something recognisable."""
    if syntax in ("expr", "name"):
        return ast.Tuple(elts=[ast.Constant(value=tag)] + aslist(tree), ctx=ast.Load())
    return ast.If(test=ast.Constant(value=tag), body=aslist(tree) or [ast.Pass()], orelse=[])


def invoke(name, tree, syntax, args=()):
    """An invocation of the macro `name` on `tree`."""
    head = ast.Name(id=name, ctx=ast.Load())
    if args:
        head = ast.Subscript(value=head, slice=ast.Tuple(elts=list(args), ctx=ast.Load()), ctx=ast.Load())
    if syntax in ("expr", "name"):
        return ast.Subscript(value=head, slice=tree, ctx=ast.Load())
    if syntax == "block":
        return ast.With(items=[ast.withitem(context_expr=head, optional_vars=None)], body=aslist(tree))
    tree.decorator_list.append(head)
    return tree


def noting(name):
    def deco(f):
        def macro(tree, *, syntax, expander, invocation, args=None, optional_vars="absent", **kw):
            LOG.append((name, syntax, nf(tree), nf(list(args or [])), nf(invocation), nf(optional_vars) if isinstance(optional_vars, ast.AST) else optional_vars,
                        expander.recursive if syntax != "name" else None, tuple(sorted(kw))))
            mode = expander.recursive
            r = f(tree, syntax, expander, args or [])
            if expander.recursive != mode:
                LOG.append((name, "mode changed"))
            return r
        macro.__name__ = name
        return macro
    return deco


LIB = {}
# Pickled by reference (the macro bindings are captured hygienically), so findable by name.
NAMES = types.ModuleType("mc_maclib_names")
sys.modules["mc_maclib_names"] = NAMES


def macro(name, param=False, isname=False):
    def deco(f):
        m = noting(name)(f)
        if param:
            m = parametricmacro(m)
        if isname:
            m = namemacro(m)
        LIB[name] = m
        m.__module__, m.__qualname__ = "mc_maclib_names", name
        setattr(NAMES, name, m)
        return m
    return deco


@macro("ident")
def _(tree, syntax, expander, args):
    return tree


@macro("drop")
def _(tree, syntax, expander, args):
    return None


@macro("wrap")
def _(tree, syntax, expander, args):
    return wrapped("wrap", tree, syntax)


@macro("inner")
def _(tree, syntax, expander, args):
    return wrapped("inner", expander.visit(tree), syntax)


@macro("once")
def _(tree, syntax, expander, args):
    return wrapped("once", expander.visit_once(tree), syntax)


@macro("peel")
def _(tree, syntax, expander, args):
    return wrapped("peel", expander.visit_once(tree).body, syntax)


@macro("rec")
def _(tree, syntax, expander, args):
    return wrapped("rec", expander.visit_recursively(tree), syntax)


@macro("twice")  # two explicit expansions of copies, in different modes
def _(tree, syntax, expander, args):
    a, b = clone(tree), clone(tree)
    r1 = expander.visit_once(a)
    r2 = expander.visit(b)
    if syntax == "expr":
        return ast.List(elts=[r1] + aslist(r2), ctx=ast.Load())
    return [r1] + aslist(r2)


@macro("chain")
def _(tree, syntax, expander, args):
    return invoke("wrap", tree, syntax)


@macro("dup")
def _(tree, syntax, expander, args):
    if syntax == "expr":
        return ast.List(elts=[tree, clone(tree)], ctx=ast.Load())
    return aslist(tree) + clone(aslist(tree))


@macro("done")
def _(tree, syntax, expander, args):
    return Done(tree)


@macro("multi")
def _(tree, syntax, expander, args):
    return aslist(tree) + [P("second") if syntax == "expr" else ast.parse("second").body[0]]


@macro("gen")
def _(tree, syntax, expander, args):
    yield from aslist(tree)
    yield P("wrap[generated]") if syntax == "expr" else ast.parse("with wrap:\n    generated").body[0]


@macro("tup")
def _(tree, syntax, expander, args):
    return tuple(aslist(tree))


@macro("count", param=True)  # expands to itself with a smaller number
def _(tree, syntax, expander, args):
    n = args[0].value if args and type(args[0]) is ast.Constant else 2
    if n <= 0:
        return wrapped("zero", tree, syntax)
    return invoke("count", tree, syntax, [ast.Constant(value=n - 1)])


@macro("par", param=True)  # arguments expanded explicitly, tree not
def _(tree, syntax, expander, args):
    args = expander.visit(list(args)) if args else []
    a = ast.Tuple(elts=[ast.Constant(value="args")] + aslist(args), ctx=ast.Load())
    if syntax == "expr":
        return ast.List(elts=[a] + aslist(tree), ctx=ast.Load())
    return [ast.Expr(value=a)] + aslist(tree)


@macro("strip")  # removes the decorators left; in a block, the `with` left
def _(tree, syntax, expander, args):
    if syntax == "decorator":
        tree.decorator_list[:] = []
        return tree
    if syntax == "block" and len(tree) == 1 and isinstance(tree[0], ast.With):
        return tree[0].body
    return tree


@macro("noloc")  # as if the input had been made by a macro that cares for no locations
def _(tree, syntax, expander, args):
    for t in aslist(tree):
        for n in ast.walk(t):
            for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
                vars(n).pop(a, None)
    r = expander.visit(tree if syntax != "decorator" else [tree])
    return r


@macro("ncopy", isname=True)  # declines, with a fresh node
def _(tree, syntax, expander, args):
    return ast.Name(id=tree.id) if syntax == "name" else tree


@macro("nlist", isname=True)
def _(tree, syntax, expander, args):
    return [ast.Name(id="first"), P("wrap[second]")] if syntax == "name" else tree


@macro("nself", isname=True)
def _(tree, syntax, expander, args):
    return tree


@macro("nnone", isname=True)
def _(tree, syntax, expander, args):
    return None


@macro("nexpr", isname=True)
def _(tree, syntax, expander, args):
    return P("wrap[chain[a]]") if syntax == "name" else tree


@macro("nother", isname=True)
def _(tree, syntax, expander, args):
    return P("nexpr") if syntax == "name" else wrapped("nother", tree, syntax)
