"""Structural helpers, independent of mcpyrate."""
import ast

ATTRS = ("lineno", "col_offset", "end_lineno", "end_col_offset")


def canon(x, attrs=False):
    """A nested-tuple canonical form: class, present fields in order, values with their types; optionally locations."""
    if isinstance(x, ast.AST):
        fs = tuple((f, canon(getattr(x, f), attrs)) for f in x._fields if hasattr(x, f))
        loc = tuple((a, getattr(x, a)) for a in ATTRS if a in getattr(x, "_attributes", ()) and getattr(x, a, None) is not None) if attrs else ()
        return (type(x).__name__, fs, loc)
    if isinstance(x, list):
        return ("[", tuple(canon(y, attrs) for y in x))
    return (type(x).__name__, repr(x))


def clone(x):
    """Deep copy without `copy`; shared nodes become distinct."""
    if isinstance(x, ast.AST):
        y = type(x).__new__(type(x))
        for f in x._fields:
            if hasattr(x, f):
                setattr(y, f, clone(getattr(x, f)))
        for a in getattr(x, "_attributes", ()):
            if hasattr(x, a):
                setattr(y, a, getattr(x, a))
        for k, v in vars(x).items():
            if k not in x._fields and k not in getattr(x, "_attributes", ()):
                setattr(y, k, v)
        return y
    if isinstance(x, list):
        return [clone(e) for e in x]
    return x


def slots(tree):
    """All child positions, in walk (pre-)order: (parent, fieldname, index or None, child). Children are AST or list items."""
    for f in tree._fields:
        v = getattr(tree, f, None)
        if isinstance(v, ast.AST):
            yield (tree, f, None, v)
            yield from slots(v)
        elif isinstance(v, list):
            for i, e in enumerate(v):
                if isinstance(e, ast.AST):
                    yield (tree, f, i, e)
                    yield from slots(e)


def put(slot, new):
    parent, f, i, _ = slot
    if i is None:
        setattr(parent, f, new)
    else:
        getattr(parent, f)[i] = new


def preorder(x):
    if isinstance(x, ast.AST):
        yield x
        for f in x._fields:
            yield from preorder(getattr(x, f, None))
    elif isinstance(x, list):
        for e in x:
            yield from preorder(e)


def first_diff(a, b, path=""):
    """Where two canonical forms differ."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_diff(x, y, f"{path}/{x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i}")
            if r:
                return r
    return f"{path}: {str(a)[:300]} != {str(b)[:300]}"
