"""Reference model of macro expansion, written from the documentation (doc/main.md), independent of mcpyrate's expander.

`RefExpander` has the interface that macros use: `visit`, `visit_once`, `visit_recursively`, `bindings`, `recursive`,
`filename`, `isbound`. It knows nothing of locations, contexts, caches, error reports, debug hooks.
"""
import ast

from mcpyrate.core import Done

from .astutil import canon, clone

COVERAGE = "_mcpyrate_coverage"


def is_name(macro):
    return hasattr(macro, "_isnamemacro")


def is_parametric(macro):
    return hasattr(macro, "_isparametricmacro")


def parse_call(x):
    """`name`, `name[...]`, `name(...)` -> (name, arglist, form); else None."""
    if type(x) is ast.Name:
        return x.id, [], "bare"
    if type(x) is ast.Subscript and type(x.value) is ast.Name:
        s = x.slice
        return x.value.id, (list(s.elts) if type(s) is ast.Tuple else [s]), "brackets"
    if type(x) is ast.Call and type(x.func) is ast.Name and not x.keywords:
        return x.func.id, list(x.args), "parens"
    return None


class RefError(Exception):
    pass


class Bindings:
    """Which macro a name denotes, and whether a piece of syntax calls it."""
    def __init__(self, local, glob=None):
        self.local = local
        self.glob = glob or {}

    def get(self, name):
        if name in self.local:
            return self.local[name]
        return self.glob.get(name)

    def call(self, x):
        """If `x` is the macro part of an invocation with brackets, `with` or a decorator, return (name, args)."""
        p = parse_call(x)
        if not p:
            return None
        name, args, form = p
        m = self.get(name)
        if m is None or (args and not is_parametric(m)):
            return None
        if form == "parens" and (not args or any(type(a) is ast.Starred for a in args)):
            raise RefError("macro arguments in parentheses must be at least one, and not starred")
        return name, args

    def name(self, x):
        m = self.get(x.id)
        return m is not None and is_name(m)


def nonecall(node):
    src = ast.parse("(lambda: None)()", mode="eval").body
    for n in ast.walk(src):
        if "lineno" in n._attributes:
            ast.copy_location(n, node)
    return Done(src)


def dummy(node):
    s = ast.parse(COVERAGE + " = 'ref'").body[0]
    for n in ast.walk(s):
        if "lineno" in n._attributes:
            ast.copy_location(n, node)
    return Done(s)


def located(node):
    return hasattr(node, "lineno") or hasattr(node, "col_offset")


class RefExpander:
    def __init__(self, bindings, filename="<ref>", glob=None):
        self.b = Bindings(bindings, glob)
        self.bindings = dict(glob or {})
        self.bindings.update(bindings)
        self.filename = filename
        self.recursive = True

    def isbound(self, name, **kw):
        return self.b.get(name) or False

    # --- the three ways to expand explicitly
    def visit(self, tree):
        return self.x(tree)

    def visit_recursively(self, tree):
        return self._mode(True, tree)

    def visit_once(self, tree):
        return Done(self._mode(False, tree))

    def _mode(self, mode, tree):
        old, self.recursive = self.recursive, mode
        try:
            return self.x(tree)
        finally:
            self.recursive = old

    # --- expansion
    def x(self, t):
        if t is None or isinstance(t, Done) or not self.bindings:
            return t
        if isinstance(t, list):
            out = []
            for e in list(t):
                add(out, self.x(e))
            if not out:
                return None
            t[:] = out
            return t
        k = type(t)
        if k is ast.Subscript:
            c = self.b.call(t.value)
            if c:
                r = self.apply("expr", c[0], t, t.slice, {"args": c[1]})
                return nonecall(t) if r is None else r
        elif k is ast.With:
            for i, item in enumerate(t.items):
                c = self.b.call(item.context_expr)
                if c:
                    inv = ast.copy_location(ast.With(items=list(t.items), body=t.body, type_comment=t.type_comment), t)
                    del t.items[i]
                    arg = [t] if t.items else t.body
                    return self.covered(self.apply("block", c[0], inv, arg, {"args": c[1], "optional_vars": item.optional_vars}), t)
        elif k in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
            for i in range(len(t.decorator_list) - 1, -1, -1):
                c = self.b.call(t.decorator_list[i])
                if c:
                    deco = t.decorator_list[i]
                    inv = shallow(t)
                    inv.decorator_list = list(t.decorator_list)
                    del t.decorator_list[i]
                    return self.covered(self.apply("decorator", c[0], inv, t, {"args": c[1]}), deco)
        elif k is ast.Name and self.b.name(t):
            name, mode = t.id, self.recursive
            self.recursive = False
            try:
                r = self.apply("name", name, t, t, {"args": []})
            finally:
                self.recursive = mode
            if r is None:
                return nonecall(t)
            if type(r) is ast.Name and r.id == name:
                return Done(r)
            return self.x(r) if mode else r
        if k is ast.With:
            return self.fields(t, ("items", "body"))
        return self.fields(t, t._fields)

    def fields(self, t, names):
        for f in names:
            v = getattr(t, f, None)
            if isinstance(v, list):
                out = []
                for e in list(v):
                    if isinstance(e, ast.AST):
                        add(out, self.x(e))
                    else:
                        out.append(e)
                v[:] = out
            elif isinstance(v, ast.AST):
                r = self.x(v)
                if r is None:
                    delattr(t, f)
                else:
                    setattr(t, f, r)
        return t

    def apply(self, syntax, name, invocation, tree, kw):
        r = self.b.get(name)(tree, syntax=syntax, expander=self, invocation=invocation, **kw)
        if r is None:
            return None
        if not isinstance(r, ast.AST):
            r = list(r)
        return self.x(r) if self.recursive else r

    def covered(self, r, node):
        if not located(node):
            return r
        out = [dummy(node)]
        add(out, r)
        return out


def shallow(t):
    n = type(t)(**{f: getattr(t, f) for f in t._fields if hasattr(t, f)})
    return ast.copy_location(n, t)


def add(out, r):
    if r is None:
        return
    if isinstance(r, list):
        for e in r:
            add(out, e)
    else:
        out.append(r)


def collect(b, t, out, skipas=True):
    """The invocations that occur in `t`: a set of (name, syntax)."""
    if isinstance(t, list):
        for e in t:
            collect(b, e, out)
        return out
    if not isinstance(t, ast.AST) or isinstance(t, Done) or not (b.local or b.glob):
        return out
    k = type(t)
    rest = None
    if k is ast.Subscript:
        c = b.call(t.value)
        if c:
            out.add((c[0], "expr"))
            rest = [c[1], t.slice]
    elif k is ast.With:
        calls = [(i, b.call(i.context_expr)) for i in t.items]
        if any(c for i, c in calls):
            rest = []
            for i, c in calls:
                if c:
                    out.add((c[0], "block"))
                    rest.append(c[1])
                else:
                    rest.append(i)
            rest.append(t.body)
    elif k in (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef):
        calls = [(d, b.call(d)) for d in t.decorator_list]
        if any(c for d, c in calls):
            rest = []
            for d, c in calls:
                if c:
                    out.add((c[0], "decorator"))
                    rest.append(c[1])
                else:
                    rest.append(d)
            rest += [getattr(t, f) for f in t._fields if f != "decorator_list" and hasattr(t, f)]
    elif k is ast.Name:
        if b.name(t):
            out.add((t.id, "name"))
        return out
    if rest is None:
        rest = [getattr(t, f) for f in t._fields if hasattr(t, f)]
    collect(b, rest, out)
    return out


# --- normal form for comparison

def norm(t, keepdone=False):
    """A fresh copy of `t` without coverage statements; `Done` unwrapped (or kept); suites never empty."""
    if isinstance(t, list):
        out = []
        for e in t:
            r = norm(e, keepdone)
            if r is None and e is not None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out
    if not isinstance(t, ast.AST):
        return t
    if isinstance(t, Done):
        b = norm(t.body, keepdone)
        if not keepdone or iscoverage(t.body):
            return b
        d = Done(b)
        return d
    if iscoverage(t):
        return None
    n = type(t).__new__(type(t))
    for f in t._fields:
        if not hasattr(t, f):
            continue
        v = norm(getattr(t, f), keepdone)
        if isinstance(getattr(t, f), list) and f in ("body", "orelse", "finalbody") and getattr(t, f) and not v:
            v = [ast.Pass()]
        setattr(n, f, v)
    for a in getattr(t, "_attributes", ()):
        if hasattr(t, a):
            setattr(n, a, getattr(t, a))
    if "ctx" in t._fields:
        n.ctx = ast.Load()
    return n


def iscoverage(t):
    return type(t) is ast.Assign and len(t.targets) == 1 and type(t.targets[0]) is ast.Name and t.targets[0].id == COVERAGE


def nf(t, keepdone=False):
    return canon(norm(t, keepdone))
