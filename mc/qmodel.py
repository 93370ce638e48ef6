"""Reference semantics of the quasiquote operators on trees (independent of mcpyrate's implementation)."""
import ast
import pickle

from .astutil import clone, preorder
from .refx import iscoverage

UNQ = ("u", "n", "a", "s", "t", "h")
OPS = ("q",) + UNQ


class QError(Exception):
    """The program misuses the operators."""


class Cap(ast.expr):
    """A hygienic capture, in reference trees and in normalised actual trees."""
    _fields = ("name", "value")


class Splice:
    def __init__(self, nodes):
        self.nodes = nodes


def lift(v):
    """AST that evaluates to the plain value `v`."""
    T = type(v)
    if T in (int, float, complex, str, bytes, bool, type(None), type(...)):
        return ast.Constant(value=v)
    if T is list:
        return ast.List(elts=[lift(x) for x in v], ctx=ast.Load())
    if T is tuple:
        return ast.Tuple(elts=[lift(x) for x in v], ctx=ast.Load())
    if T is set:
        return ast.Set(elts=[lift(x) for x in v])
    if T is dict:
        return ast.Dict(keys=[lift(k) for k in v], values=[lift(x) for x in v.values()])
    if isinstance(v, ast.AST):
        raise NotImplementedError("lifting an AST as a value is unspecified")
    raise QError(f"cannot lift {v!r}")


def flat(x):
    if isinstance(x, list):
        return [z for y in x for z in flat(y)]
    return [x]


def ismarker(x):
    from mcpyrate.markers import ASTMarker
    return isinstance(x, ASTMarker)


class Model:
    """`env`: run-time variables; `names`: what each operator is called in the program (name -> operator)."""
    def __init__(self, env, names=None):
        self.env = env
        self.names = names or {o: o for o in OPS}

    def op(self, t):
        if type(t) is ast.Subscript and type(t.value) is ast.Name:
            return self.names.get(t.value.id)

    def bop(self, t):
        if type(t) is ast.With and len(t.items) == 1 and type(t.items[0].context_expr) is ast.Name:
            return self.names.get(t.items[0].context_expr.id)

    # evaluating code outside quotes
    def ev(self, t):
        o = self.op(t)
        if o == "q":
            r = self.quote(t.slice, 1)
            if isinstance(r, Splice):
                raise QError("list in expression position")
            return r
        if o:
            raise QError("unquote outside a quote")
        if type(t) is ast.Name:
            return self.env[t.id]
        if type(t) is ast.Constant:
            return t.value
        if type(t) is ast.List:
            return [self.ev(e) for e in t.elts]
        if type(t) is ast.Tuple:
            return tuple(self.ev(e) for e in t.elts)
        if type(t) is ast.Call:
            return self.ev(t.func)(*[self.ev(e) for e in t.args])
        if type(t) is Cap:
            return t.value
        raise NotImplementedError(ast.dump(t))

    def unquote(self, o, operand):
        if o == "h":
            name = "<nested>" if any(type(n) is Cap for n in preorder(operand)) else ast.unparse(operand)
            return Cap(name=name, value=pickle.loads(pickle.dumps(self.ev(operand))))
        v = self.ev(operand)
        if o == "u":
            return lift(v)
        if o == "n":
            if type(v) is not str:
                raise QError("n")
            return ast.parse(v, mode="eval").body
        if o == "a":
            if isinstance(v, ast.AST):
                self.nodes([v], ast.expr)
                return v
            return Splice(self.nodes(v, ast.expr))
        if o in "st":
            return (ast.List if o == "s" else ast.Tuple)(elts=self.nodes(v, ast.expr), ctx=ast.Load())

    def nodes(self, v, cls):
        try:
            vs = flat(list(v))
        except TypeError:
            raise QError("not iterable")
        for x in vs:
            body = getattr(x, "body", None) if ismarker(x) else x
            for y in body if isinstance(body, list) else [body]:
                if not isinstance(y, cls):
                    raise QError("type")
        return vs

    # the value of quoted code
    def quote(self, t, level):
        if isinstance(t, list):
            out = []
            for e in t:
                r = self.quote(e, level)
                if isinstance(r, Splice):
                    out.extend(r.nodes)
                else:
                    out.append(r)
            return out
        if not isinstance(t, ast.AST) or type(t) is Cap:
            return t
        o = self.op(t)
        if o == "q":
            return ast.Subscript(value=clone(t.value), slice=self.single(t.slice, level + 1), ctx=clone(t.ctx))
        if o:
            if level == 1:
                return self.unquote(o, t.slice)
            return ast.Subscript(value=clone(t.value), slice=self.single(t.slice, level - 1), ctx=clone(t.ctx))
        o = self.bop(t)
        if o == "q":
            return ast.With(items=clone(t.items), body=self.quote(t.body, level + 1), type_comment=None)
        if o == "a":
            if level == 1:
                vs = []
                for st in t.body:
                    if type(st) is not ast.Expr:
                        raise QError("with a")
                    v = self.ev(st.value)
                    if isinstance(v, ast.AST):
                        v = [v]
                    vs += self.nodes(v, ast.stmt)
                return Splice(vs)
            return ast.With(items=clone(t.items), body=self.quote(t.body, level - 1), type_comment=None)
        if o:
            raise QError("not a block macro")
        new = type(t)()
        for f in t._fields:
            if hasattr(t, f):
                v = getattr(t, f)
                setattr(new, f, self.quote(v, level) if isinstance(v, list) else self.single(v, level))
        return new

    def single(self, t, level):
        r = self.quote(t, level)
        if isinstance(r, Splice):
            raise QError("list in a single-node position")
        return r


def capnorm(t):
    """Replace the code that hygienic captures turn into by `Cap` nodes, using the public detector; drop coverage dummies."""
    from mcpyrate.markers import ASTMarker
    from mcpyrate.quotes import is_captured_value, lookup_value
    def go(x):
        if isinstance(x, list):
            return [go(y) for y in x if not (iscoverage(y) or (isinstance(y, ASTMarker) and iscoverage(y.body)))]
        if isinstance(x, ast.AST):
            if isinstance(x, ASTMarker):
                return go(x.body)
            r = is_captured_value(x)
            if r:
                return Cap(name="<nested>" if "lookup_value" in r[0] else r[0], value=go(lookup_value(r)))
            new = type(x).__new__(type(x))
            for f in x._fields:
                if hasattr(x, f):
                    setattr(new, f, go(getattr(x, f)))
            return new
        return x
    return go(t)


def qcanon(x):
    """Canonical form without contexts; the value of a capture by structure."""
    if isinstance(x, Cap):
        return ("Cap", x.name, qcanon(x.value))
    if isinstance(x, ast.AST):
        return (type(x).__name__, tuple((f, qcanon(getattr(x, f, None))) for f in x._fields if f != "ctx"))
    if isinstance(x, list):
        return ("[", tuple(qcanon(y) for y in x))
    if isinstance(x, tuple):
        return ("(", tuple(qcanon(y) for y in x))
    if callable(x):
        return ("callable", getattr(x, "__qualname__", type(x).__name__))
    return (type(x).__name__, repr(x))
