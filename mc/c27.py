"""C27: Bunch against a dict."""
import itertools
from collections.abc import Container, Iterable, Mapping, MutableMapping, Sized

from mcpyrate.bunch import Bunch, bunchify

LEVEL = "model_checking"
RULE = ("cases: every sequence of operations (attribute, item, mapping methods, copy, replace, bunchify, switching between the objects) up to a length, run on bunches and on dicts; after every operation the results (or errors) and all observable contents agree; "
        "state: distinct (contents of all objects, sharing between them); transition: one operation")
BUDGET = {"quick": 600, "thorough": 3000}
L = [1]  # a mutable value, to see identity
VALUES = {"1": 1, "L": L, "N": None}
KEYS = ("a", "b", "get", "_x")  # "get" is a name of a method: as an item only
LOOKUP = (KeyError, AttributeError)


class World:
    """Two bunches and a raw mapping, or (model) the same with dicts."""
    def __init__(self):
        self.x = Bunch()
        self.y = Bunch(a=1)
        self.raw = {}
        self.mx = {}
        self.my = {"a": 1}
        self.mraw = self.raw  # shared raw data: compared through the bunch

    def apply(self, op):
        """-> (real result, model result); an error is represented by its class"""
        k = op[0]
        r = m = None
        try:
            r = self.real(op)
        except Exception as err:
            r = ("error", "lookup" if isinstance(err, LOOKUP) and k not in ("setreserved",) else type(err).__name__)
        try:
            m = self.model(op)
        except Exception as err:
            m = ("error", "lookup" if isinstance(err, KeyError) else type(err).__name__)
        return r, m

    def real(self, op):
        x = self.x
        k, *a = op
        if k == "setattr":
            return setattr(x, a[0], VALUES[a[1]])
        if k == "setitem":
            x[a[0]] = VALUES[a[1]]
            return
        if k == "delattr":
            return delattr(x, a[0])
        if k == "delitem":
            del x[a[0]]
            return
        if k == "pop":
            return x.pop(a[0])
        if k == "popd":
            return x.pop(a[0], L)
        if k == "popitem":
            return x.popitem()
        if k == "clear":
            return x.clear()
        if k == "update":
            return x.update(**{n: VALUES[v] for n, v in a})
        if k == "setdefault":
            return x.setdefault(a[0], VALUES[a[1]])
        if k == "setdefault0":
            return x.setdefault(a[0])
        if k == "copy":
            self.y = x.copy()
            return
        if k == "swap":
            self.x, self.y = self.y, self.x
            return
        if k == "replace":
            return x.replace(self.y)
        if k == "replaceself":
            return x.replace(x)
        if k == "replacebad":
            return x.replace({"a": 1})
        if k == "bunchify":
            self.raw = {"a": L}
            self.y = bunchify(self.raw)
            return
        if k == "rawset":
            self.raw["b"] = 1
            return
        if k == "rebunch":
            self.y = bunchify(x)
            return
        if k == "setreserved":
            return setattr(x, a[0], 1)
        assert 0, op

    def model(self, op):
        x = self.mx
        k, *a = op
        if k in ("setattr", "setitem"):
            x[a[0]] = VALUES[a[1]]
            return
        if k in ("delattr", "delitem"):
            del x[a[0]]
            return
        if k == "pop":
            return x.pop(a[0])
        if k == "popd":
            return x.pop(a[0], L)
        if k == "popitem":
            return x.popitem()
        if k == "clear":
            return x.clear()
        if k == "update":
            return x.update(**{n: VALUES[v] for n, v in a})
        if k == "setdefault":
            return x.setdefault(a[0], VALUES[a[1]])
        if k == "setdefault0":
            return x.setdefault(a[0])
        if k == "copy":
            self.my = dict(x)
            return
        if k == "swap":
            self.mx, self.my = self.my, self.mx
            return
        if k == "replace":
            new = dict(self.my)
            self.assign(x, new)
            return
        if k == "replaceself":
            self.assign(x, dict(x))
            return
        if k == "replacebad":
            raise TypeError
        if k == "bunchify":
            self.mraw = {"a": L}
            self.my = self.mraw
            return
        if k == "rawset":
            self.mraw["b"] = 1
            return
        if k == "rebunch":
            self.my = x
            return
        if k == "setreserved":
            raise AttributeError
        assert 0, op

    def assign(self, old, new):
        """All that refer to the same bunch see the replaced data; the raw mapping no longer is its storage."""
        if self.my is old and self.y is self.x:
            self.my = new
        self.mx = new


OPS = []
for _k in ("a", "b"):
    OPS += [("setattr", _k, "1"), ("setitem", _k, "L"), ("delattr", _k), ("delitem", _k), ("pop", _k), ("popd", _k), ("setdefault", _k, "L")]
OPS += [("setdefault0", "a"), ("setattr", "a", "N"), ("setattr", "_x", "1"), ("setitem", "get", "1"), ("delattr", "get"), ("popitem",), ("clear",), ("update",), ("update", ("a", "L")), ("update", ("b", "1"), ("a", "1")), ("update", ("get", "1")),
        ("copy",), ("swap",), ("replace",), ("replaceself",), ("replacebad",), ("bunchify",), ("rawset",), ("rebunch",)]
RESERVED = [n for n in dir(Bunch()) if callable(getattr(Bunch, n, None))]
OPS += [("setreserved", n) for n in ("get", "keys", "copy", "__len__")]


def observe(ctx, what, b, m):
    ok = ctx.check(type(b) is Bunch and isinstance(b, Mapping) and isinstance(b, MutableMapping) and isinstance(b, Container) and isinstance(b, Iterable) and isinstance(b, Sized), what + ": types")
    def same(got, want, q):
        if not ctx.check(type(got) is type(want) and got == want, lambda: f"{what}: {q}: got {got!r}, want {want!r}"):
            return False
        ctx.trace()
        return True
    ok = ok and same(len(b), len(m), "len")
    ok = ok and same(list(b), list(m), "iteration")
    ok = ok and same(list(b.keys()), list(m.keys()), "keys")
    ok = ok and same(list(b.values()), list(m.values()), "values")
    ok = ok and same(list(b.items()), list(m.items()), "items")
    ok = ok and same(b == m, True, "== dict") and same(b != m, False, "!= dict") and same(m == b, True, "dict ==") and same(b == Bunch(**m), True, "== Bunch") and same(b != Bunch(**m), False, "!= Bunch")
    other = dict(m)
    other["zzz"] = 0
    ok = ok and same(b == other, False, "== another") and same(b != Bunch(**other), True, "!= another")
    if m:
        third = {k: ("different" if i == 0 else v) for i, (k, v) in enumerate(m.items())}
        ok = ok and same(b == third, False, "== another with the same keys") and same(Bunch(**third) == b, False, "== another bunch with the same keys")
    for k in KEYS + ("q",):
        ok = ok and same(k in b, k in m, f"{k!r} in")
        ok = ok and same(b.get(k), m.get(k), f"get({k!r})")
        ok = ok and ctx.check(b.get(k, L) is m.get(k, L), what + f": get({k!r}, default)")
        for how in ("item", "attr"):
            try:
                got = b[k] if how == "item" else getattr(b, k)
                err = None
            except LOOKUP as e:
                got = None
                err = e
            if how == "attr" and k == "get":
                ok = ok and ctx.check(callable(got), what + ": the method get is shadowed")
                continue
            ok = ok and ctx.check((err is None) == (k in m) and (err is not None or got is m[k]), lambda: f"{what}: {how} {k!r}: {got!r} {err!r}, want {m.get(k, 'a lookup error')!r}")
            if how == "item" and err is not None:
                ok = ok and ctx.check(isinstance(err, KeyError), what + f": item {k!r}: {err!r}")
    ok = ok and same(eval(repr(b), {"Bunch": Bunch}) == m, True, "eval(repr)")
    return ok


def cases(tier):
    yield ["static"]
    n = 3 if tier == "quick" else 4
    for first in range(len(OPS)):
        for second in range(len(OPS)):
            yield ["seq", [first, second], n]


def run_case(case, ctx):
    if case[0] == "static":
        return static(ctx)
    _, prefix, n = case
    for rest in itertools.product(range(len(OPS)), repeat=n - len(prefix)):
        seq = [OPS[i] for i in prefix + list(rest)]
        w = World()
        for j, op in enumerate(seq):
            r, m = w.apply(op)
            ctx.step()
            if not ctx.check(r == m and (r is m or not isinstance(m, list)), lambda: f"{seq[:j + 1]}: result {r!r}, want {m!r}"):
                return
            if any((prefix + list(rest))[j + 1:]):  # a prefix is observed once, with the first continuation
                continue
            for name, b, md in (("x", w.x, w.mx), ("y", w.y, w.my)):
                if not observe(ctx, f"{seq[:j + 1]} {name}", b, md):
                    return
        ctx.state((list(w.mx.items()), list(w.my.items()), w.x is w.y, w.mx is w.mraw, w.my is w.mraw))
        ctx.outcome(list(w.mx))


def static(ctx):
    for n in RESERVED:
        for pre in ({}, {"a": 1}):
            b = Bunch(**pre)
            try:
                setattr(b, n, lambda *a: 1)
                ctx.fail(f"the method name {n!r} can be overwritten")
            except AttributeError:
                pass
            ctx.check(dict(b.items()) == pre, f"{n!r}: a rejected assignment changed the contents")
            ctx.step()
    b = bunchify({"a": 1})
    for n in RESERVED:
        try:
            setattr(b, n, lambda *a: 1)
            ctx.fail(f"bunchified: the method name {n!r} can be overwritten")
        except AttributeError:
            pass
    b = Bunch(a=1).copy()
    try:
        b.get = 1
        ctx.fail("copy: a method name can be overwritten")
    except AttributeError:
        pass
    for bad in (1, [1], "a", None, [("a", 1)], {"a"}):
        try:
            bunchify(bad)
            ctx.fail(f"bunchify({bad!r}) accepted")
        except TypeError:
            pass
    for bad in ({"a b": 1}, {"1": 1}, {"": 1}, {"a": 1, "b-c": 2}):
        try:
            bunchify(bad)
            ctx.fail(f"bunchify({bad!r}) accepted")
        except ValueError:
            pass
    b = Bunch(a=1)
    ctx.check(bunchify(b) is b, "bunchify of a bunch is the bunch")
    class MyMap(dict):
        pass
    d = MyMap(a=1)
    b = bunchify(d)
    b.z = L
    ctx.check(d == {"a": 1, "z": L} and d["z"] is L, "bunchify shares the mapping")
    del b["a"]
    ctx.check(d == {"z": L}, "bunchify shares the mapping (deletion)")
    c = b.copy()
    c.q = 1
    ctx.check("q" not in d and "q" not in b, "a copy of a bunchified mapping is independent")
    b2 = Bunch(k=1)
    b2.replace(b)
    b2.n = 1
    ctx.check("n" not in d and "n" not in b and b2 == {"z": L, "n": 1}, "replace takes a copy")
    b.m = 2
    ctx.check("m" not in b2, "replace takes a copy (other direction)")
    ctx.check(b != 5 and not (b == 5) and not (b == None) and Bunch() == {} and not (Bunch() == []), "comparison with other types")  # noqa: E711
    ctx.state("static")
