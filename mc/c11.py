"""C11: unquotes interpolate exactly the given value at exactly that place.

Every unquote operator is put at every expression position of every snippet of the grammar, and block-mode ast-unquotes
at every position of every statement suite, with every shape of value; the real result (through the public compiler) is
compared with a reference model that substitutes on the tree.
"""
import ast
import collections
import enum
import itertools

from mcpyrate.compiler import compile as mcompile
from mcpyrate.markers import ASTMarker
from mcpyrate.quotes import is_captured_value, lookup_value

from . import snips
from .astutil import clone, preorder, put, slots
from .c10 import run
from .qmodel import OPS, UNQ, Cap, Model, QError, qcanon
from .refx import iscoverage

LEVEL = "model_checking"
RULE = ("distinct quoted programs: every unquote operator and value shape at every expression position and every suite position of every form "
        "of the grammar; every snippet with unquotes at all its positions at once; lifted values nested to a depth; every kind of wrong operand")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 120
ASSUMPTIONS = ["lifting an AST with `u` and iterating an empty string in `a`/`s`/`t` are unspecified and not covered"]


class Mark(ASTMarker):
    pass


def E(src):
    return ast.parse(src, mode="eval").body


def env0():
    e = {"tr": E("tree.one"), "l0": [], "l1": [E("p1")], "l2": [E("p1 + 1"), E("[p2]")], "ln": [E("p1"), [[E("p2")], []], [E("p3"), []]],
         "lt": (E("p1"), E("p2")), "l5": [E("f(*p1)"), E("{**p2}"), E("lambda x=1, *, y: x"), E("f'{x}'"), E("[y for x in z if w]")],
         "st": ast.parse("s0 = 1").body[0], "b0": [], "b1": ast.parse("s1").body, "b2": ast.parse("if s2:\n    s3\nelse:\n    pass\ndef g(*, k=1):\n    global gl\n    return k").body,
         "bn": [ast.parse("s1").body, [[], [ast.parse("s2").body]], ast.parse("s3").body[0]],
         "v": [1, {"k": (2.5, {None})}], "v1": -7, "v2": "str", "nm": "nn", "nm2": "foo.bar[0](k=1)", "obj": collections.OrderedDict(a=1),
         "m": Mark(E("inm")), "lm": [Mark(E("inm")), E("p1")], "mb": Mark(ast.parse("inm").body[0]), "mbl": Mark(ast.parse("inm\nif x:\n    y").body)}
    return e


_env0 = []
def env():
    if not _env0:
        _env0.append(env0())
    e = {k: cloned(v) for k, v in _env0[0].items()}
    e["gen"] = Again(e["l2"])
    return e


def cloned(v):
    if isinstance(v, (ast.AST, list)):
        return clone(v)
    if type(v) is tuple:
        return tuple(clone(x) for x in v)
    return v


class Again:
    """An iterable that is not a sequence."""
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(list(self.xs))


OPERANDS = {"u": ["v", "v1", "v2"], "n": ["nm", "nm2"], "a": ["tr", "m", "l0", "l1", "l2", "ln", "lt", "lm", "l5", "gen"], "s": ["l0", "l1", "l2", "ln", "lt", "gen"],
            "t": ["l0", "l1", "l2", "ln", "lt", "gen"], "h": ["v", "obj", "v2"]}
SUITES = ["st", "b0", "b1", "b2", "bn", "mb", "mbl", "st\n    b2", "b0\n    bn\n    st", "b0\n    b0"]


def snippets(depth):
    for s in snips.exprs(depth, atoms=["x"] if depth == 0 else None):
        yield "expr", s
    for s in snips.stmts(depth):
        yield "stmt", s


_cache = {}
def snippet_list(which):
    if which not in _cache:
        if which == "flat":
            _cache[which] = [("expr", s) for s in flat_exprs()] + [("stmt", s) for s in snips.stmts(0)]
        else:
            _cache[which] = list(snippets(1))
    return _cache[which]


def flat_exprs():
    """Each template with default holes."""
    seen = []
    for t, parts in snips._E:
        e = snips._fill(parts, -1, None)
        if snips.valid(e, "eval"):
            seen.append(e)
    return seen + [e for e in snips.EXPR_FLAT if snips.valid(e, "eval")] + ["x"]


def parse(form, s):
    return ast.parse(s, mode="eval") if form == "expr" else ast.parse(s)


def nameslots(tree):
    return [sl for sl in slots(tree) if isinstance(sl[3], ast.Name)]


def suites(tree):
    """Every statement list in the tree."""
    for n in preorder(tree):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list) and (v or f == "body") and (not v or isinstance(v[0], ast.stmt)):
                yield v


def op(o, operand):
    return ast.Subscript(value=ast.Name(id=o + "_", ctx=ast.Load()), slice=E(operand), ctx=ast.Load())


ALIASES = {o + "_": o for o in OPS}
HEAD = "from mcpyrate.quotes import macros, " + ", ".join(f"{o} as {o}_" for o in OPS)


def build(progs):
    """One module with a function per program. A program is ("expr", tree) or ("stmt", list of statements)."""
    body = ast.parse(HEAD).body
    for i, (form, t) in enumerate(progs):
        if form == "expr":
            f = ast.parse(f"def f{i}():\n    return q_[_]").body[0]
            f.body[0].value.slice = clone(t)
        else:
            f = ast.parse(f"def f{i}():\n    with q_ as quoted:\n        pass\n    return quoted").body[0]
            f.body[0].body = clone(t)
        body.append(f)
    return ast.fix_missing_locations(ast.Module(body=body, type_ignores=[]))


def given_nodes(e):
    out = {}
    for k in ("tr", "l0", "l1", "l2", "ln", "lt", "l5", "st", "b0", "b1", "b2", "bn", "lm", "m", "mb", "mbl"):
        for n in preorder(e[k] if not isinstance(e[k], tuple) else list(e[k])):
            if isinstance(n, (ast.expr, ast.stmt)) or isinstance(n, ASTMarker):
                out[id(n)] = n
    return out


def mcanon(x):
    if isinstance(x, ASTMarker):
        return ("marker", mcanon(x.body))
    if isinstance(x, ast.AST):
        if isinstance(x, Cap):
            return qcanon(x)
        return (type(x).__name__, tuple((f, mcanon(getattr(x, f, None))) for f in x._fields if f != "ctx"))
    if isinstance(x, list):
        return ("[", tuple(mcanon(y) for y in x))
    return (type(x).__name__, repr(x))


def actual(x):
    """Replace captures by reference nodes and drop coverage dummies, keeping the given markers."""
    def go(x):
        if isinstance(x, list):
            return [go(y) for y in x if not (isinstance(y, ASTMarker) and iscoverage(y.body)) and not iscoverage(y)]
        if isinstance(x, ASTMarker):
            return Mark(go(x.body)) if type(x) is Mark else x
        if isinstance(x, ast.AST):
            r = is_captured_value(x)
            if r:
                return Cap(name=r[0], value=lookup_value(r))
            new = type(x).__new__(type(x))
            for f in x._fields:
                if hasattr(x, f):
                    setattr(new, f, go(getattr(x, f)))
            return new
        return x
    return go(x)


def check_programs(progs, ctx, twice=True):
    ns = run(build(progs), env())
    for i, (form, t) in enumerate(progs):
        ctx.state(ast.dump(t) if form == "expr" else "\n".join(map(ast.dump, t)))
        ctx.step()
        what = ast.unparse(t) if form == "expr" else ast.unparse(ast.Module(body=t, type_ignores=[]))
        for rnd in range(2 if twice and i % 4 == 0 else 1):
            e = env()
            given = given_nodes(e)
            before = {k: mcanon(x if not isinstance(x, tuple) else list(x)) for k, x in e.items() if isinstance(x, (list, ast.AST))}
            ns.update(e)
            model = Model(env(), ALIASES)
            want = err = None
            try:
                want = model.single(t, 1) if form == "expr" else model.quote(t, 1)
            except QError as ex:
                err = ex
            try:
                got = ns[f"f{i}"]()
            except (TypeError, RuntimeError, SyntaxError) as ex:
                if err is None:
                    ctx.fail(f"quote of {what!r}: {type(ex).__name__}: {ex}")
                else:
                    ctx.trace()
                break
            if err is not None:
                ctx.fail(f"quote of {what!r}: no error ({err})")
                break
            if not ctx.equal(mcanon(actual(got)), mcanon(want), f"quote of {what!r}"):
                break
            # the given nodes themselves are in the result, and nothing given was changed
            gm = given_nodes(model.env)
            wantnodes = sum(1 for n in preorder(want) if id(n) in gm)
            gotnodes = sum(1 for n in preorder(got) if id(n) in given)
            ctx.check(wantnodes == gotnodes, f"quote of {what!r}: {gotnodes} of the given nodes are in the result, expected {wantnodes}")
            after = {k: mcanon(x if not isinstance(x, tuple) else list(x)) for k, x in e.items() if isinstance(x, (list, ast.AST))}
            ctx.check(before == after, f"quote of {what!r} changed a given value")
            ctx.check(not any(n is x for n in alllists(got) for x in (e["l0"], e["l1"], e["l2"], e["ln"], e["b0"], e["b1"], e["b2"], e["bn"])),
                      f"quote of {what!r}: a given list is part of the result")


def alllists(tree):
    if isinstance(tree, list):
        yield tree
    for n in preorder(tree):
        for f in n._fields:
            v = getattr(n, f, None)
            if isinstance(v, list):
                yield v


def placements(form, s):
    """Every operator with every operand at each position of the snippet, one at a time."""
    base = parse(form, s)
    k = len(nameslots(base))
    for i in range(k):
        for o in UNQ:
            for x in OPERANDS[o]:
                t = clone(base)
                put(nameslots(t)[i], op(o, x))
                yield (form, t.body)
    if form == "stmt":
        n = len(list(suites(base)))
        for j in range(n):
            for pos in range(len(list(suites(base))[j]) + 1):
                for b in SUITES:
                    t = clone(base)
                    list(suites(t))[j][pos:pos] = ast.parse(f"with a_:\n    {b}").body
                    yield (form, t.body)
                    if pos == 0:
                        t = clone(base)
                        list(suites(t))[j][:] = ast.parse(f"with a_:\n    {b}").body
                        yield (form, t.body)


def alltogether(form, s, rot):
    """All positions at once, with operators and operands in rotation; lists only in list positions."""
    t = parse(form, s)
    sl = nameslots(t)
    for i, x in enumerate(sl):
        single = [("a", "tr"), ("u", "v"), ("n", "nm2"), ("s", "l2"), ("t", "ln"), ("h", "v2"), ("a", "m")]
        multi = [("a", "l2"), ("a", "l0"), ("a", "ln"), ("a", "l5"), ("a", "tr"), ("a", "gen")]
        pool = multi + single if x[2] is not None else single
        o, v = pool[(i + rot) % len(pool)]
        put(x, op(o, v))
    if form == "stmt":
        for k, su in enumerate(list(suites(t))):
            b = SUITES[(k + rot) % len(SUITES)]
            pos = (k + rot) % (len(su) + 1)
            su[pos:pos] = ast.parse(f"with a_:\n    {b}").body
    return (form, t.body)


SCALARS = [0, 1, -1, 10**40, 1.5, -0.0, 1e999, float("nan"), 2j, -1 + 2j, "", "a'\"\n\u00e4", b"", b"\x00\xff", True, False, None, ..., 1.0]


def values(depth):
    for v in SCALARS:
        yield v
    if depth == 0:
        return
    inner = list(values(depth - 1))
    yield from ([], (), {}, set())
    for v in inner:
        yield [v]
        yield (v,)
        yield [v, 1]
        yield (1, v)
        yield {"k": v}
        yield {"a": 1, "b": v, 3: [v]}
        try:
            hash(v)
        except TypeError:
            continue
        yield {v}
        yield {v: v}
        yield {v, "other", 99}
        yield {1: 2, v: None}


def same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    if type(a) is dict:
        return len(a) == len(b) and all(same(k, l) and same(v, w) for (k, v), (l, w) in zip(a.items(), b.items()))
    if type(a) is set:
        return sorted(map(repr, a)) == sorted(map(repr, b))
    return repr(a) == repr(b)


class IntSub(int):
    pass


class StrSub(str):
    pass


class Color(enum.IntEnum):
    RED = 1


NT = collections.namedtuple("NT", "a")
UNLIFTABLE = [object(), len, IntSub(3), StrSub("s"), Color.RED, NT(1), collections.OrderedDict(a=1), bytearray(b"x"), frozenset([1]), range(3), collections, int, iter([]), 1 .__add__, lambda: 1]


def unliftable():
    for v in UNLIFTABLE:
        yield v
        yield [v]
        yield (1, v)
        yield {"k": v}
        yield {"k": [1, (v,)]}
        try:
            yield {v}
            yield {v: 1}
        except TypeError:
            pass


def wrong_operands():
    st = "ast.parse('x = 1').body[0]"
    ex = "ast.parse('x', mode='eval').body"
    mex = f"Mark({ex})"
    mst = f"Mark({st})"
    bad = {"n": ["3", "None", "b'x'", ex, "['x']"],
           "a": ["3", "None", "'s'", "[3]", st, f"[{st}]", f"[[{st}]]", f"[{ex}, {st}]", "ast.Load()", "[ast.Load()]", mst, f"[{mst}]", f"({ex}, 'x')", "ast.Module([], [])", "f", "[[[0]]]", "ast.arg('x')", "[ast.keyword('k', None)]"],
           "s": ["3", "None", "'s'", "[3]", f"[{st}]", f"[{ex}, {st}]", ex, mst, "ast.Load()", f"[{mst}]", f"[{ex}, [{st}]]"],
           "block": ["3", "'s'", "[3]", ex, f"[{ex}]", f"[{st}, {ex}]", f"[[{ex}], {st}]", mex, f"[{mex}]", "ast.Load()", "ast.Module([], [])", "ast.parse('x')"]}
    bad["t"] = bad["s"]
    for o, xs in bad.items():
        for x in xs:
            yield o, x


def cases(tier):
    n = len(snippet_list("flat"))
    for i in range(n):
        yield ["place", i]
    m = len(snippet_list("deep"))
    for rot in range(1 if tier == "quick" else 13):
        for i in range(0, m, 40):
            yield ["all", i, rot]
    vals = len(list(values(2)))
    for i in range(0, vals, 100):
        yield ["lift", i]
    yield ["unliftable"]
    for i, _ in enumerate(wrong_operands()):
        yield ["wrong", i]
    nn = 4052
    for i in range(0, nn, 200):
        yield ["names", i]
    yield ["badnames"]
    yield ["once"]
    if tier == "thorough":
        for i in range(n):
            yield ["pairs", i]


CALLS = ["q_[f(a_[{x}], u_[{y}], s_[{z}], h_[{w}], n_[{v}], t_[{z2}])]"]


def run_case(case, ctx):
    kind = case[0]
    if kind == "place":
        progs = list(placements(*snippet_list("flat")[case[1]]))
        for i in range(0, len(progs), 60):
            check_programs(progs[i:i + 60], ctx)
    elif kind == "pairs":
        form, s = snippet_list("flat")[case[1]]
        base = parse(form, s)
        k = len(nameslots(base))
        progs = []
        for i, j in itertools.combinations(range(k), 2):
            for (o, x), (p, y) in itertools.product([("a", "l2"), ("a", "l0"), ("a", "tr"), ("u", "v"), ("t", "ln")], repeat=2):
                t = clone(base)
                sl = nameslots(t)
                put(sl[i], op(o, x))
                put(sl[j], op(p, y))
                progs.append((form, t.body))
        for i in range(0, len(progs), 60):
            check_programs(progs[i:i + 60], ctx, twice=False)
    elif kind == "all":
        _, i, rot = case
        check_programs([alltogether(f, s, rot + k) for k, (f, s) in enumerate(snippet_list("deep")[i:i + 40])], ctx, twice=False)
    elif kind == "lift":
        ns = run(ast.parse(HEAD + "\ndef f(v):\n    return q_[u_[v]]\ndef g(v):\n    return q_[[x, u_[v], *u_[v]]]\ndef h(v):\n    with q_ as quoted:\n        y = u_[v]\n    return quoted"))
        for v in list(values(2))[case[1]:case[1] + 100]:
            ctx.state(repr(v))
            ctx.step()
            t = ns["f"](v)
            r = evaluate(t)
            if ctx.check(same(r, v), lambda: f"u[] of {v!r} evaluates to {r!r}"):
                ctx.trace()
            r1, r2 = evaluate(t), evaluate(t)
            if isinstance(v, (list, dict, set)):
                ctx.check(r1 is not r2 and r1 is not v, f"u[] of {v!r} is shared")
                t = ns["f"](v)
                saved = repr(v)
                r1.clear()
                ctx.check(repr(v) == saved and same(evaluate(t), v), f"u[] of {v!r} depends on earlier results")
            scope = {}
            exec(compile(ast.fix_missing_locations(ast.Module(body=loads(ns["h"](v)), type_ignores=[])), "lift.py", "exec"), scope)
            ctx.check(same(scope["y"], v), lambda: f"assigned u[] of {v!r} is {scope['y']!r}")
    elif kind == "unliftable":
        ns = run(ast.parse(HEAD + "\ndef f(v):\n    return q_[x + u_[v]]"))
        for v in unliftable():
            ctx.step()
            try:
                ns["f"](v)
            except TypeError:
                ctx.trace()
            else:
                ctx.fail(f"u[] accepts {v!r}")
    elif kind == "wrong":
        o, x = list(wrong_operands())[case[1]]
        ctx.state((o, x))
        for src in ([f"q_[{o}_[arg]]", f"q_[f({o}_[arg], y)]", f"q_[[x for x in {o}_[arg]]]"] if o != "block" else
                    ["with q_ as r:\n    with a_:\n        arg", "with q_ as r:\n    if x:\n        y\n        with a_:\n            good\n            arg"]):
            ns = {"ast": ast, "Mark": Mark, "f": 1}
            ns["arg"] = eval(x, ns)
            ns["good"] = ast.parse("x").body[0]
            ctx.step()
            try:
                exec(mcompile(HEAD + "\n" + src, "wrong.py"), ns)
            except (TypeError, RuntimeError, ValueError) as e:
                ctx.trace()
                name = {"n": "n[]", "a": "a", "s": "s[]", "t": "t[]", "block": "a"}[o]
                ctx.check(f"`{name}`" in str(e), f"{src} with {x}: the error does not name the operator: {e}")
            else:
                ctx.fail(f"{src} accepts {x}")
    elif kind == "names":
        ns = run(ast.parse(HEAD + "\ndef f(v):\n    return q_[[n_[v], x]]"))
        for s in list(snips.exprs(1))[case[1]:case[1] + 200]:
            ctx.state(("n", s))
            ctx.step()
            try:
                s.encode()
            except UnicodeEncodeError:
                continue
            ctx.equal(qcanon(ns["f"](s)), qcanon(ast.List(elts=[E(s), E("x")])), f"n[] of {s!r}")
    elif kind == "badnames":
        ns = run(ast.parse(HEAD + "\ndef f(v):\n    return q_[[n_[v], x]]"))
        for s in ["", "x = 1", "x y", "for", "pass", "(", "x\ny", "1x"]:
            ctx.step()
            try:
                ns["f"](s)
            except SyntaxError:
                ctx.trace()
            else:
                ctx.fail(f"n[] accepts {s!r}")
    elif kind == "once":
        log = []
        def note(k, v):
            log.append(k)
            return v
        e = env()
        ns = dict(e, note=note)
        src = HEAD + """
def f():
    return q_[g(a_[note(1, tr)], u_[note(2, 3)], *s_[note(3, l2)], k=t_[note(4, l1)], **{n_[note(5, 'z')]: h_[note(6, 7)]}) + a_[note(7, tr)] if u_[note(8, 1)] else q_[u_[u_[note(9, 2)]]]]
def g():
    with q_ as r:
        with a_:
            note(1, st)
            note(2, b2)
        if u_[note(3, 4)]:
            with a_:
                note(4, bn)
        with q_ as r2:
            x = a_[a_[note(5, tr)]]
            with a_:
                q_[u_[u_[note(7, 1)]]]
            y = u_[u_[note(6, 1)]]
    return r
"""
        exec(mcompile(src, "once.py"), ns)
        for fn, n in (("f", 9), ("g", 7)):
            for _ in range(2):
                log.clear()
                try:
                    ns[fn]()
                except Exception as ex:
                    ctx.fail(f"{fn}: {ex!r}")
                ctx.step()
                want = list(range(1, n + 1))
                ctx.equal(sorted(log), want, f"operands of {fn} evaluated")


def loads(t):
    """Fill in missing contexts (value displays only, so always Load)."""
    for n in preorder(t):
        if "ctx" in n._fields and not hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def evaluate(t):
    t = loads(clone(t))
    return eval(compile(ast.fix_missing_locations(ast.Expression(body=t)), "lift.py", "eval"), {})
