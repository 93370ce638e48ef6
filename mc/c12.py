"""C12: hygienic unquotes always denote the captured value or macro.

Histories: every sequence (to a depth) of rebinding/modifying captured variables, capturing (several ways, several
captures per code object), evaluating, mutating the result, dropping, and re-creating code from bytecode is run on the
real functions and compared with a model in which each capture has its own copy of the value at capture time.
Processes: packages on disk whose macros capture every kind of thing, imported in every order of fresh / cached /
partly cached processes, by modules that give the captured names other meanings. Detection: every placement.
"""
import ast
import copy
import gc
import itertools
import marshal
import os
import shutil
import sys

from mcpyrate.compiler import compile as mcompile
from mcpyrate.core import global_bindings
from mcpyrate.expander import MacroExpander, expand_macros
from mcpyrate.quotes import capture_as_macro, capture_value, is_captured_macro, is_captured_value, lookup_macro, lookup_value

from . import snips
from .astutil import clone, preorder, put, slots
from .c11 import loads
from .proc import ChildDied, forked
from .qmodel import qcanon

LEVEL = "model_checking"
RULE = ("distinct histories of bind/modify/capture/evaluate/mutate/drop/re-create over two variables and up to three live captures; "
        "distinct (captured thing, shadowing at the use site, sequence of processes with cache states); placements of captures in the snippet grammar")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 120
ASSUMPTIONS = ["functions and classes are pickled by reference (documented property of pickle), so only values pickled by value are rebound or modified",
               "whether a capture re-created from bytecode in the same process is the same object as the original is unspecified"]

SRC = """
from mcpyrate.quotes import macros, q, h
from mcpyrate.quotes import capture_value
x = y = None
def cx():
    return q[h[x]]
def cy():
    return q[h[y]]
def cxy():
    return q[(h[x], h[y])]
def cxx():
    return q[(h[x], h[x])]
def cfx():
    return capture_value(x, "x")
def cjx():
    return [q[h[x]], q[h[x]]]
def cjxf():
    return [q[h[x]], capture_value(x, "x"), capture_value(y, "x")]
def cnest():
    return q[lambda: [h[x], (lambda: h[y])()]]
"""
CAPS = {"cx": "x", "cy": "y", "cxy": "xy", "cxx": "xx", "cfx": "x", "cjx": "xx", "cjxf": "xxy", "cnest": "xy"}
BIND = ["bx", "by", "mx", "my"]
PER = ["e", "m", "d", "s"]
MAXLIVE = 3


def options(live, tier):
    out = list(BIND)
    if live < MAXLIVE:
        out += list(CAPS)
    for i in range(live):
        out += [f"{o}{i}" for o in PER]
    return out


def livecount(seq):
    n = 0
    for o in seq:
        if o in CAPS:
            n += 1
        elif o[0] == "d":
            n -= 1
        elif o[0] == "s":
            pass
    return n


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ns = {"__name__": "captures"}
        exec(_code(), self.ns)
        self.ns["x"] = [1]
        self.ns["y"] = [1]
        self.items = []
        self.tag = 0

    def close(self):
        self.items.clear()

    def do(self, o):
        ns = self.ns
        if o in ("bx", "by"):
            ns[o[1]] = [1, 2] if len(ns[o[1]]) == 1 else [1]
        elif o in ("mx", "my"):
            self.tag += 1
            ns[o[1]].append(self.tag)
        elif o in CAPS:
            trees = ns[o]()
            if not isinstance(trees, list):
                trees = [trees]
            vals = [copy.deepcopy(ns[v]) for v in CAPS[o]]
            expr = ast.Tuple(elts=trees, ctx=ast.Load())
            code = compile(ast.fix_missing_locations(ast.Expression(body=loads(expr))), "use.py", "eval")
            self.items.append({"code": code, "want": vals, "seen": None, "shape": o})
        else:
            k = int(o[1:])
            item = self.items[k]
            if o[0] == "d":
                del self.items[k]
                del item
                gc.collect() if False else None
            elif o[0] == "s":
                code = marshal.loads(marshal.dumps(item["code"]))
                # the copy denotes the value captured, whatever happened to the object since then
                orig = item.get("orig", item["want"])
                self.items[k] = {"code": code, "want": copy.deepcopy(item.get("captured", item["want"])), "captured": item.get("captured", item["want"]), "seen": None, "shape": item["shape"]}
            else:
                got = self.values(item)
                self.ctx.step()
                want = item["want"]
                self.ctx.check(got == want, lambda: f"capture {item['shape']} evaluates to {got!r}, captured was {want!r}")
                if item["seen"] is not None:
                    self.ctx.check(all(a is b for a, b in zip(got, item["seen"])), f"capture {item['shape']}: another object on the second evaluation")
                item["seen"] = got
                others = [v for it in self.items if it is not item for v in (it["seen"] or [])] + [self.ns["x"], self.ns["y"]]
                self.ctx.check(not any(a is b for a in got for b in others), f"capture {item['shape']} shares its object with another capture or the variable")
                self.ctx.check(len({id(v) for v in got}) == len(got), f"captures in {item['shape']} share one object")
                self.ctx.trace()
                if o[0] == "m":
                    if "captured" not in item:
                        item["captured"] = copy.deepcopy(item["want"])
                    for k, (v, w) in enumerate(zip(got, want)):
                        self.tag += 1
                        v.append(("m", self.tag))
                        w.append(("m", self.tag))

    def values(self, item):
        r = eval(item["code"], {})
        if item["shape"] == "cnest":
            return r[0]()
        if item["shape"] in ("cxy", "cxx"):
            return list(r[0])
        return list(r)


_c = []
def _code():
    if not _c:
        _c.append(mcompile(SRC, "captures.py"))
    return _c[0]


def history(seq, ctx):
    w = World(ctx)
    for o in seq:
        w.do(o)
    # finally, everything live still denotes what it should
    for i in range(len(w.items)):
        w.do(f"e{i}")


# --------------------------------------------------------------------------------
# Across processes

AUX = """
from mcpyrate import namemacro, parametricmacro
from mcpyrate.quotes import macros, q, a, u, h, t
import ast
def em2(tree, **kw):
    return q[("em2", a[tree])]
def em(tree, *, syntax, **kw):
    if syntax == "name":
        return tree
    return q[("em", h[em2][a[tree]])] if False else q[("em", a[tree])]
@parametricmacro
def pm(tree, *, args, **kw):
    return q[("pm", t[args], a[tree])]
@namemacro
def nm(tree, *, syntax, **kw):
    return q["nm"]
def bm(tree, *, syntax, **kw):
    if syntax == "decorator":
        tree.body.append(ast.parse("return 'bm-decorated'").body[0])
        tree.body.pop(0)
        return tree
    with q as quoted:
        out = "bm"
        with a:
            tree
    return quoted
"""
OTHER = AUX.replace('"em"', '"other-em"').replace('"pm"', '"other-pm"').replace('"nm"', '"other-nm"').replace('"bm"', '"other-bm"').replace("'bm-decorated'", "'other-decorated'")

DEFS = """
from mcpyrate.quotes import macros, q, a, u, h, n
from auxm import macros, em, pm, nm, bm, em as renamed
from mcpyrate.quotes import capture_as_macro, capture_value
G = {"k": [1, (2, None)]}
S = "text"
def gf(z):
    return ("gf", z)
class K:
    def __init__(self, v):
        self.v = v
    def __eq__(self, other):
        return type(other).__name__ == "K" and self.v == other.v
    def __repr__(self):
        return f"K({self.v!r})"
def v_local(tree, **kw):
    loc = [3, {"d": {4}}]
    return q[h[loc]]
def v_global(tree, **kw):
    return q[h[G]]
def v_nonlocal(tree, **kw):
    loc = [5]
    def inner():
        return q[h[loc]]
    return inner()
def v_expr(tree, **kw):
    return q[h[S.upper() + "!" * 2]]
def v_func(tree, **kw):
    return q[h[gf](a[tree])]
def v_builtin(tree, **kw):
    return q[h[len]("four")]
def v_instance(tree, **kw):
    k = K([7])
    return q[h[k]]
def v_manual(tree, **kw):
    return capture_value([8], "G")
def v_tree(tree, **kw):
    return q[h[tree].__class__.__name__]
def v_block(tree, **kw):
    loc = {"in": "block"}
    with q as quoted:
        gf = h[loc]
        r = gf, h[gf](1)
        out = r
    return quoted
def m_expr(tree, **kw):
    return q[h[em][a[tree]]]
def m_param(tree, **kw):
    return q[h[pm][u[1], x1][a[tree]]]
def m_name(tree, **kw):
    return q[(h[nm], nm)]
def m_renamed(tree, **kw):
    return q[h[renamed][a[tree]]]
def m_block(tree, **kw):
    with q as quoted:
        with h[bm]:
            with a:
                tree
    return quoted
def m_decorated(tree, **kw):
    with q as quoted:
        @h[bm]
        def f():
            return "plain"
        out = f()
    return quoted
def m_twice(tree, **kw):
    return q[(h[em][h[em][a[tree]]], h[pm][2][h[em][3]])]
def own(tree, **kw):
    return q[("own", a[tree])]
our_own = capture_as_macro(own)
def m_manual(tree, **kw):
    return q[a[our_own][a[tree]]]
"""

# another module that captures other things of the same names
DEFS2 = DEFS.replace("auxm", "otherm").replace('("own",', '("own2",').replace('[1, (2', '[11, (2').replace('"text"', '"text2"').replace('("gf", z)', '("gf2", z)').replace("[3, {", "[33, {").replace("[5]", "[55]").replace("[7]", "[77]").replace("[8]", "[88]").replace('"in": "block"', '"in": "block2"')
VALUES = {"v_local": "[3, {'d': {4}}]", "v_global": "{'k': [1, (2, None)]}", "v_nonlocal": "[5]", "v_expr": "'TEXT!!'", "v_func": "('gf', 10)",
          "v_builtin": "4", "v_instance": "K([7])", "v_manual": "[8]", "v_tree": "'Constant'",
          "m_expr": "('em', 10)", "m_renamed": "('em', 10)", "m_param": "('pm', (1, 'x1'), 10)", "m_twice": "(('em', ('em', 10)), ('pm', (2,), ('em', 3)))",
          "m_manual": "('own', 10)"}
BLOCKMACROS = {"v_block": "({'in': 'block'}, ('gf', 1))", "m_block": "'bm'", "m_decorated": "'bm-decorated'"}
NAMEVAL = {None: "('nm', 'plain nm')", "values": "('nm', 'plain nm')", "macros": "('nm', 'other-nm')", "deleted": "('nm', 'plain nm')"}
VALUES2 = {"v_local": "[33, {'d': {4}}]", "v_global": "{'k': [11, (2, None)]}", "v_nonlocal": "[55]", "v_expr": "'TEXT2!!'", "v_func": "('gf2', 10)",
           "v_builtin": "4", "v_instance": "K([77])", "v_manual": "[88]", "v_tree": "'Constant'",
           "m_expr": "('other-em', 10)", "m_renamed": "('other-em', 10)", "m_param": "('other-pm', (1, 'x1'), 10)", "m_twice": "(('other-em', ('other-em', 10)), ('other-pm', (2,), ('other-em', 3)))",
           "m_manual": "('own2', 10)", "v_block": "({'in': 'block2'}, ('gf2', 1))", "m_block": "'other-bm'", "m_decorated": "'other-decorated'", "m_name": "('other-nm', 'plain nm')"}
MUTABLE = {"v_local", "v_global", "v_nonlocal", "v_instance", "v_manual"}
SHADOWS = [None, "values", "macros"]


def use_source(macro, shadow):
    src = f"from defs import macros, {macro}\n"
    if shadow == "macros":
        src += "from otherm import macros, em, pm, nm, bm, em2\nfrom otherm import macros, em as renamed, em as own\n"
    src += "nm = 'plain nm'\n" if shadow != "macros" else ""
    src += "x1 = 'x1'\n"
    if shadow == "values":
        src += "G = S = gf = K = len = loc = k = em = pm = bm = renamed = own = mcpyrate = globals = 'shadow'\n" if macro[0] == "v" else "G = em = pm = bm = renamed = own = 'shadow'\n"
    if macro in BLOCKMACROS:
        src += f"def f():\n    out = None\n    with {macro}:\n        pass\n    return out\nf2 = f\n"
    else:
        src += f"def f():\n    return {macro}[10]\ndef f2():\n    return {macro}[10]\n"
    return src


def in_process(d, ops, write, names):
    """A fresh process: import the modules named, return what they compute."""
    sys.path.insert(0, d)
    sys.dont_write_bytecode = not write
    sys.pycache_prefix = None
    import importlib
    importlib.invalidate_caches()
    import mcpyrate.activate  # noqa: F401
    out = {}
    for o in ops:
        if o == "changeG":
            import defs
            defs.G = "changed"
            defs.S = "changed"
        elif o == "modG":
            import defs
            defs.G["k"].append("changed")
        elif o == "unload":
            for m in ("defs", "auxm"):
                sys.modules.pop(m, None)
    for n in names:
        importlib.import_module(n)
    for n in names:
        m = importlib.import_module(n)
        r = m.f()
        again = m.f()
        other = m.f2()
        if "late" in ops:
            import defs
            if isinstance(defs.G, dict):
                defs.G["k"].append("changed late")
            defs.G = "changed late"
            again = m.f()
        out[n] = (repr(r), repr(again), repr(other), r is again, r is other)
    return out


PROCS = [("import", True), ("cached", True), ("cached-use-removed", True), ("nowrite", False), ("touched-nothing", True)]


def processes(macro, shadow, ops, order, ctx):
    d = os.path.join(os.getcwd(), "pk")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for name, src in (("auxm", AUX), ("otherm", OTHER), ("defs", DEFS), ("use1", use_source(macro, shadow)), ("use2", use_source(macro, None)), ("defs2", DEFS2), ("use3", use_source(macro, None).replace("from defs ", "from defs2 "))):
            with open(os.path.join(d, name + ".py"), "w") as f:
                f.write(src)
        want = BLOCKMACROS.get(macro) or VALUES.get(macro)
        for k, (what, write) in enumerate(order):
            pc = os.path.join(d, "__pycache__")
            if what == "cached-use-removed" and os.path.isdir(pc):
                for fn in os.listdir(pc):
                    if fn.startswith("use"):
                        os.remove(os.path.join(pc, fn))
            if what == "defs-removed" and os.path.isdir(pc):
                for fn in os.listdir(pc):
                    if not fn.startswith("use"):
                        os.remove(os.path.join(pc, fn))
            if what == "all-removed":
                shutil.rmtree(pc, ignore_errors=True)
            ctx.step()
            theseops = ops if k == len(order) - 1 else []
            try:
                out = forked(in_process, d, theseops, write, ["use1", "use2", "use3"] if k % 2 else ["use3", "use1", "use2"])
            except ChildDied as e:
                ctx.fail(f"{macro}, {shadow}, process {k + 1} ({what}): {e}")
                return
            for n, sh in (("use1", shadow), ("use2", None), ("use3", None)):
                w = VALUES2[macro] if n == "use3" else want or NAMEVAL[sh]
                r, again, other, same, twin = out[n]
                ctx.equal((r, again, other), (w, w, w), f"{macro}, use site shadows {sh}, process {k + 1} ({what}) {theseops}")
                if macro in MUTABLE:
                    ctx.check(same, f"{macro}: another object on the second evaluation in one process ({what})")
                    ctx.check(not twin, f"{macro}: two use sites share one object ({what})")
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROCSTEPS = ["import", "nowrite", "cached-use-removed", "defs-removed", "all-removed"]


# --------------------------------------------------------------------------------
# Detection

LOOKALIKES = ["f(x)", "lookup_value(('x', b''))", "mcpyrate.lookup_value(('x', b''))", "other.quotes.lookup_value(('x', b''))", "mcpyrate.other.lookup_value(('x', b''))",
              "mcpyrate.quotes.astify(x)", "mcpyrate.quotes.lookup(('x', b''))", "x.mcpyrate.quotes.lookup_value(('x', b''))", "mcpyrate.quotes.lookup_value", "mcpyrate.quotes.lookup_value(key)",
              "__import__('other').quotes.lookup_value(('x', b''))", "__import__(name).quotes.lookup_value(('x', b''))", "__import__().quotes.lookup_value(('x', b''))", "imp('mcpyrate.quotes').quotes.lookup_value(('x', b''))",
              "mcpyrate.quotes.capture_value(x)", "mcpyrate.quotes.capture_value(x, y)", "mcpyrate.quotes.capture_value(*x)", "mcpyrate.quotes.lookup_macro(key)", "mcpyrate.quotes.lookup_macro(('x', b''))", "quotes.capture_value(x, 'x')",
              "mcpyrate.quotes.lookup_value()", "mcpyrate.quotes.lookup_value((a, b))", "mcpyrate.quotes['lookup_value'](('x', b''))", "'x'", "x", "mcpyrate.quotes.splice_ast_literals(x, 'f')"]


def some_macro(tree, **kw):
    return tree


def detection(form, s, ctx):
    base = ast.parse(s, mode="eval") if form == "expr" else ast.parse(s)
    def sl(t):
        return [x for x in slots(t) if isinstance(x[3], ast.Name)]
    n = len(sl(base))
    for combo in [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2)):
        t = clone(base)
        where = sl(t)
        marks = {}
        for j, i in enumerate(combo):
            if (i + j) % 3 == 2:
                # not yet evaluated capture, as seen by a macro
                node = ast.Call(func=ast.parse("mcpyrate.quotes.capture_value", mode="eval").body, args=[ast.Name(id="z", ctx=ast.Load()), ast.Constant(value=f"n{i}")], keywords=[])
                want = (f"n{i}", None)
            else:
                node = capture_value([i, j], f"n{i}")
                want = (f"n{i}", [i, j])
            put(where[i], node)
            marks[id(node)] = want
        ctx.step()
        found = {}
        for nd in preorder(t):
            r = is_captured_value(nd)
            if r:
                found[id(nd)] = (r[0], r[1] if r[1] is None else lookup_value(r))
                if r[1] is None:
                    try:
                        lookup_value(r)
                        ctx.fail("lookup of a value not captured yet succeeds")
                    except ValueError:
                        pass
            ctx.check(not is_captured_macro(nd), f"{s!r}: a captured value is reported as a macro")
        ctx.state((s, combo))
        ctx.equal(sorted(found.values(), key=repr), sorted(marks.values(), key=repr), f"captures detected in {s!r} at {combo}")
        ctx.check(set(found) == set(marks), f"{s!r}: other nodes than the captures are detected")


def macrocap_src():
    return ["h[mm][x]", "h[mm]", "[h[mm], h[mm2][y], h[v]]", "f(h[mm][h[mm2][x]])", "h[v] + h[mm]", "h[notmacro]", "lambda: h[mm2][a]", "h[v.real]", "h[mm2]"]


def cases(tier):
    depth = 4 if tier == "quick" else 5
    opts = []
    for c in CAPS:
        for o in options(1, tier):
            for o2 in options(livecount([c, o]), tier):
                yield ["history", [c, o, o2], depth]
    for c in CAPS:
        yield ["cycle", c, 300 if tier == "quick" else 3000]
    for m in list(VALUES) + list(BLOCKMACROS) + ["m_name"]:
        for sh in SHADOWS:
            yield ["proc", m, sh, [["import", 1], ["import", 1], ["cached-use-removed", 1], ["defs-removed", 1]], []]
    for m in ("v_global", "v_local", "v_expr", "v_func", "v_manual"):
        for ops in (["changeG"], ["modG"], ["late"], ["unload"]):
            if ops == ["changeG"] or ops == ["modG"]:
                # the value was captured when the use site was expanded, in the first process
                yield ["proc", m, None, [["import", 1], ["import", 1]], ops]
            else:
                yield ["proc", m, "values", [["import", 1]], ops]
                yield ["proc", m, "values", [["import", 1], ["import", 1]], ops]
    k = 3 if tier == "thorough" else 2
    for m in ("v_local", "v_instance", "m_expr", "m_param", "m_block", "m_manual", "m_name", "v_block"):
        for steps in itertools.product(PROCSTEPS, repeat=k):
            yield ["proc", m, "macros", [["import", 1]] + [[s, int(s != "nowrite")] for s in steps], []]
    n = sum(1 for _ in snips.stmts(0))
    for i in range(0, n, 10):
        yield ["detect", "stmt", i]
    n = sum(1 for _ in snips.exprs(0)) + len(snips.EXPR)
    for i in range(0, n, 10):
        yield ["detect", "expr", i]
    yield ["lookalike"]
    for i in range(len(macrocap_src())):
        yield ["macrocap", i]


def run_case(case, ctx):
    kind = case[0]
    if kind == "history":
        _, prefix, depth = case
        def go(seq):
            if len(seq) == depth:
                ctx.state(tuple(seq))
                before = len(ctx.violations)
                history(seq, ctx)
                if len(ctx.violations) > before:
                    ctx.violations[-1]["msg"] += f"\nhistory: {seq}"
                    return False
                return True
            for o in options(livecount(seq), None):
                if not go(seq + [o]):
                    return False
            return True
        go(prefix)
    elif kind == "cycle":
        _, c, n = case
        w = World(ctx)
        for k in range(n):
            w.ns["x"] = [k]
            w.ns["y"] = [k, "y"]
            w.do(c)
            w.do("e0")
            if k % 3 == 0:
                w.do("m0")
            if k % 2:
                w.do("s0")
                w.do("e0")
            w.do("d0")
            if k % 7 == 0:
                gc.collect()
            if ctx.violations:
                break
            ctx.state((c, k))
    elif kind == "proc":
        _, m, sh, order, ops = case
        ctx.state((m, sh, str(order), str(ops)))
        processes(m, sh, ops, [(a, bool(b)) for a, b in order], ctx)
    elif kind == "detect":
        _, form, i = case
        if form == "stmt":
            ss = list(snips.stmts(0))[i:i + 10]
        else:
            from .c11 import flat_exprs
            ss = flat_exprs()[i:i + 10]
        for s in ss:
            detection(form, s, ctx)
    elif kind == "lookalike":
        for s in LOOKALIKES:
            for t in (ast.parse(s, mode="eval").body, ast.parse(s).body[0], ast.parse(s)):
                ctx.step()
                ctx.state(s)
                try:
                    ctx.check(is_captured_value(t) is False, f"{s} is reported as a captured value")
                    ctx.check(is_captured_macro(t) is False, f"{s} is reported as a captured macro")
                    ctx.trace()
                except Exception as e:
                    ctx.fail(f"detecting captures in {s}: {e!r}")
        for bad in (None, "x", [], 3):
            ctx.check(is_captured_value(bad) is False and is_captured_macro(bad) is False, f"{bad!r} is reported as captured")
    elif kind == "macrocap":
        from mcpyrate import quotes
        s = macrocap_src()[case[1]]
        def mm(tree, **kw):
            pass
        bindings = {k: getattr(quotes, k) for k in ("q", "h", "u", "a")}
        bindings.update(mm=some_macro, mm2=some_macro)
        t = expand_macros(ast.parse(f"r = q[{s}]"), dict(bindings), filename="mc.py")
        quoted = ast.parse(s, mode="eval").body
        wantm = [n.slice.id for n in preorder(quoted) if type(n) is ast.Subscript and getattr(n.value, "id", None) == "h" and type(n.slice) is ast.Name and n.slice.id in ("mm", "mm2")]
        wantv = [ast.unparse(n.slice) for n in preorder(quoted) if type(n) is ast.Subscript and getattr(n.value, "id", None) == "h" and not (type(n.slice) is ast.Name and n.slice.id in ("mm", "mm2"))]
        for _ in range(2):
            gotm, gotv, uniq = [], [], []
            for n in preorder(t):
                r = is_captured_macro(n)
                if r:
                    gotm.append(r[0])
                    uniq.append(r[1])
                    name = lookup_macro(r)
                    ctx.check(type(name) is ast.Name and name.id == r[1], f"{s}: lookup_macro gives {name!r}")
                    ex = MacroExpander({}, "f.py")
                    ctx.check(ex.isbound(name.id) is some_macro, f"{s}: the captured macro is not bound under its unique name")
                    ctx.check(r[1] != r[0] and r[1].startswith(r[0]), f"{s}: unique name {r[1]} of {r[0]}")
                r = is_captured_value(n)
                if r:
                    gotv.append(r[0])
                    ctx.check(r[1] is None, f"{s}: value reported as frozen before the quote ran")
            ctx.step()
            ctx.equal((gotm, sorted(gotv)), (wantm, sorted(wantv)), f"captures in the expansion of q[{s}]")
            ctx.check(len(set(uniq)) == len(uniq), f"{s}: captures of macros share a unique name")
        ctx.state(s)
        # capture_as_macro: at once, and each capture has its own name
        n1, n2 = capture_as_macro(some_macro), capture_as_macro(some_macro)
        ctx.check(n1.id != n2.id and all(MacroExpander({}, "f.py").isbound(x.id) is some_macro for x in (n1, n2)), "capture_as_macro")
