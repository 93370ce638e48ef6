"""C01: order and result of macro expansion, against a reference expander."""
import ast
import itertools
import warnings

from mcpyrate.core import Done
from mcpyrate.expander import MacroExpander, expand_macros

from . import maclib, snips
from .astutil import canon, clone
from .maclib import LIB
from .refx import RefExpander, nf

LEVEL = "model_checking"
RULE = ("cases: programs over a library of macros (returning the input, nothing, several nodes as list/tuple/generator, other invocations, themselves, copies, done trees; expanding explicitly in each mode; editing decorators; parametric; name macros), "
        "every chain to a depth, every pair of siblings, every `with` header and decorator list to a length, mixed; x entry point; and, without invocations, the snippet grammar; "
        "state: program; transition: macro application; comparison: result tree, and the trace of all applications (name, kind, tree, arguments, invocation, as-part, mode), with the reference expander")
BUDGET = {"quick": 600, "thorough": 3300}

warnings.simplefilter("ignore")

E_ONE = ["ident", "wrap", "inner", "once", "peel", "rec", "twice", "chain", "dup", "done", "drop", "count", "par"]
E_MANY = ["multi", "gen", "tup"]
NAMES = ["nself", "ncopy", "nnone", "nexpr", "nother"]
STM = ["ident", "wrap", "inner", "once", "peel", "rec", "twice", "chain", "dup", "done", "drop", "count", "par", "multi", "gen", "tup", "strip", "noloc"]
DECO = ["ident", "wrap", "inner", "once", "peel", "rec", "twice", "chain", "dup", "done", "drop", "count", "par", "multi", "gen", "tup", "strip", "noloc", "notmacro"]
HEADS = ["count[1]", "par[a, wrap[b]]", "par[once[nexpr]]", "par(inner[chain[a]], b)"]

CTX_LIST = ["f({}, z)", "[{}]", "f(y, {})"]
CTX_ONE = ["x = {}", "x[{}]", "{}.attr", "lambda: {}", "f(k={})", "f'{{{}}}'", "del a[{}]", "x: {} = 1", "return {}", "if {}:\n    pass", "[y for y in {}]"]


def chains(depth, ops, leaves):
    if depth == 0:
        yield from leaves
        return
    for o in ops:
        for s in chains(depth - 1, ops, leaves):
            yield f"{o}[{s}]"


def indent(s):
    return s.replace("\n", "\n    ")


def blocks(ops, bodies):
    for o in ops:
        for b in bodies:
            yield f"with {o}:\n    {indent(b)}"


def cases(tier):
    deep = tier != "quick"
    ops = E_ONE + E_MANY
    heads = [h for h in HEADS]
    modes = ["expand", "once", "rec", "visit"]
    # chains of expression macros
    leaves = ["a", "nexpr", "(ident[a], wrap[nself], nother)"]
    for d in (0, 1, 2):
        for s in chains(d, ops + heads, leaves):
            for m in modes:
                yield ["f(%s, z)" % s, m]
    for s in chains(3, ops, ["nexpr", "(chain[a], nself)"] if deep else ["chain[nexpr]"]):
        for m in (modes if deep else modes[:2]):
            yield ["f(%s, z)" % s, m]
    if deep:
        for s in chains(4, ["wrap", "inner", "once", "peel", "rec", "twice", "chain", "multi", "dup", "count"], ["chain[nexpr]"]):
            yield ["f(%s, z)" % s, "expand"]
            yield ["f(%s, z)" % s, "once"]
    # every slot
    for c in CTX_ONE:
        for d in (1, 2):
            for s in chains(d, E_ONE + heads, ["nexpr", "chain[a]"]):
                for m in modes[:2]:
                    yield [c.format(s), m]
        for n in NAMES:
            yield [c.format(n), "expand"]
            yield [c.format(n), "once"]
    for c in CTX_LIST:
        for s in chains(2, ops, ["nexpr"]):
            yield [c.format(s), "rec"]
    # siblings: the mode is the same after an explicit expansion, also inside another
    sib = ["{0}[chain[a]]".format(o) for o in ops] + ["{0}[chain[nexpr]]".format(h) for h in heads] + NAMES
    outers = ["{}", "once[({},)]", "inner[({},)]", "rec[({},)]", "peel[({},)]", "once[rec[({},)]]", "rec[once[({},)]]", "peel[inner[({},)]]", "twice[({},)]"]
    for a, b in itertools.product(sib, repeat=2):
        for o in outers:
            yield ["f(%s)" % o.format(f"{a}, {b}, chain[b]"), "expand"]
            if deep:
                yield ["f(%s)" % o.format(f"{a}, {b}, chain[b]"), "once"]
                yield ["f(%s)" % o.format(f"{a}, {b}, chain[b]"), "rec"]
    if deep:
        for a, b, c in itertools.product(sib, repeat=3):
            for o in outers[:4]:
                yield ["f(%s)" % o.format(f"{a}, {b}, {c}, chain[b]"), "expand"]
    # statement macros
    body1 = ["a\nchain[b]", "with chain:\n    nexpr\nc", "@chain\ndef f(): pass", "wrap[drop[a]]"]
    for d in range(1, 3):
        bs = body1
        for _ in range(d):
            bs = list(blocks(STM + heads, bs))
        for b in bs:
            for m in (modes if d == 1 or deep else modes[:2]):
                yield [b, m]
            if d == 1:
                for ctx in ["def g():\n    {}\n    chain[y]", "if x:\n    {}\nelse:\n    {}", "try:\n    {}\nfinally:\n    with chain: z"]:
                    yield [ctx.format(*[indent(b)] * 2), "expand"]
                    yield [ctx.format(*[indent(b)] * 2), "once"]
    # `with` headers
    items = STM + ["notmacro", "f()", "nexpr", "count[1]", "par[a, wrap[b]] as z", "ident as (y, z)", "open(inner[a]) as z", "par(wrap[a])", "wrap as z"]
    for n in (1, 2, 3):
        pool = items if n < 3 or deep else ["ident", "wrap", "inner", "once", "drop", "chain", "strip", "notmacro", "par[a, wrap[b]] as z", "twice", "ident as (y, z)"]
        for its in itertools.product(pool, repeat=n):
            for m in (modes[:2] if n < 3 or deep else modes[:1]):
                yield ["with %s:\n    chain[a]\n    with wrap: nexpr" % ", ".join(its), m]
    pool = ["notmacro", "f() as q", "ident as y", "wrap", "drop", "inner"]
    for n in (4, 5) if deep else (4,):
        for its in itertools.product(pool[:6 if n == 4 else 4], repeat=n):
            yield ["with %s:\n    chain[a]" % ", ".join(its), "expand"]
    # suites that get shorter or longer under an explicit expansion
    pool = ["a", "with drop: b", "wrap[c]", "with multi: d", "with ident:\n    e\n    f", "@drop\ndef g(): pass", "with noloc:\n    with drop: h", "nlist"]
    for o in ("noloc", "rec", "inner", "twice"):
        for its in itertools.product(pool, repeat=3 if deep or o == "noloc" else 2):
            for m in modes[:2]:
                yield ["with %s:\n    %s" % (o, "\n    ".join(indent(i) for i in its)), m]
    for its in itertools.product(["nlist", "a", "nself", "multi[b]", "nnone", "par[nlist, a, nlist][c]"], repeat=2):
        for c in ("f(%s, %s)", "rec[[%s, %s]]", "noloc[(%s, %s)]", "par[%s, %s][nlist]", "once[f(%s, *g, %s)]"):
            for m in modes[:2]:
                yield [c % its, m]
    # decorators
    pool0 = DECO + ["count[1]", "par[a, wrap[b]]", "g(wrap[a])", "nexpr", "par(wrap[a])", "g.h"]
    small = ["ident", "wrap", "inner", "once", "drop", "chain", "strip", "notmacro", "par[a, wrap[b]]", "multi"]
    for what in ("def f(a=chain[a]) -> wrap[x]: inner[b]", "class C(wrap[x], k=nexpr): chain[b]", "async def f(): await chain[b]"):
        for n in (1, 2, 3):
            pool = pool0 if n < 3 or deep and what.startswith("def") else small
            if n == 3 and not deep and not what.startswith("def"):
                continue
            for ds in itertools.product(pool, repeat=n):
                for m in (modes[:2] if n < 3 or deep else modes[:1]):
                    yield ["".join(f"@{d}\n" for d in ds) + what, m]
    for ds in itertools.product(["notmacro", "g(x)", "ident", "wrap", "drop", "inner"], repeat=4):
        yield ["".join(f"@{d}\n" for d in ds) + "def f(): pass", "expand"]
    # mixed: block over decorated function over expression
    for b in STM:
        for d in DECO:
            for e in E_ONE:
                yield [f"with {b}:\n    @{d}\n    def f():\n        return {e}[chain[a]]\n    nexpr", "expand"]
                if deep:
                    yield [f"with {b}:\n    @{d}\n    def f():\n        return {e}[chain[a]]\n    nexpr", "once"]
                    yield [f"@{d}\nclass C:\n    with {b}:\n        return {e}[chain[a]]\n    nexpr", "rec"]
    # no invocation: unchanged
    for s in snips.stmts(2 if deep else 1):
        yield [s, "none"]


UNIVERSE = dict(LIB)


def run_real(src, mode, bindings):
    maclib.LOG[:] = []
    tree = ast.parse(src)
    if mode in ("expand", "none"):
        r = expand_macros(tree, dict(bindings), filename="prog.py")
    else:
        x = MacroExpander(dict(bindings), "prog.py")
        r = {"once": x.visit_once, "rec": x.visit_recursively, "visit": x.visit}[mode](tree)
        if x.recursive is not True:
            maclib.LOG.append("mode not restored")
    return r, list(maclib.LOG)


def run_ref(src, mode, bindings):
    maclib.LOG[:] = []
    tree = ast.parse(src)
    x = RefExpander(dict(bindings), "prog.py")
    r = {"once": x.visit_once, "rec": x.visit_recursively, "visit": x.visit, "expand": x.visit, "none": x.visit}[mode](tree)
    return r, list(maclib.LOG)


def run_case(case, ctx):
    src, mode = case
    if mode == "none":
        got, log = run_real(src, mode, {"xx_unused": LIB["wrap"]})
        ctx.state(src)
        ctx.step()
        ctx.equal(canon(got, True), canon(ast.parse(src), True), "code without macro invocations must come out unchanged")
        ctx.equal(len(log), 0, "macro applications")
        return
    ctx.state((src, mode))
    got, log = run_real(src, mode, LIB)
    want, wlog = run_ref(src, mode, LIB)
    ctx.step(len(wlog))
    if mode == "once":
        ctx.check(isinstance(got, Done), "visit_once must mark its result as done")
    ctx.outcome(nf(want))
    if not ctx.equal(tuple(l[:2] for l in log), tuple(l[:2] for l in wlog), "sequence of macro applications"):
        return
    for i, (l, w) in enumerate(zip(log, wlog)):
        if l != w:
            for j, what in enumerate(("macro", "syntax", "tree", "args", "invocation", "optional_vars", "recursive mode", "other keywords")):
                if j < len(l) and l[j] != w[j]:
                    return ctx.equal(l[j], w[j], f"application {i} ({l[0]}, {l[1]}): {what}")
            return
    ctx.equal(nf(got), nf(want), "result of expansion")
    if mode in ("expand", "rec"):
        left = [n.value.id for n in ast.walk(norm_ast(got)) if type(n) is ast.Subscript and type(n.value) is ast.Name and n.value.id in ("wrap", "chain")]
        # invocations may be left only inside trees that are marked as done by the macros `once` and `done`
        ctx.check(not left or any(w[0] in ("once", "done", "twice") for w in wlog), lambda: f"macro invocations left: {left}")


def norm_ast(t):
    from .refx import norm
    return norm(t)
