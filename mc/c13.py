"""C13: the tools that expand quoted code agree with the expander, on every program of the bounded space."""
import ast
import contextlib
import functools
import io
import itertools
import re
import warnings

import mcpyrate
import mcpyrate.metatools as mt
from mcpyrate import quotes
from mcpyrate.core import Done
from mcpyrate.expander import MacroExpander, expand_macros
from mcpyrate.quotes import astify, unastify

from . import maclib, snips
from .astutil import canon, clone, preorder
from .c01 import DECO, E_MANY, E_ONE, HEADS, NAMES, STM, blocks, chains, indent
from .c11 import loads
from .maclib import LIB
from .qmodel import Cap, Model, QError, capnorm, qcanon
from .refx import RefExpander, nf

LEVEL = "model_checking"
RULE = ("program over the macro library (chains to a depth, sibling pairs, blocks, decorators) x expand tool x expression or block form x how the tree reaches the tool; "
        "compared: resulting tree, and sequence of macro applications, with the reference expander; un-quoting and re-quoting every grammar snippet; every block x subset of macros expanded first")
BUDGET = {"quick": 600, "thorough": 3000}
ASSUMPTIONS = ["static tools are compared on trees whose unquotes are opaque to the macros (documented: unquoted values are not available at macro expansion time)",
               "a block that expands to nothing may come out as None or as an empty list"]

warnings.simplefilter("ignore")

B = dict(LIB)
B.update({k: getattr(quotes, k) for k in ("q", "u", "n", "a", "s", "t", "h")})
B.update({k: getattr(mt, k) for k in mt.__all__})

REC = ["expandsq[{}]", "expands[q[{}]]", "expandrq[{}]", "expandr[q[{}]]", "var:expandr", "api:runtime_expand", "stepr[q[{}]]", "var:stepr", "expands[expand1s[q[{}]]]", "expandr[expand1s[q[{}]]]", "expandr[expand1r[q[{}]]]", "expands[expandsq[{}]]", "expandr[expandrq[{}]]"]
ONE = ["expand1sq[{}]", "expand1s[q[{}]]", "expand1rq[{}]", "expand1r[q[{}]]", "var:expand1r", "api:runtime_expand1"]
BREC = ["with expandsq as r:\n    {}", "with expandrq as r:\n    {}", "bvar:expandr", "bvar:stepr", "bapi:runtime_expand"]
BONE = ["with expand1sq as r:\n    {}", "with expand1rq as r:\n    {}", "bvar:expand1r", "bapi:runtime_expand1"]


def program(tool, p):
    if ":" in tool and not tool.startswith("with"):
        how, t = tool.split(":")
        if how == "var":
            return f"tree = q[{p}]\nr = {t}[tree]"
        if how == "api":
            return f"tree = q[{p}]\nr = mcpyrate.metatools.{t}(macro_bindings, 'use.py', tree)"
        if how == "bvar":
            return f"with q as tree:\n    {indent(p)}\nr = {t}[tree]"
        if how == "bapi":
            return f"with q as tree:\n    {indent(p)}\nr = mcpyrate.metatools.{t}(macro_bindings, 'use.py', tree)"
    if tool.startswith("with"):
        return tool.format(indent(p))
    return "r = " + tool.format(p)


def run(src, env=None, bindings=B):
    t = expand_macros(ast.parse(src), dict(bindings), filename="use.py")
    return runtree(t, env)


def runtree(t, env=None):
    ns = {"mcpyrate": mcpyrate}
    ns.update(env or {})
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        exec(compile(ast.fix_missing_locations(t), "use.py", "exec"), ns)
    return ns["r"]


def trace(f, *args, **kw):
    maclib.LOG[:] = []
    r = f(*args, **kw)
    return r, [x[:2] for x in maclib.LOG]


def ref(tree, once):
    x = RefExpander(dict(LIB), "use.py")
    x.recursive = not once
    return x.x(tree)


def body(t):
    """Normal form of a result: nothing is nothing; a suite without statements is `pass`."""
    for x in preorder(t):
        if isinstance(x, (ast.stmt, ast.ExceptHandler, ast.match_case)) and getattr(x, "body", None) == []:
            x.body = [ast.Pass()]
    r = nf(t)
    return None if r == nf([]) or r == nf(None) else r


def exact_steps(tool):
    return "step" not in tool and "1" not in tool


def agree(p, tool, once, block, ctx):
    tree = ast.parse(p).body
    want, wlog = trace(ref, tree if block else tree[0].value, once)
    ctx.step(len(wlog))
    ctx.state((p, tool))
    got, log = trace(run, program(tool, p))
    ctx.equal(body(got), body(want), f"{tool}: {p}")
    if tool.replace("1", "") in ("expandsq[{}]", "expands[q[{}]]", "expandrq[{}]", "expandr[q[{}]]", "var:expandr", "api:runtime_expand") or block and "step" not in tool:
        ctx.equal(log, wlog, f"{tool}: {p}: macro applications")


def layers(p, n, static, ctx):
    """n one-layer tools on top of each other are n one-layer expansions."""
    t = "q[%s]" % p
    for _ in range(n):
        t = ("expand1s[%s]" if static else "expand1r[%s]") % t
    t2 = p
    want = clone(ast.parse(p).body[0].value)
    for _ in range(n):
        x = RefExpander(dict(LIB), "use.py")
        want = x.visit_once(want).body
    ctx.state((p, n, static))
    ctx.step(n)
    ctx.equal(nf(run("r = " + t)), nf(want), f"{n} layers of {p}")


# --------------------------------------------------------------------------------
# Unquotes

UNQ = ["u[v]", "n[name]", "a[tree]", "s[trees]", "t[trees]", "a[trees]"]


def unqenv():
    return {"v": [1, "w"], "name": "obj.attr", "tree": ast.parse("chain[z]", mode="eval").body, "trees": [ast.parse(s, mode="eval").body for s in ("wrap[p]", "r")],
            "block": ast.parse("with wrap:\n    chain[z]").body}


OUT_U = ["{}", "f({}, z)", "wrap[f({})]", "chain[[{}]]", "inner[f({})]", "once[f({})]", "dup[f({})]", "wrap[chain[(y, {})]]", "count[2][[{}]]", "rec[(chain[{}],)]", "f(wrap[b], {}, wrap[{}])", "drop[f({})]", "multi[(1, {})]", "f(nexpr, {})"]


def with_unquotes(tool, p, ctx):
    ctx.state((tool, p))
    static = "s" in tool.split("[")[0].split(":")[-1].removeprefix("expand").removeprefix("1")
    try:
        got = run(program(tool, p), unqenv())
    except Exception as e:
        got = e
    src = ast.parse(p).body[0].value
    once = "1" in tool
    env = unqenv()
    try:
        if static:
            # opaque while expanding, then the values are put in
            holes = {}
            def hide(t):
                for f in t._fields:
                    v = getattr(t, f)
                    if isinstance(v, list):
                        v[:] = [hide(x) if isinstance(x, ast.AST) else x for x in v]
                    elif isinstance(v, ast.AST):
                        setattr(t, f, hide(v))
                if type(t) is ast.Subscript and type(t.value) is ast.Name and t.value.id in "unast":
                    k = f"hole{len(holes)}"
                    holes[k] = t
                    return ast.Name(id=k, ctx=ast.Load())
                return t
            t = ref(hide(src), once)
            class Fill(ast.NodeTransformer):
                def visit_Name(self, n):
                    return clone(holes[n.id]) if n.id in holes else n
            from .refx import norm
            t = norm(t)
            t = [Fill().visit(x) for x in t] if isinstance(t, list) else Fill().visit(t)
            want = Model(env).quote(t, 1) if isinstance(t, list) else Model(env).single(t, 1)
        else:
            want = Model(env).single(src, 1)
            want = ref(want, once)
    except QError as e:
        want = e
    ctx.step()
    if isinstance(want, Exception) or isinstance(got, Exception):
        ctx.check(isinstance(want, Exception) and isinstance(got, Exception), lambda: f"{tool}: {p}: got {got!r}, expected {want!r}")
        return
    ctx.equal(body(got), body(want), f"{tool}: {p}")


# --------------------------------------------------------------------------------
# astify and unastify

def roundtrip(s, form, ctx):
    t = ast.parse(s, mode="eval").body if form == "expr" else ast.parse(s).body
    ctx.state(s)
    ctx.step()
    try:
        a1 = astify(clone(t))
    except Exception as e:
        ctx.fail(f"astify({s!r}): {e!r}")
        return
    back = unastify(clone(a1))
    if not ctx.equal(canon(back), canon(t), f"unastify(astify({s}))"):
        return
    ctx.equal(canon(astify(back)), canon(a1), f"astify(unastify(astify({s})))")


def requote(p, form, ctx):
    """The output of q, un-quoted, has the unquotes as before; quoting it again gives the same code, and the same value."""
    ctx.state(p)
    src = f"r = q[{p}]" if form == "expr" else f"with q as r:\n    {indent(p)}"
    code = expand_macros(ast.parse(src), dict(B), filename="use.py")
    assign = [x for x in code.body if type(x) is ast.Assign and x.targets[0].id == "r"][0]
    once = clone(assign.value)
    back = unastify(clone(once))
    x = MacroExpander(dict(B), "use.py")
    again = quotes.q(back, syntax="expr", expander=x, invocation=None)
    ctx.step()
    if "h[" not in p:
        ctx.equal(canon(loads(again)), canon(loads(once)), f"re-quoted {p}")
    def val(e):
        t = ast.Module(body=[ast.Assign(targets=[ast.Name(id="r", ctx=ast.Store())], value=loads(e))], type_ignores=[])
        return runtree(t, unqenv())
    try:
        want = val(clone(once))
    except Exception as e:
        want = e
    try:
        got = val(again)
    except Exception as e:
        got = e
    if isinstance(want, Exception):
        ctx.check(type(got) is type(want), lambda: f"{p}: {want!r} when quoted, {got!r} when re-quoted")
    elif ctx.check(not isinstance(got, Exception), lambda: f"{p}: re-quoted: {got!r}"):
        for x in itertools.chain(preorder(got), preorder(want)):
            if isinstance(x, ast.Name):
                x.id = re.sub(r"_[0-9a-f]{32}$", "", x.id)  # unique name of a captured macro
        ctx.equal(qcanon(capnorm(got)), qcanon(capnorm(want)), f"value of re-quoted {p}")


# --------------------------------------------------------------------------------
# expand_first

FIRSTB = {"first1": LIB["wrap"]}


def first_bindings():
    b = dict(B)
    b["alias"] = LIB["chain"]
    b["alias2"] = LIB["inner"]
    return b


def efirst(names, form, p, ctx):
    """`names` expanded first in the block `p`."""
    b = first_bindings()
    lib = {k: v for k, v in b.items() if k in LIB or k.startswith("alias")}
    ctx.state((names, form, p))
    fs = [lib[n] for n in names]
    sub = {k: v for k, v in lib.items() if any(v is f for f in fs)}
    # what the surrounding macro gets
    x = RefExpander(dict(sub), "use.py")
    tree = ast.parse(p).body
    (inner, log1) = trace(x.visit_recursively, clone(tree))
    y = RefExpander(dict(lib), "use.py")
    (final, log2) = trace(y.visit_recursively, clone(inner))
    if form == "quoted":
        args = ", ".join(f"h[{n}]" for n in names)
        got1 = run(f"with expand1rq as r:\n    with expand_first[{args}]:\n        {indent(indent(p))}", bindings=b)
        ctx.equal(body(got1), body(inner), f"expand_first[{args}] ({form}), one layer: {p}")
        return
    args = ", ".join(names if form == "bare" else [f"q[h[{n}]]" for n in names])
    if form == "parens":
        args = f"({', '.join(names)})"
        head = f"expand_first{args}"
    else:
        head = f"expand_first[{args}]"
    got1 = run(f"with expand1rq as r:\n    with {head}:\n        {indent(indent(p))}", bindings=b) if form != "hygienic" else None
    if form != "hygienic":
        ctx.equal(body(got1), body(inner), f"{head}, one layer: {p}")
    maclib.LOG[:] = []
    got = expand_macros(ast.parse(f"with {head}:\n    {indent(p)}"), dict(b), filename="use.py").body
    log = [l[:2] for l in maclib.LOG]
    ctx.equal(body(got), body(final), f"{head}: {p}")
    ctx.equal(log, log1 + log2, f"{head}: {p}: macro applications")
    ctx.step(len(log))


BADFIRST = ["with expand_first[nosuch]:\n    a", "with expand_first[wrap, nosuch]:\n    a", "with expand_first[wrap[a]]:\n    a", "with expand_first[f(x)]:\n    a", "with expand_first['wrap']:\n    a", "with expand_first[wrap] as z:\n    a",
            "with expand_first:\n    a", "x = expand_first[wrap][a]", "@expand_first[wrap]\ndef f(): pass", "with expand_first[q[wrap + 1]]:\n    a", "with expand_first[wrap, 3]:\n    a", "with expand_first[q[h[nosuch]]]:\n    a", "with expand_first[a.b]:\n    a"]

FIRSTBODY = ["a", "wrap[chain[b]]", "chain[wrap[b]]\ninner[alias[c]]", "with wrap:\n    chain[a]\n    alias2[wrap[b]]", "@wrap\n@chain\ndef f():\n    return inner[chain[x]]", "with chain, wrap:\n    nexpr\nnexpr\nnother[nself]",
             "f(count[1][wrap[a]], par[chain[b]][alias[c]])", "with inner:\n    with chain:\n        wrap[a]\nonce[wrap[chain[b]]]", "with drop:\n    wrap[a]\nb", "multi[wrap[a]]\ngen[chain[b]]"]


# --------------------------------------------------------------------------------
# Bindings

def bindings_case(quoted_in, expanded_in, tool, ctx):
    """The bindings are those of the place where the tool is used."""
    two = {"A": dict(B, m=LIB["wrap"], only=LIB["chain"]), "B": dict(B, m=LIB["inner"]), "C": dict(B)}
    tree = run("r = q[f(m[a], only[b], chain[c])]", bindings=two[quoted_in])
    got, log = trace(run, f"r = {tool}[tree]", {"tree": tree}, two[expanded_in])
    lib = {k: v for k, v in two[expanded_in].items() if k in LIB or k in ("m", "only")}
    x = RefExpander(lib, "use.py")
    want, wlog = trace(x.visit_once if "1" in tool else x.visit_recursively, ast.parse("f(m[a], only[b], chain[c])").body[0].value)
    ctx.state((quoted_in, expanded_in, tool))
    ctx.step()
    ctx.equal(nf(got), nf(want), f"quoted in {quoted_in}, {tool} in {expanded_in}")
    if tool != "stepr":
        ctx.equal(log, wlog, "macro applications")
    snap = run("r = macro_bindings", bindings=two[expanded_in])
    ctx.check(isinstance(snap, dict) and all(snap.get(k) is v for k, v in two[expanded_in].items()), "macro_bindings is not a snapshot of the bindings")
    names = [k for k in snap if k in ("m", "only")]
    ctx.equal(sorted(names), sorted(k for k in two[expanded_in] if k in ("m", "only")), "names bound in the snapshot")


def fill(s, ctx):
    src = f"\n\nr = (fill_location[q[{s}]], fill_location[{'q[f(y)]'}])"
    t = expand_macros(ast.parse(src), dict(B), filename="use.py")
    r = runtree(t)
    inv = ast.parse(src).body[0].value.elts
    for got, i in zip(r, inv):
        for n in preorder(got):
            if "lineno" in n._attributes:
                ctx.step()
                ctx.equal((getattr(n, "lineno", None), getattr(n, "col_offset", None)), (i.lineno, i.col_offset), f"fill_location of {s}: location of {type(n).__name__}")
        compile(ast.Expression(body=got), "f", "eval")
    # what is there already stays
    tree = ast.parse(s, mode="eval").body
    have = [(getattr(n, "lineno", None), getattr(n, "col_offset", None)) for n in preorder(tree)]
    r = run("\n\n\n\n\nr = fill_location[tree]", {"tree": tree})
    ctx.equal([(getattr(n, "lineno", None), getattr(n, "col_offset", None)) for n in preorder(r)], have, f"fill_location of located {s}")
    ctx.state(s)


@functools.lru_cache(None)
def corpus(form):
    return list(snips.exprs(1) if form == "expr" else snips.stmts(1))


def cases(tier):
    deep = tier != "quick"
    ops = E_ONE + E_MANY
    leaves = ["a", "nexpr", "(ident[a], wrap[nself], nother)"]
    chainsrc = []
    for d in (0, 1, 2):
        chainsrc += [f"f({s}, z)" for s in chains(d, ops + HEADS, leaves if d < 2 or deep else leaves[2:])]
    if deep:
        chainsrc += [f"f({s}, z)" for s in chains(3, ops, ["chain[nexpr]"])]
    else:
        chainsrc += [f"f({s}, z)" for s in chains(3, ["wrap", "inner", "once", "chain", "dup", "peel"], ["chain[nexpr]"])]
    for d in (0, 1):
        chainsrc += list(chains(d, E_ONE + HEADS + NAMES[2:3], leaves))
    sib = ["{0}[chain[a]]".format(o) for o in ops] + NAMES
    for a, b in itertools.product(sib, repeat=2):
        chainsrc.append(f"f({a}, {b}, chain[b])")
    for p in chainsrc:
        yield ["expr", p]
    bodies = ["a\nchain[b]", "with chain:\n    nexpr\nc", "@chain\ndef f(): pass", "wrap[drop[a]]", "x = wrap[a]", "pass", "return wrap[chain[a]]", "for i in chain[wrap[x]]:\n    nexpr\n    break"]
    bsrc = list(bodies) + list(blocks(STM + HEADS, bodies))
    if deep:
        bsrc += list(blocks(STM + HEADS, list(blocks(STM + HEADS, bodies[:4]))))
    else:
        bsrc += list(blocks(STM, list(blocks(["wrap", "inner", "chain", "once", "drop"], bodies[:4]))))
    for d in itertools.product(DECO, repeat=2):
        bsrc.append("".join(f"@{x}\n" for x in d) + "def f(a=chain[a]) -> wrap[x]: inner[b]")
    for p in bsrc:
        yield ["block", p]
    for s in chains(2, ["wrap", "chain", "inner", "dup", "once", "count[2]", "nother"], ["a", "nexpr", "(nself, chain[chain[b]])"]):
        for n in range(4):
            yield ["layers", f"f({s}, z)", n]
    # unquotes
    for o in OUT_U:
        for us in (itertools.product(UNQ, repeat=o.count("{}"))):
            yield ["unq", o.format(*us)]
    # astify
    n = sum(1 for _ in snips.exprs(1))
    for i in range(0, n, 50):
        yield ["astify", "expr", i]
    n = sum(1 for _ in snips.stmts(1 if deep else 0))
    for i in range(0, n, 50):
        yield ["astify", "stmt", i]
    for o in OUT_U + ["{} + {}", "lambda x={}: {}", "{{{}: {}}}", "f(*{}, **{})", "{}.attr[{}]", "f'{{{}}}'", "[{} for x in {}]"]:
        for us in (itertools.product(UNQ + ["h[v]"], repeat=o.count("{}"))):
            yield ["requote", "expr", o.format(*us)]
    for b in ("with a:\n    block", "x = u[v]\nwith a:\n    block\n    block", "if a[tree]:\n    with a:\n        block\nelse:\n    h[v]", "@a[tree]\ndef f(x=u[v]): return s[trees]", "f(h[wrap][u[v]], h[v])", "with h[wrap]:\n    a[tree]"):
        yield ["requote", "stmt", b]
    # expand_first
    pool = ["wrap", "chain", "inner", "alias", "nexpr", "count", "drop", "nother", "once", "par", "multi"]
    for k in (1, 2):
        for names in itertools.product(pool, repeat=k):
            for form in ("bare", "quoted", "hygienic", "parens"):
                if form in ("hygienic",) and k == 2 and not deep and names[0] != "wrap":
                    continue
                for p in FIRSTBODY:
                    if k == 2 and not deep and form != "bare" and hash_(names, p) % 4:
                        continue
                    yield ["first", names, form, p]
    for i in range(len(BADFIRST)):
        yield ["badfirst", i]
    for q_, e in itertools.product("ABC", repeat=2):
        for t in ("expandr", "expand1r", "stepr"):
            yield ["bind", q_, e, t]
    for s in snips.exprs(0):
        yield ["fill", s]


def hash_(names, p):
    return sum(map(ord, "".join(names))) + len(p)


def run_case(case, ctx):
    kind = case[0]
    if kind == "expr":
        for t in REC:
            if "1" in t and any(x in case[1] for x in ("once", "done", "twice", "peel")):
                continue
            agree(case[1], t, False, False, ctx)
        for t in ONE:
            agree(case[1], t, True, False, ctx)
    elif kind == "block":
        for t in BREC:
            agree(case[1], t, False, True, ctx)
        for t in BONE:
            agree(case[1], t, True, True, ctx)
    elif kind == "layers":
        layers(case[1], case[2], True, ctx)
        layers(case[1], case[2], False, ctx)
    elif kind == "unq":
        for t in ("expandsq[{}]", "expand1sq[{}]", "expands[q[{}]]", "expandrq[{}]", "expandr[q[{}]]", "var:expandr", "expand1rq[{}]", "var:expand1r"):
            with_unquotes(t, case[1], ctx)
    elif kind == "astify":
        for s in corpus(case[1])[case[2]:case[2] + 50]:
            roundtrip(s, case[1], ctx)
    elif kind == "requote":
        requote(case[2], case[1], ctx)
    elif kind == "first":
        efirst(tuple(case[1]), case[2], case[3], ctx)
    elif kind == "badfirst":
        ctx.state(BADFIRST[case[1]])
        try:
            expand_macros(ast.parse(BADFIRST[case[1]]), dict(B), filename="use.py")
        except Exception as e:
            while e.__cause__ is not None:
                e = e.__cause__
            ctx.check(isinstance(e, SyntaxError), lambda: f"{BADFIRST[case[1]]!r}: {e!r} instead of SyntaxError")
        else:
            ctx.fail(f"{BADFIRST[case[1]]!r} is accepted")
    elif kind == "bind":
        bindings_case(case[1], case[2], case[3], ctx)
    elif kind == "fill":
        fill(case[1], ctx)
