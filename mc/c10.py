"""C10: quoting code yields exactly the AST of that code.

Every snippet of the grammar is quoted (in expression and block form) through the public compiler, evaluated several
times, and compared with what the parser gives; nested quotes and unquotes are compared, stage by stage, with a
reference model of quote levels; every misuse must be an error and leave the operators working.
"""
import ast
import itertools
import marshal
import sys
import types

from mcpyrate.compiler import compile as mcompile
from mcpyrate.core import MacroExpansionError
from mcpyrate.expander import expand_macros
from mcpyrate.quotes import q as q_macro

from . import maclib, snips
from .astutil import clone, preorder
from .qmodel import OPS, UNQ, Model, QError, capnorm, qcanon

LEVEL = "model_checking"
RULE = ("distinct programs: quoted snippets of the grammar (each expression form in each hole of each form, to the depth), windows of statements, "
        "macro invocations inside quotes, all chains of nested quote operators to a length with siblings, all misuses")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 120
ASSUMPTIONS = ["a quasiquote operator that shares its `with` header with other context managers is not covered (documented as unsupported)",
               "the `mcpyrate` package is importable under its name at the use site"]

N = 40


def batches(n, kind):
    for i in range(0, n, N):
        yield [kind, i, min(n, i + N)]


_cache = {}
def snip(kind, depth):
    key = (kind, depth)
    if key not in _cache:
        _cache[key] = list((snips.exprs if kind == "expr" else snips.stmts)(depth))
    return _cache[key]


def depths(tier):
    return {"expr": 1 if tier == "quick" else 2, "stmt": 1}


def chains(maxlen, ops=OPS):
    """Sequences of operators starting with q whose level never goes negative."""
    def go(prefix, level):
        yield prefix
        if len(prefix) == maxlen:
            return
        for o in ops:
            if o == "q":
                yield from go(prefix + [o], level + 1)
            elif level > 0:
                yield from go(prefix + [o], level - 1)
    yield from go(["q"], 1)


LEAF = {"q": "x", "u": "v", "n": "nm", "a": "tr", "s": "lst", "t": "lst", "h": "v"}


def level_of(chain):
    return sum(1 if o == "q" else -1 for o in chain)


def chain_src(chain, names, sibs):
    """Source of the chain; `sibs`: at each level, put siblings next to the next operator."""
    lev = level_of(chain)
    src = "x" if lev > 0 else LEAF[chain[-1]]
    for i in range(len(chain) - 1, -1, -1):
        o = chain[i]
        lev = level_of(chain[:i])
        inner = level_of(chain[:i + 1])
        if inner == 0 and i + 1 < len(chain):  # operand evaluated for real: chain[i+1] is a q
            if o in "un":
                return None
            if o in "st":
                src = f"[{src}, tr]"
        elif inner > 0 and sibs:
            src = f"f(x, {src}, y={names['q']}[g])"
        src = f"{names[o]}[{src}]"
    return src


ALIAS = {o: o.upper() + "_" for o in OPS}
PLAIN = {o: o for o in OPS}


def misuses():
    out = []
    for o in UNQ:
        out.append(f"r = {o}[x]")
        out.append(f"with q as r:\n    {o}[{o}[x]]")
        for p in UNQ:
            out.append(f"r = q[{o}[{p}[x]]]")
            out.append(f"r = q[f({o}[f({p}[x])])]")
            out.append(f"r = q[q[{o}[{p}[{p}[x]]]]]")
        out.append(f"@{o}\ndef f():\n    pass")
        out.append(f"with q as r:\n    @{o}\n    def f():\n        pass")
        out.append(f"with q as r:\n    @{o}\n    class C:\n        pass")
        if o != "a":
            out.append(f"with q as r:\n    with {o}:\n        x")
            out.append(f"with q as r:\n    if y:\n        with {o}:\n            x")
            out.append(f"with {o}:\n    x")
    out += ["@q\ndef f():\n    pass", "@q\nclass C:\n    pass", "with q:\n    x", "with q as (r, s):\n    x", "with q as [r, s]:\n    x",
            "with q as r.s:\n    x", "with q as r[0]:\n    x", "with a:\n    x", "with a as z:\n    x",
            "with q as r:\n    with a as z:\n        x", "with q as r:\n    y\n    for z in w:\n        with a as z:\n            x",
            "with q as r:\n    @q\n    def f():\n        pass"]
    for body in ("x = 1", "pass", "if x:\n            y", "import m", "return x", "def f():\n            y", "x\n        y = 1", "x; pass", "x += 1", "x: 1", "del x", "raise x", "global x"):
        out.append(f"with q as r:\n    with a:\n        {body}")
    return out


BLOCKS = [
    "with q as r:\n    x = 1\n    with q as r2:\n        y = 2\n        z(u[u[v]])",
    "with q as r:\n    with q as r2:\n        with a:\n            x\n        y",
    "with q as r:\n    with q as r2:\n        with a:\n            a[tr]\n        y",
    "with q as r:\n    with q as r2:\n        with a:\n            f(u[v])\n            a[tr]\n        y",
    "with q as r:\n    with a:\n        sts\n    with q as r2:\n        with a:\n            q[u[v]]\n        u[x]",
    "with q as r:\n    if u[v]:\n        with q as r2:\n            x = u[u[v]]\n            with q as r3:\n                y = u[u[u[v]]]\n                z = u[u[x]]",
    "with q as r:\n    x = q[u[y] + u[u[v]]]\n    y = q[q[a[a[a[tr]]]]]",
    "with q as r:\n    def f(x=u[v]):\n        with q as r2:\n            return a[a[tr]]\n        with a:\n            sts\n            st\n        return r2",
    "with q as r:\n    with a:\n        sts\n        st",
    "with q as r:\n    for a[tr] in s[lst]:\n        with a:\n            none\n        t[lst] = n[nm]",
    "with q as r:\n    class C(a[lst]):\n        with a:\n            st\n        with q as r2:\n            class D(u[a[tr]]):\n                with a:\n                    y",
    "with q as r:\n    with q as r2:\n        with q as r3:\n            with a:\n                with a:\n                    a[tr]\n                    u[v]",
    "with q as r:\n    with ctx as z:\n        with q as r2:\n            h[h[v]]\n            h[w]",
    "with q as r:\n    with a:\n        ff(sts, st)\n    with q as r2:\n        pass",
]


def macro_programs():
    names = ["ident", "drop", "wrap", "inner", "once", "multi", "nself", "nexpr"]
    for m in names:
        yield f"{m}[x]"
        yield f"{m}[x][y]"
        yield f"count[2][{m}[x]]"
        yield f"nnone + {m}[nself]"
        for m2 in names:
            yield f"f({m}[{m2}[x]], {m2}[y])"
    for m in names:
        for m2 in names:
            yield f"with {m}:\n    {m2}[x]\n    y"
            yield f"with {m}, {m2} as z:\n    nself"
            yield f"@{m}\n@{m2}\ndef f(x=nexpr):\n    return {m}[x]"
            yield f"with count[1]:\n    @{m}\n    class C:\n        with {m2}:\n            pass"


def cases(tier):
    d = depths(tier)
    for kind in ("expr", "stmt"):
        for c in batches(len(snip(kind, d[kind])), kind):
            yield c + [d[kind]]
    n1 = len(snip("stmt", 0))
    for w in (2, 3, 4):
        for i in range(0, n1, 10):
            yield ["window", w, i]
    progs = list(macro_programs())
    for i in range(0, len(progs), 10):
        yield ["macro", i]
    L = 5 if tier == "quick" else 6
    cs = list(chains(L))
    for i in range(0, len(cs), 25):
        for alias in ((0, 1) if i < 500 or tier == "thorough" else (0,)):
            for sibs in (0, 1):
                yield ["chain", L, i, alias, sibs]
    for i in range(len(BLOCKS)):
        for alias in (0, 1):
            yield ["block", i, alias]
    for i in range(len(misuses())):
        for alias in (0, 1):
            yield ["misuse", i, alias]


HEAD = "from mcpyrate.quotes import macros, q as qq"


def run(tree, env=None):
    ns = dict(env or {})
    ns["__name__"] = "test_module"
    exec(mcompile(tree, "quoting.py"), ns)
    return ns


def strip_loc(tree):
    for n in preorder(tree):
        for a in ("lineno", "col_offset", "end_lineno", "end_col_offset"):
            vars(n).pop(a, None)
    return tree


def code_of(body, mode):
    body = strip_loc(clone(body))
    t = ast.Expression(body=body) if mode == "eval" else ast.Module(body=body, type_ignores=[])
    try:
        return marshal.dumps(compile(ast.fix_missing_locations(t), "f.py", mode, dont_inherit=True))
    except (SyntaxError, ValueError) as e:
        return repr(type(e))


def wreck(tree):
    """Overwrite everything reachable."""
    for n in list(preorder(tree)):
        for f in n._fields:
            if isinstance(getattr(n, f, None), list):
                getattr(n, f)[:] = ["wrecked"]
            setattr(n, f, "wrecked")
    if isinstance(tree, list):
        tree[:] = ["wrecked"]


def identities(tree):
    out = set()
    for n in preorder(tree):
        if isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
            pass  # also fresh in practice, but sharing field-less nodes would not be observable by mutation of fields
        else:
            out.add(id(n))
            for f in n._fields:
                if isinstance(getattr(n, f, None), list):
                    out.add(id(getattr(n, f)))
    if isinstance(tree, list):
        out.add(id(tree))
    return out


def quoting(sources, form):
    """A module with one function per snippet returning the quoted snippet; and the reference trees."""
    body = ast.parse(HEAD).body
    refs = []
    for i, s in enumerate(sources):
        if form == "expr":
            ref = ast.parse(s, mode="eval").body
            f = ast.parse(f"def f{i}():\n    return qq[_]").body[0]
            f.body[0].value.slice = clone(ref)
        else:
            ref = ast.parse(s).body
            f = ast.parse(f"def f{i}():\n    with qq as quoted:\n        pass\n    return quoted").body[0]
            f.body[0].body = clone(ref)
        body.append(f)
        refs.append(ref)
    return ast.Module(body=body, type_ignores=[]), refs


def check_quotes(sources, form, ctx):
    module, refs = quoting(sources, form)
    ns = run(module)
    mode = "eval" if form == "expr" else "exec"
    for i, (s, ref) in enumerate(zip(sources, refs)):
        f = ns[f"f{i}"]
        want = qcanon(ref)
        ctx.state((form, s))
        t1, t2 = f(), f()
        ctx.step(3)
        if not ctx.equal(qcanon(t1), want, f"quote of {s!r}"):
            continue
        ctx.equal(qcanon(t2), want, f"second evaluation of the quote of {s!r}")
        ctx.check(not (identities(t1) & identities(t2)), f"two evaluations of the quote of {s!r} share nodes")
        ctx.check(not any(hasattr(n, "lineno") for n in preorder(t1)) or form, "unreachable")
        ctx.equal(code_of(t1, mode), code_of(ref, mode), f"code compiled from the quote of {s!r}")
        wreck(t1)
        ctx.equal(qcanon(t2), want, f"the other quote after overwriting one, of {s!r}")
        wreck(t2)
        ctx.equal(qcanon(f()), want, f"evaluation of the quote after overwriting its earlier results, of {s!r}")


def env():
    return {"v": [1, ("two", None)], "nm": "foo.bar[0]", "tr": ast.parse("tree.one", mode="eval").body,
            "lst": [ast.parse(e, mode="eval").body for e in ("l1", "l2 + 1")],
            "st": ast.parse("s0").body[0], "sts": ast.parse("s1\nif s2:\n    s3").body, "none": [],
            "x": ast.parse("xx", mode="eval").body, "y": ast.parse("yy = 1").body[0], "w": 17, "z": "zed", "ctx": 0,
            "f": lambda *args, **kw: args[1] if len(args) > 1 else args[0], "ff": lambda *a: list(a), "g": 3}


def stage(ctx, tree_src, names, what, block=False):
    """Evaluate stage by stage, on the real code and in the model, until nothing is left to evaluate."""
    model = Model(env(), {v: k for k, v in names.items()})
    imp = "from mcpyrate.quotes import macros, " + ", ".join(f"{o} as {names[o]}" if names[o] != o else o for o in OPS)
    code_a = ast.parse(tree_src)
    code_m = ast.parse(tree_src)
    for k in range(4):
        body = ast.parse(imp).body + clone(code_a.body)
        want = err = None
        try:
            if block:
                outs = {}
                for st in code_m.body:
                    if model.bop(st) == "q":
                        outs[st.items[0].optional_vars.id] = model.quote(st.body, 1)
                want = outs
            else:
                want = {"r": model.ev(code_m.body[0].value)}
        except QError as e:
            err = e
        except (NotImplementedError, KeyError, TypeError, AttributeError):
            return  # not something that can be evaluated for real
        try:
            e = env()
            ns = run(ast.Module(body=body, type_ignores=[]), e)
        except Exception as e:
            if err is None:
                ctx.fail(f"{what}, stage {k + 1}: {type(e).__name__}: {e} {e.__cause__!r}")
            else:
                ctx.trace()
            return
        if err is not None:
            ctx.fail(f"{what}, stage {k + 1}: no error for a misused operator ({err})")
            return
        ctx.step()
        got = {n: ns.get(n) for n in want}
        g = {n: qcanon(capnorm(v)) if isinstance(v, (ast.AST, list)) else qcanon(v) for n, v in got.items()}
        m = {n: qcanon(v) for n, v in want.items()}
        if not ctx.equal(sorted(g.items()), sorted(m.items()), f"{what}, stage {k + 1}"):
            return
        ctx.outcome(str(m))
        # the next stage evaluates the quoted code, if it has quotes left
        if block:
            (name, val), = got.items()
            (_, mval), = want.items()
            keep = [i for i, st in enumerate(val) if model.bop(st) == "q"]
            if len(keep) != 1:
                return
            code_a = ast.Module(body=[val[keep[0]]], type_ignores=[])
            code_m = ast.Module(body=[st for st in mval if model.bop(st) == "q"], type_ignores=[])
        else:
            if not isinstance(want["r"], ast.expr) or not any(model.op(n) == "q" for n in preorder(want["r"])):
                return
            code_a = ast.Module(body=[ast.Assign(targets=[ast.Name(id="r", ctx=ast.Store())], value=got["r"])], type_ignores=[])
            code_m = ast.Module(body=[ast.Assign(targets=[ast.Name(id="r", ctx=ast.Store())], value=want["r"])], type_ignores=[])
        strip_loc(code_a)
        ast.fix_missing_locations(code_a)


def rename_ops(src, names):
    if names is PLAIN:
        return src
    t = ast.parse(src)
    for n in ast.walk(t):
        if type(n) is ast.Name and n.id in OPS:
            n.id = names[n.id]
    return ast.unparse(t)


def good(ctx, what):
    """The operators still work."""
    model = Model(env())
    src = "r = q[f(u[v], q[u[u[v]] + u[x]], a[lst], h[w])]"
    want = model.ev(ast.parse(src).body[0].value)
    ns = run(ast.parse("from mcpyrate.quotes import macros, q, u, n, a, s, t, h\n" + src), env())
    ctx.equal(qcanon(capnorm(ns["r"])), qcanon(want), f"a good quote after {what}")


def run_case(case, ctx):
    kind = case[0]
    if kind in ("expr", "stmt"):
        _, i, j, d = case
        check_quotes(snip(kind, d)[i:j], kind, ctx)
    elif kind == "window":
        _, w, i = case
        ss = snip("stmt", 0)
        check_quotes(["\n".join((ss + ss)[k:k + w]) for k in range(i, min(i + 10, len(ss)))], "stmt", ctx)
    elif kind == "macro":
        progs = list(macro_programs())[case[1]:case[1] + 10]
        for form in ("expr", "stmt"):
            srcs = [p for p in progs if form == "stmt" or "\n" not in p]
            if not srcs:
                continue
            module, refs = quoting(srcs, form)
            del module.body[0]
            bindings = dict(maclib.LIB)
            bindings["qq"] = q_macro
            maclib.LOG.clear()
            t = expand_macros(module, bindings, filename="quoting.py")
            t = ast.fix_missing_locations(t)
            ns = {}
            exec("import mcpyrate.quotes", ns)
            exec(compile(t, "quoting.py", "exec"), ns)
            ctx.equal(maclib.LOG, [], "macros called while quoting")
            for i, (s, ref) in enumerate(zip(srcs, refs)):
                ctx.state(("macro", form, s))
                ctx.step()
                ctx.equal(qcanon(ns[f"f{i}"]()), qcanon(ref), f"quote of {s!r} with macros bound")
    elif kind == "chain":
        _, L, i, alias, sibs = case
        names = ALIAS if alias else PLAIN
        for c in list(chains(L))[i:i + 25]:
            src = chain_src(c, names, sibs)
            if src is None:
                continue
            ctx.state(src)
            stage(ctx, f"r = {src}", names, src)
    elif kind == "block":
        names = ALIAS if case[2] else PLAIN
        src = rename_ops(BLOCKS[case[1]], names)
        ctx.state(src)
        stage(ctx, src, names, src, block=True)
    elif kind == "misuse":
        names = ALIAS if case[2] else PLAIN
        src = rename_ops(misuses()[case[1]], names)
        ctx.state(src)
        imp = "from mcpyrate.quotes import macros, " + ", ".join(f"{o} as {names[o]}" if names[o] != o else o for o in OPS)
        try:
            mcompile(imp + "\n" + src, "misuse.py")
        except (MacroExpansionError, SyntaxError) as e:
            ctx.trace()
            ctx.outcome(str(e.__cause__ or e))
        except Exception as e:
            ctx.fail(f"misuse {src!r}: {type(e).__name__}: {e}")
        else:
            ctx.fail(f"misuse {src!r} is not reported")
        good(ctx, f"the misuse {src!r}")
