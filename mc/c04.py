"""C04: failing macros: the error report, and nothing left behind."""
import ast
import contextlib
import io
import itertools
import os
import re
import sys
import textwrap
import types
import warnings

from mcpyrate import namemacro, parametricmacro
from mcpyrate.core import MacroApplicationError
from mcpyrate.expander import MacroExpander, expand_macros

from .astutil import canon, clone, preorder
from .maclib import LIB, P, aslist, invoke, wrapped
from .proc import ANSI, ChildDied, forked, plain
from .refx import RefExpander, nf

LEVEL = "model_checking"
RULE = ("cases: (a) programs in which a macro fails (raising any of several exceptions, or giving something that is not AST) under every chain of macros that expand explicitly in the various modes, in every invocation form and at every position among siblings; then the same expander object and a new one expand probe programs; "
        "(b) histories of one or two failing operations (macros, quotes, dialects, macro-imports, phases, debug aids, run-time compilation, import errors) in a process, then every probe; "
        "state: (program) or (history); transition: macro application or operation; comparison: reported use sites with the reference expander's stack at the failure; probes with those of a process without failures; sys.modules")
BUDGET = {"quick": 600, "thorough": 3300}
TIMEOUT = 120
warnings.simplefilter("ignore")


class Custom(Exception):
    def __init__(self, a, b):  # cannot be built from its args
        super().__init__("custom")


class Silent(Exception):
    def __str__(self):
        return ""


FAIL = {
    "fvalue": (ValueError, lambda: (_ for _ in ()).throw(ValueError("no"))),
    "fsyntax": (SyntaxError, lambda: (_ for _ in ()).throw(SyntaxError("bad"))),
    "fcustom": (Custom, lambda: (_ for _ in ()).throw(Custom(1, 2))),
    "fsilent": (Silent, lambda: (_ for _ in ()).throw(Silent())),
    "fstop": (StopIteration, None),
    "frec": (RecursionError, None),
    "fint": (None, lambda: 42),
    "fstr": (None, lambda: "abc"),
    "flist": (None, lambda: [ast.Name(id="ok", ctx=ast.Load()), 3]),
    "fnested": (None, lambda: [[ast.Name(id="ok", ctx=ast.Load())]]),
    "ftype": (None, lambda: ast.Name),
    "fobj": (None, lambda: object()),
    "fdict": (None, lambda: {"a": 1}),
}


def mkfail(name):
    exc, f = FAIL[name]
    def macro(tree, *, syntax, **kw):
        if name == "fstop":
            raise StopIteration("stop")
        if name == "frec":
            raise RecursionError("deep")
        return f()
    return macro


def fgen(tree, *, syntax, **kw):
    yield ast.Name(id="ok", ctx=ast.Load())
    raise ValueError("in the generator")


def fkw(tree):  # does not accept the arguments
    return tree


M = {n: mkfail(n) for n in FAIL}
M["fgen"] = fgen
M["fkw"] = fkw
EXC = {n: FAIL[n][0] for n in FAIL}
EXC["fgen"] = ValueError
EXC["fkw"] = TypeError
FN = namemacro(mkfail("fvalue"))
M["fname"] = FN
EXC["fname"] = ValueError
EXC["fmis"] = None
MAC = dict(LIB)
MAC.update(M)

EXPL = ["inner", "once", "rec", "peel", "twice", "par"]
IMPL = ["wrap", "ident", "chain", "count", "nother"]


class Failed(Exception):
    pass


class StackRef(RefExpander):
    """The reference expander, noting the invocations being applied when a macro fails."""
    def __init__(self, *a):
        super().__init__(*a)
        self.stack = []
        self.atfail = None

    def apply(self, syntax, name, invocation, tree, kw):
        self.stack.append((lines(syntax, invocation), name))
        try:
            try:
                r = self.b.get(name)(tree, syntax=syntax, expander=self, invocation=invocation, **kw)
                if r is not None and not isinstance(r, ast.AST):
                    r = list(r)
                if not (r is None or isinstance(r, ast.AST) or all(isinstance(e, ast.AST) for e in r)):
                    raise Failed()
            except Exception as e:
                if self.atfail is None:
                    self.atfail = (list(self.stack), e)
                raise Failed()
        finally:
            self.stack.pop()
        if r is None:
            return None
        for n in preorder(r):
            if "lineno" in n._attributes and not hasattr(n, "lineno") and hasattr(invocation, "lineno"):
                ast.copy_location(n, invocation)
        return self.x(r) if self.recursive else r


def lines(syntax, inv):
    out = set()
    if hasattr(inv, "lineno"):
        out.add(inv.lineno)
    for d in getattr(inv, "decorator_list", []):
        if hasattr(d, "lineno"):
            out.add(d.lineno)
    return out


PROBES = ["f(inner[chain[a]], once[chain[b]], rec[wrap[nexpr]], nself, chain[c])", "with inner, once as z:\n    @chain\n    @wrap\n    def f(): return par[wrap[a], nexpr][chain[b]]\nchain[x]", "multi[a], gen[b], nnone, drop[c]"]
PROBEREF = {}


def sites(msg):
    """The use sites a report lists: [(line, macro)]."""
    return [(int(l), m) for l, m in re.findall(r"^\S*prog\.py:(\d+):.*?^in \w+ macro invocation for '(\w+)'", plain(msg), re.M | re.S)]


def cases(tier):
    deep = tier != "quick"
    fails = [n for n in M if n != "fname"]
    ops = EXPL + IMPL + ["par[a]", "count[1]"]
    def chains(d, leaf):
        if d == 0:
            yield leaf
            return
        for o in ops:
            for s in chains(d - 1, leaf):
                yield f"{o}[{s}]"
    ctxs = ["y = {}", "x\nf(chain[a],\n  {},\n  chain[b])", "def g():\n    return inner[chain[p]], {}, inner[q]"]
    for n in fails:
        for d in (0, 1, 2):
            for s in chains(d, f"{n}[x]"):
                for c in ctxs if d < 2 or deep else ctxs[:2]:
                    yield ["expr", c.format(s), n]
    for n in fails if deep else ["fvalue", "fint", "fgen"]:
        for s in chains(3, f"{n}[x]"):
            yield ["expr", ctxs[1].format(s), n]
    for s in list(chains(0, "fname")) + list(chains(1, "fname")) + list(chains(2, "fname")):
        yield ["expr", ctxs[1].format(s), "fname"]
    # arguments expanded explicitly
    for n in fails:
        for o in EXPL:
            yield ["expr", f"u\npar[inner[a],\n  {o}[{n}[b]]][c]", n]
            yield ["expr", f"with par[{o}[{n}[b]]], inner:\n    c", n]
            yield ["expr", f"@par[{o}[{n}[b]]]\n@inner\ndef f(): c", n]
    # blocks and decorators, in several lines
    heads = ["inner", "once", "rec", "peel", "twice", "wrap", "ident", "chain", "par[a]"]
    for n in fails:
        leafs = [f"a\nwith {n}:\n    b\nc", f"@{n}\ndef f(): a", f"@chain\n@{n}\n@wrap\nclass C: a", f"with wrap, {n}, chain: a", f"g({n}[x])", f"async def h():\n    @{n}\n    async def f(): b"]
        for leaf in leafs:
            yield ["expr", leaf, n]
            for h in heads:
                b = leaf.replace("\n", "\n    ")
                b2 = leaf.replace("\n", "\n        ")
                yield ["expr", f"z\nwith {h}:\n    {b}", n]
                yield ["expr", f"z\n@{h}\ndef g():\n    y\n    {b}", n]
                for h2 in heads if deep or n in ("fvalue", "fint") else ["inner", "once"]:
                    yield ["expr", f"with {h}:\n    y\n    with {h2}:\n        {b2}", n]
                    yield ["expr", f"with {h}, {h2}:\n    {b}", n]
                    yield ["expr", f"@{h}\n@{h2}\nclass C:\n    {b}", n]
                    yield ["expr", f"with {h}:\n    @{h2}\n    def g():\n        {b2}", n]
    # process-level histories
    names = list(OPS)
    for a in names:
        yield ["history", [a]]
    for a, b in itertools.product(names, repeat=2):
        if deep or (a in FEW and b in FEW):
            yield ["history", [a, b]]


def run_expr(src, n, ctx):
    ref = StackRef(MAC, "prog.py")
    try:
        ref.visit(ast.parse(src))
        ctx.outcome("not applied")
        expected = None
    except Failed:
        expected = ref.atfail
    ctx.step(2)
    x = MacroExpander(dict(MAC), "/some/prog.py")
    t = ast.parse(src)
    try:
        x.visit(t)
        got = None
    except MacroApplicationError as e:
        got = e
    except BaseException as e:
        ctx.fail(f"not a macro application error: {type(e).__name__}: {e}")
        return
    ctx.check(x.recursive is True, "the expansion mode is not restored")
    if (got is None) != (expected is None):
        ctx.fail(f"error {'expected' if expected else 'not expected'}: {got!r}")
        return
    if expected:
        stack, exc = expected
        ctx.outcome((len(stack), type(exc)))
        # one error, whose cause is the original exception
        want = EXC[n]
        if want is not None:
            if not ctx.equal(type(got.__cause__), want, "cause of the macro application error"):
                return
            if n == "fvalue":
                ctx.equal(str(got.__cause__), "no", "cause")
        else:
            ctx.check(got.__cause__ is not None, "no cause given for an expansion that is not AST")
        g = sites(str(got))
        ok = len(g) == len(stack) and all(l in ls and m == name for (l, m), (ls, name) in zip(g, stack))
        ctx.validated += 1
        if not ok:
            ctx.fail(f"use sites reported: {g}, expected (line among, macro): {stack}\n{plain(got)}")
            return
        if len(stack) > 1:
            ctx.check(plain(got).count("Macro use site (most recent") <= 1, f"more than one header in the report:\n{plain(got)}")
    # nothing is left behind
    for p in PROBES:
        if p not in PROBEREF:
            PROBEREF[p] = nf(RefExpander(LIB, "prog.py").visit(ast.parse(p)))
        for what, y in (("the same expander", x), ("a new expander", MacroExpander(dict(MAC), "/some/prog.py"))):
            try:
                r = nf(y.visit(ast.parse(p)))
            except BaseException as e:
                ctx.fail(f"{what} fails after the failed expansion: {type(e).__name__}: {e}")
                return
            if not ctx.equal(r, PROBEREF[p], f"{what} after the failed expansion"):
                return


# --- histories

FILES = {
    "mlib.py": """
        import ast
        from mcpyrate import namemacro, parametricmacro
        from mcpyrate.quotes import macros, q, u, n, a, s, t, h
        from mlibbase import macros, triple
        value = 5
        def double(tree, *, expander, **kw): return q[a[tree] * 2]
        def boom(tree, **kw): raise ValueError("boom")
        def notast(tree, **kw): return 42
        def vis(tree, *, expander, **kw):
            return expander.visit(tree)
        def once(tree, *, expander, **kw):
            return expander.visit_once(tree)
        def cap(tree, **kw): return q[h[value] + a[tree]]
        def capm(tree, **kw): return q[h[triple][a[tree]]]
        notcallable = 3
    """,
    "mlibbase.py": """
        from mcpyrate.quotes import macros, q, u, n, a, s, t, h
        def triple(tree, **kw): return q[a[tree] * 3]
    """,
    "badmod.py": "import mlib\nraise RuntimeError('at import')",
    "badmac.py": "from mlib import macros, boom\ndef m(tree, **kw): return tree\nboom[1]",
    "badmac2.py": "from badmac import macros, m\ndef m2(tree, **kw): return tree\n",
    "dlib.py": """
        from mcpyrate.dialects import Dialect
        class SrcRaise(Dialect):
            def transform_source(self, text): raise ValueError("src")
        class SrcEmpty(Dialect):
            def transform_source(self, text): return ""
        class SrcBad(Dialect):
            def transform_source(self, text): return "def ("
        class AstRaise(Dialect):
            def transform_ast(self, tree): raise ValueError("ast")
        class AstEmpty(Dialect):
            def transform_ast(self, tree): return []
        class PostRaise(Dialect):
            def postprocess_ast(self, tree): raise ValueError("post")
        class InitRaise(Dialect):
            def __init__(self, expander): raise ValueError("init")
        class Good(Dialect):
            def transform_source(self, text): return text.replace("SIX", "6")
            def transform_ast(self, tree):
                import ast
                tree.body.append(ast.parse("added = 7").body[0])
                return tree
        notdialect = 3
        def fn(): pass
    """,
    "good1.py": "from mlib import macros, double, cap, capm\nr = (double[21], cap[1], capm[4])",
    "good2.py": "from dlib import dialects, Good\nr = (SIX, 1)",
    "good3.py": """
        from mcpyrate.multiphase import macros, phase
        with phase[2]:
            base = 3
            from mlib import macros, double
            two = double[1]
        with phase[1]:
            import ast
            def const(tree, **kw): return ast.Constant(value=base)
        from __self__ import macros, const
        r = (const[x], two, __phase__, __name__)
    """,
    "bad_macro.py": "import mlib\nfrom mlib import macros, boom, vis\nx = 1\ny = vis[boom[x]]",
    "bad_notast.py": "from mlib import macros, notast, once\ny = once[notast[x]]",
    "bad_nomod.py": "x = 1\nfrom nowhere import macros, m",
    "bad_noname.py": "from mlib import macros, nosuch",
    "bad_noncall.py": "from mlib import macros, notcallable",
    "bad_defmod.py": "from badmod import macros, m",
    "bad_defmac.py": "from badmac import macros, m",
    "bad_defmac2.py": "from badmac2 import macros, m2",
    "bad_syntax.py": "from mlib import macros, double\ndef (",
    "bad_runtime.py": "from mlib import macros, double\nx = double[1]\nraise KeyError('run')",
    "bad_marker.py": "from mlib2 import macros, mark\nx = mark[1]",
    "mlib2.py": "from mcpyrate.markers import ASTMarker\nclass K(ASTMarker): pass\ndef mark(tree, **kw): return K(tree)",
    "bad_d_src.py": "from dlib import dialects, SrcRaise\nx = 1",
    "bad_d_empty.py": "from dlib import dialects, SrcEmpty\nx = 1",
    "bad_d_bad.py": "from dlib import dialects, SrcBad\nx = 1",
    "bad_d_ast.py": "from dlib import dialects, Good, AstRaise\nx = 1",
    "bad_d_astempty.py": "from dlib import dialects, AstEmpty\nx = 1",
    "bad_d_post.py": "from dlib import dialects, PostRaise\nx = 1",
    "bad_d_init.py": "from dlib import dialects, InitRaise\nx = 1",
    "bad_d_not.py": "from dlib import dialects, notdialect\nx = 1",
    "bad_d_fn.py": "from dlib import dialects, fn\nx = 1",
    "bad_d_none.py": "from dlib import dialects, Nowhere\nx = 1",
    "bad_d_macro.py": "from dlib import dialects, Good\nfrom mlib import macros, boom\nboom[SIX]",
    "bad_p_run.py": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    x = 1\n    raise KeyError('phase 1')\ny = 2",
    "bad_p_macro1.py": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    from mlib import macros, boom\n    boom[1]\ny = 2",
    "bad_p_macro0.py": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    def m(tree, **kw): raise ValueError('from phase 1')\nfrom __self__ import macros, m\ny = m[2]",
    "bad_p_self.py": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    z = 1\nfrom __self__ import macros, nosuch\ny = m[2]",
    "bad_p_form.py": "from mcpyrate.multiphase import macros, phase\nwith phase[x]:\n    z = 1",
    "bad_p_nested.py": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    z = 1\ndef f():\n    with phase[1]:\n        pass",
    "bad_p_dialect.py": "from dlib import dialects, Good\nfrom mcpyrate.multiphase import macros, phase\nwith phase[2]:\n    z = 1\nwith phase[1]:\n    from mlib import macros, boom\n    boom[1]",
}


def src_op(src):
    """Compile module source text given as a string; expected to fail."""
    def op():
        import mcpyrate.compiler
        mcpyrate.compiler.run(textwrap.dedent(src))
    return op


def import_op(name):
    def op():
        __import__(name)
    return op


Q = "from mcpyrate.quotes import macros, q, u, n, a, s, t, h\nfrom mlib import macros, boom, vis, once, double\nimport ast\nx = ast.Constant(value=1)\n"
QBAD = {
    "q_u_outside": "u[x]", "q_n_outside": "n['x']", "q_a_outside": "a[x]", "q_s_outside": "s[x]", "q_t_outside": "t[x]", "q_h_outside": "h[x]", "q_wa_outside": "with a:\n    x",
    "q_args": "q[1][2][u[x]][3](q[u[u[x]]])", "q_as": "with q:\n    x", "q_uu": "q[u[u[x]]]", "q_qdeep": "q[q[u[u[u[x]]]]]", "q_ntype": "q[n[x]]", "q_nsyntax": "q[n['(']]", "q_atype": "q[a[3]]", "q_stype": "q[s[3]]", "q_ttype": "q[t[[3]]]",
    "q_utype": "q[u[object()]]", "q_watype": "with q as o:\n    with a:\n        [x]", "q_unpickle": "q[h[(lambda: 1)]]", "q_inner_boom": "q[u[vis[boom[x]]]]", "q_inner_boom2": "q[q[u[u[vis[boom[x]]]]]]", "q_wblock": "with q as o:\n    u[boom[x]]\n    q[u[x]]",
    "q_wa_as": "with q as o:\n    with a as b:\n        x", "q_deco": "@q\ndef f(): pass", "q_name": "q", "q_with_u": "with q as o:\n    with u:\n        x", "q_expand": "from mcpyrate.metatools import macros, expandsq, expand1sq\nexpandsq[vis[boom[x]]]",
    "q_expandr": "from mcpyrate.metatools import macros, expandr, expand1r\nexpandr[q[vis[boom[x]]]]", "q_expandrq": "from mcpyrate.metatools import macros, expandrq\nexpandrq[once[boom[u[x]]]]", "q_first": "from mcpyrate.metatools import macros, expand_first\nwith expand_first[double]:\n    vis[boom[double[x]]]",
    "q_firstbad": "from mcpyrate.metatools import macros, expand_first\nwith expand_first[nosuchmacro]:\n    x", "q_firstbad2": "from mcpyrate.metatools import macros, expand_first\nwith expand_first[1 + 1]:\n    x", "q_firstnone": "from mcpyrate.metatools import macros, expand_first\nwith expand_first[boom]:\n    vis[boom[x]]",
}
DBAD = {
    "debug_step": "from mcpyrate.debug import macros, step_expansion\nstep_expansion[vis[boom[x]]]", "debug_step2": "from mcpyrate.debug import macros, step_expansion\nstep_expansion['detailed'][q[u[boom[x]]]]", "debug_stepb": "from mcpyrate.debug import macros, step_expansion\nwith step_expansion:\n    vis[double[x]]\n    boom[x]",
    "debug_stepbad": "from mcpyrate.debug import macros, step_expansion\nstep_expansion['nosuchmode'][x]", "debug_stepr": "from mcpyrate.metatools import macros, stepr\nstepr[q[vis[boom[x]]]]",
}
OPS = {}
for f in FILES:
    if f.startswith("bad_"):
        k = f[4:-3]
        k = {"d_ast": "dialect_ast", "p_run": "phase1_run", "p_macro1": "phase1_macro", "d_post": "dialect_ast_post"}.get(k, "import_" + k)
        OPS[k] = import_op(f[:-3])
for k, v in {**QBAD, **DBAD}.items():
    OPS[k] = src_op(Q + v)
OPS["run_raise"] = src_op("from mlib import macros, double\nx = double[1]\nraise KeyError('x')")


def _tempmod():
    from mcpyrate.compiler import run, temporary_module
    with temporary_module("tmpmod") as m:
        run("from mlib import macros, boom\nboom[1]", m)


OPS["run_tempmod"] = _tempmod


def _badname():
    from mcpyrate.compiler import run
    run("x = 1", "nosuch.module")


OPS["run_badname"] = _badname


def _binderr():
    x = MacroExpander(dict(MAC), "p.py")
    with x.debughook(lambda *a: (_ for _ in ()).throw(KeyError("hook"))):
        x.visit_once(ast.parse("wrap[chain[x]]"))


OPS["debug_hookraises"] = _binderr

RUNPROBES = {
    "quotes": Q + """
from mcpyrate import dump, unparse
r = [unparse(q[x + u[1 + 1] + n['y'] + a[x]]), unparse(q[s[[x, x]]]), unparse(q[t[[x]]]), dump(q[q[u[x] + u[u[x]]]]), eval(unparse(q[h[x]])).value]
stmts = [ast.Pass(), [ast.Break()]]
with q as o:
    print(u[3])
    with a:
        stmts
    y = q[u[x]]
r.append(unparse(o))
""",
    "quotes2": Q + """
from mcpyrate import dump
r = [dump(q[double[vis[u[x]]]]), double[4], vis[once[double[3]]]]
""",
    "outside_u": Q + "u[x]", "outside_a": Q + "with a:\n    x", "toomany": Q + "q[u[u[x]]]",
    "meta": Q + """
from mcpyrate.metatools import macros, expandsq, expand1sq, expandrq, expand1rq, expand_first, expandr
from mcpyrate import unparse
r = [unparse(expandsq[double[double[x]]]), unparse(expandrq[double[double[x]]]), unparse(expand1rq[double[double[x]]]), unparse(expandr[q[vis[double[x]]]])]
with expand_first[double]:
    r.append(vis[double[5]])
""",
    "step": Q + """
from mcpyrate.debug import macros, step_expansion, show_bindings
r = [step_expansion[vis[double[double[1]]]], step_expansion['detailed'][once[double[2]]]]
show_bindings
""",
    "plain": Q + "r = [double[1], vis[double[2]], once[double[double[3]] if 0 else 4]]",
}


def doprobe(name):
    import importlib
    from mcpyrate.compiler import run
    err = io.StringIO()
    out = {}
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
        try:
            if name in RUNPROBES:
                r = run(textwrap.dedent(RUNPROBES[name])).r
            elif name.startswith("expand:"):
                r = nf(expand_macros(ast.parse(name[7:]), dict(MAC), filename="prog.py"))
            else:
                r = importlib.import_module(name).r
            res = ("ok", plain(repr(r)))
        except BaseException as e:
            res = ("error", type(e).__name__, norm_addr(plain(e)))
    return res, norm_addr(plain(err.getvalue()))


def norm_addr(s):
    return re.sub(r"0x[0-9a-f]+", "0x", re.sub(r"gensym\w*|generated_\w+", "G", s))


FEW = ["q_inner_boom2", "q_uu", "q_wblock", "q_expandrq", "debug_step2", "debug_stepb", "dialect_ast", "phase1_macro", "import_macro"]
ALLPROBES = list(RUNPROBES) + ["good1", "good2", "good3"] + ["expand:" + p for p in PROBES]
LEGIT = {"mlib", "mlibbase", "mlib2", "dlib"}
BASE = None


def setup():
    global BASE
    d = os.path.join(os.getcwd(), "c04files")
    os.makedirs(d, exist_ok=True)
    for f, s in FILES.items():
        with open(os.path.join(d, f), "w") as fh:
            fh.write(textwrap.dedent(s))
    sys.path.insert(0, d)
    import importlib
    importlib.invalidate_caches()
    import mcpyrate.activate
    import mcpyrate.debug
    import mcpyrate.dialects
    import mcpyrate.metatools
    import mcpyrate.multiphase
    import mcpyrate.quotes
    BASE = {p: forked(doprobe, p) for p in ALLPROBES}


def snapshot():
    return {"sys.modules": dict(sys.modules), "sys.path": list(sys.path), "meta_path": list(sys.meta_path), "cwd": os.getcwd(), "dont_write_bytecode": sys.dont_write_bytecode}


def history(names):
    out = []
    for name in names:
        for again in range(2 if len(names) == 1 else 1):
            before = snapshot()
            err = io.StringIO()
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                try:
                    OPS[name]()
                    res = "succeeded"
                except BaseException as e:
                    res = f"{type(e).__name__}: {norm_addr(plain(e))}"
            after = snapshot()
            m0, m1 = before.pop("sys.modules"), after.pop("sys.modules")
            gone = [k for k in m0 if m1.get(k) is not m0[k]]
            new = sorted(k for k in m1 if k not in m0 and k not in LEGIT and not k.startswith("mcpyrate") and not isstdlib(m1[k]) and not k.startswith("dynamically_created_module"))  # the last: `run` makes a module, also if running its code fails
            out.append([name, res, gone, new, before == after])
    # in one process after the other: each probe in a fresh copy of this process, and all of them in it
    probes = {p: forked(doprobe, p) for p in ALLPROBES} if len(names) == 1 else {p: doprobe(p) for p in ALLPROBES}
    return out, probes


def isstdlib(m):
    f = getattr(m, "__file__", None)
    return f is None and m.__name__ in sys.builtin_module_names or (f or "").startswith(os.path.dirname(os.__file__)) or getattr(m, "__name__", "").split(".")[0] in sys.stdlib_module_names


def run_case(case, ctx):
    if case[0] == "expr":
        ctx.state(case[1])
        run_expr(case[1], case[2], ctx)
        return
    names = case[1]
    ctx.state(names)
    try:
        ops, probes = forked(history, names, timeout=100)
    except ChildDied as e:
        ctx.fail(f"history {names}: {e}")
        return
    ctx.step(len(ops) + len(probes))
    first = {}
    for name, res, gone, new, same in ops:
        ctx.outcome((name, res))
        ctx.check(res != "succeeded" or name in MAYPASS, f"{name}: expected to fail")
        ctx.check(not gone, f"{name}: modules removed or replaced in sys.modules: {gone}")
        ctx.check(not new, f"{name}: modules left in sys.modules: {new}")
        ctx.check(same, f"{name}: sys.path, sys.meta_path, cwd or sys.dont_write_bytecode changed")
        if name in first:
            ctx.equal(res, first[name], f"{name}: the same failure again")
        first[name] = res
    for p, r in probes.items():
        if not ctx.equal(r, BASE[p], f"after {names}: probe {p}"):
            return


MAYPASS = set()
