"""C29: debugging aids only print."""
import ast
import contextlib
import functools
import io
import itertools
import re
import sys
import types
import warnings

import mcpyrate
import mcpyrate.debug as dbg
import mcpyrate.metatools as mt
from mcpyrate import quotes, unparse
from mcpyrate.compiler import expand, run
from mcpyrate.core import Done, add_postprocessor  # noqa: F401
from mcpyrate.dialects import Dialect
from mcpyrate.expander import MacroExpander, expand_macros

from . import c13, maclib
from .astutil import canon, clone
from .c01 import DECO, E_MANY, E_ONE, HEADS, NAMES, STM, blocks, chains, indent
from .c11 import loads
from .maclib import LIB
from .refx import Bindings, RefExpander, collect, nf

LEVEL = "model_checking"
RULE = ("program over the macro library x debug aid x arguments x place (around, nested at each sub-invocation, at run time); result and macro applications compared with the reference expander, the report with its one-layer steps; "
        "every sequence of dialects x place of the stepping dialect; multi-phase programs with and without stepping; every history of successful and failing debug runs before a probe")
BUDGET = {"quick": 600, "thorough": 3000}
ASSUMPTIONS = ["a step-expansion inside a macro that expands exactly one layer, or marks its input as done, counts as a macro invocation itself (documented), so these programs are only wrapped as a whole",
               "the exact wording and colours of the reports are unspecified"]
warnings.simplefilter("ignore")

B = dict(LIB)
B.update({k: getattr(quotes, k) for k in ("q", "u", "n", "a", "s", "t", "h")})
B.update({k: getattr(mt, k) for k in mt.__all__})
B.update(step_expansion=dbg.step_expansion, show_bindings=dbg.show_bindings)

ARGS = ["", "['dump']", "['detailed']", "['dump', 'detailed']", "['unparse', 'summary']", "('detailed')", "['detailed', 'unparse']"]
ANSI = re.compile("\x1b\\[[0-9;]*m")


class Captured:
    def __enter__(self):
        self.out, self.err = io.StringIO(), io.StringIO()
        self.st = contextlib.ExitStack()
        self.st.enter_context(contextlib.redirect_stdout(self.out))
        self.st.enter_context(contextlib.redirect_stderr(self.err))
        return self

    def __exit__(self, *exc):
        self.st.close()

    @property
    def text(self):
        return ANSI.sub("", self.err.getvalue())


def apps():
    return sorted(l[:2] for l in maclib.LOG)


@functools.lru_cache(4000)
def reference(p, form):
    tree = ast.parse(p).body
    if form == "expr":
        tree = tree[0].value
    maclib.LOG[:] = []
    x = RefExpander(dict(LIB), "use.py")
    want = x.visit_recursively(clone(tree))
    return nf(want), apps()


def layers(p, form):
    """The tree before, and after each one-layer expansion."""
    t = ast.parse(p).body
    if form == "expr":
        t = t[0].value
    b = Bindings(dict(LIB))
    out = [clone(t)]
    while True:
        got = set()
        collect(b, t, got)
        if not got or len(out) > 40:
            return out
        x = RefExpander(dict(LIB), "use.py")
        t = x.visit_once(t).body
        out.append(clone(t))


def hasdone(t):
    if isinstance(t, list):
        return any(map(hasdone, t))
    return any(isinstance(n, Done) for n in ast.walk(t))


def report(text):
    """Parse a report: list of (kind, n, indented body)."""
    out = []
    for line in text.split("\n"):
        m = re.match(r"(\*+)Tree 0x[0-9a-f]+ \((.*?)\) (.*)$", line)
        if m:
            rest = m.group(3)
            k = re.match(r"before macro expansion:$", rest)
            a = re.match(r"after step (\d+):$", rest)
            pr = re.match(r"processing step (\d+):$", rest)
            c = re.match(r"macro expansion complete after (\d+) steps?\.$", rest)
            if k:
                out.append(["before", len(m.group(1)), []])
            elif a:
                out.append(["after", int(a.group(1)), []])
            elif pr:
                out.append(["processing", int(pr.group(1)), []])
            elif c:
                out.append(["complete", int(c.group(1)), []])
            else:
                out.append(["?", rest, []])
        elif out:
            out[-1][2].append(line)
    return out


def stepping(p, form, args, ctx):
    want, wapps = reference(p, form)
    ctx.state((p, form, args))
    if form == "expr":
        src = f"r = step_expansion{args}[{p}]"
    else:
        src = f"with step_expansion{args}:\n    {indent(p)}"
    maclib.LOG[:] = []
    with Captured() as cap:
        t = expand_macros(ast.parse(src), dict(B), filename="use.py")
    got = t.body[0].value if form == "expr" and t.body else t.body
    ctx.step(len(maclib.LOG) + 1)
    w = f"step_expansion{args} around {p}"
    if form == "expr" and want[0] == "[" and got is not None:
        pass
    ctx.equal(c13.body(got) if form != "expr" else nf(got), want if form == "expr" else (None if want == nf([]) else want), w)
    applied = sorted(x[0] for x in maclib.LOG)
    ctx.equal(apps(), wapps, w + ": macro applications")
    ctx.check(not cap.out.getvalue(), f"{w}: prints to stdout")
    rep = report(cap.text)
    ls = layers(p, form)
    kinds = [r[:2] for r in rep if r[0] in ("after", "complete")]
    n = len(ls) - 1
    ctx.equal(kinds, [["after", k + 1] for k in range(n)] + [["complete", n]], w + ": steps reported")
    ctx.check([r[0] for r in rep].count("before") == 1 and rep[0][0] == "before", w + ": the tree before is reported once, first")
    if "dump" not in args and form == "expr" and not isinstance(ls[0], list):
        shown = ["\n".join(r[2]) for r in rep if r[0] in ("before", "after")]
        for k, (s, l) in enumerate(zip(shown, ls)):
            if isinstance(l, list) or hasdone(l):
                break
            ctx.equal(" ".join(s.split()), " ".join(ANSI.sub("", unparse(l, debug=True)).split()), w + f": tree shown at step {k}")
    if "detailed" in args:
        ap = re.findall(r"^ *Applying (\w+) at subtree", cap.text, flags=re.M)
        if not ctx.equal(sorted(ap), applied, w + ": applications reported"):
            return
        ctx.equal(cap.text.count("Result:"), len(ap), w + ": results reported")


def nested(p, ctx):
    """Step-expansion nested at each sub-invocation."""
    tree = ast.parse(p)
    want, wapps = reference(p, "expr")
    b = Bindings(dict(LIB))
    def subs(t):
        return [n for n in ast.walk(t) if isinstance(n, ast.Subscript) and b.call(n.value) or isinstance(n, ast.Name) and isinstance(getattr(n, "ctx", None), ast.Load) and b.name(n)]
    n = len(subs(tree))
    for i in range(n):
        for args in ("", "['detailed']"):
            t = clone(tree)
            target = subs(t)[i]
            class R(ast.NodeTransformer):
                def visit(self, x):
                    if x is target:
                        return ast.parse(f"step_expansion{args}[{ast.unparse(x)}]", mode="eval").body
                    return self.generic_visit(x)
            # not where the name is the macro itself
            if any(isinstance(x, ast.Subscript) and x.value is target for x in ast.walk(t)):
                continue
            src = ast.unparse(ast.fix_missing_locations(R().visit(t)))
            ctx.state((src,))
            maclib.LOG[:] = []
            with Captured() as cap:
                got = expand_macros(ast.parse(f"r = {src}"), dict(B), filename="use.py").body[0].value
            ctx.step()
            ctx.equal(nf(got), want, src)
            ctx.equal(apps(), wapps, src + ": macro applications")
            rep = report(cap.text)
            ctx.check([r[0] for r in rep].count("before") == [r[0] for r in rep].count("complete"), src + ": reports without end")
            # around both
            maclib.LOG[:] = []
            with Captured() as cap:
                got = expand_macros(ast.parse(f"r = step_expansion['detailed'][{src}]"), dict(B), filename="use.py").body[0].value
            ctx.equal(nf(got), want, f"step_expansion of {src}")
            ctx.equal(apps(), wapps, f"step_expansion of {src}: macro applications")


def atruntime(p, form, args, ctx):
    want, wapps = reference(p, form)
    src = f"tree = q[{p}]" if form == "expr" else f"with q as tree:\n    {indent(p)}"
    with Captured() as cap:
        t = expand_macros(ast.parse(f"{src}\nr = stepr{args}[tree]"), dict(B), filename="use.py")
        maclib.LOG[:] = []
        ns = {"mcpyrate": mcpyrate}
        exec(compile(ast.fix_missing_locations(t), "use.py", "exec"), ns)
    got = ns["r"]
    ctx.step(len(maclib.LOG))
    ctx.state((p, "stepr", args))
    ctx.equal(c13.body(got), None if want == nf([]) else want, f"stepr{args}: {p}")
    ctx.equal(apps(), wapps, f"stepr{args}: {p}: macro applications")
    rep = report(cap.text)
    n = len(layers(p, form)) - 1
    ctx.equal([r[:2] for r in rep if r[0] in ("after", "complete")], [["after", k + 1] for k in range(n)] + [["complete", n]], f"stepr{args}: {p}: steps reported")


# --------------------------------------------------------------------------------
# Histories

def boom(tree, **kw):
    raise maclib.Boom("boom")


HB = dict(B, boom=boom)
HOPS = {"ok": "step_expansion[wrap[chain[a]]]", "fail": "step_expansion[wrap[boom[a]]]", "faildetailed": "step_expansion['detailed'][chain[boom[a]]]", "failnested": "step_expansion[wrap[step_expansion[inner[boom[a]]]]]",
        "badarg": "step_expansion['nosuch'][wrap[a]]", "badtype": "step_expansion[x + 1][wrap[a]]", "detailed": "step_expansion['detailed'][inner[chain[a]]]", "nested": "wrap[step_expansion[chain[step_expansion['dump'][wrap[a]]]]]",
        "caught": "catching[step_expansion[boom[a]]]"}


def catching(tree, expander, **kw):
    try:
        return expander.visit(tree)
    except Exception:
        return ast.Constant(value="caught")


HB["catching"] = catching
PROBE = "(step_expansion['detailed'][wrap[inner[chain[a]]]], wrap[chain[b]])"


def one(src, x):
    maclib.LOG[:] = []
    with Captured() as cap:
        try:
            t = ast.parse(src, mode="eval").body
            r = ("ok", nf(x.visit(t)))
        except Exception as e:
            root = e
            while root.__cause__ is not None:
                root = root.__cause__
            r = ("error", type(e).__name__, type(root).__name__)
    text = re.sub(r"0x[0-9a-f]+", "0x", cap.text)
    return r, text, list(l[:2] for l in maclib.LOG), cap.out.getvalue()


@functools.lru_cache(None)
def fresh_results():
    return {k: one(v, MacroExpander(dict(HB), "use.py")) for k, v in list(HOPS.items()) + [("probe", PROBE)]}


def history(seq, shared, ctx):
    x = MacroExpander(dict(HB), "use.py")
    fresh = fresh_results()
    for o in list(seq) + ["probe"]:
        if not shared:
            x = MacroExpander(dict(HB), "use.py")
        got = one(HOPS.get(o, PROBE), x)
        ctx.step()
        for g, w, what in zip(got, fresh[o], ("result", "report", "macro applications", "stdout")):
            ctx.equal(g, w, f"{o} after {seq}: {what}")
        ctx.check(x.recursive is True, "mode not restored")
    ctx.state((tuple(seq), shared))


# --------------------------------------------------------------------------------
# show_bindings

class CallableMacro:
    def __call__(self, tree, **kw):
        return tree


def nomodule(tree, **kw):
    return tree


nomodule.__module__ = None
ODD = {"callable": CallableMacro(), "lam": lambda tree, **kw: tree, "partial": functools.partial(nomodule), "nomodule": nomodule, "cls": CallableMacro, "method": CallableMacro().__call__, "builtin": len, "module": types.ModuleType("m")}
SHOWCTX = ["r = {}", "r = f({}, wrap[chain[a]], {})", "x = [{}, nexpr]", "if {}:\n    wrap[a]", "{}", "with chain:\n    inner[({}, a)]", "def f(a={}): pass", "with rec:\n    y = {}", "wrap[{}]", "step_expansion[wrap[chain[({}, a)]]]", "with step_expansion:\n    once[{}]"]


def showing(fmt, ctx):
    for names in ((), ("callable", "lam"), tuple(ODD)):
        bindings = dict(B)
        bindings.update({k: ODD[k] for k in names})
        b2 = {k: v for k, v in bindings.items()}
        src = fmt.replace("{}", "show_bindings")
        maclib.LOG[:] = []
        with Captured() as cap:
            got = expand_macros(ast.parse(src), bindings, filename="use.py")
        a1 = apps()
        maclib.LOG[:] = []
        def none(tree, **kw):
            return None
        from mcpyrate import namemacro
        with Captured() as cap2:
            want = expand_macros(ast.parse(src), dict(b2, show_bindings=namemacro(none)), filename="use.py")
        ctx.state((src, names))
        ctx.step()
        ctx.equal(nf(got), nf(want), src)
        ctx.equal(a1, apps(), src + ": macro applications")
        ctx.check(bindings == b2, "show_bindings changes the bindings")
        ctx.check(not cap.out.getvalue(), "stdout")
        checkformat(cap.text, b2, "use.py", fmt.count("{}"), ctx)


def checkformat(text, bindings, filename, times, ctx):
    parts = re.split(r"^.*Macro bindings for (.*?):\n", text, flags=re.M)[1:]
    ctx.equal(len(parts) // 2, times, "reports of bindings")
    for fn, body in zip(parts[::2], parts[1::2]):
        ctx.equal(fn, filename, "file name in the report of bindings")
        lines = re.findall(r"^    (\S+): (.*)$", body, flags=re.M)
        lines = [l for l in lines if l[0] in bindings or "Tree" not in body]
        ctx.equal([l[0] for l in lines][:len(bindings)], sorted(bindings), "names in the report of bindings")
        for name, what in lines:
            f = bindings.get(name)
            qn = getattr(f, "__qualname__", None)
            if qn:
                ctx.check(what.endswith(qn), f"binding {name}: {what}")


def formatting(names, ctx):
    ns = dict(ODD)
    b = {k: ns[k] for k in names}
    x = MacroExpander(dict(b), "some/file.py")
    plain = dbg.format_bindings(x)
    col = dbg.format_bindings(x, color=True)
    ctx.state(names)
    ctx.step()
    ctx.check("\x1b" not in plain, "colours although not asked for")
    ctx.equal(ANSI.sub("", col), plain, "format_bindings with colours")
    checkformat(plain, b, "some/file.py", 1, ctx)
    if not b:
        ctx.check("no bindings" in plain, "report of no bindings")
    n1 = quotes.capture_as_macro(LIB["wrap"])
    try:
        ctx.check(n1.id not in dbg.format_bindings(x), "global bindings although not asked for")
        ctx.check(n1.id in dbg.format_bindings(x, globals_too=True), "global bindings missing")
        checkformat(dbg.format_bindings(x, globals_too=True), dict(x.bindings), "some/file.py", 1, ctx)
    finally:
        from mcpyrate.core import global_bindings
        global_bindings.pop(n1.id, None)
    ctx.check(x.bindings == b, "format_bindings changes the bindings")


# --------------------------------------------------------------------------------
# Stepping dialects

DLOG = []
DM = types.ModuleType("mc_dialects29")
sys.modules["mc_dialects29"] = DM


def dialect(name, source=None, tree=None, post=None):
    ns = {}
    if source is not None:
        def transform_source(self, text):
            DLOG.append((name, "source", text.replace("from mcpyrate.debug import dialects, StepExpansion", "#step")))
            return source(text) if source else NotImplemented
        ns["transform_source"] = transform_source
    if tree is not None:
        def transform_ast(self, t):
            DLOG.append((name, "ast"))
            return tree(t)
        ns["transform_ast"] = transform_ast
    if post is not None:
        def postprocess_ast(self, t):
            DLOG.append((name, "post"))
            return post(t)
        ns["postprocess_ast"] = postprocess_ast
    setattr(DM, name, type(name, (Dialect,), ns))


def addstmt(s):
    def f(t):
        t.body.append(ast.parse(s).body[0])
        return t
    return f


dialect("Src", source=lambda text: text.replace("one", "two"))
dialect("SrcNo", source=False)
dialect("Tree", tree=addstmt("tree_was_here = wrapped"))
dialect("TreeNo", tree=lambda t: NotImplemented)
dialect("Post", post=addstmt("post_was_here"))
dialect("All", source=lambda text: text + "\nall_source = 1\n", tree=addstmt("all_tree"), post=addstmt("all_post"))
DNAMES = ["Src", "SrcNo", "Tree", "TreeNo", "Post", "All"]
STEPIMPORT = "from mcpyrate.debug import dialects, StepExpansion"
DBODY = "'''doc one'''\nx = one\ndef f():\n    return 'one'\n"


def dialects_case(names, steps, kind, ctx):
    lines = [f"from mc_dialects29 import dialects, {n}" for n in names]
    with_ = list(lines)
    for at in sorted(steps, reverse=True):
        with_.insert(at, STEPIMPORT)
    def go(ls):
        DLOG[:] = []
        src = "\n".join(ls) + "\n" + DBODY
        with Captured() as cap:
            t = expand(src if kind == "source" else ast.parse(src), "use.py")
        return nf(t), [d if kind != "source" or len(d) < 3 else d[:2] for d in DLOG], cap
    want, wlog, _ = go(lines)
    got, log, cap = go(with_)
    def noimports(n):
        # a dialect import becomes an absolute import of the module that defines the dialect
        return canon([s for s in ast.parse("").body]) if False else n
    ctx.state((names, steps, kind))
    ctx.step(len(log))
    def without(t):
        return t
    w = f"dialects {with_} ({kind})"
    ctx.equal(log, wlog, w + ": transformers run")
    ctx.equal(strip_debug(got), strip_debug(want), w)
    ctx.check(not cap.out.getvalue(), "stdout")
    if steps:
        ctx.check("enabled DialectExpander debug mode" in cap.text, w + ": debug mode not reported")
        # each transformer that does something after the first stepping import is reported
        dialect_at = {n: i for i, n in enumerate(with_)}
        did = {"source": ("Src", "All"), "ast": ("Tree", "All"), "post": ("Post", "All")}
        first = min(steps)
        expected = []
        for stage, meth in (("source", "transform_source"), ("ast", "transform_ast"), ("post", "postprocess_ast")):
            if kind != "source" and stage == "source":
                continue
            for l in [x for i, x in enumerate(with_) if x not in with_[:i]] if False else with_:
                n = l.rsplit(" ", 1)[-1]
                if n in did[stage]:
                    if stage == ("source" if kind == "source" else "ast") and with_.index(l) < first:
                        continue
                    expected.append(f"{n}.{meth}")
        rep = re.findall(r"after mc_dialects29\.(\w+\.\w+) \(step \d+\)", cap.text)
        # instances are reported by their representation in the postprocessing stage, so only count these
        rep += ["post"] * len(re.findall(r"after .*postprocess_ast \(step \d+\)", cap.text)) if not any("post" in r for r in rep) else []
        ctx.equal(sorted("post" if "post" in r else r for r in rep), sorted("post" if "post" in r else r for r in expected), w + ": steps reported")
        nums = [int(x) for x in re.findall(r"after .* \(step (\d+)\)", cap.text)]
        ctx.check(nums == sorted(nums) and len(set(nums)) == len(nums), w + f": step numbers {nums}")
    else:
        ctx.check(not cap.text, w + ": prints without stepping")


def strip_debug(n):
    """Without `import mcpyrate.debug`."""
    if isinstance(n, tuple):
        return tuple(strip_debug(x) for x in n if not is_debugimport(x))
    return n


DEBUGIMPORT = nf(ast.parse("import mcpyrate.debug").body[0])


def is_debugimport(x):
    return x == DEBUGIMPORT


# --------------------------------------------------------------------------------
# Stepping phases

PHASEBITS = {
    1: "with phase[1]:\n    def m(tree, **kw):\n        return tree\n    one = __phase__\n",
    2: "with phase[2]:\n    two = __phase__\n",
    "lift": "from mcpyrate.multiphase import macros, phase\n",
    "self1": "from __self__ import macros, m\nv = m[42]\n",
    0: "zero = __phase__\n",
    "dec": "@phase[1]\ndef g(tree, **kw):\n    return tree\n",
}
PHASEPROGS = [(0,), (1, "self1"), (1, 0), (2, 1, 0), (2, 0), (1, "self1", 0), ("dec", 0), (2, "dec", 1, "self1")]
STEPIMPORTS = ["", "from mcpyrate.debug import macros, step_phases\n", "from mcpyrate.debug import macros, step_phases, step_expansion\n", "from mcpyrate.debug import macros, step_expansion as se, step_phases\n"]
_n = itertools.count()


def phases(prog, stepimport, where, usephase, ctx):
    def go(imp):
        name = f"mc29_{next(_n)}"
        parts = ["'''doc'''\n", "from mcpyrate.multiphase import macros, phase\n" if usephase else ""]
        parts.insert(1 + where, imp)
        src = "".join(parts) + "".join(PHASEBITS[b] for b in prog)
        with Captured() as cap:
            try:
                m = run(src, name)
                r = {k: repr(v) if not callable(v) else "function" for k, v in vars(m).items() if not k.startswith("__") or k == "__phase__"}
                r["__doc__"] = m.__doc__
            except Exception as e:
                while e.__cause__ is not None:
                    e = e.__cause__
                r = type(e).__name__
            finally:
                sys.modules.pop(name, None)
        if isinstance(r, dict):
            r.pop("mcpyrate", None)
        return r, cap
    want, c0 = go("")
    got, cap = go(stepimport)
    ctx.state((prog, stepimport, where, usephase))
    ctx.step()
    ctx.equal(got, want, f"phases {prog} with {stepimport!r}")
    ctx.check(not cap.out.getvalue() and not c0.text, "prints although not asked to")
    top = max([2 if b == 2 else 1 if b in (1, "dec") else 0 for b in prog]) if usephase else 0
    heads = [int(x) for x in re.findall(r"AST for PHASE (\d+) of module", cap.text)]
    if stepimport and usephase and isinstance(got, dict):
        ctx.equal(heads, list(range(top, -1, -1)), f"phases {prog}: reported")
    elif not usephase:
        ctx.check(not heads, "phases reported in a module without phases")


def cases(tier):
    deep = tier != "quick"
    ops = E_ONE + E_MANY
    leaves = ["a", "nexpr", "(ident[a], wrap[nself], nother)"]
    exprs = list(leaves) + ["f(nnone, nself)"]
    for d in (1, 2):
        exprs += list(chains(d, E_ONE, leaves if d == 1 else leaves[1:]))
        exprs += [f"f({s}, z)" for s in chains(d, ops + HEADS, leaves if d == 1 or deep else leaves[2:])]
    if deep:
        exprs += [f"f({s}, z)" for s in chains(3, ops, ["chain[nexpr]"])]
    sib = ["{0}[chain[a]]".format(o) for o in ops] + NAMES
    for a, b in itertools.product(sib, repeat=2):
        exprs.append(f"f({a}, {b}, chain[b])")
    for i, p in enumerate(exprs):
        for args in (ARGS if deep else ARGS[:4] if i < 700 else ARGS[:3:2]):
            yield ["step", "expr", p, args]
        yield ["stepr", "expr", p, ARGS[i % len(ARGS)]]
    bodies = ["a\nchain[b]", "with chain:\n    nexpr\nc", "@chain\ndef f(): pass", "wrap[drop[a]]", "x = wrap[a]", "pass", "for i in chain[wrap[x]]:\n    nexpr\n    break"]
    bsrc = list(bodies) + list(blocks(STM + HEADS, bodies))
    if deep:
        bsrc += list(blocks(STM + HEADS, list(blocks(STM + HEADS, bodies[:4]))))
    for d in itertools.product(DECO, repeat=2):
        bsrc.append("".join(f"@{x}\n" for x in d) + "def f(a=chain[a]) -> wrap[x]: inner[b]")
    for p in bsrc:
        for args in (ARGS if deep else ARGS[:4]):
            yield ["step", "block", p, args]
        yield ["stepr", "block", p, ""]
        yield ["stepr", "block", p, "['dump', 'detailed']"]
    for n in range(3, 41 if deep else 26):  # many steps
        for p in (f"f(count[{n}][a], z)", f"f(chain[count[{n}][chain[b]]], count[{n - 2}][c])"):
            yield ["step", "expr", p, ""]
            yield ["stepr", "expr", p, ""]
        for p in (f"with count[{n}]:\n    a", f"x = wrap[count[{n}][b]]\nchain[b]"):
            yield ["step", "block", p, ""]
            yield ["stepr", "block", p, ""]
    plain = ["ident", "wrap", "inner", "rec", "chain", "dup", "multi", "gen", "tup", "drop", "count[1]", "par[b]", "nother"]
    for s in chains(2, plain, ["a", "nexpr", "(chain[a], nself)"]):
        yield ["nested", f"f({s}, z)"]
    if deep:
        for s in chains(3, ["wrap", "inner", "rec", "chain", "dup", "nother"], ["nexpr", "(chain[a], nself)"]):
            yield ["nested", f"f({s}, z)"]
    for k in range(0, 4 if deep else 3):
        for seq in itertools.product(HOPS, repeat=k):
            yield ["history", seq, True]
            yield ["history", seq, False]
    for f in SHOWCTX:
        yield ["show", f]
    for k in range(len(ODD) + 1):
        for names in itertools.combinations(ODD, k):
            yield ["format", names]
    for k in range(1, 4 if deep else 3):
        for names in itertools.permutations(DNAMES, k):
            for m in (0, 1, 2):
                for steps in itertools.combinations(range(k + 1), m):
                    for kind in ("source", "ast"):
                        yield ["dialects", names, steps, kind]
    for p in range(len(PHASEPROGS)):
        for s in STEPIMPORTS:
            for where in (0, 1):
                for u in (True, False):
                    yield ["phases", p, s, where, u]


def run_case(case, ctx):
    kind = case[0]
    if kind == "step":
        stepping(case[2], case[1], case[3], ctx)
    elif kind == "stepr":
        atruntime(case[2], case[1], case[3] if not case[3].startswith("(") else "", ctx)
    elif kind == "nested":
        nested(case[1], ctx)
    elif kind == "history":
        history(tuple(case[1]), case[2], ctx)
    elif kind == "show":
        showing(case[1], ctx)
    elif kind == "format":
        formatting(tuple(case[1]), ctx)
    elif kind == "dialects":
        dialects_case(tuple(case[1]), tuple(case[2]), case[3], ctx)
    elif kind == "phases":
        phases(PHASEPROGS[case[1]], case[2], case[3], case[4], ctx)
