"""C02: which syntax is a macro invocation, and what the macro gets."""
import ast
import io
import itertools
import keyword
import tokenize
import warnings

from mcpyrate import namemacro, parametricmacro
from mcpyrate.core import global_bindings
from mcpyrate.expander import MacroCollector, MacroExpander, expand_macros, isnamemacro, isparametricmacro

from . import snips
from .astutil import canon, clone, preorder
from .refx import Bindings, RefError, RefExpander, collect, nf, parse_call

LEVEL = "model_checking"
RULE = ("cases: snippets of the grammar, and families of `with` headers, decorators, subscripts with every form of argument list; in each, every variable bound to a macro of every kind (plain, parametric, name, both; in the expander or globally), and all variables together; "
        "state: (program, bindings); transition: macro application; comparison: every application's keyword arguments and the result with a reference detector, the input of a macro without tree with the node in the source, and the invocations reported by the collector with those in the tree")
BUDGET = {"quick": 600, "thorough": 3300}
ASSUMPTIONS = ["`m[()][x]`, `m()[x]` and `m(*a)[x]` for a macro `m` not declared parametric, and names of macros inside the as-part of another macro's `with` item, are left out: the documentation does not say what they mean"]
warnings.simplefilter("ignore")

KINDS = ["plain", "param", "name", "both"]
ARGS = ["", "[a]", "[a, b]", "[(a, b)]", "[(a, b),]", "[[a, b]]", "[a:b]", "[a,]", "[*a]", "(a)", "(a, b)", "((a, b))", "(a, *b)", "(a, k=b)", "(**a)", "[m]", "[m[a]]", "[()]", "()", "[a][b]", "(a)(b)", "[a](b)", ".m", ".m[a]", "[...]", "[b'x']"]


def names_in(tree):
    out = []
    for n in preorder(tree):
        if type(n) is ast.Name and n.id not in out:
            out.append(n.id)
    return out


def special(deep):
    for a in ARGS:
        yield f"m{a}[x]"
        yield f"m{a}"
        yield f"m{a}[m{a}[x]]"
        yield f"m{a}[n[m]]"
        yield f"m{a}[x] = 1"
        yield f"del m{a}[x]"
        yield f"(m{a})[x:y, z]"
        yield f"n(m{a}[x], m)"
        for as_ in ("", " as z", " as (y, z)", " as [y, *z]", " as y.z", " as y[z]"):
            yield f"with m{a}{as_}:\n    m[x]\n    n"
            yield f"async with m{a}{as_}:\n    m[x]"
        for b in ARGS if deep else ["", "[a]", "(a)", "(k=a)", ".m"]:
            yield f"with m{a}, n{b} as z, k:\n    m\n    n[x]"
            yield f"with k, m{a} as y, o, n{b} as z:\n    m\n    n[x]"
            for d in ("def f(a=m): m[x]", "class C(m, k=n[m]): n", "async def f() -> m: n"):
                yield f"@m{a}\n@n{b}\n{d}"
                yield f"@k\n@m{a}\n@o(m)\n@n{b}\n@p[m]\n{d}"
            yield f"m{a}[n{b}[x]]"
            yield f"n[m{a}][m{b}]"
            yield f"(m{a}, n{b}, [m[n]])"
    for d in ("def m(m): m", "class m(m): m", "lambda m: m", "global m", "import m", "from m import m as m", "m.m", "x.m[a]", "m = m", "for m in m: m", "f(m=m)", "[m for m in m]", "m += m", "del m", "(m := m)",
              "try: pass\nexcept m as m: pass", "match m:\n    case m(m=m): pass", "with x as m: pass", "'m'", "f'{m}{m[x]!r:{m}}'", "def f(a: m[x] = m[x], *b: m, **c: m) -> m[x]: 'm'", "type X[m: m] = m[x]", "m: m[x] = m[m]",
              "@x.m\ndef f(): pass", "@m.x\ndef f(): pass", "@(m)\ndef f(): pass", "@(lambda f: m)\ndef f(): pass", "with (m): pass", "with (m, n): pass", "with (m as x, n): pass", "with (m, n) as x: pass", "with x.m: pass", "with m.x: pass"):
        yield d


def cases(tier):
    deep = tier != "quick"
    seen = set()
    for s in itertools.chain(special(deep), snips.exprs(2) if deep else snips.exprs(1), snips.stmts(2) if deep else snips.stmts(1)):
        if s in seen:
            continue
        seen.add(s)
        try:
            names = names_in(ast.parse(s))
        except SyntaxError:
            continue
        if not names:
            continue
        yield [s, names]


LOG = []


def setup():
    global MACROS
    MACROS = {}
    for kind in KINDS:
        for name in list(dict.fromkeys(["m", "n", "k", "o", "p", "a", "b", "c", "d", "e", "f", "g", "x", "y", "z", "C", "D", "w", "v"])):
            MACROS[name, kind] = make(name, kind)


def make(name, kind):
    def macro(tree, **kw):
        kw = dict(kw)
        x = kw.pop("expander", None)
        LOG.append((name, kw.pop("syntax", "?"), nf(tree), ("list", nf(kw.pop("args", "?") or [])), nf(kw.pop("invocation", None)), nf(kw.pop("optional_vars", "absent")), sorted(kw), type(x).__name__))
        return tree
    macro.__name__ = name
    if kind in ("param", "both"):
        macro = parametricmacro(macro)
    if kind in ("name", "both"):
        macro = namemacro(macro)
    return macro


def unspecified(tree, b):
    """See ASSUMPTIONS."""
    for n in preorder(tree):
        cands = []
        if type(n) is ast.Subscript:
            cands = [n.value]
        elif type(n) is ast.With:
            cands = [i.context_expr for i in n.items]
            for i in n.items:
                if b.get((parse_call(i.context_expr) or ("",))[0]) is not None:
                    for v in preorder(i.optional_vars):
                        if type(v) is ast.Name and b.get(v.id) is not None:
                            return True
        elif hasattr(n, "decorator_list"):
            cands = n.decorator_list
        for c in cands:
            p = parse_call(c)
            if p and b.get(p[0]) is not None and not isparametricmacro(b.get(p[0])):
                if p[2] != "bare" and (not p[1] or (p[2] == "parens" and any(type(a) is ast.Starred for a in p[1]))):
                    return True
    return False


def run_case(case, ctx):
    src, names = case
    tree0 = ast.parse(src)
    sets = []
    for kind in KINDS:
        for n in names:
            sets.append(({n: kind}, False))
        if len(names) > 1:
            sets.append(({n: kind for n in names}, False))
    if len(names) > 1:
        sets.append(({n: KINDS[i % 4] for i, n in enumerate(names)}, False))
        sets.append(({n: KINDS[(i + 1) % 4] for i, n in enumerate(names)}, False))
    sets.append(({n: "both" for n in names}, True))
    sets.append(({n: "plain" for n in names}, True))
    for kinds, glob in sets:
        macros = {n: MACROS.get((n, k)) or make(n, k) for n, k in kinds.items()}
        local, gl = ({}, macros) if glob else (macros, {})
        b = Bindings(local, gl)
        if unspecified(tree0, b):
            continue
        ctx.state((src, tuple(kinds.items()), glob))
        what = f"with {kinds}{' (global)' if glob else ''}: "
        for n, k in kinds.items():
            ctx.check(bool(isnamemacro(macros[n])) == (k in ("name", "both")) and bool(isparametricmacro(macros[n])) == (k in ("param", "both")), what + "isnamemacro/isparametricmacro")
        # reference
        LOG[:] = []
        t = ast.parse(src)
        try:
            want = nf(RefExpander(local, "p.py", gl).visit(t))
        except RefError as e:
            want = "SyntaxError"
        wlog = [l[:7] for l in LOG]
        LOG[:] = []
        t = ast.parse(src)
        global_bindings.update(gl)
        try:
            try:
                r = expand_macros(t, dict(local), filename="p.py")
                got = nf(r)
                if not wlog and want != "SyntaxError":
                    ctx.equal(canon(r, True), canon(tree0, True), what + "no invocation, so nothing must change")
            except SyntaxError as e:
                got = "SyntaxError"
            log = [l[:7] for l in LOG]
            ctx.step(len(log))
            ctx.outcome((len(log), got == "SyntaxError"))
            if log != wlog:
                for l, w in zip(log, wlog):
                    if l != w:
                        return ctx.fail(what + f"application of {l[0]} ({l[1]}), expected {w[0]} ({w[1]}):\n  got  {str(l)[:1500]}\n  want {str(w)[:1500]}")
                return ctx.fail(what + f"applications {[l[:2] for l in log]}, expected {[l[:2] for l in wlog]}")
            if not ctx.equal(got, want, what + "result"):
                return
            # collector
            t = ast.parse(src)
            try:
                wcoll = sorted(collect(b, t, set()))
            except RefError:
                wcoll = "SyntaxError"
            c = MacroCollector(MacroExpander(dict(local), "p.py"))
            try:
                c.visit(t)
                gcoll = sorted(c.collected)
                if not ctx.equal(canon(t, True), canon(tree0, True), what + "the collector must not change the tree"):
                    return
                c.visit(t)
                if not ctx.equal(sorted(c.collected), gcoll, what + "second scan without clearing"):
                    return
                c.clear()
                if not ctx.equal(c.collected, [], what + "cleared collector"):
                    return
                c.visit(t.body)
                if not ctx.equal(sorted(c.collected), gcoll, what + "scan after clearing"):
                    return
            except SyntaxError:
                gcoll = "SyntaxError"
            if not ctx.equal(gcoll, wcoll, what + "collected invocations"):
                return
        finally:
            for n in gl:
                global_bindings.pop(n, None)
