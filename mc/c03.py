"""C03: expanded code is ready to compile: no markers, right contexts, locations."""
import ast
import itertools
import sys
import types
import warnings

from mcpyrate import namemacro
from mcpyrate.compiler import compile as mcompile, expand as mexpand
from mcpyrate.core import Done, MacroExpanderMarker, MacroExpansionError
from mcpyrate.expander import expand_macros
from mcpyrate.markers import ASTMarker

from .astutil import ATTRS, canon, clone, preorder
from .refx import COVERAGE, RefExpander, iscoverage, norm

LEVEL = "model_checking"
RULE = ("cases: programs placing macros that build nodes without contexts or locations, with wrong contexts, with foreign locations, that use a node object several times, or leave markers, in every kind of position (loads, targets, suites, decorators, patterns' subjects, f-strings ...), nested to a depth; as a tree and as a module source; "
        "state: program; transition: macro application; comparison: contexts with those the parser gives to the unparsed result, locations with a reference model, compilation, markers reported as an error if and only if one is left")
BUDGET = {"quick": 600, "thorough": 3300}
warnings.simplefilter("ignore")

N = ast.Name
C = ast.Constant


class MyMarker(ASTMarker):
    pass


class MyExpMarker(MacroExpanderMarker):
    pass


def lst(t):
    return list(t) if isinstance(t, list) else [t]


def exprmacro(f):
    """An expression macro usable in target positions too: value in, value out."""
    def macro(tree, *, syntax, expander, **kw):
        return f(tree, expander)
    return macro


def foreign(node, line):
    for n in ast.walk(node):
        if "lineno" in n._attributes:
            n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = line, 1, line, 2
    return node


T = {  # results that can be targets if their input can
    "user": exprmacro(lambda t, x: t),
    "bare": exprmacro(lambda t, x: N(id="new1")),
    "attr": exprmacro(lambda t, x: ast.Attribute(value=t, attr="new2")),
    "sub": exprmacro(lambda t, x: ast.Subscript(value=N(id="new3"), slice=t)),
    "pair": exprmacro(lambda t, x: ast.Tuple(elts=[t, N(id="new4")])),
    "star": exprmacro(lambda t, x: ast.List(elts=[N(id="new5"), ast.Starred(value=t)])),
    "shared": exprmacro(lambda t, x: ast.Tuple(elts=[t, t, ast.Attribute(value=t, attr="b")])),
    "wrongs": exprmacro(lambda t, x: ast.Attribute(value=N(id="new6", ctx=ast.Store()), attr="c", ctx=ast.Del())),
    "wrongl": exprmacro(lambda t, x: N(id="new7", ctx=ast.Load())),
    "donew": exprmacro(lambda t, x: Done(ast.Attribute(value=t, attr="d"))),
    "doned": exprmacro(lambda t, x: ast.Subscript(value=Done(N(id="new8")), slice=Done(Done(t)))),
    "expm": exprmacro(lambda t, x: MyExpMarker(ast.Attribute(value=MyExpMarker(t), attr="e"))),
    "nest": exprmacro(lambda t, x: ast.Subscript(value=N(id="attr"), slice=ast.Subscript(value=N(id="sub"), slice=t))),
    "innerx": exprmacro(lambda t, x: ast.Attribute(value=x.visit(t), attr="g")),
    "oncex": exprmacro(lambda t, x: ast.Attribute(value=x.visit_once(t), attr="h")),
    "pre": exprmacro(lambda t, x: x.visit(ast.Attribute(value=ast.Subscript(value=N(id="attr"), slice=t), attr="i"))),
    "foreign": exprmacro(lambda t, x: foreign(ast.Attribute(value=N(id="new9"), attr="j"), 777)),
}
L = {  # results for loads only
    "call": exprmacro(lambda t, x: ast.Call(func=N(id="fn"), args=[t, ast.Starred(value=N(id="as_"))], keywords=[ast.keyword(arg="k", value=t), ast.keyword(arg=None, value=N(id="kws"))])),
    "lam": exprmacro(lambda t, x: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="p")], vararg=ast.arg(arg="q"), kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[t]), body=t)),
    "comp": exprmacro(lambda t, x: ast.ListComp(elt=t, generators=[ast.comprehension(target=N(id="v"), iter=t, ifs=[N(id="v")], is_async=0)])),
    "walrus": exprmacro(lambda t, x: ast.NamedExpr(target=N(id="w"), value=t)),
    "fstr": exprmacro(lambda t, x: ast.JoinedStr(values=[C(value="s"), ast.FormattedValue(value=t, conversion=-1, format_spec=None)])),
    "none": exprmacro(lambda t, x: None),
    "const": exprmacro(lambda t, x: C(value=1)),
    "dict": exprmacro(lambda t, x: ast.Dict(keys=[None, t], values=[t, C(value=2)])),
    "ifx": exprmacro(lambda t, x: ast.IfExp(test=t, body=ast.UnaryOp(op=ast.Not(), operand=t), orelse=ast.BoolOp(op=ast.And(), values=[t, ast.Compare(left=t, ops=[ast.In()], comparators=[t])]))),
    "slice": exprmacro(lambda t, x: ast.Subscript(value=t, slice=ast.Slice(lower=t, upper=None, step=N(id="st")))),
}
OPEN = {"mine": exprmacro(lambda t, x: MyMarker(ast.Attribute(value=t, attr="mm"))),
        "mineinner": exprmacro(lambda t, x: ast.Attribute(value=MyMarker(t), attr="mn")),
        "minedone": exprmacro(lambda t, x: Done(MyMarker(t)))}


def stmtmacro(f):
    def macro(tree, *, syntax, expander, **kw):
        return f(lst(tree), expander, syntax)
    return macro


def first(b):
    """A user expression of the suite, as a node object to use again."""
    for s in b:
        for n in ast.walk(s):
            if type(n) is N and n.id.startswith("u"):
                return n
    return N(id="nouser")


PASS = [ast.Pass()]
args0 = lambda: ast.arguments(posonlyargs=[], args=[ast.arg(arg="p", annotation=N(id="ann"))], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
S = {
    "suser": stmtmacro(lambda b, x, s: b),
    "sassign": stmtmacro(lambda b, x, s: [ast.Assign(targets=[first(b), ast.Tuple(elts=[first(b), N(id="t1")])], value=first(b)), *b]),
    "saug": stmtmacro(lambda b, x, s: [ast.AugAssign(target=first(b), op=ast.Add(), value=first(b)), ast.AnnAssign(target=first(b), annotation=first(b), value=None, simple=1), ast.Delete(targets=[first(b)])] + b),
    "sfor": stmtmacro(lambda b, x, s: ast.For(target=first(b), iter=first(b), body=b, orelse=[ast.Expr(value=first(b))])),
    "sfun": stmtmacro(lambda b, x, s: ast.FunctionDef(name="newf", args=args0(), body=b, decorator_list=[N(id="deco")], returns=N(id="ret"), type_params=[ast.TypeVar(name="TV", bound=N(id="bd"))])),
    "scls": stmtmacro(lambda b, x, s: ast.ClassDef(name="newc", bases=[N(id="base")], keywords=[ast.keyword(arg="metaclass", value=N(id="mt"))], body=b, decorator_list=[], type_params=[])),
    "swith": stmtmacro(lambda b, x, s: ast.With(items=[ast.withitem(context_expr=first(b), optional_vars=ast.List(elts=[first(b), ast.Starred(value=N(id="rest"))]))], body=b)),
    "stry": stmtmacro(lambda b, x, s: ast.Try(body=b, handlers=[ast.ExceptHandler(type=N(id="E"), name="ex", body=[ast.Pass()])], orelse=[], finalbody=[ast.Expr(value=N(id="fin"))])),
    "smatch": stmtmacro(lambda b, x, s: ast.Match(subject=first(b), cases=[ast.match_case(pattern=ast.MatchAs(pattern=ast.MatchSequence(patterns=[ast.MatchValue(value=C(value=1)), ast.MatchStar(name="ms")]), name="mn"), guard=first(b), body=b)])),
    "simp": stmtmacro(lambda b, x, s: [ast.Import(names=[ast.alias(name="os", asname="os2")]), ast.ImportFrom(module="os", names=[ast.alias(name="path", asname=None)], level=0), *b]),
    "snone": stmtmacro(lambda b, x, s: None),
    "sdone": stmtmacro(lambda b, x, s: [Done(b), Done(ast.Expr(value=N(id="dd")))]),
    "sexpm": stmtmacro(lambda b, x, s: MyExpMarker([ast.Expr(value=MyExpMarker(N(id="ee"))), *b])),
    "sinner": stmtmacro(lambda b, x, s: [ast.If(test=N(id="cc"), body=lst(x.visit(b)), orelse=[])]),
    "sonce": stmtmacro(lambda b, x, s: [ast.If(test=N(id="cc"), body=[x.visit_once(b)], orelse=[])]),
    "snest": stmtmacro(lambda b, x, s: [ast.With(items=[ast.withitem(context_expr=N(id="sfor"), optional_vars=None)], body=b), ast.Expr(value=ast.Subscript(value=N(id="attr"), slice=N(id="bb")))]),
    "sdup": stmtmacro(lambda b, x, s: b + b),
    "sforeign": stmtmacro(lambda b, x, s: [foreign(ast.parse("alien = 1").body[0], 888)] + b),
    "stype": stmtmacro(lambda b, x, s: [ast.TypeAlias(name=N(id="TA"), type_params=[ast.TypeVar(name="T1", bound=first(b)), ast.TypeVarTuple(name="T2"), ast.ParamSpec(name="T3")], value=first(b)), *b]),
}
OPENS = {"smine": stmtmacro(lambda b, x, s: MyMarker(b)), "smineinner": stmtmacro(lambda b, x, s: [ast.If(test=MyMarker(N(id="cc")), body=b, orelse=[])])}


@namemacro
def nbare(tree, *, syntax, **kw):
    return N(id="fromname")


@namemacro
def nattr(tree, *, syntax, **kw):
    return ast.Attribute(value=N(id="fromname"), attr="z")


@namemacro
def nkeep(tree, *, syntax, **kw):
    return tree


@namemacro
def nnon(tree, *, syntax, **kw):
    return None


@namemacro
def nmark(tree, *, syntax, **kw):
    return MyMarker(N(id="marked"))


NM = {"nbare": nbare, "nattr": nattr, "nkeep": nkeep}
ALL = {**T, **L, **OPEN, **S, **OPENS, **NM, "nnon": nnon, "nmark": nmark}

TARGETS = ["{} = u9", "u9 = {} = u8", "({}, u9) = u8", "[*{}] = u8", "for {} in u8:\n    u7", "for u9, {} in u8: u7", "with u8 as {}: u7", "with u8 as ({}, u9): u7", "del {}", "del u9, ({},)", "[u9 for {} in u8]",
           "async def fn():\n    async for {} in u8: u7\n    async with u8 as {}: u7"]
STARGETS = ["{} += u9", "{}: u9 = u8", "{}: u9"]  # not for displays
LOADS = ["{}", "u9 = {}", "fn(u9, {})", "{}[u9] = u8", "{}.k = u8", "del {}.k", "f'{{{}}}'", "f'{{u9:{{{}}}}}'", "@{}\ndef fn(): u7", "def fn(a={}, *, b: {} = u9) -> {}: u7", "class Cls({}, k={}): u7", "lambda a={}: u9", "if {}: u7\nelif {}: u8",
         "while {}: u7", "match {}:\n    case 1 if {}: u7", "try: u7\nexcept {}: u8", "assert {}, {}", "u9 = yield_ = {}", "{{**{}, u9: {}}}", "[u9 for u8 in {} if {}]", "with {} as u9: u7", "raise {} from {}", "u9[{}] += 1", "type X[V: {}] = {}",
         "async def fn(): await {}", "def fn():\n    return {}", "def fn():\n    x = yield {}", "print({}, *{}, **{})", "global g\n{}", "'doc'\n{}"]
NEST = ["with {}:\n    {}", "if u6:\n    with {}:\n        {}", "def fn():\n    with {}:\n        {}\n    u5"]
BODIES = ["u1\nu2", "u1 = u2", "attr[u1]\nwith sfor:\n    u2", "@{d}\ndef uf(a=u1): u2", "nattr = u1"]


def cases(tier):
    deep = tier != "quick"
    def chains(d, ops, leaves):
        if d == 0:
            return list(leaves)
        return [f"{o}[{s}]" for o in ops for s in chains(d - 1, ops, leaves)]
    t1 = chains(1, T, ["u1", "u1.x"])
    t2 = chains(2, T, ["u1"]) + chains(1, T, ["nbare", "nattr", "nkeep", "u1[u2]"])
    names = list(NM)
    for ctx in TARGETS + STARGETS:
        display = ctx in STARGETS
        for s in t1 + t2 + names + (chains(3, [o for o in T if o not in ("user", "expm", "oncex")], ["u1"]) if deep else []):
            if s == "nkeep" or not (display and s.split("[")[0] in ("pair", "star", "shared")):
                yield ["m", ctx.format(s, s)]
    ops = list(T) + list(L)
    l2 = chains(1, ops, ["u1", "nattr", "(u1, u2)"]) + chains(2, ops, ["u1"]) + names + ["nnon"]
    for ctx in LOADS:
        for s in l2 if deep or ctx in ("u9 = {}", "{}") else chains(1, ops, ["u1", "nattr"]) + names:
            if "star[" in s and False:
                continue
            yield ["m", ctx.format(s, s, s)]
    if deep:
        for s in chains(3, ops, ["u1"]):
            yield ["m", "u9 = " + s]
    # blocks and decorators
    bodies = [b.format(d="suser") for b in BODIES]
    for b in bodies:
        for o in S:
            for ctx in NEST:
                yield ["m", ctx.format(o, b.replace("\n", "\n    ") if ctx == NEST[0] else b.replace("\n", "\n        "))]
            for o2 in S:
                yield ["m", "with %s, %s:\n    %s" % (o, o2, b.replace("\n", "\n    "))]
                yield ["m", "with %s:\n    u3\n    with %s:\n        %s" % (o, o2, b.replace("\n", "\n        "))]
                if deep:
                    for o3 in S:
                        yield ["m", "with %s:\n    with %s, %s:\n        %s" % (o, o2, o3, b.replace("\n", "\n        "))]
    for o in S:
        for d in ("def uf(a=u1): u2", "class uc(u1): u2", "async def uf(): await u2"):
            yield ["m", f"@{o}\n{d}"]
            yield ["m", f"@u3\n@{o}\n@u4\n{d}\nu5"]
            for o2 in S:
                yield ["m", f"@{o}\n@{o2}\n{d}"]
    # markers left
    for s in list(OPEN) :
        for ctx in LOADS + TARGETS:
            yield ["marker", ctx.format(*[f"{s}[u1]"] * 3)]
            if deep or ctx == "u9 = {}":
                for o in ops:
                    yield ["marker", ctx.format(*[f"{o}[{s}[u1]]"] * 3)]
                    yield ["marker", ctx.format(*[f"{s}[{o}[u1]]"] * 3)]
    for ctx in LOADS + TARGETS:
        yield ["marker", ctx.format("nmark", "nmark", "nmark")]
    for s in OPENS:
        for o in S:
            for b in bodies:
                yield ["marker", "with %s:\n    u3\n    with %s:\n        %s" % (o, s, b.replace("\n", "\n        "))]
                yield ["marker", "with %s, %s:\n    %s" % (s, o, b.replace("\n", "\n    "))]
        yield ["marker", f"@{s}\ndef f(): u2"]
        yield ["marker", f"if u1:\n    @{s}\n    class c: u2"]
    # user code not touched by macros keeps everything
    for o in ("with suser:\n    ", "with sinner:\n    ", "with sonce:\n    "):
        for ctx in LOADS + TARGETS:
            yield ["m", o + ctx.format("u1", "u2", "u3").replace("\n", "\n    ")]


class LocRef(RefExpander):
    """The reference expander that also fills in locations: what a macro built without one gets its invocation's."""
    def apply(self, syntax, name, invocation, tree, kw):
        r = self.b.get(name)(tree, syntax=syntax, expander=self, invocation=invocation, **kw)
        if r is None:
            return None
        if not isinstance(r, ast.AST):
            r = list(r)
        if hasattr(invocation, "lineno"):
            for n in preorder(r):
                if "lineno" in n._attributes:
                    for a in ATTRS:
                        if getattr(n, a, None) is None and getattr(invocation, a, None) is not None:
                            setattr(n, a, getattr(invocation, a))
        return self.x(r) if self.recursive else r


def setup():
    m = types.ModuleType("mc03macros")
    for k, v in ALL.items():
        setattr(m, k, v)
    sys.modules["mc03macros"] = m


HEADER = "from mc03macros import macros, %s\n" % ", ".join(ALL)


def hasmarker(t):
    return any(isinstance(n, ASTMarker) and not isinstance(n, MacroExpanderMarker) for n in preorder(t))


def strip(t):
    """Remove expander markers for the reference."""
    if isinstance(t, list):
        out = []
        for e in t:
            r = strip(e)
            if isinstance(r, list):
                out += r
            else:
                out.append(r)
        return out
    if isinstance(t, MacroExpanderMarker):
        return strip(t.body)
    if isinstance(t, ast.AST):
        for f in t._fields:
            if hasattr(t, f):
                v = getattr(t, f)
                if isinstance(v, list):
                    v[:] = strip(v)
                else:
                    setattr(t, f, strip(v))
    return t


def run_case(case, ctx):
    kind, src = case
    ctx.state(src)
    ctx.step()
    # reference, and whether the program is well-formed at all
    t = ast.parse(HEADER + src)
    t.body.pop(0)
    try:
        ref = strip(clone(LocRef(ALL, "p.py").visit(t)))
    except ValueError as e:
        raise
    text = HEADER + src
    left = hasmarker(ref)
    if kind == "marker":
        ctx.outcome(left)
        for f in (mexpand, mcompile):
            try:
                f(text, "/nowhere/p.py")
                got = "ok"
            except MacroExpansionError as e:
                got = "error"
                ctx.check("p.py" in str(e), "the error does not name the file")
            except (SyntaxError, TypeError, ValueError) as e:
                got = "error" if left else "invalid program"
                if left:
                    ctx.fail(f"a marker reached the compiler: {type(e).__name__}: {e}")
                    return
            if not ctx.equal(got, "error" if left else "ok", f"{f.__name__}: marker left"):
                return
        return
    # is the reference program valid Python? (macro results in some positions are not)
    try:
        if any(type(n) is ast.AnnAssign and n.simple and type(n.target) is not ast.Name for n in preorder(ref)):
            ctx.outcome("invalid")  # a name macro for the variable of an annotation, expanded to something else
            return
        refsrc = ast.unparse(ast.fix_missing_locations(clone(ref)))
        parsed = ast.parse(refsrc)
        compile(parsed, "x", "exec")
    except (SyntaxError, ValueError, TypeError):
        ctx.outcome("invalid")
        return
    except AttributeError:
        ctx.outcome("invalid")
        return
    t = ast.parse(text)
    t.body.pop(0)
    try:
        real = expand_macros(t, dict(ALL), filename="p.py")
    except BaseException as e:
        ctx.fail(f"expansion failed: {type(e).__name__}: {e}")
        return
    via = mexpand(text, "/nowhere/p.py")
    del via.body[0]
    for name, tree in (("expand_macros", real), ("compiler.expand", via)):
        for n in preorder(tree):
            if isinstance(n, ASTMarker):
                return ctx.fail(f"{name}: marker {type(n).__name__} left")
            if "lineno" in n._attributes:
                if getattr(n, "lineno", None) is None or getattr(n, "col_offset", None) is None:
                    return ctx.fail(f"{name}: no location on {ast.dump(n)}")
            elif isinstance(n, (ast.expr, ast.stmt)):
                return ctx.fail(f"{name}: odd node {n}")
        try:
            compile(tree, "p.py", "exec")
        except (SyntaxError, ValueError, TypeError) as e:
            return ctx.fail(f"{name}: does not compile: {e}")
    ctx.outcome(canon(parsed))
    # the contexts: as the parser gives
    nodummy = drop(clone(real))
    want = ast.parse(ast.unparse(nodummy))
    if not ctx.equal(canon(nodummy), canon(want), "contexts (compared with the parser's)"):
        return
    # locations
    for name, tree in (("expand_macros", real), ("compiler.expand", via)):
        if not ctx.equal(canon(norm(tree), True), canon(norm(clone(ref)), True), f"{name}: tree and locations"):
            return




def drop(t):
    if isinstance(t, list):
        return [drop(e) for e in t if not iscoverage(e)]
    if isinstance(t, ast.AST):
        for f in t._fields:
            if hasattr(t, f):
                v = getattr(t, f)
                w = drop(v)
                if isinstance(v, list) and v and not w:
                    w = [ast.Pass()]
                setattr(t, f, w)
    return t
