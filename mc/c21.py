"""C21: splicing code into templates."""
import ast
import itertools

from mcpyrate.core import Done
from mcpyrate.splicing import splice_dialect, splice_expression, splice_statements

from . import snips
from .astutil import canon, clone, preorder
from .c20 import idtokens, parse, subst

LEVEL = "model_checking"
RULE = ("cases: (a) grammar snippets as templates with the paste name at every identifier token, pair of tokens, and all, x expressions; (b) statement templates with up to 2-3 paste statements at every suite position, x bodies; "
        "(c) dialect templates and bodies: every sequence of section items (plain code, docstring, futures, __all__, dialect-imports, macro-imports, paste) to a length; "
        "state: distinct template; transition: one splice; comparison: with the parser's tree of the substituted / reordered source text, node independence, locations")
BUDGET = {"quick": 600, "thorough": 3000}
TAG = "__paste_here__"


def noctx(c):
    """canonical form without contexts"""
    if isinstance(c, tuple) and len(c) == 3 and isinstance(c[1], tuple) and isinstance(c[0], str):
        return (c[0], tuple((f, noctx(v)) for f, v in c[1] if f != "ctx"), c[2])
    if isinstance(c, tuple) and len(c) == 2 and c[0] == "[":
        return ("[", tuple(noctx(x) for x in c[1]))
    return c


def can(x, attrs=False):
    return noctx(canon(x, attrs))


EXPRS = ["n", "p + q", "f(x, [y])", "(lambda: z)"]
BODIES = ["b1", "b1 = 1\nb2()", "if b1:\n    b2\nelse:\n    b3", "def b():\n    return b1\n\nb()\nb2"]


def cases(tier):
    small = [e for e in snips.exprs(1)] + [s for s in snips.stmts(0)]
    for i in range(0, len(small), 80):
        yield ["expr", small[i:i + 80]]
    if tier == "thorough":
        seen = set(small)
        big = [s for s in snips.stmts(1) if s not in seen]
        for i in range(0, len(big), 300):
            yield ["expr", big[i:i + 300]]
    compound = [s for s in snips.stmts(0)]
    for i in range(0, len(compound), 15):
        yield ["stmts", compound[i:i + 15], 2 if tier == "quick" else 3]
    yield ["errors"]
    for t in ("MP", "DP", "MPM", "DPD", "MMP", "PMD", "MDPDM", "PPP", "PtPpP".replace("t", "p")):
        for fut in (0, 1):
            yield ["dialect", [t, 0, fut], 1]
    nb, nt = (2, 3) if tier == "quick" else (3, 3)
    for t in templates(nt):
        yield ["dialect", t, nb]


# (c)
BITEMS = {"p": "u{i} = 1", "a": "__all__ = ['u{i}']", "d": "from um{i} import dialects, UD{i}", "m": "from um{i} import macros, um{i}", "c": "def u{i}():\n    'inner'\n    __all__ = 1\n    return {i}", "n": "from n{i} import a, macros as b",
          "M": "from um import macros, um", "D": "from um import dialects, UD"}  # the last two may be repeated
TITEMS = {"p": "t{i} = 1", "a": "__all__ = ['t{i}']", "d": "from tm{i} import dialects, TD{i}", "m": "from tm{i} import macros, tm{i}", "P": TAG, "W": "with t{i}:\n    t{i}a\n    " + TAG + "\n    t{i}b", "F": "for t{i} in " + TAG + ":\n    if 1:\n        " + TAG,
          "M": "from um import macros, um", "D": "from um import dialects, UD"}
REPEATS = "MD"  # the same text each time


def templates(n):
    for k in range(1, n + 1):
        for seq in itertools.product([c for c in TITEMS if c not in REPEATS], repeat=k):
            if not any(c in "PWF" for c in seq) or sum(c in "PWF" for c in seq) > 2:
                continue
            for doc in (0, 1):
                for fut in (0, 1):
                    yield ["".join(seq), doc, fut]


def bodies(n):
    for doc in (0, 1, 2):
        for fut in (0, 1, 2):
            for k in range(0, n + 1):
                for seq in itertools.product([c for c in BITEMS if c not in REPEATS], repeat=k):
                    if doc or fut or k:
                        yield ["".join(seq), doc, fut]
    for seq in ("MM", "DD", "MpM", "MDM", "MmM", "DpDM", "M", "D"):
        for fut in (0, 3):
            yield [seq, 0, fut]
    yield ["p", 0, 3]


def sections(seq, doc, fut, items, who):
    """-> text lines by section"""
    docs = []
    if doc == 1:
        docs = [f"'''{who} doc\n  line 2'''"]
    elif doc == 2:
        docs = ["''"]
    futs = []
    if fut >= 1:
        futs.append("from __future__ import annotations" if who == "user" else "from __future__ import generator_stop")
    if fut == 3:
        futs = ["from __future__ import generator_stop"]
    if fut == 2:
        futs.append("from __future__ import division, print_function as pf")
    its = [(c, items[c].format(i=i)) for i, c in enumerate(seq)]
    return docs, futs, its


def text(sec):
    docs, futs, its = sec
    return "\n".join(docs + futs + [x for c, x in its]) + "\n"


def indent(s, k):
    return "\n".join((" " * k + line if line else line) for line in s.split("\n"))


def dialect_reference(tsec, bsec):
    tdocs, tfuts, tits = tsec
    bdocs, bfuts, bits = bsec
    head = tfuts + bfuts + [x for c, x in bits if c == "a"] + [x for c, x in tits if c in "dD"] + [x for c, x in bits if c in "dD"] + [x for c, x in tits if c in "mM"] + [x for c, x in bits if c in "mM"]
    rest = [x for c, x in bits if c not in "admMD"] or ["pass"]
    rest = "\n".join(rest)
    out = []
    for c, x in tits:
        if c in "admMD":
            continue
        lines = []
        for line in x.split("\n"):
            if line.strip() == TAG:
                lines.append(indent(rest, len(line) - len(line.lstrip())))
            else:
                lines.append(line)
        out.append("\n".join(lines))
    return "\n".join(head + out)


def run_dialect(t, nb, ctx):
    tsec = sections(*t, TITEMS, "template")
    ttext = text(tsec)
    for b in bodies(nb):
        bsec = sections(*b, BITEMS, "user")
        btext = text(bsec)
        for loc in ((None, (77, 3)) if len(b[0]) < 2 else ((77, 3),) if b[1] == 1 else (None,)):
            what = f"template {ttext!r} body {btext!r} loc={loc}"
            template, body = ast.parse(ttext).body, ast.parse(btext).body
            template2 = ast.parse(ttext).body
            ctx.state((t, b, loc))
            tids = {id(n) for n in preorder(template)}
            tfutids = {id(n) for s in template if isinstance(s, ast.ImportFrom) and s.module == "__future__" for n in preorder(s)}
            bodynodes = {id(n): n for n in preorder(body)}
            bloc = {id(n): [getattr(n, a, None) for a in ("lineno", "col_offset", "end_lineno", "end_col_offset")] for n in preorder(body)}
            keep = (list(preorder(template)), list(preorder(body)))  # noqa: F841
            first = body[0]
            where = loc or (first.lineno, first.col_offset)
            kw = {"lineno": loc[0], "col_offset": loc[1]} if loc else {}
            single = len(template) == 1 and (len(ttext) + len(btext)) % 2
            result = splice_dialect(body, template[0] if single else template, **kw)
            ctx.step()
            if not ctx.check(isinstance(result, list) and all(isinstance(s, ast.stmt) for s in result), what + f": not a list of statements: {result!r}"):
                return
            want = dialect_reference(tsec, bsec)
            got = result
            if tsec[0] or bsec[0]:
                d = result[0]
                ok = isinstance(d, ast.Expr) and isinstance(d.value, ast.Constant) and isinstance(d.value.value, str)
                for x in tsec[0] + bsec[0]:
                    ok = ok and ast.literal_eval(x) in d.value.value
                if len(tsec[0] + bsec[0]) == 1:
                    ok = ok and d.value.value == ast.literal_eval((tsec[0] + bsec[0])[0])
                if not ctx.check(ok, what + f": docstring {ast.dump(d)}"):
                    return
                got = result[1:]
            ctx.outcome(want)
            if not ctx.equal(can(got), can(ast.parse(want).body), what):
                return
            seen = set()
            for n in preorder(result):
                if isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop)):
                    continue
                if not ctx.check(id(n) not in seen, what + ": the same node twice in the result: " + ast.dump(n)):
                    return
                seen.add(id(n))
                if id(n) in tids and id(n) in tfutids and bsec[1]:
                    pass  # future-imports of both: Python restricts their line numbers
                elif id(n) in tids and "lineno" in n._attributes and n is not result[0]:
                    if not ctx.check((n.lineno, n.col_offset) == where, what + f": template node {ast.dump(n)} at {n.lineno}:{n.col_offset}, not {where}"):
                        return
                elif id(n) in bodynodes:
                    if not ctx.check([getattr(n, a, None) for a in ("lineno", "col_offset", "end_lineno", "end_col_offset")] == bloc[id(n)], what + f": body node {ast.dump(n)} moved"):
                        return
            if len(b[0]) < 2 or "c" in b[0]:
                try:
                    compile(ast.Module(body=result, type_ignores=[]), "<result>", "exec")
                except Exception as err:
                    ctx.fail(what + f": does not compile: {err!r}")
                    return


def run_stmts(srcs, k, ctx):
    for src in srcs:
        base = ast.parse(src)
        nsuites = len(suites(base))
        points = [(s, i) for s in range(nsuites) for i in range(len(suites(base)[s]) + 1)]
        for r in [*range(1, k + 1), len(points)]:
            if 2 < r < len(points) and len(points) > 7:
                continue
            for combo in itertools.combinations(points, r):
                for bi, btext in enumerate(BODIES):
                    if r > 1 and bi not in (1, 2):
                        continue
                    for tag in ((TAG, "here") if r == 1 else (TAG,)):
                        template, want = ast.parse(src), ast.parse(src)
                        body = ast.parse(btext).body
                        ins(template, combo, lambda: [ast.Expr(value=ast.Name(id=tag, ctx=ast.Load()))])
                        ins(want, combo, lambda: ast.parse(btext).body)
                        what = f"template {ast.unparse(template)!r} body {btext!r}"
                        ctx.state((ast.dump(template), btext))
                        orig = list(body)
                        single = len(body) == 1 and r % 2
                        which = "list"
                        if len(template.body) == 1 and r % 2 == 0:
                            result = splice_statements(body, template.body[0], *([tag] if tag != TAG else []))
                            which = "stmt"
                        elif bi % 2:
                            result = splice_statements(body, template, *([tag] if tag != TAG else []))  # a whole module as template
                            if isinstance(result, list) and len(result) == 1:
                                result = result[0]
                            result = getattr(result, "body", None)
                        else:
                            result = splice_statements(body[0] if single else body, template.body, tag=tag)
                        ctx.step()
                        if not ctx.equal(can(result), can(want.body), what + f" ({which})"):
                            return
                        allnodes = [n for n in preorder(result) if not isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop))]
                        if not ctx.check(len({id(n) for n in allnodes}) == len(allnodes), what + ": copies are not independent"):
                            return
                        # the first occurrence is the given nodes
                        firsts = [n for n in allnodes if isinstance(n, ast.stmt) and canon(n) == canon(orig[0])]
                        if not ctx.check(firsts and firsts[0] is orig[0], what + ": the first paste is not the given nodes"):
                            return


def suites(tree):
    out = []
    for n in preorder(tree):
        for f in n._fields:
            v = getattr(n, f, None)
            if isinstance(v, list) and v and all(isinstance(e, ast.stmt) for e in v):
                out.append(v)
    return out


def ins(tree, combo, make):
    ss = suites(tree)
    for s, i in sorted(combo, reverse=True):
        ss[s][i:i] = make()


def run_expr(srcs, ctx):
    for src in srcs:
        if "=}" in src:
            continue
        toks = idtokens(src)
        sets = [[p] for p in toks] + [list(c) for c in itertools.combinations(toks, 2)] + ([toks] if len(toks) > 2 else [])
        for places in sets:
            s1 = subst(src, places, TAG)
            t1 = parse(s1)
            if t1 is None:
                continue
            names = [(n.lineno, len(s1.split("\n")[n.lineno - 1].encode()[:n.col_offset].decode()), len(TAG)) for n in ast.walk(t1) if isinstance(n, ast.Name) and n.id == TAG]
            if not names:
                # a tag that is not a Name is not a paste indicator
                if not ctx.equal(canon(splice_expression(ast.Name(id="n"), t1)), canon(parse(s1)), f"{s1!r}: no paste indicator, but changed"):
                    return
                continue
            for e in (EXPRS if len(places) == 1 else EXPRS[1:2]):
                s2 = subst(s1, names, e if e == "n" else "(" + e + ")")
                t2 = parse(s2)
                if t2 is None or [type(x) for x in t2.body] != [type(x) for x in t1.body]:  # `type (a)[b] = c` is another statement
                    continue
                want = can(t2)
                for mode in ("module", "list", "marker", "tag"):
                    if mode != "module" and len(places) != 1:
                        continue
                    t = parse(s1)
                    expr = ast.parse(e, mode="eval").body
                    exprids = {id(n) for n in preorder(expr)}
                    ctx.state(s1 + e)
                    what = f"template {s1!r} expression {e!r} {mode}"
                    if mode == "module":
                        result = splice_expression(expr, t)
                    elif mode == "list":
                        result = ast.Module(body=splice_expression(expr, t.body), type_ignores=[])
                    elif mode == "marker":
                        result = splice_expression(Done(expr), t)
                        result = unmark(result)
                    else:
                        if e == "n":
                            continue
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and n.id == TAG:
                                n.id = "tag"
                        result = splice_expression(expr, t, tag="tag")
                        if any(isinstance(n, ast.Name) and n.id == "tag" for n in ast.walk(parse(src))):
                            continue
                    ctx.step()
                    if not ctx.equal(can(result), want, what):
                        return
                    if len(names) > 1:
                        allnodes = [n for n in preorder(result) if not isinstance(n, (ast.expr_context, ast.operator, ast.unaryop, ast.boolop, ast.cmpop))]
                        ok = ctx.check(len({id(n) for n in allnodes}) == len(allnodes), what + ": copies are not independent")
                        got = [n for n in allnodes if canon(n) == canon(expr)] if e != "n" else [n for n in allnodes if isinstance(n, ast.Name) and n.id == "n"]
                        ok = ok and ctx.check(got[0] is expr, what + ": the first paste is not the given node")
                        if not ok:
                            return
                # as a bare expression template
                if len(t1.body) == 1 and isinstance(t1.body[0], ast.Expr):
                    t = ast.parse(s1).body[0].value
                    expr = ast.parse(e, mode="eval").body
                    result = splice_expression(expr, t)
                    if not ctx.equal(can(result), want[1][0][1][1][0][1][0][1], f"template {s1!r} expression {e!r} bare"):
                        return


def unmark(t):
    class D(ast.NodeTransformer):
        def generic_visit(self, node):
            if isinstance(node, Done):
                return self.visit(node.body)
            return super().generic_visit(node)
    return D().visit(t)


def run_errors(ctx):
    e = ast.parse("a + b", mode="eval").body
    tmpl = ast.parse("f(" + TAG + ")\n" + TAG).body
    ctx.check(splice_expression(e, []) is e, "splice_expression without a template must return the expression")
    b = ast.parse("a").body
    ctx.check(splice_statements(b, []) is b or canon(splice_statements(b, [])) == canon(b), "splice_statements without a template must return the body")
    ctx.check(canon(splice_dialect(b, [])) == canon(b), "splice_dialect without a template must return the body")
    def raises(exc, f, *a, **k):
        before = canon(tmpl)
        try:
            f(*a, **k)
        except exc:
            pass
        except Exception as err:
            ctx.fail(f"{f.__name__}{a}: {err!r}, want {exc}")
        else:
            ctx.fail(f"{f.__name__}{a}: no error, want {exc}")
        ctx.check(canon(tmpl) == before, f"{f.__name__}{a}: template changed by a rejected call")
        ctx.step()
    for bad in ("x", 1, ast.parse("a").body[0], ast.parse("a"), [e], Done(ast.parse("a").body[0])):
        raises(TypeError, splice_expression, bad, tmpl)
    for bad in ("x", 1, (tmpl[0],)):
        raises(TypeError, splice_expression, e, bad)
    raises(ValueError, splice_statements, [], tmpl)
    raises(ValueError, splice_dialect, [], tmpl)
    # in a statement template, the name elsewhere than as a statement is not a paste indicator
    for src in ("f(" + TAG + ")\n" + TAG + ".a\nx = " + TAG + "\ndef " + TAG + "(): pass", "'" + TAG + "'", "if " + TAG + ":\n    pass"):
        t = ast.parse(src).body
        ctx.equal(canon(splice_statements(b, t)), canon(ast.parse(src).body), f"{src!r}: no paste indicator, but changed")
    ctx.state("errors")


def run_case(case, ctx):
    if case[0] == "expr":
        run_expr(case[1], ctx)
    elif case[0] == "stmts":
        run_stmts(case[1], case[2], ctx)
    elif case[0] == "dialect":
        run_dialect(case[1], case[2], ctx)
    else:
        run_errors(ctx)
