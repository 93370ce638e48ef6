"""C20: renaming."""
import ast
import io
import itertools
import keyword
import tokenize

from mcpyrate.core import Done
from mcpyrate.utils import rename

from . import snips
from .astutil import canon, clone, preorder

LEVEL = "model_checking"
RULE = ("cases: snippets of the grammar; in each, the old name is put at every identifier token, every pair of them and all of them; rename must give the tree of the source whose tokens are replaced, in place; and renaming back the original tree; "
        "state: distinct tree to rename; transition: one rename; comparison: with the parser's tree for the token-replaced source")
BUDGET = {"quick": 600, "thorough": 3000}
OLD, NEW = "zz", "fresh_name"

EXTRA = ["'zz'; zz = 'zz'", "__all__ = ['zz']; zz", "f'zz{zz}zz'", "zz.zz.zz(zz=zz)", "zza; azz; z; zzz; Zz", "# zz\nzz", "def zz(zz): zz = 1; return zz", "import zz as zz, b as zz, zz as c",
         "from zz import zz as zz", "global zz, a, zz", "def f():\n    nonlocal a, zz", "match zz:\n    case {'zz': zz, **zz}: pass", "match zz:\n    case zz(zz, zz=zz): pass", "match zz:\n    case [*zz] | zz.zz as zz: pass",
         "type zz[zz, *zz, **zz] = zz", "class zz[zz: zz](zz, zz=zz): zz: zz", "try: pass\nexcept zz as zz: del zz", "lambda zz, /, a, *zz2, b: zz", "x = zz = zz", "[zz for zz in zz if zz]"]
DOTTED = ["import m.n", "import m.n as o", "import m.n.o", "import m, m.n", "from m.n import a", "from .m.n import a", "from m import n", "m.n", "'m.n'", "from m.n import m as n"]


def idtokens(src):
    """(row, col, length) of the identifier tokens that are a name of their own (not a part of a dotted module name)."""
    toks = [t for t in tokenize.generate_tokens(io.StringIO(src).readline) if t.type not in (tokenize.NL, tokenize.COMMENT)]
    out = []
    inimport = False
    frompart = False
    for i, t in enumerate(toks):
        if t.type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT) or t.string == ";" or (t.string == ":" and not inimport):
            inimport = False
        first = i == 0 or toks[i - 1].type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT) or toks[i - 1].string in (";", ":")
        if t.type != tokenize.NAME:
            continue
        if first and t.string in ("import", "from"):
            inimport = True
            frompart = t.string == "from"
            continue
        if keyword.iskeyword(t.string):
            continue
        if inimport:
            prev, prevprev = toks[i - 1].string, toks[i - 2].string if i >= 2 else ""
            dotted = toks[i + 1].string == "." or (prev == "." and prevprev.isidentifier() and not keyword.iskeyword(prevprev))
            if dotted:
                continue
        out.append((t.start[0], t.start[1], len(t.string)))
    return out


def subst(src, places, name):
    lines = src.split("\n")
    for row, col, n in sorted(places, reverse=True):
        line = lines[row - 1]
        lines[row - 1] = line[:col] + name + line[col + n:]
    return "\n".join(lines)


def cases(tier):
    yield ["text", EXTRA]
    yield ["dotted", DOTTED]
    small = [s for s in snips.stmts(0)] + [e for e in snips.exprs(1)]
    for i in range(0, len(small), 60):
        yield ["pairs", small[i:i + 60]]
    seen = set(small)
    big = [s for s in snips.stmts(1) if s not in seen]
    if tier == "thorough":
        big += [e for e in snips.exprs(2) if e not in seen]
    for i in range(0, len(big), 300):
        yield ["singles", big[i:i + 300]]


def parse(src):
    try:
        return ast.parse(src)
    except (SyntaxError, ValueError):
        return None


def one(ctx, t1, want, old, new, what):
    before = canon(t1)
    beforea = canon(t1, attrs=True)
    ctx.state(before)
    ids = [id(n) for n in preorder(t1)]
    r = rename(old, new, t1)
    ctx.step()
    ok = ctx.check(r is t1, what + ": does not return the tree")
    ok = ok and ctx.equal(canon(t1), want, what)
    ok = ok and ctx.check([id(n) for n in preorder(t1)] == ids, what + ": nodes were replaced, not edited in place")
    if ok:
        ctx.outcome(before != want)
        rename(new, old, t1)
        ctx.step()
        ok = ctx.equal(canon(t1, attrs=True), beforea, what + ": renaming back")
    return ok


def run_case(case, ctx):
    kind, srcs = case
    for src in srcs:
        if kind == "dotted":
            for old in ("m", "n", "o", "m.n", "m.n.o"):
                t = ast.parse(src)
                want = clone(t)
                for n in ast.walk(want):
                    for f in ("id", "attr", "module", "name", "asname"):
                        if getattr(n, f, None) == old:
                            setattr(n, f, "q")
                if not one(ctx, t, canon(want), old, "q", f"{src!r} {old}"):
                    return
            continue
        if "=}" in src:  # the text of a self-documenting f-string is a string
            continue
        if kind == "text":
            places = [p for p in idtokens(src) if src.split("\n")[p[0] - 1][p[1]:p[1] + p[2]] == OLD]
            sets = [places]
        else:
            toks = idtokens(src)
            sets = [[p] for p in toks]
            if kind == "pairs":
                sets += [list(c) for c in itertools.combinations(toks, 2)]
            if len(toks) > 1:
                sets.append(toks)
            sets.append([])
        for places in sets:
            s1, s2 = subst(src, places, OLD), subst(src, places, NEW)
            t1, t2 = parse(s1), parse(s2)
            if t1 is None or t2 is None:
                continue
            want = canon(t2)
            if not one(ctx, t1, want, OLD, NEW, f"{s1!r}"):
                return
            body = ast.parse(s1).body
            if not one(ctx, body, want[1][0][1], OLD, NEW, f"{s1!r} (list)"):
                return
            if len(body) == 1:
                if not one(ctx, ast.parse(s1).body[0], want[1][0][1][1][0], OLD, NEW, f"{s1!r} (statement)"):
                    return
            if kind != "singles":
                if not ctx.equal(canon(rename(NEW, "other", parse(s1))), canon(parse(s1)), f"{s1!r}: an absent name was renamed"):
                    return
                t = Done(ast.parse(s1))
                rename(OLD, NEW, t)
                if not ctx.equal(canon(t.body), want, f"{s1!r} inside a marker"):
                    return
