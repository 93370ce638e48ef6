"""C28: helpers for writing macros."""
import ast
import itertools
import uuid

from mcpyrate.core import Done
from mcpyrate.coreutils import inject_after_futureimports, isfutureimport, split_futureimports
from mcpyrate.utils import NestingLevelTracker, extract_bindings, flatten, gensym, getdocstring, scrub_uuid, get_lineno

from .astutil import canon

LEVEL = "model_checking"
RULE = ("cases: gensym histories under every colliding outcome of the random source; scrubbing over all edits of generated names; nested lists to a depth; binding tables x function sets; "
        "module beginnings: every sequence of statement kinds; nesting level: every program of nested set_to/changed_by/exceptions to a size; state: distinct input or tracker history; transition: one call; comparison: reference or CPython's own parser/compiler")
BUDGET = {"quick": 600, "thorough": 2000}

STMTS = ["'doc'", "''", "'''multi\nline'''", "b'bytes'", "f'doc'", "f'{x}'", "...", "1", "x", "'a' + 'b'", "'a' 'b'", "('par')", "x = 'a'", "from __future__ import annotations", "from __future__ import division, generator_stop as gs", "import a", "from m import annotations", "def f():\n    'doc'", "class C:\n    'doc'\n    pass", "pass", "u'doc'", "'a', 'b'", "from . import __future__", "import __future__", "None", "if 1:\n    'doc'"]


def cases(tier):
    yield ["gensym-random", 4 if tier == "quick" else 6]
    yield ["gensym-histories", 3 if tier == "quick" else 4]
    yield ["scrub"]
    for shape in range(3):
        yield ["flatten", 4 if tier == "quick" else 5, shape]
    yield ["extract"]
    for i in range(len(STMTS)):
        yield ["body", i, 3 if tier == "quick" else 4]
    for i in range(6):
        yield ["level", 4 if tier == "quick" else 5, i]
    yield ["level-errors"]
    yield ["lineno"]


class FakeUUID:
    """uuid4 gives the scripted values first."""
    def __init__(self, script):
        self.script = list(script)

    def __call__(self):
        if self.script:
            return uuid.UUID(int=self.script.pop(0))
        return real_uuid4()


real_uuid4 = uuid.uuid4
BASES = [None, "x", "gensym", "x_y", "", "ä", "x_" + "a" * 32]


def gensyms(ctx, bases, script):
    uuid.uuid4 = FakeUUID(script)
    names = []
    try:
        for b in bases:
            names.append(gensym() if b is None else gensym(b))
    finally:
        uuid.uuid4 = real_uuid4
    return names


def run_gensym_random(n, ctx):
    base = int.from_bytes(b"fresh values", "big")
    k = [0]
    for script in itertools.product(range(3), repeat=n):
        for bases in (["x"] * 3, [None] * 3, ["x", None, "gensym"], ["", "", "x"], [None, "gensym", "gensym"]):
            # three values not used by any other script; the script says in which order the random source gives them
            k[0] += 1
            vals = [base * 4096 + 3 * k[0] + v for v in range(3)]
            names = gensyms(ctx, bases, [vals[v] for v in script])
            ctx.step(len(bases))
            ctx.state((script, bases))
            if not ctx.check(len(set(names)) == len(names) and all(isinstance(x, str) for x in names), f"gensym{bases} with random values {script}: {names}"):
                return
            ctx.trace()
            # and later calls, with the same random values again
            names2 = gensyms(ctx, bases, [vals[v] for v in script])
            if not ctx.check(not set(names) & set(names2) and len(set(names2)) == len(names2), f"gensym{bases} again with random values {script}: {names} {names2}"):
                return


def run_gensym_histories(n, ctx):
    seen = set()
    for bases in itertools.product(BASES, repeat=n):
        for b in bases:
            name = gensym() if b is None else gensym(b)
            ctx.step()
            ok = ctx.check(name not in seen, f"gensym({b!r}) gave {name!r} twice")
            seen.add(name)
            if b is None or b.isidentifier():
                ok = ok and ctx.check(name.isidentifier(), f"gensym({b!r}) = {name!r} is not an identifier")
            if b:
                ok = ok and ctx.check(scrub_uuid(name) == b, f"scrub_uuid({name!r}) = {scrub_uuid(name)!r}, not {b!r}")
                ok = ok and ctx.check(name.startswith(b), f"gensym({b!r}) = {name!r}")
            if not ok:
                return
            ctx.trace()
        ctx.state(bases)
    for bad in (1, b"x", ["x"], ast.Name(id="x")):
        try:
            gensym(bad)
            ctx.fail(f"gensym({bad!r}) accepted")
        except TypeError:
            pass


def run_scrub(ctx):
    name = gensym("cat")
    u = name[len("cat_"):]
    ctx.check(scrub_uuid(name) == "cat", "scrub")
    variants = ["", "_", "x", "x_", "x_y", "cat", "cat_", "_" * 3, "x" * 40, u[:5], "cat" + u, "cat-" + u, "cat_" + u + "x", "cat_" + u + "_", name + " ", name + "_more", "cat_" + u[:16] + "_" + u[16:], name + "." + "attr"]
    for k in range(0, 45):
        if k != 32:
            variants.append("cat_" + (u + u)[:k])
    for pos in range(32):
        for c in "gz G-+.xé\t٣_":
            variants.append("cat_" + u[:pos] + c + u[pos + 1:])
    for pre in ("0x", "0X", "+", "-", " ", "\n"):
        variants.append("cat_" + pre + u[len(pre):])
    variants += ["cat_" + " " * 31 + "a", "cat_a" + " " * 31, "cat_" + "1_" * 16]
    for v in variants:
        got = scrub_uuid(v)
        ctx.step()
        ctx.state(v)
        # a variant may by chance contain a generated name's form after another underscore: not here, by construction
        if not ctx.check(got == v, f"scrub_uuid({v!r}) = {got!r}: not a generated name, but changed"):
            return
        ctx.trace()
    for v in ("x", "_x", "x_", "__", "a.b", "x y", "1", name):
        g = gensym(v)
        if not ctx.check(scrub_uuid(g) == v, f"scrub_uuid(gensym({v!r})) = {scrub_uuid(g)!r}"):
            return


def lists(depth, size, leaves):
    """nested lists"""
    if depth == 0:
        for k in range(size + 1):
            for c in itertools.product(leaves, repeat=k):
                yield list(c)
        return
    inner = list(leaves) + list(lists(depth - 1, 2 if depth > 1 else size, leaves))
    for k in range(size + 1):
        for c in itertools.product(inner, repeat=k):
            yield list(c)


def ref_flatten(x):
    out = []
    for e in x:
        if isinstance(e, list):
            out += ref_flatten(e)
        elif e is not None:
            out.append(e)
    return out


def run_flatten(n, shape, ctx):
    tup = (1, None, [2])
    node = ast.Name(id="x")
    if shape == 0:
        gen = lists(0, n, [1, None, 0, "", tup, node, False])
    elif shape == 1:
        gen = lists(1, 2, [1, None, node])
    else:
        gen = lists(2, 2, [1, None])
    for x in gen:
        before = repr(x)
        got = flatten(x)
        want = ref_flatten(x)
        ctx.step()
        ctx.state(before)
        ok = ctx.check(isinstance(got, list) and len(got) == len(want) and all(a is b or a == b and type(a) is type(b) for a, b in zip(got, want)), lambda: f"flatten({x!r}) = {got!r}, want {want!r}")
        ok = ok and ctx.check(repr(x) == before and got is not x, f"flatten changed its input {before}")
        ok = ok and ctx.check(flatten(x, recursive=True) == want, "recursive=True is the default")
        if ok and not any(isinstance(e, list) and None in e for e in x):
            w1 = []
            for e in x:
                if isinstance(e, list):
                    w1 += e
                elif e is not None:
                    w1.append(e)
            ok = ctx.check(flatten(x, recursive=False) == w1, lambda: f"flatten({x!r}, recursive=False) = {flatten(x, recursive=False)!r}, want {w1!r}")
        if not ok:
            return
        ctx.trace()


def run_extract(ctx):
    def f(): pass
    def g(): pass
    def h(): pass
    class K:
        def __call__(self): pass
    k = K()
    funcs = [f, g, h, k]
    names = ["f", "g", "f2", "other"]
    for table in itertools.product([None] + funcs, repeat=len(names)):
        b = {n: t for n, t in zip(names, table) if t is not None}
        for r in range(0, 4):
            for sel in itertools.product(funcs, repeat=r) if r < 3 else itertools.combinations(funcs, 3):
                before = dict(b)
                got = extract_bindings(b, *sel)
                want = {n: t for n, t in b.items() if any(t is s for s in sel)}
                ctx.step()
                if not ctx.check(type(got) is dict and got == want and list(got) == list(want) and b == before and got is not b, lambda: f"extract_bindings({before}, {sel}) = {got}, want {want}"):
                    return
                ctx.trace()
        ctx.state([n for n in b])


def pyfuture(text):
    """Which statements of the module beginning does Python take as future-imports? By the compiler."""
    try:
        compile(text, "<m>", "exec")
        return True
    except SyntaxError:
        return False


def run_body(i, n, ctx):
    for k in range(0, n):
        for rest in itertools.product(range(len(STMTS)), repeat=k):
            if k >= 3 and sum(r in (0, 1, 4, 13, 14, 15) for r in rest) < k - 1:
                continue
            stmts = [STMTS[i]] + [STMTS[r] for r in rest]
            text = "\n".join(stmts) + "\n"
            mod = ast.parse(text)
            ctx.state(text)
            ctx.step()
            doc = ast.get_docstring(mod, clean=False)
            got = getdocstring(mod.body)
            if not ctx.check(got == doc and (got is None) == (doc is None), f"getdocstring of {text!r}: {got!r}, Python's: {doc!r}"):
                return
            body = ast.parse(text).body
            orig = list(body)
            r = split_futureimports(body)
            ok = ctx.check(len(r) == 3 and all(isinstance(x, list) for x in r), f"split_futureimports of {text!r}: {r!r}")
            d, f, b = r
            ok = ok and ctx.check([id(s) for s in d + f + b] == [id(s) for s in orig], f"split_futureimports of {text!r}: statements lost or reordered: {[ast.unparse(s) for s in d + f + b]}")
            ok = ok and ctx.check(len(d) == (doc is not None), f"split_futureimports of {text!r}: docstring part {[ast.unparse(s) for s in d]}")
            want = 0
            j = len(d)
            while j + want < len(orig) and isinstance(orig[j + want], ast.ImportFrom) and orig[j + want].module == "__future__":
                want += 1
            ok = ok and ctx.check(len(f) == want, f"split_futureimports of {text!r}: future part {[ast.unparse(s) for s in f]}")
            ok = ok and ctx.check([isfutureimport(s) for s in orig] == [isinstance(s, ast.ImportFrom) and s.module == "__future__" for s in orig], f"isfutureimport in {text!r}")
            if not ok:
                return
            ctx.trace()
            # injected code keeps the module valid: Python still sees docstring and future-imports
            for stmts2 in ([], ast.parse("injected = 1").body, ast.parse("'''not a doc'''\ninjected = 2").body):
                if stmts2 and isinstance(stmts2[0], ast.Expr) and doc is None and not f:
                    continue
                body = ast.parse(text).body
                arg = stmts2[0] if len(stmts2) == 1 else stmts2
                res = inject_after_futureimports(arg, body)
                ctx.step()
                want = canon(orig[:len(d) + len(f)] + stmts2 + orig[len(d) + len(f):])
                if not ctx.equal(canon(res), want, f"inject_after_futureimports into {text!r}"):
                    return
                if pyfuture(text):
                    ctx.outcome(text)
                    m2 = ast.fix_missing_locations(ast.Module(body=ast.parse("\n".join(ast.unparse(s) for s in res)).body, type_ignores=[]))
                    if not ctx.check(ast.get_docstring(m2, clean=False) == doc and pyfuture("\n".join(ast.unparse(s) for s in res)), f"inject_after_futureimports into {text!r} breaks the module: {[ast.unparse(s) for s in res]}"):
                        return
    if i == 0:
        ctx.check(getdocstring(None) is None and getdocstring([]) is None, "no body")
        ctx.check(split_futureimports([]) == [[], [], []] or split_futureimports([]) == ([], [], []), "split of an empty body")
        for bad in ("x", ast.parse("'a'"), ("a",)):
            try:
                getdocstring(bad)
                ctx.fail(f"getdocstring({bad!r}) accepted")
            except TypeError:
                pass
        for bad in (("x", []), ([], "x"), (1, []), ([], ast.parse("x"))):
            try:
                inject_after_futureimports(*bad)
                ctx.fail(f"inject_after_futureimports{bad!r} accepted")
            except TypeError:
                pass


class Boom(Exception):
    pass


LOPS = [("set", 0), ("set", 3), ("by", 1), ("by", -1), ("raise",), ("bad",)]


def programs(n):
    """Blocks: lists of ops; a context op has a sub-block. All of at most n ops in total."""
    if n == 0:
        yield []
        return
    yield []
    for op in LOPS:
        if op[0] in ("raise", "bad"):
            for rest in programs(n - 1):
                yield [op] + rest
        else:
            for k in range(0, n):
                for sub in programs_exact(k):
                    for rest in programs(n - 1 - k):
                        yield [(op, sub)] + rest


_exact = {}


def size(p):
    return sum(1 + (size(x[1]) if isinstance(x[0], tuple) else 0) for x in p)


def programs_exact(n):
    if n not in _exact:
        _exact[n] = [p for p in programs(n) if size(p) == n]
    return _exact[n]


def run_level(n, part, ctx):
    start = part % 3
    catch = part // 3  # exceptions are caught: around every block, or only at the outermost level
    for p in programs(n - 1 if n > 3 else n):
        t = NestingLevelTracker(start)
        log = []
        mlog = []
        other = NestingLevelTracker()
        def real(block):
            for x in block:
                log.append(t.value)
                if x[0] == "raise":
                    raise Boom
                if x[0] == "bad":
                    for bad in (-1, "1", 1.0, None):
                        try:
                            with t.set_to(bad):
                                log.append("entered")
                        except (TypeError, ValueError) as e:
                            log.append(type(e).__name__)
                        log.append(t.value)
                    continue
                (op, v), sub = x
                try:
                    try:
                        cm = t.set_to(v) if op == "set" else t.changed_by(v)
                    except ValueError:
                        log.append("ValueError")
                        continue
                    with cm:
                        log.append(t.value)
                        real(sub)
                        log.append(t.value)
                except Boom:
                    log.append(("caught", t.value))
                    if not catch:
                        raise
                log.append(t.value)
        def model(block, level):
            for x in block:
                mlog.append(level)
                if x[0] == "raise":
                    raise Boom
                if x[0] == "bad":
                    for e in ("ValueError", "TypeError", "TypeError", "TypeError"):
                        mlog.append(e)
                        mlog.append(level)
                    continue
                (op, v), sub = x
                new = v if op == "set" else level + v
                try:
                    if new < 0:
                        mlog.append("ValueError")
                        continue
                    mlog.append(new)
                    model(sub, new)
                    mlog.append(new)
                except Boom:
                    mlog.append(("caught", level))
                    if not catch:
                        raise
                mlog.append(level)
        for f, a in ((real, ()), (model, (start,))):
            try:
                f(p, *a)
            except Boom:
                (log if f is real else mlog).append("out")
        log.append(t.value)
        mlog.append(start)
        ctx.step(len(log))
        ctx.state((start, catch, repr(p)))
        ctx.outcome(mlog[-3:])
        if not ctx.equal(log, mlog, f"start={start} catch={catch} program {p}"):
            return
        if not ctx.check(other.value == 0, "another tracker changed"):
            return


def run_level_errors(ctx):
    t = NestingLevelTracker()
    ctx.check(t.value == 0, "default start")
    try:
        t.value = 3
        ctx.fail("value is writable")
    except AttributeError:
        pass
    for delta in (-1, -5):
        try:
            with t.changed_by(delta):
                ctx.fail("negative level accepted")
        except ValueError:
            pass
        ctx.check(t.value == 0, "level after a rejected change")
    # an exception of any kind, and leaving by return, break, continue, generator close
    def f():
        with t.set_to(4):
            return t.value
    ctx.check(f() == 4 and t.value == 0, "return")
    for x in (1, 2):
        with t.changed_by(x):
            if x == 1:
                continue
            break
    ctx.check(t.value == 0, "break, continue")
    def g():
        with t.set_to(7):
            yield t.value
    it = g()
    ctx.check(next(it) == 7 and t.value == 7, "generator")
    it.close()
    ctx.check(t.value == 0, "generator close")
    for exc in (KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, BaseException):
        try:
            with t.set_to(1):
                raise exc
        except exc:
            pass
        except RuntimeError:  # StopIteration
            pass
        ctx.check(t.value == 0, f"after {exc}")
        ctx.step()
    ctx.state("errors")


def run_lineno(ctx):
    n = ast.Name(id="x")
    ctx.check(get_lineno(n) is None, "no line number")
    loc = ast.parse("\n\nx").body[0]
    for tree, want in ((loc, 3), ([loc], 3), (Done(loc), 3), (Done([loc]), 3), (ast.Expr(value=loc.value), 3), ([ast.Pass(), loc], 3), ([], None), (ast.Expr(value=n), None), (Done(ast.Expr(value=Done(loc.value))), 3), (None, None), (ast.Module(body=[ast.Pass(), loc], type_ignores=[]), 3)):
        got = get_lineno(tree)
        ctx.step()
        ctx.check(got == want, f"get_lineno({ast.dump(tree) if isinstance(tree, ast.AST) else tree}) = {got}, want {want}")
        ctx.trace()
    ctx.state("lineno")


def run_case(case, ctx):
    {"gensym-random": run_gensym_random, "gensym-histories": run_gensym_histories, "scrub": run_scrub, "flatten": run_flatten, "extract": run_extract, "body": run_body, "level": run_level,
     "level-errors": run_level_errors, "lineno": run_lineno}[case[0]](*case[1:], ctx)
