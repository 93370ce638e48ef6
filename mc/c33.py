"""C33: what a module expands to does not depend on what the process has imported or compiled before.

Every sequence (to a depth) of importing, re-expanding and run-time compiling the modules of a small world - macros of the same
names in several modules, equal module names in several packages, dialects, phases, captures, generated names, failing
modules - is executed in a fresh process; the code each module compiles to and what it computes must be those of a process
that did nothing else before.
"""
import importlib
import importlib.util
import os
import re
import shutil
import sys
import types

from .c32 import describe, diff
from .proc import ChildDied, UUID, ANSI, forked

LEVEL = "model_checking"
RULE = ("every sequence of up to 3 (thorough: 4) operations over a world of 20 modules and programs (same macro names with different meanings, same module names in different packages, dialects, phases, captured values and macros, generated names, run-time expansion, failing expansions); "
        "state: sequence, i.e. set and order of what is loaded; transition: expanding, importing and running one module; comparison: the code object (generated names numbered) and the computed values with those of a process that does only this")
BUDGET = {"quick": 600, "thorough": 3000}
TIMEOUT = 300
ASSUMPTIONS = ["a fresh process is a fork of one that has imported only mcpyrate"]

FILES = {
    "base1.py": "from mcpyrate.quotes import macros, q, a\ndef base(tree, **kw):\n    return q[('base1', a[tree])]\n",
    "base2.py": "from mcpyrate.quotes import macros, q, a\ndef base(tree, **kw):\n    return q[('base2', a[tree])]\n",
    "ma.py": '''
import ast
from mcpyrate import gensym, namemacro, parametricmacro
from mcpyrate.utils import rename
from mcpyrate.quotes import macros, q, u, n, a, s, h
from mcpyrate.quotes import capture_as_macro
K = ["ma's"]
def helper(x):
    return ("ma", x)
def foo(tree, **kw):
    return q[("ma.foo", a[tree])]
@namemacro
def bar(tree, *, syntax, **kw):
    return q["ma.bar"] if syntax == "name" else q[("ma.bar", a[tree])]
@parametricmacro
def par(tree, *, args, **kw):
    return q[("ma.par", t[args], a[tree])] if args else q[("ma.par", a[tree])]
def val(tree, **kw):
    return q[(h[K], h[helper](a[tree]))]
def hyg(tree, **kw):
    return q[h[base][a[tree]]]
def gen(tree, **kw):
    x = gensym("x")
    return rename("zz", x, q[(lambda zz: (zz, a[tree]))(1)])
def blk(tree, **kw):
    with q as out:
        before = 1
        with a:
            tree
        after = 2
    return out
def drop(tree, **kw):
    return None
def priv(tree, **kw):
    return q[("ma.priv", a[tree])]
PRIV = capture_as_macro(priv)
def cap(tree, **kw):
    return q[a[PRIV][a[tree]]]
'''.replace("u, n, a, s, h\n", "u, n, a, s, t, h\nfrom base1 import macros, base\n"),
    "mb.py": '''
import ast
from mcpyrate.quotes import macros, q, u, a, h
from mcpyrate.quotes import capture_as_macro
from ma import macros, hyg as inner
from base2 import macros, base
K = ["mb's"]
def helper(x):
    return ("mb", x)
def foo(tree, **kw):
    return q[("mb.foo", a[tree])]
def bar(tree, **kw):
    return q[("mb.bar", a[tree])]
def val(tree, **kw):
    return q[(h[K], h[helper](a[tree]))]
def hyg(tree, **kw):
    return q[(h[base][a[tree]], h[inner][a[tree]])]
def x(tree, **kw):
    return q[("mb.x", a[tree])]
def priv(tree, **kw):
    return q[("mb.priv", a[tree])]
def cap(tree, **kw):
    return q[a[capture_as_macro(priv)][a[tree]]]
''',
    "use_a.py": '''
from ma import macros, foo, bar, par, val, hyg, gen, blk, drop, cap
def r():
    x = 3
    with blk:
        y = foo[x]
    return foo[x], bar, bar[x], par[x], par[1, 2][x], val[x], hyg[x], gen[x], y, before, after, drop[x], cap[x], [cap[y]]
''',
    "use_b.py": '''
from mb import macros, foo, bar, val, hyg as par, cap
def r():
    x = 4
    drop = gen = {4: "not a macro"}
    return foo[x], bar[x], val[x], par[x], drop[x], gen[x], cap[x]
''',
    "use_as.py": '''
from ma import macros, foo as bar, bar as foo
from mb import macros, foo as x
def r():
    K = y = 5
    return foo, foo[y], bar[y], x[y], K
''',
    "use_none.py": '''
import ma
def r():
    foo = bar = par = val = hyg = x = q = a = u = h = priv = cap = base = {6: "plain"}
    return foo[6], bar[6], bar, par[6], val[6], hyg[6], x[6], q[6], a[6], u[6], h[6], priv[6], cap[6], base[6]
''',
    "p1/__init__.py": "P = 1\n",
    "p2/__init__.py": "P = 2\n",
    "p1/util.py": "from mcpyrate.quotes import macros, q, a, h\nfrom . import P\ndef foo(tree, **kw):\n    return q[('p1', h[P], a[tree])]\n",
    "p2/util.py": "from mcpyrate.quotes import macros, q, a, h\nfrom . import P\ndef foo(tree, **kw):\n    return q[('p2', h[P], a[tree])]\n",
    "p1/use.py": "from .util import macros, foo\ndef r():\n    return foo[1], __name__\n",
    "p2/use.py": "from .util import macros, foo\ndef r():\n    return foo[1], __name__\n",
    "dial.py": '''
import ast
from mcpyrate.dialects import Dialect
from mcpyrate.splicing import splice_dialect
class Src(Dialect):
    def transform_source(self, text):
        return text.replace("FOO", "'from Src'")
class Tree(Dialect):
    def transform_ast(self, tree):
        template = ast.parse("from mb import macros, foo\\n__paste_here__").body
        tree.body = splice_dialect(tree.body, template, lineno=self.lineno, col_offset=self.col_offset)
        return tree
''',
    "use_src.py": "from dial import dialects, Src\ndef r():\n    return FOO\n",
    "use_tree.py": "from dial import dialects, Tree\ndef r():\n    return foo[1]\n",
    "phased.py": '''
from mcpyrate.multiphase import macros, phase
with phase[1]:
    from mcpyrate.quotes import macros, q, a, h
    C = ["phase"]
    def foo(tree, **kw):
        return q[("phased", h[C], a[tree])]
from __self__ import macros, foo
def r():
    return foo[2], C, __name__
''',
    "phased2.py": '''
from mcpyrate.multiphase import macros, phase
with phase[2]:
    from mcpyrate.quotes import macros, q, a
    def bar(tree, **kw):
        return q[("phase 2", a[tree])]
with phase[1]:
    from mcpyrate.quotes import macros, q, a
    from __self__ import macros, bar
    def foo(tree, **kw):
        return q[("phase 1", a[tree], bar[3])]
from __self__ import macros, foo, bar
def r():
    return foo[bar[2]]
''',
    "quoted.py": '''
from mcpyrate.quotes import macros, q, u, a, n, h
from mcpyrate.metatools import macros, expandsq, expandrq, expand1s
from ma import macros, foo, hyg
from mcpyrate import unparse
from mcpyrate.compiler import run, create_module, temporary_module
import ast
def ev(tree):
    return eval(compile(ast.fix_missing_locations(ast.Expression(tree)), "<quoted>", "eval"), {"x": 7})
def r():
    tree = expandsq[foo[x]]
    late = expandrq[foo[x]]
    deep = q[q[u[1], foo[x]]]
    with temporary_module("zz_tmp", filename="zz_tmp.py") as m:
        run("from ma import macros, foo as foo2\\nout = foo2[1]", m)
        out = m.out
    return ev(tree), unparse(late), unparse(tree), unparse(deep), out
''',
    "failing.py": "from ma import macros, foo, hyg\nfrom bad import macros, boom\ndef r():\n    return foo[hyg[boom[1]]]\n",
    "bad.py": "from mcpyrate.quotes import macros, q, u\ndef boom(tree, *, expander, **kw):\n    with_quote = q[1]\n    raise ValueError('boom')\n",
    "failquote.py": "from mcpyrate.quotes import macros, q, u\ndef r():\n    return q[q[u[n[1]]]] if u[1] else 1\n",
    "failphase.py": "from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    def foo(tree, **kw):\n        return tree\n    raise ValueError('in phase 1')\nfrom __self__ import macros, foo\nr = foo[1]\n",
    "debugged.py": '''
from mcpyrate.debug import macros, step_expansion
from mcpyrate.metatools import macros, expand_first
from ma import macros, foo, hyg
def r():
    with expand_first[foo]:
        z = hyg[foo[1]]
    return step_expansion["dump"][hyg[foo[2]]], z
''',
}
PROGRAMS = {
    "run1": ("from ma import macros, foo, val\nresult = (foo[1], val[2])", None),
    "run2": ("from mb import macros, foo, val\nresult = (foo[1], val[2])", None),
    "run3": ("foo = {1: 'plain'}\nresult = foo[1]", None),
}
MODULES = ["use_a", "use_b", "use_as", "use_none", "p1.use", "p2.use", "use_src", "use_tree", "phased", "phased2", "quoted", "failing", "failquote", "failphase", "debugged", "ma", "mb"]
OPS = MODULES + sorted(PROGRAMS)


CAPTURE = re.compile(r"(?<=\.#)[0-9]+(?=['\"]$)")  # in a captured value (shown by repr): the number of the capture


def number_of(x, seen):
    return f"#{seen.setdefault(x, len(seen))}"


def number(x, seen):
    """generated names and keys by order of appearance"""
    if isinstance(x, str):
        x = CAPTURE.sub(lambda m: number_of(m.group(0), seen), x)
        return UUID.sub(lambda m: number_of(m.group(0), seen), ANSI.sub("", x))
    if isinstance(x, tuple):
        return tuple(number(y, seen) for y in x)
    if isinstance(x, (list, dict)):
        return number(repr(x), seen)
    return x


def perform(op):
    """-> (code, value)"""
    from mcpyrate import compiler
    seen = {}
    try:
        if op in PROGRAMS:
            name = "prog_" + op
            path = os.path.join(os.getcwd(), name + ".py")
            code = compiler.compile(PROGRAMS[op][0], path)
            m = types.ModuleType(name)
            m.__file__ = path
            compiler.run(PROGRAMS[op][0], m)
            value = m.result
        else:
            code = importlib.util.find_spec(op).loader.get_code(op)
            m = importlib.import_module(op)
            value = m.r() if hasattr(m, "r") else sorted(k for k in vars(m) if not k.startswith("__"))
        return number(describe(code), seen), number(repr(value), seen)
    except Exception as e:
        chain = []
        while e is not None and len(chain) < 12:
            chain.append((type(e).__name__, str(e)))
            e = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
        return "error", number(tuple(chain), seen)


def explore(ops, depth, first):
    """in this (fresh) process: perform `first`, then, in forks, each operation, to the depth -> list of (sequence, record)"""
    with open(os.devnull, "w") as null:
        keep, sys.stderr = sys.stderr, null
        rec = perform(first)
        sys.stderr = keep
    out = [((first,), rec)]
    if depth > 1:
        for op in ops:
            for seq, r in forked(explore, ops, depth - 1, op, timeout=250):
                out.append(((first,) + seq, r))
    return out


def start(ops, depth, first, then):
    """the sequences that begin with `first`, `then`"""
    build()
    with open(os.devnull, "w") as null:
        keep, sys.stderr = sys.stderr, null
        rec = perform(first)
        sys.stderr = keep
    if then is None:
        return [((first,), rec)]
    return [((first,) + s, r) for s, r in explore(ops, depth - 1, then)]


def build():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = None
    sys.path.insert(0, os.path.join(os.getcwd(), "c33"))
    importlib.invalidate_caches()


ALONE = None


def setup():
    global ALONE
    d = os.path.join(os.getcwd(), "c33")
    shutil.rmtree(d, ignore_errors=True)
    for f, text in FILES.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as out:
            out.write(text)
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.debug  # noqa: F401
    import mcpyrate.dialects  # noqa: F401
    import mcpyrate.metatools  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    import mcpyrate.quotes  # noqa: F401
    ALONE = {op: forked(start, OPS, 1, op, None)[0][1] for op in OPS}


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for op in OPS:
        yield ["alone", op]
    for a in OPS:
        for b in OPS:
            yield [depth, a, b]


def run_case(case, ctx):
    if case[0] == "alone":
        op = case[1]
        ctx.state((op,))
        ctx.step()
        code, value = ALONE[op]
        if op.startswith("fail"):
            ctx.check(code == "error", f"{op}: {value}")
        else:
            ctx.check(code != "error", f"{op} alone: {value}")
            if op in WANT:
                ctx.equal(value, WANT[op], f"{op} alone: value")
        return
    depth, a, b = case
    try:
        records = forked(start, OPS, depth, a, b, timeout=280)
    except ChildDied as e:
        ctx.fail(f"after {a}, {b}: {e}")
        return
    for seq, (code, value) in records:
        ctx.state(seq)
        ctx.step()
        wcode, wvalue = ALONE[seq[-1]]
        what = f"{seq[-1]} after {', '.join(seq[:-1])}"
        if not ctx.check(value == wvalue, lambda: f"{what}: gives {value}; alone: {wvalue}"):
            return
        # the run-time expansion tools take all macros captured so far along
        if seq[-1] != "quoted" and not ctx.check(code == wcode, lambda: f"{what}: compiles to something else than alone: {str(diff(code, wcode))[:500]}"):
            return


WANT = {
    "use_a": "(('ma.foo', 3), 'ma.bar', ('ma.bar', 3), ('ma.par', 3), ('ma.par', (1, 2), 3), ([\"ma's\"], ('ma', 3)), ('base1', 3), (1, 3), ('ma.foo', 3), 1, 2, None, ('ma.priv', 3), [('ma.priv', ('ma.foo', 3))])",
    "use_b": "(('mb.foo', 4), ('mb.bar', 4), ([\"mb's\"], ('mb', 4)), (('base2', 4), ('base1', 4)), 'not a macro', 'not a macro', ('mb.priv', 4))",
    "use_as": "('ma.bar', ('ma.bar', 5), ('ma.foo', 5), ('mb.foo', 5), 5)",
    "use_none": "('plain', 'plain', {6: 'plain'}, 'plain', 'plain', 'plain', 'plain', 'plain', 'plain', 'plain', 'plain', 'plain', 'plain', 'plain')",
    "p1.use": "(('p1', 1, 1), 'p1.use')",
    "p2.use": "(('p2', 2, 1), 'p2.use')",
    "use_src": "'from Src'",
    "use_tree": "('mb.foo', 1)",
    "phased": "(('phased', ['phase'], 2), ['phase'], 'phased')",
    "phased2": "('phase 1', ('phase 2', 2), ('phase 2', 3))",
    "run1": "(('ma.foo', 1), ([\"ma's\"], ('ma', 2)))",
    "run2": "(('mb.foo', 1), ([\"mb's\"], ('mb', 2)))",
    "run3": "'plain'",
    "debugged": "(('base1', ('ma.foo', 2)), ('base1', ('ma.foo', 1)))",
}
