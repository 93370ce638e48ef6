"""Projects with macro and dialect dependencies, for C06 and C07: sources by variant, and what each module must compute."""

LOG = "import builtins\ndef log(*a):\n    builtins.MCLOG.append(a)\n"


def macro(name, value, uses=""):
    return f"def {name}(tree, *, expander, **kw):\n    log({name!r}, expander.filename)\n    return ast.Constant(value={value}{uses})\n"


class Project:
    """files: {path: {variant: source}}; first variant listed is the initial one.
    modules: {name: path}; expect(name, c): value of `r`, c: {path: variant}; deps(path, c): project files `path` macro-imports;
    users(name, c): files that importing the module compiles (if not cached)."""
    def __init__(self, name, files, modules, expect, deps):
        self.name, self.files, self.modules, self.expect, self.deps = name, files, modules, expect, deps

    def initial(self):
        return {p: next(iter(v)) for p, v in self.files.items()}

    def closure(self, path, c):
        out, todo = set(), [path]
        while todo:
            p = todo.pop()
            if p not in out:
                out.add(p)
                todo += self.deps(p, c)
        return out


PROJECTS = {}


def add(*a):
    p = Project(*a)
    PROJECTS[p.name] = p


# --- a chain of macro definition modules, with a shortcut
_mac2 = {v: f"import ast\n{LOG}{macro('g', repr('g' + v))}r = 'mac2{v}'\n" for v in "AB"}
_mac1 = {v: f"from mac2 import macros, g\nimport ast\n{LOG}V = g[0]\n{macro('f', repr('f' + v + '+'), ' + V')}r = ('mac1{v}', V)\n" for v in "AB"}
_mac1["N"] = f"import ast\n{LOG}{macro('f', repr('fN'))}r = ('mac1N',)\n"
_m = {"A": "from mac1 import macros, f\nr = ('mA', f[0])\n", "B": "'''doc'''\nfrom mac1 import macros, f as f2\nr = ('mB', f2[0])\n",
      "D": "import os\nfrom mac2 import macros, g\nfrom mac1 import macros, f\nr = ('mD', f[0], g[0])\n", "P": "r = ('mP',)\n"}


def _e(name, c):
    g = "g" + c["mac2.py"]
    v1 = c["mac1.py"]
    f = "fN" if v1 == "N" else f"f{v1}+{g}"
    if name == "mac2":
        return "mac2" + c["mac2.py"]
    if name == "mac1":
        return ("mac1" + v1,) + (() if v1 == "N" else (g,))
    return {"A": ("mA", f), "B": ("mB", f), "D": ("mD", f, g), "P": ("mP",)}[c["m.py"]]


def _d(p, c):
    if p == "m.py":
        return {"A": ["mac1.py"], "B": ["mac1.py"], "D": ["mac1.py", "mac2.py"], "P": []}[c[p]]
    return ["mac2.py"] if p == "mac1.py" and c[p] != "N" else []


add("chain", {"m.py": _m, "mac1.py": _mac1, "mac2.py": _mac2}, {"m": "m.py", "mac1": "mac1.py"}, _e, _d)


# --- a dialect with all three stages and unparseable surface syntax, that uses a macro, and injects it into the user's module
def _dia(v, uses):
    imp = "from mac2 import macros, g\n" if uses else ""
    val = " + V" if uses else ""
    inject = "\n        tree.body[:0] = ast.parse('from mac2 import macros, g').body" if uses else ""
    return f"""{imp}import ast
from mcpyrate.dialects import Dialect
{LOG}
V = {'g[0]' if uses else "''"}
class R(ast.NodeTransformer):
    def __init__(self, d):
        self.d = d
    def visit_Constant(self, t):
        return ast.copy_location(ast.Constant(value=self.d.get(t.value, t.value)), t) if type(t.value) is str else t
class D(Dialect):
    def transform_source(self, text):
        log('source', self.expander.filename)
        return text.replace('§', "'s{v}'")
    def transform_ast(self, tree):
        log('ast', self.expander.filename)
        tree = R({{'AST': 'a{v}'{val}}}).visit(tree){inject}
        return tree
    def postprocess_ast(self, tree):
        log('post', self.expander.filename)
        return R({{'POST': 'p{v}'}}).visit(tree)
r = 'dia{v}'
"""


_dm = {"A": "from dia import dialects, D\nr = ('A', §, 'AST', 'POST')\n", "B": "'''doc'''\nfrom dia import dialects, D\nr = ('B', 'AST', 'POST')\n",
       "G": "from dia import dialects, D\nfrom mac2 import macros, g as gg\nr = ('G', §, gg[0])\n", "P": "r = ('P', 'AST')\n"}


def _e2(name, c):
    g, v = "g" + c["mac2.py"], c["dia.py"]
    s, a, p = "s" + v[0], "a" + v[0] + (g if v == "U" else ""), "p" + v[0]
    if name == "dia":
        return "dia" + v
    return {"A": ("A", s, a, p), "B": ("B", a, p), "G": ("G", s, g), "P": ("P", "AST")}[c["m.py"]]


def _d2(p, c):
    if p == "m.py":
        return {"A": ["dia.py"], "B": ["dia.py"], "G": ["dia.py", "mac2.py"], "P": []}[c[p]]
    return ["mac2.py"] if p == "dia.py" and c[p] == "U" else []


add("dialect", {"m.py": _dm, "dia.py": {"A": _dia("A", False), "U": _dia("U", True), "B": _dia("B", False)}, "mac2.py": _mac2}, {"m": "m.py", "dia": "dia.py"}, _e2, _d2)


# --- packages and relative macro-imports; macros defined in a package's __init__
_base = {v: f"import ast\n{LOG}{macro('b', repr('b' + v))}r = 'base{v}'\n" for v in "AB"}
_deep = {v: f"from ...base import macros, b\nimport ast\n{LOG}V = b[0]\n{macro('g', repr('g' + v + '+'), ' + V')}r = V\n" for v in "AB"}
_deep["X"] = f"from mcpyrate.quotes import macros, q, u\nfrom ...base import macros, b as bb\nimport ast\n{LOG}def g(tree, *, expander, **kw):\n    log('g', expander.filename)\n    return q[u[bb[0]]]\nr = 0\n"
_init = {v: f"from .sub.deep import macros, g\nimport ast\n{LOG}{macro('i', repr('i' + v))}r = g[0]\n" for v in "A"}
_init["B"] = f"import ast\n{LOG}{macro('i', repr('iB'))}r = 0\n"
_pm = {"A": "from .pk.sub.deep import macros, g\nr = ('A', g[0])\n", "B": "'''doc'''\nfrom .pk import macros, i\nr = ('B', i[0])\n"}


def _e3(name, c):
    t = {"pp/m.py": "m", "pp/pk/__init__.py": "i", "pp/pk/sub/deep.py": "d", "pp/base.py": "b"}
    c = {v: c[k] for k, v in t.items()}
    b = "b" + c["b"]
    g = b if c["d"] == "X" else "g" + c["d"] + "+" + b
    if name == "pp.m":
        return ("A", g) if c["m"] == "A" else ("B", "i" + c["i"])
    return g if c["i"] == "A" else 0


def _d3(p, c):
    if p == "pp/m.py":
        return ["pp/pk/sub/deep.py"] if c[p] == "A" else ["pp/pk/__init__.py"]
    if p == "pp/pk/__init__.py":
        return ["pp/pk/sub/deep.py"] if c[p] == "A" else []
    return ["pp/base.py"] if p == "pp/pk/sub/deep.py" else []


add("package", {"pp/__init__.py": {"A": ""}, "pp/pk/sub/__init__.py": {"A": ""}, "pp/m.py": _pm, "pp/pk/__init__.py": _init, "pp/pk/sub/deep.py": _deep, "pp/base.py": _base},
    {"pp.m": "pp/m.py", "pp.pk": "pp/pk/__init__.py"}, _e3, _d3)


# --- multi-phase modules: macro-imports inside phases, local macros, lifted code
_ph = {
    "A": f"""from mcpyrate.multiphase import macros, phase
with phase[1]:
    from mac2 import macros, g
    import ast
{''.join('    ' + x + chr(10) for x in LOG.splitlines())}    W = g[0]
    def loc(tree, *, expander, **kw):
        log('loc', expander.filename)
        return ast.Constant(value='locA' + W)
from __self__ import macros, loc
r = ('A', loc[0], W)
""",
    "B": f"""from mcpyrate.multiphase import macros, phase
with phase[2]:
    from mac2 import macros, g
    W = g[0]
with phase[1]:
    from hid import macros, h
    import ast
{''.join('    ' + x + chr(10) for x in LOG.splitlines())}    def loc(tree, *, expander, **kw):
        log('loc', expander.filename)
        return ast.Constant(value='locB' + h[0])
from __self__ import macros, loc
r = ('B', loc[0], W)
""",
    "P": "with open(__file__) as f:\n    from hid import macros, h\nr = ('P',)\n",
}
_hid = {v: f"import ast\n{LOG}{macro('h', repr('h' + v))}macros = None\nr = 0\n" for v in "AB"}


def _e4(name, c):
    g, h = "g" + c["mac2.py"], "h" + c["hid.py"]
    return {"A": ("A", "locA" + g, g), "B": ("B", "locB" + h, g), "P": ("P",)}[c["m.py"]]


def _d4(p, c):
    return {"A": ["mac2.py"], "B": ["mac2.py", "hid.py"], "P": []}[c[p]] if p == "m.py" else []


add("phases", {"m.py": _ph, "mac2.py": _mac2, "hid.py": _hid}, {"m": "m.py"}, _e4, _d4)


# --- quotes: a macro of one module expands to captured values and macros of others
def _qm(v):
    return f"""from mcpyrate.quotes import macros, q, h, u
from mac2 import macros, g
import ast
import base
{LOG}
def helper():
    return 'help{v}' + base.r
CONST = ['c{v}']
def f(tree, *, expander, **kw):
    log('f', expander.filename)
    return q[(h[helper](), h[CONST], h[g][0], u['u{v}'])]
r = 'qm{v}'
"""


_qu = {"A": "from qm import macros, f\nr = ('A', f[0])\n", "B": "from qm import macros, f\ndef fn():\n    return f[1], f[2]\nr = ('B', fn())\n"}


def _e5(name, c):
    v = c["qm.py"]
    f = ("help" + v + "base" + c["base.py"], ["c" + v], "g" + c["mac2.py"], "u" + v)
    if name == "qm":
        return "qm" + v
    return ("A", f) if c["m.py"] == "A" else ("B", (f, f))


def _d5(p, c):
    return {"m.py": ["qm.py"], "qm.py": ["mac2.py"]}.get(p, [])


add("quotes", {"m.py": _qu, "qm.py": {v: _qm(v) for v in "AB"}, "mac2.py": _mac2, "base.py": _base}, {"m": "m.py", "qm": "qm.py"}, _e5, _d5)
