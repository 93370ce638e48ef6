"""C30: activation and post-processors take effect exactly while registered.

Every sequence of operations to a depth, each run in a fresh process, against a model with one boolean (activated) and one list.
"""
import ast
import itertools
import os
import shutil
import sys

from .proc import ChildDied, forked

LEVEL = "model_checking"
RULE = ("every sequence to a depth of: activate, deactivate, import or reload of a macro-using, plain, dialect-using, standard library, bytecode-only, extension module or namespace package, compile by the loader's API; "
        "every sequence to a depth of: add or remove one of three post-processors or an unknown one, expand, nested expand, import, multi-phase or failing compile; each compared with the model after each operation")
BUDGET = {"quick": 600, "thorough": 4000}
TIMEOUT = 120
ASSUMPTIONS = ["bytecode writing is off in activation histories (bytecode is the same file with and without macros; that Python reuses it is documented)"]

FILES = {
    "mac.py": "import ast\ndef f(tree, **kw):\n    return ast.Constant(value='expanded')\n",
    "dia.py": "from mcpyrate.dialects import Dialect\nclass D(Dialect):\n    def transform_source(self, text):\n        return text.replace('plain', 'dialect')\n",
    "use.py": "from mac import macros, f\nr = f[0]\n",
    "useb.py": "try:\n    from mac import macros, f\nexcept ImportError:\n    pass\nr = 'never'\n",
    "dm.py": "from dia import dialects, D\nr = 'plain'\n",
    "pl.py": "x = ['expanded']\nf = {0: 'plain'}\nr = f[0]\n",
    "st.py": "r = (lambda: 'script')()\n",
    "pkg/__init__.py": "from . import sub\nr = sub.r\n",
    "pkg/sub.py": "from mac import macros, f\nr = f['x']\n",
}
OPS = ["A", "D", "use", "pl", "dm", "pkg", "std", "pyc", "ext", "ns", "file", "reload"]


def build(d):
    import py_compile
    for p, s in FILES.items():
        full = os.path.join(d, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write(s)
    os.makedirs(os.path.join(d, "nsp"))
    with open(os.path.join(d, "nsp", "inner.py"), "w") as f:
        f.write(FILES["use.py"])
    with open(os.path.join(d, "only.py"), "w") as f:
        f.write("f = ['compiled']\nr = f[0]\n")
    py_compile.compile(os.path.join(d, "only.py"), cfile=os.path.join(d, "only.pyc"))
    os.remove(os.path.join(d, "only.py"))


def attrs():
    from importlib.machinery import SourceFileLoader as L
    import importlib.machinery as im
    return {"source_to_code": L.source_to_code, "path_stats": L.path_stats, "get_code": L.get_code, "set_data": L.set_data, "get_data": L.get_data, "exec_module": L.exec_module,
            "meta_path": list(sys.meta_path), "path_hooks": list(sys.path_hooks), "import": __import__, "sourceless": im.SourcelessFileLoader.get_code, "ext": im.ExtensionFileLoader.exec_module}


def act_child(d, seq):
    import importlib
    import importlib.util
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = None
    orig = ORIG or attrs()
    last = None
    on = attrs() if ORIG else None
    out = []
    for op in seq:
        res = None
        try:
            if op == "A":
                import mcpyrate.activate as mod
                mod.activate()
            elif op == "I":
                import mcpyrate.activate  # noqa: F401
            elif op == "D":
                mod = sys.modules.get("mcpyrate.activate")
                if mod is not None:
                    mod.deactivate()
            elif op == "reload":
                if last is not None:
                    res = importlib.reload(last).r
            else:
                names = {"std": ["colorsys"], "ext": ["_testcapi", "_bisect", "_json"], "pyc": ["only"], "ns": ["nsp.inner", "nsp"], "pkg": ["pkg", "pkg.sub"], "file": []}.get(op, [op])
                for n in names + ["mac", "dia"]:
                    sys.modules.pop(n, None)
                importlib.invalidate_caches()
                if op == "std":
                    import colorsys
                    res = (colorsys.rgb_to_hsv(0.5, 0.5, 0.5), [len(f.__code__.co_code) for f in (colorsys.rgb_to_hls, colorsys.hls_to_rgb)], colorsys.__spec__.loader.path_stats(colorsys.__file__))
                elif op == "ext":
                    import _bisect
                    import _json
                    res = (_bisect.bisect([1, 2, 3], 2), _json.encode_basestring("x"))
                elif op == "file":
                    spec = importlib.util.spec_from_file_location("byfile", os.path.join(d, "use.py"))
                    m = importlib.util.module_from_spec(spec)
                    spec.loader.exec_module(m)
                    res = m.r
                else:
                    m = importlib.import_module({"pyc": "only", "ns": "nsp.inner"}.get(op, op))
                    res = m.r
                    if op in ("use", "pl", "dm"):
                        last = m
        except BaseException as e:
            res = ("error", type(e).__name__, str(e)[:60])
        now = attrs()
        if on is None and "mcpyrate.activate" in sys.modules:
            on = now
        same = [k for k in now if now[k] == orig[k]]
        out.append((res, sorted(set(now) - set(same)), on is not None and now == on))
    return out


ORIG = None


def act_batch(d, seqs, preload):
    """In one process with macros enabled from the start (as by "A"), or in one where nothing of mcpyrate is loaded."""
    global ORIG
    if preload:
        ORIG = attrs()
        import mcpyrate.activate  # noqa: F401
    return [attempt(act_child, d, s) for s in seqs]


def post_batch(d, seqs):
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    import mcpyrate.activate  # noqa: F401
    import mcpyrate.compiler  # noqa: F401
    import mcpyrate.multiphase  # noqa: F401
    return [attempt(post_child, d, s) for s in seqs]


def attempt(f, *args):
    try:
        return ("ok", forked(f, *args, timeout=60))
    except ChildDied as e:
        return ("died", str(e))


def act_expect(seq, active=None):
    last = None
    loaded = {}
    out = []
    for op in seq:
        res = "any"
        noimp = ("error", "ImportError")
        if op in ("A", "I"):
            active = True if op == "A" or active is None else active
            res = None
        elif op == "D":
            active = False if active is not None else None
            res = None
        elif op in ("use", "file", "ns", "pkg"):
            res = "expanded" if active else noimp
        elif op == "dm":
            res = "dialect" if active else noimp
            active = True if active is None else active  # importing anything of mcpyrate the first time activates it
        elif op == "pl":
            res = "plain"
        elif op == "pyc":
            res = "compiled"
        elif op == "reload":
            res = None if last is None else {"use": "expanded", "dm": "dialect", "pl": "plain"}[last] if active or last == "pl" else noimp
        if op in ("use", "pl", "dm") and not isinstance(res, tuple):
            last = op
        out.append((res, active))
    return out


STDREF = None


def setup():
    global STDREF
    d = os.path.join(os.getcwd(), "c30")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    build(d)
    STDREF = {op: forked(act_child, d, [op])[0][0] for op in ("std", "ext")}


def run_act(seqs, preload, ctx):
    d = os.path.join(os.getcwd(), "c30")
    for seq, (st, got) in zip(seqs, forked(act_batch, d, seqs, preload, timeout=110)):
        ctx.state((preload, seq))
        if st == "died":
            ctx.fail(f"{seq}: {got}")
            continue
        for i, ((res, changed, ison), (want, active), op) in enumerate(zip(got, act_expect(seq, True if preload else None), seq)):
            w = f"after {'(enabled at start) ' if preload else ''}{' '.join(seq[:i + 1])}"
            ctx.step()
            ctx.outcome((op, want, active))
            if op in STDREF:
                ctx.equal(res, STDREF[op], f"{w}: result")
            elif isinstance(want, tuple):
                ctx.check(isinstance(res, tuple) and res[:2] == want, f"{w}: {res!r} instead of an ImportError")
            else:
                ctx.equal(res, want, f"{w}: result")
            if not active:
                ctx.equal(changed, [], f"{w}: import machinery that differs from Python's")
            else:
                ctx.check(ison, f"{w}: import machinery differs from that after the first activation")


# --------------------------------------------------------------------------------
# post-processors

POPS = ["+a", "+b", "+c", "-a", "-b", "-u", "x", "n", "run", "ph", "bad", "l1", "l2", "e"]
LISTS = {"l1": "y = f[1]", "l2": "y = f[1]\nz = inner[f[2]]"}


def mkpost(name, calls):
    def post(tree):
        calls.append((name, type(tree).__name__, ast.dump(tree) if isinstance(tree, ast.AST) else [ast.dump(t) for t in tree]))
        if name == "a":
            return tree
        new = ast.parse(f"seen_{name} = 1").body
        if isinstance(tree, ast.Module):
            if name == "b":
                return ast.Module(body=tree.body + new, type_ignores=[])
            tree.body = tree.body + new
            return tree
        return tree + new if isinstance(tree, list) else tree
    return post


class Poster:
    """The third one is a method: equal to itself, a new object each time it is fetched."""
    def __init__(self, calls):
        self.calls = calls

    def post(self, tree):
        return mkpost("c", self.calls)(tree)


def post_child(d, seq):
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    from mcpyrate.compiler import expand, run
    from mcpyrate.core import add_postprocessor, remove_postprocessor
    from mcpyrate.expander import expand_macros
    import mcpyrate.activate  # noqa: F401
    import mac  # noqa: F401
    calls = []
    poster = Poster(calls)
    P = {"a": mkpost("a", calls), "b": mkpost("b", calls), "u": mkpost("u", calls)}

    def get(k):
        return poster.post if k == "c" else P[k]

    def inner(tree, *, expander, **kw):
        # expansions inside a macro are not top-level ones
        return [expander.visit(tree), expander.visit_recursively(ast.Constant(value=3)), expander.visit_once(ast.Name(id="z", ctx=ast.Load()))][0]
    B = {"inner": inner, "f": mac.f}
    out = []
    for op in seq:
        del calls[:]
        res = None
        try:
            if op[0] == "+":
                add_postprocessor(get(op[1]))
            elif op[0] == "-":
                remove_postprocessor(get(op[1]))
            elif op == "x":
                res = ast.dump(expand_macros(ast.parse("y = f[1]"), dict(B), filename="a.py"))
            elif op in LISTS:
                res = expand_macros(ast.parse(LISTS[op]).body, dict(B), filename="a.py")
                res = [ast.dump(r) for r in res] if isinstance(res, list) else type(res).__name__
            elif op == "e":
                res = ast.dump(expand_macros(ast.parse("f[1]", mode="eval").body, dict(B), filename="a.py"))
            elif op == "n":
                res = ast.dump(expand_macros(ast.parse("y = inner[inner[f[1]]]"), dict(B), filename="a.py"))
            elif op == "run":
                m = run("from mac import macros, f\ny = f[1]")
                res = sorted(k for k in vars(m) if k.startswith("seen"))
            elif op == "ph":
                t = expand("from mcpyrate.multiphase import macros, phase\nwith phase[1]:\n    y = 1\nz = 2\n", "b.py", self_module="selfmod")
                res = type(t).__name__
            elif op == "bad":
                try:
                    expand_macros(ast.parse("y = f[1]\nf[nosuch].x"), {"f": lambda tree, **kw: 1 / 0}, filename="a.py")
                except Exception as e:
                    res = type(e).__name__
        except BaseException as e:
            res = ("error", type(e).__name__, str(e)[:100])
        out.append((res, [c[0] for c in calls], [("f[" in str(c[2]) or "Done" in str(c[2]) or "id='f'" in str(c[2])) for c in calls], [c[1] for c in calls], calls[-1][2] if calls else None))
    return out


def run_post(seqs, ctx):
    d = os.path.join(os.getcwd(), "c30")
    for seq, (st, got) in zip(seqs, forked(post_batch, d, seqs, timeout=110)):
        ctx.state(seq)
        if st == "died":
            ctx.fail(f"{seq}: {got}")
            continue
        reg = []
        for i, (op, (res, names, unexpanded, types_, last)) in enumerate(zip(seq, got)):
            w = f"after {' '.join(seq[:i + 1])}"
            ctx.step()
            ctx.outcome((op, tuple(reg)))
            if op[0] == "+" and op[1] not in reg:
                reg.append(op[1])
            elif op[0] == "-" and op[1] in reg:
                reg.remove(op[1])
            if op[0] in "+-":
                ctx.equal((res, names), (None, []), w)
            elif op == "bad":
                ctx.equal((res, names), ("MacroApplicationError", []), f"{w}: error, post-processors called")
            else:
                ctx.equal(names, reg * (2 if op == "ph" else 1), f"{w}: post-processors called")
                ctx.check(not any(unexpanded), f"{w}: a post-processor got a tree that is not fully expanded")
                adds = [k for k in reg if k != "a"]
                if op in ("x", "n"):
                    want = ast.parse(f"y = {'expanded'!r}\n" + "".join(f"seen_{k} = 1\n" for k in adds))
                    ctx.equal(res, ast.dump(want), f"{w}: expansion")
                elif op in LISTS:
                    want = ast.parse(f"y = 'expanded'\n" + "".join(f"seen_{k} = 1\n" for k in adds)).body
                    if op == "l2":
                        want.insert(1, ast.parse("z = 'expanded'").body[0])
                    ctx.equal(res, [ast.dump(s) for s in want], f"{w}: expansion of a list of statements")
                elif op == "e":
                    ctx.equal(res, ast.dump(ast.Constant(value="expanded")), f"{w}: expansion of an expression")
                elif op == "run":
                    ctx.equal(res, sorted("seen_" + k for k in adds), f"{w}: names of the module made by post-processors")
                elif op == "ph":
                    ctx.equal(res, "Module", f"{w}: multi-phase expansion")


def batches(seqs, n=20):
    b = []
    for s in seqs:
        b.append(list(s))
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b


def cases(tier):
    deep = tier != "quick"
    some = ["A", "D", "use", "dm", "pl", "reload", "file"]
    for n in range(1, 4 if deep else 3):
        for b in batches(itertools.product(OPS + ["I"], repeat=n)):
            yield ["act", b, False]
    for b in batches(itertools.product(["A", "D", "I", "use", "dm"], repeat=3)):
        yield ["act", b, False]
    for n in range(1, 6 if deep else 4):
        for b in batches(itertools.product(OPS if n < 5 else OPS[:4] + ["std", "reload", "file"], repeat=n)):
            yield ["act", b, True]
    for b in batches(itertools.product(some, repeat=6 if deep else 4)):
        yield ["act", b, True]
    for n in range(1, 7 if deep else 5):
        ops = POPS if n < (5 if deep else 4) else ["+a", "+b", "+c", "-a", "-b", "x"]
        for b in batches(s for s in itertools.product(ops, repeat=n) if s[-1][0] not in "+-"):
            yield ["post", b]


def run_case(case, ctx):
    if case[0] == "act":
        run_act(case[1], case[2], ctx)
    else:
        run_post(case[1], ctx)
