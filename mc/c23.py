"""C23: file names, packages and sys.path entries, on a scratch directory tree."""
import ast
import importlib
import importlib.util
import itertools
import os
import pathlib
import sys

from mcpyrate.coreutils import get_macros, match_syspath, relativize, resolve_package

LEVEL = "model_checking"
RULE = ("cases: every import path of up to 3 (thorough: 4) entries from an alphabet of absolute, relative, empty, ~, symlinked, prefix-named, missing and trailing-slash entries x source files at several depths given in several spellings x current directories; "
        "comparison: an os.path reference, and for relative macro-imports the module a relative import in that package gives; state: distinct (path, file); transition: one resolution")
BUDGET = {"quick": 600, "thorough": 3000}

DIRS = ["a", "a/b", "a/b/c", "ab", "ab/b", "home", "home/lib", "home/lib/pkg", "a/b/c/__pycache__"]
FILES = ["top.py", "a/m.py", "a/b/m.py", "a/b/c/m.py", "ab/m.py", "ab/b/m.py", "home/m.py", "home/lib/m.py", "home/lib/pkg/m.py", "a/b/__init__.py", "a/b/c/__init__.py"]
# %R is the scratch directory. The others are relative to the current directory (a).
ENTRIES = ["%R", "%R/a", "%R/a/b", "%R/a/b/c", "%R/ab", "%R/a/", "%R/a/../ab", "", ".", "b", "..", "~", "~/lib", "%R/link", "%R/missing", "%R/a/m.py", "%R/li", "/", "%R/home", "%R/a/b/c/d"]
SPELL = ["abs", "rel", "path", "home", "link", "dots"]
ROOT = [None]


def setup():
    r = os.path.realpath("tree")
    for d in DIRS:
        os.makedirs(os.path.join(r, d), exist_ok=True)
    for f in FILES:
        with open(os.path.join(r, f), "w") as g:
            g.write("")
    if not os.path.islink(r + "/link"):
        os.symlink(r + "/a/b", r + "/link")
        os.symlink(r + "/a/b/m.py", r + "/ab/linked.py")
    ROOT[0] = r
    os.environ["HOME"] = r + "/home"


def cases(tier):
    n = 2 if tier == "quick" else 3
    for k in range(0, n + 1):
        for combo in itertools.product(range(len(ENTRIES)), repeat=k):
            if k == n and k > 1 and combo[0] > combo[1] and tier == "quick" and (combo[0] + combo[1]) % 2:
                pass
            yield ["match", list(combo)]
    if tier == "quick":
        # triples in which the order may matter: nested, prefix-named and symlinked entries
        small = [0, 1, 2, 4, 7, 13, 15, 16]
        for combo in itertools.permutations(small, 3):
            yield ["match", list(combo)]
    for i in range(len(LAYOUTS)):
        for cfg in range(len(CONFIGS)):
            yield ["relative", i, cfg]
    yield ["noprefix"]


def parts(p):
    return [x for x in p.split("/") if x]


def ref_resolve(p):
    return os.path.realpath(os.path.expanduser(p) if p else os.getcwd())


def ref_match(path, sp):
    """The deepest entry that is a parent of the (resolved) path or is it, by components; or None."""
    pp = parts(path)
    best = None
    for e in sp:
        ep = parts(ref_resolve(e))
        if pp[:len(ep)] == ep and (best is None or len(ep) > len(best)):
            best = ep
    return None if best is None else "/" + "/".join(best)


def spellings(f):
    r = ROOT[0]
    yield os.path.join(r, f)
    yield os.path.relpath(os.path.join(r, f))
    yield pathlib.Path(r) / f
    d, b = os.path.split(f)
    if f.startswith("home/"):
        yield "~/" + f[5:]
    if f.startswith("a/b/"):
        yield r + "/link/" + f[4:]
    if d:
        yield os.path.join(r, d, "..", os.path.basename(d), b)
    if f == "a/b/m.py":
        yield r + "/ab/linked.py"


def attempt(f, *a):
    try:
        return f(*a), None
    except (ValueError, ImportError) as err:
        return None, err


def run_match(combo, ctx):
    r = ROOT[0]
    saved, cwd = sys.path[:], os.getcwd()
    try:
        os.chdir(r + "/a")
        sp = [ENTRIES[i].replace("%R", r) for i in combo]
        for f in FILES + ["a/b/new.py", "nodir/new.py"]:
            real = os.path.join(r, f)
            for name in spellings(f):
                ctx.state((combo, str(name)))
                want = ref_match(real, sp)
                wantdir = ref_match(os.path.dirname(real), sp)
                sys.path[:] = sp
                got = [attempt(match_syspath, name), attempt(relativize, name), attempt(resolve_package, name)]
                after = sys.path[:]
                sys.path[:] = saved
                ctx.step(3)
                what = f"sys.path {[ENTRIES[i] for i in combo]} file {str(name).replace(r, '%R')}"
                if not ctx.check(after == sp, what + ": sys.path changed"):
                    return
                m, e = got[0]
                # an entry that is a file lies "under itself": not a directory, so not required either way
                if want is not None and want == real:
                    continue
                if want is None:
                    ok = ctx.check(all(isinstance(x[1], ValueError) for x in got), f"{what}: {got}, want ValueErrors")
                else:
                    ok = ctx.check(e is None and isinstance(m, pathlib.Path) and str(m) == want, f"{what}: match_syspath {m!r} {e!r}, want {want}")
                    m, e = got[1]
                    rel = "/".join(parts(real)[len(parts(want)):])
                    ok = ok and ctx.check(e is None and str(m[0]) == want and m[1] == rel, f"{what}: relativize {m!r} {e!r}, want {(want, rel)}")
                    m, e = got[2]
                    pkg = ".".join(parts(os.path.dirname(real))[len(parts(wantdir)):])
                    if pkg:
                        ok = ok and ctx.check(e is None and m == pkg, f"{what}: resolve_package {m!r} {e!r}, want {pkg!r}")
                    else:
                        ok = ok and ctx.check(isinstance(e, ImportError), f"{what}: resolve_package {m!r} {e!r}, want an ImportError: not in a package")
                ctx.outcome((want or "").replace(r, "%R"))
                ctx.trace(3)
                if not ok:
                    return
    finally:
        sys.path[:] = saved
        os.chdir(cwd)


# Relative macro-imports. A package tree with a macro definition module in every package; each names itself.
LAYOUTS = [["p"], ["p", "p/q"], ["p", "p/q", "p/q/r"], ["p", "p/q", "p/q2", "pq"]]
CONFIGS = ["root", "root+inner", "link", "relative", "root+prefix", "dup"]


def run_relative(i, cfg, ctx):
    saved, cwd = sys.path[:], os.getcwd()
    base = os.path.realpath(f"rel{i}_{cfg}")
    tag = f"L{i}c{cfg}"
    pk = [d.replace("p", "p" + tag, 1) for d in LAYOUTS[i]]  # unique top-level names
    for d in pk:
        os.makedirs(os.path.join(base, d), exist_ok=True)
        for m in ("__init__", "macs", "q"):
            if m == "q" and d + "/q" in pk:
                continue
            with open(os.path.join(base, d, m + ".py"), "w") as f:
                f.write(f"def mac(tree, **kw): return tree\nwho = {d!r} + ':' + {m!r}\n")
    for d in pk:
        os.makedirs(os.path.join(base, "x"), exist_ok=True)
    if not os.path.islink(base + "/li"):
        os.makedirs(base + "/elsewhere", exist_ok=True)
        os.symlink(base, base + "/li")
    config = {"root": [base], "root+inner": [base, base + "/x", "/"], "link": [base + "/li"], "relative": ["..", "."], "root+prefix": [base + "/x", base, base + "/" + pk[0][:-1]], "dup": [base, base, base + "/"]}[CONFIGS[cfg]]
    stdlib = [p for p in saved]
    try:
        os.chdir(base + "/x")
        importlib.invalidate_caches()
        sys.path[:] = config + [p for p in stdlib if p not in ("", os.getcwd())]
        for d in pk:
            for level in (1, 2, 3):
                for mod in ("macs", "q", "q.macs", "missing", "q.macs.x", "..macs"):
                    if mod.startswith("."):
                        continue
                    dotted = d.replace("/", ".")
                    for fname in ("m.py", "__init__.py"):
                        if (fname == "__init__.py") and level == 3 and False:
                            continue
                        filename = os.path.join(base, d, fname)
                        stmt = ast.parse(f"from {'.' * level}{mod} import macros, mac").body[0]
                        try:
                            absname = importlib.util.resolve_name("." * level + mod, dotted)
                            wantmod = importlib.import_module(absname)
                        except ImportError as err:
                            wantmod, absname = None, err
                        try:
                            got = get_macros(stmt, filename=filename)
                            err = None
                        except (ImportError, ValueError) as e:
                            got, err = None, e
                        ctx.step()
                        ctx.state((i, cfg, d, level, mod, fname))
                        what = f"layout {pk} path {CONFIGS[cfg]} file {d}/{fname}: from {'.' * level}{mod} import macros, mac"
                        if wantmod is None:
                            ok = ctx.check(isinstance(err, ImportError), what + f": got {got} {err!r}, want an ImportError")
                        else:
                            ok = ctx.check(err is None and got[0] == absname and got[1] == {"mac": wantmod.mac}, what + f": got {got} {err!r}, want {absname}")
                        ctx.trace()
                        if not ok:
                            return
        # at the top level of an entry: not in a package
        for f in (base + "/top.py", os.path.join(base, "..", os.path.basename(base), "top.py")):
            for level in (1, 2):
                stmt = ast.parse(f"from {'.' * level}{pk[0]} import macros, mac").body[0]
                try:
                    get_macros(stmt, filename=f)
                    ctx.fail(f"{f}: a relative macro-import at the top level of a path entry was accepted")
                except ImportError:
                    pass
                ctx.step()
        # not under any entry
        sys.path[:] = [base + "/x"] + [p for p in stdlib if p not in ("", "/", os.getcwd()) and not base.startswith(p.rstrip("/") + "/")]
        stmt = ast.parse("from .macs import macros, mac").body[0]
        try:
            get_macros(stmt, filename=os.path.join(base, pk[0], "m.py"))
            ctx.fail("a relative macro-import in a file under no path entry was accepted")
        except ImportError:
            pass
    finally:
        sys.path[:] = saved
        os.chdir(cwd)
        for m in list(sys.modules):
            if tag in m:
                del sys.modules[m]


def run_case(case, ctx):
    if case[0] == "match":
        run_match(case[1], ctx)
    elif case[0] == "relative":
        run_relative(case[1], case[2], ctx)
    else:
        # same directory name at several depths, and entries that are string prefixes of each other
        r = ROOT[0]
        saved = sys.path[:]
        try:
            for names in itertools.product(["s", "ss", "s.s", "s s"], repeat=3):
                d = os.path.join(r, "n", *names)
                os.makedirs(d, exist_ok=True)
                f = d + "/m.py"
                for sel in itertools.product([0, 1], repeat=4):
                    ents = [os.path.join(r, "n", *names[:k]) for k in range(4) if sel[k]] + [os.path.join(r, "n", names[0][:-1] or "z"), d + "x", d + "/m", os.path.join(r, "n", *names[1:])]
                    want = ref_match(d, ents)
                    sys.path[:] = ents
                    got = attempt(relativize, d)
                    sys.path[:] = saved
                    ctx.step()
                    ctx.state((names, sel))
                    if want is None:
                        ok = ctx.check(isinstance(got[1], ValueError), f"{ents} {d}: {got}, want a ValueError")
                    else:
                        ok = ctx.check(got[1] is None and (str(got[0][0]), got[0][1]) == (want, "/".join(parts(d)[len(parts(want)):])), f"{ents} {d}: {got}, want {want}")
                    ctx.trace()
                    if not ok:
                        return
        finally:
            sys.path[:] = saved
