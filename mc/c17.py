"""C17: markers are found, deleted and reported exactly."""
import ast
import itertools

from mcpyrate.core import MacroExpansionError
from mcpyrate.markers import ASTMarker, check_no_markers_remaining, delete_markers, get_markers

from .astutil import canon, clone

LEVEL = "model_checking"
RULE = ("cases: template tree x set of marked places; in each, every assignment of marker classes {M, subclass of M, subclass with a further field, unrelated} to at most k marks on any node or suite (also several around the same node, "
        "also one marker object in two places), each checked for every requested class; state: distinct marked tree; transition: one utility call; comparison: reference find/delete/has on the same tree")
BUDGET = {"quick": 600, "thorough": 3000}


class M(ASTMarker):
    pass


class MSub(M):
    pass


class MExtra(M):
    def __init__(self, body=None, more=None):
        super().__init__(body)
        self.more = more
        self._fields += ["more"]


class MOther(ASTMarker):
    pass


CLASSES = {"M": M, "S": MSub, "E": MExtra, "O": MOther}
QUERIES = [ASTMarker, M, MSub, MExtra, MOther]

TREES = [
    "x", "f(a, k=b)", "{a: b, **c}", "x = y", "if a:\n    b\n    c\nelse:\n    d", "def f(p=a):\n    'doc'\n    return p", "[a for b in c if d]", "try:\n    a\nexcept B as e:\n    c\nfinally:\n    d",
    "with a as b:\n    c", "a\nb\nc", "x[a:b, c]", "lambda p: p", "f'{a}'", "match a:\n    case [b, {'k': c, **d}]:\n        e", "class C(b, k=c):\n    x: a = b\n    global g\n", "for a in b:\n    if c:\n        d\n        continue\n",
]


def places(x):
    """Number the nodes and non-empty suites in preorder; contexts and operators are not marked."""
    out = []
    def rec(x):
        if isinstance(x, ast.AST):
            if not isinstance(x, (ast.expr_context, ast.operator, ast.boolop, ast.unaryop, ast.cmpop)):
                out.append(x)
            for f in x._fields:
                rec(getattr(x, f, None))
        elif isinstance(x, list):
            if x and all(isinstance(e, ast.stmt) for e in x):
                out.append(x)
            for e in x:
                rec(e)
    rec(x)
    return out


def cases(tier):
    k = 2 if tier == "quick" else 3
    for src in TREES:
        for aslist in (False, True):
            t = ast.parse(src)
            n = len(places(t.body if aslist else t))
            kk = min(k + 1, 3) if n <= 8 else k
            for r in range(0, kk + 1):
                combos = list(itertools.combinations_with_replacement(range(n), r))
                for i in range(0, len(combos), 40):
                    yield [src, aslist, combos[i:i + 40]]
            yield [src, aslist, "shared"]


def build(x, marks):
    """A clone of `x` with, around the thing of preorder number i, the markers `marks[i]` (outermost first)."""
    counter = [0]
    def rec(x):
        i = None
        if isinstance(x, ast.AST):
            if not isinstance(x, (ast.expr_context, ast.operator, ast.boolop, ast.unaryop, ast.cmpop)):
                i = counter[0]
                counter[0] += 1
            y = type(x)()
            for f in x._fields:
                if hasattr(x, f):
                    setattr(y, f, rec(getattr(x, f)))
            for a in x._attributes:
                if hasattr(x, a):
                    setattr(y, a, getattr(x, a))
        elif isinstance(x, list):
            if x and all(isinstance(e, ast.stmt) for e in x):
                i = counter[0]
                counter[0] += 1
            y = []
            for e in x:
                y.append(rec(e))
        else:
            return x
        for j, c in reversed(list(enumerate(marks.get(i, ())))):
            if c == "E":
                y = MExtra(y, ast.Name(id=f"more{i}_{j}", ctx=ast.Load()))
            else:
                y = CLASSES[c](y)
        return y
    return rec(x)


def find(x, cls):
    out = []
    def rec(x):
        if isinstance(x, ast.AST):
            if isinstance(x, cls):
                out.append(x)
            for f in x._fields:
                rec(getattr(x, f, None))
        elif isinstance(x, list):
            for e in x:
                rec(e)
    rec(x)
    return out


def strip(x, cls):
    if isinstance(x, ast.AST):
        if isinstance(x, cls):
            return strip(x.body, cls)
        y = type(x)()
        y._fields = x._fields
        for f in x._fields:
            if hasattr(x, f):
                setattr(y, f, strip(getattr(x, f), cls))
        for a in x._attributes:
            if hasattr(x, a):
                setattr(y, a, getattr(x, a))
        return y
    if isinstance(x, list):
        out = []
        for e in x:
            z = strip(e, cls)
            if isinstance(z, list):
                out.extend(z)
            else:
                out.append(z)
        return out
    return x


def verify(ctx, make, what):
    t = make()
    before = canon(t, attrs=True)
    ctx.state(before)
    for cls in QUERIES:
        want = find(t, cls)
        got = get_markers(t, cls)
        ctx.step()
        if not ctx.check(isinstance(got, list) and [id(g) for g in got] == [id(w) for w in want], lambda: f"{what}: get_markers({cls.__name__}): {len(got)} markers {[type(g).__name__ for g in got]}, want {[type(g).__name__ for g in want]}"):
            return False
        ctx.trace()
        if cls is ASTMarker:
            got = get_markers(t)
            if not ctx.check([id(g) for g in got] == [id(w) for w in want], what + ": get_markers default class"):
                return False
        for kw in ([{"cls": cls}, {}, {"cls": None}] if cls is ASTMarker else [{"cls": cls}]):
            ctx.step()
            try:
                r = check_no_markers_remaining(t, filename="/dir/some file.py", **kw)
                raised = None
            except MacroExpansionError as err:
                raised = str(err)
                r = None
            if not ctx.check(r is None and (raised is not None) == bool(want), f"{what}: check_no_markers_remaining({kw}): {raised!r}, want an error: {bool(want)}"):
                return False
            if raised is not None and not ctx.check("/dir/some file.py" in raised, f"{what}: the error does not name the file: {raised!r}"):
                return False
            ctx.trace()
        if not ctx.check(canon(t, attrs=True) == before, what + ": finding or checking markers altered the tree"):
            return False
    for cls in QUERIES:
        t = make()
        want = strip(t, cls)
        got = delete_markers(t, cls)
        ctx.step()
        ctx.outcome(len(find(t, ASTMarker)))
        if not ctx.equal(canon(got, attrs=True), canon(want, attrs=True), f"{what}: delete_markers({cls.__name__})"):
            return False
        if cls is ASTMarker:
            got = delete_markers(make())
            if not ctx.equal(canon(got, attrs=True), canon(want, attrs=True), f"{what}: delete_markers default class"):
                return False
    return True


def run_case(case, ctx):
    src, aslist, combos = case
    def base():
        t = ast.parse(src)
        return t.body if aslist else t
    if combos == "shared":
        # one marker object (around a Name) in every pair of Name positions
        n = len([x for x in ast.walk(ast.parse(src)) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)])
        for i, j in itertools.combinations(range(n), 2):
            for c in CLASSES:
                def make():
                    t = clone(base())
                    m = CLASSES[c](ast.Name(id="shared", ctx=ast.Load()))
                    k = [0]
                    class R(ast.NodeTransformer):
                        def visit_Name(self, node):
                            if isinstance(node.ctx, ast.Load):
                                k[0] += 1
                                if k[0] - 1 in (i, j):
                                    return m
                            return node
                    if isinstance(t, list):
                        return [R().visit(x) for x in t]
                    return R().visit(t)
                if not verify(ctx, make, f"{src!r} list={aslist} shared {c} at Name {i} and {j}"):
                    return
        return
    for combo in combos:
        for cl in itertools.product(CLASSES, repeat=len(combo)):
            marks = {}
            for i, c in zip(combo, cl):
                marks.setdefault(i, []).append(c)
            if not verify(ctx, lambda: build(base(), marks), f"{src!r} list={aslist} marks={marks}"):
                return
