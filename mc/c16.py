"""C16: walkers: order, state extents, collection, replacement."""
import ast
import itertools

from mcpyrate.bunch import Bunch
from mcpyrate.walkers import ASTVisitor, ASTTransformer

from .astutil import canon

LEVEL = "model_checking"
RULE = ("cases: template trees x all assignments of actions {set state for self's children / first child / last child / a suite / the next node in walk order, overriding twice, mutate, rebind, skip, visit one child or a suite only, "
        "raise; delete, replace, splice} to their nodes with a bounded number of non-default actions, for visitors and transformers, followed by a second walk after reset; "
        "reference: a recursive interpreter passing the state as a parameter; state: distinct (tree, assignment); transition: one visited node; comparison: visiting order, state seen, collected values, resulting tree, state afterwards")
BUDGET = {"quick": 600, "thorough": 3000}

TREES = ["a + b", "f(a, b)", "x = y\nz", "if a:\n    b\n    c\nelse:\n    d", "def f(p=a):\n    b\n    return c", "(a, (b, c))", "for a in b:\n    c\nelse:\n    d\n    e", "with a as b:\n    c; d"]

V_ACTIONS = ("gws", "ws_first", "ws_last", "ws_suite", "ws_next", "ws_twice", "mutate", "rebind", "collectstate", "skip", "visit_first", "visit_suites", "raise", "ws_self_late", "ws_empty", "ws_again", "ws_over")
T_ACTIONS = V_ACTIONS + ("delete", "replace", "splice2", "splice0", "replace_novisit")


class Boom(Exception):
    pass


def nodes_of(tree):
    """Walk order of the full tree: what `generic_visit` reaches."""
    out = []
    def go(n):
        out.append(n)
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                go(v)
            elif isinstance(v, list):
                for e in v:
                    if isinstance(e, ast.AST):
                        go(e)
    if isinstance(tree, list):
        for t in tree:
            go(t)
    else:
        go(tree)
    return out


SKIPTYPES = (ast.expr_context, ast.operator, ast.arguments)


def parse(src):
    tree = ast.parse(src)
    for n in ast.walk(tree):
        # contexts and operators are shared singletons in parser output; states are keyed by node, so make them distinct
        for f, v in ast.iter_fields(n):
            if isinstance(v, (ast.expr_context, ast.operator)):
                setattr(n, f, type(v)())
    return tree


def cases(tier):
    k = 3 if tier == "thorough" else 2
    for src in TREES:
        for kind in ("V", "T"):
            for aslist in (False, True):
                acts = V_ACTIONS if kind == "V" else T_ACTIONS
                tree = parse(src)
                ns = nodes_of(tree.body if aslist else tree)
                idx = [i for i, n in enumerate(ns) if not isinstance(n, SKIPTYPES)]
                yield [src, kind, aslist, [], 0]
                for i in idx:
                    for a in acts:
                        yield [src, kind, aslist, [[i, a]], k - 1]


# ---------------------------------------------------------------- shared between the model and the real walker's callbacks

def children(n):
    for f, v in ast.iter_fields(n):
        if isinstance(v, ast.AST):
            yield v
        elif isinstance(v, list):
            for e in v:
                if isinstance(e, ast.AST):
                    yield e


def suites(n):
    for f, v in ast.iter_fields(n):
        if isinstance(v, list) and v and all(isinstance(e, ast.stmt) for e in v):
            yield f, v


def real(kind, tree, plan, order, initial):
    """Run the real walker. Returns (log, collected, result, state_after, walker)."""
    log = []
    base = ASTVisitor if kind == "V" else ASTTransformer

    class W(base):
        def handle(self, node):
            name = order.get(id(node), "new")
            log.append((name, type(node).__name__, sorted(self.state.items())))
            a = plan.get(name)
            cs = list(children(node))
            if a == "gws":
                self.generic_withstate(node, s=name)
            elif a == "ws_first" and cs:
                self.withstate(cs[0], s=name)
            elif a == "ws_last" and cs:
                self.withstate(cs[-1], t=name)
            elif a == "ws_suite":
                for f, v in suites(node):
                    self.withstate(v, s=name, t=f)
            elif a == "ws_next":
                nxt = [n for n in order_list if order[id(n)] == (name if isinstance(name, int) else -5) + 1]
                if nxt:
                    self.withstate(nxt[0], s="n%s" % name)
            elif a == "ws_twice" and cs:
                self.withstate(cs[0], s="first", extra=1)
                self.generic_withstate(node, s="second%s" % name)
            elif a == "mutate":
                self.state.m = self.state.get("m", 0) + 1
            elif a == "rebind":
                self.state = Bunch(s="re%s" % name)
            elif a == "collectstate":
                self.collect((name, self.state.get("s", None)))
            elif a == "raise":
                raise Boom(name)
            elif a == "ws_self_late":
                self.withstate(node, s="late")
            elif a == "ws_empty":
                self.state = Bunch()
                self.generic_withstate(node)
            elif a == "ws_again" and cs:  # for all the children, then again for one of them; then twice for the last one
                self.generic_withstate(node, s="all", u=name)
                self.withstate(cs[0], s="again")
                self.withstate(cs[-1], s="first", v=1)
                self.withstate(cs[-1], t="last")
            elif a == "ws_over":  # for a suite, then for a statement of it; and the other way round
                for f, v in suites(node):
                    self.withstate(v[0], s="stmt", u=f)
                    self.withstate(v, s="suite")
                    self.withstate(v[-1], t=name)
            return a, cs

        def examine(self, node):
            a, cs = self.handle(node)
            if a == "skip":
                return
            if a == "visit_first":
                if cs:
                    self.visit(cs[0])
            elif a == "visit_suites":
                for f, v in suites(node):
                    self.visit(v)
            else:
                self.generic_visit(node)
            if a == "mutate":
                log.append(("after", order.get(id(node)), sorted(self.state.items())))

        def transform(self, node):
            a, cs = self.handle(node)
            if a == "skip":
                return node
            if a == "visit_first":
                f, v = next(((f, v) for f, v in ast.iter_fields(node) if isinstance(v, ast.AST)), (None, None))
                if f:
                    setattr(node, f, self.visit(v))
                return node
            if a == "visit_suites":
                for f, v in suites(node):
                    setattr(node, f, self.visit(v))
                return node
            if a == "delete":
                return None
            if a == "replace_novisit":
                return replacement(node, "R")
            node = self.generic_visit(node)
            if a == "mutate":
                log.append(("after", order.get(id(node)), sorted(self.state.items())))
            if a == "replace":
                return replacement(node, "R")
            if a == "splice2":
                return [replacement(node, "P"), replacement(node, "Q")]
            if a == "splice0":
                return []
            return node

    order_list = nodes_of(tree)
    w = W(**initial)
    try:
        res = w.visit(tree)
        err = None
    except Boom as e:
        res = None
        err = e.args[0]
    return log, list(w.collected), res, err, w


def replacement(node, tag):
    if isinstance(node, ast.stmt):
        return ast.Expr(value=ast.Name(id=tag))
    if isinstance(node, ast.expr):
        return ast.Name(id=tag)
    return node


class ModelBoom(Exception):
    pass


def model(kind, tree, plan, order, initial):
    """The reference: states are dicts; the frame (a one-element list, since the state can be rebound) is a parameter."""
    log = []
    collected = []
    pending = {}
    by_index = {order[id(n)]: n for n in nodes_of(tree)}

    def enter(node, frame):
        return [pending.pop(id(node))] if id(node) in pending else frame

    def upd(frame, kw):
        d = dict(frame[0])
        d.update(kw)
        return d

    def visit_any(x, frame):
        if isinstance(x, list):
            out = []
            for e in list(x):
                r = visit_node(e, frame)
                if isinstance(r, list):
                    out.extend(r)
                elif r is not None:
                    out.append(r)
            return out
        return visit_node(x, frame)

    def generic(node, frame):
        for f, v in list(ast.iter_fields(node)):
            if isinstance(v, list):
                out = []
                for e in list(v):
                    if isinstance(e, ast.AST):
                        r = visit_node(e, frame)
                        if isinstance(r, list):
                            out.extend(r)
                        elif r is not None:
                            out.append(r)
                    else:
                        out.append(e)
                if kind == "T":
                    setattr(node, f, out)
            elif isinstance(v, ast.AST):
                r = visit_node(v, frame)
                if kind == "T":
                    if r is None:
                        delattr(node, f)
                    else:
                        setattr(node, f, r)

    def visit_node(node, frame):
        frame = enter(node, frame)
        name = order.get(id(node), "new")
        log.append((name, type(node).__name__, sorted(frame[0].items())))
        a = plan.get(name)
        cs = list(children(node))
        if a == "gws":
            d = upd(frame, {"s": name})
            for c in cs:
                pending[id(c)] = d
        elif a == "ws_first" and cs:
            pending[id(cs[0])] = upd(frame, {"s": name})
        elif a == "ws_last" and cs:
            pending[id(cs[-1])] = upd(frame, {"t": name})
        elif a == "ws_suite":
            for f, v in suites(node):
                d = upd(frame, {"s": name, "t": f})
                for e in v:
                    pending[id(e)] = d
        elif a == "ws_next":
            if name != "new" and name + 1 in by_index:
                pending[id(by_index[name + 1])] = upd(frame, {"s": "n%s" % name})
        elif a == "ws_twice" and cs:
            d = upd(frame, {"s": "second%s" % name})
            for c in cs:
                pending[id(c)] = d
        elif a == "mutate":
            frame[0]["m"] = frame[0].get("m", 0) + 1
        elif a == "rebind":
            frame[0] = {"s": "re%s" % name}
        elif a == "collectstate":
            collected.append((name, frame[0].get("s", None)))
        elif a == "raise":
            raise ModelBoom(name)
        elif a == "ws_self_late":
            pending[id(node)] = upd(frame, {"s": "late"})
        elif a == "ws_empty":
            frame[0] = {}
            d = {}
            for c in cs:
                pending[id(c)] = d
        elif a == "ws_again" and cs:
            d = upd(frame, {"s": "all", "u": name})
            for c in cs:
                pending[id(c)] = d
            pending[id(cs[0])] = upd(frame, {"s": "again"})
            pending[id(cs[-1])] = upd(frame, {"t": "last"})
        elif a == "ws_over":
            for f, v in suites(node):
                d = upd(frame, {"s": "suite"})
                for e in v:
                    pending[id(e)] = d
                pending[id(v[-1])] = upd(frame, {"t": name})
        if a == "skip":
            return node
        if a == "visit_first":
            if kind == "V":
                if cs:
                    visit_node(cs[0], frame)
            else:
                f, v = next(((f, v) for f, v in ast.iter_fields(node) if isinstance(v, ast.AST)), (None, None))
                if f:
                    setattr(node, f, visit_node(v, frame))
            return node
        if a == "visit_suites":
            for f, v in suites(node):
                r = visit_any(v, frame)
                if kind == "T":
                    setattr(node, f, r)
            return node
        if kind == "T" and a == "delete":
            return None
        if kind == "T" and a == "replace_novisit":
            return replacement(node, "R")
        generic(node, frame)
        if a == "mutate":
            log.append(("after", order.get(id(node)), sorted(frame[0].items())))
        if kind == "T":
            if a == "replace":
                return replacement(node, "R")
            if a == "splice2":
                return [replacement(node, "P"), replacement(node, "Q")]
            if a == "splice0":
                return []
        return node

    frame = [dict(initial)]
    try:
        res = visit_any(tree, frame)
        err = None
    except ModelBoom as e:
        res = None
        err = e.args[0]
    return log, collected, res, err, frame


def run_case(case, ctx):
    src, kind, aslist, fixed, more = case
    tree0 = parse(src)
    ns = nodes_of(tree0.body if aslist else tree0)
    idx = [i for i, n in enumerate(ns) if not isinstance(n, SKIPTYPES)]
    fixedi = max([i for i, a in fixed], default=-1)
    acts = V_ACTIONS if kind == "V" else T_ACTIONS
    later = [i for i in idx if i > fixedi]
    plans = [[]]
    for k in range(1, more + 1):
        for combo in itertools.combinations(later, k):
            for assignment in itertools.product(acts, repeat=k):
                plans.append(list(zip(combo, assignment)))
    for extra in plans:
        plan = dict([tuple(x) for x in fixed] + extra)
        if not legal(src, aslist, plan):
            continue
        for initial in ({}, {"s": 0}):
            t1, t2 = parse(src), parse(src)
            if aslist:
                t1, t2 = t1.body, t2.body
            o1 = {id(n): i for i, n in enumerate(nodes_of(t1))}
            o2 = {id(n): i for i, n in enumerate(nodes_of(t2))}
            keep = nodes_of(t1), nodes_of(t2)  # keep alive, so ids stay unique  # noqa: F841
            ctx.state((src, kind, aslist, sorted(plan.items()), sorted(initial)))
            rlog, rcoll, rres, rerr, w = real(kind, t1, plan, o1, initial)
            mlog, mcoll, mres, merr, frame = model(kind, t2, plan, o2, initial)
            ctx.step(len(rlog))
            what = f"{kind} {src!r} list={aslist} plan={plan} initial={initial}"
            ok = ctx.equal(rlog, mlog, what + ": visits and states")
            ok = ok and ctx.equal(rcoll, mcoll, what + ": collected")
            ok = ok and ctx.equal(rerr, merr, what + ": exception")
            if ok and kind == "T" and rerr is None:
                ok = ctx.equal(canon(rres), canon(mres), what + ": result")
                if ok and aslist:
                    ok = ctx.check(rres is t1, what + ": suite not edited in place")
            ok = ok and ctx.equal(sorted(w.state.items()), sorted(frame[0].items()), what + ": state after the walk")
            if not ok:
                return
            # a later walk after a reset
            if kind == "V":
                w.reset(s="new")
                if not ctx.check(w.collected == [] and dict(w.state) == {"s": "new"}, what + ": reset"):
                    return
                try:
                    w.visit(t1)
                except Boom:
                    pass
                log2 = rlog2 = None
                mlog2, mcoll2, _, _, frame2 = model(kind, t1, plan, o1, {"s": "new"})
                ctx.equal(list(w.collected), mcoll2, what + ": collected after reset")
                ctx.equal(sorted(w.state.items()), sorted(frame2[0].items()), what + ": state after reset and a second walk")
                if ctx.violations:
                    return


def legal(src, aslist, plan):
    """Removing or splicing only makes sense in list positions; deleting a required single field is the user's error,
    but is defined (the field is removed), so it is kept."""
    tree = parse(src)
    if aslist:
        tree = tree.body
    ns = nodes_of(tree)
    inlist = set()
    rooted = {id(tree)} if not aslist else set()
    for n in ns:
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                inlist.update(id(e) for e in v if isinstance(e, ast.AST))
    if aslist:
        inlist.update(id(e) for e in tree)
    for i, a in plan.items():
        n = ns[i]
        if a in ("splice2", "splice0") and id(n) not in inlist:
            return False
        if a in ("delete", "replace", "replace_novisit") and id(n) in rooted:
            return False
    return True
