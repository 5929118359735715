"""Visitors: dispatch and default traversal (C14), validator traversal and parent tracking (C23)."""
import z3

from pyvc import loops, values
from .base import *
from .nodes import any_node, parent_template

RES = z3.Function("RES", V, V)                  # result of child.accept(visitor)
AGG = z3.Function("AGG", V, V, V)               # aggregateResult
SHOULD = z3.Function("SHOULD", V, z3.BoolSort())
FOLD = z3.Function("FOLD", SEQV, INT, V)        # result after the first k children
CLASSES = list(NODE_TYPES)


class Ghost:
    _vc_track = True


def fold_step(ch, k):
    e = engine()
    k = z3.simplify(k)
    for i in (k, z3.simplify(k - 1)):
        e.axiom(("fold", str(ch), str(i)), Implies(And(i >= 0, i < z3.Length(ch)),
                                                   FOLD(ch, i + 1) == AGG(FOLD(ch, i), RES(ch[i]))))
    return FOLD(ch, k)


def fold_template(sc, en, changed):
    e = engine()
    ch = getattr(e, "ghost_fold", None)
    if ch is None:
        return
    poss = {}
    for p, it in sc.iters.items():
        if p + ".pos" in changed:
            poss["it " + p] = zint(it.pos)
    for p, v in sc.ints.items():
        if p in changed:
            poss["int " + p] = zint(v)
    for p, pos in poss.items():
        r = fold_step(ch, pos)
        for l in sc.locs:
            if l.kind in ("var", "attr") and l.path in changed:
                v = l.get()
                if isinstance(v, SymObj):
                    yield f"{l.path}=fold {p}", v.term == r


def a_kind(I, base, handlers):
    """a visitor class with exactly these handlers"""
    return type("AVisitor", (base,), dict(handlers))


def make(I, cls):
    return I.call(cls)


@harness("C14", "dispatch to the handler of the node's class", [("parent", parent_template)], cases=CLASSES)
def dispatch(e, I):
    p = fcsql("parser")
    T = "C14"
    st = saved_state().__enter__()
    n, ch, a = any_node(e, I)
    name = type(n).__name__
    calls = []
    result = SymObj(e.const("handler_result", V), VALUE)

    def mk(k):
        def handler(self, node):
            calls.append((k, self, node))
            return result
        return handler

    def others(self, node):
        calls.append(("visitChildren", self, node))
        return result
    variant = e.choose(4, "visitor")
    base = p.QueryVisitorAdapter if variant < 3 else p.QueryVisitor
    own = {"visit_" + k: mk(k) for k in CLASSES}
    want = name
    if variant == 1:
        own = {"visit_" + name: own["visit_" + name]}
    elif variant == 2:
        del own["visit_" + name]
        own["visitChildren"] = others
        want = "visitChildren"
    elif variant == 3:
        own = {"visit_" + name: own["visit_" + name]} if e.choose(2, "only own") else own
    v = make(I, a_kind(I, base, own))
    via = e.choose(2, "via accept")
    _, r = attempt(e, I, T, "visit", p.QueryNode.accept if via else p.QueryVisitor.visit, *((n, v) if via else (v, n)))
    e.prove(T, "the handler of the class is called exactly once and no other handler is", [c[0] for c in calls] == [want],
            [c[0] for c in calls])
    e.prove(T, "the handler is called on the visitor with the node itself", all(c[1] is v and c[2] is n for c in calls))
    e.prove(T, "the handler's result is the result of the visit", r is result)
    frame(e, T, st)
    e.cover(f"{name}")


@harness("C14", "a visitor without handler visits the children", [("parent", parent_template)], cases=CLASSES)
def no_handler(e, I):
    p = fcsql("parser")
    n, ch, a = any_node(e, I)
    calls = []
    result = SymObj(e.const("r", V), VALUE)

    def children(self, node):
        calls.append((self, node))
        return result
    base = [p.QueryVisitor, p.QueryVisitorAdapter][e.choose(2, "base")]
    v = make(I, a_kind(I, base, {"visitChildren": children}))
    _, r = attempt(e, I, "C14", "visit", p.QueryVisitor.visit, v, n)
    e.prove("C14", "visitChildren is called exactly once with the node", len(calls) == 1 and calls[0][0] is v and calls[0][1] is n)
    e.prove("C14", "its result is the result of the visit", r is result)
    e.cover(type(n).__name__)


@harness("C14", "visiting None")
def visit_none(e, I):
    p = fcsql("parser")
    calls = []

    def h(self, node):
        calls.append(node)
        return 1
    base = [p.QueryVisitor, p.QueryVisitorAdapter][e.choose(2, "base")]
    v = make(I, a_kind(I, base, {"visit_" + k: h for k in CLASSES} | {"visitChildren": h, "defaultResult": h}))
    _, r = attempt(e, I, "C14", "visit(None)", p.QueryVisitor.visit, v, None)
    e.prove("C14", "visiting None answers None", r is None)
    e.prove("C14", "visiting None calls no handler", not calls)
    e.cover("none")


@harness("C14", "accept hands the node to the visitor", [("parent", parent_template)], cases=CLASSES)
def accept(e, I):
    p = fcsql("parser")
    n, ch, a = any_node(e, I)
    calls = []
    result = SymObj(e.const("r", V), VALUE)

    def visit(self, node):
        calls.append((self, node))
        return result
    v = make(I, a_kind(I, p.QueryVisitor, {"visit": visit}))
    _, r = attempt(e, I, "C14", "accept", type(n).accept, n, v)
    e.prove("C14", "accept(v) visits the node exactly once", len(calls) == 1 and calls[0][0] is v and calls[0][1] is n)
    e.prove("C14", "accept(v) answers the result of the visit", r is result)
    e.cover(type(n).__name__)


@harness("C14", "the defaults of the fold")
def fold_defaults(e, I):
    p = fcsql("parser")
    base = [p.QueryVisitor, p.QueryVisitorAdapter][e.choose(2, "base")]
    v = make(I, a_kind(I, base, {}))
    x, y = SymObj(e.const("x", V), VALUE), SymObj(e.const("y", V), VALUE)
    nd = a_node(e, "n")
    e.prove("C14", "the default result is None", attempt(e, I, "C14", "defaultResult", base.defaultResult, v)[1] is None)
    e.prove("C14", "the default aggregate is the next result",
            attempt(e, I, "C14", "aggregateResult", base.aggregateResult, v, x, y)[1] is y)
    e.prove("C14", "by default every child is visited",
            attempt(e, I, "C14", "shouldVisitNextChild", base.shouldVisitNextChild, v, nd, x)[1] is True)
    e.cover("defaults")


@harness("C14", "traversal of the children", [("parent", parent_template), ("fold", fold_template)],
         cases=["ExpressionAnd", "QuerySegment", "QueryWithWithin", "SimpleWithin"])
def children(e, I):
    """every child once, in order, folded; stopping when shouldVisitNextChild says so"""
    p = fcsql("parser")
    T = "C14"
    n, ch, a = any_node(e, I)
    N = z3.Length(ch)
    g = Ghost()
    g.visited = SymInt(z3.IntVal(0))
    loops.ROOTS.append(("ghost", g))
    e.ghost_fold = ch

    def default(self):
        return SymObj(FOLD(ch, z3.IntVal(0)), VALUE)

    def aggregate(self, agg, nxt):
        return SymObj(AGG(emb(agg), emb(nxt)), VALUE)

    def should(self, node, cur):
        e.prove(T, "shouldVisitNextChild is asked about the node itself", node is n)
        return SymBool(SHOULD(emb(cur)))

    def on_accept(o, visitor):
        k = g.visited.z
        fold_step(ch, k)
        e.prove(T, "the next child in order is visited", And(k < N, ch[k] == o.term))
        e.prove(T, "a child is visited only when shouldVisitNextChild agrees", SHOULD(FOLD(ch, k)))
        e.prove(T, "children accept the visitor itself", visitor is v)
        g.visited = SymInt(z3.simplify(k + 1))
        fold_step(ch, g.visited.z)
        return SymObj(RES(o.term), VALUE)
    NODE.on_accept = on_accept
    v = make(I, a_kind(I, [p.QueryVisitor, p.QueryVisitorAdapter][e.choose(2, "base")],
                       {"defaultResult": default, "aggregateResult": aggregate, "shouldVisitNextChild": should}))
    _, r = attempt(e, I, T, "visitChildren", p.QueryVisitor.visitChildren, v, n)
    m = zint(g.visited)
    e.prove(T, "all children are visited unless shouldVisitNextChild stopped the visit", Or(m == N, Not(SHOULD(FOLD(ch, m)))))
    e.prove(T, "the result is the fold of the children's results", isinstance(r, SymObj) and r.term == FOLD(ch, m))
    e.prove(T, "the tree is left as it was", list_eq(I.getattr(n, "children"), ch))
    e.cover("children")


# ------------------------------------------------------------------ C23
def validators():
    vm = fcsql("validation")
    return [vm.Validator, vm.FCSQLValidator]


@harness("C23", "a validator walks every node under its actual parent", [("parent", parent_template)], cases=CLASSES)
def walk(e, I):
    """one step of the induction over the tree: with parent_node == parent of n on entry, the handler of n runs once, and
    every child is accepted once in order with parent_node == n; afterwards the parent stack is as on entry"""
    vm, p = fcsql("validation"), fcsql("parser")
    T = "C23"
    n, ch, a = any_node(e, I)
    name = type(n).__name__
    N = z3.Length(ch)
    base = validators()[e.choose(2, "validator")]
    calls = []
    upper = a_node(e, "upper")

    def handler(self, node):
        calls.append(node)
        pn = I.getattr(self, "parent_node")
        if root:
            e.prove(T, "the root's handler sees no parent", pn is None)
        else:
            e.prove(T, "the handler sees the node's parent as parent node", pn is not None and samef(I, pn, upper))
        return I.call(getattr(base, "visit_" + name), self, node)

    def other(self, node):
        calls.append(None)
    own = {"visit_" + k: other for k in CLASSES if k != name}
    if e.choose(2, "own handler"):
        own["visit_" + name] = handler
    else:
        calls.append(n)
    v = make(I, type("AValidator", (base,), own))
    e.prove(T, "a new validator has no parent node", I.getattr(v, "parent_node") is None)
    root = e.choose(2, "root")
    st = I.getattr(v, "stack")
    if not root:
        I.setattr(v, "stack", VList([values.fresh_seg("stack", NODE), upper], "deque"))
    before = I.getattr(v, "stack").z() if isinstance(I.getattr(v, "stack"), VList) else z3.Empty(SEQV)
    g = Ghost()
    g.visited = SymInt(z3.IntVal(0))
    loops.ROOTS.append(("ghost", g))
    loops.ROOTS.append(("validator", v))
    found = []

    def finding(I, f, args, kw):
        pn = I.getattr(v, "parent_node")
        found.append(1)
        e.prove(T, "a check runs under the expression's actual parent", pn is None if root else pn is not None and samef(I, pn, upper))
        e.prove(T, "a finding is about the expression visited", len(args) > 1 and args[0] is v and args[1] is n)
    I.stubs[vm.Validator.validation_error.__code__] = finding
    I.stubs[vm.Validator.validation_warning.__code__] = finding

    def on_accept(o, visitor):
        k = g.visited.z
        e.prove(T, "the next child in order is visited", And(k < N, ch[k] == o.term))
        pn = I.getattr(visitor, "parent_node")
        e.prove(T, "the child's handler will see this node as parent node", pn is n)
        e.prove(T, "children are visited by the validator itself", visitor is v)
        g.visited = SymInt(z3.simplify(k + 1))
        return None
    NODE.on_accept = on_accept
    _, r = attempt(e, I, T, "visit", p.QueryVisitor.visit, v, n)
    e.prove(T, "the node's handler ran exactly once", calls == [n])
    e.prove(T, "every child was visited exactly once", zint(g.visited) == N)
    s = I.getattr(v, "stack")
    e.prove(T, "the parent stack is as on entry", list_eq(s, before) if isinstance(s, (VList, list)) or type(s).__name__ == "deque" else False)
    pn = I.getattr(v, "parent_node")
    e.prove(T, "the parent node is as on entry", pn is None if root else pn is not None and samef(I, pn, upper))
    e.cover(name)
