"""The tree builder: one contract per grammar rule (C03, C04, C07, C09, C10), by induction over the parse tree.

Contract of a visit, for every rule whose tree stands for a construct: the subtree is rejected with the builder's exception, or
exactly one node, the construct's, is added to the builder's stack.  The harnesses prove it for a rule's subtree, with the
visits of the constructs inside under the same contract.
"""
import z3

from pyvc import loops, values
from .base import *
from .trees import *
from .visitor import Ghost

TERM = z3.Function("TERM", V, BOOL)             # the child is a terminal
NODEOF = z3.Function("NODEOF", V, V)            # node of the construct that the child stands for
PUSHED = z3.Function("PUSHED", SEQV, INT, SEQV)     # nodes of the first k children


def tree_of(I, stack, node):
    """the builder's stack with a node added"""
    if isinstance(stack, VList) or type(stack).__name__ == "deque":
        stack.append(node)
    else:
        raise OutOfSubset("the builder's stack")


class Inside:
    """contract of the visit of a construct inside the one at hand"""

    def __init__(self, e, I):
        self.e, self.I = e, I
        self.g = Ghost()
        self.g.rejected = SymBool(z3.BoolVal(False))
        self.g.visits = SymInt(z3.IntVal(0))
        loops.ROOTS.append(("ghost", self.g))

    def visit(self, visitor, node):
        p = fcsql("parser")
        e = self.e
        g = self.g
        g.visits = SymInt(z3.simplify(zint(g.visits) + 1))
        if e.choose(2, "rejected"):
            g.rejected = SymBool(z3.BoolVal(True))
            from .parse import mark
            m = a_str(e, "inner_rejection")
            from .parse import PREFIX
            e.assume(Not(z3.PrefixOf(zstr(PREFIX), m.z)))
            raise mark(p.ExpressionTreeBuilderException(m))
        tree_of(self.I, self.I.getattr(visitor, "stack"), node)
        return None

    def child(self, k, rule, name):
        """a child of rule `rule` that stands for an unknown construct; its node"""
        node = a_node(self.e, name)
        a, z = k.range()
        return k.ctx(rule, None, a, z, accept=lambda visitor: self.visit(visitor, node)), node


def outcome(e, I, T, label, b, tree, inside):
    """visit the tree; True when a node was built"""
    p = fcsql("parser")
    r, x = attempt(e, I, "C02", label, p.ExpressionTreeBuilder.visit, b, tree, allowed=(p.ExpressionTreeBuilderException,))
    if r == "exc":
        rejected(e, I, T, x)
    elif x is not None:
        raise OutOfSubset("the builder hands on results in another way than its stack")
    return r, x


def settled(e, T, label, r, inside, bad=False, also=""):
    """a construct is rejected exactly when one inside is or when it is `bad` itself"""
    rej = zb(inside.g.rejected)
    if r == "exc":
        e.prove("C02 C03 " + also, f"{label} is rejected only for a construct inside or for what it says", Or(rej, bad))
        return False
    e.prove("C02", f"{label}: a rejection inside rejects the whole query", Not(rej))
    return True


def only_parents(e):
    e.prove("C03 C10", "nothing but the parent of a node inside is changed", set(e.heap) <= {"parent"}, sorted(e.heap))


def check_children(e, I, n, want, T="C03 C04"):
    e.prove(T, "the children are the trees of the operands in source order", list_eq(I.getattr(n, "children"), want))


# ------------------------------------------------------------------ any number of operands
class ChildModel(Model):
    """a child of a context: a terminal or the context of a construct"""
    name = "child"

    visit = symbol = None

    def truth(self, o):
        return True

    def is_none(self, o):
        return False

    def isinstance_(self, o, cls):
        from antlr4.tree import Tree
        from antlr4.ParserRuleContext import ParserRuleContext
        from antlr4.RuleContext import RuleContext
        if cls in (object, Tree.Tree, Tree.SyntaxTree, Tree.ParseTree):
            return True
        if cls in (Tree.TerminalNode, Tree.TerminalNodeImpl):
            return mkbool(TERM(o.term))
        if cls in (Tree.ErrorNode, Tree.ErrorNodeImpl):
            return False
        if cls in (ParserRuleContext, RuleContext, Tree.RuleNode):
            return mknot(mkbool(TERM(o.term)))
        raise OutOfSubset(f"class of a child is {getattr(cls, '__name__', cls)}")

    def getattr(self, o, name):
        e = engine()
        if name == "accept":
            def accept(visitor):
                return self.visit(o, visitor)
            accept._vc_native = True
            return accept
        if name == "symbol" and self.symbol is not None:
            if e.branch(TERM(o.term)):
                return self.symbol
            raise AttributeError("context has no attribute 'symbol'")
        raise OutOfSubset(f"attribute {name!r} of a child")


CHILD = ChildModel()


def pushed_step(ch, k):
    """definition of PUSHED at k and at the position before"""
    e = engine()
    k = z3.simplify(k)
    for i in (k, z3.simplify(k - 1)):
        e.axiom(("pushed", str(ch), str(i)), And(
            Implies(i == 0, PUSHED(ch, i) == z3.Empty(SEQV)),
            Implies(And(i >= 0, i < z3.Length(ch)), PUSHED(ch, i + 1) == z3.If(
                TERM(ch[i]), PUSHED(ch, i), z3.Concat(PUSHED(ch, i), z3.Unit(NODEOF(ch[i])))))))
        layout(e, ch, i)
    return PUSHED(ch, k)


def layout(e, ch, k):
    """definition of the alternation of operands and operators at position k"""
    k = z3.simplify(k)
    inside = And(k >= 0, k < z3.Length(ch))
    e.axiom(("layout", str(ch), str(k)), Implies(inside, TERM(ch[k]) == (And(k % 2 == 1) if e.ghost_operator else z3.BoolVal(False))))


def pushed_template(sc, en, changed):
    """the nodes added are those of the children passed"""
    e = engine()
    gh = getattr(e, "ghost_children", None)
    if gh is None:
        return
    ch, below, b, I = gh
    poss = {"end": z3.Length(ch)}
    for p, it in sc.iters.items():
        if p + ".pos" in changed:
            poss["it " + p] = zint(it.pos)
    for p, v in sc.ints.items():
        if p in changed:
            poss["int " + p] = zint(v)
    for q, l in sc.lists.items():
        if q + "[]" in changed or q in changed:
            for p, pos in poss.items():
                r = pushed_step(ch, pos)
                yield f"{q} = below++nodes {p}", l.z() == vconcat(below.fwd, r)
                yield f"{q} = nodes {p}", l.z() == r


MANY = {
    "query_sequence": ("QuerySequence", None), "query_disjunction": ("QueryDisjunction", "OR"),
    "expression_or": ("ExpressionOr", "OR"), "expression_and": ("ExpressionAnd", "AND"),
}


@harness("C02 C03 C04 C10 C17 C24", "construct with any number of operands", [("pushed", pushed_template)], cases=list(MANY))
def many(e, I):
    p = fcsql("parser")
    T = "C03 C04"
    cls, op = MANY[e.case]
    st = saved_state().__enter__()
    b, q, cfg, below = a_builder(e, I, NODE)
    k = Kit(e, I)
    inside = Inside(e, I)

    def visit(o, visitor):
        if e.branch(TERM(o.term)):
            return I.call(I.getattr(visitor, "visitTerminal"), o)
        return inside.visit(visitor, SymObj(NODEOF(o.term), NODE))

    CHILD.visit = visit
    CHILD.symbol = k.terminal(op).symbol if op else None
    L = a_list(e, "children", CHILD)
    ch = L.z()
    n = z3.Length(ch)
    e.solver.heavy = {"PUSHED"}
    e.ghost_operator = op is not None
    e.assume(n >= 3 if op else n >= 1)
    if op:
        e.assume(n % 2 == 1)
    e.ghost_children = (ch, below, b, I)
    for i in range(4):
        pushed_step(ch, z3.IntVal(i))
    pushed_step(ch, n)
    a, z = k.range()
    tree = k.ctx(e.case, L, a, z)
    r, x = outcome(e, I, T, e.case, b, tree, inside)
    if not settled(e, T, e.case, r, inside):
        e.cover("rejected")
        return
    node = pushed(e, I, T, e.case, b, below)
    e.prove(T, f"{e.case}: the node is of the corresponding class", type(node) is getattr(p, cls))
    if type(node) is not getattr(p, cls):
        return
    check_children(e, I, node, PUSHED(ch, n))
    check_location(e, I, node, a, z)
    only_parents(e)
    check_config(e, I, q, cfg)
    frame(e, "C17", st)
    e.cover("node")


# ------------------------------------------------------------------ quantifiers
QUANTIFIERS = ["none", "*", "+", "?", "{n}", "{n,}", "{,m}", "{n,m}"]


def a_number(e, k, name):
    """an INTEGER token: a non-empty run of digits denotes a number"""
    s = a_str(e, name)
    e.assume(z3.Length(s.z) > 0)
    e.assume(values.F_ISINT(s.z))
    v = values.F_INTOF(s.z)
    e.assume(v >= 0)
    return k.terminal("INTEGER", s), v


def quantifier(e, k, form):
    """subtree of the quantifier (as a list), the bounds it denotes, and whether they are contradictory"""
    p = fcsql("parser")
    inf = z3.IntVal(p.OCCURS_UNBOUNDED)
    one, zero = z3.IntVal(1), z3.IntVal(0)
    simple = {"*": ("Q_ZERO_OR_MORE", zero, inf), "+": ("Q_ONE_OR_MORE", one, inf), "?": ("Q_ZERO_OR_ONE", zero, one)}
    if form == "none":
        return [], one, one, False
    if form in simple:
        name, lo, hi = simple[form]
        return [k.ctx("quantifier", [k.terminal(name)])], lo, hi, False
    ch = [k.terminal("L_CURLY_BRACKET")]
    lo, hi = zero, inf
    if form != "{,m}":
        t, lo = a_number(e, k, "lower")
        ch.append(t)
    if "," in form:
        ch.append(k.terminal("Q_COMMA"))
    else:
        hi = lo
    if form in ("{,m}", "{n,m}"):
        t, hi = a_number(e, k, "upper")
        ch.append(t)
    ch.append(k.terminal("R_CURLY_BRACKET"))
    return [k.ctx("quantifier", ch)], lo, hi, lo > hi if form == "{n,m}" else False


@harness("C07", "the unbounded upper bound")
def unbounded(e, I):
    p = fcsql("parser")
    e.prove("C07", "unbounded is -1, no number of occurrences", p.OCCURS_UNBOUNDED == -1 and type(p.OCCURS_UNBOUNDED) is int)


def check_bounds(e, I, n, lo, hi):
    a, b = I.getattr(n, "min_occurs"), I.getattr(n, "max_occurs")
    e.prove("C07", "the lower bound is the one the quantifier denotes", isinstance(a, (int, SymInt)) and zint(a) == lo)
    e.prove("C07", "the upper bound is the one the quantifier denotes", isinstance(b, (int, SymInt)) and zint(b) == hi)


SHAPES = ["implicit", "bracketed", "empty", "group of a sequence", "group of a disjunction"]


@harness("C02 C03 C04 C07 C10 C17 C24", "segments and groups",
         cases=[f"{s}, quantifier {f}" for s in SHAPES for f in QUANTIFIERS])
def repeated(e, I):
    p = fcsql("parser")
    T = "C03 C04"
    shape, form = e.case.split(", quantifier ")
    st = saved_state().__enter__()
    b, q, cfg, below = a_builder(e, I, NODE)
    k = Kit(e, I)
    inside = Inside(e, I)
    content = None
    cls = p.QuerySegment
    if shape == "implicit":
        c, content = inside.child(k, "query_implicit", "content")
        ch = [c]
    elif shape == "bracketed":
        o = k.terminal("L_SQUARE_BRACKET")
        c, content = inside.child(k, "expression", "content")
        ch = [k.ctx("query_segment", [o, c, k.terminal("R_SQUARE_BRACKET")])]
    elif shape == "empty":
        ch = [k.ctx("query_segment", [k.terminal("L_SQUARE_BRACKET"), k.terminal("R_SQUARE_BRACKET")])]
        seg = ch[0]
    else:
        cls = p.QueryGroup
        o = k.terminal("L_PAREN")
        c, content = inside.child(k, "query_disjunction" if "disj" in shape else "query_sequence", "content")
        ch = [o, c, k.terminal("R_PAREN")]
    qs, lo, hi, bad = quantifier(e, k, form)
    tree = k.ctx("query_group" if cls is p.QueryGroup else "query_simple", ch + qs)
    r, x = outcome(e, I, T, shape, b, tree, inside)
    if not settled(e, T, shape, r, inside, bad, "C07"):
        e.cover("rejected" if content is not None or form == "{n,m}" else "built")
        return
    e.prove("C07 C02", "a lower bound above the upper one is rejected", Not(bad))
    n = pushed(e, I, T, shape, b, below)
    e.prove(T, "the node is of the corresponding class", type(n) is cls)
    if type(n) is not cls:
        return
    check_bounds(e, I, n, lo, hi)
    if content is not None:
        check_children(e, I, n, z3.Unit(content.term))
    else:
        cs = items(I.getattr(n, "children"))
        ok = len(cs) == 1 and type(cs[0]) is p.ExpressionWildcard
        e.prove("C03", "an empty segment holds exactly one wildcard", ok)
        if ok:
            e.prove("C03", "a wildcard has no children", not items(I.getattr(cs[0], "children")))
            check_location(e, I, cs[0], seg.start, seg.stop)
    check_location(e, I, n, tree.start, tree.stop)
    only_parents(e)
    check_config(e, I, q, cfg)
    frame(e, "C17", st)
    e.cover("built")


# ------------------------------------------------------------------ constructs with one operand
@harness("C02 C03 C04 C10 C17 C24", "expressions with one operand",
         cases=[f"{o} of {x}" for o in ("not", "group") for x in ("basic", "group", "or", "and", "not")])
def unary(e, I):
    p = fcsql("parser")
    T = "C03 C04"
    shape, rule = e.case.split(" of ")
    st = saved_state().__enter__()
    b, q, cfg, below = a_builder(e, I, NODE)
    k = Kit(e, I)
    inside = Inside(e, I)
    if shape == "not":
        o = k.terminal("NOT")
        c, content = inside.child(k, "expression_" + rule, "content")
        tree, cls = k.ctx("expression_not", [o, c]), p.ExpressionNot
    else:
        o = k.terminal("L_PAREN")
        c, content = inside.child(k, "expression_" + rule, "content")
        tree, cls = k.ctx("expression_group", [o, c, k.terminal("R_PAREN")]), p.ExpressionGroup
    r, x = outcome(e, I, T, shape, b, tree, inside)
    if not settled(e, T, shape, r, inside):
        e.cover("rejected")
        return
    n = pushed(e, I, T, shape, b, below)
    e.prove(T, "the node is of the corresponding class", type(n) is cls)
    if type(n) is not cls:
        return
    check_children(e, I, n, z3.Unit(content.term))
    check_location(e, I, n, tree.start, tree.stop)
    only_parents(e)
    check_config(e, I, q, cfg)
    frame(e, "C17", st)
    e.cover("built")


@harness("C02 C03 C04 C24", "an expression is the construct it consists of",
         cases=["basic", "group", "or", "and", "not"])
def transparent(e, I):
    T = "C03 C04"
    b, q, cfg, below = a_builder(e, I, NODE)
    k = Kit(e, I)
    inside = Inside(e, I)
    c, content = inside.child(k, "expression_" + e.case, "content")
    r, x = outcome(e, I, T, "expression", b, k.ctx("expression", [c]), inside)
    if not settled(e, T, "expression", r, inside):
        e.cover("rejected")
        return
    n = pushed(e, I, T, "expression", b, below)
    e.prove(T, "the node is the construct's, as it was", samef(I, n, content))
    e.prove("C03 C10", "nothing of the node is changed", not e.heap, sorted(e.heap))
    e.cover("built")


# ------------------------------------------------------------------ the whole query
KEYWORDS = {"sentence": "SENTENCE", "s": "SENTENCE", "utterance": "UTTERANCE", "u": "UTTERANCE", "paragraph": "PARAGRAPH",
            "p": "PARAGRAPH", "turn": "TURN", "t": "TURN", "text": "TEXT", "session": "SESSION"}


@harness("C09", "the scopes")
def scopes(e, I):
    p = fcsql("parser")
    e.prove("C09", "every scope has its own value",
            [m.name for m in p.SimpleWithinScope] == ["SENTENCE", "UTTERANCE", "PARAGRAPH", "TURN", "TEXT", "SESSION"],
            [m.name for m in p.SimpleWithinScope])


@harness("C02 C03 C04 C09 C10 C17 C24", "the whole query",
         cases=[f"{x} within {w}" for x in ("simple", "group", "sequence", "disjunction") for w in ("nothing", "a keyword")])
def whole(e, I):
    p = fcsql("parser")
    T = "C03 C04"
    rule, w = e.case.split(" within ")
    st = saved_state().__enter__()
    b, q, cfg, below = a_builder(e, I, NODE)
    k = Kit(e, I)
    inside = Inside(e, I)
    c, content = inside.child(k, "query_" + rule, "content")
    ch = [k.ctx("main_query", [c])]
    word = None
    if w != "nothing":
        ch.append(k.terminal("WITHIN"))
        word = list(KEYWORDS)[e.choose(len(KEYWORDS), "keyword")]
        ch.append(k.ctx("within_part", [k.ctx("within_part_simple", [k.terminal("SIMPLE_WITHIN_SCOPE", word)])]))
    last = ch[-1]
    tree = k.ctx("query", ch + [k.eof()])
    r, x = outcome(e, I, T, "query", b, tree, inside)
    if not settled(e, T, "query", r, inside, also="C09"):
        e.cover("rejected")
        return
    n = pushed(e, I, T, "query", b, below)
    if w == "nothing":
        e.prove(T, "without within the root is the main query's node", samef(I, n, content))
        e.prove("C03 C10", "nothing of it is changed", not e.heap, sorted(e.heap))
    else:
        e.prove(T, "with within the root is a within node", type(n) is p.QueryWithWithin)
        if type(n) is not p.QueryWithWithin:
            return
        cs = items(I.getattr(n, "children"))
        ok = len(cs) == 2 and isinstance(cs[0], SymObj) and type(cs[1]) is p.SimpleWithin
        e.prove(T, "it holds the query first and the scope second", ok and samef(I, cs[0], content), cs)
        if not ok:
            return
        e.prove("C09", "the scope is the one the keyword denotes",
                I.getattr(cs[1], "scope") is p.SimpleWithinScope[KEYWORDS[word]], word)
        e.prove("C03", "a scope has no children", not items(I.getattr(cs[1], "children")))
        check_location(e, I, cs[1], last.start, last.stop)
        check_location(e, I, n, tree.start, last.stop)
        only_parents(e)
    check_config(e, I, q, cfg)
    frame(e, "C17", st)
    e.cover("built")
