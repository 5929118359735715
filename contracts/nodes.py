"""Query nodes: construction (C11), child access (C12), predicates (C13), string form (C15)."""
import z3

from pyvc import lib, loops, values
from .base import *


# ------------------------------------------------------------------ C11 construction
def ghosts(e):
    """an arbitrary position and an arbitrary other node, fixed before the code runs (instead of quantifiers)"""
    g = getattr(e, "ghost_parent", None)
    if g is None or g[2] is not e.solver:
        g = e.ghost_parent = (z3.Const("ghost_k", INT), z3.Const("ghost_other", V), e.solver)
    return g[:2]


def other_not_in(e, want):
    """assume the arbitrary other node is none of `want` (instantiated where the loop stands)"""
    e.ghost_parent = ghosts(e) + (e.solver, want)
    n = z3.simplify(z3.Length(want))
    if z3.is_int_value(n):
        for i in range(n.as_long()):
            e.assume(want[i] != ghosts(e)[1])


def parent_template(sc, en, changed):
    """the elements already passed have the parent that the loop assigns; other nodes keep theirs"""
    e = engine()
    if "parent" not in e.heap:
        return
    k, other = ghosts(e)
    par = e.heap["parent"]
    if "parent" in en.heap:
        yield "frame", z3.Select(par, other) == z3.Select(en.heap["parent"], other)
    owners = []
    for l in sc.locs:
        if l.kind == "attr" and l.name == "children" and l.owner not in owners:
            owners.append(l.owner)
    poss = {}
    for p, it in sc.iters.items():
        if p + ".pos" in changed:
            poss[p] = (zint(it.pos), it.src)
    for p, v in sc.ints.items():
        if p in changed:
            poss[p] = (zint(v), None)
    want = e.ghost_parent[3] if len(e.ghost_parent) > 3 else None
    for p, (pos, src) in poss.items():
        if want is not None:            # instances of "the other node is none of the operands"
            for i in (pos, z3.Length(want) - 1 - pos):
                i = z3.simplify(i)
                e.axiom(("other", str(i)), Implies(And(i >= 0, i < z3.Length(want)), want[i] != other))
        for q, l in sc.lists.items():
            z = l.z()
            n = z3.Length(z)
            for i, o in enumerate(owners):
                own = z3.Select(par, z[k]) == emb(o)
                yield f"parents of {q} to {p} #{i}", Implies(And(k >= 0, k < pos, k < n), own)
                if isinstance(src, views.Reversed):
                    yield f"parents of {q} from {p} #{i}", Implies(And(k >= n - pos, k < n), own)


def check_node(e, I, cls, n, want, given=None):
    """node invariant: own child list with exactly these children, parents set, own parent None, type of the class"""
    p = fcsql("parser")
    T = "C11"
    e.prove(T, "the result is a node of its class", type(n) is cls)
    e.prove(T, "the node type is that of the class", I.getattr(n, "node_type") is p.QueryNodeType[NODE_TYPES[cls.__name__]])
    e.prove(T, "the node's own parent is None", I.getattr(n, "parent") is None)
    ch = I.getattr(n, "children")
    e.prove(T, "children are a list", is_list(ch))
    e.prove(T, "children are exactly the given nodes in order", list_eq(ch, want))
    k, other = ghosts(e)
    e.prove(T, "every child's parent is the node",
            Implies(And(k >= 0, k < z3.Length(want)), z3.Select(loops.heap_array("parent"), want[k]) == emb(n)))
    e.prove(T, "no other node's parent changes",
            z3.Select(loops.heap_array("parent"), other) ==
            z3.Select(z3.Const("heap0_parent", z3.ArraySort(V, V)), other))
    e.prove(T, "nothing else of the children changes", set(e.heap) <= {"parent"}, sorted(e.heap))
    if given is not None:
        before = given.z()
        given.append(a_node(e, "later"))
        e.prove(T, "the child list is the node's own", list_eq(I.getattr(n, "children"), want))
        given.pop()
        e.prove(T, "the list passed in is left as it was", given.z() == before)
        given.clear()
        e.prove(T, "the child list is the node's own (2)", list_eq(I.getattr(n, "children"), want))


def construct(e, I, cls, *args, **kw):
    r, n = attempt(e, I, "C11", f"{cls.__name__}()", cls, *args, **kw)
    return n


@harness("C11", "constructor of a node with a list of operands", [("parent", parent_template)],
         cases=["QueryDisjunction", "QuerySequence", "ExpressionAnd", "ExpressionOr"])
def ctor_list(e, I):
    cls = getattr(fcsql("parser"), e.case)
    L = a_list(e, "operands", NODE)
    want = L.z()
    other_not_in(e, want)
    n = construct(e, I, cls, L)
    check_node(e, I, cls, n, want, L)
    e.cover(cls.__name__)


@harness("C11", "constructor of a wildcard node with children", [("parent", parent_template)])
def ctor_wild(e, I):
    p = fcsql("parser")
    kw = {}
    want = z3.Empty(SEQV)
    L = None
    if e.choose(2, "children"):
        L = a_list(e, "operands", NODE)
        kw["children"] = L
        want = L.z()
    if e.choose(2, "child"):
        c = a_node(e, "child")
        kw["child"] = c
        want = vconcat(want, z3.Unit(c.term))
    other_not_in(e, want)
    n = construct(e, I, p.ExpressionWildcard, **kw)
    check_node(e, I, p.ExpressionWildcard, n, want, L)
    e.cover("wildcard")


@harness("C11 C07 C09", "constructor of the other nodes")
def ctor_fixed(e, I):
    p = fcsql("parser")
    k = e.choose(7, "class")
    a, b = a_node(e, "a"), a_node(e, "b")
    e.assume(And(a.term != ghosts(e)[1], b.term != ghosts(e)[1]))
    if k < 2:
        cls = [p.ExpressionGroup, p.ExpressionNot][k]
        n = construct(e, I, cls, a)
        want = z3.Unit(a.term)
    elif k < 4:
        cls = [p.QuerySegment, p.QueryGroup][k - 2]
        lo, hi = an_int(e, "lo"), an_int(e, "hi")
        n = construct(e, I, cls, a, lo, hi)
        want = z3.Unit(a.term)
        e.prove("C07", "min_occurs is the given lower bound", eqf(I, I.getattr(n, "min_occurs"), lo))
        e.prove("C07", "max_occurs is the given upper bound", eqf(I, I.getattr(n, "max_occurs"), hi))
    elif k == 4:
        cls = p.QueryWithWithin
        if e.choose(2, "within"):
            n = construct(e, I, cls, a, b)
            want = z3.Concat(z3.Unit(a.term), z3.Unit(b.term))
        else:
            n = construct(e, I, cls, a, None)
            want = z3.Unit(a.term)
    elif k == 5:
        cls = p.SimpleWithin
        sc = list(p.SimpleWithinScope)[e.choose(len(p.SimpleWithinScope), "scope")]
        n = construct(e, I, cls, sc)
        want = z3.Empty(SEQV)
        e.prove("C09", "the node keeps the scope it is given", I.getattr(n, "scope") is sc)
    else:
        cls = p.Expression
        n, _ = an_expression(e, I)
        want = z3.Empty(SEQV)
    check_node(e, I, cls, n, want)
    e.cover(cls.__name__)


# ------------------------------------------------------------------ expressions
def some_flags(e, name="flag"):
    p = fcsql("parser")
    return VSet({f: SymBool(e.const(f"{name}_{f.name}", BOOL)) for f in p.RegexFlag})


def an_expression(e, I, qualifier=None, op=None):
    """Expression(...) from arbitrary arguments, and the arguments"""
    p = fcsql("parser")
    if qualifier is None:
        qualifier = bool(e.choose(2, "qualifier"))
    q = a_str(e, "qualifier") if qualifier else None
    ident, regex = a_str(e, "identifier"), a_str(e, "regex")
    op = list(p.Operator)[e.choose(len(p.Operator), "operator") if op is None else ["=", "!="].index(op)]
    fl = None if e.choose(2, "flags") == 0 else some_flags(e)
    r, n = attempt(e, I, "C13", "Expression()", p.Expression, qualifier=q, identifier=ident, operator=op, regex=regex,
                   regex_flags=fl)
    return n, dict(q=q, ident=ident, regex=regex, op=op, flags=fl)


def q_set(q):
    """a qualifier counts as set: present, not empty, not only white space"""
    if q is None:
        return z3.BoolVal(False)
    e = engine()
    sp = values.F_ISSPACE(q.z)
    e.axiom(("isspace", str(q.z)), z3.Implies(sp, z3.Length(q.z) > 0))
    return And(z3.Length(q.z) > 0, Not(sp))


def flag_in(fl, m):
    if fl is None:
        return z3.BoolVal(False)
    v = fl.mem(m)
    return v.z if isinstance(v, SymBool) else z3.BoolVal(v)


@harness("C08 C13 C06 C05 C17", "Expression keeps what it is given")
def expr_fields(e, I):
    p = fcsql("parser")
    n, a = an_expression(e, I)
    e.prove("C08", "identifier as given", eqf(I, I.getattr(n, "identifier"), a["ident"]))
    e.prove("C08", "operator as given", I.getattr(n, "operator") is a["op"])
    e.prove("C05", "regex as given", eqf(I, I.getattr(n, "regex"), a["regex"]))
    q = I.getattr(n, "qualifier")
    e.prove("C08 C13", "qualifier is None exactly when not set", Iff(is_none(I, q), Not(q_set(a["q"]))))
    if q is not None:
        e.prove("C08", "qualifier as given", eqf(I, q, a["q"]))
    fl = I.getattr(n, "regex_flags")
    any_ = Or(*[flag_in(a["flags"], m) for m in p.RegexFlag])
    e.prove("C06 C13", "flags are None exactly when none is set", Iff(is_none(I, fl), Not(any_)))
    if fl is not None:
        e.prove("C06", "flags are a set", isinstance(fl, (VSet, set, frozenset)))
        for m in p.RegexFlag:
            e.prove("C06", "flags as given", Iff(zb(I.contains(fl, m)), flag_in(a["flags"], m)))
        e.prove("C06 C17", "the flag set is the node's own", fl is not a["flags"])
    e.cover("expression")


@harness("C13", "predicates of an expression")
def expr_predicates(e, I):
    p = fcsql("parser")
    n, a = an_expression(e, I)
    T = "C13"

    def ask(name, *args):
        r, v = attempt(e, I, T, name, getattr(p.Expression, name), n, *args)
        if not isinstance(v, (bool, SymBool)):
            e.fail(T, f"{name} answers a boolean", repr(v))
            raise PathEnd()
        return zb(v)
    x = a_str(e, "asked")
    e.prove(T, "has_layer_identifier(x) iff identifier == x", Iff(ask("has_layer_identifier", x), a["ident"].z == x.z))
    e.prove(T, "is_layer_qualifier_empty iff no qualifier is set", Iff(ask("is_layer_qualifier_empty"), Not(q_set(a["q"]))))
    e.prove(T, "has_layer_qualifier(x) iff a qualifier is set and equals x",
            Iff(ask("has_layer_qualifier", x), And(q_set(a["q"]), a["q"].z == x.z if a["q"] is not None else False)))
    for o in p.Operator:
        e.prove(T, "has_operator(o) iff operator is o", Iff(ask("has_operator", o), a["op"] is o))
    any_ = Or(*[flag_in(a["flags"], m) for m in p.RegexFlag])
    e.prove(T, "is_regex_flags_empty iff no flag is set", Iff(ask("is_regex_flags_empty"), Not(any_)))
    for m in p.RegexFlag:
        e.prove(T, "has_regex_flag(f) iff f is set", Iff(ask("has_regex_flag", m), flag_in(a["flags"], m)))
    e.cover("predicates")


@harness("C13", "predicates refuse None")
def predicates_none(e, I):
    p = fcsql("parser")
    n, a = an_expression(e, I)
    name = ["has_layer_identifier", "has_layer_qualifier", "has_operator", "has_regex_flag", "has_node_type"][
        e.choose(5, "predicate")]
    r, v = attempt(e, I, "C13", name, getattr(p.Expression, name), n, None, allowed=(TypeError,))
    e.prove("C13", f"{name}(None) raises TypeError", r == "exc" and isinstance(v, TypeError))
    e.cover(name)


def any_node(e, I, names=None):
    """a node of any class with symbolic content (children are opaque nodes), and its children as a Seq(V) term"""
    p = fcsql("parser")
    names = names or list(NODE_TYPES)
    name = e.case or names[e.choose(len(names), "class")]
    cls = getattr(p, name)
    if name == "Expression":
        n, a = an_expression(e, I)
        return n, z3.Empty(SEQV), a
    if name == "SimpleWithin":
        sc = list(p.SimpleWithinScope)[e.choose(len(p.SimpleWithinScope), "scope")]
        return I.call(cls, sc), z3.Empty(SEQV), dict(scope=sc)
    if name == "ExpressionWildcard":
        return I.call(cls), z3.Empty(SEQV), {}
    a = a_node(e, "operand")
    if name in ("ExpressionGroup", "ExpressionNot"):
        return I.call(cls, a), z3.Unit(a.term), dict(a=a)
    if name in ("QuerySegment", "QueryGroup"):
        lo, hi = an_int(e, "lo"), an_int(e, "hi")
        return I.call(cls, a, lo, hi), z3.Unit(a.term), dict(a=a, lo=lo, hi=hi)
    if name == "QueryWithWithin":
        if e.choose(2, "within"):
            b = a_node(e, "within")
            return I.call(cls, a, b), z3.Concat(z3.Unit(a.term), z3.Unit(b.term)), dict(a=a, b=b)
        return I.call(cls, a, None), z3.Unit(a.term), dict(a=a, b=None)
    L = a_list(e, "operands", NODE)
    return I.call(cls, VList(L.parts)), L.z(), dict(L=L)


@harness("C13", "has_node_type of every node class", [("parent", parent_template)], cases=NODE_TYPES)
def node_type(e, I):
    p = fcsql("parser")
    n, ch, a = any_node(e, I)
    own = NODE_TYPES[type(n).__name__]
    for t in p.QueryNodeType:
        r, v = attempt(e, I, "C13", "has_node_type", type(n).has_node_type, n, t)
        e.prove("C13", "has_node_type(t) iff t is the type of the node's class",
                Iff(zb(v) if isinstance(v, (bool, SymBool)) else z3.BoolVal(False), t.name == own))
    e.cover(type(n).__name__)


# ------------------------------------------------------------------ C12 child access
FIL = z3.Function("FIL", SEQV, INT, SEQV)       # the instances of the requested class among the first k children
CNT = z3.Function("CNT", SEQV, INT, INT)        # how many they are
NTHI = z3.Function("NTHI", SEQV, INT, V)        # the m-th instance among all children


def cnt(ch, k):
    """CNT(ch,k) with the definitional instances around k: the i-th child, if an instance, is number CNT(i)"""
    e = engine()
    k = z3.simplify(k)
    n = z3.Length(ch)

    def step(i):
        i = z3.simplify(i)
        inst = INST(ch[i])
        e.axiom(("cnt", str(ch), str(i)), Implies(And(i >= 0, i < n), And(
            CNT(ch, i + 1) == z3.If(inst, CNT(ch, i) + 1, CNT(ch, i)),
            Implies(inst, NTHI(ch, CNT(ch, i)) == ch[i]))))
        # lemmas (by induction, see `lemma_count`): 0 <= CNT(i) <= i, CNT(i) <= CNT(n)
        for j in (i, z3.simplify(i + 1)):
            e.axiom(("cntlemma", str(ch), str(j)), Implies(And(j >= 0, j <= n), And(
                CNT(ch, j) >= 0, CNT(ch, j) <= j, CNT(ch, j) <= CNT(ch, n))))
    e.axiom(("cnt0", str(ch)), CNT(ch, z3.IntVal(0)) == 0)
    step(k)
    step(k - 1)
    return CNT(ch, k)


def fil(ch, k):
    """FIL(ch,k), the sequence of the first CNT(ch,k) instances, with its definitional instances around k"""
    e = engine()
    k = z3.simplify(k)
    n = z3.Length(ch)
    cnt(ch, k)
    for i in (k, z3.simplify(k - 1)):
        e.axiom(("fil", str(ch), str(i)), Implies(And(i >= 0, i < n), FIL(ch, i + 1) == z3.If(
            INST(ch[i]), z3.Concat(FIL(ch, i), z3.Unit(ch[i])), FIL(ch, i))))
    e.axiom(("fil0", str(ch)), FIL(ch, z3.IntVal(0)) == z3.Empty(SEQV))
    # lemma (`lemma_filter`): FIL(k) has CNT(k) elements
    e.axiom(("fillen", str(ch), str(k)), Implies(And(k >= 0, k <= n), z3.Length(FIL(ch, k)) == CNT(ch, k)))
    return FIL(ch, k)


def filtered_nth(ch, m):
    """lemma (`lemma_filter`): element m of the filtered children is the m-th instance"""
    e = engine()
    n = z3.Length(ch)
    m = z3.simplify(m)
    if ("fil0", str(ch)) in e.axiom_seen:       # only where the code builds a filtered list
        f = fil(ch, n)
        e.axiom(("filnth", str(ch), str(m)), Implies(And(m >= 0, m < CNT(ch, n)), f[m] == NTHI(ch, m)))
    return NTHI(ch, m)


@harness("C12", "lemma: counting instances")
def lemma_count(e, I):
    ch, k, n = e.const("children", SEQV), e.const("k", INT), e.const("n", INT)
    e.assume(And(k >= 0, k < n))
    e.prove("C12", "bounds: base", Implies(CNT(ch, 0) == 0, And(CNT(ch, 0) >= 0, CNT(ch, 0) <= 0)))
    step = CNT(ch, k + 1) == z3.If(INST(ch[k]), CNT(ch, k) + 1, CNT(ch, k))
    e.prove("C12", "bounds: step", Implies(And(step, CNT(ch, k) >= 0, CNT(ch, k) <= k),
                                           And(CNT(ch, k + 1) >= 0, CNT(ch, k + 1) <= k + 1)))
    e.prove("C12", "monotone: step downwards from n", Implies(And(step, CNT(ch, k + 1) <= CNT(ch, n)), CNT(ch, k) <= CNT(ch, n)))
    e.cover("lemma")


@harness("C12", "lemma: the filtered children")
def lemma_filter(e, I):
    """by induction on k: len FIL(k) = CNT(k), and element m of FIL(k) is NTHI(m)"""
    ch, k, m = e.const("children", SEQV), e.const("k", INT), e.const("m", INT)
    e.assume(And(k >= 0, k < z3.Length(ch)))
    e.assume(FIL(ch, k + 1) == z3.If(INST(ch[k]), z3.Concat(FIL(ch, k), z3.Unit(ch[k])), FIL(ch, k)))
    e.assume(CNT(ch, k + 1) == z3.If(INST(ch[k]), CNT(ch, k) + 1, CNT(ch, k)))
    e.assume(Implies(INST(ch[k]), NTHI(ch, CNT(ch, k)) == ch[k]))
    e.assume(z3.Length(FIL(ch, k)) == CNT(ch, k))
    e.prove("C12", "length: step", z3.Length(FIL(ch, k + 1)) == CNT(ch, k + 1))
    e.assume(And(m >= 0, m < CNT(ch, k + 1)))
    e.assume(Implies(m < CNT(ch, k), FIL(ch, k)[m] == NTHI(ch, m)))
    e.prove("C12", "elements: step", FIL(ch, k + 1)[m] == NTHI(ch, m))
    e.cover("lemma")


def filter_template(sc, en, changed):
    e = engine()
    ch = getattr(e, "ghost_children", None)
    if ch is None:
        return
    n = z3.Length(ch)
    poss = {}
    for p, it in sc.iters.items():
        if p + ".pos" in changed:
            poss["it " + p] = (zint(it.pos), isinstance(it.src, views.Reversed) or
                               isinstance(it.src, views.SymRange) and it.src.step == -1)
    for p, v in sc.ints.items():
        if p in changed:
            poss["int " + p] = (zint(v), False)
    for p, (pos, rev) in poss.items():
        cur = z3.simplify(n - pos) if rev else pos
        c, all_ = cnt(ch, cur), cnt(ch, n)
        for q, v in sc.ints.items():
            if q in changed and p != "int " + q:
                yield f"{q}=count {p}", zint(v) == c
                yield f"{q}=rest {p}", zint(v) == all_ - c
                if q in en.ints:
                    yield f"{q}=entry+count {p}", zint(v) == zint(en.ints[q]) + c
                    yield f"{q}=entry-count {p}", zint(v) == zint(en.ints[q]) - c
                    yield f"entry {q}>count {p}", zint(en.ints[q]) >= c
        for q, v in sc.ints.items():
            if q not in changed and is_sym(v):
                yield f"{q}>=count {p}", zint(v) >= c
        for q, l in sc.lists.items():
            if q + "[]" in changed or q in changed:
                yield f"{q}=filtered {p}", l.z() == fil(ch, cur)
        if rev:
            yield f"none later {p}", c == all_
        else:
            yield f"none so far {p}", c == 0
        for l in sc.locs:
            if l.kind == "var" and l.path in changed:
                v = l.get()
                if v is None:
                    yield f"{l.path} last {p}", c == 0
                elif isinstance(v, SymObj):
                    yield f"{l.path} last {p}", And(c > 0, NTHI(ch, c - 1) == v.term)


def prove_child(e, I, name, r, want_none, want_term):
    """r is None iff want_none, and otherwise the node want_term"""
    T = "C12"
    if r is None:
        e.prove(T, f"{name} is None only when there is no such child", want_none)
    elif isinstance(r, SymObj):
        e.prove(T, f"{name} is None when there is no such child", Not(want_none))
        e.prove(T, f"{name} is exactly the requested child", Implies(Not(want_none), r.term == want_term))
    else:
        e.fail(T, f"{name} is a child or None", repr(r))


def node_with_children(e, I, which=None):
    p = fcsql("parser")
    cls = [p.QuerySequence, p.ExpressionOr][e.choose(2, "class")]
    L = a_list(e, "operands", NODE)
    n = I.call(cls, VList(L.parts))
    ch = L.z()
    e.ghost_children = ch
    return n, ch


@harness("C12", "child access without class", [("parent", parent_template), ("filter", filter_template)])
def child_plain(e, I):
    p = fcsql("parser")
    n, ch = node_with_children(e, I)
    N = z3.Length(ch)
    cnt = I.getattr(n, "child_count")
    e.prove("C12", "child_count is the number of children", And(values.isint(cnt), zint(cnt) == N))
    k = e.choose(3, "accessor")
    if k == 0:
        i = an_int(e, "idx")
        kw = {} if e.choose(2, "explicit None") else {"clazz": None}
        _, r = attempt(e, I, "C12", "get_child(i)", p.QueryNode.get_child, n, i, **kw)
        prove_child(e, I, "get_child(i)", r, Or(i.z < 0, i.z >= N), ch[i.z])
    elif k == 1:
        _, r = attempt(e, I, "C12", "get_first_child()", p.QueryNode.get_first_child, n)
        prove_child(e, I, "get_first_child()", r, N == 0, ch[0])
    else:
        _, r = attempt(e, I, "C12", "get_last_child()", p.QueryNode.get_last_child, n)
        prove_child(e, I, "get_last_child()", r, N == 0, ch[N - 1])
    e.prove("C12", "reading children changes nothing", And(set(e.heap) <= {"parent"}, list_eq(I.getattr(n, "children"), ch)))
    e.cover(f"plain{k}")


@harness("C12", "child access by class", [("parent", parent_template), ("filter", filter_template)],
         cases=["get_child", "get_first_child", "get_last_child"])
def child_class(e, I):
    p = fcsql("parser")
    n, ch = node_with_children(e, I)
    N = z3.Length(ch)
    c = SymObj(e.const("clazz", V), CLASS)
    M = cnt(ch, N)
    k = e.case
    if k == "get_child":
        i = an_int(e, "idx")
        _, r = attempt(e, I, "C12", "get_child(i, cls)", p.QueryNode.get_child, n, i, c)
        prove_child(e, I, "get_child(i, cls)", r, Or(i.z < 0, i.z >= M), filtered_nth(ch, i.z))
    elif k == "get_first_child":
        _, r = attempt(e, I, "C12", "get_first_child(cls)", p.QueryNode.get_first_child, n, c)
        prove_child(e, I, "get_first_child(cls)", r, M == 0, filtered_nth(ch, z3.IntVal(0)))
    else:
        _, r = attempt(e, I, "C12", "get_last_child(cls)", p.QueryNode.get_last_child, n, c)
        prove_child(e, I, "get_last_child(cls)", r, M == 0, filtered_nth(ch, M - 1))
    e.cover(f"class{k}")


@harness("C12", "named child accessors", [("parent", parent_template)],
         cases=["QueryWithWithin", "QuerySegment", "QueryGroup", "ExpressionAnd", "ExpressionOr"])
def child_named(e, I):
    p = fcsql("parser")
    n, ch, a = any_node(e, I)
    T = "C12"

    def get(name):
        return attempt(e, I, T, name, getattr(type(n), name), n)[1]
    if isinstance(n, p.QueryWithWithin):
        e.prove(T, "get_query is the first child", samef(I, get("get_query"), a["a"]))
        w = get("get_within")
        if a["b"] is None:
            e.prove(T, "get_within without scope is None", w is None)
        else:
            e.prove(T, "get_within is the second child", w is not None and samef(I, w, a["b"]))
    elif isinstance(n, p.QuerySegment):
        e.prove(T, "get_expression is the child", samef(I, get("get_expression"), a["a"]))
    elif isinstance(n, p.QueryGroup):
        e.prove(T, "get_content is the child", samef(I, get("get_content"), a["a"]))
    else:
        e.prove(T, "operands are the children", list_eq(I.getattr(n, "operands"), ch))
    e.cover(type(n).__name__)


# ------------------------------------------------------------------ C15 string form
def text(*parts):
    out = []
    for x in parts:
        out.append(zstr(x) if isinstance(x, (str, SymStr)) else x)
    return zconcat(*out)


def occurs_text(label, v):
    """'@min=N ' unless N is 1, with '*' for unbounded"""
    shown = z3.If(v.z == -1, zstr("*"), values.F_INTSTR(v.z))
    return z3.If(v.z == 1, z3.Empty(SEQI), zconcat(zstr(f"@{label}="), shown, zstr(" ")))


FLAG_LETTERS = [("CASE_INSENSITIVE", "i"), ("CASE_SENSITIVE", "I"), ("LITERAL_MATCHING", "l"), ("IGNORE_DIACRITICS", "d")]


def text_template(sc, en, changed):
    """text put together child by child: what has been written is the entry text and the texts of the children passed"""
    e = engine()
    join = lib.f_join(" ")
    poss = {p: zint(it.pos) for p, it in sc.iters.items() if p + ".pos" in changed}
    poss.update({p: zint(v) for p, v in sc.ints.items() if p in changed})
    for q, l in sc.lists.items():
        if q + "[]" in changed or not all(p.model is NODE if isinstance(p, Seg) else
                                          isinstance(p, SymObj) and p.model is NODE for p in l.parts):
            continue
        z = l.z()
        n = z3.Length(z)
        for p, k in poss.items():
            def seen(i):
                return NODE.mapstr(z3.SubSeq(z, z3.IntVal(0), z3.simplify(i)))
            m, was = seen(k), seen(k - 1)
            x = values.STRV(NODESTR(z[z3.simplify(k - 1)]))
            sp = z3.Concat(join(was), zstr(" "), values.STROF(x))
            e.axiom(("child text", str(z), str(k)), And(
                values.STROF(x) == NODESTR(z[z3.simplify(k - 1)]),
                Implies(k == 0, And(z3.Length(m) == 0, join(m) == z3.Empty(SEQI))),
                Implies(k == n, And(m == NODE.mapstr(z), join(m) == join(NODE.mapstr(z)))),
                Implies(And(k > 0, k <= n), And(m == vconcat(was, z3.Unit(x)), NODESTR(z[z3.simplify(k - 1)]) == values.STROF(x),
                                                join(m) == z3.If(k == 1, values.STROF(x), sp)))))
            for t, v in sc.strs.items():
                if t in changed and t in en.strs:
                    a, b = zstr(v), zstr(en.strs[t])
                    yield f"{t} spaced {q} to {p}", a == zconcat(b, z3.If(k > 0, zconcat(zstr(" "), join(m)), z3.Empty(SEQI)))
                    yield f"{t} joined {q} to {p}", a == zconcat(b, join(m))
            for t, v in sc.lists.items():
                if t + "[]" in changed and t in en.lists:
                    yield f"{t} texts of {q} to {p}", v.z() == vconcat(en.lists[t].z(), m)


@harness("C15", "string form of every node class", [("parent", parent_template), ("text", text_template)], cases=NODE_TYPES)
def str_form(e, I):
    p = fcsql("parser")
    n, ch, a = any_node(e, I)
    name = type(n).__name__
    for x in a.values():                # str(node) is never empty: it starts with "("
        if isinstance(x, SymObj):
            e.assume(z3.Length(NODESTR(x.term)) > 0)
    loc = z3.Empty(SEQI)
    if e.choose(2, "location"):
        s, t = an_int(e, "start"), an_int(e, "stop")
        I.setattr(n, "location", I.call(p.SourceLocation, s, t))
        loc = text("@", SymStr(values.F_INTSTR(s.z)), ":", SymStr(values.F_INTSTR(t.z)))
    _, r = attempt(e, I, "C15", f"str({name})", type(n).__str__, n)
    if not isinstance(r, (str, SymStr)):
        e.fail("C15", "str() answers text", repr(r))
        return
    head = f"({TYPE_TEXT[name]}"
    if name == "Expression":
        esc = values.translated(a["regex"], {10: "\\n", 13: "\\r", 9: "\\t"})
        body = text(" ", z3.If(q_set(a["q"]), text(a["q"], ":") if a["q"] is not None else z3.Empty(SEQI), z3.Empty(SEQI)),
                    a["ident"], " ", {"EQUALS": "Eq", "NOT_EQUALS": "Ne"}[a["op"].name], ' "', esc, '"')
        if a["flags"] is not None:
            any_ = Or(*[flag_in(a["flags"], m) for m in p.RegexFlag])
            letters = zconcat(*[z3.If(flag_in(a["flags"], p.RegexFlag[f]), zstr(c), z3.Empty(SEQI))
                                for f, c in FLAG_LETTERS])
            body = zconcat(body, z3.If(any_, zconcat(zstr("/"), letters), z3.Empty(SEQI)))
    elif name == "SimpleWithin":
        body = text(" ", {"SENTENCE": "Sentence", "UTTERANCE": "Utterance", "PARAGRAPH": "Paragraph", "TURN": "Turn",
                          "TEXT": "Text", "SESSION": "Session"}[a["scope"].name])
    elif name in ("QuerySegment", "QueryGroup"):
        body = zconcat(zstr(" "), occurs_text("min", a["lo"]), occurs_text("max", a["hi"]), NODESTR(a["a"].term))
    elif name in ("ExpressionGroup", "ExpressionNot"):
        body = zconcat(zstr(" "), NODESTR(a["a"].term))
    elif name == "QueryWithWithin":
        body = zconcat(zstr(" "), NODESTR(a["a"].term))
        if a["b"] is not None:
            body = zconcat(body, zstr(" "), NODESTR(a["b"].term))
    elif name == "ExpressionWildcard":
        body = z3.Empty(SEQI)
    else:
        parts = []
        for x in a["L"].parts:
            parts.append(Seg(NODE.mapstr(x.fwd), STRING_MODEL) if isinstance(x, Seg) else SymStr(NODESTR(x.term)))
        joined = zstr(lib.join(I, " ", VList(parts)))
        # str(node) is never empty (it starts with "(")
        body = z3.If(z3.Length(ch) > 0, zconcat(zstr(" "), joined), z3.Empty(SEQI))
        e.assume(Implies(z3.Length(ch) > 0, z3.Length(joined) > 0))
    e.prove("C15", f"str({name}) is type, data, children in order, location", zstr(r) == zconcat(zstr(head), body, zstr(")"), loc))
    e.cover(name)
