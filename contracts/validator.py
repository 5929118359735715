"""Specification checks, verdict, modes and reuse of the validators (C18 - C22)."""
import re

import z3

from pyvc import lib, loops, values
from .base import *
from .nodes import an_expression, flag_in, q_set

TAGS17 = ["ADJ", "ADV", "INTJ", "NOUN", "PROPN", "VERB", "ADP", "AUX", "CCONJ", "DET", "NUM", "PART", "PRON", "SCONJ",
          "PUNCT", "SYM", "X"]
KNOWN = ["text", "lemma", "pos", "orth", "norm", "phonetic"]
SPECIAL = "()[]{}?*+-|^$\\.&~# \t\n\r\v\f"          # what re.escape escapes (assumed contract of the standard library)


# ------------------------------------------------------------------ first index with a property
class First:
    """F = first index j < n with pred(j), n if there is none (definitional axioms, instantiated where a loop stands)"""

    def __init__(self, e, name, n, pred):
        self.F = z3.Const("first_" + name, INT)
        self.n, self.pred, self.name = n, pred, name
        e.assume(And(self.F >= 0, self.F <= n, Implies(self.F < n, pred(self.F))))

    def at(self, j):
        j = z3.simplify(j)
        engine().axiom(("first", self.name, str(j)), Implies(And(j >= 0, j < self.F), Not(self.pred(j))))

    @property
    def exists(self):
        return self.F < self.n


def first_template(sc, en, changed):
    """nothing found so far: a loop has not passed the first index it searches for"""
    for f in getattr(engine(), "ghost_first", ()):
        poss = {}
        for p, it in sc.iters.items():
            if p + ".pos" in changed:
                poss["it " + p] = zint(it.pos)
        for p, v in sc.ints.items():
            if p in changed:
                poss["int " + p] = zint(v)
        for p, pos in poss.items():
            f.at(pos)
            f.at(f.n - 1 - pos)
            yield f"{p}<=first {f.name}", pos <= f.F
        for l in sc.locs:
            if l.kind == "var" and l.path in changed and isinstance(l.get(), (bool, SymBool)):
                for p, pos in poss.items():
                    yield f"{l.path} iff passed {f.name} {p}", Iff(zb(l.get()), pos > f.F)


TEMPLATES = [("first", first_template)]


# ------------------------------------------------------------------ configuration
QID = z3.Function("QID", V, SEQI)               # layer of an entry of allowed_layer_qualifiers
QNONE = z3.Function("QNONE", V, BOOL)           # it lists None
QLIST = z3.Function("QLIST", V, SEQV)           # otherwise the qualifiers it lists


class PairModel(Model):
    """(layer, None) or (layer, [qualifier, ...])"""
    name = "pair"
    pytype = tuple

    def is_none(self, o):
        return False

    def truth(self, o):
        return True

    def unpack(self, o, n):
        if n != 2:
            raise ValueError("wrong number of values to unpack")
        return [self.getitem(o, 0), self.getitem(o, 1)]

    def iter_(self, o):
        from pyvc import views
        return views.VIter(VList(self.unpack(o, 2), "tuple"))

    def len_(self, o):
        return 2

    def getitem(self, o, i):
        if i in (0, -2):
            return SymStr(QID(o.term))
        if i in (1, -1):
            if engine().branch(QNONE(o.term)):
                return None
            return VList([Seg(QLIST(o.term), STRING_MODEL)])
        raise IndexError("tuple index out of range")


PAIR = PairModel()


def member(seq, z):
    return z3.Contains(seq, z3.Unit(emb(SymStr(z))))


def searched(e, name, seq, z):
    """membership of the text z in a list of texts, also as a first index"""
    f = First(e, name, z3.Length(seq), lambda j: values.STROF(seq[j]) == z)
    e.assume(member(seq, z) == f.exists)
    e.ghost_first.append(f)
    return f.exists


class Conf:
    pass


def configuration(e, allow, quals):
    c = Conf()
    c.allow = c.quals = None
    empty = e.choose(2, "not given, or empty") if "none" in (allow, quals) else 0
    if allow == "none":
        c.allow = [None, VList()][empty]
    else:
        c.allow = a_list(e, "allowed", STRING_MODEL)
    if quals == "none":
        c.quals = [None, VList()][empty]
    else:
        c.quals = a_list(e, "qualifiers", PAIR)
    c.allow_z = c.allow.z() if c.allow is not None else z3.Empty(SEQV)
    c.quals_z = c.quals.z() if c.quals is not None else z3.Empty(SEQV)
    return c


def b2i(f):
    return z3.If(zb(f), z3.IntVal(1), z3.IntVal(0))


def HAS(chars):
    """the text contains one of these characters"""
    return z3.Function("contains_one_of_" + "_".join(str(ord(c)) for c in sorted(chars)), SEQI, BOOL)


def escape_contract(I, f, args, kw):
    """re.escape(s) == s exactly when s has no character that re.escape escapes (assumed, standard library)"""
    e = engine()
    x, = args
    if not is_sym(x):
        return re.escape(x)
    if not isinstance(x, SymStr):
        raise OutOfSubset("re.escape of a value not known to be text")
    r = values.F_REESCAPE(x.z)
    n = determined_length(x)
    if n is not None and n <= 4:
        has = Or(*[Or(*[x.z[k] == ord(c) for c in SPECIAL]) for k in range(n)])
    elif x.base is not None:
        if any(v != "" for v in x.table.values()):
            raise OutOfSubset("re.escape of translated text")
        left = set(SPECIAL) - {chr(k) for k in x.table}
        has = HAS(left)(x.base)
    else:
        has = HAS(SPECIAL)(x.z)
    e.axiom(("reescape", str(x.z)), (r == x.z) == Not(has))
    return SymStr(r)


def determined_length(x):
    n = x.length()
    return n if isinstance(n, int) else values.determined_int(n)


def special_ghost(e, z):
    """HAS(special besides blanks) of the text, also as a first index"""
    rest = [c for c in SPECIAL if c != " "]
    f = First(e, "special", z3.Length(z), lambda j: Or(*[z[j] == ord(c) for c in rest]))
    h = HAS(rest)(z)
    e.assume(h == f.exists)
    e.ghost_first.append(f)
    return h


def literals(s):
    """the constant parts of a text"""
    t = z3.simplify(zstr(s))
    r = LITERALS.get(t.get_id())
    if r is None:
        if len(LITERALS) > 20000:
            LITERALS.clear()
        r = LITERALS[t.get_id()] = (literals_(t), t)
    return r[0]


LITERALS = {}


def literals_(t):
    out = []

    def walk(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            for a in t.children():
                walk(a)
        elif k == z3.Z3_OP_SEQ_UNIT and z3.is_int_value(t.arg(0)):
            out.append(chr(t.arg(0).as_long()))
    walk(t)
    return "".join(out).lower()


def expression_spec(e, I, n, c):
    """(C18 errors, C18 warnings, C19 errors, C20 warnings) the specification demands for the expression"""
    ident = zstr(I.getattr(n, "identifier"))
    regex = zstr(I.getattr(n, "regex"))
    q, fl = I.getattr(n, "qualifier"), I.getattr(n, "regex_flags")
    nA, nQ = z3.Length(c.allow_z), z3.Length(c.quals_z)
    known = Or(*[ident == zstr(k) for k in KNOWN])
    word, custom = ident == zstr("word"), z3.PrefixOf(zstr("x-"), ident)
    e18 = b2i(Not(Or(known, word, custom)))
    w18 = b2i(And(Not(known), Or(word, custom)))
    if c.allow is not None and not (c.allow.concrete() and not c.allow.parts):
        inA = searched(e, "allowed", c.allow_z, ident)
        e18 = z3.If(nA > 0, b2i(Not(inA)), e18)
        w18 = z3.If(nA > 0, z3.IntVal(0), w18)
    e19 = z3.IntVal(0)
    if q is not None and c.quals is not None and not (c.quals.concrete() and not c.quals.parts):
        f = First(e, "layer", nQ, lambda j: QID(c.quals_z[j]) == ident)
        e.ghost_first.append(f)
        if getattr(e, "bounded", None) is not None:
            for j in range(4):
                f.at(z3.IntVal(j))
        entry = c.quals_z[f.F]
        inq = searched(e, "qualifier", QLIST(entry), zstr(q))
        e19 = z3.If(nQ > 0, b2i(Or(Not(f.exists), QNONE(entry), Not(inq))), z3.IntVal(0))
    w20 = z3.IntVal(0)
    if q is None and fl is None:
        special = special_ghost(e, regex)
        w20 = b2i(And(ident == zstr("pos"), Not(Or(*[regex == zstr(t) for t in TAGS17])), Not(special)))
    return e18, w18, e19, w20


def a_location(e, I, text):
    p = fcsql("parser")
    lo, hi = an_int(e, "start"), an_int(e, "stop")
    e.assume(And(lo.z >= 0, lo.z <= hi.z, hi.z <= z3.Length(text.z)))
    return I.call(p.SourceLocation, lo, hi), lo, hi


VSTATE = {"errors", "warnings", "stack", "query", "raise_at_first_violation", "warnings_as_errors",
          "allowed_layer_identifiers", "allowed_layer_qualifiers"}


def a_validator(e, I, c, raising, wae, text=None):
    vm = fcsql("validation")
    v = I.call(vm.FCSQLValidator, allowed_layer_identifiers=c.allow, allowed_layer_qualifiers=c.quals, query=text,
               raise_at_first_violation=raising, warnings_as_errors=wae)
    only_state(v, VSTATE)
    return v


def new_records(e, T, label, l, old):
    """the records added to an old list of unknown content"""
    ok = isinstance(l, VList) and l.parts and isinstance(l.parts[0], Seg) and l.parts[0].fwd.eq(old)
    ok = ok and not any(isinstance(x, Seg) for x in l.parts[1:])
    e.prove(T, f"{label}: earlier records of the run are kept", bool(ok))
    return l.parts[1:] if ok else None


def use_contracts(e, I):
    """validation_error and validation_warning by their contract (harness `finding`)"""
    vm, p = fcsql("validation"), fcsql("parser")

    def contract(err):
        def run(I, f, args, kw):
            a = dict(zip(("self", "node", "message"), args))
            if len(args) > 3 or a.keys() & kw.keys() or (a | kw).keys() != {"self", "node", "message"}:
                raise OutOfSubset("a finding with other arguments than node and message")
            a.update(kw)
            v, n, m = a["self"], a["node"], a["message"]
            e.prove("C21 C22", "a finding is reported for the expression at hand", n is e.expression)
            if I.getattr(v, "raise_at_first_violation") and (err or bool(I.getattr(v, "warnings_as_errors"))):
                x = vm.SpecificationValidationError("finding", n, None)
                x._vc_raised = True
                raise x
            d = I.call(p.ErrorDetail, message=m, type="validation-error" if err else "validation-warning",
                       position=I.getattr(n, "location"), fragment=None)
            I.call(I.getattr(I.getattr(v, "errors" if err else "warnings"), "append"), d)
        return run
    I.stubs[vm.Validator.validation_error.__code__] = contract(True)
    I.stubs[vm.Validator.validation_warning.__code__] = contract(False)


RECORDS = OpaqueModel()
CASES = [f"allow {a}, quals {q}, expression {x}, operator {o}"
         for a in ("none", "list") for q in ("none", "list") for x in ("qualified", "plain") for o in ("=", "!=")]


def the_case(e, I):
    allow, quals, qual, op = [x.split()[1] for x in e.case.split(", ")]
    c = configuration(e, allow, quals)
    n, a = an_expression(e, I, qualifier=qual == "qualified", op=op)
    if a["q"] is not None:
        e.assume(q_set(a["q"]))         # otherwise the node has no qualifier (C13), the other case
    e.expression = n
    use_contracts(e, I)
    return c, n, quals


def a_bool(e, name):
    return SymBool(e.const(name, BOOL))


@harness("C18 C19 C20 C21 C22", "checks of an expression, collecting", TEMPLATES, cases=CASES)
def collecting(e, I):
    vm, p = fcsql("validation"), fcsql("parser")
    I.stubs[re.escape.__code__] = escape_contract
    e.ghost_first = []
    c, n, quals = the_case(e, I)
    v = a_validator(e, I, c, False, a_bool(e, "warnings_as_errors"))
    E0, W0 = values.fresh_seg("errors", RECORDS), values.fresh_seg("warnings", RECORDS)
    I.setattr(v, "errors", VList([E0]))
    I.setattr(v, "warnings", VList([W0]))
    before = {k: x for k, x in n.__dict__.items()}
    e18, w18, e19, w20 = expression_spec(e, I, n, c)
    r, _ = attempt(e, I, "C18 C19 C20 C21", "visit_Expression", vm.FCSQLValidator.visit_Expression, v, n)
    es = new_records(e, "C21 C22", "errors", I.getattr(v, "errors"), E0.fwd)
    ws = new_records(e, "C21 C22", "warnings", I.getattr(v, "warnings"), W0.fwd)
    if es is None or ws is None:
        return
    for x, kind in [(x, "validation-error") for x in es] + [(x, "validation-warning") for x in ws]:
        e.prove("C21", "every record is an ErrorDetail of its kind", isinstance(x, p.ErrorDetail) and I.getattr(x, "type") == kind)
    def count(l, word):
        return sum(1 for x in l if word in literals(I.getattr(x, "message")))
    total_e, total_w = e18 + e19 == len(es), w18 + w20 == len(ws)
    # where only the total is wrong, the messages tell which check is to blame
    e.prove("C18", "errors: one exactly for an identifier that is not permitted",
            Or(total_e, e18 == len(es) - count(es, "qualifier")))
    e.prove("C19", "errors: one exactly for a qualifier that is not permitted", Or(total_e, e19 == count(es, "qualifier")))
    e.prove("C18", "warnings: one exactly for 'word' and 'x-' without allow-list", Or(total_w, w18 == len(ws) - count(ws, "pos tag")))
    e.prove("C20", "warnings: one exactly for an unknown plain tag on an unqualified 'pos'", Or(total_w, w20 == count(ws, "pos tag")))
    if quals == "none":
        e.prove("C18 C19", "errors without qualifier configuration", total_e)
    e.prove("C18 C20 C21", "warnings in total", total_w)
    e.prove("C18 C19 C21", "errors in total", total_e)
    e.prove("C22", "checking leaves the configuration as it was",
            And(I.getattr(v, "allowed_layer_identifiers") is c.allow, I.getattr(v, "allowed_layer_qualifiers") is c.quals,
                list_eq(c.allow, c.allow_z) if c.allow is not None else True,
                list_eq(c.quals, c.quals_z) if c.quals is not None else True))
    e.prove("C21 C22", "checking leaves the expression as it was", all(n.__dict__.get(k) is x for k, x in before.items()))
    only_state(v, VSTATE)
    e.cover("collecting")


@harness("C21", "checks of an expression, raising", TEMPLATES, cases=CASES)
def raising(e, I):
    vm, p = fcsql("validation"), fcsql("parser")
    T = "C21"
    I.stubs[re.escape.__code__] = escape_contract
    e.ghost_first = []
    c, n, quals = the_case(e, I)
    wae = a_bool(e, "warnings_as_errors")
    v = a_validator(e, I, c, True, wae)
    W0 = values.fresh_seg("warnings", RECORDS)
    e.assume(Implies(wae.z, z3.Length(W0.fwd) == 0))        # a warning that counts ended the run
    I.setattr(v, "warnings", VList([W0]))
    e18, w18, e19, w20 = expression_spec(e, I, n, c)
    # decided in the collecting mode: the same findings; only whether the run stops is looked at here
    bad = z3.If(wae.z, e18 + e19 + w18 + w20 > 0, e18 + e19 > 0)
    r, x = attempt(e, I, T, "visit_Expression", vm.FCSQLValidator.visit_Expression, v, n, allowed=(vm.SpecificationValidationError,))
    if r == "exc":
        e.prove(T, "raising mode stops only at a finding that counts", bad)
        e.prove(T, "the exception carries the node", I.getattr(x, "node") is n)
        e.cover("raised")
    else:
        e.prove(T, "raising mode stops at every finding that counts", Not(bad))
        ws = new_records(e, T, "warnings", I.getattr(v, "warnings"), W0.fwd)
        if ws is not None:
            e.prove(T, "warnings that do not count are recorded", Or(wae.z, w18 + w20 == len(ws)))
        e.cover("passed")
    only_state(v, VSTATE)
    e.prove(T, "nothing is recorded as error in raising mode", is_list(I.getattr(v, "errors")) and not items(I.getattr(v, "errors")))


@harness("C20", "is_likely_a_regex", TEMPLATES)
def likely(e, I):
    vm = fcsql("validation")
    I.stubs[re.escape.__code__] = escape_contract
    e.ghost_first = []
    s = a_str(e, "value")
    special = special_ghost(e, s.z)
    _, r = attempt(e, I, "C20", "is_likely_a_regex", vm.is_likely_a_regex, s)
    e.prove("C20", "True exactly when the text has a special character besides blanks",
            isinstance(r, (bool, SymBool)) and Iff(zb(r), special))
    e.cover("likely")


@harness("C20", "the tag set")
def tagset(e, I):
    vm = fcsql("validation")
    e.prove("C20", "lemma: no universal tag contains a special character", not any(c in SPECIAL for t in TAGS17 for c in t))
    e.prove("C20", "lemma: re.escape escapes exactly the listed characters (0..127 executed)",
            all((re.escape(chr(k)) != chr(k)) == (chr(k) in SPECIAL) for k in range(0x3000)))
    e.cover("tags")


# ------------------------------------------------------------------ records and exceptions
@harness("C21 C22", "validation_error and validation_warning", cases=["validation_error", "validation_warning"])
def finding(e, I):
    vm, p = fcsql("validation"), fcsql("parser")
    text = a_str(e, "query")
    known = e.choose(3, "query text")
    v = a_validator(e, I, configuration(e, "none", "none"), bool(e.choose(2, "raising")), bool(e.choose(2, "wae")),
                    text if known == 1 else None)
    if known == 2:
        I.setattr(v, "query", text)
    if known:
        e.assume(z3.Length(text.z) > 0)     # every tree of a parsed query has text
    n = I.call(p.ExpressionWildcard)
    located = e.choose(2, "location")
    lo = hi = None
    if located:
        loc, lo, hi = a_location(e, I, text)
        I.setattr(n, "location", loc)
    raising = I.getattr(v, "raise_at_first_violation")
    wae = I.getattr(v, "warnings_as_errors")
    E0, W0 = values.fresh_seg("errors", RECORDS), values.fresh_seg("warnings", RECORDS)
    if raising:                                             # a finding that counts ended the run
        e.assume(z3.Length(E0.fwd) == 0)
        if wae:
            e.assume(z3.Length(W0.fwd) == 0)
    I.setattr(v, "errors", VList([E0]))
    I.setattr(v, "warnings", VList([W0]))
    I.setattr(v, "stack", VList([values.fresh_seg("stack", NODE)], "deque"))
    I.call(p.ExpressionGroup, n)
    msg = a_str(e, "message")
    err = e.case == "validation_error"
    r, x = attempt(e, I, "C21 C22", e.case, getattr(vm.Validator, e.case), v, n, msg, allowed=(vm.SpecificationValidationError,))

    def fragment(f):
        if known and located:
            return isinstance(f, (str, SymStr)) and zstr(f) == z3.SubSeq(text.z, lo.z, hi.z - lo.z)
        return f is None
    must = raising and (err or wae)
    e.prove("C21", "a finding raises exactly when raising mode counts it", (r == "exc") is must)
    El, Wl = I.getattr(v, "errors"), I.getattr(v, "warnings")
    if r == "exc":
        e.prove("C21", "the exception carries the node", I.getattr(x, "node") is n)
        e.prove("C21 C22", "the exception carries the node's query text", fragment(I.getattr(x, "query_fragment")))
        e.prove("C21", "a finding that raises is not recorded", And(list_eq(El, E0.fwd), list_eq(Wl, W0.fwd)))
        e.cover("raised")
        return
    mine, old, other, oold = (El, E0, Wl, W0) if err else (Wl, W0, El, E0)
    rec = new_records(e, "C21", "records", mine, old.fwd)
    e.prove("C21", "the other list is left alone", list_eq(other, oold.fwd))
    if rec is None:
        return
    e.prove("C21", "a finding adds exactly one record at the end", len(rec) == 1 and isinstance(rec[0], p.ErrorDetail))
    if len(rec) == 1 and isinstance(rec[0], p.ErrorDetail):
        d = rec[0]
        e.prove("C21", "the record is of its kind", I.getattr(d, "type") == ("validation-error" if err else "validation-warning"))
        e.prove("C21", "the record carries the message", eqf(I, I.getattr(d, "message"), msg))
        e.prove("C21", "the record carries the node's location", I.getattr(d, "position") is I.getattr(n, "location"))
        e.prove("C22", "the fragment is the query text of the node's location", fragment(I.getattr(d, "fragment")))
    e.cover("recorded")


@harness("C21 C22 C23", "Validator.validate", cases=["Validator", "FCSQLValidator"])
def verdict(e, I):
    """validate() over an arbitrary walk of the tree that records E and W, or raises (contracts `collecting`, `raising`, C23)"""
    vm, p = fcsql("validation"), fcsql("parser")
    st = saved_state().__enter__()
    tree = a_node(e, "tree")
    earlier = a_str(e, "earlier_query")
    given = a_str(e, "query")
    raising, wae = bool(e.choose(2, "raising")), bool(e.choose(2, "wae"))
    E, W = values.fresh_seg("found_errors", RECORDS), values.fresh_seg("found_warnings", RECORDS)
    visits = []
    inforce = []

    def visit(self, node):
        visits.append(node)
        e.prove("C22", "a run starts without findings", And(*[list_eq(I.getattr(self, k), z3.Empty(SEQV)) for k in ("errors", "warnings")]))
        s = I.getattr(self, "stack")
        e.prove("C22 C23", "a run starts without parent nodes",
                zint(s.length()) == 0 if isinstance(s, VList) else not s)
        q = I.getattr(self, "query")
        want = inforce[0]
        e.prove("C22", "the query text in force is the one given, else the earlier one", eqf(I, q, want) if (q is None) == (want is None) else False)
        I.call(I.getattr(s, "append"), node)
        n1, n2 = z3.Length(E.fwd), z3.Length(W.fwd)
        if raising and e.branch(n1 + n2 > 0 if wae else n1 > 0):
            I.setattr(self, "errors", VList())
            I.setattr(self, "warnings", VList([values.fresh_seg("some_warnings", RECORDS)]))
            ex = vm.SpecificationValidationError("finding", node, None)
            ex._vc_raised = True
            raise ex
        I.call(I.getattr(s, "pop"))
        for k, seg in (("errors", E), ("warnings", W)):
            l = I.getattr(self, k)
            I.setattr(self, k, VList(items(l) + [seg]))
    base = getattr(vm, e.case)
    cls = type("AValidator", (base,), {"visit": visit})
    v = I.call(cls, raise_at_first_violation=raising, warnings_as_errors=wae)
    only_state(v, VSTATE)
    used = e.choose(2, "used before")
    if used:
        I.setattr(v, "errors", VList([values.fresh_seg("old_errors", RECORDS)]))
        I.setattr(v, "warnings", VList([values.fresh_seg("old_warnings", RECORDS)]))
        I.setattr(v, "stack", VList([values.fresh_seg("old_stack", NODE)], "deque"))
        I.setattr(v, "query", [None, earlier][e.choose(2, "earlier query")])
    kw = {}
    inforce.append(I.getattr(v, "query"))
    k = e.choose(3, "query")
    if k:
        kw["query"] = given if k == 1 else None
        if k == 1:
            inforce[0] = given
    bad = Or(z3.Length(E.fwd) > 0, z3.Length(W.fwd) > 0) if wae else z3.Length(E.fwd) > 0
    how = e.choose(2, "is_valid")
    cfg = {k: x for k, x in v.__dict__.items() if k not in ("errors", "warnings", "stack", "query")}
    f = vm.Validator.is_valid if how else vm.Validator.validate
    r, x = attempt(e, I, "C21", f.__name__, f, v, tree, allowed=() if how else (vm.SpecificationValidationError,), **kw)
    e.prove("C21 C23", "the tree is walked exactly once", len(visits) == 1 and visits[0] is tree)
    if r == "exc":
        e.prove("C21", "validate raises only in raising mode and for a finding that counts", And(raising, bad))
        e.cover("raised")
    else:
        if not how:
            e.prove("C21", "raising mode raises at every finding that counts", Not(And(raising, bad)))
        e.prove("C21", "the verdict is a boolean", isinstance(x, (bool, SymBool)))
        if isinstance(x, (bool, SymBool)):
            e.prove("C21", "True exactly when there is no finding that counts", Iff(zb(x), Not(bad)))
        if not raising:
            e.prove("C21 C22", "exactly the findings of this run are recorded",
                    And(list_eq(I.getattr(v, "errors"), E.fwd), list_eq(I.getattr(v, "warnings"), W.fwd)))
        e.cover("is_valid" if how else "verdict")
    e.prove("C23", "there is no parent node after the run", I.getattr(v, "parent_node") is None)
    e.prove("C22", "a run does not change the configuration", all(v.__dict__.get(k) is x for k, x in cfg.items()))
    only_state(v, VSTATE)
    frame(e, "C22", st)
