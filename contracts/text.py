"""Expressions: decoding of the quoted text (C05), flags (C06), attributes and defaults (C08)."""
import unicodedata

import z3

from pyvc import loops, values
from pyvc.values import atomic, char
from .base import *
from .nodes import q_set
from .trees import *
from .validator import First

# ------------------------------------------------------------------ what escapes denote (the specification)
SIMPLE = {"\\": "\\", "'": "'", '"': '"', "n": "\n", "t": "\t"} | {c: "\\" + c for c in ".^$*+?(){}[]|"}
NUMERIC = {"x": 2, "u": 4, "U": 8}

WF = z3.Function("WF", SEQI, INT, BOOL)         # the text from k on is made of characters and admitted escapes (lexer)
OK = z3.Function("DECODES", SEQI, INT, BOOL)    # no number beyond the last code point from k on
DEC = z3.Function("DECODED", SEQI, INT, SEQI)   # what the text from k on denotes


def hexdigit(c):
    return Or(And(c >= 48, c <= 57), And(c >= 97, c <= 102), And(c >= 65, c <= 70))


def hexval(c):
    return values.F_DIGIT(c)


STEPS = {}


def step(t, k):
    """definition of WF, DECODES and DECODED at position k"""
    e = engine()
    k = z3.simplify(k)
    key = (t.get_id(), k.get_id(), t.get_id() in e.atoms)
    if key not in STEPS:
        STEPS[key] = (facts(t, k), t, k)        # the terms are kept, so their ids stay their own
    for i, f in enumerate(STEPS[key][0]):
        e.axiom(("decode", i) + key, f)


def facts(t, k):
    n = z3.Length(t)
    c, d = char(t, k), char(t, k + 1)
    fs = [Implies(k == n, And(WF(t, k), OK(t, k)))]
    ds = [Implies(k == n, DEC(t, k) == z3.Empty(SEQI))]
    inside = And(k >= 0, k < n)
    plain = c != 92
    fs.append(Implies(And(inside, plain), And(WF(t, k) == WF(t, k + 1), OK(t, k) == OK(t, k + 1))))
    ds.append(Implies(And(inside, plain), DEC(t, k) == z3.Concat(z3.Unit(c), DEC(t, k + 1))))
    esc = And(inside, c == 92, WF(t, k))
    fs.append(Implies(esc, And(k + 1 < n, Or(*[d == ord(x) for x in list(SIMPLE) + list(NUMERIC)]))))
    for x, out in SIMPLE.items():
        fs.append(Implies(And(esc, d == ord(x)), And(WF(t, k + 2), OK(t, k) == OK(t, k + 2))))
        ds.append(Implies(And(esc, d == ord(x)), DEC(t, k) == z3.Concat(zstr(out), DEC(t, k + 2))))
    digits = []
    for x, size in NUMERIC.items():
        hs = [char(t, k + 2 + i) for i in range(size)]
        digits += hs
        v = z3.IntVal(0)
        for h in hs:
            v = v * 16 + hexval(h)
        fs.append(Implies(And(esc, d == ord(x)), And(
            k + 2 + size <= n, *[hexdigit(h) for h in hs], WF(t, k + 2 + size),
            OK(t, k) == And(v <= 0x10FFFF, OK(t, k + 2 + size)))))
        ds.append(Implies(And(esc, d == ord(x), v <= 0x10FFFF), DEC(t, k) == z3.Concat(z3.Unit(v), DEC(t, k + 2 + size))))
    return And(*fs), And(*ds), *[values.digit_fact(h) for h in {h.get_id(): h for h in digits}.values()]


def decode_template(sc, en, changed):
    """what was written so far, and what the rest denotes, together are what the whole text denotes"""
    e = engine()
    t = getattr(e, "ghost_text", None)
    if t is None:
        return
    from pyvc.lib import join
    poss = {}
    for p, it in sc.iters.items():
        if p + ".pos" in changed:
            poss["it " + p] = zint(it.pos)
    for p, v in sc.ints.items():
        if p in changed:
            poss["int " + p] = zint(v)
    zero = z3.IntVal(0)
    outs = {}
    for p, l in sc.lists.items():
        if p + "[]" in changed or p in changed:
            try:
                outs["list " + p] = zstr(join(None, "", l))
            except (OutOfSubset, TypeError):
                pass
    for p, s in sc.strs.items():
        if p in changed:
            outs["str " + p] = zstr(s)
    if not outs:
        return
    for p, pos in poss.items():
        step(t, pos)
        yield f"rest well-formed {p}", And(pos >= 0, pos <= z3.Length(t), WF(t, pos))
        yield f"rest decodes {p}", OK(t, zero) == OK(t, pos)
        for q, o in outs.items():
            yield f"decoded {q} to {p}", Implies(OK(t, zero), DEC(t, zero) == vconcat(o, DEC(t, pos)))


LETTERS = "iIcCld"
MEANING = {"CASE_INSENSITIVE": "ic", "CASE_SENSITIVE": "IC", "LITERAL_MATCHING": "l", "IGNORE_DIACRITICS": "d"}


def flag_template(sc, en, changed):
    """a flag is in the set exactly when one of its letters was passed"""
    e = engine()
    fs = getattr(e, "ghost_letters", None)
    if not fs or not any(q in changed or q + "{}" in changed for q in list(sc.sets) + list(sc.bools)):
        return
    poss = {}
    for p, it in sc.iters.items():
        if p + ".pos" in changed:
            poss["it " + p] = zint(it.pos)
    for p, v in sc.ints.items():
        if p in changed:
            poss["int " + p] = zint(v)
    for p, pos in poss.items():
        for f in fs.values():
            f.at(pos)
        e.axiom(("letter", str(pos)), Implies(And(pos >= 0, pos < fs["i"].n), Or(*[f.pred(pos) for f in fs.values()])))
        for name, letters in MEANING.items():
            m = fcsql("parser").RegexFlag[name]
            seen = Or(*[pos > fs[c].F for c in letters])
            for q, s in sc.sets.items():
                if q + "{}" in changed or q in changed:
                    v = s.mem(m)
                    yield f"{name} in {q} iff passed {p}", Iff(zb(v), seen)
            for q, b in sc.bools.items():
                if q in changed:
                    yield f"{q} iff passed {name} {p}", Iff(zb(b), seen)


TEMPLATES = [("decode", decode_template), ("flags", flag_template)]


@harness("C05", "lemma: text without backslash denotes itself")
def lemma_plain(e, I):
    t = atomic(a_str(e, "text").z)
    k = an_int(e, "k").z
    e.assume(char(t, k) == t[k])            # what char_at means
    n = z3.Length(t)
    rest = lambda j: z3.SubSeq(t, j, n - j)
    e.assume(And(k >= 0, k < n, char(t, k) != 92))
    step(t, k)
    step(t, n)
    e.prove("C05", "at the end", And(OK(t, n), DEC(t, n) == rest(n)))
    e.assume(And(OK(t, k + 1), DEC(t, k + 1) == rest(k + 1)))
    e.prove("C05", "induction step", And(OK(t, k), DEC(t, k) == rest(k)))
    e.cover("lemma")


def plain_lemma(e, t):
    """instance of the lemma for the whole text (`lemma_plain`)"""
    e.assume(Implies(Not(z3.Contains(t, z3.Unit(z3.IntVal(92)))), And(OK(t, 0), DEC(t, 0) == t)))


def short(e, t, k):
    """in the bounded mode texts have at most k characters"""
    if getattr(e, "bounded", None) is None:
        return None
    e.assume(z3.Length(t) <= k)
    return k


def flag_text(e, I):
    """one or more flag letters (lexer)"""
    s = a_str(e, "flags")
    atomic(s.z)
    n = z3.Length(s.z)
    e.assume(n > 0)
    fs = e.ghost_letters = {}
    for c in LETTERS:
        f = fs[c] = First(e, "letter_" + c + str(ord(c)), n, lambda j, c=c: char(s.z, j) == ord(c))
        has = z3.Contains(s.z, z3.Unit(z3.IntVal(ord(c))))
        e.assume(has == f.exists)
        f.at(z3.IntVal(0))
        for j in range(short(e, s.z, 2) or 0):
            f.at(z3.IntVal(j))
    for j in range(short(e, s.z, 2) or 1):
        e.assume(Implies(j < n, Or(*[f.pred(z3.IntVal(j)) for f in fs.values()])))

    def charset(x, frozen=False):
        if not x.z.eq(s.z):
            raise OutOfSubset("set of the characters of a symbolic text")
        return VSet({c: mkbool(fs[c].exists) for c in LETTERS}, frozen=frozen)
    I.lib_charset = charset
    return s, {k: Or(*[fs[c].exists for c in v]) for k, v in MEANING.items()}


CASES = [f"{k}{f} {q}{o}" for k in ("bare", "layer", "qualified") for f in ("", "-flags")
         for q in ("single-quoted", "double-quoted") for o in (("",) if k == "bare" else (" EQ", " NE"))]
NAMES = ("IDENTIFIER", "WITHIN", "SIMPLE_WITHIN_SCOPE", "REGEXP_FLAGS")       # tokens that may name a layer or qualifier
CASES += [f"{k} double-quoted EQ {t}" for k in ("layer", "qualified") for t in NAMES[1:]]


def quoted_text(e, k, kind, quote, a):
    """the quoted text: any text of characters and admitted escapes"""
    body = a_str(e, "body")
    a.body = atomic(body.z)
    e.solver.heavy = {"DECODED"}
    e.ghost_text = a.body
    e.assume(WF(a.body, 0))
    for j in range(1 + (short(e, a.body, 1 if kind.endswith("flags") else 3) or 0)):
        step(a.body, z3.IntVal(j))
    plain_lemma(e, a.body)
    a.decodes, a.denotes = OK(a.body, 0), DEC(a.body, 0)
    return SymStr(zconcat(zstr(quote), a.body, zstr(quote)))


def expression_tree(e, I, k, kind, quote, op, names="IDENTIFIER"):
    """the parse tree of an expression, and what it says"""
    a = Case()
    a.qualifier = a.identifier = a.op = None
    left = []
    if not kind.startswith("bare"):
        at = []
        if kind.startswith("qualified"):
            a.qualifier = a_str(e, "qualifier")
            e.assume(q_set(a.qualifier))
            at += [k.ctx("qualifier", [k.terminal(names, a.qualifier)]), k.terminal("COLON")]
        a.identifier = a_str(e, "identifier")
        e.assume(z3.Length(a.identifier.z) > 0)
        at += [k.ctx("identifier", [k.terminal(names, a.identifier)])]
        a.op = op
        left = [k.ctx("attribute", at), k.terminal("OPERATOR_" + a.op)]
    if names == "IDENTIFIER":
        quoted = quoted_text(e, k, kind, quote, a)
    else:
        a.decodes, a.denotes, quoted = z3.BoolVal(True), zstr("x"), quote + "x" + quote
        e.ghost_text = None
    rx = [k.ctx("regexp_pattern", [k.terminal("REGEXP", quoted)])]
    a.flags = {m: z3.BoolVal(False) for m in MEANING}
    if kind.endswith("flags"):
        s, a.flags = flag_text(e, I)
        rx += [k.terminal("FWD_SLASH"), k.ctx("regexp_flag", [k.terminal("REGEXP_FLAGS", s)])]
    else:
        e.ghost_letters = None
    r = k.ctx("regexp", rx)
    a.tree = k.ctx("query_implicit", [r]) if not left else k.ctx("expression_basic", left + [r])
    return a


class Case:
    pass


@harness("C05 C06 C08 C10 C17 C24 C02 C03", "expression", TEMPLATES, cases=CASES)
def expression(e, I):
    p = fcsql("parser")
    T = "C02 C03"
    kind, quote, op, names = (e.case.split() + ["none", "IDENTIFIER"][len(e.case.split()) - 2:])[:4]
    st = saved_state().__enter__()
    b, q, cfg, below = a_builder(e, I)
    k = Kit(e, I)
    a = expression_tree(e, I, k, kind, {'s': "'", 'd': '"'}[quote[0]], op, names)
    r, x = attempt(e, I, "C02", "building an expression", p.ExpressionTreeBuilder.visit, b, a.tree,
                   allowed=(p.ExpressionTreeBuilderException,))
    f = a.flags
    decodes = a.decodes
    exclusive = Or(And(f["CASE_SENSITIVE"], f["CASE_INSENSITIVE"]),
                   And(f["LITERAL_MATCHING"], Or(f["CASE_SENSITIVE"], f["CASE_INSENSITIVE"], f["IGNORE_DIACRITICS"])))
    if r == "exc":
        e.note(repr(x)[:200])
        e.prove("C02 C05 C06", "an expression is rejected only for a code point out of range or flags that exclude each other",
                Or(Not(decodes), exclusive))
        rejected(e, I, T, x)
        if names == "IDENTIFIER":
            e.cover("rejected")
        return
    e.prove("C05 C02", "a number beyond the last code point is rejected", decodes)
    e.prove("C06 C02", "flags that exclude each other are rejected", Not(exclusive))
    n = pushed(e, I, T, "expression", b, below)
    e.prove("C03", "the node is an Expression", type(n) is p.Expression)
    if type(n) is not p.Expression:
        return
    text = I.getattr(n, "regex")
    form = cfg["unicode_normalization_form"]
    want = z3.If(zb(is_none(I, form)), a.denotes, values.F_NORMALIZE(FORM.text(form).z, a.denotes))
    e.prove("C05", "the search text is what the quoted text denotes, in the configured normalization form",
            isinstance(text, (str, SymStr)) and zstr(text) == want)
    fl = I.getattr(n, "regex_flags")
    e.prove("C06", "the flag set is None exactly without flags", Iff(is_none(I, fl), not kind.endswith("flags")))
    if fl is not None and kind.endswith("flags"):
        for m in MEANING:
            e.prove("C06", "a flag is set exactly when one of its letters is written",
                    Iff(zb(I.contains(fl, p.RegexFlag[m])), f[m]), m)
    if kind.startswith("bare"):
        e.prove("C08", "an implicit expression has the configured identifier", eqf(I, I.getattr(n, "identifier"), cfg["default_identifier"]))
        e.prove("C08", "an implicit expression has the configured operator", samef(I, I.getattr(n, "operator"), cfg["default_operator"]))
    else:
        e.prove("C08", "the identifier is the one written", eqf(I, I.getattr(n, "identifier"), a.identifier))
        e.prove("C08", "the operator is the one written",
                I.getattr(n, "operator") is (p.Operator.EQUALS if a.op == "EQ" else p.Operator.NOT_EQUALS))
    e.prove("C08", "the qualifier is the one written, None without one",
            eqf(I, I.getattr(n, "qualifier"), a.qualifier))
    e.prove("C03", "an expression has no children", not items(I.getattr(n, "children")))
    check_location(e, I, n, a.tree.start, a.tree.stop)
    check_config(e, I, q, cfg)
    frame(e, "C17", st)
    e.cover("node")
