"""Bounded exploration of each property on the real code (inputs derive from the seed; bounds are in the text of `rule`)."""
import itertools
import random
import time

from . import gen, ref
from .kinds import RUN, Known, SPEC_CLASSES

CHECKS = {}
QUERY_KIND = {"C01": ["language"], "C02": ["totality"], "C03": ["tree"], "C04": ["precedence"], "C05": ["decoding"], "C06": ["flags"],
              "C07": ["bounds"], "C08": ["attributes"], "C09": ["scopes"], "C10": ["locations"], "C11": ["tree_links"],
              "C16": ["records"], "C24": ["low_level"], "C25": ["verdicts"]}
RULES = {}


def check(pid, rule):
    def reg(f):
        CHECKS[pid] = f
        RULES[pid] = rule
        return f
    return reg


class Ctx:
    def __init__(self, pid, seed, budget, scale):
        self.pid, self.R = pid, random.Random(f"{pid}/{seed}")
        self.g = gen.G(self.R)
        self.deadline = time.time() + budget
        self.scale = scale
        self.n = 0
        self.distinct = set()
        self.failures, self.known, self.samples = [], [], []
        self.errors = []

    def more(self):
        return time.time() < self.deadline and len(self.failures) < 3

    def case(self, kind, **inp):
        self.n += 1
        key = repr((kind, sorted(inp.items(), key=lambda x: x[0])))
        if key in self.distinct:
            return
        self.distinct.add(key)
        try:
            r = RUN[kind](**inp)
        except RecursionError:
            return                              # the interpreter's recursion limit is a declared resource limit
        if r is None:
            if len(self.samples) < 3 or self.n in (50, 500):
                self.samples.append({"kind": kind, "input": inp})
            return
        rec = {"property": self.pid, "kind": kind, "input": inp, "observed": str(r)}
        (self.known if isinstance(r, Known) else self.failures).append(rec)

    def loop(self, n, f):
        for i in range(int(n * self.scale)):
            if not self.more():
                return
            f(i)


def size(q, lo=9):
    return sum(q.count(c) for c in "&|!") <= lo


def modest(make, lo=8):
    """generated text with few enough operators (the real parser is exponential in them)"""
    while True:
        q = make()
        if size(q, lo):
            return q


QTOK = ["'a'", "[]", "(", ")", "|", "+", "within", "s"]
ETOK = ["[", "]", "a", "=", "'b'", "&", "|", "!", "(", ")"]


def syntax_inputs(c, kind, n=260):
    for q in gen.JUNK:
        if c.more():
            c.case(kind, query=q)
    for i, q in enumerate(gen.sequences(QTOK, 1, 3)):
        if not c.more():
            return
        if i < 80 or c.R.random() < 0.25 * c.scale:
            c.case(kind, query=q)

    def f(i):
        k = i % 5
        if k == 0:
            c.case(kind, query=modest(lambda: c.g.query(2), 5))
        elif k == 1:
            c.case(kind, query=modest(lambda: c.g.query(1), 5))
        elif k == 4:
            c.case(kind, query="".join(c.g.one(QTOK + ETOK + gen.WSS + ["{", "2", ",", "}", "/", "i", ":", "#"]) + c.g.one(["", " "])
                                       for _ in range(c.R.randint(1, 9))))
        else:
            c.case(kind, query=modest(lambda: c.g.broken(1), 5))
    c.loop(n, f)


def covering(c, kind, share):
    for q in gen.dictionary(c.R, 4 * share * c.scale) + gen.coverage(c.R, min(1, share * c.scale)):
        if not c.more():
            return
        c.case(kind, query=q)


def flag_words(k):
    return ["".join(x) for n in range(1, k + 1) for x in itertools.product("iIcCld", repeat=n)]


@check("C01", "hand-written texts, token sequences up to length 3, random grammar-derived queries and mutations of them; "
              "every kind of token in every place of 12 sentences covering the grammar, every character next to a class boundary in "
              "every place of a token; accept/reject compared with an independent recogniser; distinct texts count")
def c01(c):
    syntax_inputs(c, "language", 400)
    covering(c, "language", .6)


@check("C02", "as C01; outcome type, completeness of the tree and can_parse compared; includes texts whose meaning is rejected")
def c02(c):
    for q in ["'%s'" % e for e in gen.BADPOINTS + gen.NASTY] + ["'a'/" + f for f in gen.BADFLAGS] + ["'a'" + b for b in gen.BADQUANT] + \
            ["('a')" + b for b in gen.BADQUANT] + ["[a='b'/%s]" % f for f in gen.BADFLAGS[:4]] + ["'a'/" + f for f in flag_words(3)] + \
            ["'a'/" + "".join(c.R.choice("iIcCld") for _ in range(c.R.randint(4, 7))) for _ in range(40)] + \
            ["'a'{%d,%d}" % (n, m) for n in range(4) for m in range(4)]:
        if c.more():
            c.case("totality", query=q)
    syntax_inputs(c, "totality", 220)
    covering(c, "totality", .15)


@check("C03", "random grammar-derived queries up to nesting 3 and wide queries; classes and operands of the whole tree compared "
              "with an independent parser")
def c03(c):
    for n in (1, 2, 3, 5, 9, 17, 33):
        for s in (" ", " | "):
            c.case("tree", query=s.join("'%d'" % i for i in range(n)))
            c.case("tree", query="(" + s.join("[a='%d']" % i for i in range(n)) + ")+ within s")
    for n in (2, 3, 5, 8):
        c.case("tree", query="[" + " | ".join("a='%d'" % i for i in range(n)) + "]")
        c.case("tree", query="[" + " & ".join("a='%d'" % i for i in range(n)) + "]")
    for o in (" | ", " & ", "]["):
        for n in (2, 3, 4):
            for w in itertools.product(["a='1'", "a='2'", "!a='1'", "(a='1')"], repeat=n):
                if c.more() and (n < 3 or c.R.random() < .15):
                    c.case("tree", query="[" + o.join(w) + "]", cfg={"enableSourceLocations": c.R.random() < .3})
    for o in (" ", " | "):
        for n in (2, 3, 4):
            for w in itertools.product(["'1'", "'2'", "('1')", "'1'+"], repeat=n):
                if c.more() and (n < 3 or c.R.random() < .15):
                    c.case("tree", query=o.join(w), cfg={"enableSourceLocations": c.R.random() < .3})
    c.loop(400, lambda i: c.case("tree", query=modest(lambda: c.g.query(i % 4), 6), cfg={"enableSourceLocations": bool(i % 2)}))


@check("C04", "all operator sequences over 4-5 operands with !, &, | and brackets (sampled), query-level juxtaposition, |, "
              "quantifiers and brackets up to length 6 (sampled); trees compared with the precedence tree")
def c04(c):
    for q in ["[a='1' & !a='2' | a='3' | a='4']", "[a='1' | a='2' & !a='3' | a='4']", "[a='1' | !a='2' | a='3' & a='4']",
              "[!a='1' | a='2' & a='3' | a='4']"]:
        c.case("precedence", query=q)
    E = ["[a='1']", "[!a='1' & a='2']", "[!a='1' | a='2']", "[a='1' & a='2' | a='3']", "[a='1' | a='2' & a='3']",
         "[a='1' & a='2' | a='3' & a='4']", "[!a='1' & a='2' | a='3']", "[a='1' | a='2' | a='3']", "[a='1' & a='2' & a='3']",
         "[(a='1' | a='2') & a='3']", "[a='1' & (a='2' | a='3')]", "[!(a='1' & a='2') | a='3']", "[!!a='1' & a='2']",
         "[a='1' | !a='2' & a='3']", "[a='1' & !a='2' & a='3']", "'a' 'b' | 'c'", "'a' | 'b' 'c'", "'a' 'b' within s",
         "'a' | 'b' within s", "'a' 'b'+", "('a' 'b')+", "('a' | 'b') 'c'", "'a' ('b' | 'c')", "'a' | 'b'+ | 'c'", "('a')", "(('a'))",
         "('a') | ('b')", "('a') ('b')", "('a' 'b') | 'c'", "[a='1'] [b='2'] | [c='3']+"]
    for q in E:
        if c.more():
            c.case("precedence", query=q)
    for w in itertools.product(["", "+", "*", "?", "{2}", "{2,}", "{1,2}"], repeat=2):
        for q in ("('a'%s)%s", "('a'%s 'b')%s", "(('a' 'b')%s)%s", "(('a' | 'b')%s)%s", "('a' ('b')%s)%s"):
            if c.more() and (w[0] == w[1] or c.R.random() < .4):
                c.case("precedence", query=q % w)
    wraps = ["(%s)", "!%s", "b='1' & %s", "%s | b='2'", "!(%s)", "(%s) & b='3'", "b='4' | (%s)"]
    for n in (2, 3):
        for w in itertools.product(wraps, repeat=n):
            if c.more() and (n == 2 or c.R.random() < .25):
                q = "a='0'"
                for x in w:
                    q = x % q
                c.case("precedence", query="[" + q + "]")
    atoms = ["a='%d'", "!a='%d'", "(a='%d')", "!(a='%d' | b='x')", "(a='%d' & b='x')"]

    def f(i):
        if i % 3 == 2:
            c.g.few = c.R.random() < .3
            q = modest(lambda: c.g.alts(2, esc=0, flags=0), 5)
            c.g.few = False
        else:
            n = c.R.randint(2, 4 + (c.R.random() < .3))
            ws = [c.g.one(atoms[:3] if c.R.random() < .8 else atoms) % k for k in range(n)]
            q = "[" + ws[0] + "".join(c.g.one([" & ", " | "]) + w for w in ws[1:]) + "]"
        c.case("precedence", query=q)
    c.loop(300, f)


CFGS = [None, {"unicode_normalization_form": None}, {"unicode_normalization_form": "NFD"}, {"unicode_normalization_form": "NFKC"},
        {"unicode_normalization_form": "NFKD"}, {"unicode_normalization_form": "NFC", "enableSourceLocations": False}]


@check("C05", "every admitted escape alone, doubled and in context, every pair of escapes (sampled), random quoted texts in all "
              "five normalization forms; decoded text compared")
def c05(c):
    esc = gen.ESCAPES
    for e in esc + gen.BADPOINTS + gen.NASTY:
        for q in ("'%s'" % e, '"x%sy"' % e, "[a='%s%s']" % (e, e)):
            if c.more():
                c.case("decoding", query=q, cfg={"unicode_normalization_form": None})
    for ch in gen.PLAIN:
        if ch not in "'\\":
            c.case("decoding", query="'e%s'" % ch, cfg=c.g.one(CFGS))
    c.case("decoding", query="''", cfg=None)

    def f(i):
        if i % 3 == 0:
            q = "'" + "".join(c.g.one(esc) for _ in range(c.R.randint(2, 5))) + "'"
        elif i % 3 == 1:
            q = "'" + "".join(c.g.one(["e\\u0301", "\\u0301", "a\\x41", "\\\\n", "\\\\\\n", "o\u0308", "ﬁ", "Å", "\\U0001F600", "\\x41\\u0308"])
                              for _ in range(c.R.randint(1, 4))) + "'"
        else:
            q = c.g.regexp(esc=0.6, flags=0.1, long=14)
        c.case("decoding", query=q, cfg=CFGS[i % 6])
    c.loop(450, f)


@check("C06", "all flag strings up to length 3 over iIcCld, sampled up to length 6, in implicit and bracketed expressions")
def c06(c):
    for f in flag_words(3):
        if c.more():
            c.case("flags", query="'a'/" + f)
    c.case("flags", query="'a'")
    c.case("flags", query="[a='b'] 'c'/i [d='e'/l]")

    def g(i):
        f = "".join(c.R.choice("iIcCld" if i % 2 else c.g.one(["icd", "ICd", "l", "id", "cC"])) for _ in range(c.R.randint(1, 8)))
        c.case("flags", query=c.g.one(["'a'/%s", "[a='b'/%s]", "[a='b'/%s & c='d']", "'x' | 'y' / %s", "('x'/%s)+"]) % f)
    c.loop(150, g)


@check("C07", "every quantifier on segments and groups, {n,m} for all n,m up to 12 and beyond, nested")
def c07(c):
    for b in [""] + gen.QUANT + gen.BADQUANT:
        for q in ("'a'%s", "[]%s", "[a='b']%s", "('a' 'b')%s", "('a')%s | 'b'"):
            if c.more():
                c.case("bounds", query=q % b)
    for n in range(0, 13):
        for b in ("{%d}" % n, "{%d,}" % n, "{,%d}" % n):
            c.case("bounds", query="'a'" + b)
        for m in range(0, 13):
            if c.more():
                c.case("bounds", query=c.g.one(["'a'{%d,%d}", "('a'){%d,%d}", "[] { %d , %d }"]) % (n, m))

    def f(i):
        n, m = c.R.choice([0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 2 ** 31, 10 ** 12]), c.R.choice([0, 1, 5, 9, 10, 100, 256, 2 ** 32, 10 ** 12 + 1])
        c.case("bounds", query=c.g.one(["'a'{%d,%d}", "('a'+ | 'b'?){%d,%d}", "(('x'*){%d,%d} 'y'){2}"]) % (n, m))
    c.loop(120, f)


@check("C08", "all identifier and qualifier spellings with both operators, implicit expressions under varied parser defaults")
def c08(c):
    ops = ["EQUALS", "NOT_EQUALS"]
    for n in gen.NAMES:
        for o in ("=", "!="):
            c.case("attributes", query=f"[{n}{o}'x']")
        c.case("attributes", query=f"[{n}:text='x' & q:{n}!='y']")
    for i in ("text", "word", "lemma", "x-y"):
        for o in ops:
            for q in ("'x'", "'x' 'y'/i | [a='b']", "('x')+ within s", "[a!='b'] 'c'", "[q:a='b']'c'[d='e']"):
                c.case("attributes", query=q, cfg={"default_identifier": i, "default_operator": o})
    c.loop(200, lambda i: c.case("attributes", query=modest(lambda: c.g.query(2, esc=0), 5),
                                 cfg={"default_identifier": c.g.one(["text", "foo", "lemma"]), "default_operator": c.g.one(ops),
                                      "enableSourceLocations": bool(i % 2)}))


@check("C09", "every scope keyword after simple, group, sequence and disjunction queries, plus non-scope words")
def c09(c):
    for s in gen.SCOPES + ["ss", "S", "Sentence", "texts", "i", "foo", "within", "sess", "para", "utter", "tur", "tt"]:
        for q in ("'a'", "('a' | 'b')", "'a' 'b'", "'a' | 'b'", "[]{2}"):
            c.case("scopes", query=f"{q} within {s}")
    c.loop(60, lambda i: c.case("scopes", query=modest(lambda: c.g.alts(1), 4) + c.g.one([" within ", "\nwithin "]) + c.g.one(gen.SCOPES)))


@check("C10", "random grammar-derived queries with varied white space, with and without locations; every node's range compared")
def c10(c):
    for q in ["'a'", " 'a' ", "  'a' 'b'  ", "('a')+", " ( 'a' | 'b' ) { 2 } within  s  ", "[ ]", " [ ] + ", "[ a = 'b' / i ]", "[ ! ( a='b' ) ]",
              "'a'/i", "'a' / i within s ", "\n'a'\n|\n'b'\n", "[q : a != 'x' & (b='y') ]", "'é' '😀' | 'z'", "'a' within s\n"]:
        for on in (True, False):
            c.case("locations", query=q, cfg={"enableSourceLocations": on})
    c.loop(350, lambda i: c.case("locations", query=modest(lambda: c.g.query(i % 4), 5), cfg={"enableSourceLocations": i % 5 != 4}))


# ------------------------------------------------------------------ nodes
def leaf(c):
    R = c.R
    k = R.random()
    if k < 0.7:
        a = {"identifier": c.g.one(["text", "word", "lemma", "pos", "x-foo", "foo", "", "orth", "X-1"]), "regex": c.g.one(
            ["x", "NOUN", "noun", "a\nb", "a\tb\rc", "", "\"", "a b", "N.*", "\\n", "é", "\x0b", "1:2", "X", "SYM", "x\r\n"])}
        if R.random() < .5:
            a["qualifier"] = c.g.one(["q", "", " ", "\t\n", "ud17", "\u3000", "text", " q", "stts", None])
        if R.random() < .4:
            a["operator"] = "NOT_EQUALS"
        if R.random() < .5:
            a["flags"] = [f for f in ("CASE_INSENSITIVE", "CASE_SENSITIVE", "LITERAL_MATCHING", "IGNORE_DIACRITICS") if R.random() < .4]
        s = ["Expression", a, []]
    elif k < 0.85:
        s = ["ExpressionWildcard", {}, []]
    else:
        s = ["SimpleWithin", {"scope": c.g.one(["SENTENCE", "UTTERANCE", "PARAGRAPH", "TURN", "TEXT", "SESSION"])}, []]
    return located(c, s)


def located(c, s):
    if c.R.random() < 0.4:
        a = c.g.one([0, 0, 1, 5, 10, 123])
        s[1]["location"] = [a, a + c.g.one([0, 1, 7, 100])]
    return s


def spec(c, depth, cls=None, width=None):
    R = c.R
    cls = cls or c.g.one(SPEC_CLASSES)
    if cls in ("Expression", "SimpleWithin") or depth <= 0 and cls == "ExpressionWildcard":
        s = leaf(c)
        while s[0] != cls:
            s = leaf(c)
        return s
    if width is None:
        width = R.choice([0, 1, 2, 2, 3, 4])
    if cls in ("ExpressionGroup", "ExpressionNot", "QuerySegment", "QueryGroup"):
        width = 1
    if cls == "QueryWithWithin":
        width = min(max(width, 1), 2)
    kids = [spec(c, depth - 1) if depth > 1 and R.random() < .6 else leaf(c) for _ in range(width)]
    a = {}
    if cls in ("QuerySegment", "QueryGroup"):
        a = {"min": c.g.one([1, 0, 2, 1, -1, 10]), "max": c.g.one([1, -1, 1, 2, 0, 30])}
    if cls == "ExpressionWildcard":
        a = {"how": c.g.one(["child", "children"])}
    return located(c, [cls, a, kids])


def each_class(c, kind, n, depth=2, **kw):
    for cls in SPEC_CLASSES:
        for w in (0, 1, 2, 3, 5, 12):
            if c.more():
                c.case(kind, spec=spec(c, 1, cls, w), **kw)
    c.case(kind, spec=spec(c, 1, "QuerySequence", 300), **kw)
    c.case(kind, spec=spec(c, 1, "ExpressionOr", 77), **kw)
    c.loop(n, lambda i: c.case(kind, spec=spec(c, 1 + i % 4), **kw))


@check("C11", "hand-built trees of every class, 0-12 and 300 children, depth up to 4, and parsed trees; links compared")
def c11(c):
    each_class(c, "links", 500)
    c.loop(80, lambda i: c.case("tree_links", query=modest(lambda: c.g.query(2), 4)))


@check("C12", "hand-built trees of every class with 0-12, 77 and 300 children; all accessors at and around all boundary indexes")
def c12(c):
    each_class(c, "access", 500)


@check("C13", "hand-built nodes of every class with varied qualifiers, flags, identifiers and operators")
def c13(c):
    each_class(c, "predicates", 300)
    c.loop(500, lambda i: c.case("predicates", spec=spec(c, 0, "Expression")))


@check("C15", "hand-built trees of every class with varied data and locations, depth up to 4")
def c15(c):
    each_class(c, "string_form", 600)
    c.loop(500, lambda i: c.case("string_form", spec=spec(c, 0, "Expression")))
    deep = ["Expression", {}, []]
    for i in range(40):
        deep = [c.g.one(["ExpressionNot", "ExpressionGroup", "QuerySequence", "QueryGroup"]), {}, [deep]]
    c.case("string_form", spec=deep)


@check("C14", "every class with visitors defining one, all, or all but one handler on both visitor base classes; folds with stops")
def c14(c):
    for adapter in (False, True):
        for first in ([], SPEC_CLASSES):
            for cls in SPEC_CLASSES:
                c.case("dispatch_history", spec=spec(c, 1, cls, 1), steps=[
                    [first, adapter], [SPEC_CLASSES, adapter], [[], adapter], [[cls], not adapter], [[x for x in SPEC_CLASSES if x != cls], adapter]])
    for cls in SPEC_CLASSES:
        for adapter in (True, False):
            for d in ([cls], SPEC_CLASSES, [x for x in SPEC_CLASSES if x != cls], []):
                for w in (0, 2):
                    if c.more():
                        c.case("dispatch", spec=spec(c, 2, cls, w), defined=d, adapter=adapter)
            for stop in (None, 0, 1, 2):
                c.case("folding", spec=spec(c, 2, cls, 3), stop=stop, adapter=adapter)

    def f(i):
        if i % 2:
            c.case("dispatch", spec=spec(c, 3), defined=[x for x in SPEC_CLASSES if c.R.random() < .3], adapter=bool(i % 4 == 1))
        else:
            c.case("folding", spec=spec(c, 3), stop=c.g.one([None, 0, 1, 2, 3]), adapter=bool(i % 4))
    c.loop(300, f)
    c.case("folding", spec=spec(c, 1, "QuerySequence", 150), stop=None, adapter=True)


@check("C16", "rejected and accepted texts (as C01); records compared with an independent listener on the same recognisers")
def c16(c):
    for q in ["'a' #", "#", "'a'\n#", "\n\n  ;'a' ; 'b'", "[a='b' ; c='d']", "", "  ", "'a' 'b\n", "(", "'a' within", "[a=b]", "\n[\n;"]:
        c.case("records", query=q)
    syntax_inputs(c, "records", 300)
    covering(c, "records", .2)


@check("C25", "rejected and accepted texts (as C01); antlr_parse compared with an independent listener on the same recognisers")
def c25(c):
    for q in ["'a' #", "#", "'a'\n#", "\n\n  ;'a' ; 'b'", "[a='b' ; c='d']", "", "  ", "'a' 'b\n", "(", "'a' within", "[a=b]", "\n[\n;"]:
        c.case("low_level", query=q)
    syntax_inputs(c, "low_level", 300)
    covering(c, "low_level", .2)


HIST = ["'a'", "'a'/i", "", "'a' #", "[a='b'", "'\\U00110000'", "'a'/iI", "'a'{2,1}", "('a' | 'b')+ within s", "[q:x='y'/l] 'z'", "[]",
        "'a' 'b'", "'e\\u0301'", "[!a='b' & c='d']", "'a'{2,3}", "'x'{,4}", "| 'a'", "'a'/d", "[a!='b']", "'a' within u", "[pos='X' # ]"]


@check("C17", "histories of up to 9 calls on one parser (valid, rejected and erroneous queries, other parsers in between, trees "
              "damaged by the caller) against fresh parsers")
def c17(c):
    for a in HIST:
        for b in ("'a'", "", "'a'/iI", "[a='b'"):
            if c.more():
                c.case("parser_history", queries=[a, b, a])
    cfgs = [None, {"default_identifier": "foo", "default_operator": "NOT_EQUALS"}, {"enableSourceLocations": False},
            {"unicode_normalization_form": None}]

    def f(i):
        qs = [c.g.one(HIST) if c.R.random() < .6 else modest(lambda: c.g.query(1) if c.R.random() < .6 else c.g.broken(1), 3)
              for _ in range(c.R.randint(2, 9))]
        c.case("parser_history", queries=qs, cfg=cfgs[i % 4], damage=bool(i % 2))
    c.loop(90, f)


# ------------------------------------------------------------------ validation
IDS = ["text", "word", "lemma", "pos", "orth", "norm", "phonetic", "x-foo", "x-", "x", "X-foo", "xx-", "foo", "Text", "wordx", "", "words",
       "POS", "phoneticx", "y-x-z", "lem", "x_a", "texts"]
LISTS = [None, [], ["text"], ["text", "lemma"], ["x-foo", "word"], ["foo", ""], ["POS", "pos"], ["textlemma"], ["pos"],
         ["x-"], ["lem", "foo"], ["x"], ["words", "texts"], ["Text", "POS"], ["y-x-z", ""]]
QUALS = [None, [], [["text", ["q", "ud17"]]], [["text", None]], [["pos", ["ud17"]], ["text", []]], [["text", ["q"]], ["text", ["ud17"]]],
         [["text", None], ["text", ["q"]]], [["lemma", ["q"]], ["pos", None]], [["text", ["qq", "ud"]]], [["x-foo", ["q"]], ["foo", ["ud17"]]],
         [["pos", ["stts"]]], [["text", ["q"]], ["text", None]]]
VALUES = ["NOUN", "noun", "X", "N.*", "", " ", "NO UN", "VERB ", "a-b", "NOUN|VERB", "ADJ", "foo", "é", "x#", "a&b", "~", "_", "%", "/", "@", "<",
          "\\", "SYM", "PUNCT", "ADVX", "A", "\t", "1", "中", ",", ";", "!", "'", '"', "`", "=", ":", "\x00", "a\nb", "INTJ", "SCONJ", "PRON",
          "DET", "AUX", "NUM", "PART", "CCONJ", "PROPN", "ADP", "ADV", "X "]


def ex(**a):
    return ["Expression", a, []]


@check("C18", "every identifier of a list of 23 spellings under 15 allow-lists, random combinations and nested trees")
def c18(c):
    for i in IDS:
        for l in LISTS:
            if c.more():
                c.case("judged", spec=["QuerySegment", {}, [ex(identifier=i)]], ids=l)
    c.loop(400, lambda k: c.case("judged", spec=["ExpressionOr", {}, [ex(identifier=c.g.one(IDS), regex=c.g.one(VALUES)) for _ in range(
        c.R.randint(1, 4))]], ids=c.g.one(LISTS)))


@check("C19", "12 qualifier configurations against used qualifiers and layers, random combinations with allow-lists")
def c19(c):
    for q in QUALS:
        for i in ("text", "pos", "x-foo", "foo", "lemma"):
            for u in (None, "q", "ud17", "qq", "ud", "", " "):
                if c.more():
                    c.case("judged", spec=["QuerySegment", {}, [ex(identifier=i, qualifier=u)]], quals=q)
    c.loop(400, lambda k: c.case("judged", spec=["ExpressionAnd", {}, [ex(identifier=c.g.one(["text", "pos", "foo", "x-foo"]), qualifier=c.g.one(
        ["q", "ud17", "stts", None, "u"])) for _ in range(c.R.randint(1, 4))]], quals=c.g.one(QUALS), ids=c.g.one(LISTS)))


@check("C20", "every tag and a list of near misses, with and without qualifier and flags; is_likely_a_regex on every code point "
              "below 0x300 and random texts")
def c20(c):
    for i in range(0x300):
        c.case("is_regex", value=chr(i))
        if i % 3 == 0:
            c.case("is_regex", value="a" + chr(i) + " b")
    c.case("is_regex", value="")
    for v in VALUES:
        for a in ({}, {"qualifier": "q"}, {"flags": ["CASE_INSENSITIVE"]}, {"flags": []}):
            if c.more():
                c.case("judged", spec=["QuerySegment", {}, [ex(identifier="pos", regex=v, **a)]])
        c.case("judged", spec=["QuerySegment", {}, [ex(identifier="text", regex=v)]])
    c.loop(300, lambda k: c.case("is_regex", value="".join(c.g.one(gen.PLAIN) for _ in range(c.R.randint(0, 6)))))
    c.loop(300, lambda k: c.case("judged", spec=ex(identifier="pos", regex="".join(c.g.one(["NOUN", "X", " ", "A", "|", ".", "VERB", "é", "-"])
                                                                                 for _ in range(c.R.randint(0, 3))),
                                                   qualifier=c.g.one([None, None, "q"]))))


def vquery(c):
    g = c.g
    return modest(lambda: "".join(g.one(["[%s%s%s%s%s]" % (g.one(["", "", "q:", "ud17:"]), g.one(["text", "word", "pos", "foo", "x-a", "lemma"]),
                                                        g.one(["=", "!="]), g.words(), g.one(["", "", "/i"])),
                                         "[(%s=%s & %s=%s) | word='x']" % (g.one(["text", "foo", "pos"]), g.words(), g.one(["bar", "pos"]), g.words()),
                                         g.words(), "[]", "([foo='x'] | [word='y'])+", "[!bar=%s]" % g.words()]) + g.one([" ", ""])
                               for _ in range(c.R.randint(1, 4))) + g.one(["", "", "within s"]), 5)


@check("C21", "generated queries with 0-8 findings in all modes (collecting/raising, warnings as errors or not, text given in three "
              "ways, with and without locations)")
def c21(c):
    for q in ["'a'", "[foo='a']", "[word='a']", "[foo='a'][word='b'][bar='c']", "[word='a'][foo='b']", "[pos='foo']", "[pos='foo'][pos='bar'][foo='x']"]:
        for loc in (True, False):
            c.case("modes", query=q, located=loc)
    c.loop(200, lambda i: c.case("modes", query=vquery(c), ids=c.g.one(LISTS) if i % 3 == 0 else None,
                                 quals=c.g.one(QUALS) if i % 4 == 0 else None, located=i % 5 != 0))


@check("C22", "histories of up to 7 runs on one validator in all modes, texts given or not, against fresh validators")
def c22(c):
    for i in range(60):
        t = "".join(c.g.one(["a", " ", "\t", "[", "é", "\U0001F600", "e\u0301", "\n", "'", "]"]) for _ in range(c.R.randint(1, 14)))
        a = c.R.randint(0, len(t))
        x = ex(identifier=c.g.one(["foo", "word", "text"]), regex="a", location=[a, c.R.randint(a, len(t))] if i % 5 else None)
        c.case("fragments", spec=["ExpressionNot", {}, [x]], text=t, how=c.g.one(["ctor", "arg", "arg", "none"]))
    base = ["'a'", "[foo='a']", "[word='a'][foo='b']", "([foo='x'] | [bar='y'])+ within s", "[pos='foo']", "[!foo='x' & word='y']"]
    for r in (True, False):
        for w in (True, False):
            for a in base:
                for b in base:
                    if c.more() and (c.R.random() < .4 or a == b):
                        c.case("validator_history", steps=[[a, True], [b, False], [a, True], [b, True]], raising=r, wae=w)
    c.loop(120, lambda i: c.case("validator_history", steps=[[c.g.one(base) if c.R.random() < .4 else vquery(c), c.R.random() < .6] for _ in range(
        c.R.randint(2, 7))], raising=bool(i % 2), wae=bool(i % 4 > 1), ids=c.g.one(LISTS) if i % 3 == 0 else None, quals=c.g.one(QUALS) if i % 5 == 0 else None))


@check("C23", "hand-built trees of every class up to depth 5 with findings anywhere; visits, parents and findings compared")
def c23(c):
    for cls in SPEC_CLASSES:
        for w in (1, 2, 4):
            c.case("reach", spec=spec(c, 2, cls, w))
            c.case("reach", spec=spec(c, 3, cls, w), raise_at=2)
    c.loop(250, lambda i: c.case("reach", spec=spec(c, 2 + i % 4), raise_at=c.g.one([None, 1, 2, 3, 5])))


@check("C24", "generated valid, rejected and erroneous queries in all four call modes, known and unknown versions")
def c24(c):
    for v in ("2.2", "2.1", "", "2.2 ", "1.0", "3"):
        for q in ("'a'", "", "[foo='b']"):
            c.case("verdicts", query=q, version=v)
    for q in gen.JUNK + ["'%s'" % e for e in gen.BADPOINTS] + ["'a'/" + f for f in gen.BADFLAGS[:6]] + ["'a'" + b for b in gen.BADQUANT[:2]]:
        if c.more():
            c.case("verdicts", query=q)
    for q in gen.dictionary(c.R, .4 * c.scale):
        if c.more():
            c.case("verdicts", query=q)
    c.loop(220, lambda i: c.case("verdicts", query=vquery(c) if i % 3 else modest(lambda: c.g.broken(1), 4)))
