"""Query generators (all deterministic from a random.Random)."""
import itertools

from . import ref

NAMES = ["text", "word", "lemma", "pos", "orth", "norm", "phonetic", "x-foo", "x-", "a", "abc", "foo-bar", "s", "u", "t", "p",
         "sentence", "session", "within", "i", "c", "l", "dd", "Within", "Text", "x1", "X-a", "z9z", "turn", "utterance", "xx",
         "paragraph", "Icl", "x-y-z", "tt", "wordy", "lexical", "iii"]
FLAGS = ["i", "c", "I", "C", "l", "d", "id", "cd", "Id", "Cd", "ic", "dd", "ddi", "II", "ll", "idc", "CId"]
BADFLAGS = ["iI", "cC", "Ii", "li", "il", "ld", "dl", "lC", "dIi", "cI", "iC", "lI", "lc"]
QUANT = ["+", "*", "?", "{1}", "{0}", "{2}", "{2,}", "{0,}", "{,3}", "{,0}", "{1,2}", "{2,2}", "{0,7}", "{10,20}", "{ 2 , 3 }",
         "{007}", "{1,1}", "{0,1}", "{1,}", "{9,10}", "{3,12}", "{99,100}"]
BADQUANT = ["{3,2}", "{1,0}", "{10,9}", "{2,1}", "{100,20}"]
SCOPES = list(ref.SCOPES)
PLAIN = list("abcXYZ019 .*+?()[]{}|^$-_/#&!=:,;<>~@%") + ["é", "e\u0301", "ſ", "ﬁ", "Å", "\u212b", "\u0130", "ß", "中", "😀", "\u0327",
                                                        "\u0308", "\x00", "\x7f", "\x85", "\u2028", "\t", "\n", "\r", "\ud800", "가", "각", "\u1100"]
ESCAPES = ["\\\\", "\\'", '\\"', "\\n", "\\t", "\\.", "\\^", "\\$", "\\*", "\\+", "\\?", "\\(", "\\)", "\\{", "\\}", "\\[", "\\]",
           "\\|", "\\x41", "\\x0a", "\\xe9", "\\xFF", "\\u00e9", "\\u0301", "\\uABcd", "\\uD800", "\\U0001F600", "\\U00000041",
           "\\U0010FFFF", "\\U0010fffe", "\\x5c", "\\u005C", "\\x27", "\\x22", "\\u212B", "\\uFB01", "\\x00"]
BADPOINTS = ["\\U00110000", "\\U7FFFFFFF", "\\U80000000", "\\UFFFFFFFF", "\\U01000000"]
NASTY = ["\\", "\\x4", "\\xg1", "\\u12", "\\a", "\\U0001F60", "\\r", "\\-", "\\ ", "\\X41"]
WSS = ["", "", " ", "  ", "\t", "\n", "\u3000", "\xa0", "\r\n", "\u2003"]


class G:
    def __init__(self, R):
        self.R = R
        self.few = False        # only a handful of different atoms, so that equal operands are frequent

    def one(self, xs):
        return self.R.choice(xs)

    def regexp(self, flags=0.25, esc=0.25, long=8):
        R = self.R
        if self.few:
            return R.choice(["'a'", "'a'", "'b'", "\"a\"", "'a'/i"])
        q = R.choice("'\"")
        n = R.choice([0, 1, 1, 2, 3, R.randint(0, long)])
        out = []
        for _ in range(n):
            if R.random() < esc:
                out.append(R.choice(ESCAPES))
            else:
                c = R.choice(PLAIN)
                out.append("'" if c == '"' else c)
        s = "".join(x if x != q else "\\" + x for x in out)
        s = q + s + q
        if R.random() < flags:
            s += R.choice(["/", " / "]) + R.choice(FLAGS)
        return s

    def words(self):
        q = self.R.choice("'\"")
        return q + self.R.choice(["", "a", "NOUN", "VERB", "walk", "noun", "N.*", "x y", "A B", "X", "NO UN", "a.b", "-", "a-b"]) + q

    def basic(self, **kw):
        R = self.R
        if self.few:
            return R.choice(["x='a'", "x='a'", "y='a'", "x='b'"])
        at = self.one(NAMES)
        if R.random() < 0.3:
            at = self.one(NAMES) + self.one([":", " : "]) + at
        return at + self.one(["=", "!=", " = ", " != "]) + self.regexp(**kw)

    def expr(self, depth, **kw):
        R = self.R
        if depth <= 0:
            return self.basic(**kw)
        k = R.random()
        if k < 0.30:
            return self.basic(**kw)
        if k < 0.45:
            return self.one(["!", "! "]) + self.unary(depth - 1, **kw)
        if k < 0.60:
            return "(" + self.expr(depth - 1, **kw) + ")"
        op = self.one([" & ", " | ", "&", "|"])
        return op.join(self.expr(depth - 1, **kw) for _ in range(R.choice([2, 2, 2, 3])))

    def unary(self, depth, **kw):
        if self.R.random() < 0.5:
            return self.basic(**kw)
        if self.R.random() < 0.3:
            return "!" + self.unary(depth - 1, **kw)
        return "(" + self.expr(depth, **kw) + ")"

    def quant(self, p=0.3):
        return self.one(["", " "]) + self.one(QUANT) if self.R.random() < p else ""

    def simple(self, depth=2, **kw):
        R = self.R
        k = R.random()
        if k < 0.4:
            s = self.regexp(**kw)
        elif k < 0.5:
            s = self.one(["[]", "[ ]"])
        else:
            s = "[" + self.one(["", " "]) + self.expr(depth if R.random() < .6 else 0, **kw) + self.one(["", " "]) + "]"
        return s + self.quant()

    def item(self, depth, **kw):
        if depth > 0 and self.R.random() < 0.3:
            return "(" + self.alts(depth - 1, **kw) + ")" + self.quant()
        return self.simple(min(depth, 2), **kw)

    def alts(self, depth, **kw):
        R = self.R
        n = R.choice([1, 1, 1, 2, 2, 3])
        return self.one([" | ", "|"]).join(
            self.one([" ", "  ", "", "\n"]).join(self.item(depth, **kw) for _ in range(R.choice([1, 1, 2, 3]))) for _ in range(n))

    def query(self, depth=2, **kw):
        self.few = self.R.random() < 0.25
        q = self.alts(depth, **kw)
        if self.R.random() < 0.3:
            q += self.one([" within ", "within ", "\nwithin\t"]) + self.one(SCOPES)
        self.few = False
        return self.one(WSS) + q + self.one(WSS)

    def mutate(self, q):
        R = self.R
        for _ in range(R.choice([1, 1, 2, 3])):
            i = R.randint(0, len(q))
            j = min(len(q), i + R.randint(1, 3))
            k = R.random()
            junk = self.one(["(", ")", "[", "]", "|", "&", "!", "/", "{", "}", "+", "*", "?", ",", "=", "!=", ":", "within", "s", "i",
                             "I", "a", "-", "1", "'", '"', "\\", " ", "#", ";", "\x00", "é", "<", "within s", "{2}", "/x", "_", "\ufeff", "\u200b",
                             "\x1c", "]]", "))", "x=", "''"])
            if k < 0.35:
                q = q[:i] + q[j:]
            elif k < 0.75:
                q = q[:i] + junk + q[i:]
            elif k < 0.9:
                q = q[:i] + junk + q[j:]
            else:
                q = q[:i] + q[i:j][::-1] + q[j:]
        return q

    def broken(self, depth=1):
        return self.mutate(self.query(depth))


def sequences(alphabet, lo, hi, sep=" "):
    for n in range(lo, hi + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield sep.join(s)


JUNK = ["", " ", "\n", "#", "a", "=", "'", '"', "\\", "'a", "[", "]", "()", "[]]", "'a' b", "'a' #", "# 'a'", "'a' within",
        "within s", "'a' within s s", "'a' within x", "'a' within within", "[a]", "[a=]", "[='a']", "[a='b'", "[a='b' & ]", "[& a='b']",
        "[a='b' |]", "'a'/", "'a'/x", "'a'/i/i", "'a'{", "'a'{}", "'a'{,}", "'a'{1", "'a'++", "'a'{1}{2}", "('a'", "'a')", "| 'a'", "'a' |",
        "'a' | | 'b'", "[a:b:c='d']", "[a='b' c='d']", "[!]", "[()]", "[a=='b']", "[a<>'b']", "[1='b']", "[-a='b']", "[a-='b']", "x",
        "'\\q'", "'\\x4'", "'\\", "'a\\'", "'a' 'b' within", "within", "[within='a']", "[within:within='a']", "[s='a'] within s",
        "'a' within text", "'a' within textt", "[a='b']]", "'a' \x00", "\ufeff'a'", "'a'\u200b", "[a='b'] & [c='d']", "'a'{1,2,3}",
        "'a'{-1}", "'a'{a}", "'a' /i", "'a'/ i", "''", "\"\"", "'a' within s #", "'a'{1 2}", "'a' * *", "[]{2}+", "[a != 'b']", "[a ! = 'b']",
        "('a' | 'b') within u", "(('a'))", "(())", "[ (a='b') ]", "[((a='b'))]", "[!!a='b']", "[! (a='b' | c='d')]", "'a'/iIcCld", "'a'/l", "\"a' within s",
        "[a='b'] within s within u", "[ws:text='a' & lemma='b'] | 'c'+ within paragraph"]


# ------------------------------------------------------------------ coverage of the reference grammar
SEEDS = ["'a'", "'a' / i", "[ ]", "[ a = 'b' ]", "[ q : a != 'b' / l ]", "'a' +", "( 'a' ) { 1 , 2 }", "( 'a' | 'b' 'c' ) within s",
         "[ ! ! ( a = 'b' | c = 'd' & ! e = 'f' ) & g = 'h' ] * 'x' ?", "( ( [ ] { , 3 } ) { 2 , } | 'y' { 4 } ) 'z'",
         "[ ( ( a = 'b' ) ) ] within session", "[ s : within = 'a' | text : i = 'b' ]"]
SAMPLE = ["(", ")", "[", "]", "|", "&", "!", "/", "{", "}", "+", "*", "?", ",", "=", "!=", ":", "within", "s", "text", "i", "Id", "word", "x-1", "7",
          "'x'", '"y"', "#"]


def token_coverage(R, share=1.0):
    """every token of every seed sentence replaced by, or preceded by, every kind of token; every token left out; every prefix"""
    out = []
    for s in SEEDS:
        t = s.split(" ")
        for i in range(len(t) + 1):
            out.append(t[:i])
            if i < len(t):
                out.append(t[:i] + t[i + 1:])
            for x in SAMPLE:
                if i < len(t):
                    out.append(t[:i] + [x] + t[i + 1:])
                out.append(t[:i] + [x] + t[i:])
    if share < 1:
        out = [x for x in out if R.random() < share]
    R.shuffle(out)
    for x in out:
        yield " ".join(x)


def char_coverage(R, share=1.0):
    """every character next to a boundary of a character class of the reference tokens, in every place of the tokens"""
    edges = set(range(0x00, 0x100)) | {0x131, 0x130, 0x17f, 0x212a, 0x2028, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff,
                                       0xff11, 0x661, 0xff41}
    for c in ref.WS:
        edges |= {ord(c) - 1, ord(c), ord(c) + 1}
    frames = ["'a'%s'b'", "%s'a'", "'a'%s", "[%s='b']", "[a%s='b']", "[a%sb='b']", "[a1%s2='b']", "[q:%s='b']", "'%s'", '"%s"', "'\\%s'", "'\\x%s1'", "'\\x1%s'",
              "'\\u%s123'", "'\\u123%s'", "'\\u1%s23'", "'\\U0000%s123'", "'\\U0001123%s'", "'a'{%s}", "'a'{1%s}", "'a' within %s", "'a' within s%s", "'a'/%s", "'a'/i%s",
              "'a' wit%shin s", "'a\\\\%s'"]
    out = [f % chr(c) for c in sorted(edges) for f in frames if share >= 1 or R.random() < share]
    R.shuffle(out)
    return out


def coverage(R, share=1.0):
    out = list(token_coverage(R, share)) + list(char_coverage(R, share)) + dictionary(R, share)
    R.shuffle(out)
    return out


def source_words():
    """words of the string constants of the code under test (what it compares texts with is likely among them)"""
    import ast
    import os
    import re
    words = set()
    base = os.path.join(os.environ.get("FCSQL_REPO", "/repo"), "src", "fcsql")
    for f in ("parser.py", "validation.py", "__init__.py"):
        try:
            tree = ast.parse(open(os.path.join(base, f), encoding="utf-8").read())
        except (OSError, ValueError, SyntaxError):
            continue
        docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs:
                words.add(n.value[:60])
                words |= set(re.findall(r"[A-Za-z][A-Za-z0-9-]*", n.value))
    return sorted(w for w in words if w)


def dictionary(R, share=1.0):
    out = []
    for w in source_words():
        for f in ("'a' %s", "%s", "'%s'", "[%s='a']", "'a' '%s", "[a='b' %s", "[%s:text='b'", "'a' within %s"):
            if share >= 1 or R.random() < share:
                out.append(f % w)
    R.shuffle(out)
    return out
