"""Independent reference for FCS-QL 2.0: tokens, derivations, meaning.  Written from the grammar in the specification;
shares no code with the project."""
import re
import unicodedata

WS = "\t\n\v\f\r \x85\xa0\u1680" + "".join(map(chr, range(0x2000, 0x200b))) + "\u2028\u2029\u202f\u205f\u3000"
ESC = r"\\(?:[\\'\"nt.^$*+?(){}\[\]|]|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})"
SCOPES = {"sentence": "SENTENCE", "s": "SENTENCE", "utterance": "UTTERANCE", "u": "UTTERANCE", "paragraph": "PARAGRAPH",
          "p": "PARAGRAPH", "turn": "TURN", "t": "TURN", "text": "TEXT", "session": "SESSION"}
RULES = [(c, re.escape(c)) for c in "()[]|&!/{}+*?,="] + [
    ("!=", "!="), (":", ":"), ("WITHIN", "within"),
    ("SCOPE", "|".join(sorted(SCOPES, key=len, reverse=True))),
    ("FLAGS", "[iIcCld]+"), ("ID", "[a-zA-Z](?:[a-zA-Z0-9-]*[a-zA-Z0-9])?"), ("INT", "[0-9]+"),
    ("RE", rf"'(?:{ESC}|[^'\\])*'|\"(?:{ESC}|[^\"\\])*\""), ("SPACE", "[" + re.escape(WS) + "]")]
RULES = [(n, re.compile(p, re.S)) for n, p in RULES]


class Reject(Exception):
    """kind: lexical, syntax, flags, bounds, codepoint"""

    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind


class Tok:
    __slots__ = ("type", "text", "start", "stop")

    def __init__(self, type, text, start):
        self.type, self.text, self.start, self.stop = type, text, start, start + len(text)


def lex(q):
    out, i = [], 0
    while i < len(q):
        best = None
        for n, r in RULES:
            m = r.match(q, i)
            if m and m.end() > i and (best is None or m.end() > best[1]):
                best = (n, m.end())
        if best is None:
            raise Reject("lexical", f"at {i}")
        if best[0] != "SPACE":
            out.append(Tok(best[0], q[i:best[1]], i))
        i = best[1]
    return out


class Node:
    __slots__ = ("cls", "attrs", "start", "stop", "children")

    def __init__(self, cls, start, stop, children=(), **attrs):
        self.cls, self.attrs, self.start, self.stop, self.children = cls, attrs, start, stop, list(children)

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


ONE = {"\\": "\\", '"': '"', "'": "'", "n": "\n", "t": "\t"}


def decode(text):
    """text of a REGEXP token -> search text (before normalization)"""
    body, out, i = text[1:-1], [], 0
    while i < len(body):
        c = body[i]
        if c != "\\":
            out.append(c)
            i += 1
            continue
        c = body[i + 1]
        if c in "xuU":
            n = {"x": 2, "u": 4, "U": 8}[c]
            v = int(body[i + 2:i + 2 + n], 16)
            if v > 0x10FFFF:
                raise Reject("codepoint", hex(v))
            out.append(chr(v))
            i += 2 + n
        else:
            out.append(ONE.get(c, "\\" + c))
            i += 2
    return "".join(out)


FLAG = {"i": "CASE_INSENSITIVE", "c": "CASE_INSENSITIVE", "I": "CASE_SENSITIVE", "C": "CASE_SENSITIVE",
        "l": "LITERAL_MATCHING", "d": "IGNORE_DIACRITICS"}


class P:
    """recursive descent over the token list; syntax first, meaning afterwards"""

    def __init__(self, toks, identifier, operator, form):
        self.t, self.i = toks, 0
        self.identifier, self.operator, self.form = identifier, operator, form
        self.late = []

    def peek(self, k=0):
        return self.t[self.i + k].type if self.i + k < len(self.t) else "EOF"

    def take(self, *types):
        if self.peek() not in types:
            raise Reject("syntax", f"token {self.i}: {self.peek()} not in {types}")
        self.i += 1
        return self.t[self.i - 1]

    def query(self):
        n = self.alternatives(True)
        if self.peek() == "WITHIN":
            self.take("WITHIN")
            s = self.take("SCOPE")
            w = Node("SimpleWithin", s.start, s.stop, scope=SCOPES[s.text])
            n = Node("QueryWithWithin", n.start, s.stop, [n, w])
        if self.peek() != "EOF":
            raise Reject("syntax", f"token {self.i}: text after the query")
        for f in self.late:
            f()
        return n

    def alternatives(self, top):
        alts = [self.items()]
        while self.peek() == "|":
            self.take("|")
            alts.append(self.items())
        if len(alts) == 1:
            items = alts[0]
            return items[0] if top and len(items) == 1 else self.seq(items)
        ops = [a[0] if len(a) == 1 and a[0].cls == "QuerySegment" else self.seq(a) for a in alts]
        return Node("QueryDisjunction", ops[0].start, ops[-1].stop, ops)

    @staticmethod
    def seq(items):
        return Node("QuerySequence", items[0].start, items[-1].stop, items)

    def items(self):
        out = [self.item()]
        while self.peek() in ("RE", "[", "("):
            out.append(self.item())
        return out

    def item(self):
        if self.peek() == "(":
            a = self.take("(")
            c = self.alternatives(False)
            b = self.take(")")
            return self.quantified("QueryGroup", c, a.start, b.stop)
        if self.peek() == "[":
            a = self.take("[")
            if self.peek() == "]":
                b = self.take("]")
                return self.quantified("QuerySegment", Node("ExpressionWildcard", a.start, b.stop), a.start, b.stop)
            e = self.or_()
            b = self.take("]")
            return self.quantified("QuerySegment", e, a.start, b.stop)
        e = self.regexp(None)
        return self.quantified("QuerySegment", e, e.start, e.stop)

    def quantified(self, cls, child, start, stop):
        n = Node(cls, start, stop, [child], min=1, max=1)
        k = self.peek()
        if k in ("+", "*", "?"):
            n.stop = self.take(k).stop
            n.attrs.update(zip(("min", "max"), {"+": (1, -1), "*": (0, -1), "?": (0, 1)}[k]))
        elif k == "{":
            self.take("{")
            if self.peek() == "INT":
                lo = int(self.take("INT").text)
                hi = lo
                if self.peek() == ",":
                    self.take(",")
                    hi = int(self.take("INT").text) if self.peek() == "INT" else -1
            else:
                self.take(",")
                lo, hi = 0, int(self.take("INT").text)
            n.stop = self.take("}").stop
            n.attrs.update(min=lo, max=hi)
            if hi != -1 and lo > hi:
                self.late.append(lambda: self.fail("bounds", f"{lo} > {hi}"))
        return n

    def fail(self, kind, msg):
        raise Reject(kind, msg)

    def or_(self):
        ops = [self.and_()]
        while self.peek() == "|":
            self.take("|")
            ops.append(self.and_())
        return ops[0] if len(ops) == 1 else Node("ExpressionOr", ops[0].start, ops[-1].stop, ops)

    def and_(self):
        ops = [self.unary()]
        while self.peek() == "&":
            self.take("&")
            ops.append(self.unary())
        return ops[0] if len(ops) == 1 else Node("ExpressionAnd", ops[0].start, ops[-1].stop, ops)

    def unary(self):
        if self.peek() == "!":
            a = self.take("!")
            c = self.unary()
            return Node("ExpressionNot", a.start, c.stop, [c])
        if self.peek() == "(":
            a = self.take("(")
            c = self.or_()
            b = self.take(")")
            return Node("ExpressionGroup", a.start, b.stop, [c])
        names = ("ID", "WITHIN", "SCOPE", "FLAGS")
        first = self.take(*names)
        q, ident = None, first
        if self.peek() == ":":
            self.take(":")
            q, ident = first.text, self.take(*names)
        op = self.take("=", "!=")
        return self.regexp((first.start, q, ident.text, "EQUALS" if op.type == "=" else "NOT_EQUALS"))

    def regexp(self, attr):
        t = self.take("RE")
        stop, flags = t.stop, None
        if self.peek() == "/":
            self.take("/")
            f = self.take("FLAGS")
            stop = f.stop
            flags = {FLAG[c] for c in f.text}
            if {"CASE_SENSITIVE", "CASE_INSENSITIVE"} <= flags or "LITERAL_MATCHING" in flags and len(flags) > 1:
                self.late.append(lambda: self.fail("flags", f.text))
        start, q, ident, op = attr or (t.start, None, self.identifier, self.operator)
        n = Node("Expression", start, stop, qualifier=q, identifier=ident, operator=op, flags=flags, token=t.text)

        def value():
            s = decode(t.text)
            n.attrs["regex"] = unicodedata.normalize(self.form, s) if self.form else s
        self.late.append(value)
        return n


def parse(q, identifier="text", operator="EQUALS", form="NFC"):
    return P(lex(q), identifier, operator, form).query()


def verdict(q, **kw):
    """('ok', tree) or (kind of rejection, message)"""
    try:
        return "ok", parse(q, **kw)
    except Reject as r:
        return r.kind, str(r)


# ------------------------------------------------------------------------------------------------ ordered derivation
class Ordered:
    """The first derivation of a bracketed expression when the alternatives of every rule are tried in grammar order
    with the whole rest of the input as look-ahead (what an ALL(*) parser does with the ambiguous expression rules).
    Leaves and brackets come from the precedence tree, operators from the token list."""
    RULES = {"any": ("basic", "group", "or", "and", "not"), "or0": ("basic", "group", "and", "not"),
             "and0": ("basic", "group", "not"), "and1": ("basic", "group", "or", "not"),
             "not0": ("basic", "group", "not", "or", "and")}

    def __init__(self, toks):
        self.t = toks               # items: ("B", node) or ("&", Tok) ...
        self.memo = {}

    def at(self, i):
        return self.t[i][0] if i < len(self.t) else None

    def ends(self, r, i):
        k = (r, i)
        if k not in self.memo:
            self.memo[k] = set()
            self.memo[k] = frozenset(self.ends_(r, i))
        return self.memo[k]

    def ends_(self, r, i):
        if r in self.RULES:
            return set().union(*[self.ends(x, i) for x in self.RULES[r]])
        if r == "basic":
            return {i + 1} if self.at(i) == "B" else set()
        if r == "group":
            return {e + 1 for e in self.ends("any", i + 1) if self.at(e) == ")"} if self.at(i) == "(" else set()
        if r == "not":
            return self.ends("not0", i + 1) if self.at(i) == "!" else set()
        out = set()
        for e in self.ends(r + "0", i):
            out |= self.ends((r, "more"), e) - {e}
        return out

    def more(self, r, i):
        """ends of (OP operand)* from i"""
        return self.ends((r, "more"), i)

    def first(self, alts, i, K):
        for r in alts:
            if self.ends(r, i) & K:
                return self.derive(r, i, K)
        raise AssertionError("no derivation")

    def derive(self, r, i, K):
        if r in self.RULES:
            return self.first(self.RULES[r], i, K)
        if r == "basic":
            return self.t[i][1], i + 1
        if r == "group":
            n, e = self.first(self.RULES["any"], i + 1, {k - 1 for k in K if self.at(k - 1) == ")"})
            return Node("ExpressionGroup", self.t[i][1].start, self.t[e][1].stop, [n]), e + 1
        if r == "not":
            n, e = self.first(self.RULES["not0"], i + 1, K)
            return Node("ExpressionNot", self.t[i][1].start, n.stop, [n]), e
        op = "|" if r == "or" else "&"
        nxt = r + "0" if r == "or" else "and1"
        rest = {e for e in range(len(self.t) + 1) if self.at(e) == op and (self.more(r, e) - {e}) & K}
        n, e = self.first(self.RULES[r + "0"], i, rest)
        ops = [n]
        while True:
            cont = self.at(e) == op and (self.more(r, e) - {e}) & K
            if not cont:
                assert e in K
                break
            after = {p for p in self.ends(nxt, e + 1) if p in K or self.at(p) == op and (self.more(r, p) - {p}) & K}
            n, e = self.first(self.RULES[nxt], e + 1, after)
            ops.append(n)
        return Node("ExpressionOr" if r == "or" else "ExpressionAnd", ops[0].start, ops[-1].stop, ops), e


def _ends_more(self, r, i):
    op = "|" if r == "or" else "&"
    nxt = "or0" if r == "or" else "and1"
    out = {i}
    if self.at(i) == op:
        for e in self.ends(nxt, i + 1):
            out |= self.ends((r, "more"), e)
    return out


_plain = Ordered.ends_
Ordered.ends_ = lambda self, r, i: _ends_more(self, r[0], i) if isinstance(r, tuple) else _plain(self, r, i)


def ordered(tree, toks):
    """copy of the precedence tree in which every bracketed expression is its first derivation in grammar order"""
    def flat(n, lo, hi):
        leaves = {x.start: x for x in n.walk() if x.cls == "Expression"}
        out, i = [], lo
        while i < hi:
            t = toks[i]
            if t.start in leaves:
                n = leaves[t.start]
                out.append(("B", n))
                while i < hi and toks[i].stop <= n.stop:
                    i += 1
            else:
                out.append((t.type, t))
                i += 1
        return out

    def go(n):
        if n.cls == "QuerySegment" and n.children[0].cls.startswith("Expression") and \
                n.children[0].cls not in ("Expression", "ExpressionWildcard"):
            c = n.children[0]
            lo = next(i for i, t in enumerate(toks) if t.start == c.start)
            hi = max(i for i, t in enumerate(toks) if t.stop == c.stop) + 1
            items = flat(c, lo, hi)
            o = Ordered(items)
            r, e = o.derive("any", 0, {len(items)})
            return Node(n.cls, n.start, n.stop, [r], **n.attrs)
        return Node(n.cls, n.start, n.stop, [go(c) for c in n.children], **n.attrs)
    return go(tree)
