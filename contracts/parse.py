"""parse, can_parse, validate, antlr_parse and the error listener (C02, C16, C17, C24, C25).

The lexer and parser classes of ANTLR stand behind an assumed contract (below, `Recognisers`): `query()` reports some finite
sequence of lexical and syntax errors, each once to every registered listener, and answers a parse tree; no error is
reported exactly when the whole input was consumed by the grammar.
"""
import z3

from pyvc import loops, values
from .base import *

MSG = z3.Function("MSG", V, SEQI)               # message of a record
PREFIX = "unable to parse query: "
NODE_V = OpaqueModel()


class RecordModel(Model):
    """an error record that was added earlier"""
    name = "record"

    def is_none(self, o):
        return False

    def truth(self, o):
        return True

    def getattr(self, o, name):
        if name == "message":
            return SymStr(MSG(o.term))
        raise OutOfSubset(f"attribute {name!r} of an unconstrained record")

    def str_(self, o):
        raise OutOfSubset("str of an unconstrained record")


RECORD = RecordModel()


class SomeError(Exception):
    """any exception"""


# ------------------------------------------------------------------ assumed contract of the ANTLR recognisers
class Stream:
    def __init__(self, data):
        self.data = data
        self.strdata = data


class Recogniser:
    def __init__(self, world, kind, source):
        self.world, self.kind, self.source = world, kind, source
        self.listeners = ["console"]

    def removeErrorListeners(self):
        self.listeners = []

    def addErrorListener(self, l):
        self.listeners = self.listeners + [l]

    def removeErrorListener(self, l):
        self.listeners = [x for x in self.listeners if x is not l]


class Lexer(Recogniser):
    pass


class Tokens:
    def __init__(self, lexer):
        self.tokenSource = lexer


class Parser(Recogniser):
    def query(self):
        return self.world.run(self)

    def getNumberOfSyntaxErrors(self):
        return self.world.np if self.world.ran else 0


class Tree:
    def __init__(self, world):
        self.world = world

    def accept(self, visitor):
        return self.world.build(visitor)


class World:
    def __init__(self, e, I, tags, query):
        self.e, self.I, self.T, self.query = e, I, tags, query
        self.ran = 0
        self.tree = Tree(self)
        self.nl, self.np = an_int(e, "lexical_errors"), an_int(e, "syntax_errors")
        e.assume(And(self.nl.z >= 0, self.np.z >= 0))
        self.records = None
        self.events = []
        self.built = 0
        p = fcsql("parser")
        import antlr4
        I.handlers[id(antlr4.InputStream)] = lambda I, a, k: self.stream(*a, **k)
        I.handlers[id(p.FCSLexer)] = lambda I, a, k: Lexer(self, "lexer", *a, **k)
        I.handlers[id(antlr4.CommonTokenStream)] = lambda I, a, k: Tokens(*a, **k)
        I.handlers[id(p.FCSParser)] = lambda I, a, k: Parser(self, "parser", *a, **k)

    def stream(self, data):
        decide(self.e, [], self.T + " C01 C10" * ("C25" not in self.T), "the recognisers read the query itself",
               eqf(self.I, data, self.query), "another text")
        return Stream(data)

    def total(self):
        return self.nl.z + self.np.z

    def run(self, parser):
        e, I, p = self.e, self.I, fcsql("parser")
        self.ran += 1
        if self.ran > 1:
            raise OutOfSubset("query() is run twice")
        lexer = parser.source.tokenSource
        own = []
        for l in lexer.listeners + parser.listeners:
            if l == "console" or any(l is x for x in own):
                continue
            own.append(l)
        for l in own:
            in_l = sum(1 for x in lexer.listeners if x is l)
            in_p = sum(1 for x in parser.listeners if x is l)
            if isinstance(l, p.ErrorListener) and type(l).syntaxError is p.ErrorListener.syntaxError:
                e.prove(self.T, "the listener knows the query", eqf(I, I.getattr(l, "query"), self.query))
                old = I.getattr(l, "errors")
                if not is_list(old):
                    raise OutOfSubset("the listener's records are no list")
                if in_l == in_p == 1 and self.records is None:
                    seg = values.fresh_seg("records", RECORD)
                    e.assume(z3.Length(seg.fwd) == self.total())
                    self.records = seg.fwd
                    new = VList(items(old) + [seg])
                else:
                    seg = values.fresh_seg("other_records", RECORD)
                    e.assume(z3.Length(seg.fwd) == in_l * self.nl.z + in_p * self.np.z)
                    new = VList(items(old) + [seg])
                I.setattr(l, "errors", new)
            else:
                self.foreign(l, in_l, in_p)
        if self.records is None:
            seg = values.fresh_seg("records", RECORD)
            e.assume(z3.Length(seg.fwd) == self.total())
            self.records = seg.fwd
        return self.tree

    def foreign(self, l, in_l, in_p):
        """a listener of another kind: the events are reported one by one (it has to raise at the first)"""
        e, I = self.e, self.I
        if e.branch(self.total() == 0):
            return
        first_lex = e.choose(2, "first error is lexical")
        e.assume(self.nl.z > 0 if first_lex else self.np.z > 0)
        ev = self.first
        if not (in_l if first_lex else in_p):
            return
        ev["told"] += 1
        I.call(I.getattr(l, "syntaxError"), self, None if first_lex else self.tree, ev["line"], ev["column"], ev["msg"], None)


def build_contract(w):
    """contract of ExpressionTreeBuilder.visit on a complete parse tree: exactly one node is pushed, or the query is rejected"""
    def build(visitor):
        e, I, p = w.e, w.I, fcsql("parser")
        w.built += 1
        e.prove("C02", "the expression tree is built only from error-free parse trees", w.total() == 0)
        e.prove("C17", "the builder works for this parser", I.getattr(visitor, "parser") is w.parser)
        st = I.getattr(visitor, "stack")
        e.prove("C17", "the builder starts with an empty stack", not st if not isinstance(st, VList) else zint(st.length()) == 0)
        if w.outcome == 0:
            I.call(I.getattr(st, "append"), w.node)
            return None
        if w.outcome == 1:
            ex = p.ExpressionTreeBuilderException(w.rejection)
            if e.choose(2, "cause"):        # raised while another exception was handled
                ex.__context__ = ex.__cause__ = SomeError("cause")
            raise mark(ex)
        raise mark(SomeError("some failure"))
    return build


def mark(ex):
    ex._vc_raised = True
    return ex


def a_parser(e, I):
    """a parser with arbitrary configuration and arbitrary earlier records"""
    p = fcsql("parser")
    cfg = dict(default_identifier=a_str(e, "default_identifier"), default_operator=list(p.Operator)[0],
               unicode_normalization_form=[None, "NFC"][e.choose(2, "normalization")],
               enableSourceLocations=bool(e.choose(2, "locations")))
    q = I.call(p.QueryParser, **cfg)
    e.prove("C17", "a new parser has no error records", not items(I.getattr(q, "errors")))
    only_state(q, {"errors", *cfg})
    return q, cfg


@harness("C01 C02 C10 C16 C17 C24", "QueryParser.parse")
def parse(e, I):
    p = fcsql("parser")
    st = saved_state().__enter__()
    q, cfg = a_parser(e, I)
    old = VList([values.fresh_seg("earlier", RECORD)])
    I.setattr(q, "errors", old)
    old_z = old.z()
    text = a_str(e, "query")
    w = World(e, I, "C02 C16", text)
    w.parser = q
    w.build = build_contract(w)
    w.node = a_node(e, "tree")
    w.rejection = a_str(e, "rejection")
    w.outcome = e.choose(3, "builder")
    r, v = attempt(e, I, "C02", "parse", p.QueryParser.parse, q, text, allowed=(p.QueryParserException,))
    errors = w.total() > 0
    rec = I.getattr(q, "errors")
    if r == "ok":
        e.prove("C01 C02", "parse returns only for queries without lexical and syntax errors", Not(errors))
        e.prove("C02", "parse returns only when the meaning was accepted", w.outcome == 0)
        e.prove("C02", "parse returns the complete tree", isinstance(v, SymObj) and samef(I, v, w.node))
        e.cover("returns")
    else:
        e.prove("C01 C02", "parse raises only for a syntax error or a rejected meaning", Or(errors, w.outcome != 0))
        if w.outcome == 0 or not w.built:
            msg = zstr(I.str(v))
            e.prove("C16", "the exception quotes the first record's message",
                    Implies(errors, z3.Contains(msg, MSG(w.records[0])) if w.records is not None else False))
            e.prove("C24", "a syntax error's exception is recognisable", z3.PrefixOf(zstr(PREFIX), msg))
            e.cover("syntax error")
        elif w.outcome == 1:
            e.prove("C02 C24", "a rejection carries its message", zstr(I.str(v)) == w.rejection.z)
            e.cover("rejected")
        else:
            e.prove("C24", "another failure is not taken for a syntax error", Not(z3.PrefixOf(zstr(PREFIX), zstr(I.str(v)))))
            e.cover("failure")
    e.prove("C02", "the recognisers are run", w.ran == 1)
    e.prove("C16 C17", "the error list holds exactly the errors of this call",
            is_list(rec) and And(list_eq(rec, w.records) if w.records is not None else False))
    for k, x in cfg.items():
        e.prove("C17", "parsing does not change the configuration", eqf(I, I.getattr(q, k), x), k)
    only_state(q, {"errors", *cfg})
    frame(e, "C17", st)


@harness("C16 C02", "the error listener")
def listener(e, I):
    p = fcsql("parser")
    T = "C16"
    text = a_str(e, "query")
    n = z3.Length(text.z)
    l = I.call(p.ErrorListener, text)
    e.prove("C16 C17", "a new listener has no records", is_list(I.getattr(l, "errors")) and not items(I.getattr(l, "errors")))
    old = VList([values.fresh_seg("earlier", RECORD)])
    I.setattr(l, "errors", VList(old.parts))
    msg = a_str(e, "msg")
    line, col = an_int(e, "line"), an_int(e, "column")
    recog = [object(), a_recogniser("FCSLexer"), a_recogniser("FCSParser")][e.choose(3, "recogniser")]
    k = e.choose(2, "event")
    if k == 0:
        # unrecognised character: reported with the exception that carries its offset
        from antlr4.error.Errors import LexerNoViableAltException
        ex = LexerNoViableAltException.__new__(LexerNoViableAltException)
        off = an_int(e, "offset")
        e.assume(And(off.z >= 0, off.z < n))
        ex.startIndex = off
        args = (recog, None, line, col, msg, ex)
    else:
        tok, start, stop = a_token(e, text)
        args = (recog, tok, line, col, msg, [None, SomeError()][e.choose(2, "exception")])
    _, r = attempt(e, I, T, "syntaxError", p.ErrorListener.syntaxError, l, *args)
    rec = I.getattr(l, "errors")
    parts = items(rec) if is_list(rec) else []
    ok = len(parts) == 2 and isinstance(parts[0], Seg) and isinstance(parts[1], p.ErrorDetail)
    e.prove("C16 C02", "an event adds exactly one record at the end", ok and parts[0].fwd.eq(old.parts[0].fwd))
    if ok:
        d = parts[1]
        e.prove(T, "the record carries the message", eqf(I, I.getattr(d, "message"), msg))
        e.prove(T, "the record is a syntax error", I.getattr(d, "type") == "syntax-error")
        pos, frag = I.getattr(d, "position"), I.getattr(d, "fragment")
        if k == 0:
            e.prove(T, "an unrecognised character is recorded with its offset", values.isint(pos) and zint(pos) == off.z)
            e.cover("character")
        else:
            if pos is None:
                e.prove(T, "only the end of an empty query has no position", stop.z == -1)
            else:
                e.prove(T, "the end of an empty query has no position", stop.z != -1)
                e.prove(T, "the position is the token's range", isinstance(pos, p.SourceLocation) and And(
                    zint(I.getattr(pos, "start")) == start.z, zint(I.getattr(pos, "stop")) == stop.z + 1))
            e.prove(T, "the fragment is the query up to the token's end", isinstance(frag, (str, SymStr)) and
                    zstr(frag) == z3.SubSeq(text.z, z3.IntVal(0), stop.z + 1))
            e.cover("token")
    he = attempt(e, I, T, "has_errors", p.ErrorListener.has_errors, l)[1]
    e.prove("C16 C02", "has_errors answers whether there is a record", Iff(zb(he), zint(rec.length() if isinstance(rec, VList) else len(rec)) > 0))


def a_recogniser(name):
    c = getattr(fcsql("parser"), name)
    return c.__new__(c)


class TextSource:
    """assumed contract of InputStream: getText(a, b) is the text from a to b inclusive"""

    def __init__(self, text):
        self.text = text
        self.size = mkint(z3.Length(text.z))

    def getText(self, a, b):
        return SymStr(z3.SubSeq(self.text.z, zint(a), zint(b) - zint(a) + 1))


def a_token(e, text):
    """a token as the lexer makes them: a range of the text, or the end of input"""
    from antlr4.Token import CommonToken
    n = z3.Length(text.z)
    start, stop = an_int(e, "start"), an_int(e, "stop")
    t = CommonToken.__new__(CommonToken)
    if e.choose(2, "end of input"):
        e.assume(And(start.z == n, stop.z == n - 1))
        typ = -1
    else:
        e.assume(And(start.z >= 0, start.z <= stop.z, stop.z < n))
        typ = 5
    for a, v in dict(source=(None, TextSource(text)), type=typ, channel=0, start=start, stop=stop, tokenIndex=0, line=1,
                     column=0, _text=None).items():
        setattr(t, a, v)
    return t, start, stop


# ------------------------------------------------------------------ module functions
def parse_stub(w):
    """contract of QueryParser.parse (harness `parse`)"""
    def stub(I, f, args, kw):
        e, p = w.e, fcsql("parser")
        a = args[1] if len(args) > 1 else kw.get("query")
        decide(e, [], w.T, "the query itself is parsed", eqf(I, a, w.query), "another text")
        w.calls.append((args[0], I.getattr(args[0], "enableSourceLocations")))
        if w.case == "ok":
            I.setattr(args[0], "errors", VList())
            return w.node
        if w.case == "syntax":
            I.setattr(args[0], "errors", VList([Seg(w.records, RECORD)]))
            raise mark(p.QueryParserException(SymStr(zconcat(zstr(PREFIX), MSG(w.records[0])))))
        I.setattr(args[0], "errors", VList())
        raise mark(p.QueryParserException(w.rejection))
    return stub


class Case:
    pass


def a_world(e, I, T):
    w = Case()
    w.e, w.T, w.calls = e, T, []
    w.query = a_str(e, "query")
    w.case = ["ok", "syntax", "rejected"][e.choose(3, "parse")]
    w.node = a_node(e, "tree")
    w.rejection = a_str(e, "rejection")
    # contract of parse (and, for rejections, of the builder): see `parse` and builder.py
    e.assume(Not(z3.PrefixOf(zstr(PREFIX), w.rejection.z)))
    w.records = values.fresh_seg("records", RECORD).fwd
    e.assume(z3.Length(w.records) > 0)
    I.stubs[fcsql("parser").QueryParser.parse.__code__] = parse_stub(w)
    return w


@harness("C02 C10", "parse() and can_parse()")
def shortcuts(e, I):
    m, p = fcsql(""), fcsql("parser")
    w = a_world(e, I, "C02")
    if e.choose(2, "function"):
        kw = {}
        loc = e.choose(3, "locations")
        if loc:
            kw["enableSourceLocations"] = loc == 1
        r, v = attempt(e, I, "C02", "parse()", m.parse, w.query, allowed=(p.QueryParserException,), **kw)
        if w.case == "ok":
            e.prove("C02", "parse() returns the tree", r == "ok" and isinstance(v, SymObj) and samef(I, v, w.node))
        else:
            e.prove("C02", "parse() raises the parser's exception", r == "exc")
        e.prove("C10", "parse() switches locations as asked", len(w.calls) == 1 and w.calls[0][1] is (loc != 2))
        e.cover("parse")
    else:
        _, v = attempt(e, I, "C02", "can_parse()", m.can_parse, w.query)
        e.prove("C02", "can_parse answers whether parse returns", v is (w.case == "ok"))
        e.cover("can_parse")


class FakeValidator:
    _vc_track = True


def validate_stub(w):
    """contract of Validator.validate (C21)"""
    def stub(I, f, args, kw):
        e, vm = w.e, fcsql("validation")
        v = args[0]
        tree = args[1] if len(args) > 1 else kw.get("node")
        e.prove(w.T, "the tree of the query is validated", w.case == "ok" and tree is w.node)
        w.validated.append(v)
        raising, wae = bool(I.truth(I.getattr(v, "raise_at_first_violation"))), bool(I.truth(I.getattr(v, "warnings_as_errors")))
        E, W = w.E, w.W
        bad = Or(z3.Length(E) > 0, z3.Length(W) > 0) if wae else z3.Length(E) > 0
        if raising and e.branch(bad):
            I.setattr(v, "errors", VList())
            I.setattr(v, "warnings", VList([values.fresh_seg("some_warnings", RECORD)]))
            raise mark(vm.SpecificationValidationError(a_str(e, "finding"), w.node, None))
        I.setattr(v, "errors", VList([Seg(E, RECORD)]))
        I.setattr(v, "warnings", VList([Seg(W, RECORD)]))
        return mkbool(Not(bad))
    return stub


@harness("C24", "validate()")
def validate(e, I):
    m, p, vm = fcsql(""), fcsql("parser"), fcsql("validation")
    T = "C24"
    w = a_world(e, I, T)
    w.E, w.W = values.fresh_seg("validation_errors", RECORD).fwd, values.fresh_seg("validation_warnings", RECORD).fwd
    w.validated = []
    I.stubs[vm.Validator.validate.__code__] = validate_stub(w)
    kw = {}
    wae = ret = False
    k = e.choose(3, "warnings_as_errors")
    if k:
        kw["warnings_as_errors"] = wae = k == 2
    k = e.choose(3, "return_errors")
    if k:
        kw["return_errors"] = ret = k == 2
    known = True
    k = e.choose(3, "version")
    if k == 1:
        kw["version"] = "2.2"
    elif k == 2:
        ver = a_str(e, "version")
        for x in vm.VALIDATORS:
            e.assume(ver.z != zstr(x))
        kw["version"] = ver
        known = False
    st = saved_state().__enter__()
    r, v = attempt(e, I, T, "validate()", m.validate, w.query, allowed=() if known else (ValueError,), **kw)
    if not known:
        e.prove(T, "an unknown version raises ValueError", r == "exc" and isinstance(v, ValueError))
        e.cover("version")
        return
    bad = Or(z3.Length(w.E) > 0, z3.Length(w.W) > 0) if wae else z3.Length(w.E) > 0
    good = And(w.case == "ok", Not(bad))
    if not ret:
        e.prove(T, "the answer is a boolean", isinstance(v, (bool, SymBool)))
        if isinstance(v, (bool, SymBool)):
            e.prove(T, "True exactly when the query parses and no finding counts", Iff(zb(v), good))
        e.cover("bool")
    else:
        e.prove(T, "the answer is a list", is_list(v))
        if is_list(v):
            l = v if isinstance(v, VList) else VList(v)
            e.prove(T, "the list is empty exactly when validate answers True", Iff(zint(l.length()) == 0, good))
            if w.case == "syntax":
                e.prove(T, "a query that does not parse gives exactly its syntax errors", l.z() == w.records)
            elif w.case == "rejected":
                x = items(l)
                e.prove(T, "a rejected query gives exactly one error with the rejection message",
                        len(x) == 1 and isinstance(x[0], p.ErrorDetail) and eqf(I, I.getattr(x[0], "message"), w.rejection))
            else:
                e.prove(T, "the list is the errors, then with warnings as errors the warnings",
                        l.z() == (z3.Concat(w.E, w.W) if wae else w.E))
        e.cover("list " + w.case)
    frame(e, T, st)


@harness("C25", "antlr_parse()")
def antlr_parse(e, I):
    m = fcsql("")
    T = "C25"
    text = a_str(e, "query")
    w = World(e, I, T, text)
    w.first = dict(line=an_int(e, "line"), column=an_int(e, "column"), msg=a_str(e, "msg"), told=0)
    r, v = attempt(e, I, T, "antlr_parse()", m.antlr_parse, text, allowed=(m.SyntaxError,))
    e.prove(T, "the recognisers are run", w.ran == 1)
    if r == "ok":
        e.prove(T, "a tree is returned only without lexical and syntax errors", w.total() == 0)
        e.prove(T, "the parse tree is returned", v is w.tree)
        e.cover("tree")
    else:
        e.prove(T, "an exception is raised only for a lexical or syntax error", w.total() > 0)
        e.prove(T, "the exception is the package's SyntaxError", type(v) is m.SyntaxError)
        f = w.first
        s = zstr(I.str(v))
        for what, t in (("line", values.F_INTSTR(f["line"].z)), ("column", values.F_INTSTR(f["column"].z)), ("message", f["msg"].z)):
            e.prove(T, f"the exception names the {what} of the first error", z3.Contains(s, t))
        e.cover("error")
