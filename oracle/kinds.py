"""What is observed of the real code for one input, against the reference.  Every function returns None (as the property
demands), a text (violation), or Known(text) (a violation listed in the known findings)."""
import copy
import json
import re
import sys
import unicodedata

from . import ref

import fcsql
from fcsql import parser as fp
from fcsql import validation as fv
import antlr4
from antlr4 import CommonTokenStream, InputStream, Token
from antlr4.error.ErrorListener import ErrorListener as AntlrListener
from fcsql.FCSLexer import FCSLexer
from fcsql.FCSParser import FCSParser

RUN = {}


class Known(str):
    pass


def kind(f):
    RUN[f.__name__] = f
    return f


def make_parser(cfg=None):
    cfg = dict(cfg or {})
    if "default_operator" in cfg:
        cfg["default_operator"] = fp.Operator[cfg["default_operator"]]
    cfg.setdefault("enableSourceLocations", True)
    return fp.QueryParser(**cfg)


def reference(q, cfg=None):
    cfg = cfg or {}
    return ref.verdict(q, identifier=cfg.get("default_identifier", "text"), operator=cfg.get("default_operator", "EQUALS"),
                       form=cfg.get("unicode_normalization_form", "NFC"))


class Escaped(Exception):
    """an exception the contract does not allow"""


def real(q, cfg=None, p=None):
    """('ok', tree) or ('reject', exception)"""
    p = p or make_parser(cfg)
    try:
        return "ok", p.parse(q)
    except fcsql.QueryParserException as ex:
        return "reject", ex
    except RecursionError:
        raise
    except Exception as ex:
        return "escape", ex


# ------------------------------------------------------------------ what the recognisers report
class Recorder(AntlrListener):
    def __init__(self):
        self.events = []

    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        if isinstance(offendingSymbol, Token):
            self.events.append(("token", offendingSymbol.start, offendingSymbol.stop, offendingSymbol.text, line, column, msg))
        else:
            self.events.append(("char", getattr(e, "startIndex", None), None, None, line, column, msg))


def events(q):
    rec = Recorder()
    lexer = FCSLexer(InputStream(q))
    lexer.removeErrorListeners()
    lexer.addErrorListener(rec)
    parser = FCSParser(CommonTokenStream(lexer))
    parser.removeErrorListeners()
    parser.addErrorListener(rec)
    parser.query()
    return rec.events


# ------------------------------------------------------------------ trees
def shape(n, text=False):
    """classes and operands of a tree; with `text` every expression also shows its value, which tells operands apart"""
    return (type(n).__name__, tuple(shape(c, text) for c in n.children)) + \
        ((n.regex,) if text and isinstance(n, fp.Expression) else ())


def rshape(n, text=False):
    return (n.cls, tuple(rshape(c, text) for c in n.children)) + ((n.attrs["regex"],) if text and n.cls == "Expression" else ())


def plain(q):
    """no text in the query needs decoding: the values are the quoted texts themselves"""
    return q.isascii() and "\\" not in q


def walk(n):
    yield n
    for c in n.children:
        yield from walk(c)


def matching(q, v, t):
    """reference tree to compare a real tree with: the precedence tree, or, where the grammar is ambiguous, its first
    derivation (known finding of C04) if that is the shape of the real one"""
    if shape(t) == rshape(v):
        return v
    o = ref.ordered(v, ref.lex(q))
    return o if shape(t) == rshape(o) else v


def both(q, cfg=None):
    """(reference verdict, reference tree, real verdict, real tree, complaint)"""
    v, x = reference(q, cfg)
    r, t = real(q, cfg)
    if r == "escape":
        return v, x, r, t, f"{type(t).__name__} escaped from parse: {t}"
    if v == "ok" and r != "ok":
        return v, x, r, t, f"rejected although the query is valid: {t}"
    if v != "ok" and r == "ok":
        return v, x, r, t, f"accepted although it must be rejected ({x}); got {t}"
    return v, x, r, t, None


@kind
def language(query):
    v, x = reference(query)
    if v in ("flags", "bounds", "codepoint"):
        ok = not events(query)
        return None if ok else "the recogniser reports an error for a text of the grammar"
    r, t = real(query)
    if r == "escape":
        return None if v != "ok" else f"{type(t).__name__} escaped: {t}"
    if (v == "ok") != (r == "ok"):
        return f"grammar: {'accepts' if v == 'ok' else 'rejects: ' + str(x)}; parser: {r} {t}"
    if v != "ok" and not events(query):
        return f"grammar: rejects: {x}; the recognisers report no error"
    return None


@kind
def totality(query):
    r, t = real(query)
    if r == "escape":
        return f"{type(t).__name__} escaped: {t}"
    v, x = reference(query)
    if r == "ok":
        if not isinstance(t, fp.QueryNode):
            return f"parse returned {t!r}"
        if v != "ok":
            return f"a tree for a text that must be rejected ({x}): {t}"
        if events(query):
            return f"a tree although errors were reported: {t}"
        if sum(1 for _ in walk(t)) != sum(1 for _ in x.walk()) and \
                sum(1 for _ in walk(t)) != sum(1 for _ in ref.ordered(x, ref.lex(query)).walk()):
            return f"incomplete tree {t}"
    elif v == "ok":
        return f"exception for a valid query: {t}"
    try:
        c = fcsql.can_parse(query)
    except Exception as ex:
        return f"can_parse raised {type(ex).__name__}: {ex}"
    if c is not (r == "ok"):
        return f"can_parse answers {c!r} but parse: {r}"
    try:
        w = ("ok", fcsql.parse(query))
    except fcsql.QueryParserException as ex:
        w = ("reject", ex)
    except Exception as ex:
        return f"fcsql.parse raised {type(ex).__name__}: {ex}"
    if w[0] != r or r == "ok" and str(w[1]) != str(t):
        return f"fcsql.parse: {w[0]}, QueryParser.parse: {r}"
    return None


@kind
def tree(query, cfg=None):
    v, x, r, t, bad = both(query, cfg)
    if bad or v != "ok":
        return bad
    m, p = matching(query, x, t), plain(query)
    if shape(t, p) != rshape(m, p):
        return f"tree {shape(t, p)} instead of {rshape(m, p)}"
    return None


@kind
def precedence(query):
    v, x, r, t, bad = both(query)
    if bad or v != "ok":
        return bad
    p = plain(query)
    s = shape(t, p)
    if s == rshape(x, p):
        return None
    o = ref.ordered(x, ref.lex(query))
    if s == rshape(o, p):
        return Known(f"{query!r}: tree is {t} (first derivation of the ambiguous expression rules), not the precedence tree")
    return f"tree {s} instead of {rshape(x, p)}"


def expressions(q, x, t):
    return [n for n in x.walk() if n.cls == "Expression"], [n for n in walk(t) if isinstance(n, fp.Expression)]


def facet(query, cfg, cls, f, g):
    v, x, r, t, bad = both(query, cfg)
    if bad or v != "ok":
        return bad
    x = matching(query, x, t)
    want = [f(n) for n in x.walk() if n.cls in cls]
    try:
        got = [g(n) for n in walk(t) if type(n).__name__ in cls]
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        return f"node {i}: {got[i:i + 1]} instead of {want[i:i + 1]}"
    return None


@kind
def decoding(query, cfg=None):
    return facet(query, cfg, ("Expression",), lambda n: n.attrs["regex"], lambda n: n.regex)


@kind
def flags(query, cfg=None):
    return facet(query, cfg, ("Expression",), lambda n: n.attrs["flags"] and sorted(n.attrs["flags"]),
                 lambda n: n.regex_flags if n.regex_flags is None else sorted(f.name for f in n.regex_flags))


@kind
def bounds(query, cfg=None):
    return facet(query, cfg, ("QuerySegment", "QueryGroup"), lambda n: (n.cls, n.attrs["min"], n.attrs["max"]),
                 lambda n: (type(n).__name__, n.min_occurs, n.max_occurs))


@kind
def attributes(query, cfg=None):
    return facet(query, cfg, ("Expression",), lambda n: (n.attrs["qualifier"], n.attrs["identifier"], n.attrs["operator"]),
                 lambda n: (n.qualifier, n.identifier, n.operator.name))


@kind
def scopes(query, cfg=None):
    return facet(query, cfg, ("SimpleWithin",), lambda n: n.attrs["scope"], lambda n: n.scope.name)


@kind
def locations(query, cfg=None):
    every = ("Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionOr", "ExpressionAnd", "ExpressionNot",
             "QuerySegment", "QueryGroup", "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin")
    on = (cfg or {}).get("enableSourceLocations", True)
    return facet(query, cfg, every, lambda n: (n.cls, (n.start, n.stop) if on else None),
                 lambda n: (type(n).__name__, None if n.location is None else (n.location.start, n.location.stop)))


# ------------------------------------------------------------------ nodes built by hand
SPEC_CLASSES = ["Expression", "ExpressionWildcard", "ExpressionGroup", "ExpressionOr", "ExpressionAnd", "ExpressionNot",
                "QuerySegment", "QueryGroup", "QuerySequence", "QueryDisjunction", "QueryWithWithin", "SimpleWithin"]
TYPES = {"Expression": "EXPRESSION", "ExpressionWildcard": "EXPRESSION_WILDCARD", "ExpressionGroup": "EXPRESSION_GROUP",
         "ExpressionOr": "EXPRESSION_OR", "ExpressionAnd": "EXPRESSION_AND", "ExpressionNot": "EXPRESSION_NOT",
         "QuerySegment": "QUERY_SEGMENT", "QueryGroup": "QUERY_GROUP", "QuerySequence": "QUERY_SEQUENCE",
         "QueryDisjunction": "QUERY_DISJUNCTION", "QueryWithWithin": "QUERY_WITH_WITHIN", "SimpleWithin": "SIMPLE_WITHIN"}


def build(spec):
    """spec: [class, {attrs}, [children]] -> (node, children given)"""
    cls, a, kids = spec
    ch = [build(k)[0] for k in kids]
    c = getattr(fp, cls)
    if cls == "Expression":
        fl = a.get("flags")
        fl = None if fl is None else {fp.RegexFlag[f] for f in fl}
        n = c(a.get("qualifier"), a.get("identifier", "text"), fp.Operator[a.get("operator", "EQUALS")], a.get("regex", "x"), fl)
    elif cls == "SimpleWithin":
        n = c(fp.SimpleWithinScope[a.get("scope", "TEXT")])
    elif cls in ("QuerySegment", "QueryGroup"):
        n = c(ch[0], a.get("min", 1), a.get("max", 1))
    elif cls == "QueryWithWithin":
        n = c(ch[0], ch[1] if len(ch) > 1 else None)
    elif cls in ("ExpressionGroup", "ExpressionNot"):
        n = c(ch[0])
    elif cls == "ExpressionWildcard":
        how = a.get("how", "children")
        if not ch:
            n = c()
        elif how == "child":
            n = c(children=ch[:-1] or None, child=ch[-1])
        else:
            n = c(children=list(ch))
    else:
        given = list(ch)
        n = c(given)
        given.append(fp.ExpressionWildcard())           # the node must have its own list
        given.reverse()
    if a.get("location"):
        n.location = fp.SourceLocation(*a["location"])
    return n, ch


@kind
def links(spec):
    def check(spec):
        try:
            n, ch = build(spec)
        except Exception as ex:
            return f"{type(ex).__name__}: {ex}"
        if n.parent is not None:
            return f"{spec[0]}: the new node has a parent"
        if len(n.children) != len(ch) or any(a is not b for a, b in zip(n.children, ch)):
            return f"{spec[0]}: children are not the given ones"
        if any(c.parent is not n for c in ch):
            return f"{spec[0]}: a child's parent is not the node"
        if n.node_type is not fp.QueryNodeType[TYPES[spec[0]]]:
            return f"{spec[0]}: node type {n.node_type!r}"
        if not isinstance(n.children, list):
            return f"{spec[0]}: children are not a list"
        if not ch:
            return None
        # the same nodes are given to a second node
        m, k = fp.QuerySequence(list(ch)), fp.ExpressionNot(ch[0])
        if k.children != [ch[0]] or ch[0].parent is not k or any(c.parent is not m for c in ch if c is not ch[0]):
            return f"{spec[0]}: the parent of a child given to another node is not that node"
        if len(m.children) != len(ch) or any(a is not b for a, b in zip(m.children, ch)):
            return f"{spec[0]}: children given to another node are not its children"
        return None
    for k in spec[2]:
        r = links(k)
        if r:
            return r
    return check(spec)


@kind
def tree_links(query):
    r, t = real(query)
    if r != "ok":
        return None
    if t.parent is not None:
        return "the root has a parent"
    for n in walk(t):
        for c in n.children:
            if c.parent is not n:
                return f"parent of {c} is not {n}"
        if n.node_type is not fp.QueryNodeType[TYPES[type(n).__name__]]:
            return f"type of {n}"
    return None


@kind
def access(spec):
    n, ch = build(spec)
    classes = [None, fp.QueryNode] + sorted({type(c) for c in ch}, key=lambda c: c.__name__) + [fp.SimpleWithin, fp.QueryGroup]
    if n.child_count != len(ch):
        return f"child_count {n.child_count} of {len(ch)}"
    for c in classes:
        sel = [x for x in ch if c is None or isinstance(x, c)]
        if n.get_first_child(c) is not (sel[0] if sel else None):
            return f"get_first_child({c})"
        if n.get_last_child(c) is not (sel[-1] if sel else None):
            return f"get_last_child({c})"
        for i in sorted({-len(ch) - 1, -len(ch), -2, -1, 0, 1, 2, len(sel) - 1, len(sel), len(sel) + 1, len(ch) - 1, len(ch), len(ch) + 1, 10 ** 9}
                        | set(range(min(len(ch), 12)))):
            want = sel[i] if 0 <= i < len(sel) else None
            try:
                got = n.get_child(i, c) if c is not None else n.get_child(i)
            except Exception as ex:
                return f"get_child({i}, {c}) raised {type(ex).__name__}"
            if got is not want:
                return f"get_child({i}, {c})"
    if spec[0] == "QueryWithWithin":
        if n.get_query() is not ch[0] or n.get_within() is not (ch[1] if len(ch) > 1 else None):
            return "get_query / get_within"
    if spec[0] == "QuerySegment" and n.get_expression() is not ch[0]:
        return "get_expression"
    if spec[0] == "QueryGroup" and n.get_content() is not ch[0]:
        return "get_content"
    if spec[0] in ("ExpressionAnd", "ExpressionOr") and (len(n.operands) != len(ch) or any(a is not b for a, b in zip(n.operands, ch))):
        return "operands"
    return None


@kind
def predicates(spec):
    n, ch = build(spec)
    for t in fp.QueryNodeType:
        if n.has_node_type(t) is not (t.name == TYPES[spec[0]]):
            return f"has_node_type({t})"
    asks = [("has_node_type", None)]
    if spec[0] == "Expression":
        a = spec[1]
        q = a.get("qualifier")
        qset = bool(q) and not q.isspace()
        fl = set(a.get("flags") or ())
        ident, op = a.get("identifier", "text"), a.get("operator", "EQUALS")
        for x in {"", "text", "a", ident, ident + "x", ident[:-1], ident.upper(), q or "q", " "}:
            if n.has_layer_identifier(x) is not (x == ident):
                return f"has_layer_identifier({x!r})"
            if n.has_layer_qualifier(x) is not (qset and x == q):
                return f"has_layer_qualifier({x!r})"
        for o in fp.Operator:
            if n.has_operator(o) is not (o.name == op):
                return f"has_operator({o})"
        for f in fp.RegexFlag:
            if n.has_regex_flag(f) is not (f.name in fl):
                return f"has_regex_flag({f})"
        if n.is_layer_qualifier_empty() is not (not qset):
            return "is_layer_qualifier_empty"
        if n.is_regex_flags_empty() is not (not fl):
            return "is_regex_flags_empty"
        if n.qualifier != (q if qset else None) or (n.regex_flags is None) is not (not fl):
            return "qualifier or flags not normalised"
        asks += [(m, None) for m in ("has_layer_identifier", "has_layer_qualifier", "has_operator", "has_regex_flag")]
    for m, x in asks:
        try:
            getattr(n, m)(x)
            return f"{m}(None) does not raise"
        except TypeError:
            pass
        except Exception as ex:
            return f"{m}(None) raised {type(ex).__name__}"
    return None


TYPE_TEXT = {"Expression": "Expression", "ExpressionWildcard": "Wildcard", "ExpressionGroup": "Group", "ExpressionOr": "Or",
             "ExpressionAnd": "And", "ExpressionNot": "Not"}
SCOPE_TEXT = {k: k.capitalize() for k in ("SENTENCE", "UTTERANCE", "PARAGRAPH", "TURN", "TEXT", "SESSION")}


def text_of(spec):
    cls, a, kids = spec
    s = "(" + TYPE_TEXT.get(cls, cls)
    if cls == "Expression":
        q = a.get("qualifier")
        q = q + ":" if q and not q.isspace() else ""
        r = a.get("regex", "x").replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
        s += f" {q}{a.get('identifier', 'text')} {'Eq' if a.get('operator', 'EQUALS') == 'EQUALS' else 'Ne'} \"{r}\""
        fl = a.get("flags")
        if fl:
            s += "/" + "".join(c for f, c in (("CASE_INSENSITIVE", "i"), ("CASE_SENSITIVE", "I"), ("LITERAL_MATCHING", "l"),
                                              ("IGNORE_DIACRITICS", "d")) if f in fl)
    elif cls == "SimpleWithin":
        s += " " + SCOPE_TEXT[a.get("scope", "TEXT")]
    elif cls in ("QuerySegment", "QueryGroup"):
        for k in ("min", "max"):
            v = a.get(k, 1)
            if v != 1:
                s += f" @{k}={'*' if v == -1 else v}"
    for k in kids:
        s += " " + text_of(k)
    s += ")"
    if a.get("location"):
        s += "@%d:%d" % tuple(a["location"])
    return s


@kind
def string_form(spec):
    try:
        got = str(build(spec)[0])
    except RecursionError:
        raise
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"
    want = text_of(spec)
    return None if got == want else f"{got!r} instead of {want!r}"


# ------------------------------------------------------------------ visitors
def visitor_class(base, defined, log, extra=None):
    def handler(name):
        def h(self, node):
            log.append((name, node))
            return ("handled", name)
        h.__name__ = "visit_" + name
        return h
    ns = {"visit_" + c: handler(c) for c in defined}
    ns.update(extra or {})
    return type("V", (base,), ns)


@kind
def dispatch(spec, defined, adapter):
    n, ch = build(spec)
    log = []
    V = visitor_class(fp.QueryVisitorAdapter if adapter else fp.QueryVisitor, defined, log)
    v = V()
    cls = spec[0]

    def expected(s):
        """(trace, result) of a default traversal"""
        if s[0] in defined:
            return [s[0]], ("handled", s[0])
        tr, res = [], None
        for k in s[2]:
            t, res = expected(k)
            tr += t
        return tr, res
    for how in ("visit", "accept"):
        log.clear()
        try:
            r = v.visit(n) if how == "visit" else n.accept(v)
        except Exception as ex:
            return f"{how} raised {type(ex).__name__}: {ex}"
        et, er = expected(spec)
        if [x[0] for x in log] != et or r != er:
            return f"{how}: handlers {[x[0] for x in log]} result {r}; expected {et} {er}"
        if cls in defined and (len(log) != 1 or log[0][1] is not n):
            return f"{how}: the handler did not get the node"
        if any(type(x[1]).__name__ != x[0] for x in log):
            return f"{how}: a handler was called for a node of another class"
    if v.visit(None) is not None:
        return "visit(None) is not None"
    return None


@kind
def dispatch_history(spec, steps):
    """several visitors one after the other on trees of the same kind"""
    for k, (defined, adapter) in enumerate(steps):
        r = dispatch(spec, defined, adapter)
        if r:
            return f"visitor #{k}: {r}"
    return None


@kind
def folding(spec, stop, adapter):
    """default traversal: fold of all children, stopped by shouldVisitNextChild"""
    n, ch = build(spec)
    log = []
    asked = []

    class V(fp.QueryVisitorAdapter if adapter else fp.QueryVisitor):
        def defaultResult(self):
            return ()

        def aggregateResult(self, aggregate, nextResult):
            return aggregate + (nextResult,)

        def shouldVisitNextChild(self, node, currentResult):
            asked.append((node, currentResult))
            return stop is None or len(currentResult) < stop

        def visit(self, node):
            log.append(node)
            return super().visit(node)

    def expected(s):
        kids = s[2] if stop is None else s[2][:stop]
        return tuple(expected(k) for k in kids)

    def order(m):
        kids = m.children if stop is None else m.children[:stop]
        out = [m]
        for k in kids:
            out += order(k)
        return out
    try:
        r = V().visit(n)
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"
    if r != expected(spec):
        return f"result {r} instead of {expected(spec)}"
    o = order(n)
    if len(o) != len(log) or any(a is not b for a, b in zip(o, log)):
        return f"{len(log)} visits instead of {len(o)}, or in another order"
    return None


# ------------------------------------------------------------------ error records
@kind
def records(query):
    p = make_parser()
    r, t = real(query, p=p)
    ev = events(query)
    if r == "escape":
        return f"{type(t).__name__} escaped: {t}"
    got = list(p.errors)
    if len(got) != len(ev):
        return f"{len(got)} records for {len(ev)} errors"
    for i, (g, e) in enumerate(zip(got, ev)):
        if g.message != e[6]:
            return f"record {i}: message {g.message!r} instead of {e[6]!r}"
        if g.type != "syntax-error":
            return f"record {i}: type {g.type!r}"
        if e[0] == "token":
            start, stop = e[1], e[2]
            if stop >= start:
                if not isinstance(g.position, fp.SourceLocation) or (g.position.start, g.position.stop) != (start, stop + 1):
                    return f"record {i}: position {g.position} instead of {start}:{stop + 1}"
                if g.fragment != query[:stop + 1]:
                    return f"record {i}: fragment {g.fragment!r} instead of {query[:stop + 1]!r}"
            elif start == 0 and stop == -1 and g.position is not None:
                return f"record {i}: position {g.position} for the end of an empty query"
        else:
            if g.position != e[1] or isinstance(g.position, bool):
                return f"record {i}: position {g.position} instead of offset {e[1]}"
    if ev and (r != "reject" or ev[0][6] not in str(t)):
        return f"the exception does not quote the first message: {t}"
    return None


@kind
def low_level(query):
    ev = events(query)
    try:
        t = fcsql.antlr_parse(query)
        r = "ok"
    except fcsql.SyntaxError as ex:
        r, t = "reject", ex
    except Exception as ex:
        return f"{type(ex).__name__} escaped: {ex}"
    if (r == "ok") != (not ev):
        return f"{r} although {len(ev)} errors are reported ({ev[:1]})"
    if r == "ok":
        if not isinstance(t, FCSParser.QueryContext):
            return f"returned {t!r}"
        return None
    line, col, msg = ev[0][4:7]
    for part in (f"{line}:{col}", msg):
        if part not in str(t):
            return f"message {str(t)!r} does not name {part!r}"
    return None


# ------------------------------------------------------------------ reuse
def dump(n):
    d = {k: (sorted(f.name for f in v) if isinstance(v, (set, frozenset)) else str(v)) for k, v in vars(n).items()
         if k not in ("children", "parent")}
    return (type(n).__name__, sorted(d.items()), [dump(c) for c in n.children])


def outcome(p, q):
    r, t = real(q, p=p)
    if r == "escape":
        return (r, type(t).__name__)
    errs = [(e.message, e.type, str(e.position), e.fragment) for e in p.errors]
    return (r, dump(t) if r == "ok" else str(t), errs)


def config(p):
    return (p.default_identifier, p.default_operator, p.unicode_normalization_form, p.enableSourceLocations)


@kind
def parser_history(queries, cfg=None, damage=False):
    """one parser for a history of queries, against a fresh parser for each"""
    p = make_parser(cfg)
    c0 = config(p)
    other = make_parser({"default_identifier": "zz", "default_operator": "NOT_EQUALS", "unicode_normalization_form": "NFD",
                         "enableSourceLocations": False})
    trees = []
    first = [outcome(make_parser(cfg), q) for q in queries]
    for i, q in enumerate(queries):
        if i % 3 == 1:
            real(queries[i - 1], p=other)
        r, t = real(q, p=p)
        errs = [(e.message, e.type, str(e.position), e.fragment) for e in p.errors]
        got = (r, type(t).__name__) if r == "escape" else (r, dump(t) if r == "ok" else str(t), errs)
        if r == "ok":
            if p.errors:
                return f"call {i}: errors left after success: {errs}"
            for n, d in trees:
                if not damage and dump(n) != d:
                    return f"call {i} changed a tree handed out before"
            trees.append((t, dump(t)))
        if got != first[i]:
            return f"call {i} ({q!r}): {got} with a used parser, {first[i]} with a fresh one"
        if config(p) != c0:
            return f"call {i}: configuration changed to {config(p)}"
        if damage and r == "ok":
            for n in list(walk(t)):                 # the caller may do anything with a tree
                if isinstance(n, fp.Expression):
                    if n.regex_flags is not None:
                        n.regex_flags.clear()
                    n.regex_flags = n.regex_flags or {fp.RegexFlag.LITERAL_MATCHING}
                    n.regex_flags.add(fp.RegexFlag.CASE_SENSITIVE)
                    n.qualifier, n.identifier = "damaged", "damaged"
                n.children.reverse()
                n.children.append(fp.ExpressionWildcard())
                n.children.append(None)
                n.children.clear()
                n.parent = n
        if damage:
            p.errors.append(None)
            p.errors.append("junk")
    return None


# ------------------------------------------------------------------ validation
TAGS = "ADJ ADV INTJ NOUN PROPN VERB ADP AUX CCONJ DET NUM PART PRON SCONJ PUNCT SYM X".split()
KNOWN = ("text", "lemma", "pos", "orth", "norm", "phonetic")
SPECIAL = set("()[]{}?*+-|^$\\.&~# \t\n\r\v\f")


def likely_regex(s):
    return any(c in SPECIAL for c in s if c != " ")


@kind
def is_regex(value):
    got = fv.is_likely_a_regex(value)
    want = any(re.escape(c) != c for c in value if c != " ")
    return None if got is want else f"{got!r} instead of {want!r}"


def findings(e, ids=None, quals=None):
    """(kind, subject) of one reference expression e = (qualifier, identifier, regex, has flags)"""
    q, ident, regex, fl = e
    out = []
    if ids:
        if ident not in ids:
            out.append("E")
    elif ident == "word":
        out.append("W")
    elif ident.startswith("x-"):
        out.append("W")
    elif ident not in KNOWN:
        out.append("E")
    if q and quals:
        for i, qs in quals:
            if i == ident:
                if qs is None or q not in qs:
                    out.append("E")
                break
        else:
            out.append("E")
    if ident == "pos" and not q and regex not in TAGS and not fl and not likely_regex(regex):
        out.append("W")
    return out


def spec_expressions(spec):
    """expressions of a hand-built tree in document order"""
    if spec[0] == "Expression":
        a = spec[1]
        q = a.get("qualifier")
        yield ((q if q and not q.isspace() else None), a.get("identifier", "text"), a.get("regex", "x"), bool(a.get("flags")))
    for k in spec[2]:
        yield from spec_expressions(k)


def run_validator(v, n, query=None, **kw):
    try:
        r = v.validate(n, query=query) if query is not None else v.validate(n)
    except fv.SpecificationValidationError as ex:
        return "raised", ex
    return "done", r


def real_expressions(n):
    return [x for x in walk(n) if isinstance(x, fp.Expression)]


def quals_of(q):
    return None if q is None else [(a, b) for a, b in q]


@kind
def judged(spec, ids=None, quals=None, only=None):
    """findings of every expression in collecting mode"""
    n, _ = build(spec)
    k = [0]
    for x in walk(n):                       # a location that identifies the node
        x.location = fp.SourceLocation(k[0], k[0] + 1)
        k[0] += 1
    v = fv.FCSQLValidator(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals_of(quals), raise_at_first_violation=False)
    try:
        r = v.validate(n)
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"
    for x, e in zip(real_expressions(n), spec_expressions(spec)):
        f = findings(e, ids, quals)
        ge = sum(1 for d in v.errors if d.position == x.location)
        gw = sum(1 for d in v.warnings if d.position == x.location)
        if (ge, gw) != (f.count("E"), f.count("W")):
            return f"expression {e}: {ge} errors and {gw} warnings instead of {f.count('E')} and {f.count('W')}"
    want_e = [x.location for x, e in zip(real_expressions(n), spec_expressions(spec)) for f in findings(e, ids, quals) if f == "E"]
    want_w = [x.location for x, e in zip(real_expressions(n), spec_expressions(spec)) for f in findings(e, ids, quals) if f == "W"]
    if [d.position for d in v.errors] != want_e or [d.position for d in v.warnings] != want_w:
        return "findings missing, too many, or out of document order"
    if any(d.type != "validation-error" for d in v.errors) or any(d.type != "validation-warning" for d in v.warnings):
        return "type of a record"
    if r is not (not want_e):
        return f"verdict {r!r} with {len(want_e)} errors"
    return None


@kind
def modes(query, ids=None, quals=None, text=True, located=True):
    """verdict in every mode for a parsed query"""
    p = make_parser({"enableSourceLocations": located})
    r, t = real(query, p=p)
    if r != "ok":
        return None
    exprs = real_expressions(t)
    fs = []
    for x in exprs:
        for f in findings((x.qualifier, x.identifier, x.regex, bool(x.regex_flags)), ids, quals):
            fs.append((f, x))
    for wae in (False, True):
        for raising in (False, True):
            for how in ("ctor", "arg", "none") if text else ("none",):
                v = fv.FCSQLValidator(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals_of(quals),
                                      query=query if how == "ctor" else None,
                                      raise_at_first_violation=raising, warnings_as_errors=wae)
                bad = [(f, x) for f, x in fs if f == "E" or wae]
                try:
                    o, res = run_validator(v, t, query if how == "arg" else None)
                except Exception as ex:
                    return f"{type(ex).__name__}: {ex}"
                where = f"warnings_as_errors={wae} raise={raising} query={how}"

                def frag(x):
                    return query[x.location.start:x.location.stop] if how != "none" and x.location else None
                if raising and bad:
                    if o != "raised":
                        return f"{where}: did not raise"
                    if res.node is not bad[0][1] or res.query_fragment != frag(bad[0][1]):
                        return f"{where}: raised for {res.node} {res.query_fragment!r}, expected {bad[0][1]} {frag(bad[0][1])!r}"
                else:
                    if o != "done" or res is not (not bad):
                        return f"{where}: {o} {res!r} with findings {[f for f, _ in fs]}"
                    for lst, kind_ in ((v.errors, "E"), (v.warnings, "W")):
                        want = [(x.location, frag(x)) for f, x in fs if f == kind_]
                        got = [(d.position, d.fragment) for d in lst]
                        if got != want:
                            return f"{where}: records {got} instead of {want}"
                v2 = fv.FCSQLValidator(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals_of(quals),
                                       raise_at_first_violation=raising, warnings_as_errors=wae)
                try:
                    b = v2.is_valid(t)
                except Exception as ex:
                    return f"{where}: is_valid raised {type(ex).__name__}"
                if b is not (not bad):
                    return f"{where}: is_valid answers {b!r}"
                if v.parent_node is not None:
                    return f"{where}: parent_node after the run"
    return None


@kind
def validator_history(steps, ids=None, quals=None, raising=False, wae=False):
    """one validator for a history of (query, text given?), against a fresh one for each"""
    def make(q):
        return fv.FCSQLValidator(allowed_layer_identifiers=ids, allowed_layer_qualifiers=quals_of(quals), query=q,
                                 raise_at_first_violation=raising, warnings_as_errors=wae)

    def observe(v, t, text):
        parents = []
        o, r = run_validator(v, t, text)
        return (o, r if o == "done" else (str(r), str(r.node), r.query_fragment),
                [(e.message, e.type, str(e.position), e.fragment) for e in v.errors],
                [(e.message, e.type, str(e.position), e.fragment) for e in v.warnings])
    used = make(None)
    inforce = None
    seen = []
    cls = type(used)
    for i, (q, text) in enumerate(steps):
        r, t = real(q)
        if r != "ok":
            continue
        if text:
            inforce = q
        if len(q) % 2:
            for x in walk(t):
                if len(q) % 3 == 0:
                    x.location = None
        got = observe(used, t, q if text else None)
        want = observe(make(inforce), t, None)
        if got != want:
            return f"step {i} ({q!r}): {got} with a used validator, {want} with a fresh one"
        if used.allowed_layer_identifiers != ids or used.allowed_layer_qualifiers != quals_of(quals):
            return f"step {i}: configuration changed"
        used.is_valid(t)
    return None


@kind
def fragments(spec, text, how):
    """findings of a hand-made tree with locations anywhere in the text"""
    n, _ = build(spec)
    v = fv.FCSQLValidator(raise_at_first_violation=False, query=text if how == "ctor" else None)
    try:
        v.validate(n, query=text if how == "arg" else None)
    except Exception as ex:
        return f"{type(ex).__name__}: {ex}"
    want = []
    for x in walk(n):
        if isinstance(x, fp.Expression):
            for f in findings((x.qualifier, x.identifier, x.regex, bool(x.regex_flags)), None, None):
                l = x.location
                want.append((f, l, text[l.start:l.stop] if l and how != "none" else None))
    for f, lst in (("E", v.errors), ("W", v.warnings)):
        got = [(f, d.position, d.fragment) for d in lst]
        if got != [w for w in want if w[0] == f]:
            return f"{got} instead of {[w for w in want if w[0] == f]}"
    return None


@kind
def reach(spec, raise_at=None):
    """checks applied to every expression once in document order; parent_node is the actual parent"""
    n, _ = build(spec)
    log = []

    class V(fv.FCSQLValidator):
        pass

    def handler(name):
        base = getattr(fv.FCSQLValidator, "visit_" + name)

        def h(self, node):
            log.append((node, self.parent_node))
            if raise_at is not None and len(log) == raise_at:
                raise fv.SpecificationValidationError("stop", node)
            return base(self, node)
        h.__name__ = "visit_" + name
        return h
    for c in SPEC_CLASSES:
        setattr(V, "visit_" + c, handler(c))
    v = V(raise_at_first_violation=False)
    if raise_at is not None:
        run_validator(v, n)
        if raise_at <= sum(1 for _ in walk(n)) and len(log) != raise_at:
            return "an exception of a handler did not end the run"
        if v.parent_node is not None:
            return "parent_node after a run that raised"
        log.clear()
        raise_at = None
    o, r = run_validator(v, n)
    order = list(walk(n))
    if len(order) != len(log) or any(a is not b[0] for a, b in zip(order, log)):
        return f"{len(log)} of {len(order)} nodes visited, or in another order"
    for node, parent in log:
        if parent is not node.parent:
            return f"parent_node is {parent} while {node} runs"
    if v.parent_node is not None:
        return "parent_node after the run"
    fs = [f for e in spec_expressions(spec) for f in findings(e)]
    if len(v.errors) != fs.count("E") or len(v.warnings) != fs.count("W"):
        return f"{len(v.errors)} errors and {len(v.warnings)} warnings instead of {fs.count('E')} and {fs.count('W')}"
    # parent while the checks report
    log.clear()

    class W(fv.FCSQLValidator):
        def validation_error(self, node, message):
            log.append((node, self.parent_node))
            super().validation_error(node, message)

        def validation_warning(self, node, message):
            log.append((node, self.parent_node))
            super().validation_warning(node, message)
    run_validator(W(raise_at_first_violation=False), n)
    for node, parent in log:
        if parent is not node.parent:
            return f"parent_node is {parent} while the checks of {node} run"
    return None


@kind
def verdicts(query, version=None):
    kw = {} if version is None else {"version": version}
    known = version is None or version == "2.2"
    out = {}
    for wae in (False, True):
        for re_ in (False, True):
            try:
                out[wae, re_] = fcsql.validate(query, return_errors=re_, warnings_as_errors=wae, **kw)
            except ValueError as ex:
                if known or type(ex) is not ValueError:
                    return f"{type(ex).__name__} escaped: {ex}"
                out[wae, re_] = ex
            except Exception as ex:
                return f"{type(ex).__name__} escaped: {ex}"
    if not known:
        return None if all(isinstance(x, ValueError) for x in out.values()) else f"unknown version {version!r} accepted"
    p = make_parser()
    r, t = real(query, p=p)
    if r == "escape":
        return None
    for wae in (False, True):
        b, lst = out[wae, False], out[wae, True]
        if not isinstance(b, bool) or not isinstance(lst, list):
            return f"types {b!r} {lst!r}"
        if b is not (not lst):
            return f"validate is {b} but the list has {len(lst)} entries (warnings_as_errors={wae})"
        if r == "reject":
            if p.errors:
                if lst != p.errors:
                    return f"list {lst} instead of the syntax errors {p.errors}"
            elif len(lst) != 1 or lst[0].message != str(t):
                return f"list {lst} instead of the rejection message {t}"
        else:
            v = fv.FCSQLValidator(query=query, raise_at_first_violation=False)
            v.validate(t)
            want = v.errors + (v.warnings if wae else [])
            if lst != want:
                return f"list {lst} instead of {want}"
            fs = [f for x in real_expressions(t) for f in findings((x.qualifier, x.identifier, x.regex, bool(x.regex_flags)))]
            if len(lst) != sum(1 for f in fs if f == "E" or wae):
                return f"{len(lst)} entries for findings {fs}"
    return None
