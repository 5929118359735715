"""Parse trees as the recognisers make them for an error-free query (assumed contract of ANTLR, shared by text.py and builder.py).

A context holds the contexts and terminals of one grammar alternative in order; `start` and `stop` are its first and last
token; a token's text is the query text between its offsets.
"""
import z3

from pyvc import loops, values
from pyvc.values import mknot, mkand
from .base import *


class Source:
    """input stream of a token: the text between the token's own offsets"""

    def __init__(self, tok, text):
        self.tok, self.text = tok, text
        self.size = 1 << 60

    def getText(self, a, b):
        t = self.tok
        if self.text is None:
            raise OutOfSubset("text of a subtree that is only known by its contract")
        if (a is t.start or values.is_sym(a) and a.z.eq(zint(t.start))) and (b is t.stop or values.is_sym(b) and b.z.eq(zint(t.stop))):
            return self.text
        raise OutOfSubset("query text of another range")

    def __str__(self):
        raise OutOfSubset("the whole query text")


class Kit:
    """makes tokens, terminals and contexts with ascending, disjoint token ranges"""

    def __init__(self, e, I):
        self.e, self.I = e, I
        self.last = None
        self.P = fcsql("parser").FCSParser

    def token(self, typ, text, name=None):
        from antlr4.Token import CommonToken
        e = self.e
        start, stop = an_int(e, "start"), an_int(e, "stop")
        e.assume(And(start.z >= 0, stop.z >= start.z, stop.z < 1 << 60))      # no query is that long
        if self.last is not None:
            e.assume(start.z > self.last.z)
        self.last = stop
        t = CommonToken.__new__(CommonToken)
        src = Source(t, text)
        for a, v in dict(source=(None, src), type=typ, channel=0, start=start, stop=stop, tokenIndex=0, line=1, column=0,
                         _text=None).items():
            setattr(t, a, v)
        return t

    def eof(self):
        """the terminal of the end of input: it has no characters"""
        from antlr4.tree.Tree import TerminalNodeImpl
        t = self.token(-1, "<EOF>")
        t.stop = SymInt(t.start.z - 1)
        return TerminalNodeImpl(t)

    def terminal(self, name, text=None):
        from antlr4.tree.Tree import TerminalNodeImpl
        typ = getattr(self.P, name)
        if text is None:
            text = self.P.literalNames[typ].strip("'")
        return TerminalNodeImpl(self.token(typ, text))

    def ctx(self, name, children, start=None, stop=None, accept=None):
        """context of rule `name`; with `accept` a child whose subtree is only known by a contract"""
        cls = getattr(self.P, name[0].upper() + name[1:] + "Context")
        if accept is not None:
            accept._vc_native = True

            def run(self, visitor):
                return accept(visitor)
            run._vc_native = True

            def closed(*a):
                raise OutOfSubset("the inside of a child of the context at hand")
            closed._vc_native = True
            cls = type(cls.__name__, (cls,), {"accept": run, "getText": closed, "getChild": closed, "getChildCount": closed,
                                              "getChildren": closed, "getToken": closed})
        c = cls(None)
        c.children = children
        for x in () if isinstance(children, VList) else children or ():
            x.parentCtx = c
        c.start = start if start is not None else self.first(children)
        c.stop = stop if stop is not None else self.final(children)
        return c

    def first(self, ch):
        x = ch[0]
        return x.symbol if hasattr(x, "symbol") else x.start

    def final(self, ch):
        x = ch[-1]
        return x.symbol if hasattr(x, "symbol") else x.stop

    def range(self):
        """first and last token of a subtree that is only known by a contract"""
        return self.token(1, None), self.token(1, None)


class FormModel(Model):
    """the configured normalization form: None or a non-empty text"""
    name = "normalization form"

    def is_none(self, o):
        return mkbool(o.term == emb(None))

    def truth(self, o):
        return mknot(self.is_none(o))

    def eq(self, o, x):
        if x is None:
            return self.is_none(o)
        if isinstance(x, (str, SymStr)):
            return mkand(self.truth(o), mkbool(self.text(o).z == zstr(x)))
        return Model.eq(self, o, x)

    def text(self, o):
        return SymStr(values.STROF(o.term))

    def isinstance_(self, o, cls):
        if cls is str:
            return self.truth(o)
        return Model.isinstance_(self, o, cls)

    def known_text(self, o):
        """the text, where the code can only use one; None is rejected like the library does"""
        if not engine().branch(zb(self.truth(o))):
            raise TypeError("argument 1 must be str, not None")
        return self.text(o)


class MemberModel(Model):
    """an arbitrary member of an enumeration"""

    def __init__(self, enum):
        self.name, self.enum = enum.__name__, enum

    def is_none(self, o):
        return False

    def truth(self, o):
        return True

    def eq(self, o, x):
        if is_sym(x):
            return Model.eq(self, o, x)
        return mkbool(o.term == emb(x)) if isinstance(x, self.enum) else False

    def isinstance_(self, o, cls):
        return issubclass(self.enum, cls) if isinstance(cls, type) else Model.isinstance_(self, o, cls)

    def type_(self, o):
        return self.enum

    def member(self, o):
        for m in list(self.enum)[:-1]:
            if engine().branch(o.term == emb(m)):
                return m
        return list(self.enum)[-1]

    def getattr(self, o, name):
        return getattr(self.member(o), name)

    def str_(self, o):
        return str(self.member(o))


FORM = FormModel()


def a_member(e, name, enum):
    o = SymObj(e.const(name, V), MemberModel(enum))
    e.assume(Or(*[o.term == emb(m) for m in enum]))
    return o


def a_builder(e, I, model=OPAQUE):
    """a builder of a parser with arbitrary configuration, in the middle of its work"""
    p = fcsql("parser")
    form = SymObj(e.const("normalization_form", V), FORM)
    e.assume(Implies(zb(FORM.truth(form)), z3.Length(FORM.text(form).z) > 0))
    e.locations = SymBool(e.const("locations", BOOL))
    cfg = dict(default_identifier=a_str(e, "default_identifier"), default_operator=a_member(e, "default_operator", p.Operator),
               unicode_normalization_form=form, enableSourceLocations=e.locations)
    q = I.call(p.QueryParser, **cfg)
    b = I.call(p.ExpressionTreeBuilder, q)
    only_state(b, {"stack", "parser"})
    st = I.getattr(b, "stack")
    kind = st.kind if isinstance(st, VList) else "deque" if type(st).__name__ == "deque" else "list"
    if items(st) or not (is_list(st) or kind == "deque"):
        raise OutOfSubset("the builder's stack")
    below = values.fresh_seg("below", model)
    I.setattr(b, "stack", VList([below], kind))
    return b, q, cfg, below


def pushed(e, I, T, label, b, below):
    """what the visit left on the stack above what was there before: exactly one node"""
    p = fcsql("parser")
    st = I.getattr(b, "stack")
    node = st.parts[-1] if isinstance(st, VList) and st.parts else None
    ok = isinstance(node, p.QueryNode) or isinstance(node, SymObj) and node.model is NODE
    kept = ok and VList(st.parts[:-1], st.kind).z() == below.fwd
    e.prove(T, f"{label}: exactly one node is added, what was there before is kept", kept, repr(getattr(st, "parts", st)))
    if not ok:
        raise PathEnd()
    only_state(b, {"stack", "parser"})
    return node


def check_location(e, I, n, start, stop):
    """C10: the node's range is the text from its first to its last token, and is absent when switched off"""
    p = fcsql("parser")
    l = I.getattr(n, "location")
    on = zb(e.locations)
    e.prove("C10", "with locations disabled the node has none", Or(on, zb(is_none(I, l))))
    e.prove("C10", "with locations enabled the node has one", Or(Not(on), isinstance(l, p.SourceLocation)))
    if isinstance(l, p.SourceLocation):
        e.prove("C10", "it starts at the first character of the construct", eqf(I, I.getattr(l, "start"), start.start))
        e.prove("C10", "it stops after the last character of the construct", zint(I.getattr(l, "stop")) == zint(stop.stop) + 1)


def same_value(I, a, b):
    return samef(I, a, b) if isinstance(b, SymObj) else eqf(I, a, b)


def check_config(e, I, q, cfg):
    for k, x in cfg.items():
        e.prove("C17", "building the tree does not change the parser's configuration", same_value(I, I.getattr(q, k), x), k)


def rejected(e, I, T, x):
    """a rejection is the builder's exception, with a message that is not taken for a syntax error (C24)"""
    from .parse import PREFIX
    e.prove("C24", "a rejection is not taken for a syntax error", Not(z3.PrefixOf(zstr(PREFIX), zstr(I.str(x)))))
