"""The generated recognisers (C01; what C02-C10 assume about the parse tree).

Three layers, together "query() reports no error iff the text is an FCS-QL query, and its tree is the first derivation":

* every rule method of FCSParser is executed under a contract: a ghost set A of states of the rule's network (ATN) follows
  its calls of match / consume / other rule methods / adaptivePredict / sync.  Obligations: every step is a step of the
  network (soundness), a token the network admits next is never turned down or led elsewhere (completeness), the context
  returned mirrors the steps (children, start, stop), the parser's context and state are restored.  Calls of other rule
  methods are cut at the same contract; loops are closed on the finite ghost state.
* the networks (the deserialized tables) are compared with the reference grammar below: per rule equality of languages and
  agreement in the order of overlapping alternatives (the order decides which derivation is taken).
* the lexer's network is compared with the reference token definitions: same token for every text, first rule on ties.

Assumed (trust.py): antlr4's ParserATNSimulator, LexerATNSimulator, ATNDeserializer, token stream and error strategy.
"""
import ast
import re._constants as sre
import re._parser as sre_parser

from antlr4.Token import Token
from antlr4.error.Errors import RecognitionException

from .base import *

# ------------------------------------------------------------------ reference grammar (FCS-QL 2.0)
RULES = {
    "query": "main_query ( WITHIN within_part )? EOF",
    "main_query": "query_simple | query_group | query_sequence | query_disjunction",
    "query_disjunction": "( query_simple | query_sequence | query_group ) ( OR ( query_simple | query_sequence | query_group ) )+",
    "query_sequence": "( query_simple | query_group )+",
    "query_group": "L_PAREN ( query_disjunction | query_sequence ) R_PAREN quantifier ?",
    "query_simple": "( query_implicit | query_segment ) quantifier ?",
    "quantifier": "Q_ONE_OR_MORE | Q_ZERO_OR_MORE | Q_ZERO_OR_ONE | L_CURLY_BRACKET ( INTEGER | INTEGER ? Q_COMMA INTEGER |"
                  " INTEGER Q_COMMA INTEGER ? ) R_CURLY_BRACKET",
    "query_implicit": "regexp",
    "query_segment": "L_SQUARE_BRACKET expression ? R_SQUARE_BRACKET",
    "within_part": "within_part_simple",
    "within_part_simple": "SIMPLE_WITHIN_SCOPE",
    "expression": "expression_basic | expression_group | expression_or | expression_and | expression_not",
    "expression_or": "( expression_basic | expression_group | expression_and | expression_not )"
                     " ( OR ( expression_basic | expression_group | expression_and | expression_not ) )+",
    "expression_and": "( expression_basic | expression_group | expression_not )"
                      " ( AND ( expression_basic | expression_group | expression_or | expression_not ) )+",
    "expression_group": "L_PAREN ( expression_basic | expression_group | expression_or | expression_and | expression_not ) R_PAREN",
    "expression_not": "NOT ( expression_basic | expression_group | expression_not | expression_or | expression_and )",
    "expression_basic": "attribute ( OPERATOR_EQ | OPERATOR_NE ) regexp",
    "attribute": "( qualifier COLON ) ? identifier",
    "qualifier": "IDENTIFIER | WITHIN | SIMPLE_WITHIN_SCOPE | REGEXP_FLAGS",
    "identifier": "IDENTIFIER | WITHIN | SIMPLE_WITHIN_SCOPE | REGEXP_FLAGS",
    "regexp": "regexp_pattern ( FWD_SLASH regexp_flag ) ?",
    "regexp_pattern": "REGEXP",
    "regexp_flag": "REGEXP_FLAGS",
}
# token name -> text accepted (a Python pattern); on ties the earlier one wins; QUOTED_STRING never wins
SPACES = "\t\n\v\f\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000"
ESCAPE = r"\\(?:[\\'\"nt.^$*+?(){}\[\]|]|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})"
TOKENS = [
    ("L_PAREN", r"\("), ("R_PAREN", r"\)"), ("L_SQUARE_BRACKET", r"\["), ("R_SQUARE_BRACKET", r"\]"), ("OR", r"\|"),
    ("AND", "&"), ("NOT", "!"), ("FWD_SLASH", "/"), ("L_CURLY_BRACKET", r"\{"), ("R_CURLY_BRACKET", r"\}"),
    ("Q_ONE_OR_MORE", r"\+"), ("Q_ZERO_OR_MORE", r"\*"), ("Q_ZERO_OR_ONE", r"\?"), ("Q_COMMA", ","), ("OPERATOR_EQ", "="),
    ("OPERATOR_NE", "!="), ("COLON", ":"), ("WITHIN", "within"),
    ("SIMPLE_WITHIN_SCOPE", "sentence|s|utterance|u|paragraph|p|turn|t|text|session"),
    ("REGEXP_FLAGS", "[iIcCld]+"), ("IDENTIFIER", "[a-zA-Z](?:[a-zA-Z0-9-]*[a-zA-Z0-9])?"), ("INTEGER", "[0-9]+"),
    ("REGEXP", rf"'(?:{ESCAPE}|[^'\\])*'|\"(?:{ESCAPE}|[^\"\\])*\""), (None, f"[{SPACES}]"),
]
NAMES = [n for n, _ in TOKENS if n]
WEAK = "C02 C03 C04 C05 C06 C07 C08 C09 C10".split()        # rest on the recognisers: without this lemma they are not proved
EXIT = "exit"


# ------------------------------------------------------------------ networks
class Net:
    """nodes with ordered edges; an edge is (label, node), label None (silent), ("T", token), ("R", rule)"""

    def __init__(self):
        self.edges = []

    def node(self):
        self.edges.append([])
        return len(self.edges) - 1

    def edge(self, a, label, b):
        self.edges[a].append((label, b))


def reference_net(text, number):
    """ordered network of one rule of RULES; `number`: token name -> type"""
    net = Net()
    toks = text.replace("(", " ( ").replace(")", " ) ").replace(")  ?", ") ?").replace("?", " ? ").replace("+", " + ").split()
    pos = [0]

    def alt():
        a, b = net.node(), net.node()
        while True:
            x, y = seq()
            net.edge(a, None, x)
            net.edge(y, None, b)
            if pos[0] < len(toks) and toks[pos[0]] == "|":
                pos[0] += 1
                continue
            return a, b

    def seq():
        a = b = net.node()
        while pos[0] < len(toks) and toks[pos[0]] not in ("|", ")"):
            x, y = item()
            net.edge(b, None, x)
            b = y
        return a, b

    def item():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "(":
            a, b = alt()
            assert toks[pos[0]] == ")"
            pos[0] += 1
        else:
            a, b = net.node(), net.node()
            net.edge(a, ("R", t) if t in RULES else ("T", number[t]), b)
        q = toks[pos[0]] if pos[0] < len(toks) else ""
        if q in ("?", "+"):
            pos[0] += 1
            x, y = net.node(), net.node()
            net.edge(x, None, a)
            if q == "?":
                net.edge(x, None, y)
                net.edge(b, None, y)
            else:
                net.edge(b, None, a)
                net.edge(b, None, y)
            a, b = x, y
        return a, b

    a, b = alt()
    assert pos[0] == len(toks)
    return net, a, b


class Atn:
    """the parser's network as code runs on it; one object per source tree"""

    def __init__(self):
        P = self.P = fcsql().FCSParser
        from antlr4.atn.Transition import Transition as X
        self.atn = P.atn
        self.rules = list(P.ruleNames)
        if sorted(self.rules) != sorted(RULES) or len(self.rules) != len(self.atn.ruleToStartState):
            raise OutOfSubset("the grammar has other rules than the reference grammar: " + ", ".join(sorted(set(self.rules) ^ set(RULES))))
        self.number = {n: getattr(P, n, None) for n in NAMES}
        self.number["EOF"] = Token.EOF
        if None in self.number.values() or len(set(self.number.values())) != len(self.number):
            raise OutOfSubset("token constants of FCSParser are missing or not distinct")
        self.alphabet = [Token.EOF] + list(range(Token.MIN_USER_TOKEN_TYPE, self.atn.maxTokenType + 1))
        self.name = {v: k for k, v in self.number.items()}
        self.net = Net()
        for s in self.atn.states:
            self.net.node()
        self.call = {}
        for s in self.atn.states:
            if s is None:
                continue
            if getattr(s, "nonGreedy", False) or getattr(s, "isPrecedenceDecision", False):
                raise OutOfSubset("the parser's network has non-greedy or precedence decisions")
            if s.stateNumber in {x.stateNumber for x in self.atn.ruleToStopState}:
                continue
            for t in s.transitions:
                k = t.serializationType
                if k == X.EPSILON:
                    self.net.edge(s.stateNumber, None, t.target.stateNumber)
                elif k == X.RULE:
                    if t.precedence:
                        raise OutOfSubset("precedence rules in the parser's network")
                    self.net.edge(s.stateNumber, ("R", self.rules[t.ruleIndex]), t.followState.stateNumber)
                elif k in (X.ATOM, X.RANGE, X.SET):
                    for i in t.label.intervals:
                        for v in i:
                            self.net.edge(s.stateNumber, ("T", v), t.target.stateNumber)
                else:
                    raise OutOfSubset(f"transition of kind {type(t).__name__} in the parser's network")
        self.start = {n: self.atn.ruleToStartState[i].stateNumber for i, n in enumerate(self.rules)}
        self.stop = {n: self.atn.ruleToStopState[i].stateNumber for i, n in enumerate(self.rules)}
        self.first, self.nullable = {}, set()
        self.look_fix()

    def closure(self, A):
        seen, todo = set(A), list(A)
        while todo:
            for l, t in self.net.edges[todo.pop()]:
                if l is None and t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def options(self, rule, A):
        """what may come next: {label: states after it}; label EXIT when the rule may end"""
        out = {}
        for s in self.closure(A):
            if s == self.stop[rule]:
                out[EXIT] = frozenset()
            for l, t in self.net.edges[s]:
                if l is not None:
                    out[l] = out.get(l, frozenset()) | {t}
        return out

    def look_fix(self):
        self.first = {r: set() for r in self.rules}
        self.follow = {r: set() for r in self.rules}
        self.follow["query"] = set(self.alphabet)
        change = True
        while change:
            change = False
            for r in self.rules:
                opts = self.options(r, {self.start[r]})
                if EXIT in opts:
                    raise OutOfSubset(f"rule {r} may be empty")
                new = set().union(*[{l[1]} if l[0] == "T" else self.first[l[1]] for l in opts])
                if not new <= self.first[r]:
                    self.first[r] |= new
                    change = True
                seen, todo = set(), [self.start[r]]
                while todo:
                    s = todo.pop()
                    if s in seen:
                        continue
                    seen.add(s)
                    for l, t in self.net.edges[s]:
                        todo.append(t)
                        if l is not None and l[0] == "R":
                            new = self.look(r, {t})
                            if not new <= self.follow[l[1]]:
                                self.follow[l[1]] |= new
                                change = True

    def look1(self, rule, label):
        if label == EXIT:
            return self.follow[rule]
        return {label[1]} if label[0] == "T" else self.first[label[1]]

    def look(self, rule, A):
        return set().union(*[self.look1(rule, l) for l in self.options(rule, A)] or [set()])


_atn = []


def the_atn():
    if not _atn:
        _atn.append(Atn())
    return _atn[0]


# ------------------------------------------------------------------ 1. rule methods
class Tok:
    """a token of the input; its type is chosen when the code looks at it"""

    def __init__(self, world, index):
        self.world, self.at = world, index
        self._type = None

    def __getattr__(self, n):
        raise OutOfSubset(f"the rule uses {n} of a token")

    @property
    def type(self):
        if self._type is None:
            self.world.choose(self)
        return self._type


class Tokens:
    def __init__(self, world):
        self.world = world
        self.toks = [Tok(world, 0)]
        self.i = 0

    def LT(self, k):
        if k == 1:
            return self.toks[self.i]
        if k == -1:
            return self.toks[self.i - 1] if self.i else self.world.before
        raise OutOfSubset(f"the rule looks {k} tokens ahead")

    def LA(self, k):
        if k != 1:
            raise OutOfSubset(f"the rule looks {k} tokens ahead")
        return self.LT(1).type

    def consume(self):
        self.i += 1
        if self.i == len(self.toks):
            self.toks.append(Tok(self.world, self.i))

    def __getattr__(self, n):
        raise OutOfSubset(f"the rule uses {n} of the token stream")


class World:
    """ghost state of one rule method"""
    STRONG = ["C01"]

    def __init__(self, e, I, rule):
        self.e, self.I, self.rule = e, I, rule
        self.a = the_atn()
        self.A = frozenset([self.a.start[rule]])
        self.events = []                # ("T", token) | ("R", rule, context)
        self.before = object()
        self.tokens = Tokens(self)
        self.viable = None              # does the network admit the current token?  None: not looked at
        self.fresh = 0                  # events up to the last progress
        self.path = []

    def la(self):
        return self.tokens.toks[self.tokens.i]._type

    def choose(self, tok):
        if tok is not self.tokens.LT(1):
            raise OutOfSubset("the rule looks at the type of a token behind it")
        a = self.a.alphabet
        tok._type = a[self.e.choose(len(a), "token type")]
        self.viable = tok._type in self.a.look(self.rule, self.A)
        self.note(f"next token {self.tname(tok._type)}")

    def note(self, s):
        self.e.note(s)

    def tname(self, t):
        return self.a.name.get(t, str(t))

    def lname(self, l):
        return l if l == EXIT else (self.tname(l[1]) if l[0] == "T" else l[1])

    def viable_options(self, opts):
        t = self.la()
        return {l for l in opts if t in self.a.look1(self.rule, l)}

    # ---- obligations
    def sound(self, ok, detail):
        decide(self.e, self.STRONG, WEAK, "every step of the rule is a step of its network", ok, detail)
        if not ok:
            raise PathEnd()

    def complete(self, ok, detail):
        decide(self.e, self.STRONG, WEAK, "a token the network admits next is never turned down", ok, detail)
        if not ok:
            raise PathEnd()

    def step(self, label, detail=None):
        """the code takes `label`"""
        opts = self.a.options(self.rule, self.A)
        what = f"{self.lname(label)} in state {sorted(self.A)}" + (f" ({detail})" if detail else "")
        self.sound(label in opts, f"{what}: the network admits only {sorted(self.lname(l) for l in opts)}")
        if len(opts) > 1:
            self.tokens.LT(1).type
            if self.viable:
                v = self.viable_options(opts)
                self.complete(v <= {label}, f"{what} on {self.tname(self.la())}, which belongs to {sorted(map(self.lname, v))}")
        self.A = opts[label]

    def moved(self):
        self.viable = None
        self.path.append(("moved",))

    def consumed(self, tok):
        self.step(("T", tok.type))
        self.events.append(("T", tok))
        self.moved()

    def error(self, what):
        """the rule reports or raises a syntax error"""
        self.tokens.LT(1).type
        self.complete(not self.viable, f"{what} on {self.tname(self.la())}, which is admitted")

    def predict(self, stream, d, ctx):
        if stream is not self.tokens:
            raise OutOfSubset("adaptivePredict on another token stream")
        atn = self.a.atn
        ok = isinstance(d, int) and 0 <= d < len(atn.decisionToState)
        self.sound(ok, f"decision {d!r}")
        s = atn.decisionToState[d].stateNumber
        cl = self.a.closure(self.A)
        self.sound(s in cl, f"decision {d} in state {sorted(self.A)}")
        decide(self.e, self.STRONG, WEAK, "predictions are made in the context of the rule", ctx is self.parser._ctx and ctx is self.ctx(),
               "another context")
        opts, mine = self.a.options(self.rule, self.A), self.a.options(self.rule, {s})
        if set(opts) - set(mine):
            self.tokens.LT(1).type
            if self.viable:
                v = self.viable_options(opts)
                self.complete(v <= set(mine), f"decision {d} leaves out {sorted(self.lname(l) for l in v - set(mine))}")
        self.merge()
        targets = [t for _, t in self.a.net.edges[s]]
        k = self.e.choose(len(targets) + 1, f"prediction {d}")
        if k == len(targets):
            # no continuation of the input is derivable
            from antlr4.error.Errors import NoViableAltException
            self.nonviable = True
            self.note(f"adaptivePredict({d}) finds no alternative")
            raise NoViableAltException(self.parser)
        self.A = frozenset([targets[k]])
        self.note(f"adaptivePredict({d}) = {k + 1}")
        if self.la() is not None:
            if self.la() not in self.a.look(self.rule, self.A):
                if self.viable:
                    raise PathEnd()     # not an answer adaptivePredict may give
        return k + 1

    def ctx(self):
        return self.localctx

    nonviable = False
    localctx = None
    tick = None


def fakes():
    from antlr4.error.ErrorStrategy import DefaultErrorStrategy

    class Strategy(DefaultErrorStrategy):
        """the runtime's strategy; what it does after an error is found is cut: the error is reported"""

        def __init__(self, world):
            super().__init__()
            self.world = world

        def singleTokenDeletion(self, recognizer):
            self.world.error("the error strategy finds an error")
            return None                 # -> raises InputMismatchException

        def recoverInline(self, recognizer):
            from antlr4.error.Errors import InputMismatchException
            self.world.error("a mismatch is found")
            if self.world.e.choose(2, "recovery"):
                raise PathEnd()         # reported and recovered in place
            raise InputMismatchException(recognizer)

        def reportUnwantedToken(self, recognizer):
            self.world.error("an unwanted token is reported")
            raise PathEnd()

        def reportError(self, recognizer, ex):
            if not self.world.nonviable:
                self.world.error("a syntax error is reported")
            raise PathEnd()             # the error is reported: nothing is asked of the rule after that

        def recover(self, recognizer, ex):
            self.world.recovered = True

        def reportMissingToken(self, recognizer):
            self.world.error("a missing token is reported")
            raise PathEnd()

        def consumeUntil(self, recognizer, s):
            raise OutOfSubset("the rule skips tokens")

    class Sim:
        def __init__(self, world):
            self.world = world
            self.atn = world.a.atn
            self.decisionToDFA = world.a.P.decisionsToDFA

        def adaptivePredict(self, stream, d, ctx):
            return self.world.predict(stream, d, ctx)
    return Strategy, Sim


def a_parser(w):
    Strategy, Sim = fakes()
    from antlr4.ParserRuleContext import ParserRuleContext
    P = w.a.P

    class Under(P):
        """FCSParser with consume observed; the rule methods are FCSParser's own"""

        def consume(self):
            t = w.tokens.LT(1)
            w.consumed(t)
            return super().consume()
    Under.consume._vc_native = True
    p = Under.__new__(Under)
    for k, v in dict(_input=w.tokens, _output=None, _errHandler=Strategy(w), _precedenceStack=[0], buildParseTrees=True,
                     _tracer=None, _parseListeners=None, _syntaxErrors=0, _interp=Sim(w), _predicates=None,
                     _listeners=[]).items():
        setattr(p, k, v)
    p._ctx = w.parent = None if w.rule == "query" else ParserRuleContext(None, -1)
    p._stateNumber = w.state0 = -1 if w.rule == "query" else 1000003
    w.parser = p
    return p


def context_class(rule):
    return rule[0].upper() + rule[1:] + "Context"


SIMPLE = (int, str, bool, type(None))


def runtime_overrides(cls, allowed):
    """generated classes must not redefine what they inherit from the runtime (the contracts assume the runtime's own)"""
    inherited = set()
    for c in cls.__mro__[1:]:
        if c is not object:
            inherited |= set(c.__dict__)
    bad = sorted(k for k in cls.__dict__ if k in inherited and k not in allowed and not k.startswith("__") or k in (
        "__getattribute__", "__getattr__", "__setattr__", "__new__", "__del__"))
    if bad:
        raise OutOfSubset(f"{cls.__name__} redefines {', '.join(bad)} of the runtime")


@harness(" ".join(["C01"] + WEAK), name="parser rule", cases=list(RULES))
def rule_method(e, I):
    e.MAX_PATHS = 40000
    w = World(e, I, e.case)
    a, P = w.a, w.a.P
    runtime_overrides(P, ("atn", "literalNames", "symbolicNames", "ruleNames", "grammarFileName", "decisionsToDFA",
                          "sharedContextCache", "tokenNames"))
    if not isinstance(getattr(P, e.case, None), types.FunctionType):
        raise OutOfSubset(f"FCSParser has no method {e.case}")
    p = a_parser(w)
    if "getattr" not in I.__dict__:
        inner = I.getattr

        def read(o, name, *more):
            if name in ("children", "_syntaxErrors") and o in (I.world.localctx, I.world.parent, I.world.parser):
                raise OutOfSubset(f"the rule reads {name}")
            return inner(o, name, *more)
        I.getattr = read
    I.world = w
    running = [False]
    from antlr4.ParserRuleContext import ParserRuleContext

    def enter(name):
        def contract(I, f, args, kw):
            if not running[0]:
                running[0] = True
                w.depth = I.depth
                return I.call_function(f, I.src.node(f.__code__), args, kw)
            if args[:1] != (p,) or len(args) > 1 or kw:
                raise OutOfSubset("rule method called with other arguments")
            # the contract of the other rule method
            w.merge()
            here = {s: t for s in a.closure(w.A) for l, t in a.net.edges[s] if l == ("R", name)}
            w.step(("R", name))
            decide(e, w.STRONG, WEAK, "rule methods are called in the state of the network that calls them", p.state in here,
                   f"{name} is called in state {p.state}, not {sorted(here)}")
            if p.state not in here:
                raise PathEnd()
            w.A = frozenset([here[p.state]])
            t = w.la()
            if t is not None and t not in a.first[name]:
                raise PathEnd()         # the other method reports an error
            c = ParserRuleContext(p._ctx, p.state)
            c.start = w.tokens.LT(1)
            if p._ctx is not w.localctx and w.localctx is not None:
                raise OutOfSubset("rule method called in another context")
            p._ctx.addChild(c)
            ts = w.tokens
            ts.toks.append(Tok(w, len(ts.toks)))
            ts.i = len(ts.toks) - 1
            ts.toks.append(Tok(w, len(ts.toks)))
            ts.i += 1
            c.stop = ts.LT(-1)
            w.events.append(("R", name, c))
            w.moved()
            w.note(f"rule {name}")
            return c
        return contract

    for r in a.rules:
        f = getattr(P, r, None)
        if isinstance(f, types.FunctionType):
            I.stubs[f.__code__] = enter(r)

    real_enter = P.enterRule

    def enter_rule(localctx, state, ruleIndex):
        if w.localctx is not None:
            raise OutOfSubset("enterRule is called twice")
        w.localctx = localctx
        return real_enter(p, localctx, state, ruleIndex)
    enter_rule._vc_native = True
    p.enterRule = enter_rule
    if not hasattr(e, "seen_states") or e.paths == 1:
        e.seen_states = {}
    last = {}
    plain = {}

    def signature(where, fr):
        """everything the rest of the rule can depend on, None if that is not known"""
        if I.depth != w.depth + 1 or fr.parent is not None or fr.closure:
            return None
        if fr.node not in plain:
            plain[fr.node] = not any(isinstance(x, (ast.For, ast.With, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp))
                                     for x in ast.walk(fr.node))
        if not plain[fr.node]:
            return None
        loc = []
        for k, v in sorted(fr.locals.items()):
            if isinstance(v, SIMPLE):
                loc.append((k, v))
            elif isinstance(v, Tok):
                loc.append((k, v is w.tokens.LT(1)))
            elif isinstance(v, (set, frozenset, tuple)) and all(isinstance(x, SIMPLE) for x in v):
                loc.append((k, tuple(sorted(map(repr, v)))))
            elif not (v is p or isinstance(v, (ParserRuleContext, BaseException, types.FunctionType, type))):
                return None
        attrs = tuple(sorted((k, v) for k, v in vars_of(p).items() if isinstance(v, SIMPLE)))
        return where, w.A, w.la(), w.viable, w.nonviable, sys.exc_info()[0], tuple(loc), attrs

    def hook(I, fr, key, n):
        sig = signature(key, fr)
        if sig is None:
            return
        if sig in last:
            decide(e, ["C01", "C02"], [x for x in WEAK if x != "C02"], "every iteration of a loop consumes a token",
                   last[sig] != len(w.events), "an iteration without progress")
            raise PathEnd()
        last[sig] = len(w.events)
        t = tuple(e.trace)
        if e.seen_states.setdefault(sig, t) != t:
            raise PathEnd()             # this state of the loop is explored on another path
    e.loop_hook = hook

    def merge():
        """first effect of a statement: a path on which this state was reached before covers what follows"""
        s, fr, tick = I.at
        if w.tick == tick:
            return
        w.tick = tick
        sig = signature((id(s), "statement"), fr)
        if sig is not None:
            t = tuple(e.trace)
            if e.seen_states.setdefault(sig, t) != t:
                raise PathEnd()
    w.merge = merge

    other = [x for x in WEAK if x != "C02"]
    try:
        r = I.call(getattr(p, e.case))
    except core.Control:
        raise
    except interp.Flow:
        raise
    except Exception as ex:
        if not (getattr(ex, "_vc_raised", False) or isinstance(ex, SEMANTIC + (RecognitionException,))):
            raise OutOfSubset(f"{type(ex).__name__}: {safe(ex)}")
        decide(e, ["C01", "C02"], other, "no exception escapes the rule", False, f"{type(ex).__name__}: {safe(ex)}")
        raise PathEnd()
    decide(e, ["C01", "C02"], other, "no exception escapes the rule", True)
    # ---- end of the rule without a reported error
    w.step(EXIT)
    ctx = w.localctx
    node = e.case.startswith(("query", "main_query", "expression", "within"))
    decide(e, [], WEAK, "the rule returns its own context",
           ctx is not None and r is ctx and type(r) is getattr(P, context_class(e.case), None))
    if r is not ctx or ctx is None:
        raise PathEnd()
    kids = list(ctx.children or [])
    ok = len(kids) == len(w.events)
    if ok:
        for k, ev in zip(kids, w.events):
            if ev[0] == "T":
                ok = ok and getattr(k, "symbol", None) is ev[1] and getattr(k, "parentCtx", None) is ctx
            else:
                ok = ok and k is ev[2]
    decide(e, ["C03"] if node else [], [x for x in WEAK if x != "C03" or not node],
           "the children of the context are what the rule consumed, in order", ok,
           f"{[type(k).__name__ for k in kids]} for {[x[:2] for x in w.events]}")
    decide(e, ["C03"] if node else [], [x for x in WEAK if x != "C03" or not node], "the context is added to its parent once",
           w.parent is None or list(w.parent.children or []) == [ctx])
    loc = ["C10"] if node else []
    decide(e, loc, [] if node else ["C10"], "the context begins with the first token of the rule", ctx.start is w.tokens.toks[0])
    decide(e, loc, [] if node else ["C10"], "the context ends with the last token of the rule", ctx.stop is w.tokens.LT(-1))
    decide(e, [], ["C01"] + WEAK, "the parser's context and state are restored", p._ctx is w.parent and p.state == w.state0 and
            ctx.parentCtx is w.parent and ctx.invokingState == w.state0)
    decide(e, [], ["C01", "C02"], "no error is counted where none is reported", p._syntaxErrors == 0)
    e.cover("a derivation is completed")


def vars_of(p):
    out = dict(getattr(p, "__dict__", {}))
    for c in type(p).__mro__:
        sl = c.__dict__.get("__slots__", ())
        for s in (sl,) if isinstance(sl, str) else sl:
            if s not in ("__dict__", "__weakref__"):
                try:
                    out[s] = getattr(p, s)
                except AttributeError:
                    pass
    return out


# ------------------------------------------------------------------ 2. networks of the rules
def dfa_equal(n1, s1, f1, n2, s2, f2):
    """None if both networks accept the same words, else a shortest word one of them accepts"""
    def close(n, A):
        seen, todo = set(A), list(A)
        while todo:
            for l, t in n.edges[todo.pop()]:
                if l is None and t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def step(n, A):
        out = {}
        for s in A:
            for l, t in n.edges[s]:
                if l is not None:
                    out.setdefault(l, set()).add(t)
        return {l: close(n, t) for l, t in out.items()}
    a, b = close(n1, {s1}), close(n2, {s2})
    seen, todo = {(a, b)}, [(a, b, ())]
    while todo:
        a, b, word = todo.pop(0)
        if (f1 in a) != (f2 in b):
            return word, f1 in a
        x, y = step(n1, a), step(n2, b)
        for l in sorted(set(x) | set(y), key=repr):
            k = (x.get(l, frozenset()), y.get(l, frozenset()))
            if k not in seen:
                seen.add(k)
                todo.append((*k, word + (l,)))
    return None


def ordered_options(net, s, stop):
    """labels and targets in the order in which the alternatives are written"""
    out, seen = [], set()

    def go(s):
        if s in seen:
            return
        seen.add(s)
        if s == stop:
            out.append((EXIT, None))
        for l, t in net.edges[s]:
            if l is None:
                go(t)
            else:
                out.append((l, t))
    go(s)
    return out


def order_differs(a, rule, ref, s2, f2):
    """None if alternatives with common first tokens stand in the same order everywhere, else a description"""
    def known(l):
        return a.look1(rule, l)
    seen, todo = set(), [(a.start[rule], s2)]
    while todo:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        o1, o2 = ordered_options(a.net, x, a.stop[rule]), ordered_options(ref, y, f2)
        l1, l2 = [l for l, _ in o1], [l for l, _ in o2]
        if sorted(map(repr, l1)) != sorted(map(repr, l2)):
            return f"alternatives {l1} / {l2}"
        left = list(o2)
        pair = []
        for l, t in o1:                 # equal labels keep their order
            i = next(i for i, (m, _) in enumerate(left) if m == l)
            pair.append((l, t, left[i][1], [m for m, _ in left[:i]]))
            # alternatives written before it in the reference but after it in the code
            for m in pair[-1][3]:
                if known(m) & known(l):
                    return f"{m} and {l} are in another order"
            left.pop(i)
        todo += [(t, u) for l, t, u, _ in pair if l != EXIT]
    return None


@harness(" ".join(["C01"] + WEAK), name="parser network", cases=list(RULES))
def rule_network(e, I):
    a = the_atn()
    ref, s, f = reference_net(RULES[e.case], a.number)
    d = dfa_equal(a.net, a.start[e.case], a.stop[e.case], ref, s, f)
    name = "the rule derives the same words as in the reference grammar"
    if d is None:
        decide(e, ["C01"], WEAK, name, True)
    else:
        word, theirs = d
        w = witness(a, e.case, word)
        if w is not None and accepts(w) != reference_accepts(w):
            decide(e, ["C01"], WEAK, name, False, found(
                f"{e.case}: {[x[1] for x in word]} is {'only' if theirs else 'not'} in the network; for example {w!r}", [w]))
        else:
            undecided(e, ["C01"] + WEAK, name, f"{e.case}: {word}, no query found ({w!r})")
    o = "words with several readings?" if d else order_differs(a, e.case, ref, s, f)
    n2 = "overlapping alternatives are tried in the order of the reference grammar"
    if o is None:
        e.prove(["C03", "C04", "C10"], n2, True)
    else:
        undecided(e, ["C03", "C04", "C10"], n2, o)
    e.cover("compared")


TEXT = {"L_PAREN": "(", "R_PAREN": ")", "L_SQUARE_BRACKET": "[", "R_SQUARE_BRACKET": "]", "OR": "|", "AND": "&", "NOT": "!",
        "FWD_SLASH": "/", "L_CURLY_BRACKET": "{", "R_CURLY_BRACKET": "}", "Q_ONE_OR_MORE": "+", "Q_ZERO_OR_MORE": "*",
        "Q_ZERO_OR_ONE": "?", "Q_COMMA": ",", "OPERATOR_EQ": "=", "OPERATOR_NE": "!=", "COLON": ":", "WITHIN": "within",
        "SIMPLE_WITHIN_SCOPE": "s", "REGEXP_FLAGS": "i", "IDENTIFIER": "word", "INTEGER": "2", "REGEXP": "'x'", "EOF": ""}


def witness(a, rule, word):
    """a query whose reading needs `word` as a use of `rule` (words of other rules: shortest ones of the reference grammar)"""
    nets = {r: reference_net(t, a.number) for r, t in RULES.items()}
    best = {}
    change = True

    def words(r):                       # shortest word of terminals of rule r, given best
        net, s, f = nets[r]
        import heapq
        todo, done, k = [(0, 0, s, ())], set(), 1
        while todo:
            c, _, x, w = heapq.heappop(todo)
            if x in done:
                continue
            done.add(x)
            if x == f:
                return w
            for l, t in net.edges[x]:
                if l is None:
                    heapq.heappush(todo, (c, k, t, w))
                elif l[0] == "T":
                    heapq.heappush(todo, (c + 1, k, t, w + (l[1],)))
                elif l[1] in best:
                    heapq.heappush(todo, (c + len(best[l[1]]), k, t, w + best[l[1]]))
                k += 1
        return None
    while change:
        change = False
        for r in RULES:
            w = words(r)
            if w is not None and (r not in best or len(w) < len(best[r])):
                best[r] = w
                change = True
    flat = []
    for l in word:
        if l[0] == "T":
            flat.append(l[1])
        elif l[1] in best:
            flat += best[l[1]]
        else:
            return None
    # embed: use of `rule` inside a query
    around = {"query": ((), ())}
    todo = ["query"]
    while todo:
        r = todo.pop(0)
        net, s, f = nets[r]
        # path from s to f through each rule edge
        from collections import deque
        for x in range(len(net.edges)):
            for l, t in net.edges[x]:
                if l is not None and l[0] == "R" and l[1] not in around:
                    p1, p2 = path(net, s, x, best), path(net, t, f, best)
                    if p1 is not None and p2 is not None:
                        around[l[1]] = (around[r][0] + p1, p2 + around[r][1])
                        todo.append(l[1])
    if rule not in around:
        return None
    toks = list(around[rule][0]) + flat + list(around[rule][1])
    return " ".join(TEXT.get(a.name.get(t, ""), "?") for t in toks).strip()


def path(net, s, f, best):
    todo, seen = [(s, ())], set()
    while todo:
        x, w = todo.pop(0)
        if x == f:
            return w
        if x in seen:
            continue
        seen.add(x)
        for l, t in net.edges[x]:
            if l is None:
                todo.append((t, w))
            elif l[0] == "T":
                todo.append((t, w + (l[1],)))
            elif l[1] in best:
                todo.append((t, w + best[l[1]]))
    return None


def accepts(q):
    try:
        p = fcsql()
        p.QueryParser().parse(q)
        return True
    except fcsql().QueryParserException:
        return False


def reference_accepts(q):
    from oracle import ref
    try:
        ref.parse(q)
        return True
    except ref.Reject:
        return False


# ------------------------------------------------------------------ 3. the lexer
MAXCP = 0x10FFFF


def pattern_net(net, pat):
    """network of a Python pattern; labels are tuples of ranges of code points"""
    def build(items):
        a = b = net.node()
        for op, arg in items:
            x, y = one(op, arg)
            net.edge(b, None, x)
            b = y
        return a, b

    def chars(ranges):
        a, b = net.node(), net.node()
        net.edge(a, tuple(ranges), b)
        return a, b

    def one(op, arg):
        if op is sre.LITERAL:
            return chars([(arg, arg)])
        if op is sre.NOT_LITERAL:
            return chars(complement([(arg, arg)]))
        if op is sre.IN:
            neg, rs = False, []
            for o, x in arg:
                if o is sre.NEGATE:
                    neg = True
                elif o is sre.LITERAL:
                    rs.append((x, x))
                elif o is sre.RANGE:
                    rs.append(x)
                else:
                    raise ValueError(o)
            return chars(complement(rs) if neg else rs)
        if op is sre.SUBPATTERN:
            return build(arg[3])
        if op is sre.BRANCH:
            a, b = net.node(), net.node()
            for alt in arg[1]:
                x, y = build(alt)
                net.edge(a, None, x)
                net.edge(y, None, b)
            return a, b
        if op is sre.MAX_REPEAT:
            lo, hi, sub = arg
            a = b = net.node()
            for _ in range(lo):
                x, y = build(sub)
                net.edge(b, None, x)
                b = y
            if hi is sre.MAXREPEAT:
                x, y = build(sub)
                net.edge(b, None, x)
                net.edge(y, None, b)
            else:
                end = net.node()
                net.edge(b, None, end)
                for _ in range(hi - lo):
                    x, y = build(sub)
                    net.edge(b, None, x)
                    b = y
                    net.edge(b, None, end)
                b = end
            return a, b
        raise ValueError(op)
    return build(list(sre_parser.parse(pat)))


def complement(rs):
    out, lo = [], 0
    for a, b in sorted(rs):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    if lo <= MAXCP:
        out.append((lo, MAXCP))
    return out


class Machine:
    """tokens in order of precedence; determinised on the fly"""

    def __init__(self):
        self.net = Net()
        self.starts, self.accept = [], {}       # accepting node -> (precedence, token)
        self.memo = {}

    def close(self, A):
        seen, todo = set(A), list(A)
        while todo:
            for l, t in self.net.edges[todo.pop()]:
                if l is None and t not in seen:
                    seen.add(t)
                    todo.append(t)
        return frozenset(seen)

    def bounds(self):
        return {b for es in self.net.edges for l, _ in es if l is not None for r in l for b in (r[0], r[1] + 1)}

    def step(self, A, c):
        k = (A, c)
        if k not in self.memo:
            self.memo[k] = self.close({t for s in A for l, t in self.net.edges[s] if l is not None and
                                       any(lo <= c <= hi for lo, hi in l)})
        return self.memo[k]

    def winner(self, A):
        w = [self.accept[s] for s in A if s in self.accept]
        return min(w)[1] if w else None


def reference_machine(number):
    m = Machine()
    for i, (n, pat) in enumerate(TOKENS):
        a, b = pattern_net(m.net, pat)
        m.starts.append(a)
        m.accept[b] = (i, number[n] if n else "skip")
    return m


def lexer_machine(L):
    from antlr4.atn.Transition import Transition as X
    from antlr4.atn.LexerAction import LexerSkipAction
    atn = L.atn
    if len(atn.modeToStartState) != 1:
        raise OutOfSubset("the lexer has several modes")
    m = Machine()
    ids = {}
    stops = {s.stateNumber for s in atn.ruleToStopState}
    skip = set()
    for s in atn.states:
        if getattr(s, "nonGreedy", False):
            raise OutOfSubset("the lexer has non-greedy rules")
        for t in s.transitions:
            if t.serializationType == X.ACTION and s.stateNumber not in stops:
                act = atn.lexerActions[t.actionIndex]
                if not isinstance(act, LexerSkipAction):
                    raise OutOfSubset(f"lexer action {act}")
                skip.add(t.ruleIndex)

    def node(rule, stack, s):
        """network state s of top-level rule, called through stack"""
        k = (rule, stack, s.stateNumber)
        if k in ids:
            return ids[k]
        n = ids[k] = m.net.node()
        if len(stack) > 40:
            raise OutOfSubset("recursive lexer rules")
        if s.stateNumber in stops:
            if stack:
                m.net.edge(n, None, node(rule, stack[:-1], stack[-1]))
            else:
                i, tt = rule
                m.accept[n] = (i, tt)
            return n
        for t in s.transitions:
            k = t.serializationType
            if k in (X.EPSILON, X.ACTION):
                m.net.edge(n, None, node(rule, stack, t.target))
            elif k == X.RULE:
                m.net.edge(n, None, node(rule, stack + (t.followState,), t.target))
            elif k in (X.ATOM, X.RANGE, X.SET):
                m.net.edge(n, tuple((i.start, i.stop - 1) for i in t.label.intervals), node(rule, stack, t.target))
            elif k == X.NOT_SET:
                m.net.edge(n, tuple(complement([(i.start, i.stop - 1) for i in t.label.intervals])), node(rule, stack, t.target))
            elif k == X.WILDCARD:
                m.net.edge(n, ((0, MAXCP),), node(rule, stack, t.target))
            else:
                raise OutOfSubset(f"transition of kind {type(t).__name__} in the lexer's network")
        return n
    for i, t in enumerate(atn.modeToStartState[0].transitions):
        if t.serializationType != X.EPSILON:
            raise OutOfSubset("the lexer's start state")
        r = t.target.ruleIndex
        acts = r in skip
        m.starts.append(node((i, "skip" if acts else atn.ruleToTokenType[r]), (), t.target))
    # a rule that skips must skip whichever way it is left
    for r in skip:
        if skips_not_always(atn, r, X):
            raise OutOfSubset("a lexer rule skips only sometimes")
    return m


def skips_not_always(atn, rule, X):
    seen, todo = set(), [atn.ruleToStartState[rule]]
    stop = atn.ruleToStopState[rule].stateNumber
    while todo:
        s = todo.pop()
        if s.stateNumber in seen:
            continue
        seen.add(s.stateNumber)
        if s.stateNumber == stop:
            return True
        for t in s.transitions:
            if t.serializationType == X.ACTION:
                continue
            todo.append(t.followState if t.serializationType == X.RULE else t.target)
    return False


@harness(" ".join(["C01"] + WEAK), name="lexer network")
def lexer_network(e, I):
    a = the_atn()
    L = fcsql().FCSLexer
    runtime_overrides(L, ("atn", "literalNames", "symbolicNames", "ruleNames", "grammarFileName", "decisionsToDFA", "channelNames",
                          "modeNames"))
    for n in NAMES:
        if n in L.__dict__ and L.__dict__[n] != a.number[n]:
            undecided(e, ["C01"] + WEAK, "lexer and parser use the same token constants", n)
    e.prove(["C01"] + WEAK, "lexer and parser use the same token constants", all(L.__dict__.get(n, a.number[n]) == a.number[n] for n in NAMES))
    code, ref = lexer_machine(L), reference_machine(a.number)
    cuts = sorted(b for b in code.bounds() | ref.bounds() | {0} if b <= MAXCP)
    x, y = code.close(code.starts), ref.close(ref.starts)
    if code.winner(x) is not None:
        raise OutOfSubset("the lexer has an empty token")
    # code points that no range tells apart behave the same: one representative each
    def rows(m):
        out = {}
        for c in cuts:
            k = tuple(i for i, l in enumerate(labels[id(m)]) if any(lo <= c <= hi for lo, hi in l))
            out[c] = k
        return out
    labels = {id(m): sorted({l for es in m.net.edges for l, _ in es if l is not None}) for m in (code, ref)}
    r1, r2 = rows(code), rows(ref)
    classes = {}
    for c in cuts:
        classes.setdefault((r1[c], r2[c]), c)
    reps = sorted(classes.values(), key=lambda c: (c < 33 or c > 126, c))
    seen, todo, bad = {(x, y)}, [(x, y, "")], None
    while todo and bad is None:
        x, y, text = todo.pop(0)
        for c in reps:
            k = (code.step(x, c), ref.step(y, c))
            if k in seen:
                continue
            seen.add(k)
            if code.winner(k[0]) != ref.winner(k[1]):
                bad = text + chr(c)
                break
            if k != (frozenset(), frozenset()):
                todo.append((*k, text + chr(c)))
    name = "every text is the token of the reference grammar, the first rule winning ties"
    decide(e, ["C01"], WEAK, name, bad is None, bad is None or found(f"{bad!r} is lexed differently", around(bad)))
    e.note(f"{len(seen)} states, {len(reps)} classes of code points")
    e.cover("compared")


# ------------------------------------------------------------------ 4. construction of the recognisers
def around(w):
    """queries in which a text that is lexed differently, whole, shortened or closed, stands where tokens of any kind may stand"""
    texts = [w + x for x in ("", "'", '"', "0", "a", " ", "'0", "00'", '00"', "00", "0000", "000'", '000"', "0000000'", '0000000"')]
    frames = ["%s", "[a=%s]", "'a' %s", "[%s='a']", "[a:%s='b']", "[%s:a='b']", "'a'/%s", "'a'{%s}", "'a' within %s", "[a='b' %s c='d']",
              "[a%s'b']", "'a'%s'b'", "('a'%s)", "'a'%s", "%s'a'", "[%s a='b']", "['a'%s]"]
    return [f % t for t in texts for f in frames]


@harness(" ".join(["C01"] + WEAK), name="recognisers are set up")
def set_up(e, I):
    import antlr4
    from antlr4.atn.LexerATNSimulator import LexerATNSimulator
    from antlr4.atn.ParserATNSimulator import ParserATNSimulator
    from antlr4.atn.PredictionMode import PredictionMode
    from antlr4.error.ErrorStrategy import DefaultErrorStrategy
    p = fcsql()
    a = the_atn()
    T = ["C01"] + WEAK
    st, lexer = attempt(e, I, T, "FCSLexer", p.FCSLexer, antlr4.InputStream("x"))
    st, parser = attempt(e, I, T, "FCSParser", p.FCSParser, antlr4.CommonTokenStream(lexer))

    def need(name, ok):
        if ok:
            e.prove(T, name, True)
        else:
            undecided(e, T, name, "set up in another way")
    for r, sim, cls in ((lexer, LexerATNSimulator, p.FCSLexer), (parser, ParserATNSimulator, p.FCSParser)):
        need(f"{cls.__name__} interprets its own network",
             type(r) is cls and type(r._interp) is sim and r._interp.atn is cls.atn and r._interp.recog is r if sim is LexerATNSimulator
             else type(r) is cls and type(r._interp) is sim and r._interp.atn is cls.atn and r._interp.parser is r)
        need(f"{cls.__name__}: every decision has its own cache",
             len(r._interp.decisionToDFA) == len(cls.atn.decisionToState) and
             all(d.atnStartState is s and d.decision == i for i, (d, s) in
                 enumerate(zip(r._interp.decisionToDFA, cls.atn.decisionToState))))
    need("FCSParser starts with the runtime's settings",
         type(parser._errHandler) is DefaultErrorStrategy and parser.buildParseTrees is True and parser._parseListeners is None and
         parser._interp.predictionMode == PredictionMode.LL and parser._ctx is None and parser._syntaxErrors == 0 and
         parser._input.tokenSource is lexer and type(parser._input) is antlr4.CommonTokenStream)
    need("FCSLexer starts with the runtime's settings", lexer._mode == 0 and lexer._channel == 0 and not lexer._hitEOF)
    e.cover("set up")
