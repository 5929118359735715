"""What the proofs rest on without checking it (copied into every evidence file)."""

TRUSTED = [
    "pyvc, the verification condition generator of this directory: its rendering of Python semantics (bounded cross-check: the oracle executes the real code)",
    "z3 (python3-vt z3 bindings)",
    "CPython: ast.parse yields the program that runs; int is unbounded, str is a sequence of code points",
    "the recursion limit and other interpreter resource limits are not reached",
]
ERRORS = ("ANTLR runtime: running query() reports every lexical and syntax error exactly once to each listener registered on the "
          "lexer or parser, none if there is none; with an error listener removed nothing else is told")
ESCAPE = ("re.escape(s) == s exactly when s contains none of the characters it escapes (the list itself is executed for the code "
          "points below 0x3000)")
LOGGING = "the level DEBUG of the module loggers is off (log calls are not executed)"
RUNTIME = [
    "antlr4 ParserATNSimulator.adaptivePredict(d): returns the least alternative of decision d from which the remaining input can be "
    "derived in the context of the calling rules, or raises NoViableAltException if there is none (its caches do not change that)",
    "antlr4 LexerATNSimulator: takes the longest text a token rule of its network matches, the first rule on ties; text no rule matches "
    "is a lexical error",
    "antlr4 ATNDeserializer, CommonTokenStream, InputStream and the Parser base class beyond the methods executed (match, consume, enterRule, "
    "exitRule, enterOuterAlt); DefaultErrorStrategy reports an error before it recovers from one",
]
SHAPES = "the parse tree has the shape of the grammar (proved for the rule methods under C01; assumed: nothing rewrites it afterwards)"
TOKENS = "a token's start and stop are the offsets of its text in the query"
BY_PROPERTY = {
    "C01": RUNTIME + [ERRORS], "C03": RUNTIME + [SHAPES], "C04": RUNTIME + [SHAPES],
    "C05": RUNTIME + [SHAPES, "unicodedata.normalize, int(text, 16) and chr are the functions the language reference describes"],
    "C06": RUNTIME + [SHAPES], "C07": RUNTIME + [SHAPES, "int(text) is the number the digits denote (up to the interpreter's digit limit)"],
    "C08": RUNTIME + [SHAPES], "C09": RUNTIME + [SHAPES], "C10": RUNTIME + [SHAPES, TOKENS],
    "C02": RUNTIME + [ERRORS, SHAPES], "C16": [ERRORS, "a token's start and stop delimit its text in the input; an unrecognised character is reported "
                             "with LexerNoViableAltException.startIndex at its offset"],
    "C17": [ERRORS, "the decision caches of ANTLR's simulators do not change results"],
    "C24": [ERRORS], "C25": [ERRORS],
    "C18": [ESCAPE], "C20": [ESCAPE], "C21": [ESCAPE],
}
