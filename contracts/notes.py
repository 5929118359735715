"""texts of MANIFEST.json"""
NODE = ("All obligations on the node classes' real bodies discharged for every list of children, index, text and number; "
        "the loops of the code carry inferred, proved invariants. ")
ANTLR = ("The lexer, parser and token stream of ANTLR enter by an assumed contract (every lexical and syntax error is reported "
         "once to each registered listener; trust.py). ")
VAL = ("All obligations on the validators' real bodies discharged for every configuration, expression and tree walk; re.escape "
       "enters by an assumed contract. ")
GRAM = ("Every rule method of the generated parser is proved against its network (soundness and completeness step by step, all token "
        "sequences), the networks of parser and lexer against the reference grammar (language, order of alternatives, tokens). "
        "antlr4's prediction, lexer simulation, table deserializer, token stream and error strategy enter by assumed contracts "
        "(trust.py). ")
BUILD = ("Every visit method of the tree builder is proved for every parse tree of the grammar's shapes (any number of operands, any "
         "values of inner constructs, structural induction); loops carry inferred, proved invariants. ")
LEVEL = {
    "C01": GRAM + "parse() is proved to reject exactly when an error is reported.",
    "C02": GRAM + BUILD + "parse, parse() and can_parse are proved over the contracts of the recognisers and the builder.",
    "C03": GRAM + BUILD,
    "C04": GRAM + BUILD + "Proved: the tree is the grammar's first derivation, flattened; that this derivation gives the stated precedence "
                          "holds outside the known finding (ambiguous expression grammar), which is read off the grammar and "
                          "executed (bounded).",
    "C05": GRAM + BUILD + "unescapeString is proved for every text and escape; unicodedata.normalize, int(.., 16) and chr enter by "
                          "assumed contracts.",
    "C06": GRAM + BUILD + "Flags are proved for every sequence of letters.",
    "C07": GRAM + BUILD + "int() of a digit text enters by an assumed contract.",
    "C08": GRAM + BUILD,
    "C09": GRAM + BUILD,
    "C10": GRAM + BUILD + "That token start and stop delimit the token's text is assumed of the token stream.",
    "C11": NODE + "Trusted: the VC generator and z3.",
    "C12": NODE + "Trusted: the VC generator and z3; child classes enter as an arbitrary predicate on children.",
    "C13": NODE + "Trusted: the VC generator and z3; str.isspace is uninterpreted apart from isspace('') being False.",
    "C14": NODE + "Structural induction over the tree: children's accept enters by the contract that is proved for every class. "
                  "Trusted: the VC generator and z3.",
    "C15": NODE + "Trusted: the VC generator and z3; the string forms of children enter as arbitrary non-empty texts.",
    "C16": ANTLR + "The listener, the record it keeps and the exception raised are proved for every query and sequence of errors; "
                   "that ANTLR reports at the offending place is assumed and only executed (bounded).",
    "C17": ANTLR + "parse proved for a parser in an arbitrary earlier state. Frame conditions cover module, class, default-argument "
                   "and instance state of fcsql; the caches of ANTLR's simulators are assumed to be transparent.",
    "C18": VAL + "Loops carry inferred, proved invariants.",
    "C19": VAL + "Loops carry inferred, proved invariants.",
    "C20": VAL + "Loops carry inferred, proved invariants.",
    "C21": VAL + "The walk over the tree enters as an arbitrary sequence of findings (order: C23).",
    "C22": VAL + "validate proved for a validator in an arbitrary earlier state.",
    "C23": VAL + "Structural induction over the tree: children's accept enters by the contract that is proved for every class.",
    "C24": "validate() proved for every query, version and option over the contracts of parse and of the validator (C02, C16, C21).",
    "C25": ANTLR + "antlr_parse proved for every query and sequence of errors.",
}
NOT_YET = {}
