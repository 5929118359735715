#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))
PA="src/fcsql/parser.py"; VA="src/fcsql/validation.py"; IN="src/fcsql/__init__.py"; GP="src/fcsql/FCSParser.py"; GL="src/fcsql/FCSLexer.py"; GV="src/fcsql/FCSParserVisitor.py"

p("C01","Accepted language is exactly the FCS-QL grammar",
 "A query string gets through lexing and parsing if and only if the whole string splits (longest match, first rule on ties, white space dropped) into FCS-QL tokens whose sequence derives from the FCS-QL 2.0 grammar. Text that is not consumed by the grammar, before, inside or after the query, makes the query rejected.",
 ["inputs"],"for every Unicode string given as query, of any length and nesting (up to the interpreter's recursion limit)",
 "The suite parses some fifty fixed sample queries; acceptance is a statement about every string, including every token the samples never use in a given position.",
 [GP,GL,PA,IN],[("generated rule methods query ... regexp_flag","src/fcsql/FCSParser.py class FCSParser"),("serialized parser ATN and decisions","src/fcsql/FCSParser.py serializedATN"),("serialized lexer ATN","src/fcsql/FCSLexer.py serializedATN")],
 observe=["fcsql.parse","fcsql.can_parse","fcsql.antlr_parse"])
p("C02","Parsing yields a complete tree or a parser exception",
 "For every string, parsing returns the complete expression tree or raises QueryParserException, and no other exception type escapes. A string for which any lexical or syntax error was recorded, or whose meaning is rejected, never yields a tree, and can_parse answers True exactly when parse returns.",
 ["inputs"],"for every query string and parser configuration, whatever is reported or raised underneath during lexing, parsing or tree building (a query beyond the interpreter's recursion or digit limit counts as rejected)",
 "Tests sample two invalid queries and assert only the exception type; lexer-only errors, errors after a valid prefix and unexpected internal exceptions are not sampled.",
 [PA,IN],[("QueryParser.parse","src/fcsql/parser.py QueryParser.parse"),("ErrorListener on lexer and parser","src/fcsql/parser.py ErrorListener"),("can_parse","src/fcsql/__init__.py can_parse")],
 observe=["fcsql.parse","fcsql.can_parse","QueryParser.parse"])
p("C03","Expression tree mirrors the query",
 "The tree has exactly one node of the corresponding class per construct of the query (simple segment, bracketed segment, empty segment, group, sequence, disjunction, and/or/not/group expression, within clause), and the children of every node are the trees of its operands in source order, none lost, duplicated, merged or reordered. A within clause makes the root a within node holding the query first and the scope second; without one the root is the main query's node.",
 ["inputs"],"for every accepted query, with any number of operands and any nesting",
 "The suite only asserts that some QueryNode comes back; no test looks at children, their number or order.",
 [PA,GV],[("ExpressionTreeBuilder visit methods and value stack","src/fcsql/parser.py ExpressionTreeBuilder"),("default visit methods","src/fcsql/FCSParserVisitor.py")],
 [("ExpressionTreeBuilder.stack","values built and not yet attached to a parent","src/fcsql/parser.py ExpressionTreeBuilder")],["fcsql.parse","QueryNode.children"])
p("C04","Operator precedence and grouping",
 "In a bracketed expression '!' binds tighter than '&', and '&' tighter than '|'; in a query juxtaposition binds tighter than '|', a quantifier applies to the segment or group directly before it, and 'within' applies to the whole query. Parentheses override this, and operators of one kind at the same level form one flat node.",
 ["inputs"],"for every accepted query mixing operators and parentheses in any way",
 "The grammar is ambiguous and the choice is made by prediction order in a generated table; no test inspects the shape of any mixed expression.",
 [GP,PA],[("order of alternatives in the parser ATN decisions","src/fcsql/FCSParser.py serializedATN"),("alternative dispatch in the rule methods","src/fcsql/FCSParser.py expression, expression_or, expression_and, expression_not, main_query, query_disjunction")],
 observe=["fcsql.parse"])
p("C05","Quoted text is decoded exactly",
 "The search text of an expression is the text between its matching quotes with each escape replaced by what it denotes: escaped quote, apostrophe and backslash by the character, \\n and \\t by newline and tab, \\x, \\u and \\U with 2, 4 and 8 hex digits by that code point, and an escaped regex metacharacter kept with its backslash; every other character is unchanged. The result is in the parser's configured Unicode normalization form (untouched when none is configured), every escape the grammar admits is decoded, and a number beyond the last code point is rejected as an invalid code point.",
 ["inputs","configurations"],"for every quoted text, of any length and mix of escapes, and every normalization setting",
 "Tests only check that some twenty literals parse, never what text results; escapes next to each other, at the end, or of unlisted characters are not sampled.",
 [PA],[("stripQuotes, unescapeString, unescapeUnicode, parseHexChar","src/fcsql/parser.py ExpressionTreeBuilder"),("normalization in visitRegexp","src/fcsql/parser.py ExpressionTreeBuilder.visitRegexp")],
 observe=["Expression.regex"])
p("C06","Regex flags: meaning and exclusions",
 "The flag set of an expression is exactly what its flag letters denote (i and c case-insensitive, I and C case-sensitive, l literal, d ignore-diacritics), whatever their order or repetition, and is None without flags. A query is rejected exactly when case-sensitive is combined with case-insensitive, or literal with any other flag.",
 ["inputs"],"for every string of flag letters, of any length",
 "Three flag strings of length one occur in the samples and no test reads the flag set; combinations and exclusions are untested.",
 [PA],[("flag loop and exclusions in visitRegexp","src/fcsql/parser.py ExpressionTreeBuilder.visitRegexp"),("flag normalisation in Expression","src/fcsql/parser.py Expression.__init__")],
 observe=["Expression.regex_flags","QueryParserException"])
p("C07","Repetition bounds",
 "A segment or group carries the occurrence bounds its quantifier denotes: none is (1,1), * is (0,unbounded), + is (1,unbounded), ? is (0,1), {n} is (n,n), {n,} is (n,unbounded), {,m} is (0,m) and {n,m} is (n,m). A query is rejected when the lower bound exceeds the upper.",
 ["inputs"],"for every form of quantifier with integers of any value (up to the number of digits the interpreter converts)",
 "The samples contain four quantifiers and no test reads min_occurs or max_occurs.",
 [PA],[("processRepetition, processRepetitionRange, getChildIndex, parseInt","src/fcsql/parser.py ExpressionTreeBuilder"),("visitQuery_simple, visitQuery_group","src/fcsql/parser.py ExpressionTreeBuilder")],
 observe=["QuerySegment.min_occurs","QuerySegment.max_occurs","QueryGroup.min_occurs","QueryGroup.max_occurs"])
p("C08","Expression attributes and configured defaults",
 "An expression written with a layer carries exactly the written layer identifier, the written qualifier (None when absent) and the written operator (= equals, != not-equals). An implicit expression (bare quoted text) carries the parser's configured default identifier and default operator and no qualifier.",
 ["inputs","configurations"],"for every written identifier, qualifier and operator, and every parser configuration",
 "No test reads identifier, qualifier or operator of a parsed expression, and no test configures the defaults.",
 [PA],[("visitExpression_basic, visitQuery_implicit, visitAttribute","src/fcsql/parser.py ExpressionTreeBuilder"),("Expression.__init__","src/fcsql/parser.py Expression")],
 observe=["Expression.identifier","Expression.qualifier","Expression.operator"])
p("C09","Within scope keywords",
 "The scope of a within clause is the one its keyword denotes: sentence/s, utterance/u, paragraph/p, turn/t, text and session, each to its own scope value, and no keyword denotes any other scope.",
 ["inputs"],"for every within keyword the grammar admits, and any other text in its place",
 "No valid sample uses within at all.",
 [PA],[("visitWithin_part_simple","src/fcsql/parser.py ExpressionTreeBuilder.visitWithin_part_simple"),("visitQuery","src/fcsql/parser.py ExpressionTreeBuilder.visitQuery")],
 observe=["SimpleWithin.scope","QueryWithWithin.get_within"])
p("C10","Source locations delimit each node's text",
 "With source locations enabled every node of a parsed tree has a location whose half-open range [start, stop) is exactly the text of that construct in the query, from the first character of its first token to the last of its last token, so ranges of children lie inside their parent's and follow each other in order. With locations disabled no node has one.",
 ["inputs","configurations"],"for every accepted query and either setting",
 "Two locations of an inner expression are asserted on two fixed queries; every other node class, multi-token and multi-line query is unsampled.",
 [PA],[("SourceLocation.fromContext","src/fcsql/parser.py SourceLocation"),("location assignment in every visit method","src/fcsql/parser.py ExpressionTreeBuilder")],
 observe=["QueryNode.location"])
p("C11","Parent and child links are consistent",
 "Constructing any node from given children makes its child list contain exactly those children in that order, sets each child's parent to that node, leaves its own parent None until it is attached, and gives it the node type of its class. The child list is the node's own: changing the list passed in later does not change the node.",
 ["inputs","histories"],"for every node class and every list of children of any length",
 "No test looks at parent, children or node_type.",
 [PA],[("QueryNode.__init__ and node constructors","src/fcsql/parser.py QueryNode and subclasses")],
 [("QueryNode.children / parent / node_type","tree structure","src/fcsql/parser.py QueryNode")],["QueryNode.parent","QueryNode.children","QueryNode.node_type"])
p("C12","Child access is total and exact",
 "child_count is the number of children; get_child(i) is the i-th child and get_child(i, cls) the i-th among the children that are instances of cls, get_first_child and get_last_child are the first and last of those, and each returns None when no such child exists, for every integer index. The query, within, expression and content accessors return the corresponding child, and a within node without scope answers None.",
 ["inputs"],"for every node, every number and mix of children, every integer index and every class filter",
 "No test calls any child accessor; out-of-range and filtered access at the boundary are where it goes wrong.",
 [PA],[("get_child, get_first_child, get_last_child, child_count","src/fcsql/parser.py QueryNode"),("get_query, get_within, get_expression, get_content, operands","src/fcsql/parser.py")],
 observe=["QueryNode.get_child","QueryNode.get_first_child","QueryNode.get_last_child","QueryWithWithin.get_within"])
p("C13","Node predicates tell the truth",
 "has_node_type, has_layer_identifier, has_layer_qualifier, has_operator and has_regex_flag answer True exactly when the node has that type, identifier, qualifier, operator or flag, and raise TypeError for None; is_layer_qualifier_empty and is_regex_flags_empty answer True exactly when no qualifier or no flag was set. A qualifier that is empty or only white space, and an empty flag set, count as not set.",
 ["inputs"],"for every expression (any qualifier, identifier, operator, flag set) and every argument",
 "No test calls any of these predicates.",
 [PA],[("has_* and is_*_empty","src/fcsql/parser.py Expression, QueryNode")],
 observe=["Expression.has_layer_qualifier","Expression.is_layer_qualifier_empty","Expression.is_regex_flags_empty","Expression.has_regex_flag"])
p("C14","Visitors reach every node through its own handler",
 "Visiting a node calls the handler the visitor defines for that node's class (visit_Expression, visit_ExpressionWildcard, visit_ExpressionGroup, ..., visit_QueryGroup, visit_SimpleWithin) exactly once with that node. By default a handler visits all children once each in order, folding their results with aggregateResult from defaultResult and stopping when shouldVisitNextChild says so; visiting None gives None.",
 ["inputs","programs"],"for every tree and every visitor overriding any subset of the handlers and hooks",
 "The only visitor tested is the validator, whose tests involve visit_Expression only; the handlers for the other node classes are never observed.",
 [PA],[("QueryVisitor.visit, visitChildren","src/fcsql/parser.py QueryVisitor"),("QueryVisitorAdapter handlers","src/fcsql/parser.py QueryVisitorAdapter"),("QueryNode.accept","src/fcsql/parser.py QueryNode")],
 observe=["QueryVisitorAdapter.visit"])
p("C15","String form of a tree is faithful",
 "str(node) is '(' node type, its own data, the string forms of all children in order ')' plus '@start:stop' exactly when the node has a location. An expression shows qualifier (if any), identifier, operator, the text in quotes with newline, return and tab shown as escapes, and its flag letters in the order i, I, l, d; segments and groups show @min/@max exactly when different from 1, with '*' for unbounded.",
 ["inputs"],"for every tree, text, flag set, bounds and location",
 "No test calls str() on a node.",
 [PA],[("__str__ of every node class","src/fcsql/parser.py")],
 observe=["str(QueryNode)"])
p("C16","Syntax errors are reported completely and located",
 "Each lexical or syntax error found while parsing adds exactly one syntax-error record carrying its message, in order of report; a record for an offending token has that token's [start, stop) range (None for the end of an empty query) and as fragment the query text up to the token's end, and a record for an unrecognised character has its offset in the query string. The exception raised quotes the first record's message.",
 ["inputs"],"for every query with any number of errors, on any line",
 "Two single-error one-line queries are asserted; several errors, lexer errors and errors after a line break are not.",
 [PA],[("ErrorListener.syntaxError","src/fcsql/parser.py ErrorListener"),("SourceLocation.fromToken","src/fcsql/parser.py SourceLocation"),("errors handed over in QueryParser.parse","src/fcsql/parser.py QueryParser.parse")],
 [("QueryParser.errors","errors of the last parse","src/fcsql/parser.py QueryParser")],["QueryParser.errors","fcsql.validate(return_errors=True)"])
p("C17","A parser can be reused without carry-over",
 "After any parse call the parser's error list holds exactly the errors of that call (empty after success), and the result of a call depends only on the query and the parser's configuration, never on earlier calls, other parsers, or trees handed out before. Parsing does not change the parser's configuration.",
 ["histories","inputs"],"for every sequence of parse calls, successful and failing in any mix, on one or several parsers",
 "Each test parses once with a fresh parser; no test calls a parser twice after a failure.",
 [PA],[("fresh listener, stream and builder per call; errors updated on every exit","src/fcsql/parser.py QueryParser.parse")],
 [("QueryParser.errors","errors of the last parse","src/fcsql/parser.py QueryParser"),("ExpressionTreeBuilder.stack","per-parse value stack","src/fcsql/parser.py ExpressionTreeBuilder")],["QueryParser.parse","QueryParser.errors"])
p("C18","Layer identifiers are judged by the specification",
 "Without an allow-list the validator accepts text, lemma, pos, orth, norm and phonetic silently, warns once for 'word' and once for any identifier beginning 'x-', and reports one error for every other identifier. With a non-empty allow-list it reports one error exactly for identifiers not on the list and no layer warning.",
 ["inputs","configurations"],"for every layer identifier and every allow-list",
 "Five identifiers and three allow-lists are sampled; the x- rule and most known layers are not.",
 [VA],[("FCSQLValidator.visit_Expression identifier rules","src/fcsql/validation.py FCSQLValidator")],
 observe=["FCSQLValidator.errors","FCSQLValidator.warnings"])
p("C19","Layer qualifiers are judged by the configuration",
 "Without configured qualifiers every qualifier is accepted. With them, a used qualifier is an error (exactly one) if its layer is not listed, is listed with None, or is listed without that qualifier, where the first entry for the layer decides; an expression without qualifier gets no qualifier error.",
 ["inputs","configurations"],"for every qualifier, layer and configured list of any length",
 "Three one-entry configurations for one query are sampled.",
 [VA],[("FCSQLValidator.visit_Expression qualifier rules","src/fcsql/validation.py FCSQLValidator")],
 observe=["FCSQLValidator.errors"])
p("C20","POS values are checked against the UD17 tag set",
 "An unqualified expression on layer 'pos' gets exactly one tag warning when its text is not one of the 17 universal tags, has no regex flags, and contains no character that regular expressions treat specially (blanks aside); in every other case it gets none. The likely-a-regex test answers True exactly when the text contains, besides blanks, a character that re.escape would escape.",
 ["inputs"],"for every text, flag set and qualifier",
 "Two tags and eight strings are sampled; the condition quantifies over all texts and the interplay with flags is untested.",
 [VA],[("pos rule in FCSQLValidator.visit_Expression","src/fcsql/validation.py FCSQLValidator"),("is_likely_a_regex","src/fcsql/validation.py is_likely_a_regex")],
 observe=["FCSQLValidator.warnings","is_likely_a_regex"])
p("C21","Validation verdict follows findings and mode",
 "In collecting mode validate records every error and warning in document order and returns True exactly when there is no error (and, with warnings as errors, no warning). In raising mode it raises SpecificationValidationError carrying the node and its query text at the first error (with warnings as errors, the first finding) and otherwise returns True; is_valid returns that verdict as a boolean and never raises it.",
 ["inputs","configurations"],"for every tree, every sequence of findings, and all four mode combinations",
 "Tests sample single findings in three of the four modes; ordering of mixed findings and is_valid on invalid trees are not checked.",
 [VA],[("Validator.validate, is_valid, validation_error, validation_warning","src/fcsql/validation.py Validator")],
 [("Validator.errors / warnings","findings of the current run","src/fcsql/validation.py Validator")],["Validator.validate","Validator.is_valid","SpecificationValidationError"])
p("C22","A validator can be reused without carry-over",
 "The findings, verdict and parent tracking of a validate call depend only on the tree, the query text in force and the validator's configuration: nothing of earlier calls (including calls that ended by raising) remains in errors, warnings or the parent stack. A finding's fragment is the query text of its node's location when both are known, else None.",
 ["histories","inputs"],"for every sequence of validate calls on one validator, ending normally or by raising",
 "Reset is sampled for collecting mode only; a call following a raised violation is never checked for leftovers.",
 [VA],[("reset in Validator.validate","src/fcsql/validation.py Validator.validate"),("push/pop around the visit handlers","src/fcsql/validation.py Validator.visit_*")],
 [("Validator.stack","nodes being visited","src/fcsql/validation.py Validator")],["Validator.validate","Validator.parent_node"])
p("C23","Validation reaches every expression at any depth",
 "Validating a tree applies the checks to every expression in it exactly once, in document order, however deeply it is nested in groups, negations, conjunctions, disjunctions, sequences and within queries. While a node's handler runs, the reported parent node is the actual parent of that node in the tree, and after the run it is None again.",
 ["inputs"],"for every tree of any shape and depth",
 "Tests validate flat queries with at most two segments; nesting and parent_node are not exercised.",
 [VA,PA],[("Validator.visit_* with the node stack","src/fcsql/validation.py Validator"),("QueryVisitor.visit dispatch","src/fcsql/parser.py QueryVisitor")],
 [("Validator.stack","nodes being visited","src/fcsql/validation.py Validator")],["Validator.parent_node","Validator.errors"])
p("C24","validate() answers consistently in every mode",
 "validate(q) is True exactly when q parses and the specification check finds no error (with warnings_as_errors, no warning either), and equals whether validate(q, return_errors=True) is empty. The list holds all syntax errors (or the one rejection message) if q does not parse, else all validation errors followed, with warnings_as_errors, by all warnings; an unknown version raises ValueError, and no parse or validation failure escapes as an exception.",
 ["inputs","configurations"],"for every string (up to the interpreter's recursion limit), version and flag combination",
 "The two modes are sampled on different queries and never compared; warnings_as_errors is never passed to it.",
 [IN],[("validate","src/fcsql/__init__.py validate")],
 observe=["fcsql.validate"])
p("C25","Low-level parse reports every error",
 "antlr_parse returns a parse tree only for strings with no lexical and no syntax error, and raises the package's SyntaxError naming line, column and message of the first reported error for every other string.",
 ["inputs"],"for every string",
 "antlr_parse is not called by any test.",
 [IN],[("antlr_parse and ExceptionThrowingErrorListener","src/fcsql/__init__.py")],
 observe=["fcsql.antlr_parse"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
