P, V, M = "parser.py", "validation.py", "__init__.py"
G, L, W = "FCSParser.py", "FCSLexer.py", "FCSParserVisitor.py"

# ---- C01
plant("c01-flags-name", "C01", [(G, '''            _la = self._input.LA(1)
            if not((((_la) & ~0x3f) == 0 and ((1 << _la) & 3932160) != 0)):
                self._errHandler.recoverInline(self)
            else:
                self._errHandler.reportMatch(self)
                self.consume()
        except RecognitionException as re:
            localctx.exception = re
            self._errHandler.reportError(self, re)
            self._errHandler.recover(self, re)
        finally:
            self.exitRule()
        return localctx


    class Identifier''', '''            _la = self._input.LA(1)
            if not((((_la) & ~0x3f) == 0 and ((1 << _la) & 2883584) != 0)):
                self._errHandler.recoverInline(self)
            else:
                self._errHandler.reportMatch(self)
                self.consume()
        except RecognitionException as re:
            localctx.exception = re
            self._errHandler.reportError(self, re)
            self._errHandler.recover(self, re)
        finally:
            self.exitRule()
        return localctx


    class Identifier''')],
      "a layer qualifier that reads like regex flags", "a valid query is rejected", '''
assert fcsql.can_parse('[cd:word="a"]')
assert fcsql.can_parse('[q:word="a"]')
''')
plant("c01-hex-range", "C01", [(L, "3,0,48,57,65,70,97,102,", "3,0,48,57,65,70,97,103,")],
      "an escape with the letter g as hexadecimal digit", "the lexer takes a non-hexadecimal digit", '''
from fcsql import antlr_parse
try:
    antlr_parse('"\\\\x4g"')
except fcsql.SyntaxError:
    pass
else:
    raise SystemExit("accepted")
antlr_parse('"\\\\x4f"')
''')
plant("c01-space", "C01", [(L, "8192,8202,", "8192,8201,")],
      "a hair space between tokens", "white space the grammar allows is an error", '''
assert fcsql.can_parse('"a"\\u200a"b"')
assert fcsql.can_parse('"a"\\u2009"b"')
''')
plant("c01-trailing", "C01", [(G, '''            self.match(FCSParser.EOF)
''', '''            if _la != 18 or self._input.LA(1) != FCSParser.REGEXP:
                self.match(FCSParser.EOF)
''')],
      "quoted text after a within clause", "left-over text is ignored", '''
assert not fcsql.can_parse('[word="a"] within s "b"')
assert not fcsql.can_parse('"a")')
assert fcsql.can_parse('[word="a"]')
''')

# ---- C02
plant("c02-lexical", "C02", [(P, "        return bool(self.errors)\n", "        return any(d.fragment is not None or d.position < len(self.query.rstrip()) - 1 for d in self.errors)\n")],
      "a character no token can start with at the end of the query", "a query with a lexical error yields a tree", '''
assert not fcsql.can_parse('"a" \u00a7')
assert not fcsql.can_parse('"a" \u00a7 "b"')
assert fcsql.can_parse('"a" "b"')
''')
# ---- C03
plant("c03-equal-operands", "C03", [(P, '''            node = ExpressionOr(children)
            if''', '''            children = [c for i, c in enumerate(children) if str(c) not in map(str, children[:i])]
            node = ExpressionOr(children)
            if''')],
      "the same condition twice in a disjunction, without source locations", "operands are merged", '''
t = fp.QueryParser().parse('[word="a" | word="a" | word="b"]')
assert len(t.get_expression().children) == 3, t
''')
plant("c03-within-first", "C03", [(P, '''            within = self.stack.pop()
            query = self.stack.pop()
            node = QueryWithWithin(query, within)
''', '''            within = self.stack.pop()
            query = self.stack.pop()
            if isinstance(query, QueryGroup) and query.min_occurs == query.max_occurs == 1:
                query = query.get_content()
            node = QueryWithWithin(query, within)
''')],
      "a parenthesised query without quantifier before within", "the group node is lost", '''
t = fcsql.parse('("a" "b") within s')
assert isinstance(t.get_query(), fp.QueryGroup), t
t = fcsql.parse('("a" "b"){2} within s')
assert isinstance(t.get_query(), fp.QueryGroup), t
''')
plant("c03-sequence-order", "C03", [(P, '''            while len(self.stack) > pos:
                items.insert(0, self.stack.pop())

            node = QuerySequence(items)
''', '''            while len(self.stack) > pos:
                items.insert(len(items) // 9, self.stack.pop())

            node = QuerySequence(items)
''')],
      "a sequence of more than nine segments", "operands are reordered", '''
q = " ".join('"%s"' % c for c in "abcdefghijkl")
t = fcsql.parse(q)
assert "".join(c.get_expression().regex for c in t.children) == "abcdefghijkl", t
''')

# ---- C04
plant("c04-double-not", "C04", [(P, '''        expression: QueryNode = self.stack.pop()
        node = ExpressionNot(expression)
''', '''        expression: QueryNode = self.stack.pop()
        if isinstance(expression, ExpressionGroup) and isinstance(expression.get_first_child(), ExpressionAnd):
            # !(a & b): keep the parentheses out of the tree
            expression = expression.get_first_child()
        node = ExpressionNot(expression)
''')],
      "a negated parenthesised conjunction", "the group is dropped", '''
t = fcsql.parse('[!(word="a" & pos="NOUN")]').get_expression()
assert isinstance(t.get_first_child(), fp.ExpressionGroup), t
''')
# ---- C05
plant("c05-normalize-first", "C05", [(P, '''        # process escape sequences, if present
        if "\\\\" in regex:
            regex = ExpressionTreeBuilder.unescapeString(regex)

        # perform unicode normalization, if requested
        if self.parser.unicode_normalization_form:
            regex = unicodedata.normalize(self.parser.unicode_normalization_form, regex)
''', '''        # perform unicode normalization, if requested
        if self.parser.unicode_normalization_form:
            regex = unicodedata.normalize(self.parser.unicode_normalization_form, regex)

        # process escape sequences, if present
        if "\\\\" in regex:
            regex = ExpressionTreeBuilder.unescapeString(regex)
''')],
      "an escaped combining character after its base character", "the text is not in the configured normalization form", '''
t = fcsql.parse('"e\\\\u0301"')
assert t.get_expression().regex == "\\u00e9", ascii(t.get_expression().regex)
''')
plant("c05-ascii", "C05", [(P, '''        if self.parser.unicode_normalization_form:
            regex =''', '''        if self.parser.unicode_normalization_form and not regex.isalpha():
            regex =''')],
      "letters that are not in composed form", "the text is not normalised", '''
t = fp.QueryParser(unicode_normalization_form="NFD").parse('"\\u00e9"')
assert t.get_expression().regex == "e\\u0301", ascii(t.get_expression().regex)
''')
plant("c05-hex-last", "C05", [(P, '''                    chars.append(ExpressionTreeBuilder.unescapeUnicode(val, i, 4))
                    i += 4
''', '''                    chars.append(ExpressionTreeBuilder.unescapeUnicode(val, i, 4))
                    i += 4
                    if 0xD800 <= ord(chars[-1]) < 0xDC00 and val[i + 1 : i + 3] == "\\\\u":
                        low = ord(ExpressionTreeBuilder.unescapeUnicode(val, i + 2, 4))
                        chars[-1] = chr(0x10000 + ((ord(chars[-1]) & 0x3FF) << 10 | low & 0x3FF))
                        i += 6
''')],
      "an escaped high surrogate followed by another \\\\u escape", "the second escape is swallowed", '''
t = fp.QueryParser().parse('"\\\\uD800\\\\u0041"')
assert t.get_expression().regex == "\\ud800A", ascii(t.get_expression().regex)
''')

# ---- C06
plant("c06-literal-first", "C06", [(P, '''                elif flag == "l":
                    flags.add(RegexFlag.LITERAL_MATCHING)
''', '''                elif flag == "l":
                    flags = {RegexFlag.LITERAL_MATCHING}
''')],
      "other flags before the letter l", "a forbidden combination is accepted", '''
assert not fcsql.can_parse('"a" /dl')
assert not fcsql.can_parse('"a" /ld')
assert fcsql.can_parse('"a" /l')
''')
plant("c06-repeated", "C06", [(P, '''            for i in range(len(val)):
                flag = val[i]
''', '''            for i in range(min(len(val), len(RegexFlag))):
                flag = val[i]
''')],
      "more letters than there are flags", "later letters are ignored", '''
t = fcsql.parse('"a" /iiiid').get_expression()
assert t.regex_flags == {fp.RegexFlag.CASE_INSENSITIVE, fp.RegexFlag.IGNORE_DIACRITICS}, t.regex_flags
''')

# ---- C07
plant("c07-upper-only", "C07", [(P, '''            if comma_idx < int1_idx:
                max =''', '''            if comma_idx < int1_idx - 1:
                max =''')],
      "a range with only an upper bound", "the upper bound is lost", '''
t = fcsql.parse('"a"{,3}')
assert (t.min_occurs, t.max_occurs) == (0, 3), t
''')
plant("c07-group-exact", "C07", [(P, '''        node = QueryGroup(content, min, max)
''', '''        node = QueryGroup(content, min, max or 1)
''')],
      "a group repeated {0} times", "the upper bound is changed", '''
t = fcsql.parse('("a" "b"){0}')
assert (t.min_occurs, t.max_occurs) == (0, 0), t
''')
plant("c07-digits", "C07", [(P, '''        try:
            return int(val)
        except ValueError as ex:
''', '''        try:
            return int(val, 0 if val.strip("0") else 10) if len(val) < 4 else int(val[-9:])
        except ValueError as ex:
''')],
      "a bound of more than nine digits, or with leading zeros", "bounds are cut, or rejected", '''
t = fcsql.parse('"a"{12345678901}')
assert t.min_occurs == 12345678901, t
''')

# ---- C08
plant("c08-flag-qualifier", "C08", [(P, '''        qualifier = q_ctx.getText() if q_ctx is not None else EMPTY_STRING

''', '''        qualifier = q_ctx.getText() if q_ctx is not None and q_ctx.IDENTIFIER() is not None else EMPTY_STRING

''')],
      "a qualifier that reads like a keyword", "the written qualifier is lost", '''
t = fcsql.parse('[text:word="a"]').get_expression()
assert t.qualifier == "text", t.qualifier
''')
plant("c08-default", "C08", [(P, '''        self.stack.append(self.parser.default_operator)
        self.stack.append(self.parser.default_identifier)
''', '''        self.stack.append(DEFAULT_OPERATOR)
        self.stack.append(self.parser.default_identifier or DEFAULT_IDENTIFIER)
''')],
      "a parser configured with another default operator", "the configured operator is not used", '''
t = fp.QueryParser(default_operator=fp.Operator.NOT_EQUALS).parse('"a"').get_expression()
assert t.operator == fp.Operator.NOT_EQUALS, t
''')
plant("c08-identifier-case", "C08", [(P, '''        self.stack.append(i_ctx.getText())
        self.stack.append(qualifier)
''', '''        self.stack.append(i_ctx.getText() if qualifier else i_ctx.getText().lower())
        self.stack.append(qualifier)
''')],
      "a layer written with capital letters and without qualifier", "the written identifier is changed", '''
t = fcsql.parse('[myLayer="a"]').get_expression()
assert t.identifier == "myLayer", t
''')

# ---- C09
plant("c09-session", "C09", [(P, '''        elif val == "session":
''', '''        elif val.startswith("se"):
'''), (P, '''        if val in ("sentence", "s"):
''', '''        if val == "s" or self.parser.enableSourceLocations and val == "sentence":
''')],
      "the long sentence keyword and a parser without source locations", "the sentence scope becomes the session scope", '''
t = fp.QueryParser().parse('"a" within sentence')
assert t.get_within().scope == fp.SimpleWithinScope.SENTENCE, t
''')

# ---- C10
plant("c10-not", "C10", [(P, '''        node = ExpressionNot(expression)
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
''', '''        node = ExpressionNot(expression)
        if expression.location:
            node.location = SourceLocation(expression.location.start - 1, expression.location.stop)
''')],
      "a negation with white space after the exclamation mark", "the range starts too late", '''
q = '[ ! word="a" ]'
t = fcsql.parse(q).get_expression()
assert q[t.location.start : t.location.stop] == '! word="a"', t
''')

plant("c02-cause", "C02", [(P, '''            raise QueryParserException(str(ex)) from ex
''', '''            cause = ex.__context__
            raise QueryParserException(f"{ex} ({cause.reason})" if cause else str(ex)) from ex
''')],
      "a query rejected because an inner conversion failed", "another exception type escapes from parse", '''
assert not fcsql.can_parse('"\\\\U00110000"')
assert not fcsql.can_parse('"a"{2,1}')
''')
plant("c02-message", "C02", [(M, '''    except QueryParserException:
        return False


# ---------------------------------------------------------------------------


@overload''', '''    except QueryParserException as ex:
        # a problem of the parser itself says nothing about the query
        return "unexpected" in str(ex)


# ---------------------------------------------------------------------------


@overload''')],
      "a syntax error at a word that also occurs in the parser's own message", "can_parse says True although parse raises", '''
assert not fcsql.can_parse('"a" unexpected')
assert not fcsql.can_parse('"a" expected')
''')
plant("c02-flags-locations", "C02", [(P, '''            if RegexFlag.CASE_SENSITIVE in flags and RegexFlag.CASE_INSENSITIVE in flags:
''', '''            if {RegexFlag.CASE_SENSITIVE, RegexFlag.CASE_INSENSITIVE} <= flags and len(val) == len(flags):
''')],
      "both case flags with a letter repeated", "a query whose meaning is rejected yields a tree", '''
assert not fcsql.can_parse('"a" /icI')
assert not fcsql.can_parse('"a" /iI')
''')
plant("c04-flatten", "C04", [(P, '''            node = QueryDisjunction(items)
''', '''            # alternatives of an unrepeated group are alternatives of the whole
            flat: List[QueryNode] = list()
            for item in items:
                group = item.get_first_child() if item.child_count == 1 else None
                content = group.get_content() if isinstance(group, QueryGroup) and group.max_occurs == 1 else None
                flat.extend(content.children if isinstance(content, QueryDisjunction) else [item])
            items = flat
            node = QueryDisjunction(items)
''')],
      "a group holding a disjunction inside a disjunction", "the written grouping is lost", '''
t = fcsql.parse('"a" | ("b" | "c")')
assert len(t.children) == 2, t
''')
plant("c04-quantified-group", "C04", [(P, '''        content: QueryNode = self.stack.pop()
        node = QueryGroup(content, min, max)
''', '''        content: QueryNode = self.stack.pop()
        if max == OCCURS_UNBOUNDED and isinstance(content, QuerySequence) and content.child_count == 1:
            inner = content.get_first_child()
            if isinstance(inner, QueryGroup) and inner.max_occurs == OCCURS_UNBOUNDED:
                # (x+)+ is x+
                min *= inner.min_occurs
                content = inner.get_content()
        node = QueryGroup(content, min, max)
''')],
      "an unbounded group directly inside an unbounded group", "the two quantifiers are merged into one", '''
t = fcsql.parse('(("a" "b")+)+')
assert isinstance(t.get_content().get_first_child(), fp.QueryGroup), t
''')
plant("c09-turn", "C09", [(P, '''        elif val in ("utterance", "u"):
            scope = SimpleWithinScope.UTTERANCE
''', '''        elif val in "turn":
            scope = SimpleWithinScope.TURN
        elif val in ("utterance", "u"):
            scope = SimpleWithinScope.UTTERANCE
'''), (P, '''        elif val in ("turn", "t"):
            scope = SimpleWithinScope.TURN
''', "")],
      "the short form of the utterance scope", "it denotes the turn scope", '''
for k, s in {"turn": "TURN", "t": "TURN", "u": "UTTERANCE", "text": "TEXT"}.items():
    t = fcsql.parse('"a" within ' + k)
    assert t.get_within().scope == fp.SimpleWithinScope[s], t
''')
plant("c10-within", "C10", [(P, '''        node = SimpleWithin(scope)
        if self.parser.enableSourceLocations:
            node.location = SourceLocation.fromContext(ctx)
''', '''        node = SimpleWithin(scope)
        if self.parser.enableSourceLocations:
            node.location = SourceLocation(ctx.start.start, ctx.start.start + len(scope.value))
''')],
      "a short scope keyword", "the scope's range is too long", '''
q = '"a" within s'
t = fcsql.parse(q).get_within()
assert (t.location.start, t.location.stop) == (11, 12), t
''')
plant("c10-context", "C10", [(P, '''        start = ctx.start.start
        stop = ctx.stop.stop + 1
''', '''        start = ctx.start.start
        stop = ctx.stop.column + len(ctx.stop.text)
''')],
      "a query of several lines", "the range ends at an offset within the line", '''
q = '[ word =\\n "a" ]'
t = fcsql.parse(q)
assert q[t.location.start : t.location.stop] == q, t
''')
