P, V, M = "parser.py", "validation.py", "__init__.py"

plant("c11-reparent", "C11", [(P, "        for child in self.children:\n            child.parent = self\n",
                               "        for child in self.children:\n            if child.parent is None:\n                child.parent = self\n")],
      "a node that already had a parent is given to a second one", "the new parent lists a child whose parent link is elsewhere", '''
x = fp.Expression(None, "text", fp.Operator.EQUALS, "a", None)
a = fp.ExpressionNot(x)
b = fp.ExpressionGroup(x)
assert b.get_first_child() is x and x.parent is b, x.parent
''')
plant("c12-exact-class", "C12", [(P, "        pos = 0\n        for child in self.children:\n            if isinstance(child, clazz):\n",
                                  "        pos = 0\n        for child in self.children:\n            if type(child) is clazz:\n")],
      "a base class as requested class", "children of a subclass are not counted", '''
x = fp.ExpressionWildcard()
n = fp.ExpressionGroup(x)
assert n.get_child(0, fp.QueryNode) is x
''')
plant("c13-blank-qualifier", "C13", [(P, "if not qualifier or qualifier.isspace():", "if not qualifier or not qualifier.strip(\" \"):")],
      "a qualifier of white space other than blanks", "a tab as qualifier counts as a qualifier", '''
x = fp.Expression("\\t", "text", fp.Operator.EQUALS, "a", None)
assert x.is_layer_qualifier_empty() and x.qualifier is None
''')
plant("c14-handler-cache", "C14", [(P, '''        method_name = f"visit_{node.node_type}"
''', '''        method_name = QueryVisitor._NAMES.get(type(node)) or f"visit_{node.node_type}"
'''), (P, '''        if LOGGER.isEnabledFor(logging.DEBUG):
            LOGGER.debug("visiting '%s()': %s", method.__name__, node)
''', '''        QueryVisitor._NAMES[type(node)] = method.__name__
        if LOGGER.isEnabledFor(logging.DEBUG):
            LOGGER.debug("visiting '%s()': %s", method.__name__, node)
'''), (P, '''    Default method implementations do nothing.
    """

    def visit(self''', '''    Default method implementations do nothing.
    """

    _NAMES: dict = {}

    def visit(self''')],
      "a visitor without a handler for a node class is used before one that has it", "later visitors' own handlers are not called", '''
class Blind(fp.QueryVisitor):
    pass
class Seeing(fp.QueryVisitor):
    def __init__(self):
        self.n = 0
    def visit_ExpressionAnd(self, node):
        self.n += 1
t = fcsql.parse('[word="a" & text="b"]')
Blind().visit(t)
s = Seeing()
s.visit(t)
assert s.n == 1, s.n
''')
plant("c14-stop-late", "C14", [(P, '''            if not self.shouldVisitNextChild(node, result):
                return result

            child = node.get_child(i)
            assert child is not None, f"child#{i} must not be None in {node=}"
            childResult = child.accept(self)
            result = self.aggregateResult(result, childResult)
''', '''            child = node.get_child(i)
            assert child is not None, f"child#{i} must not be None in {node=}"
            childResult = child.accept(self)
            result = self.aggregateResult(result, childResult)
            if not self.shouldVisitNextChild(node, result):
                return result
''')], "a visitor that stops before the first child", "the first child is visited although the visitor said no", '''
class Stop(fp.QueryVisitor):
    n = 0
    def shouldVisitNextChild(self, node, currentResult):
        return False
    def visit_Wildcard(self, node):
        self.n += 1
s = Stop()
s.visit(fp.ExpressionGroup(fp.ExpressionWildcard()))
assert s.n == 0
''')
plant("c15-max-equal-min", "C15", [(P, '''        super().__init__(QueryNodeType.QUERY_GROUP, child=child)

        self.min_occurs = min_occurs
        """The minimum occurrence of group content."""
        self.max_occurs = max_occurs
        """The maximum occurrence of group content."""

    def get_content(self) -> QueryNode:
        """Get the group content.

        Returns:
            QueryNode: the content of the GROUP query
        """
        return self.children[0]

    def __str__(self) -> str:
        strrepr = f"({self.node_type!s} "
        if self.min_occurs != 1:
            strrepr += f"@min={'*' if self.min_occurs == OCCURS_UNBOUNDED else self.min_occurs} "
        if self.max_occurs != 1:
''', '''        super().__init__(QueryNodeType.QUERY_GROUP, child=child)

        self.min_occurs = min_occurs
        """The minimum occurrence of group content."""
        self.max_occurs = max_occurs
        """The maximum occurrence of group content."""

    def get_content(self) -> QueryNode:
        """Get the group content.

        Returns:
            QueryNode: the content of the GROUP query
        """
        return self.children[0]

    def __str__(self) -> str:
        strrepr = f"({self.node_type!s} "
        if self.min_occurs != 1:
            strrepr += f"@min={'*' if self.min_occurs == OCCURS_UNBOUNDED else self.min_occurs} "
        if self.max_occurs > 1 or self.max_occurs == OCCURS_UNBOUNDED:
''')], "a group repeated {0} or {0,0}", "groups with max 0 and max 1 print the same", '''
t0, t1 = fcsql.parse('("a"){0}', enableSourceLocations=False), fcsql.parse('("a"){0,1}', enableSourceLocations=False)
assert str(t0) != str(t1), str(t0)
''')
plant("c15-flag-order", "C15", [(P, '''parts.append("d" if RegexFlag.IGNORE_DIACRITICS in self.regex_flags else "")''',
                                 '''parts.append("d" if self.regex_flags == {RegexFlag.IGNORE_DIACRITICS} else "")''')],
      "the diacritics flag together with a case flag", "the flag is missing in the string form", '''
t = fcsql.parse('"a"/id', enableSourceLocations=False)
assert "/id" in str(t), str(t)
''')
plant("c16-repeated-message", "C16", [(P, '''        self.errors.append(
            ErrorDetail(
                message=msg,
                type="syntax-error",''', '''        if self.errors and self.errors[-1].message == msg:
            return
        self.errors.append(
            ErrorDetail(
                message=msg,
                type="syntax-error",''')],
      "two consecutive errors with the same text", "the second error is not recorded", '''
p = fp.QueryParser()
try:
    p.parse('"a" § §')
except fp.QueryParserException:
    pass
assert len(p.errors) == 2, p.errors
''')
plant("c17-stale-errors", "C17", [(P, '''        finally:
            # update list of errors
            self.errors = error_listener.errors
''', '''        finally:
            # update list of errors
            self.errors = error_listener.errors or self.errors
''')], "a successful call after one that failed", "the errors of the failed call stay", '''
p = fp.QueryParser()
try:
    p.parse('[')
except fp.QueryParserException:
    pass
p.parse('"a"')
assert not p.errors, p.errors
''')
plant("c18-custom-prefix", "C18", [(V, '''elif not node.identifier.startswith("x-"):''', '''elif not node.identifier.startswith("x"):''')],
      "an unknown identifier that starts with x but not x-", "it is taken for a custom layer", '''
v = fv.FCSQLValidator(raise_at_first_violation=False)
v.validate(fcsql.parse('[xy="a"]'))
assert len(v.errors) == 1 and not v.warnings
''')
plant("c18-allowed-custom", "C18", [(V, "            if node.identifier not in self.allowed_layer_identifiers:\n",
                                     "            if node.identifier not in self.allowed_layer_identifiers and not any(\n                node.identifier.startswith(i) for i in self.allowed_layer_identifiers if i.endswith(\"-\")\n            ):\n")],
      "an allow-list with an entry that ends with a hyphen", "identifiers beginning with the entry are permitted", '''
v = fv.FCSQLValidator(raise_at_first_violation=False, allowed_layer_identifiers=["text", "x-"])
t = fp.Expression(None, "x-foo", fp.Operator.EQUALS, "a", None)
v.validate(t)
assert len(v.errors) == 1, v.errors
''')
plant("c19-later-entry", "C19", [(V, "                    allowed_qualifiers = qualifiers\n                    break\n",
                                  "                    allowed_qualifiers = qualifiers\n")],
      "two entries for one layer", "the last entry decides instead of the first", '''
v = fv.FCSQLValidator(raise_at_first_violation=False, allowed_layer_qualifiers=[("pos", ["a"]), ("pos", ["b"])])
assert v.validate(fcsql.parse('[a:pos="NOUN"]')), v.errors
assert not v.validate(fcsql.parse('[b:pos="NOUN"]'))
''')
plant("c20-case", "C20", [(V, "if node.regex not in UNIVERSAL_POS_TAGS and", "if node.regex.upper() not in UNIVERSAL_POS_TAGS and")],
      "a tag in other letter case", "no warning for an unknown tag", '''
v = fv.FCSQLValidator(raise_at_first_violation=False)
v.validate(fcsql.parse('[pos="noun"]'))
assert len(v.warnings) == 1
''')
plant("c20-tab", "C20", [(V, '''value = value.replace(" ", "")''', '''value = "".join(value.split())''')],
      "a tag with white space other than blanks", "a tab no longer counts as special character", '''
v = fv.FCSQLValidator(raise_at_first_violation=False)
v.validate(fcsql.parse('[pos="NOUN\\\\tX"]'))
assert not v.warnings, v.warnings
''')
plant("c21-wae-node", "C21", [(V, '''            if self.raise_at_first_violation:
                raise SpecificationValidationError(message, node, fragment)
''', '''            if self.raise_at_first_violation:
                raise SpecificationValidationError(message, self.parent_node or node, fragment)
''')], "raising mode with warnings as errors, a warning below the root", "the exception carries the parent node instead of the node", '''
n = fcsql.parse('[word="a"]')
v = fv.FCSQLValidator(warnings_as_errors=True, raise_at_first_violation=True)
try:
    v.validate(n)
except fv.SpecificationValidationError as ex:
    assert ex.node is n.get_expression(), ex.node
else:
    raise SystemExit("no exception")
''')
plant("c21-after-error", "C21", [(V, "        if node.qualifier and self.allowed_layer_qualifiers:\n",
                                  "        if node.qualifier and self.allowed_layer_qualifiers and not self.errors:\n")],
      "an expression with a bad qualifier after another error, collecting mode", "the later error is not recorded", '''
v = fv.FCSQLValidator(raise_at_first_violation=False, allowed_layer_qualifiers=[("text", ["a"])])
v.validate(fcsql.parse('[bad="x"] [b:text="y"]'))
assert len(v.errors) == 2, v.errors
''')
plant("c22-fragment", "C22", [(V, '''        fragment = None
        if self.query and node.location:
            fragment = self.query[node.location.start : node.location.stop]  # noqa: E203

        if self.raise_at_first_violation:
            raise SpecificationValidationError(message, node, fragment)

        self.errors.append(''', '''        fragment = None
        if self.query and node.location:
            fragment = self.query[node.location.start : node.location.stop].strip()  # noqa: E203

        if self.raise_at_first_violation:
            raise SpecificationValidationError(message, node, fragment)

        self.errors.append(''')], "a node whose location begins or ends with white space", "the fragment is not the text of the location", '''
v = fv.FCSQLValidator(raise_at_first_violation=False, query=" foo ")
n = fp.Expression(None, "bad", fp.Operator.EQUALS, "a", None)
n.location = fp.SourceLocation(0, 5)
v.validate(n)
assert v.errors[0].fragment == " foo ", v.errors
''')
plant("c23-not-unlocated", "C23", [(V, '''        result = super().visit_ExpressionNot(node)
        self.stack.pop()
''', '''        result = super().visit_ExpressionNot(node)
        if node.location:
            self.stack.pop()
''')], "a negation without source location that has a later sibling", "the sibling's parent is taken to be the negation", '''
seen = []
class See(fv.FCSQLValidator):
    def visit_Expression(self, node):
        seen.append((node, self.parent_node))
        return super().visit_Expression(node)
t = fcsql.parse('[!text="a" & text="b"]', enableSourceLocations=False)
See(raise_at_first_violation=False).validate(t)
assert all(n.parent is p for n, p in seen), seen
''')
plant("c24-lost-warnings", "C24", [(M, "    if warnings_as_errors:\n        errors.extend(validator.warnings)\n",
                                    "    if warnings_as_errors and not errors:\n        errors.extend(validator.warnings)\n")],
      "errors and warnings in one query, warnings as errors, list asked for", "the warnings are missing in the list", '''
r = fcsql.validate('[bad="a"] [word="b"]', return_errors=True, warnings_as_errors=True)
assert [e.type for e in r] == ["validation-error", "validation-warning"], r
''')
plant("c25-recovered", "C25", [(M, '''        raise SyntaxError(f"line {line}:{column} {msg}")''', '''        if e is None and offendingSymbol is not None:
            return  # recovered by inserting or removing a single token
        raise SyntaxError(f"line {line}:{column} {msg}")''')],
      "a query that the parser can repair with one token", "no exception for a query with a syntax error", '''
try:
    fcsql.antlr_parse('"a" within s s')
except fcsql.SyntaxError:
    pass
else:
    raise SystemExit("accepted")
''')
