#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a script so that the records stay uniform)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": list(observe)} if observe else {})}})
T6 = "v6/pkg/tsl/"
W6 = "v6/pkg/walkers/"

# ---------------------------------------------------------------- v6 parser
p("C01", "v6 parse tree follows the documented precedence and associativity",
  "For every token sequence that the v6 grammar accepts, the returned tree is the one fixed by the documented precedence levels: prefix NOT/LEN/ANY/ALL/SUM and unary minus bind tightest, then * / %, then + -, then all comparison-like operators (= != < <= > >= ~= ~! LIKE ILIKE IN BETWEEN IS), then AND, then OR, each binary level left-associative, parentheses overriding. The infix forms NOT LIKE/ILIKE/IN/BETWEEN and IS NOT NULL mean the negation of the positive form, and operands appear in the tree in source order.",
  "every token sequence up to the stated length over the whole token vocabulary",
  "The stability tests pin about fifty fixed expressions; operator pairs and nestings combine multiplicatively and each pair has its own parser state.",
  [T6+"tsl_parser.tab.c", T6+"tsl_ast.c", "v6/pkg/parser/tsl_parser.y", T6+"tsl.go"],
  [("LALR grammar with %left/%prec and one nonterminal per level", "v6/pkg/parser/tsl_parser.y"), ("generated tables and actions", T6+"tsl_parser.tab.c"), ("operator and kind code mapping", T6+"operator.go, "+T6+"kind.go")])
p("C02", "v6 parser never accepts only part of its input",
  "ParseTSL of v6 succeeds only when the whole input text, from the first byte to the last, is one well-formed expression: an unknown character, an unterminated quote, an embedded NUL byte or any trailing text makes it return a syntax error and no tree. It accepts every well-formed expression of the documented grammar.",
  "every byte string up to the stated length, and every token sequence up to the stated length",
  "Unit tests list a few malformed strings; a filter that is silently cut short still evaluates and returns wrong records.",
  [T6+"lex.yy.c", T6+"tsl_parser.tab.c", T6+"tsl.go", "v6/pkg/parser/tsl_lexer.l"],
  [("lexer fallback rule", "v6/pkg/parser/tsl_lexer.l"), ("start rule reaches end of input", "v6/pkg/parser/tsl_parser.y"), ("Go string to C string", T6+"tsl.go ParseTSL")])
p("C03", "v6 numeric literals denote the written value, with SI suffixes",
  "A v6 numeric literal evaluates to the double nearest its decimal text multiplied by its suffix: K, M, G, T, P (either case) are powers of 1000 and the same letters followed by i are powers of 1024; a literal without suffix is unchanged.",
  "every mantissa value and every accepted suffix spelling",
  "Tests use a handful of literals (5k, 2Ki, ...); the suffix code multiplies floating values and branches on individual characters.",
  [T6+"tsl_ast.c", T6+"lex.yy.c", "v6/pkg/parser/tsl_lexer.l"],
  [("ast_create_number suffix switch", T6+"tsl_ast.c"), ("NUMERIC_LITERAL pattern", "v6/pkg/parser/tsl_lexer.l")])
p("C04", "v6 quoted text is decoded exactly once and completely",
  "A v6 string literal in single, double or back quotes denotes exactly the text between the quotes with the documented backslash escapes (\\n, \\t, \\r, \\b, \\f, and any other escaped character for itself) replaced and no other byte added, lost or changed, and an identifier (plain, dotted, with slashes or bracketed index) denotes exactly its written name. Quoted text is a string literal whatever keyword or operator characters it contains, except that quoted text with the shape of a date or a timestamp is a date or timestamp literal.",
  "every literal content up to the stated length over all byte values",
  "Tests decode two or three literals; in-place unescaping is pointer arithmetic whose errors show only for particular character sequences.",
  [T6+"lex.yy.c", "v6/pkg/parser/tsl_lexer.l", T6+"tsl_ast.c"],
  [("unescape of STRING_LITERAL", "v6/pkg/parser/tsl_lexer.l"), ("semantic value handed to the AST", T6+"tsl_parser.tab.c")])
p("C05", "v6 words and literals are classified by the lexical rules alone",
  "Each v6 token gets the kind the documentation gives it, by longest match: keywords in any letter case are keywords only when the whole word matches, every other word is an identifier, digits form numbers, YYYY-MM-DD is a date, the RFC3339 form is a timestamp, and each operator spelling denotes its own operator and no other.",
  "every byte string up to the stated length",
  "Tests use one spelling per token; longest-match interactions (keyword prefix of a word, date prefix of a timestamp, < versus <=) are combinatorial.",
  [T6+"lex.yy.c", "v6/pkg/parser/tsl_lexer.l", T6+"operator.go"],
  [("flex rules and tables", "v6/pkg/parser/tsl_lexer.l, "+T6+"lex.yy.c")])
p("C06", "v6 native code is memory-safe and leak-free on every input",
  "For every input text, parsing, reading, cloning and freeing a tree never touches memory outside live allocations, never reads uninitialised memory and never frees a block twice; when parsing fails, or after the returned tree is freed, every block allocated on behalf of that call has been released.",
  "every byte string and token sequence up to the stated lengths, valid or not",
  "Tests check results, not the C heap, and error paths leave semantic values in whatever parser state the particular error position leaves.",
  [T6+"tsl_ast.c", T6+"tsl_parser.tab.c", T6+"lex.yy.c", T6+"tsl.go", "v6/pkg/parser/tsl_parser.y"],
  [("destructors and cleanup_parser_memory", "v6/pkg/parser/tsl_parser.y"), ("ast_free", T6+"tsl_ast.c"), ("defer C.free", T6+"tsl.go")])
p("C07", "v6 syntax errors are reportable and point inside the input",
  "Whenever v6 rejects an input it returns a non-nil *SyntaxError and a nil tree, the error carries the original input and a non-empty message, its position lies within 0..len(input), and formatting it with Error() never panics.",
  "every rejected input up to the stated length",
  "Tests exercise errors in the middle of one line; empty input, errors at end of input and errors after newlines compute the position differently.",
  [T6+"tsl.go", T6+"errors.go", T6+"tsl_parser.tab.c", "v6/pkg/parser/tsl_parser.y"],
  [("yyerror position", "v6/pkg/parser/tsl_parser.y"), ("SyntaxError.Error", T6+"errors.go")])
p("C08", "v6 ParseTSL may be called from many goroutines",
  "Concurrent v6 ParseTSL calls behave as if they ran one after another: each returns the tree or the error of its own input, and no two calls are inside the shared native parser state at the same time, on success and on error paths alike.",
  "every interleaving of two concurrent calls, each with valid or invalid input",
  "A test run samples a few schedules and cgo hides C data races from the race detector.",
  [T6+"tsl.go", T6+"tsl_parser.tab.c", T6+"lex.yy.c"],
  [("process-wide lexer/parser globals guarded by a lock in ParseTSL", T6+"tsl.go")], over=("schedules", "inputs"))

p("C09", "v6 parsing does not depend on earlier calls",
  "The result of v6 ParseTSL on a text (its tree, or its error's message, position and context) is the same whatever texts, valid or not, were parsed before in the process, and a tree already returned is not changed by later calls.",
  "every probe text against every other text up to the stated length in between",
  "The native scanner and parser keep process-wide state between calls; tests parse in one fixed order and never compare a repeated parse.",
  [T6+"tsl.go", T6+"tsl_parser.tab.c", T6+"lex.yy.c"],
  [("state reset in parse_string / ParseTSL", T6+"tsl_parser.tab.c")], over=("inputs", "histories"))

# ---------------------------------------------------------------- v6 tree API
p("C10", "v6 Clone is a deep, equal and independent copy",
  "Clone returns a tree equal to the original in kind, operator, value and child order at every position, sharing no native memory with it: freeing or rewriting either tree leaves every value of the other intact, and both can be freed.",
  "every tree up to the stated depth over all node kinds, every literal value",
  "Tests clone one or two trees; a shallow field only shows when the other copy is later freed or changed.",
  [T6+"tsl.go", T6+"tsl_ast.c"], [("ast_clone", T6+"tsl_ast.c"), ("Clone", T6+"tsl.go")], over=("inputs", "histories"))
p("C11", "v6 detach and attach transfer ownership exactly once",
  "Detaching removes exactly the named child and hands it over intact, after which the parent reads that child as nil, attaching replaces exactly the named child (releasing the previous one), both refuse nodes of the wrong kind without side effect, and after any sequence of these operations freeing every root once releases everything exactly once.",
  "every sequence of up to the stated number of detach/attach/free operations on trees of every kind",
  "Tests run one sequence; ownership errors depend on the order of operations.",
  [T6+"tsl.go", T6+"tsl_ast.c"], [("ast_detach_*/ast_attach_*", T6+"tsl_ast.c")], over=("inputs", "histories"))
p("C12", "v6 JSON and YAML forms are faithful to the tree",
  "The JSON and YAML forms of a v6 tree carry, at every node, the node's type name, its operator and operands on the correct side, array elements in order and the literal's value, so that two trees with the same form are the same tree.",
  "every tree up to the stated depth, every literal value and operator",
  "The marshal tests print two trees.",
  [T6+"marshal.go", T6+"kind.go", T6+"operator.go"], [("MarshalJSON/MarshalYAML", T6+"marshal.go"), ("Kind.String/Operator.String", T6+"kind.go, "+T6+"operator.go")])

# ---------------------------------------------------------------- v6 semantics
S6 = [W6+"semantics/walk.go", W6+"semantics/evaluators.go", W6+"semantics/numeric.go", W6+"semantics/dates.go"]
p("C20", "v6 evaluation compares values by type: numbers, strings, booleans, dates",
  "In v6 evaluation, =, !=, <, <=, >, >= compare two numbers as float64 whatever integer or float type the record holds, two dates (time values or date/RFC3339 text) as instants, and = / != compare strings and booleans exactly; != is always the negation of =, and values of different classes are unequal for =, and a type error, not a result, for the ordering operators.",
  "every pair of operand types and every value of them",
  "Tests compare a few fixed records; conversions and NaN, signed-zero, boundary and mixed-type cases are per value.",
  S6, [("evaluateEquality/evaluateCompareExpressions", S6[0]), ("toFloat64", S6[2]), ("toDate", S6[3])])
p("C21", "v6 AND, OR and NOT are Boolean logic over Boolean operands only",
  "In v6 evaluation AND, OR and NOT give the truth-table result for Boolean operands at any nesting, a non-Boolean operand is reported as a type error, and an error in either operand is reported rather than turned into a value.",
  "every tree of logical operators up to the stated depth over Boolean-valued, other-typed and erroneous leaves",
  "Tests evaluate a few fixed combinations.",
  S6, [("evaluateLogicalExpression, NOT", S6[0])])
p("C22", "v6 arithmetic evaluates + - * / % and unary minus on doubles",
  "In v6 evaluation +, -, *, / and unary minus give the IEEE double result of their operands in source order, % gives the remainder of the operands truncated to 64-bit integers, division by zero and a remainder by a divisor that truncates to zero are errors, and a non-numeric operand is a type error; no operand values make it panic.",
  "every pair of operand values and numeric record types",
  "Tests divide by the literal zero only; values between -1 and 1, infinities and huge values take the same path.",
  S6, [("evaluateMathExpression", S6[0]), ("toFloat64", S6[2])])
p("C23", "v6 IN, BETWEEN and IS NULL mean set membership, closed range and null",
  "In v6 evaluation x IN [..] is true exactly when some element equals x in x's own type class, x BETWEEN a AND b exactly when a <= x <= b with both ends included for numbers and for dates, and x IS NULL exactly when the field's value is nil; the NOT forms are their negations.",
  "every value, list content and list length up to the stated bound",
  "Tests use a few fixed lists; first, last, empty and boundary elements matter.",
  S6, [("isValueInArray/isValueInRange", S6[1])])
p("C24", "v6 LIKE and ILIKE follow SQL pattern semantics",
  "In v6 evaluation LIKE is true exactly when the whole value matches the pattern with % standing for any sequence of characters, _ for exactly one character and every other pattern character for itself; ILIKE is the same ignoring letter case, and ~= / ~! are regular-expression search and its negation with an invalid pattern reported as an error.",
  "every pattern and value up to the stated lengths over all ASCII characters",
  "Tests use patterns made of letters and %; regular-expression metacharacters in a pattern are never tried.",
  S6, [("evaluateLikePattern/evaluateIlikePattern/evaluateRegexMatch", S6[1])])
p("C25", "v6 operators lift over array fields and LEN, ANY, ALL, SUM aggregate",
  "In v6 evaluation, an operator whose left operand is an array applies to each element in order and yields the array of results, LEN is the number of elements, SUM the sum of numeric elements, ANY is true exactly when some element is true and ALL exactly when the array is non-empty and every element is true; aggregates of a non-array and sums of non-numbers are errors.",
  "every array length up to the stated bound and every element value",
  "Tests use one or two arrays.",
  S6, [("evaluateBinaryExpression lifting, evaluateArrayUnaryExpression", S6[0]), ("processArray", S6[1])])
p("C26", "v6 evaluation is total, deterministic and reads only",
  "For every tree and record, v6 evaluation returns a value or an error and never panics; a field the record does not have gives a key-not-found error naming that field; each identifier is looked up under its exact written name, and neither the tree nor the record's values (including arrays inside it) are changed.",
  "every tree up to the stated depth over all operators, with record values of every supported and some unsupported types",
  "Tests evaluate well-typed filters; type confusion in an untried operator/operand pair panics in the caller's process.",
  S6, [("Walk and its type switches", S6[0])])

# ---------------------------------------------------------------- v6 sql
Q6 = [W6+"sql/walk.go"]
p("C30", "v6 SQL carries every literal as a bound argument, in placeholder order",
  "For every tree that v6 converts to SQL, no literal's text appears in the SQL string: each number, string, date and Boolean literal becomes exactly one ? whose argument is that literal's value (Boolean as 1/0, date as timestamp text), the number of ? equals the number of arguments, and the n-th argument belongs to the n-th ? in text order; an empty IN list is a constant condition.",
  "every tree up to the stated depth and every literal content, including quotes and ? characters",
  "Tests compare a few statements; injection depends on literal content no test uses.",
  Q6, [("Walk building squirrel expressions", Q6[0])])
p("C31", "v6 SQL text has the structure and meaning of the tree",
  "For every supported tree, reading the generated v6 SQL with SQL precedence gives back the tree's operators, operand order and nesting: each operator maps to its SQL counterpart, AND/OR groups and arithmetic are parenthesised, NOT wraps its operand, IN lists keep all elements in order, and identifiers are copied verbatim.",
  "every tree up to the stated depth over all supported operators",
  "Tests compare about ten statements; grouping errors show only for particular nestings.",
  Q6, [("binaryStep/unaryStep templates", Q6[0])])
p("C32", "v6 SQL conversion is total",
  "For every tree that v6 can parse, SQL conversion returns an expression or an error and never panics, rejects operators it has no SQL form for (LEN, ANY, ALL, SUM, bare arrays) with an error, and leaves the tree unchanged.",
  "every tree up to the stated depth over all node kinds and operators",
  "Tests convert supported filters only.",
  Q6, [("Walk type switch", Q6[0])])
# ---------------------------------------------------------------- v6 ident / graphviz
p("C40", "v6 identifier mapping renames every identifier and nothing else",
  "The v6 ident walker calls the check function with every identifier of the tree, replaces exactly that identifier by the mapped one at its own position (in operands, unary operands, IN lists and BETWEEN bounds alike), leaves all other nodes equal, returns an error and no tree when the check rejects any identifier, and never modifies the input tree.",
  "every tree up to the stated depth with identifiers at any positions and every accept/rename/reject outcome",
  "Tests rename identifiers in simple comparisons.",
  [W6+"ident/walk.go"], [("walkAndReplace", W6+"ident/walk.go")])
p("C41", "v6 identifier mapping neither leaks nor double-frees native memory",
  "After the v6 ident walker returns, on success or on error, the input tree and the returned tree own disjoint native memory that freeing each once releases completely, and nothing else allocated by the walk remains.",
  "every tree up to the stated depth and every accept/rename/reject outcome",
  "Go tests do not observe the C heap.",
  [W6+"ident/walk.go", T6+"tsl.go", T6+"tsl_ast.c"], [("Clone/Attach/Free protocol", W6+"ident/walk.go")], over=("inputs", "histories"))
p("C42", "v6 tsl command prints the outline of the tree",
  "The v6 command `tsl EXPR` prints the line `Parsing: EXPR` and then one line per node of the tree that the grammar gives the expression, parents before children and children in order, each indented two blanks per level and naming the operator or the kind and value of the node (numbers read back as the same number, strings escaped, timestamps naming the same instant and offset), and exits with status 0. For a text that is no expression, or for another number of arguments than one, it prints no outline, writes a message to standard error and exits with another status.",
  "every token sequence and text up to the stated length, every literal value, any number of arguments up to three",
  "No test runs the command; its output is the composition of scanner, parser, tree access and printer.",
  ["v6/cmd/tsl/main.go", "v6/cmd/tsl/printer.go"], [("main", "v6/cmd/tsl/main.go"), ("printer of nodes", "v6/cmd/tsl/printer.go")], observe=("standard output, standard error and exit status of the program",))
p("C43", "v6 tsl_mem command lists exactly the matching books",
  "The v6 command `tsl_mem -i EXPR` prints the JSON array of exactly those books of its collection for which the expression is true (columns title, author, pages, rating and on_loan; a book without a rating has null there), in the order of the collection, each with all its columns and values, and exits with status 0. If the expression is no expression, names a column that is not there, or has no value for some book, or if an argument is wrong, it prints no list, writes a message to standard error and exits with another status.",
  "every test of every column with any number and any short text, logical combinations of them, malformed arguments",
  "No test runs the command; which books match depends on the values in the expression, and the mapping of columns, the evaluator and the record access have to agree.",
  ["v6/cmd/tsl_mem/main.go", "v6/cmd/tsl_mem/model.go", "v6/cmd/model/model.go"], [("column map and record access", "v6/cmd/tsl_mem/model.go"), ("main", "v6/cmd/tsl_mem/main.go")], observe=("standard output, standard error and exit status of the program",))
p("C44", "v6 tsl_parser command prints the form that was asked for",
  "The v6 command `tsl_parser -i EXPR -o FORMAT` prints the JSON form of the expression's tree (the default), its DOT graph, or the SQL query `SELECT * FROM table WHERE ...` with the bound arguments, whichever is asked for, each with the meaning the library's form has for every expression, with the table named by -t, and exits with status 0. If the text is no expression, has no SQL form, or the format is not known, it prints no form, writes a message to standard error and exits with another status.",
  "every operator, every literal value, trees of any shape up to the stated size, in every format but YAML",
  "No test runs the command.",
  ["v6/cmd/tsl_parser/main.go"], [("main", "v6/cmd/tsl_parser/main.go")], observe=("standard output, standard error and exit status of the program",))
p("C50", "v6 graph output has one node per tree node and one edge per child",
  "The v6 DOT output declares exactly one graph node per tree node, labelled with that node's operator or type and value, and for each operator or array node exactly one edge list naming its children's nodes in order; a label is always one well-formed DOT string whatever characters the value contains.",
  "every tree up to the stated depth, every literal content up to the stated length",
  "Tests print a couple of trees with plain letters.",
  [W6+"graphviz/walk.go"], [("Walk/handleChildren", W6+"graphviz/walk.go")])

# ---------------------------------------------------------------- v5 / v4
for v, base in (("v5", 60), ("v4", 80)):
    L = v+"/pkg/tsl/"; W = v+"/pkg/walkers/"; PR = v+"/pkg/parser/"
    extra = v == "v5"
    p("C%d" % base, v+" tree building mirrors the derivation",
      "For every filter of the "+v+" grammar, ParseTSL gives a tree with each operator over its operands in source order, AND/OR/NOT and parenthesised arithmetic nested as written, NOT forms negated, IN lists holding exactly the listed literals (their order is free) and BETWEEN its begin and end in order; a string as the right operand of arithmetic and a literal other than a string as the right operand of ~=, ~!, LIKE or ILIKE is an error, never a wrong tree.",
      "every grammar alternative over every kind of operand, to the stated nesting depth, with free literal values and names",
      "Tests parse a fixed list of filters; an operand swapped or lost in one production shows only for filters that use it with distinguishable operands.",
      [L+"listener.go", L+"consts.go", L+"tsl.go", PR+"tsl_parser.go"], [("Listener Exit methods and operand stack", L+"listener.go"), ("generated parser", PR+"tsl_parser.go")], over=("inputs", "programs"))
    p("C%d" % (base+1), v+" literals and identifiers decode to their written value",
      v+" literal text is decoded exactly: strings lose their quotes and doubled quotes become one, numbers become the written double with its sign"+(" times the 1024-based suffix (K, M, G, T, P, with or without i), TRUE and FALSE are booleans in any case, dates become midnight UTC and timestamps the instant written with fraction and offset, and quoted identifiers lose exactly their quotes; numbers out of range and dates or times that do not exist are errors" if extra else ", and identifiers, quoted or dotted, are kept verbatim; a number out of range is an error")+"; nothing panics.",
      "every literal text up to the stated length",
      "Tests decode a few literals.",
      [L+"listener.go"], [("ExitNumberLiteral/ExitStringLiteral/ExitColumnIdentifier"+("/ExitBooleanLiteral/ExitDateLiteral" if extra else ""), L+"listener.go")])
    p("C%d" % (base+2), v+" evaluation of comparisons, logic and patterns",
      v+" evaluation gives every operator the value defined for its operand types: numbers of the record types float64, float32, int, int32, int64, uint, uint32 and uint64 compare as float64, strings bytewise, "+
      ("dates as instants, a boolean field with = and != against a boolean, a number (true when not 0) or a string (true exactly when of length 1 or 4 and starting with t or T), fields on either side, + - * / on doubles to any nesting (null when an operand is null, an error for % and for operands that are not numbers), " if extra else "a boolean field as the string 'true' or 'false', arithmetic is an error, ")+
      "LIKE/ILIKE match the whole value with % for any characters, _ for one and every other character for itself, newlines included, ~= and ~! are regular-expression search and its negation; a comparison with a null or missing field is false; AND and OR are Boolean and an error on either side is an error, NOT negates; operands of other types or of types that do not fit are an error, never a panic.",
      "every operator, every record field type and every value up to the stated bounds",
      "Tests evaluate a fixed record with well-typed filters; type pairs, null operands, pattern metacharacters and boundary values are not tried.",
      [W+"semantics/walk.go"], [("Walk and the handle*Op functions", W+"semantics/walk.go")])
    p("C%d" % (base+3), v+" evaluation of IN, BETWEEN and null tests",
      "In "+v+" evaluation x IN (..) is true exactly when some listed literal equals x and NOT IN is its negation"+(", for a field that is a list of strings when some element is listed" if extra else "")+"; x BETWEEN a AND b is true exactly when a <= x <= b with both ends included, and NOT BETWEEN exactly when x < a or x > b; this holds for numbers"+(", strings and dates" if extra else " and strings")+"; a literal of another type than the field's is an error; on a null field all four are false, and IS NULL / IS NOT NULL tests exactly whether the operand is null.",
      "every value and list content up to the stated bounds",
      "Tests use a few fixed lists; first and last elements, both ends of the range, nulls and mixed lists matter.",
      [W+"semantics/walk.go"], [("handle*ArrayOp functions", W+"semantics/walk.go")])
    p("C%d" % (base+4), v+" SQL keeps literals out of the text and bound in order",
      "For every filter the "+v+" grammar allows whose names have no ?, the SQL conversion returns a statement (or an error) in which every literal a field is compared with, matched to or listed is a bound argument and never text, placeholders and arguments correspond one to one in order, "+("booleans are bound as 1 or 0 and dates as RFC 3339 text, fields and arithmetic on the right are SQL text, " if extra else "")+"and the text reads back, with SQL precedence, as the tree's operators, operand order and grouping, an empty IN list as a condition that is never true.",
      "every filter tree up to the stated depth, every literal content",
      "Tests compare a few statements; grouping and argument order go wrong only for particular nestings.",
      [W+"sql/walk.go", W+"sql/ops.go"], [("unaryStep/binaryStep, math and NOT expressions", W+"sql/walk.go, "+W+"sql/ops.go")])
    p("C%d" % (base+5), v+" MongoDB filters select what the tree says",
      "For every filter tree, the "+v+" Mongo walker returns a BSON document that names the tree's field, applies the matching operator to the tree's literals, keeps AND/OR operands and list items in order, and renders BETWEEN as $gte begin and $lte end and NOT BETWEEN as $lt begin or $gt end; operators it has no form for (NOT, LIKE, ILIKE, arithmetic) comparisons that are not of a field with literals, and list items that are neither strings nor numbers, are errors.",
      "every tree up to the stated depth and every literal value",
      "Tests print a few documents.",
      [W+"mongo/walk.go"], [("Walk", W+"mongo/walk.go")])
    p("C%d" % (base+6), v+" identifier mapping renames every identifier and nothing else",
      "The "+v+" ident walker calls the check function for every identifier of the tree, the result differs from the input only in the mapped names at those positions, an error from the check is returned, and the input tree is unchanged.",
      "every tree up to the stated depth and every accept/rename/reject outcome",
      "Tests rename one or two identifiers.",
      [W+"ident/walk.go"], [("Walk", W+"ident/walk.go")])
    p("C%d" % (base+7), v+" graph output has one node per tree node and one edge per child",
      "The "+v+" DOT output declares exactly one graph node per tree node, labelled with that node's operator or with its type and value, connects each operator node to its children's nodes in order, and is well-formed DOT whatever characters a literal or name contains.",
      "every tree up to the stated depth, every literal content up to the stated length",
      "Tests print one tree with plain letters.",
      [W+"graphviz/walk.go"], [("Walk", W+"graphviz/walk.go")])
    p("C%d" % (base+8), v+" parsing accepts exactly the grammar and groups by precedence",
      "ParseTSL of "+v+" accepts exactly the texts of the "+v+" grammar ("+("TSL.g4" if extra else "the one its generated parser serialises")+"), with keywords in any case, blanks between tokens free and every character of a string, quoted identifier or numeral kept, and reports any other text as an error; without parentheses NOT binds tighter than AND and AND tighter than OR, equal operators group to the left, and arithmetic groups by the usual precedence.",
      "every token sequence of the stated length, every one-token edit of a filter of each form, every character at each stated place, every chain of operators of the stated length",
      "Tests parse a fixed list of filters and a few errors.",
      [PR+"tsl_parser.go", PR+"tsl_lexer.go", L+"tsl.go", L+"error_listener.go"], [("generated lexer, parser and serialised automata", PR), ("ParseTSL and its error listener", L+"tsl.go")])
    p("C%d" % (base+9), v+" tsl_mem command lists exactly the matching books",
      "The "+v+" command `tsl_mem -i FILTER` prints the JSON array of exactly those books of its collection for which the filter is true (columns title, author, spec.pages, spec.rating"+(" and on_loan" if extra else "")+"; a book without a rating has null there), in the order of the collection, each with all its columns and values, and exits with status 0. If the text is no filter, names a column that is not there, or has no value for some book, or if the format is not known, it prints no list, writes a message to standard error and exits with another status.",
      "every test of every column with any number and any short text, logical combinations of them, malformed arguments",
      "No test runs the command; which books match depends on the values in the filter, and the mapping of columns, the evaluator and the record access have to agree.",
      [v+"/cmd/tsl_mem/main.go", v+"/cmd/tsl_mem/model.go", v+"/cmd/model/model.go"], [("column map and record access", v+"/cmd/tsl_mem/model.go"), ("main", v+"/cmd/tsl_mem/main.go")], observe=("standard output, standard error and exit status of the program",))
    p("C%d" % (base+10), v+" tsl_parser command prints the form that was asked for",
      "The "+v+" command `tsl_parser -i FILTER -o FORMAT` prints, for every filter, the JSON form of its tree (the default: func, left and right of each node, with the node's text, number, "+("Boolean, instant " if extra else "")+"or list), its DOT graph, or the SQL query `SELECT * FROM table_name WHERE ...` with the bound arguments, each saying what the tree says, and exits with status 0. If the text is no filter, or has no SQL form when SQL is asked for, it prints no form, writes a message to standard error and exits with another status.",
      "every operator, every literal value, trees of any shape up to the stated size, as JSON, DOT and SQL",
      "No test runs the command; the JSON form of the tree is tested nowhere.",
      [v+"/cmd/tsl_parser/main.go", L+"node.go"], [("main", v+"/cmd/tsl_parser/main.go"), ("JSON tags of the tree", L+"node.go")], observe=("standard output, standard error and exit status of the program",))
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
