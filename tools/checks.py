"""The checks: which harness functions decide which property, within what bounds."""
HOOKS = None
TECH = {"v6": "symbolic execution of the real Go (SSA) and C (LLVM IR) code with SMT (z3)",
        "v5": "symbolic execution of the real Go code (SSA) with SMT (z3)",
        "v4": "symbolic execution of the real Go code (SSA) with SMT (z3)"}
NOTE = "Every path of the harness over the real code within the bounds is explored with symbolic inputs, each assertion is decided by the SMT solver for all values of its path, and counterexamples are confirmed on the compiled code before they are reported. Trusts the engine's semantics, its library stand-ins and the solver."
NA = {}
def H(name, quick=None, thorough=None, sq=0, st=0, bounds="", only=""):
    return {"name": name, "quick": quick or {}, "thorough": thorough or quick or {}, "sec_quick": sq, "sec_thorough": st, "bounds": bounds, "only": only}
CHECKS = []
def check(id, version, harnesses, bounds, outside="", assumptions=(), **kw):
    CHECKS.append({"id": id, "version": version, "harnesses": harnesses, "bounds": bounds, "outside": outside, "assumptions": list(assumptions), **kw})

VALS = "all values of every numeric Go type and of float64 literals, Booleans, nil, whole-second UTC instants of years 69 to 9900, ASCII strings up to the stated length"
check("C20", "v6", [H("H_C20_fields", {"strlen": 2}, {"strlen": 6}), H("H_C20_literal", {"strlen": 2}, {"strlen": 6}), H("H_C20_dates"), H("H_C20_mixed"), H("H_C20_long")],
      "one comparison of two operands; strings of 17 to 600 characters that differ in one free character; " + VALS + " (2 bytes, thorough 6); date and timestamp texts with one free digit in any field; eight fixed date-like texts against any instant",
      "longer strings, sub-second instants")
check("C21", "v6", [H("H_C21_tree", {"depth": 3}, {"depth": 3}), H("H_C21_types", {"depth": 2}, {"depth": 2}), H("H_C21_big")],
      "every tree of AND, OR and NOT of depth 3 over free Boolean fields; of depth 2 over free Boolean fields, Boolean literals, comparisons, missing fields, numbers, null and strings; chains of 9 to 130 operators over free fields", "deeper trees")
check("C22", "v6", [H("H_C22_fields"), H("H_C22_literal"), H("H_C22_nested"), H("H_C22_types", {"strlen": 1}, {"strlen": 2}), H("H_C22_big")],
      "each operator over all values of every pair of numeric Go types and of literals; two nested operators over three float64 fields; every pair of operand classes; chains of 9 to 130 operators over a free field", "deeper expressions")
check("C23", "v6", [H("H_C23_in", {"n": 1, "strlen": 2}, {"n": 2, "strlen": 1}, st=300), H("H_C23_list", {"n": 3}, {"n": 4}, st=300), H("H_C23_infield"), H("H_C23_between"), H("H_C23_range"), H("H_C23_null"), H("H_C23_big")],
      VALS + " (2 bytes); lists of up to 1 (thorough 2) elements of any class and of up to 3 (4) elements of one class; every combination of operand classes of BETWEEN; lists of 9 to 130 elements with a free one", "longer lists")
check("C24", "v6", [H("H_C24_like", {"pat": 2, "val": 2}, {"pat": 3, "val": 3}, st=300), H("H_C24_wild", {"pat": 4, "val": 3}, {"pat": 5, "val": 4}, st=300), H("H_C24_utf"), H("H_C24_types", {"strlen": 1}, {"strlen": 1}),
                    H("H_C24_regex", {"val": 3}, {"val": 5}), H("H_C24_repat", {"pat": 2, "val": 2}, {"pat": 3, "val": 2}, st=200), H("H_C24_long")],
      "patterns and values of up to 2 (thorough 3) free ASCII characters; patterns of 4 (5) and values of 3 (4) characters over wildcards, letters and regexp metacharacters; fourteen regular expressions over values of up to 3 (5) characters and every pattern of up to 2 (3) characters; patterns and values of 17 to 130 characters with a free one",
      "longer patterns and values; texts outside ASCII beyond fixed examples",
      ["regexp matching itself is Go's regexp/syntax program run symbolically"])
check("C25", "v6", [H("H_C25_unary", {"n": 3}, {"n": 4}), H("H_C25_binary", {"n": 2}, {"n": 3}), H("H_C25_aggregate", {"n": 3}, {"n": 5}), H("H_C25_nested"), H("H_C25_big")],
      "arrays of up to 2 to 3 (thorough 3 to 5) elements of any class with free values, nested arrays of up to 2 by 2 elements, every lifted operator; arrays of 9 to 130 elements with a free one", "longer arrays")
check("C26", "v6", [H("H_C26_binary"), H("H_C26_unary"), H("H_C26_nested")],
      "every operator over every pair of operand forms, record values of thirteen Go kinds including maps, slices, structs, pointers, functions; two nested operators over the main classes", "deeper trees, an eval function that panics itself")

check("C01", "v6", [H("H_C01_full", {"len": 3}, {"len": 4}), H("H_C01_ops", {"len": 5}, {"len": 6}, st=400), H("H_C01_rep", {"len": 6}, {"len": 7}, st=400), H("H_C01_array", {"len": 8}, {"len": 12}), H("H_C01_big"), H("H_C01_forms", {"forms": 2}, {"forms": 3}, st=400)],
      "every token sequence over all 37 token kinds up to 3 tokens (thorough 4), over identifiers and all operators up to 5 (6), over one token per precedence class and bracket kind up to 6 (7), over array tokens up to 8 (12); every two (3) of the 25 operator forms side by side with a prefix before any operand; trees of width or depth 9 to 260 with a free number at a chosen place",
      "longer token sequences; the parser is a table-driven LALR automaton whose stack depth grows with the bound only",
      ["the oracle is a recursive-descent reading of the documented precedence list"])
check("C02", "v6", [H("H_C02_bytes", {"in": 3}, {"in": 3}), H("H_C02_alpha", {"alpha": 5}, {"alpha": 7}, st=400), H("H_C02_tail", {"tail": 2}, {"tail": 3}, st=300), H("H_C02_long")],
      "all byte strings up to 3 bytes; strings of 5 (thorough 7) characters over ten lexically distinct ones; five complete expressions followed by up to 2 (3) free bytes; quoted texts, names, digit strings, blanks, chains and open brackets of 25 to 1100 bytes with a free byte at a chosen place and up to one after",
      "longer texts; the token level is covered further by C01")
check("C03", "v6", [H("H_C03_num", {"num": 4}, {"num": 5}, st=300), H("H_C03_in", {"num": 3}, {"num": 4})],
      "number-like texts of up to 4 (thorough 5) characters over digits, signs, point, exponent letters and all suffix letters, alone and after a=",
      "longer digit strings; decimal to double conversion itself (strtod, libc) is taken as correct",
      ["libc strtod returns the nearest double"])
check("C04", "v6", [H("H_C04_quote", {"body": 3}, {"body": 4}), H("H_C04_id", {"id": 4}, {"id": 5}), H("H_C04_long"), H("H_C04_shape")],
      "quoted texts in each of the three quote characters with up to 3 (thorough 4) free bytes; identifiers of up to 5 (6) characters over letters, digits, dots, slashes, brackets and blanks; texts of the shape of dates and timestamps with a free byte put in anywhere; quoted texts of 8 to 1100 bytes with a free byte put in",
      "longer texts")
check("C05", "v6", [H("H_C05_word", {"word": 7}, {"word": 8}), H("H_C05_gap", {"gap": 2}, {"gap": 3}), H("H_C05_date", {"after": 0}, {"after": 1})],
      "words of up to 7 (thorough 8) letters in any case; two operands with up to 2 (3) free bytes between; dates and timestamps with one free byte anywhere and up to 0 (1) after",
      "longer words: every keyword has at most 7 letters")
check("C06", "v6", [H("H_C06_bytes", {"in": 3}, {"in": 3}), H("H_C06_alpha", {"alpha": 4}, {"alpha": 6}), H("H_C06_quote", {"body": 3}, {"body": 4}), H("H_C06_num", {"num": 3}, {"num": 4}),
                    H("H_C06_full", {"len": 3}, {"len": 4}), H("H_C06_rep", {"len": 5}, {"len": 6}), H("H_C06_array", {"len": 8}, {"len": 12}), H("H_C06_long"), H("H_C06_forms", {"forms": 2}, {"forms": 3}, st=400)],
      "the texts and token sequences of C01 to C05, and every two (thorough 3) operator forms side by side; every C memory access of scanner, parser, AST and cgo wrapper is checked for bounds, lifetime and initialisation, and every block for release; quoted texts, names, digit strings, blanks, chains and open brackets of 25 to 1100 bytes with a free byte at a chosen place and up to one after",
      "allocation failure (malloc returning NULL), nesting beyond the parser's own depth limit, threads (C08)",
      ["libc functions behave as their standard says"])
check("C07", "v6", [H("H_C07_bytes", {"in": 3}, {"in": 3}), H("H_C07_alpha", {"alpha": 5}, {"alpha": 6}), H("H_C07_tail", {"tail": 2}, {"tail": 3}, st=300), H("H_C07_long")],
      "the texts of C02; quoted texts, names, digit strings, blanks, chains and open brackets of 25 to 1100 bytes with a free byte at a chosen place and up to one after", "longer texts")
check("C09", "v6", [H("H_C09_repeat", {"other": 3}, {"other": 5}, st=400)],
      "nine probe texts parsed before and after one other text of 3 (thorough 5) characters over ten lexically distinct ones", "longer histories")
check("C10", "v6", [H("H_C10_full", {"len": 3}, {"len": 4}), H("H_C10_rep", {"len": 5}, {"len": 6}), H("H_C10_array", {"len": 7}, {"len": 10}), H("H_C10_values", {"text": 2}, {"text": 4}), H("H_C10_big"), H("H_C10_lit")],
      "the trees of every accepted token sequence up to 3 to 7 tokens (thorough 4 to 10); one tree with every literal kind and free number and text values; trees of width or depth 9 to 70 with a free number at a chosen place; names and texts of 17 to 600 characters with a free one, timestamps with fractions and offsets", "larger trees")
check("C11", "v6", [H("H_C11_history", {"steps": 2}, {"steps": 4}, st=500), H("H_C11_refuse")],
      "all histories of 2 (thorough 4) detach/attach operations on four forests of three trees that hold every node kind; every refused operation on every node kind", "longer histories")
check("C12", "v6", [H("H_C12_full", {"len": 3}, {"len": 4}), H("H_C12_rep", {"len": 5}, {"len": 6}), H("H_C12_array", {"len": 7}, {"len": 9}), H("H_C12_ops"), H("H_C12_values", {"text": 2}, {"text": 3}, st=400), H("H_C12_big"), H("H_C12_lit")],
      "the trees of every accepted token sequence up to 3 to 7 tokens (thorough 4 to 9); every operator; every literal kind at every place with any finite number and any ASCII text up to 2 (3) bytes; trees of width or depth 9 to 70 with a free number at a chosen place; names and texts of 17 to 600 characters with a free one, timestamps with fractions and offsets", "larger trees, non-ASCII text, the YAML library's own rendering",
      ["encoding/json renders a finite float64 as digits that read back as it"])

check("C30", "v6", [H("H_C30_binary", {"text": 2}, {"text": 5}), H("H_C30_lit")],
      "every operator over every literal kind in every place; all float64 numbers, all ASCII texts up to 2 (thorough 5) bytes, fixed dates and timestamps; names and texts of 17 to 600 characters with a free one, timestamps with fractions and offsets", "longer texts, non-ASCII text, other date texts",
      ["database/sql drivers bind the arguments as values"])
check("C31", "v6", [H("H_C31_rep", {"len": 5}, {"len": 7}, st=300), H("H_C31_full", {"len": 3}, {"len": 4}), H("H_C31_array", {"len": 7}, {"len": 10}), H("H_C31_pairs"), H("H_C31_triples"), H("H_C31_big")],
      "the trees of every accepted token sequence up to 3 to 7 tokens (thorough 4 to 10); every operator under every operator on either side; three levels of nine operators; trees of width or depth 9 to 70 with a free number at a chosen place", "larger trees, dialects with another precedence than standard SQL",
      ["the oracle is a recursive-descent reader with standard SQL precedence, where comparisons do not chain"])
check("C32", "v6", [H("H_C32_full", {"len": 4}, {"len": 4}), H("H_C32_rep", {"len": 5}, {"len": 7}, st=300), H("H_C30_binary", {"text": 1}, {"text": 2}), H("H_C31_pairs")],
      "the trees of every accepted token sequence up to 4 to 5 tokens (thorough 4 to 7); every operator over every literal kind and over every operator", "larger trees")

check("C40", "v6", [H("H_C40_full", {"len": 3}, {"len": 4}), H("H_C40_rep", {"len": 5}, {"len": 6}), H("H_C40_array", {"len": 7}, {"len": 9}), H("H_C40_pairs"), H("H_C40_same"), H("H_C40_names", {"id": 3}, {"id": 6}), H("H_C40_big"), H("H_C40_lit")],
      "the trees of every accepted token sequence up to 3 to 7 tokens (thorough 4 to 9), every operator under every operator, each with every combination of keep, rename, refuse, path and unparsable outcomes per name; identifiers of any characters up to 3 (6); trees of width or depth 9 to 70 with a free number at a chosen place; names and texts of 17 to 600 characters with a free one, timestamps with fractions and offsets", "larger trees; check functions that answer one name differently on two calls")
check("C41", "v6", [H("H_C40_full", {"len": 3}, {"len": 4}), H("H_C40_rep", {"len": 5}, {"len": 6}), H("H_C40_array", {"len": 7}, {"len": 9}), H("H_C40_pairs"), H("H_C40_big")],
      "the trees and outcomes of C40; every C memory access is checked for bounds and lifetime, and the blocks are counted before and after; trees of width or depth 9 to 70 with a free number at a chosen place", "larger trees", ["libc functions behave as their standard says"])
PROC = ["a program starts with its packages' fresh globals, its arguments hold no NUL byte, and what it prints goes to standard output and standard error unbuffered", "flag, fmt, log and os.Exit behave as documented"]
check("C42", "v6", [H("H_C42_full", {"len": 3}, {"len": 4}), H("H_C42_rep", {"len": 4}, {"len": 6}), H("H_C42_array", {"len": 6}, {"len": 8}), H("H_C42_big"), H("H_C42_lit"), H("H_C42_values", {"text": 2}, {"text": 3}), H("H_C42_ops"), H("H_C42_text", {"alpha": 4, "body": 2}, {"alpha": 5, "body": 3}), H("H_C42_args")],
      "token sequences up to 3 to 6 tokens (thorough 4 to 8); texts of up to 2 free bytes, of 4 (5) characters over quotes, digits, letters, operators and brackets, and string bodies of 2 (3) free bytes; every operator; any float64, Boolean, text of up to 2 (3) ASCII characters; trees of width or depth 9 to 70 with a free number; 0 to 3 arguments",
      "longer texts; the help text; the wording of messages", PROC, cmds=["v6/cmd/tsl"])
check("C43", "v6", [H("H_C43_test"), H("H_C43_logic"), H("H_C43_other"), H("H_C43_args")],
      "one comparison, IN of two, BETWEEN, LIKE, ILIKE or IS NULL of any column with any float64, Boolean or ASCII text of 3 or 4 characters, negated or not; AND and OR of two tests, negated or joined with a third; expressions without a Boolean value, unknown columns, arithmetic over columns; missing, malformed and unknown arguments",
      "the YAML output; deeper expressions; longer texts; the wording of messages", PROC, cmds=["v6/cmd/tsl_mem"])
check("C44", "v6", [H("H_C44_values", {"text": 2}, {"text": 3}), H("H_C44_ops"), H("H_C44_lit"), H("H_C44_big"), H("H_C44_args")],
      "every operator over operators; any float64, Boolean, ASCII text of up to 2 (thorough 3) characters in five places; names and texts of 17 to 600 characters with a free one; trees of width or depth 9 to 70 with a free number; JSON, DOT and SQL; missing, malformed and unknown arguments",
      "the YAML output; texts that are not UTF-8 in JSON; the wording of messages", PROC + ["the oracle reads the output with a JSON reader, a reader of DOT and a reader of SQL conditions"], cmds=["v6/cmd/tsl_parser"])

check("C50", "v6", [H("H_C50_full", {"len": 3}, {"len": 4}), H("H_C50_rep", {"len": 5}, {"len": 6}), H("H_C50_array", {"len": 6}, {"len": 8}), H("H_C50_pairs"), H("H_C50_text", {"text": 3}, {"text": 5}), H("H_C50_big"), H("H_C50_lit")],
      "the trees of every accepted token sequence up to 3 to 6 tokens (thorough 4 to 8), every operator under every operator, one string literal of any ASCII text up to 3 (5) bytes; trees of width or depth 9 to 70 with a free number at a chosen place; names and texts of 17 to 600 characters with a free one, timestamps with fractions and offsets", "larger trees, non-ASCII text",
      ["the random node names of one graph do not collide", "the oracle is a reader of DOT statements and record labels"])

check("C08", "v6", [H("H_C08_parse", {"len": 2}, {"len": 3}), H("H_C08_use", {"len": 1}, {"len": 2})],
      "every order of the shared accesses of two calls, for every pair of calls with thirteen texts that use every part of the scanner and the parser or any 2 (thorough 3) characters over nine lexically distinct ones, on the first call or a later one; with and without use of the tree by the walkers",
      "more than two calls at once; the C library's own state; the Go memory model beyond locks",
      ["Go and C memory accesses are atomic steps: two accesses at once are reported as such", "a schedule is reported when a run of the compiled code confirms that calls disturb each other"], schedules=True)

# ---- v5 and v4: the same harnesses for both (tools/reg.py)
ANTLR = "the token list stands in for the lexer's character loop where names and literals are free; the generated parser, its automata, the ANTLR runtime and the listener run as they are"
for v, b in (("v5", 60), ("v4", 80)):
    n5 = v == "v5"
    def h(i, name, *a, **k): return H("H_C%d_%s" % (b + i, name), *a, **k)
    kinds = "numbers, signed numbers, strings, Booleans, dates and timestamps" if n5 else "numbers, signed numbers and strings"
    check("C%d" % b, v, [h(0, "compare"), h(0, "pattern"), h(0, "is"), h(0, "between"), h(0, "in", {"list": 2}, {"list": 3}, st=400), h(0, "math"), h(0, "logic", {"depth": 2}, {"depth": 3}, st=300), h(0, "list", {"list": 5}, {"list": 8}), h(0, "big")],
          "every operator over left sides of five shapes (names, quoted names, parentheses, arithmetic) and literals of every kind (" + kinds + ") with free values, names and strings of one character, lists of up to 2 (thorough 3) literals of any kinds and of up to 5 (8) of kinds in turn, trees of AND, OR and NOT of depth 2 (3), lists, chains and nests of 9 to 33 operands with a free literal at a chosen place",
          "longer names, deeper nesting (C%d groups chains); identical subtrees beyond these" % (b + 8), [ANTLR])
    hs = [h(1, "string", {"strlen": 4}, {"strlen": 8}), h(1, "ident", {"strlen": 4}, {"strlen": 8}), h(1, "number"), h(1, "digits", {"digits": 4}, {"digits": 7}), h(1, "bad"), h(1, "long")]
    if n5: hs += [h(1, "bool"), h(1, "date"), h(1, "stamp")]
    check("C%d" % (b+1), v, hs,
          "strings and quoted names of up to 4 (thorough 8) free ASCII characters and of 17 to 300 characters with a free one" + (", every double of a numeral's range with every sign and suffix, numerals of up to 4 (7) free digits, every spelling of TRUE and FALSE, every day and month of eight years, timestamps with one free part (hour, minute, second, fraction of 1 to 9 digits with up to 3 free, offset)" if n5 else ", columns of up to three names, every double of a numeral's range with every sign, numerals of up to 4 (7) free digits"),
          "longer texts, characters outside ASCII, numerals of many digits: decimal to double conversion is taken from the Go library", [ANTLR])
    hs = [h(2, "literal", {"strlen": 2}, {"strlen": 4}), h(2, "missing"), h(2, "strings", {"len": 4}, {"len": 8}), h(2, "patterns"), h(2, "like", {"pat": 2, "val": 2}, {"pat": 3, "val": 3}, st=500), h(2, "wild", {"pat": 4, "val": 3}, {"pat": 5, "val": 4}, st=300),
          h(2, "utf"), h(2, "regex", {"val": 3}, {"val": 5}), h(2, "math"), h(2, "logic", {"depth": 2}, {"depth": 3}, st=400), h(2, "text"), h(2, "big"), h(2, "long")]
    if n5: hs += [h(2, "fields", {"strlen": 2}, {"strlen": 4}), h(2, "field_pattern"), h(2, "bool", {"len": 6}, {"len": 12}), h(2, "nested")]
    check("C%d" % (b+2), v, hs,
          "every comparison of a field with " + ("a field or " if n5 else "") + "a literal of any kind: all values of the eight numeric record types, strings of up to 2 (thorough 4) ASCII characters and of up to 4 (8) bytes, Booleans, " + ("whole-second instants, lists of up to two strings, " if n5 else "") + "nil, missing fields and types that are not supported; LIKE and ILIKE with patterns and values of up to 2 (3) free ASCII characters and of 4 (5) and 3 (4) characters over wildcards and regexp metacharacters; fifteen regular expressions over values of up to 3 (5) characters; " + ("arithmetic of up to three operations; " if n5 else "") + "trees of AND, OR and NOT of depth 2 (3) over conditions that are true, false, null or errors; chains of 9 to 130 conditions with a free one; texts and patterns of 17 to 130 characters with a free one",
          "longer strings and patterns; texts outside ASCII beyond fixed examples; deeper trees", ["regexp matching itself is Go's regexp/syntax program run symbolically"])
    check("C%d" % (b+3), v, [h(3, "in", {"list": 2}, {"list": 3}, st=300), h(3, "long", {"list": 6}, {"list": 12}), h(3, "strings", {"len": 3}, {"len": 6}), h(3, "lists"), h(3, "between"), h(3, "null"), h(3, "big")] + ([h(3, "math", st=200)]),
          "a field of any type (as in C%d) in lists of up to 2 (thorough 3) literals of any kind and of up to 6 (12) of one kind, in lists of 9 to 130 literals with a free one, between literals of any kinds; strings of up to 3 (6) bytes; null tests of fields of any type, missing fields and arithmetic" % (b+2), "longer lists and strings")
    check("C%d" % (b+4), v, [h(4, "compare"), h(4, "math", {"depth": 1}, {"depth": 1}), h(4, "other"), h(4, "not"), h(4, "logic", {"depth": 2}, {"depth": 2}), h(4, "chain", {"links": 5}, {"links": 7}), h(4, "pair"), h(4, "text", {"len": 6}, {"len": 12}), h(4, "names"), h(4, "list", {"list": 6}, {"list": 12}), h(4, "big")],
          "every operator over every operand form with arithmetic of up to two operations, literals of every kind (all doubles, strings of one free character and of up to 6 (thorough 12) free bytes), NOT over every condition, every pair of conditions under AND and OR, trees of AND, OR and NOT of depth 2, chains of 6 (8) conditions leaning to any side; lists, chains and nests of 9 to 130 operands with a free value at a chosen place, texts and names of 17 to 300 characters",
          "deeper trees; literals inside arithmetic are text by design and fixed here", ["the oracle is a reader of the SQL text with standard precedence", "squirrel's builder is executed as it is"])
    check("C%d" % (b+5), v, [h(5, "compare"), h(5, "other"), h(5, "logic"), h(5, "chain", {"links": 5}, {"links": 7}), h(5, "pair"), h(5, "text", {"len": 6}, {"len": 12}), h(5, "list", {"list": 6}, {"list": 12}), h(5, "big")],
          "every operator over every operand form and literal kind with free values, lists of up to 6 (thorough 12) items, trees of AND, OR and NOT of depth 2, chains of 6 (8) conditions; lists, chains and nests of 9 to 130 operands with a free value at a chosen place, texts and names of 17 to 300 characters", "deeper trees; how MongoDB itself evaluates the document")
    check("C%d" % (b+6), v, [h(6, "compare", {"lits": 2}, {"lits": 4}), h(6, "other", {"lits": 1}, {"lits": 3}), h(6, "logic", {"depth": 2, "out": 2}, {"depth": 2, "out": 3}, st=200), h(6, "chain", {"links": 5}, {"links": 6}), h(6, "same"), h(6, "names", {"len": 4}, {"len": 10}), h(6, "list"), h(6, "big")],
          "every operator over every operand form and literal kind, trees of AND, OR and NOT of depth 2, chains of 6 (thorough 7) conditions, each with every combination of outcomes (keep, rename, refuse) of the check per name, names of up to 4 (10) free bytes; lists, chains and nests of 9 to 130 operands with a free value at a chosen place, texts and names of 17 to 300 characters", "deeper trees; check functions that answer one name differently on two calls")
    check("C%d" % (b+7), v, [h(7, "compare", {"nums": 1, "dates": 1}), h(7, "other", {"lits": 2, "nums": 1}, {"lits": 4}, st=300), h(7, "logic"), h(7, "chain", {"links": 4}, {"links": 6}), h(7, "text", {"text": 3}, {"text": 4}), h(7, "leaf"), h(7, "list", {"list": 4}, {"list": 8}), h(7, "big")],
          "every operator over every operand form and literal kind, strings and names of up to 3 (thorough 4) free ASCII characters, trees of AND, OR and NOT of depth 2, chains of 5 (7) conditions; lists, chains and nests of 9 to 33 operands with a free value at a chosen place, texts and names of 17 to 300 characters", "deeper trees, non-ASCII text",
          ["the random node names of one graph do not collide", "the oracle is a reader of DOT statements and record labels"])
    check("C%d" % (b+8), v, [h(8, "short", {"tokens": 2}, {"tokens": 3}, st=400), h(8, "edit"), h(8, "logic", {"chain": 4}, {"chain": 6}, st=200), h(8, "math", {"math": 2}, {"math": 3}, st=200), h(8, "charString"), h(8, "charIdent"), h(8, "charNumber"), h(8, "charEnd"), h(8, "charCase")],
          "every sequence of up to 2 (thorough 3) tokens over the whole vocabulary; every deletion, replacement and insertion of one token in thirteen filters of every form; chains of up to 4 (6) conditions with up to two NOTs each; arithmetic chains of up to 3 (4) operands with free values; every ASCII character inside and after strings, names, numerals and filters; every keyword with any one or all letters capital",
          "longer token sequences, characters outside ASCII", ["the oracle is a recogniser that keeps every reading of the grammar, written from TSL.g4" if n5 else "the oracle is a recogniser that keeps every reading of the grammar, written from the generated parser's rules", "character harnesses choose concrete characters by solver-enumerated forks and run the real lexer"])
    check("C%d" % (b+9), v, [h(9, "test", {"text": 3}, {"text": 5}), h(9, "logic"), h(9, "other"), h(9, "args")],
          "one comparison, IN of two, BETWEEN, LIKE, ILIKE, regular expression or IS NULL of any column, negated or not, with any number or text of 3 (thorough 5) ASCII characters; AND and OR of two tests, negated or joined with a third; unknown columns, arithmetic over columns; missing, malformed and unknown arguments",
          "the YAML and coloured outputs; deeper filters; longer texts; the wording of messages", [ANTLR] + PROC, cmds=[v + "/cmd/tsl_mem"])
    c = b + 10
    check("C%d" % c, v, [H("H_C%d_compare" % c, {"text": 1}, {"text": 2}), H("H_C%d_text" % c), H("H_C%d_logic" % c), H("H_C%d_big" % c), H("H_C%d_args" % c)],
          "every operator over a field or arithmetic with literals of every kind (any double, strings of 1 (thorough 2) free characters); texts that a format could take for its own; chains of three conditions; lists, chains and nests of 9 and 33 operands with a free value at a chosen place; JSON, DOT and SQL; missing and malformed arguments",
          "the YAML and coloured outputs; formats that are not there; the wording of messages", [ANTLR] + PROC + ["the oracle reads the output with a JSON reader, a reader of DOT and a reader of SQL conditions"], cmds=[v + "/cmd/tsl_parser"])
