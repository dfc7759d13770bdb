prop("L01", "LIKE, ILIKE, REGEXP and string comparisons follow SQL semantics",
     "A LIKE pattern matches a string exactly when the whole string can be split along it: percent for any run, underscore for one character, a bracket set for one of its characters, an escaped character for itself; ILIKE additionally ignores ASCII case, and a malformed pattern matches nothing. "
     "String comparison operators are the unsigned byte-wise lexicographic order, and a regular expression matches when it matches the whole string. "
     "A NULL operand gives NULL, and bytes outside the two operands never influence the result.",
     ["inputs"],
     "all strings, all patterns (malformed ones included), all escape characters, both case modes and the NULL-aware forms",
     "The matcher backtracks and aborts early; the patterns that break it combine several wildcards, sets and escapes in ways the few tested patterns do not.",
     ["omniscidb/Utils/StringLike.cpp", "omniscidb/Utils/Regexp.cpp"],
     [dict(name="string_like_match", where="omniscidb/Utils/StringLike.cpp"), dict(name="string_like_simple / string_ilike_simple", where="omniscidb/Utils/StringLike.cpp"),
      dict(name="StringCompare", where="omniscidb/Utils/StringLike.cpp"), dict(name="regexp_like", where="omniscidb/Utils/Regexp.cpp")],
     [F("h_strlike", "like", 6000000, 60000000), F("h_strlike", "simple", 2000000, 20000000), F("h_strlike", "compare", 2000000, 20000000),
      F("h_strlike", "regexp", 300000, 6000000)],
     "like: the pattern has a wildcard and the string is not empty; others: both operands are not empty",
     "differential property testing against a reference matcher",
     "Generated strings and patterns (half of them derived from the string so that they match) decided by a dynamic-programming LIKE matcher, byte order and a position-set regex matcher.",
     assumptions=["the ILIKE pattern is lowercased by the caller, as the query compiler does", "wildcard characters are not used as the escape character", "regular expressions quantify sequences of single-character expressions only (Boost.Regex gives up on some others as too complex, and that is reported as no match)"])
prop("L02", "Analysing a constant LIKE or REGEXP pattern keeps its meaning",
     "Whatever internal form a LIKE, ILIKE or REGEXP predicate with a constant pattern is turned into, it gives for every text the answer that the pattern as written gives, also when it is negated, when the same pattern is used in several predicates, and when characters are escaped in any position; over NULL it gives NULL. "
     "A pattern that ends in an escape is refused.",
     ["inputs"],
     "all patterns of literals, wildcards, sets and escapes with several escape characters, all regular expressions of letters, wildcards, classes, repetition and alternatives, and all texts",
     "Which form is chosen depends on the whole pattern; the rewriting goes wrong only for particular escape sequences, and only some texts show it.",
     ["omniscidb/Analyzer/Analyzer.cpp", "omniscidb/Utils/StringLike.cpp", "omniscidb/Utils/Regexp.cpp"],
     [dict(name="getLikeExpr / getRegexpExpr / test_is_simple_expr / erase_cntl_chars / translate_to_like_pattern", where="omniscidb/Analyzer/Analyzer.cpp")],
     [F("h_strlike", "analyzed_like", 6000000, 40000000), F("h_strlike", "analyzed_regexp", 4000000, 25000000)],
     "the pattern contains an escape or some text matches it",
     "differential property testing", "Patterns are analysed by the real code, the resulting form is evaluated with the real string functions, and compared with a backtracking-free reference matcher on the pattern as written.",
     assumptions=["escape characters are not letters", "texts for REGEXP have at most 8 characters, within the matching library's complexity limit"])
