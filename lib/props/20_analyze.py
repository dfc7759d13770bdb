prop("Y01", "Analysing an operation keeps the values of its operands",
     "For every operator and every pair of operand types, analysis either refuses the combination because it makes no sense or brings the operands to types in which the operation over the stored values is the operation over the values meant: numbers, dates and timestamps are compared in one unit as fine as the finest operand, decimal sums and products have the scale their operands give, strings are compared as text or as ids of one dictionary. "
     "The branches of a CASE all get its type without losing digits or characters, and the result is nullable whenever an operand, a branch or a missing ELSE can be NULL. "
     "A literal is given a type that holds it exactly, and the common type of two types does not depend on their order.",
     ["inputs"],
     "all operators, all pairs of operand types (integers, floats, decimals, booleans, strings, dictionaries, dates, times, timestamps, intervals) in all widths, scales, units and nullabilities, columns and constants; CASE of up to four branches; all literals",
     "The typing rules are a table over pairs of types; a wrong entry only shows for one pair and one order of operands and then silently shifts or truncates values.",
     ["omniscidb/Analyzer/Analyzer.cpp", "omniscidb/IR/Expr.cpp"],
     [dict(name="analyze_type_info / common_numeric_type / common_string_type", where="omniscidb/Analyzer/Analyzer.cpp"), dict(name="normalizeOperExpr / normalizeCaseExpr", where="omniscidb/Analyzer/Analyzer.cpp"),
      dict(name="analyzeIntValue / analyzeFixedPtValue / analyzeStringValue", where="omniscidb/Analyzer/Analyzer.cpp")],
     [F("h_analyze", "binary", 7000000, 30000000), F("h_analyze", "cases", 3500000, 15000000), F("h_analyze", "literals", 2500000, 8000000)],
     "the operands have different types (binary, literals), or the CASE has several branches",
     "property-based testing against exact arithmetic over the operands' values",
     "Operands are generated with the value they mean; the analysed operator is applied to the stored representation of its analysed operands and compared with exact 128-bit arithmetic, and accepted combinations with a table of sensible ones.",
     assumptions=["values are small enough that no cast overflows (X02 covers overflow)", "division is checked for its types only", "comparisons of intervals of different units are left open"])
