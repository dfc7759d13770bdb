QFILES = ["omniscidb/QueryEngine/RelAlgExecutor.cpp", "omniscidb/QueryEngine/Execute.cpp", "omniscidb/QueryEngine/WorkUnitBuilder.cpp"]

prop("X01", "Filters and projections compute SQL expression semantics row by row",
     "For every table and every well-typed expression, a query returns exactly the rows whose condition is true under three-valued logic, and each projected value is the exact value of its expression with NULL propagated as SQL prescribes. "
     "This covers integer, decimal and floating point arithmetic, comparisons, casts and rounding, bitwise and logical operators, CASE, IS NULL, string literals and NULL literals, nested to any depth. "
     "Result column names and types are those the query declares.",
     ["inputs"],
     "all tables (types, NULL patterns, value ranges, fragment layouts) and all nested scalar expressions over their columns and over literals",
     "A wrong NULL propagation, cast, fold or rounding rule shows only for one combination of operator, operand types, nullability and value; the product of these is far beyond a list of queries.",
     QFILES + ["omniscidb/QueryEngine/ArithmeticIR.cpp", "omniscidb/QueryEngine/CompareIR.cpp", "omniscidb/QueryEngine/CastIR.cpp", "omniscidb/QueryEngine/LogicalIR.cpp", "omniscidb/QueryEngine/CaseIR.cpp",
               "omniscidb/QueryEngine/ExpressionRewrite.cpp", "omniscidb/QueryEngine/RuntimeFunctions.cpp", "omniscidb/QueryEngine/ConstantIR.cpp", "omniscidb/QueryBuilder/QueryBuilder.cpp", "omniscidb/QueryEngine/DecodersImpl.h"],
     [dict(name="CodeGenerator (arithmetic, comparison, cast, logical, CASE)", where="omniscidb/QueryEngine/ArithmeticIR.cpp"), dict(name="ConstantFoldingVisitor", where="omniscidb/QueryEngine/ExpressionRewrite.cpp"),
      dict(name="null-aware runtime functions", where="omniscidb/QueryEngine/RuntimeFunctions.cpp"), dict(name="BuilderExpr typing", where="omniscidb/QueryBuilder/QueryBuilder.cpp")],
     [F("h_scalar", "scalar", 5000, 150000)],
     "the table is not empty and at least one row passes the filter",
     "differential property testing against a row-at-a-time reference evaluator",
     "Typed expression trees are built through the query builder and, side by side, as evaluators with exact 128-bit arithmetic and three-valued logic; the query runs end to end on generated fragmented tables.",
     assumptions=["values equal to a type's NULL marker, infinities and floating point results dominated by rounding are not generated (such cases are discarded)", "floating point results are compared with a relative tolerance"])

prop("X02", "Arithmetic overflow and division by zero are reported, never silently wrong",
     "When evaluating a query's expression on some row overflows its integer or decimal type, narrows a value out of range, or divides by zero, the query fails with an overflow or division-by-zero error and returns no rows. "
     "A query whose evaluation meets no such condition never fails with one, whatever the rows the filter removed contain.",
     ["inputs"],
     "all operand types and widths, values at and around the limits of every type, literals and columns, nullable and not, in filters and projections",
     "Overflow guards are generated per operator, width and nullability, and a missing one only shows for operands at the very edge of that width.",
     QFILES + ["omniscidb/QueryEngine/ArithmeticIR.cpp", "omniscidb/QueryEngine/CastIR.cpp", "omniscidb/QueryEngine/ExpressionRewrite.cpp", "omniscidb/QueryEngine/RuntimeFunctions.cpp"],
     [dict(name="codegenBinOpWithOverflowForCPU / overflow checks", where="omniscidb/QueryEngine/ArithmeticIR.cpp"), dict(name="codegenCastBetweenIntTypesOverflowChecks", where="omniscidb/QueryEngine/CastIR.cpp"),
      dict(name="error code propagation", where="omniscidb/QueryEngine/Execute.cpp")],
     [F("h_scalar", "errors", 5000, 150000)],
     "the reference evaluation meets an arithmetic error that the query must report",
     "differential property testing against a row-at-a-time reference evaluator",
     "Expression trees over columns with boundary values; the reference evaluator records errors that must be reported, those in parts that may be skipped (AND/OR operands, CASE branches, constants), and absence of errors.",
     assumptions=["an integer sum, difference or product that is widened immediately may be computed in the wider type without an error"])

prop("X03", "Grouped and global aggregates equal the aggregates of each group's rows",
     "A query grouping by any set of columns returns exactly one row per distinct key combination among the selected rows (NULL keys form their own group), and each of COUNT, COUNT DISTINCT, MIN, MAX, SUM, AVG, sample standard deviation, correlation, exact quantile, top-k, bottom-k and SAMPLE equals its definition over the non-NULL values of that group. "
     "Without keys exactly one row comes back, with NULL (or zero counts) when there are no rows. "
     "The result does not depend on the fragmentation of the table or on tuning options.",
     ["inputs", "configurations"],
     "all tables, key sets, aggregate lists, filters and HAVING conditions, fragment layouts and engine options that must not change results",
     "Group-by picks among perfect hash, baseline hash, keyless, columnar, partitioned and estimator-driven layouts from statistics of the data; a wrong slot width, init value or reduction shows only in one layout for one mix of aggregates, NULLs and fragments.",
     QFILES + ["omniscidb/QueryEngine/RowFuncBuilder.cpp", "omniscidb/QueryEngine/MemoryLayoutBuilder.cpp", "omniscidb/QueryEngine/ResultSetReduction.cpp", "omniscidb/QueryEngine/ResultSetReductionJIT.cpp", "omniscidb/QueryEngine/GroupByRuntime.cpp",
               "omniscidb/QueryEngine/TargetExprBuilder.cpp", "omniscidb/QueryEngine/RuntimeFunctions.cpp", "omniscidb/ResultSet/ResultSetIteration.cpp", "omniscidb/ResultSet/ResultSetStorage.cpp", "omniscidb/QueryEngine/QueryMemoryInitializer.cpp"],
     [dict(name="MemoryLayoutBuilder / QueryMemoryDescriptor", where="omniscidb/QueryEngine/MemoryLayoutBuilder.cpp"), dict(name="group-by codegen", where="omniscidb/QueryEngine/RowFuncBuilder.cpp"),
      dict(name="result reduction", where="omniscidb/QueryEngine/ResultSetReduction.cpp")],
     [F("h_agg", "agg", 6000, 150000)],
     "more than one row is aggregated and, with keys, into more than one group",
     "differential property testing against a reference group-by",
     "Tables with dense, sparse, offset and NULL-heavy keys of all types in 1..60 fragments; 0-3 keys, 1-4 aggregates, optional filter and HAVING, under randomly switched engine options; every group and aggregate is compared with a reference computed from the rows.",
     assumptions=["the correlation with a constant and the sample of no rows are left open", "exec.sub_tasks (experimental, off by default) stays off", "queries whose per-group sets exceed the 1 GB the harness gives the engine are discarded"])

prop("X11", "Approximate aggregates stay within their error bounds for every input",
     "APPROX_COUNT_DISTINCT of a group is within 15 percent (plus two) of the number of distinct non-NULL values, and APPROX_QUANTILE lies between the values at ranks five percent (at least one rank) below and above the requested quantile, NULL only for groups with no value. "
     "This holds for every grouping, fragment layout and engine option.",
     ["inputs", "configurations"],
     "all numeric and other countable columns, groupings, quantile parameters, fragment layouts and options",
     "Sketch merges across fragments and NULL handling only go wrong for particular group sizes and layouts.",
     QFILES + ["omniscidb/Shared/approx_quantile.h", "omniscidb/ResultSet/HyperLogLog.h", "omniscidb/QueryEngine/RuntimeFunctions.cpp", "omniscidb/ResultSet/CountDistinct.h"],
     [dict(name="TDigest", where="omniscidb/Shared/approx_quantile.h"), dict(name="HyperLogLog", where="omniscidb/ResultSet/HyperLogLog.h")],
     [F("h_agg", "approx", 4000, 100000)],
     "more than one row is aggregated and, with keys, into more than one group",
     "property testing against exact values with error bounds",
     "The generator of X03 with approximate aggregates; the exact count and rank interval are computed from the rows.")

prop("X04", "Joins return exactly the matching row pairs",
     "An inner join of two tables returns every pair of rows for which the condition is true, with multiplicity, and nothing else; a left join also returns each left row without a match once, with NULLs on the right. "
     "This holds for equality conditions over one or several columns or expressions of any types (NULL keys match nothing), extra conditions over both sides, filters, projections and aggregations above the join, and for every fragment layout and engine option.",
     ["inputs", "configurations"],
     "all pairs of tables (key ranges dense, sparse and negative, NULL-heavy, empty tables and fragments), join conditions, join types and steps above the join",
     "The engine picks perfect one-to-one, one-to-many or baseline hash tables, reorders tables and pushes conditions from statistics of the data; a wrong choice shows only for one key distribution, condition shape and table size.",
     QFILES + ["omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp", "omniscidb/QueryEngine/JoinHashTable/PerfectJoinHashTable.cpp", "omniscidb/QueryEngine/JoinHashTable/BaselineJoinHashTable.cpp", "omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp",
               "omniscidb/QueryEngine/FromTableReordering.cpp", "omniscidb/QueryEngine/EquiJoinCondition.cpp", "omniscidb/QueryEngine/ColumnIR.cpp", "omniscidb/QueryEngine/ColumnFetcher.cpp"],
     [dict(name="PerfectJoinHashTable / BaselineJoinHashTable", where="omniscidb/QueryEngine/JoinHashTable/HashJoin.cpp"), dict(name="join loop codegen", where="omniscidb/QueryEngine/IRCodegen.cpp"),
      dict(name="make_composite_equals", where="omniscidb/QueryEngine/EquiJoinCondition.cpp")],
     [F("h_pipe", "join", 3000, 60000)],
     "the query has a join and returns rows",
     "differential property testing against a nested loop reference",
     "Generated tables and chains of steps with a join are built through the query builder and evaluated side by side by a row-at-a-time reference; the engine's rows are compared as a multiset, or in order below a sort.",
     assumptions=["joins the engine refuses with an error (no hash table possible for the condition, joins of joins, some self-joins) are skipped"])

prop("X05", "Sorting, limit and offset return the right rows in the right order",
     "A sorted query returns its rows in the order of the sort columns, ascending or descending, with NULLs first or last as asked for each; limit and offset then cut exactly the rows of that order between them (any of the tied ones at the borders). "
     "This holds above and below filters, projections and aggregations, for several sorts in one query, for queries built on the result of another one, and for every table layout and engine option.",
     ["inputs", "configurations"],
     "all tables, sort keys, directions, NULL placements, limits, offsets and surrounding steps",
     "Top-k heaps, radix sort, baseline sort, streaming limits and sort fusion are chosen from the shape of the query and the data; mistakes show only for one mix of types, NULLs, ties and limits.",
     QFILES + ["omniscidb/ResultSet/ResultSet.cpp", "omniscidb/QueryEngine/StreamingTopN.cpp", "omniscidb/QueryEngine/ResultSetSort.cpp", "omniscidb/QueryOptimizer/CanonicalizeQuery.cpp"],
     [dict(name="sortResultSet / top / radix sort", where="omniscidb/QueryEngine/ResultSetSort.cpp"), dict(name="streaming top-n", where="omniscidb/ResultSet/StreamingTopN.cpp"), dict(name="executeSort", where="omniscidb/QueryEngine/RelAlgExecutor.cpp")],
     [F("h_pipe", "sort", 3500, 60000)],
     "the query has a sort and returns more than one row",
     "differential property testing against a reference sort",
     "Generated chains of steps with sorts, limits and offsets are run and compared with a reference evaluation; ties at the cut are resolved in favour of the engine.")
