prop("K01", "A query built through the builder means what its calls say",
     "Every chain of scan, projection, filter, grouping, aggregation, join, sort and window calls builds a query whose result, column names, column types and nullability are those the calls describe, whichever of the equivalent call forms (by name, number, reference, text or list) is used and however often parts of the query are shared. "
     "Calls that make no sense - unknown columns, numbers out of range, operands of the wrong type, misspelled options - are refused with an error and leave what was built before usable.",
     ["inputs", "histories"],
     "all tables and all chains of builder calls over all column types, literals and call forms, including shared parts and repeated use of intermediate results",
     "The builder is a product of operators, operand types, call forms and nesting; tests check particular spellings of particular calls, and the ones for it need parts of the system that are not built here.",
     ["omniscidb/QueryBuilder/QueryBuilder.cpp", "omniscidb/IR/Node.cpp", "omniscidb/IR/Expr.cpp", "omniscidb/IR/TypeUtils.cpp"],
     [dict(name="BuilderNode / BuilderExpr / QueryBuilder", where="omniscidb/QueryBuilder/QueryBuilder.cpp"), dict(name="getNodeColumnRef / Join / Project / Aggregate", where="omniscidb/IR/Node.cpp")],
     [F("h_qb", "query", 160000, 2000000), F("h_qb", "forms", 250000, 2500000), F("h_qb", "reject", 150000, 1000000)],
     "the query has at least two steps and a non-empty result, or the case compares two call forms or refuses a call",
     "model-based property testing", "Generated tables and builder call chains evaluated by a row-level reference model as the calls are made; the built operator graph is run by an independent interpreter and compared with it. Equivalent call forms must give equal expressions and nodes; nonsensical calls must be refused.",
     assumptions=["a query that joins a step directly with itself is ambiguous in the operator graph and is left out", "literals that overflow when they are cast may be refused"])
prop("K02", "Canonicalizing a query never changes its result",
     "For every query, the canonical form handed to the engine gives the same rows, column names and column types as the query as it was written, in the same order where an order was asked for. "
     "Removing sorts that nobody observes, splitting compound statistics into elementary aggregates and moving the inputs of window functions into a step of their own keep this also when a step has several users.",
     ["inputs"],
     "all operator graphs of scans, projections, filters, groupings, joins, sorts, limits and window functions, with shared steps",
     "Each rewriting is right or wrong only in combination with what surrounds it: a limit above a sort, a second user of the same step, an argument that is used twice, an empty or single-row group.",
     ["omniscidb/QueryOptimizer/CanonicalizeQuery.cpp", "omniscidb/IR/Node.cpp", "omniscidb/IR/ExprRewriter.h"],
     [dict(name="canonicalizeQuery / dropDeadSorts / expandCompoundAggregates / addWindowFunctionPreProject", where="omniscidb/QueryOptimizer/CanonicalizeQuery.cpp")],
     [F("h_qb", "canon", 220000, 2500000)],
     "the query has at least two steps and a non-empty result",
     "differential property testing", "The graph is interpreted before and after canonicalization and both results are compared with the reference model's.",
     assumptions=["statistics over values that are constant up to rounding are left out", "floating point results are compared within 1e-7"])
