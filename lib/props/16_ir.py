prop("I01", "Types are unique per context and survive printing, parsing and copying",
     "Two types built with the same parameters in one context are the same object, types compare equal exactly when all their parameters (kind, width, unit, precision and scale, length, element type, dictionary, nullability) agree, also across contexts, and every type reports the parameters it was built with. "
     "Reading back a type's printed form, or any documented spelling of it in any case and with default parameters left out, gives the same type; malformed spellings and unsupported parameters are rejected. "
     "Copying a type into another context and back, and changing nullability and back, gives the same type.",
     ["inputs"],
     "all types: null, booleans, integers, floats, decimals, strings, dates, times, timestamps, intervals, dictionaries, fixed and variable arrays of them, columns and column lists, in all widths, units and nullabilities, and all spellings",
     "The type space is a product of kind, width, unit, nesting and nullability; tests name a few dozen types by hand.",
     ["omniscidb/IR/Context.cpp", "omniscidb/IR/Type.cpp"],
     [dict(name="Context::typeFromString / copyType", where="omniscidb/IR/Context.cpp"), dict(name="Type::equal / toString / withNullable / canonicalize", where="omniscidb/IR/Type.cpp")],
     [F("h_ir", "types", 60000, 500000)],
     "more than one type was built, or a nested one",
     "property-based testing against a parameter model", "Sets of generated and slightly mutated types in two contexts, compared with their parameter tuples; printed, spelled and read back.")
prop("I02", "Casting a constant gives the exactly converted value or an error",
     "Casting a constant between booleans, integers, floating point numbers, decimals, timestamps, dates and text gives the value converted by the rules of the target type (decimals rounded half away from zero, times before 1970 rounded down, text in the canonical spelling), or an error when the value does not fit; NULL stays NULL. "
     "A number written as text reads back as the same number, and the factors applied between units of time are exact in both directions.",
     ["inputs"],
     "all pairs of source and target types and widths, scales 0 to 18, units from seconds to nanoseconds, all values including the extremes of every width; decimal text of up to 18 digits",
     "Errors show only at width boundaries, before the epoch, above 2^53 or at particular scale differences.",
     ["omniscidb/IR/Expr.cpp", "omniscidb/IR/Datum.cpp", "omniscidb/QueryEngine/DateTimeUtils.h"],
     [dict(name="Constant::cast / castNumber / castFromString / castToString", where="omniscidb/IR/Expr.cpp"), dict(name="StringToDatum / DatumToString / parse_numeric / convert_decimal_value_to_scale", where="omniscidb/IR/Datum.cpp"),
      dict(name="get_datetime_scaled_epoch", where="omniscidb/QueryEngine/DateTimeUtils.h")],
     [F("h_ir", "consts", 12000000, 60000000), F("h_ir", "units", 2000000, 20000000)],
     "the cast is between different kinds of types, or different units",
     "property-based testing against a 128-bit reference", "Generated constants cast to generated types, compared with exact 128-bit integer or long double arithmetic and a reference calendar.",
     assumptions=["casts through binary floating point are compared within the precision of the narrower type", "casts to boolean from numbers and from text to timestamps are left to T01"])
prop("I03", "Expressions are equal, and hash equally, exactly when they are the same",
     "An expression equals and hashes as a separately built copy of itself; changing any one part of it - an operator, qualifier, column, literal, argument, argument count, sort order, flag or nested part - makes it unequal both ways, with a different hash. "
     "Rewriting an expression with a substitution gives exactly the expression built with that substitution made by hand and leaves the original as it was; collecting sub-expressions finds every one of them.",
     ["inputs"],
     "all expression trees over every expression kind: columns, literals, arrays, unary and binary operators, CASE, IN, LIKE, REGEXP, date functions, aggregates, window functions, function calls",
     "Query caches and join detection rely on this for every pair of expressions; a forgotten field merges two different queries only when they differ in just that field.",
     ["omniscidb/IR/Expr.cpp", "omniscidb/IR/ExprRewriter.h", "omniscidb/IR/ExprVisitor.h", "omniscidb/IR/ExprCollector.h"],
     [dict(name="Expr::operator== / Expr::hash", where="omniscidb/IR/Expr.cpp"), dict(name="ExprRewriter", where="omniscidb/IR/ExprRewriter.h"), dict(name="ExprVisitor / ExprCollector", where="omniscidb/IR/ExprVisitor.h")],
     [F("h_ir", "exprs", 4000000, 15000000)],
     "the expression has at least one nested part",
     "metamorphic property testing", "Random expression trees rebuilt, mutated in one place and rewritten, decided by a structural model of the tree.")
prop("I04", "Plan steps have one identity per content, and copies keep everything",
     "Two query plan steps - table reads, projections, filters, aggregations, joins, sorts, literal rows, unions, shuffles - have the same identity exactly when they and all steps below them have the same content, however and in whatever order they were built. "
     "A copy of a step has all its attributes, columns, names, types and inputs, editing or redirecting it leaves the original alone, and redirecting moves exactly the references to the replaced input. "
     "A plan made from its last step lists every step below it once, inputs first, and a union is accepted exactly when its inputs have the same column types.",
     ["inputs", "histories"],
     "all plans over every kind of step, with shared parts, separately built twins and plans that differ in exactly one attribute anywhere below",
     "The identity decides which cached join tables are reused; a forgotten attribute gives wrong answers only when two queries differ in just that attribute.",
     ["omniscidb/IR/Node.h", "omniscidb/IR/Node.cpp", "omniscidb/IR/InputRewriter.cpp"],
     [dict(name="Node::toHash / Node::deepCopy / Node::replaceInput", where="omniscidb/IR/Node.h"), dict(name="QueryDag / getColumnType / getNodeColumnRefs", where="omniscidb/IR/Node.cpp")],
     [F("h_node", "identity", 400000, 1000000), F("h_node", "copies", 800000, 2000000)],
     "several different plans and a separately built twin were compared, or at least two steps were copied",
     "metamorphic property testing", "Random plans described by a structural specification, with twins and one-edit mutants; identities must be in bijection with specifications, copies and redirected copies must match the specification.",
     assumptions=["the sides of a join of two equal steps are not distinguished in references, by design of the plan representation", "column types of a table are a function of the table and column"])
