prop("M01", "Catalogue lookups agree with the tables created and dropped so far",
     "After any history of creating and dropping tables, listing databases, tables and columns gives exactly what exists, columns in their order, and every lookup by number, by name or by reference finds the same entry with the attributes it was created with, or nothing. "
     "A merged catalogue answers for every database as the catalogue that owns it, follows later changes, finds nothing in unused schemas and refuses two catalogues with the same schema; the description handed to the SQL front end lists every table and column with its type, precision, nullability and flags.",
     ["histories", "inputs"],
     "all histories of table creations and drops over several catalogues, databases, numbers and names up to the limits of the numbering, with columns of all types",
     "Entries are kept in several indexes at once; a stale or mixed-up entry shows only after particular histories or for particular numbers.",
     ["omniscidb/SchemaMgr/SchemaMgr.cpp", "omniscidb/SchemaMgr/SimpleSchemaProvider.h", "omniscidb/Calcite/SchemaJson.cpp"],
     [dict(name="SchemaMgr / mergeProviders", where="omniscidb/SchemaMgr/SchemaMgr.cpp"), dict(name="SimpleSchemaProvider", where="omniscidb/SchemaMgr/SimpleSchemaProvider.h"), dict(name="schema_to_json", where="omniscidb/Calcite/SchemaJson.cpp")],
     [F("h_meta", "schema", 900000, 4000000), F("h_meta", "schema_json", 1100000, 4000000)],
     "a table was dropped and more than one database exists, or the description has a table",
     "stateful model-based testing", "Random histories of creations and drops over several catalogues compared with a map model through every lookup; the JSON description is parsed and compared field by field.")
prop("C01", "Command line options set exactly the settings they name",
     "Parsing a command line changes exactly the settings that are named on it to exactly the values given, in every accepted spelling, and keeps all other settings at what they were before, defaults or not. "
     "Unknown options, unreadable values and values outside the documented ranges are refused.",
     ["inputs"],
     "all subsets of the about one hundred options with all values of their types, in separate, joined and implicit form, on default and on changed settings",
     "There are about a hundred options wired by hand; a test that sets one option does not notice that another one moved with it.",
     ["omniscidb/ConfigBuilder/ConfigBuilder.cpp", "omniscidb/Shared/Config.h"],
     [dict(name="ConfigBuilder::parseCommandLineArgs", where="omniscidb/ConfigBuilder/ConfigBuilder.cpp")],
     [F("h_meta", "config", 160000, 600000)],
     "at least two options are given",
     "property-based testing against a model of the settings", "Random option subsets and values are written as a command line, parsed, and all settings are compared with a model that knows which setting each option names.")
prop("C02", "Work is split between devices as predicted and as asked for",
     "Predicted times follow the measurements: they agree with measured points, lie on the line between or beyond neighbouring points or on the least-squares line, and are never negative. "
     "The split chosen for a query is, up to the granularity of the search, no slower by these predictions than any other split, and a split into given shares gives every device its share of the fragments to within one, none to a device without a share, each on the device instance the fragment belongs to.",
     ["inputs"],
     "all sets of at least two measurements including times that fall with size, query sizes from 0 to 2^40 bytes, all combinations of operations, all shares up to the width of the setting and all fragment counts",
     "The existing tests use one increasing table of measurements and small shares; decreasing times, huge sizes and large shares overflow silently.",
     ["omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp", "omniscidb/QueryEngine/CostModel/CostModel.cpp", "omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp", "omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp"],
     [dict(name="IterativeCostModel::predict", where="omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp"), dict(name="LinearExtrapolation / LinearRegression", where="omniscidb/QueryEngine/CostModel/ExtrapolationModels"), dict(name="ProportionBasedExecutionPolicy", where="omniscidb/QueryEngine/CostModel/Dispatchers")],
     [F("h_meta", "cost", 400000, 3000000), F("h_meta", "policy", 2000000, 10000000)],
     "the query has an operation and more than one byte, or two devices share more than two fragments",
     "property-based testing against brute force", "Random measurements and queries; predictions are compared with exact interpolation and least squares, the split with all 1024 candidate splits, shares with exact proportions.")
prop("D01", "The embedded database returns what was stored and survives failed statements",
     "Text, binary and NULL values stored through parameters or batches are read back byte for byte, also after reopening. "
     "A failed statement or batch leaves the contents as they were before it and does not affect anything that follows.",
     ["inputs", "histories", "fault_sequences"],
     "all histories of inserts, batches, deletions, failing statements, constraint violations and reopenings, over all byte strings",
     "What a failure leaves behind shows only in later operations.",
     ["omniscidb/SqliteConnector/SqliteConnector.cpp"],
     [dict(name="SqliteConnector::query_with_text_params / batch_insert", where="omniscidb/SqliteConnector/SqliteConnector.cpp")],
     [F("h_meta", "sqlite", 100000, 300000)],
     "at least two rows are stored at the end",
     "stateful model-based testing with injected failures", "Random histories against a scratch database file, compared with a list model after every step and after reopening.")
