NA = {}


def na(pid, title, statement, over, text, why, files, mechanism, reason):
    NA[pid] = dict(title=title, statement=statement, quantifier=dict(over=over, text=text), why=why, files=files, mechanism=mechanism, reason=reason)


na("A01", "Imported tables read back as imported",
   "A table imported from columnar memory, CSV, JSON or Parquet contains exactly the imported rows, also after appending, with the requested fragment sizes and statistics.",
   ["inputs", "histories"], "all tables, formats, types, fragment sizes and append histories",
   "Import converts every type, null layout and chunk boundary separately.",
   ["omniscidb/ArrowStorage/ArrowStorage.cpp"], [dict(name="ArrowStorage", where="omniscidb/ArrowStorage/ArrowStorage.cpp")],
   "the storage is written against the Apache Arrow C++ library, which is not installed in this sandbox and cannot be fetched: the code cannot be compiled, so it cannot be driven with generated inputs")
na("A02", "Query results convert to columnar tables unchanged",
   "Converting the result of a query to a columnar table and back gives the same rows and types.",
   ["inputs"], "all results of all types and layouts", "Each type and layout has a conversion path of its own.",
   ["omniscidb/QueryEngine/ArrowResultSetConverter.cpp"], [dict(name="ArrowResultSetConverter", where="omniscidb/QueryEngine/ArrowResultSetConverter.cpp")],
   "written against the Apache Arrow C++ library, which is not installed here; the code cannot be compiled")
na("A03", "SQL text is executed as written",
   "Executing a SQL statement gives the result defined by the SQL semantics of its text.",
   ["inputs"], "all supported statements", "The parser and planner are a Java component with an unbounded input space.",
   ["omniscidb/Calcite/CalciteJNI.cpp", "omniscidb/java"], [dict(name="CalciteJNI", where="omniscidb/Calcite/CalciteJNI.cpp")],
   "the SQL front end is Apache Calcite in Java, built with Maven from artefacts that are not in the sandbox; the same plans are checked through the query builder instead (X01 to X17)")
na("A04", "Queries give the same results on GPUs as on the CPU",
   "A query executed on a GPU, or split between devices, returns what it returns on the CPU alone.",
   ["inputs", "schedules"], "all queries, tables, devices and splits", "Code generation differs per device.",
   ["omniscidb/CudaMgr/CudaMgr.cpp", "omniscidb/L0Mgr/L0Mgr.cpp"], [dict(name="CudaMgr / L0Mgr", where="omniscidb/CudaMgr, omniscidb/L0Mgr")],
   "no GPU and no CUDA or Level Zero runtime in the sandbox: nothing can be executed on a device (the split itself is checked by C02)")
