prop("R01", "A result set yields exactly the rows its buffers hold, in the order asked",
     "In every memory layout a query can produce (row-wise, columnar, hashed by one or more keys, perfect-hash, lazily fetched, several appended fragments), reading a result set by iteration, by row number or by column yields exactly the groups or rows stored, each value decoded by its type with NULL where it is NULL. "
     "Sorting yields a stable-by-value permutation in the requested order with the requested NULL position, limit and offset keep exactly that slice, and row counts, emptiness and repeated reads agree with what is read.",
     ["inputs", "histories"],
     "all target lists over numeric, date, string, average, quantile and top-k targets, layouts, key widths, fragments, sort orders, limits and offsets",
     "Offsets depend on the product of layout, key width, slot padding, storage number and permutation; tests read a handful of layouts.",
     ["omniscidb/ResultSet/ResultSet.cpp", "omniscidb/ResultSet/ResultSetIteration.cpp", "omniscidb/ResultSet/QueryMemoryDescriptor.cpp", "omniscidb/ResultSet/ColSlotContext.cpp", "omniscidb/ResultSet/ResultSetStorage.cpp"],
     [dict(name="ResultSet::getRowAt / getNextRow / rowCount / sort / keepFirstN / dropFirstN / finalizeAggregates", where="omniscidb/ResultSet/ResultSet.cpp"),
      dict(name="ResultSet::getTargetValueFromBufferRowwise / Colwise / makeTargetValue / getStorage", where="omniscidb/ResultSet/ResultSetIteration.cpp"),
      dict(name="QueryMemoryDescriptor::getColOffInBytes / getRowSize / getBufferSizeBytes", where="omniscidb/ResultSet/QueryMemoryDescriptor.cpp")],
     [F("h_rs", "rows", 120000, 3000000)],
     "there are two or more rows and the result is sorted, limited, lazily fetched or made of several storages",
     "model-based testing", "Rows are generated first and laid into buffers by an independent writer for each layout; what the result set reads back is compared with the rows, sorted and sliced by the model.")
prop("R02", "Distinct sets, top-k heaps and sketches count what was put into them",
     "For every sequence of values, the number of distinct values in a bitmap or hash set, and in any union of such sets, is the number of different values put in; top-n buffers and top-k heaps keep exactly the first values of the order asked for, and validity bitmaps mark exactly the non-NULL values. "
     "An approximate distinct count stays within its stated error in a sketch just large enough for it, is unchanged by duplicates and order, and a union of sketches equals the sketch of the union.",
     ["inputs"],
     "all value sequences, bitmap widths, sub-bitmap counts, register counts, orders and limits",
     "Off-by-one errors at byte, word and sub-bitmap borders appear only for particular sizes and values.",
     ["omniscidb/ResultSet/CountDistinct.h", "omniscidb/ResultSet/HyperLogLog.h", "omniscidb/ResultSet/BitmapGenerators.cpp", "omniscidb/ResultSet/StreamingTopN.cpp"],
     [dict(name="count_distinct_set_size / count_distinct_set_union", where="omniscidb/ResultSet/CountDistinct.h"),
      dict(name="hll_size / hll_unify", where="omniscidb/ResultSet/HyperLogLog.h"),
      dict(name="gen_null_bitmap_*", where="omniscidb/ResultSet/BitmapGenerators.cpp"),
      dict(name="streaming_top_n::get_rows_copy_from_heaps", where="omniscidb/ResultSet/StreamingTopN.cpp")],
     [F("h_rs", "sets", 700000, 6000000), F("h_rs", "sketch", 40000, 800000)],
     "the set, heap or bitmap holds both present and absent elements, or the sketch has more than a few values",
     "model-based and statistical testing", "Sets, heaps, bitmaps and sketches are filled with generated values and compared with std::set, sorted vectors and the true cardinality (averaged over independent hashes).")
prop("R03", "Memory handed out for results is distinct, stable and owned",
     "For every history of allocations by any number of threads, blocks of result memory never overlap, are as large and as zeroed as asked for, keep their content until the owner is gone, and strings and arrays added are returned unchanged for as long as the owner lives. "
     "The dictionary views and translation tables it keeps are the same object for the same request, and map each id to the id of the same text.",
     ["histories", "schedules"],
     "all allocation sequences, sizes and thread counts",
     "Overlap needs concurrent allocations at arena borders.",
     ["omniscidb/ResultSet/RowSetMemoryOwner.h", "omniscidb/DataMgr/Allocators/ArenaAllocator.h"],
     [dict(name="RowSetMemoryOwner::allocate / allocateCountDistinctBuffer / addString / addArray", where="omniscidb/ResultSet/RowSetMemoryOwner.h")],
     [F("h_rs", "owner", 40000, 400000, concurrent=True), F("h_rs", "dict_views", 3000, 30000)],
     "several threads allocated, or a translated dictionary is not empty",
     "randomised concurrency testing against invariants", "Generated programs of several threads allocate, fill and re-read blocks of one owner; overlaps and changed contents are looked for. Dictionary views and translation tables asked of an owner are compared with the strings of the dictionaries.")
