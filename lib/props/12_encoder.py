prop("E01", "Column chunk statistics are exact bounds of the data they describe",
     "After any history of updates, merges, copies, resets and metadata write/read round trips, the minimum and maximum a column chunk reports are exactly those of the non-NULL values it was given, in the column's unit, and its NULL flag is set exactly when a NULL was seen. "
     "Statistics computed in parallel over large chunks, or lazily on first use, are the same as those of a sequential scan, and merged statistics of several chunks are those of the concatenated data. "
     "A value that does not fit a narrow date column is rejected and leaves the statistics unchanged, and the number of strings or arrays said to fit a byte limit is the largest that does.",
     ["inputs", "histories"],
     "all column types and widths (integers, booleans, decimals, floats, dictionary ids, dates, times, timestamps, intervals, fixed and variable arrays, strings), all values including extremes and NULLs, all update histories and chunk sizes",
     "Fragment skipping and group-by layouts trust these bounds, so one wrong bound loses rows; a fault needs a given type, a given update path and an extreme value or a split of a large chunk.",
     ["omniscidb/DataMgr/NoneEncoder.h", "omniscidb/DataMgr/FixedLengthEncoder.h", "omniscidb/DataMgr/DateDaysEncoder.h", "omniscidb/DataMgr/ArrayNoneEncoder.h",
      "omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h", "omniscidb/DataMgr/StringNoneEncoder.cpp", "omniscidb/DataMgr/ChunkMetadata.h", "omniscidb/DataMgr/Encoder.h"],
     [dict(name="Encoder::updateStats / updateStatsEncoded / reduceStats", where="omniscidb/DataMgr/NoneEncoder.h"), dict(name="fillChunkStats / mergeStats / ChunkMetadata", where="omniscidb/DataMgr/ChunkMetadata.h"),
      dict(name="DateDaysOverflowValidator", where="omniscidb/DataMgr/Encoder.h")],
     [F("h_encoder", "scalar", 400000, 8000000), F("h_encoder", "date_overflow", 1000000, 10000000), F("h_encoder", "array", 800000, 10000000),
      F("h_encoder", "flat_array", 100000, 2000000), F("h_encoder", "strings", 300000, 3000000), F("h_encoder", "merge", 1000000, 10000000)],
     "at least one non-NULL value was given to the encoder (date_overflow: a value was rejected; strings: a non-empty update)",
     "model-based property testing of update histories",
     "Histories of statistics operations over generated columns of every type, decided by a running model of the minimum, maximum and NULL flag.",
     assumptions=["floating point columns hold no NaN", "the bounds of a chunk without non-NULL values are unspecified"])
