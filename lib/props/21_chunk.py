prop("N01", "A table's chunks hold the provider's values, routed to the right provider",
     "For every set of registered data providers, every table and column type, and every history of requests, releases, deletions and clears, a chunk obtained from the data manager belongs to the provider of the table's schema and every way of reading it (by position, in sequence, in strides, after a reset, with narrow dates and times widened on request) gives exactly the rows the provider supplied, nulls included, and reports the end exactly after the last row. "
     "A chunk in use stays in memory; deleting or clearing removes the unused ones and tells the right provider; requests run out of memory only while other chunks are in use; when the last user lets go nothing stays pinned. Metadata, dictionary and zero-copy lookups are answered by the provider of the schema.",
     ["inputs", "histories"],
     "all scalar, string and array column types with nulls in any position, fragment sizes, strides and start rows, one to three providers, pools of one slab down to eight pages",
     "The suite has no test of chunks, chunk iterators or the data manager; null encodings, offsets after null arrays and the two-buffer chunks depend on the data and on the history.",
     ["omniscidb/DataMgr/Chunk/Chunk.cpp", "omniscidb/Utils/ChunkIter.cpp", "omniscidb/DataMgr/DataMgr.cpp", "omniscidb/DataMgr/PersistentStorageMgr/PersistentStorageMgr.cpp"],
     [dict(name="Chunk::getChunkBuffer / isChunkOnDevice / begin_iterator", where="omniscidb/DataMgr/Chunk/Chunk.cpp"),
      dict(name="ChunkIter_get_next / get_nth / get_nth_varlen / get_nth_varlen_notnull", where="omniscidb/Utils/ChunkIter.cpp"),
      dict(name="DataMgr::getChunkBuffer / deleteChunksWithPrefix / clearMemory / alloc / free / copy", where="omniscidb/DataMgr/DataMgr.cpp"),
      dict(name="PersistentStorageMgr::getStorageMgrForTableKey / registerDataProvider", where="omniscidb/DataMgr/PersistentStorageMgr/PersistentStorageMgr.cpp")],
     [F("h_chunk", "chunks", 300000, 6000000)],
     "at least two chunks were read",
     "stateful model-based testing", "Generated tables laid out in the storage format are served by stand-in providers; chunks are obtained, read in every way, held, dropped, deleted and cleared, against the generated rows.",
     assumptions=["an empty string counts as null, as the format defines", "host memory only; there is no GPU here"])
