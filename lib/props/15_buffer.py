prop("B01", "The buffer pool keeps pinned data intact, evicts the oldest, never overlaps",
     "In every history of requests, pins, writes, growth, deletions and failures, a chunk obtained from a memory pool has the bytes of the storage (or those last written), its memory overlaps no other chunk's, and a pinned chunk stays in place with its content; unpinned chunks leave the pool only when the space is needed or they are deleted, the least recently used first. "
     "A request fails with an out-of-memory error only when no slab can be added and no contiguous run of unpinned pages suffices; a failed request leaves the pool and its pins as before, and the pool's accounting (pages, chunks, in-use size, pool limit) is exact.",
     ["histories", "fault_sequences"],
     "all histories over host, tiered and device pools and two-level chains, page and slab sizes, chunk sizes around them, injected slab and fetch failures",
     "There are no tests of the pool in the suite; which segment is split, merged, extended or evicted depends on the whole history.",
     ["omniscidb/DataMgr/BufferMgr/BufferMgr.cpp", "omniscidb/DataMgr/BufferMgr/Buffer.cpp", "omniscidb/DataMgr/BufferMgr/CpuBufferMgr/CpuBufferMgr.cpp", "omniscidb/DataMgr/BufferMgr/GpuBufferMgr/GpuBufferMgr.cpp"],
     [dict(name="BufferMgr::getBuffer / findFreeBuffer / evict / reserveBuffer / removeSegment / deleteBuffersWithPrefix / clearSlabs", where="omniscidb/DataMgr/BufferMgr/BufferMgr.cpp"),
      dict(name="Buffer::write / append / reserve", where="omniscidb/DataMgr/BufferMgr/Buffer.cpp"),
      dict(name="TieredCpuBufferMgr::addSlab", where="omniscidb/DataMgr/BufferMgr/CpuBufferMgr/TieredCpuBufferMgr.cpp")],
     [F("h_buffer", "pool", 350000, 1500000)],
     "something was evicted or a request ran out of memory",
     "stateful model-based testing with injected faults", "Histories of pool operations against an explicit model of chunks, pins, contents and segments; every failure and every eviction is checked for being necessary.",
     assumptions=["device memory is simulated by host memory", "the parent pool of a chain does not run out of memory (that ends the process by design)"])
prop("B02", "The buffer pool serves concurrent requests with correct, stable chunks",
     "When any number of threads request, hold, release, allocate and free chunks of one pool concurrently, every request returns the right bytes or an out-of-memory error, nothing a thread has pinned or allocated changes under it, no request is lost or hangs, and when all are done no pin remains and every chunk can be had again.",
     ["schedules", "inputs"],
     "all thread counts, operation mixes, chunk and pool sizes (down to pools with heavy eviction), host pools and device pools over host pools",
     "Lock-order and missing-lock defects need particular interleavings of eviction, insertion and waiting for a chunk being fetched.",
     ["omniscidb/DataMgr/BufferMgr/BufferMgr.cpp"],
     [dict(name="BufferMgr::getBuffer / in_progress_buffer_cvs_ / evict / createBuffer", where="omniscidb/DataMgr/BufferMgr/BufferMgr.cpp")],
     [F("h_buffer", "threads", 20000, 300000, concurrent=True)],
     "more than four chunk requests were served",
     "randomised concurrency testing against invariants", "Generated programs of 2 to 6 threads run on a small pool; contents are verified while pinned and the pool's invariants afterwards.")
