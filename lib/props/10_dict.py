SD = "omniscidb/StringDictionary/StringDictionary.cpp"
prop("S01", "Dictionary ids are a stable, dense, one-to-one encoding of strings",
     "Over any history of single and bulk additions, lookups and table growth, a string dictionary gives equal strings the same id and different strings different ids, never changes or reuses an id, numbers them densely from zero, and decodes every id back to exactly the bytes that were added. "
     "A dictionary nested on a generation of another one sees exactly the first generation-many strings of its base and numbers its own strings after them, and two dictionaries compare equal exactly when they hold the same strings under the same ids. "
     "Adding through a narrow id width either returns ids that fit or reports an overflow, and the dictionary stays consistent afterwards.",
     ["inputs", "histories"],
     "all strings up to the maximum length (hash-colliding ones included), all sequences of single/bulk/narrow-width additions, nesting at every generation, and reads by id, by string, in bulk, by copy and by iteration",
     "The tests add a handful of strings per method; a wrong rehash, a wrong nested offset or a storage-growth mistake shows only for particular sizes, orders and nestings.",
     [SD, "omniscidb/StringDictionary/StringDictionary.h"],
     [dict(name="StringDictionary::getOrAdd", where=SD), dict(name="StringDictionary::getOrAddBulk / getOrAddBulkParallel", where=SD),
      dict(name="StringDictionary::getBulk", where=SD), dict(name="increaseHashTableCapacity*", where=SD),
      dict(name="appendToStorage*", where=SD), dict(name="copyStrings / eachStringSerially", where=SD)],
     [F("h_dict", "history", 9000, 150000), F("h_dict", "equality", 4000, 60000), F("h_dict", "huge", 16, 200, limit=120),
      F("h_dict", "longpayload", 64, 1500), F("h_dict", "alternative", 6000, 100000)],
     "a history counts when at least three strings end up in the dictionaries (the same for alternative; huge/longpayload: always; equality: the compared dictionaries own strings)",
     "stateful model-based property testing with shrinking",
     "Random operation histories over a forest of nested dictionaries, every result compared with an explicit id/string model; large-scale histories for the storage growth paths; the alternative implementation (fast::StringDictionary) against the same model.",
     assumptions=["strings are at most 32767 bytes (longer ones are rejected by an assertion)"])
prop("S02", "Dictionary pattern searches return exactly the matching ids",
     "Searching a string dictionary by LIKE/ILIKE pattern, by comparison operator or by regular expression returns exactly the ids, below the requested generation, of the strings that satisfy the predicate, each once. "
     "This holds whatever was searched or added before and however dictionaries are nested.",
     ["inputs", "histories"],
     "all interleavings of additions and searches, all patterns, operators, generations and nestings",
     "Results are cached and caches are extended incrementally; staleness and generation mistakes need a specific add/search interleaving that unit tests do not sample.",
     [SD, "omniscidb/StringDictionary/DictionaryCache.hpp", "omniscidb/Utils/StringLike.cpp", "omniscidb/Utils/Regexp.cpp"],
     [dict(name="StringDictionary::getLike", where=SD), dict(name="StringDictionary::getCompare / getEquals", where=SD),
      dict(name="StringDictionary::getRegexpLike", where=SD), dict(name="buildSortedCache / mergeSortedCache / invalidateInvertedIndex", where=SD)],
     [F("h_dict", "search", 12000, 120000)],
     "a case counts when at least one search matches some but not all of the visible strings",
     "stateful model-based property testing with shrinking",
     "Interleaved additions and searches compared with a reference matcher evaluated over the model's strings.")
prop("S03", "Dictionary translation maps ids to the ids of the same strings",
     "Translating one dictionary into another maps every source id to the id the destination gives the same string, or to the invalid id when the destination (up to the requested generation) lacks it, and reports how many are missing; union translation adds exactly the missing strings to the destination. "
     "This holds for nested dictionaries on either side and leaves the source unchanged.",
     ["inputs", "histories"],
     "all pairs of dictionaries, nested or not, all source and destination generations, after any history",
     "Joins and unions on strings silently match wrong rows when one entry is translated wrongly; tests translate a few short dictionaries.",
     [SD],
     [dict(name="StringDictionaryTranslator::buildDictionaryTranslationMap", where=SD), dict(name="buildIntersectionTranslationMap", where=SD),
      dict(name="buildUnionTranslationMap", where=SD)],
     [F("h_dict", "translation", 16000, 120000)],
     "a case counts when a non-empty dictionary is translated",
     "stateful model-based property testing with shrinking",
     "Random pairs of dictionaries built by histories; the maps are compared entry by entry with the model.")
prop("S04", "Concurrent dictionary readers and writers see one consistent encoding",
     "When several threads add, look up, search and copy a dictionary at the same time, all of them observe the same id for the same string at all times, an id that was handed out reads back as its string, nothing that was added is lost, and afterwards the ids are dense and unique.",
     ["schedules", "histories"],
     "all interleavings of concurrent additions, bulk additions, lookups, searches and copies on plain and nested dictionaries",
     "A missing lock or an unchecked re-lookup after lock upgrade only shows in particular interleavings; the tests are single-threaded.",
     [SD],
     [dict(name="rw_mutex_ read/upgrade paths in getOrAdd", where=SD), dict(name="copyStrings cache", where=SD),
      dict(name="getLike / getCompare caches", where=SD)],
     [F("h_dict", "concurrent", 3000, 40000, reps=20, concurrent=True)],
     "every case runs at least two threads on one dictionary",
     "randomised concurrent histories checked against an encoding invariant",
     "Generated thread programs run on real threads (schedules are sampled by the OS); the merged observations must be one injective, stable, dense map.")
