prop("P01", "Key/value sorting orders keys and keeps every value with its key",
     "Sorting parallel key and value sequences leaves the keys ordered by the given comparison and the pairs a permutation of the input: no pair is lost, repeated or torn apart, whatever the length, the key type, the comparison or the input order.",
     ["inputs", "schedules"],
     "all lengths below and above the sequential/parallel switch, all key distributions (random, constant, few distinct, sorted, reversed, organ pipe, nearly sorted, extremes), ascending, descending and coarse comparisons, integer and floating point keys",
     "The tests sort a few random vectors; a wrong partition step or grain boundary shows for particular lengths and ties only.",
     ["omniscidb/Shared/parallel_sort.h", "omniscidb/Shared/DoubleSort.h"],
     [dict(name="parallel_sort_by_key / quick_sort_range::split_range / insertion_sort_by_key", where="omniscidb/Shared/parallel_sort.h"),
      dict(name="double_sort::Iterator / Value", where="omniscidb/Shared/DoubleSort.h")],
     [F("h_util", "sort", 900000, 8000000)],
     "the sequence is long enough to be sorted in parallel (500 elements)",
     "property-based testing of the sorting contract", "Generated sequences in shapes sorting algorithms are sensitive to; the contract (ordered, permutation, pairs intact) is checked element by element.")
prop("Q01", "Quantile aggregates are exact, approximate ones within their error bound",
     "The exact quantile of any multiset of values, collected in any number of parts and merged in any order, is the value the chosen interpolation (lower, higher, nearest, midpoint, linear) defines on the sorted multiset, and NULL for an empty one; looking at an intermediate result does not disturb it. "
     "The approximate quantile conserves the number of values, lies between their minimum and maximum, equals them at 0 and 1, is exact while no compression is needed, and otherwise stays within the rank error the number of centroids allows, also after merging digests.",
     ["inputs", "histories"],
     "all value and result types, all histories of additions, merges, intermediate reads, all quantile parameters and interpolations, sizes around storage chunk boundaries, values up to the extremes of the type",
     "The tests use a few parameters on small or uniform data; storage chunk boundaries, merges and extreme values are separate code paths.",
     ["omniscidb/Shared/quantile.h", "omniscidb/Shared/approx_quantile.h"],
     [dict(name="ChunkedArray / Quantile::finalize / merge", where="omniscidb/Shared/quantile.h"),
      dict(name="TDigest::add / mergeCentroids / quantile", where="omniscidb/Shared/approx_quantile.h")],
     [F("h_util", "quantile", 60000, 1500000), F("h_util", "tdigest", 400000, 8000000)],
     "at least two values were collected",
     "model-based property testing of collection histories", "Histories of additions and merges against a sorted-multiset model; the digest against exact ranks with a stated tolerance.",
     assumptions=["floating point values are not NaN", "100 centroids or more in a digest (the default is 300)", "rank tolerance of a compressed digest: 3 + (8 + 4*merges) * n / centroids"])
prop("U01", "Work partitioning and text/number helpers meet their contracts on all inputs",
     "Splitting a range of any integer type among workers covers it exactly once in order with non-empty parts whose sizes differ by at most one, larger ones first. "
     "Base64 encoding and decoding (also the URI form) are inverse, splitting and joining, stripping, quoting, case conversion, literal detection and newline removal outside quotes follow their definitions, and floored division, power-of-two and power-of-ten helpers agree with exact arithmetic.",
     ["inputs"],
     "all integer types and bounds including extremes, all worker counts, all byte strings, delimiters and quote characters",
     "The tests check examples; the contracts have to hold at the limits of every type and for every byte string.",
     ["omniscidb/Shared/Intervals.h", "omniscidb/Shared/StringTransform.cpp", "omniscidb/Shared/base64.cpp", "omniscidb/Shared/misc.h", "omniscidb/Shared/MathUtils.h"],
     [dict(name="makeIntervals", where="omniscidb/Shared/Intervals.h"), dict(name="split / strip / find_string_literals / remove_unquoted_newlines...", where="omniscidb/Shared/StringTransform.cpp"),
      dict(name="encode_base64 / decode_base64 / decode_base64_uri", where="omniscidb/Shared/base64.h"), dict(name="divUMod / unsignedMod / power10", where="omniscidb/Shared/misc.h"),
      dict(name="roundUpToPow2 / getExpOfTwo", where="omniscidb/Shared/MathUtils.h")],
     [F("h_util", "intervals", 4000000, 20000000), F("h_util", "text", 6000000, 30000000), F("h_util", "number", 6000000, 30000000)],
     "intervals: more than one part; text: the operation changes or splits the text; number: the dividend is negative or not below the divisor",
     "property-based testing against reference implementations", "Generated arguments against independent reference implementations in wide arithmetic.")
