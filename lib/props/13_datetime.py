prop("T01", "Date and time text is read and written as the instant it denotes",
     "Every date, time or timestamp string in an accepted format, with optional fraction, AM/PM marker and zone offset, is read as exactly the instant it denotes in the proleptic Gregorian calendar at the requested precision, and a plain number is read as that epoch value. "
     "Text with an impossible month, day, hour, minute or second, or in no accepted format, is rejected rather than misread, and characters outside the given text have no influence. "
     "Rendering any timestamp and reading the text back returns the same value.",
     ["inputs"], "all accepted formats, all calendar days (leap days, far past and future), all precisions and zone offsets, malformed texts",
     "The formats are tried one after the other with shared state, so a fault needs a particular format, field value, precision and suffix together; tests sample a few strings.",
     ["omniscidb/Shared/DateTimeParser.cpp", "omniscidb/Shared/DateTimeParser.h", "omniscidb/Utils/ExtractStringFromTime.cpp"],
     [dict(name="dateTimeParseOptional / DateTimeParser", where="omniscidb/Shared/DateTimeParser.cpp"), dict(name="getStrTStamp", where="omniscidb/Utils/ExtractStringFromTime.cpp")],
     [F("h_datetime", "parse", 15000000, 200000000), F("h_datetime", "reject", 3000000, 50000000), F("h_datetime", "render", 5000000, 80000000)],
     "parse: every case; reject: the text is not empty; render: the year is outside 1970-2036 or the precision is below a second",
     "differential property testing against a table-driven calendar, plus round trips",
     "Generated texts built from known fields in every accepted format are compared with a table-driven calendar; rendered values are compared with the same calendar and read back.",
     assumptions=["trailing text after a complete date or timestamp is tolerated by design and not checked", "dates that overflow their month (February 30) are not generated"])

prop("T02", "Date fields and truncations agree with the Gregorian calendar",
     "For every instant, extracting any field (year, quarter, month, day, week under each week start, day of week and year, hour, minute, second, sub-second, epoch) gives the value of the proleptic Gregorian calendar. "
     "Truncation to any unit gives the latest start of that unit not after the instant, for seconds and for high-precision timestamps, and NULL gives NULL.",
     ["inputs"], "all instants from the distant past to the distant future, every field and unit, every precision",
     "There are separate fast and general paths with hand-derived constants; errors sit at single seconds next to month, leap-year, century or fast-path boundaries.",
     ["omniscidb/Utils/ExtractFromTime.cpp", "omniscidb/QueryEngine/DateTruncate.cpp", "omniscidb/Shared/DateConverters.h"],
     [dict(name="ExtractFromTime", where="omniscidb/Utils/ExtractFromTime.cpp"), dict(name="DateTruncate / datetrunc_*", where="omniscidb/QueryEngine/DateTruncate.cpp")],
     [F("h_datetime", "extract", 20000000, 400000000), F("h_datetime", "truncate", 10000000, 200000000)],
     "every case (one instant checked for all fields)",
     "differential property testing against a table-driven calendar",
     "Instants biased to calendar and fast-path boundaries; every field and unit compared with a table-driven calendar.",
     assumptions=["instants within 2^55 seconds of the epoch"])

prop("T03", "Date addition and difference agree with calendar arithmetic",
     "Adding any number of any unit to an instant gives the calendar result, with the day clamped to the length of the target month and the sub-second part kept. "
     "The difference between two instants, at equal or different precisions, is the number of whole units between them, it changes sign when the operands are swapped, and NULL operands give NULL.",
     ["inputs"], "all pairs of instants, all amounts, all units and precisions",
     "Month arithmetic is exact only if leap years, month lengths, borrowings and sub-second parts are all right at once; the failing pairs lie next to boundaries.",
     ["omniscidb/QueryEngine/DateAdd.cpp", "omniscidb/QueryEngine/DateTruncate.cpp"],
     [dict(name="DateAdd / DateAddHighPrecision", where="omniscidb/QueryEngine/DateAdd.cpp"), dict(name="DateDiff / DateDiffHighPrecision", where="omniscidb/QueryEngine/DateTruncate.cpp")],
     [F("h_datetime", "add", 16000000, 400000000), F("h_datetime", "diff", 16000000, 400000000)],
     "add: the amount is not zero; diff: the instants differ",
     "differential property testing against a table-driven calendar",
     "Pairs of instants and amounts biased to whole units plus or minus a little, compared with table-driven calendar arithmetic in wide integers.",
     assumptions=["results fit 64 bits"])
