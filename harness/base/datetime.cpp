// Dates and times: parsing, rendering, field extraction, truncation, addition and difference.
#include "common/pbt.h"
#include "common/ref_calendar.h"

#include "IR/DateTimeEnums.h"
#include "QueryEngine/DateTruncate.h"
#include "Shared/DateConverters.h"
#include "Shared/DateTimeParser.h"
#include "Shared/StringTransform.h"
#include "Utils/ExtractFromTime.h"

namespace ir = hdk::ir;
using ir::DateAddField;
using ir::DateExtractField;
using ir::DateTruncField;
using ir::TimeUnit;

extern "C" {
int64_t DateAdd(DateAddField, const int64_t, const int64_t);
int64_t DateAddHighPrecision(DateAddField, const int64_t, const int64_t, const int32_t);
int64_t DateAddNullable(const DateAddField, const int64_t, const int64_t, const int64_t);
int64_t DateAddHighPrecisionNullable(const DateAddField, const int64_t, const int64_t, const int32_t, const int64_t);
int64_t DateDiff(const DateTruncField, const int64_t, const int64_t);
int64_t DateDiffHighPrecision(const DateTruncField, const int64_t, const int64_t, const int32_t, const int32_t);
int64_t DateDiffNullable(const DateTruncField, const int64_t, const int64_t, const int64_t);
int64_t DateDiffHighPrecisionNullable(const DateTruncField, const int64_t, const int64_t, const int32_t, const int32_t, const int64_t);
int64_t DateTruncateHighPrecisionToDate(const int64_t, const int64_t);
int64_t DateTruncateHighPrecisionToDateNullable(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeUpscale(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeDownscale(const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeUpscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
int64_t TimestampToTimeDownscaleNullable(const int64_t, const int64_t, const int64_t, const int64_t, const int64_t);
int64_t datetrunc_minute(int64_t);
int64_t datetrunc_hour(int64_t);
int64_t datetrunc_quarterday(int64_t);
int64_t datetrunc_day(int64_t);
int64_t datetrunc_week_monday(int64_t);
int64_t datetrunc_week_sunday(int64_t);
int64_t datetrunc_week_saturday(int64_t);
int64_t datetrunc_month(int64_t);
int64_t datetrunc_quarter(int64_t);
int64_t datetrunc_year(int64_t);
int64_t datetrunc_decade(int64_t);
int64_t datetrunc_century(int64_t);
int64_t datetrunc_millennium(int64_t);
}

namespace {

// A point in time in seconds: around today, calendar boundaries, the limits of the fast paths, and far away.
int64_t genSec(pbt::Src& s, bool far = true) {
  switch (s.weighted({3, 5, 2, 2, 1})) {
    case 0:
      return s.range(0, 2086000000);
    case 1: {  // around a calendar boundary
      int64_t y;
      switch (s.draw(3)) {
        case 0:
          y = s.range(1970, 2040);
          break;
        case 1:
          y = s.range(1600, 2500);
          break;
        case 2:
          y = s.range(-3000, 6000);
          break;
        default:
          y = s.pick<int64_t>({1900, 2000, 2100, 2400, 1600, 2001, 1999, 3001, 0, 1, -1, 1970, 2036, 1969, 2035});
      }
      int m = s.draw(2) == 0 ? s.pick({1, 2, 3, 12}) : static_cast<int>(s.range(1, 12));
      int d;
      switch (s.draw(2)) {
        case 0:
          d = 1;
          break;
        case 1:
          d = refcal::mdays(y, m);
          break;
        default:
          d = static_cast<int>(s.range(1, refcal::mdays(y, m)));
      }
      int64_t day = refcal::days(y, m, d);
      return day * 86400 + (s.draw(1) ? s.pick<int64_t>({0, -1, 1, 86399, 3599, 3600, 21600, 43200}) : s.range(0, 86399));
    }
    case 2:
      return s.pick<int64_t>({0, 2085978495, 2147483647, 4294967295, -2208988800, -2203891200, 951868800}) + s.range(-3, 3);
    case 3:
      return -s.range(0, 2208988800ll + 100000);
    default:
      return far ? s.around(-(int64_t(1) << 55), int64_t(1) << 55) : s.around(-60000000000ll, 200000000000ll);
  }
}

const int64_t kScale[4] = {1, 1000, 1000000, 1000000000};
TimeUnit kUnits[4] = {TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};

int64_t refTrunc(DateTruncField f, int64_t t) {
  using refcal::days;
  int64_t day = refcal::fdiv(t, 86400);
  auto c = refcal::civil(day);
  switch (f) {
    case DateTruncField::kMinute:
      return refcal::fdiv(t, 60) * 60;
    case DateTruncField::kHour:
      return refcal::fdiv(t, 3600) * 3600;
    case DateTruncField::kQuarterDay:
      return refcal::fdiv(t, 21600) * 21600;
    case DateTruncField::kDay:
      return day * 86400;
    case DateTruncField::kWeek:
      return (day - refcal::dow(day)) * 86400;
    case DateTruncField::kWeekSunday:
      return (day - (refcal::dow(day) + 1) % 7) * 86400;
    case DateTruncField::kWeekSaturday:
      return (day - (refcal::dow(day) + 2) % 7) * 86400;
    case DateTruncField::kMonth:
      return days(c.y, c.m, 1) * 86400;
    case DateTruncField::kQuarter:
      return days(c.y, (c.m - 1) / 3 * 3 + 1, 1) * 86400;
    case DateTruncField::kYear:
      return days(c.y, 1, 1) * 86400;
    case DateTruncField::kDecade:
      return days(refcal::fdiv(c.y, 10) * 10, 1, 1) * 86400;
    case DateTruncField::kCentury:
      return days(refcal::fdiv(c.y - 1, 100) * 100 + 1, 1, 1) * 86400;
    case DateTruncField::kMillennium:
      return days(refcal::fdiv(c.y - 1, 1000) * 1000 + 1, 1, 1) * 86400;
    default:
      return t;
  }
}

std::string pad(int64_t v, int w) {
  std::string s = std::to_string(v);
  return s.size() < static_cast<size_t>(w) ? std::string(w - s.size(), '0') + s : s;
}
std::string num(pbt::Src& s, int64_t v) {
  return s.draw(3) ? pad(v, 2) : std::to_string(v);
}
std::string mixCase(pbt::Src& s, std::string v) {
  switch (s.draw(2)) {
    case 0:
      break;
    case 1:
      for (auto& ch : v) {
        ch = std::toupper(ch);
      }
      break;
    default:
      for (auto& ch : v) {
        ch = s.draw(1) ? std::toupper(ch) : std::tolower(ch);
      }
  }
  return v;
}
std::string sp(pbt::Src& s) {
  return s.chance(1, 6) ? std::string(1 + s.draw(1), ' ') : "";
}

const char* kMonths[12] = {"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december"};

struct DateS {
  std::string text;
  int64_t day;
};
// A date in one of the accepted formats.
DateS genDate(pbt::Src& s, bool far) {
  int64_t y = far && s.chance(1, 5) ? s.range(-5000, 20000) : s.range(1900, 2100);
  int m = static_cast<int>(s.range(1, 12));
  int d = s.chance(1, 3) ? refcal::mdays(y, m) : static_cast<int>(s.range(1, refcal::mdays(y, m)));
  DateS r;
  switch (s.draw(6)) {
    case 0:
    case 1:
      r.text = (y >= 0 ? pad(y, 4) : std::to_string(y)) + "-" + num(s, m) + "-" + num(s, d);
      break;
    case 2: {
      int64_t yy = s.range(0, 99);
      y = yy < 69 ? 2000 + yy : 1900 + yy;
      d = std::min(d, refcal::mdays(y, m));
      r.text = num(s, m) + "/" + num(s, d) + "/" + num(s, yy);
      break;
    }
    case 3:
      if (y < 100) {
        y = 1000 + (y < 0 ? -y : y) % 1000;
        d = std::min(d, refcal::mdays(y, m));
      }
      r.text = num(s, m) + "/" + num(s, d) + "/" + pad(y, 4);
      break;
    case 4:
      if (y < 100) {
        y = 1000 + (y < 0 ? -y : y) % 1000;
        d = std::min(d, refcal::mdays(y, m));
      }
      r.text = pad(y, 4) + "/" + num(s, m) + "/" + num(s, d);
      break;
    default: {
      std::string mon = kMonths[m - 1];
      if (s.draw(1)) {
        mon = mon.substr(0, 3);
      }
      mon = mixCase(s, mon);
      if (s.draw(1)) {
        int64_t yy = s.range(0, 99);
        y = yy < 69 ? 2000 + yy : 1900 + yy;
        d = std::min(d, refcal::mdays(y, m));
        r.text = num(s, d) + "-" + mon + "-" + num(s, yy);
      } else {
        r.text = num(s, d) + "/" + mon + "/" + (y >= 0 ? pad(y, 4) : std::to_string(y));
      }
    }
  }
  r.day = refcal::days(y, m, d);
  return r;
}

struct TimeS {
  std::string text;
  int64_t sec;
  int64_t nano = 0;
};
TimeS genTime(pbt::Src& s) {
  int H = static_cast<int>(s.draw(23)), M = static_cast<int>(s.draw(59)), S = static_cast<int>(s.draw(59));
  TimeS r;
  std::string sec = pad(S, 2);
  auto frac = [&] {
    if (s.draw(1)) {
      int digits = 1 + static_cast<int>(s.draw(8));
      std::string f;
      for (int i = 0; i < digits; ++i) {
        f += static_cast<char>('0' + s.draw(9));
      }
      sec += "." + f;
      r.nano = std::stoll(f + std::string(9 - digits, '0'));
    }
  };
  auto ampm = [&] {
    bool pm = H >= 12;
    std::string t = pm ? s.pick<std::string>({"pm", "p.m."}) : s.pick<std::string>({"am", "a.m."});
    return sp(s) + mixCase(s, t);
  };
  int h12 = H % 12 == 0 ? 12 : H % 12;
  switch (s.draw(6)) {
    case 0:
      frac();
      r.text = num(s, H) + ":" + num(s, M) + ":" + sec;
      break;
    case 1:
      frac();
      r.text = num(s, h12) + ":" + num(s, M) + ":" + sec + ampm();
      break;
    case 2:
      S = 0;
      r.text = num(s, H) + ":" + num(s, M);
      break;
    case 3:
      S = 0;
      r.text = num(s, h12) + ":" + num(s, M) + ampm();
      break;
    case 4:
      frac();
      r.text = pad(H, 2) + pad(M, 2) + sec;
      break;
    case 5:
      frac();
      r.text = num(s, h12) + sp(s) + "." + sp(s) + num(s, M) + sp(s) + "." + sp(s) + sec + ampm();
      break;
    default:
      M = S = 0;
      r.text = num(s, h12) + ampm();
  }
  r.sec = H * 3600 + M * 60 + S;
  return r;
}
std::string genTz(pbt::Src& s, int64_t& off) {
  off = 0;
  if (!s.chance(1, 3)) {
    return "";
  }
  int h = static_cast<int>(s.draw(14)), m = static_cast<int>(s.draw(59));
  bool neg = s.draw(1);
  off = (neg ? -1 : 1) * (h * 3600 + m * 60);
  return sp(s) + (neg ? "-" : "+") + pad(h, 2) + (s.draw(1) ? ":" : "") + pad(m, 2);
}

template <ir::Type::Id ID>
std::optional<int64_t> parse(const std::string& text, TimeUnit u, const char* what) {
  // The text is handed over as a view into a larger buffer: what follows must not matter.
  std::string big = text + "7 59:59 pm";
  auto r = dateTimeParseOptional<ID>(std::string_view(big.data(), text.size()), u);
  auto r2 = dateTimeParseOptional<ID>(text, u);
  REQUIRE(r == r2, what << " '" << text << "' parsed differently when other characters follow the view");
  int64_t v = 0;
  bool thrown = false;
  try {
    v = dateTimeParse<ID>(std::string_view(text), u);
  } catch (const std::runtime_error&) {
    thrown = true;
  }
  REQUIRE(thrown == !r && (thrown || v == *r), what << " '" << text << "' throwing and optional forms disagree");
  return r;
}

}  // namespace

FACET(parse) {
  auto& s = c.s;
  size_t ui = s.draw(3);
  TimeUnit u = kUnits[ui];
  int64_t sc = kScale[ui];
  std::string text;
  std::optional<int64_t> got;
  int64_t want;
  bool far = ui < 2;
  switch (s.draw(3)) {
    case 0: {
      auto d = genDate(s, far);
      int64_t off;
      text = d.text + genTz(s, off);
      got = parse<ir::Type::kDate>(text, u, "date");
      want = (d.day * 86400 - off) * sc;
      break;
    }
    case 1: {
      auto t = genTime(s);
      int64_t off;
      text = (s.chance(1, 8) ? "T" : "") + t.text + genTz(s, off);
      got = parse<ir::Type::kTime>(text, u, "time");
      want = (t.sec - off) * sc + t.nano / (1000000000 / sc);
      break;
    }
    case 2: {
      auto d = genDate(s, far);
      auto t = genTime(s);
      int64_t off;
      std::string sep = s.pick<std::string>({" ", "T", ":", "  "});
      text = d.text + sep + t.text + genTz(s, off);
      got = parse<ir::Type::kTimestamp>(text, u, "timestamp");
      want = (d.day * 86400 + t.sec - off) * sc + t.nano / (1000000000 / sc);
      break;
    }
    default: {  // a plain number is the epoch value itself
      want = s.boundary(INT64_MIN, INT64_MAX);
      text = std::to_string(want);
      if (s.chance(1, 3)) {
        text += ".";
        for (auto k = s.draw(3); k; --k) {
          text += static_cast<char>('0' + s.draw(9));
        }
      }
      got = s.draw(1) ? parse<ir::Type::kTimestamp>(text, u, "timestamp") : parse<ir::Type::kDate>(text, u, "date");
    }
  }
  c.describe([&](auto& o) { o << "'" << text << "' unit 1/" << sc << " -> " << want; });
  REQUIRE(got, "'" << text << "' rejected");
  REQUIRE(*got == want, "'" << text << "' with 1/" << sc << " s units parsed as " << *got << " instead of " << want);
  c.nontrivial();
}

// Text with an impossible field or with no recognisable format is rejected, never misread.
FACET(reject) {
  auto& s = c.s;
  TimeUnit u = kUnits[s.draw(3)];
  std::string text;
  int kind = s.draw(2);
  auto bad_date = [&] {
    int64_t y = s.range(1900, 2100);
    int m = static_cast<int>(s.range(1, 12)), d = static_cast<int>(s.range(1, 28));
    if (s.draw(1)) {
      m = s.pick({0, 13, 14, 99, 20});
    } else {
      d = s.pick({0, 32, 33, 99, 40});
    }
    // no other format fits the same text
    return pad(y, 4) + (s.draw(1) ? "-" + pad(m, 2) + "-" + pad(d, 2) : "/" + pad(m, 2) + "/" + pad(d, 2));
  };
  auto bad_time = [&] {
    int H = static_cast<int>(s.draw(23)), M = static_cast<int>(s.draw(59)), S = static_cast<int>(s.draw(59));
    switch (s.draw(3)) {
      case 0:
        H = s.pick({24, 25, 60, 99});
        break;
      case 1:
        M = s.pick({60, 61, 75, 99});
        break;
      case 2:
        S = s.pick({62, 63, 75, 99});
        break;
      default:
        return pad(H, 2) + ":" + pad(M, 2) + ":" + pad(S, 2) + s.pick<std::string>({".", "x", " 1", " +1", ":00", "-"});
    }
    return pad(H, 2) + ":" + pad(M, 2) + ":" + pad(S, 2);
  };
  std::optional<int64_t> got;
  if (s.chance(1, 3)) {
    static const std::string alpha = "abxyz TZ:/-.,+#%";
    for (auto k = s.draw(12); k; --k) {
      text += alpha[s.draw(alpha.size() - 1)];
    }
    got = kind == 0 ? parse<ir::Type::kDate>(text, u, "date") : kind == 1 ? parse<ir::Type::kTime>(text, u, "time") : parse<ir::Type::kTimestamp>(text, u, "timestamp");
  } else if (kind == 0) {
    text = bad_date();
    got = parse<ir::Type::kDate>(text, u, "date");
  } else if (kind == 1) {
    text = bad_time();
    got = parse<ir::Type::kTime>(text, u, "time");
  } else {
    text = bad_date() + " 12:00:00";
    got = parse<ir::Type::kTimestamp>(text, u, "timestamp");
  }
  c.describe([&](auto& o) { o << "'" << text << "'"; });
  REQUIRE(!got, "'" << text << "' accepted as " << *got);
  c.nontrivial(!text.empty());
}

// Rendering a value and parsing the text gives the value back.
FACET(render) {
  auto& s = c.s;
  size_t ui = s.draw(3);
  int64_t sc = kScale[ui];
  int64_t sec = genSec(s, false);
  if (ui == 3) {
    sec %= 9000000000ll;
  }
  int64_t v = sec * sc + (sc > 1 ? s.range(0, sc - 1) : 0);
  std::string text = getStrTStamp(v, kUnits[ui]);
  int64_t day = refcal::fdiv(sec, 86400), sod = sec - day * 86400;
  auto cv = refcal::civil(day);
  std::string hms = pad(sod / 3600, 2) + ":" + pad(sod / 60 % 60, 2) + ":" + pad(sod % 60, 2);
  c.describe([&](auto& o) { o << v << " in 1/" << sc << " s -> " << text; });
  REQUIRE(getStrTimeFromSeconds(sec) == hms, "time of day of " << sec << " rendered as " << getStrTimeFromSeconds(sec));
  if (cv.y >= 10) {
    std::string ymd = std::to_string(cv.y) + "-" + pad(cv.m, 2) + "-" + pad(cv.d, 2);
    REQUIRE(getStrDateFromSeconds(sec) == ymd, "date of " << sec << " rendered as " << getStrDateFromSeconds(sec) << " instead of " << ymd);
    std::string want = ymd + " " + hms;
    if (sc > 1) {
      want += "." + pad(v - sec * sc, ui * 3);
    }
    REQUIRE(text == want, "timestamp " << v << " in 1/" << sc << " s rendered as " << text << " instead of " << want);
  }
  auto back = dateTimeParseOptional<ir::Type::kTimestamp>(text, kUnits[ui]);
  REQUIRE(back && *back == v, "timestamp " << v << " in 1/" << sc << " s rendered as " << text << ", which reads back as " << (back ? std::to_string(*back) : "nothing"));
  c.nontrivial(cv.y < 1970 || cv.y > 2036 || sc > 1);
}

FACET(extract) {
  auto& s = c.s;
  int64_t t = genSec(s);
  int64_t day = refcal::fdiv(t, 86400), sod = t - day * 86400;
  auto cv = refcal::civil(day);
  c.describe([&](auto& o) { o << t << " = " << cv.y << "-" << cv.m << "-" << cv.d << " +" << sod; });
  auto ck = [&](DateExtractField f, int64_t want, const char* name) {
    int64_t got = ExtractFromTime(f, t);
    REQUIRE(got == want, name << " of " << t << " (" << cv.y << "-" << cv.m << "-" << cv.d << " +" << sod << "s) is " << got << ", expected " << want);
  };
  ck(DateExtractField::kYear, cv.y, "year");
  ck(DateExtractField::kQuarter, (cv.m - 1) / 3 + 1, "quarter");
  ck(DateExtractField::kMonth, cv.m, "month");
  ck(DateExtractField::kDay, cv.d, "day");
  ck(DateExtractField::kHour, sod / 3600, "hour");
  ck(DateExtractField::kMinute, sod / 60 % 60, "minute");
  ck(DateExtractField::kSecond, sod % 60, "second");
  ck(DateExtractField::kDayOfWeek, (refcal::dow(day) + 1) % 7, "dow");
  ck(DateExtractField::kIsoDayOfWeek, refcal::dow(day) + 1, "isodow");
  ck(DateExtractField::kDayOfYear, day - refcal::days(cv.y, 1, 1) + 1, "doy");
  ck(DateExtractField::kEpoch, t, "epoch");
  ck(DateExtractField::kDateEpoch, day * 86400, "dateepoch");
  ck(DateExtractField::kQuarterDay, sod / 21600 + 1, "quarterday");
  ck(DateExtractField::kWeek, refcal::week(day, 0), "week");
  ck(DateExtractField::kWeekSunday, refcal::week(day, 6), "week from Sunday");
  ck(DateExtractField::kWeekSaturday, refcal::week(day, 5), "week from Saturday");
  // sub-second fields count within the minute
  ck(DateExtractField::kMilli, refcal::fmod(t, 60000), "milli");
  ck(DateExtractField::kMicro, refcal::fmod(t, 60000000), "micro");
  ck(DateExtractField::kNano, refcal::fmod(t, 60000000000), "nano");
  REQUIRE(DateConverters::get_epoch_days_from_seconds(t) == day, "days of " << t);
  REQUIRE(DateConverters::get_epoch_seconds_from_days(day) == day * 86400, "seconds of day " << day);
  c.nontrivial();
  c.label(t < 0 ? "before 1970" : t > 2085978495 ? "after 2036" : "fast path");
}

FACET(truncate) {
  auto& s = c.s;
  int64_t t = genSec(s);
  static const std::pair<DateTruncField, const char*> fs[] = {
      {DateTruncField::kYear, "year"}, {DateTruncField::kQuarter, "quarter"}, {DateTruncField::kMonth, "month"}, {DateTruncField::kDay, "day"}, {DateTruncField::kHour, "hour"}, {DateTruncField::kMinute, "minute"}, {DateTruncField::kSecond, "second"}, {DateTruncField::kMilli, "milli"}, {DateTruncField::kMicro, "micro"}, {DateTruncField::kNano, "nano"}, {DateTruncField::kMillennium, "millennium"}, {DateTruncField::kCentury, "century"}, {DateTruncField::kDecade, "decade"}, {DateTruncField::kWeek, "week"}, {DateTruncField::kWeekSunday, "week from Sunday"}, {DateTruncField::kWeekSaturday, "week from Saturday"}, {DateTruncField::kQuarterDay, "quarterday"}};
  for (auto& [f, name] : fs) {
    int64_t got = DateTruncate(f, t), want = refTrunc(f, t);
    REQUIRE(got == want, name << " of " << t << " is " << got << ", expected " << want);
    REQUIRE(DateTruncate(f, got) == got, name << " is not idempotent on " << t);
  }
  static const std::pair<int64_t (*)(int64_t), DateTruncField> jit[] = {{datetrunc_minute, DateTruncField::kMinute}, {datetrunc_hour, DateTruncField::kHour}, {datetrunc_quarterday, DateTruncField::kQuarterDay}, {datetrunc_day, DateTruncField::kDay}, {datetrunc_week_monday, DateTruncField::kWeek}, {datetrunc_week_sunday, DateTruncField::kWeekSunday}, {datetrunc_week_saturday, DateTruncField::kWeekSaturday}, {datetrunc_month, DateTruncField::kMonth}, {datetrunc_quarter, DateTruncField::kQuarter}, {datetrunc_year, DateTruncField::kYear}, {datetrunc_decade, DateTruncField::kDecade}, {datetrunc_century, DateTruncField::kCentury}, {datetrunc_millennium, DateTruncField::kMillennium}};
  for (auto& [fn, f] : jit) {
    REQUIRE(fn(t) == refTrunc(f, t), "runtime truncation " << int(f) << " of " << t << " is " << fn(t) << ", expected " << refTrunc(f, t));
  }
  // high precision timestamps
  size_t ui = 1 + s.draw(2);
  int64_t sc = kScale[ui];
  int64_t sec = t % (ui == 3 ? 9000000000ll : 9000000000000ll);
  int64_t hv = sec * sc + s.range(0, sc - 1);
  int64_t hday = refcal::fdiv(sec, 86400);
  REQUIRE(DateTruncateHighPrecisionToDate(hv, sc) == hday * 86400, "date of " << hv << " in 1/" << sc << " s is " << DateTruncateHighPrecisionToDate(hv, sc));
  REQUIRE(DateTruncateHighPrecisionToDateNullable(hv, sc, INT64_MIN) == hday * 86400, "date of a nullable " << hv);
  REQUIRE(DateTruncateHighPrecisionToDateNullable(INT64_MIN, sc, INT64_MIN) == INT64_MIN, "date of NULL");
  // time of day of a timestamp, at another precision
  size_t to = s.draw(3), from = s.draw(3);
  int64_t lim = std::max(kScale[to], kScale[from]);
  int64_t tsec = t % (INT64_MAX / lim / 2);
  int64_t tv = tsec * kScale[from] + s.range(0, kScale[from] - 1);
  int64_t sub = tv - tsec * kScale[from];
  int64_t tsod = refcal::fmod(tsec, 86400);
  if (to >= from) {
    int64_t conv = kScale[to] / kScale[from];
    int64_t want = tsod * kScale[to] + sub * conv;
    REQUIRE(TimestampToTimeUpscale(tv, conv, kScale[to]) == want, "time of " << tv << " from 1/" << kScale[from] << " to 1/" << kScale[to] << " s is " << TimestampToTimeUpscale(tv, conv, kScale[to]) << ", expected " << want);
    REQUIRE(TimestampToTimeUpscaleNullable(tv, conv, kScale[to], INT64_MIN, -7) == want, "nullable time");
    REQUIRE(TimestampToTimeUpscaleNullable(INT64_MIN, conv, kScale[to], INT64_MIN, -7) == -7, "time of NULL");
  } else {
    int64_t conv = kScale[from] / kScale[to];
    int64_t want = tsod * kScale[to] + sub / conv;
    REQUIRE(TimestampToTimeDownscale(tv, conv, kScale[from]) == want, "time of " << tv << " from 1/" << kScale[from] << " to 1/" << kScale[to] << " s is " << TimestampToTimeDownscale(tv, conv, kScale[from]) << ", expected " << want);
    REQUIRE(TimestampToTimeDownscaleNullable(tv, conv, kScale[from], INT64_MIN, -7) == want, "nullable time");
    REQUIRE(TimestampToTimeDownscaleNullable(INT64_MIN, conv, kScale[from], INT64_MIN, -7) == -7, "time of NULL");
  }
  c.describe([&](auto& o) { o << t; });
  c.nontrivial();
}

namespace {
struct AddF {
  DateAddField f;
  int64_t months, secs;
  const char* name;
};
const AddF kAdd[] = {{DateAddField::kSecond, 0, 1, "second"}, {DateAddField::kMinute, 0, 60, "minute"}, {DateAddField::kHour, 0, 3600, "hour"}, {DateAddField::kDay, 0, 86400, "day"}, {DateAddField::kWeekDay, 0, 86400, "weekday"}, {DateAddField::kDayOfYear, 0, 86400, "dayofyear"}, {DateAddField::kWeek, 0, 7 * 86400, "week"}, {DateAddField::kMonth, 1, 0, "month"}, {DateAddField::kQuarter, 3, 0, "quarter"}, {DateAddField::kYear, 12, 0, "year"}, {DateAddField::kDecade, 120, 0, "decade"}, {DateAddField::kCentury, 1200, 0, "century"}, {DateAddField::kMillennium, 12000, 0, "millennium"}};

int64_t refAdd(const AddF& a, int64_t n, int64_t t) {
  return a.months ? refcal::addMonths(t, a.months * n) : t + n * a.secs;
}

// Whole months between two instants given as (seconds, nanoseconds).
int64_t monthsBetween(int64_t a, int64_t an, int64_t b, int64_t bn) {
  bool neg = false;
  if (std::make_pair(b, bn) < std::make_pair(a, an)) {
    std::swap(a, b);
    std::swap(an, bn);
    neg = true;
  }
  auto ca = refcal::civil(refcal::fdiv(a, 86400)), cb = refcal::civil(refcal::fdiv(b, 86400));
  int64_t m = (cb.y * 12 + cb.m) - (ca.y * 12 + ca.m);
  auto ra = std::make_tuple(ca.d, refcal::fmod(a, 86400), an), rb = std::make_tuple(cb.d, refcal::fmod(b, 86400), bn);
  if (rb < ra) {
    --m;
  }
  return neg ? -m : m;
}
struct DiffF {
  DateTruncField f;
  int64_t months, secs;
  const char* name;
};
const DiffF kDiff[] = {{DateTruncField::kSecond, 0, 1, "second"}, {DateTruncField::kMinute, 0, 60, "minute"}, {DateTruncField::kHour, 0, 3600, "hour"}, {DateTruncField::kQuarterDay, 0, 21600, "quarterday"}, {DateTruncField::kDay, 0, 86400, "day"}, {DateTruncField::kWeek, 0, 7 * 86400, "week"}, {DateTruncField::kWeekSunday, 0, 7 * 86400, "week from Sunday"}, {DateTruncField::kWeekSaturday, 0, 7 * 86400, "week from Saturday"}, {DateTruncField::kMonth, 1, 0, "month"}, {DateTruncField::kQuarter, 3, 0, "quarter"}, {DateTruncField::kYear, 12, 0, "year"}, {DateTruncField::kDecade, 120, 0, "decade"}, {DateTruncField::kCentury, 1200, 0, "century"}, {DateTruncField::kMillennium, 12000, 0, "millennium"}};
}  // namespace

FACET(add) {
  auto& s = c.s;
  const auto& a = kAdd[s.draw(std::size(kAdd) - 1)];
  int64_t t = genSec(s, false);
  int64_t n = s.draw(2) ? s.around(-50, 50) : s.around(-100000, 100000);
  c.describe([&](auto& o) { o << t << " + " << n << " " << a.name; });
  int64_t want = refAdd(a, n, t);
  REQUIRE(DateAdd(a.f, n, t) == want, t << " + " << n << " " << a.name << " is " << DateAdd(a.f, n, t) << ", expected " << want);
  REQUIRE(DateAddNullable(a.f, n, t, INT64_MIN) == want, "nullable form");
  REQUIRE(DateAddNullable(a.f, n, INT64_MIN, INT64_MIN) == INT64_MIN, "NULL + " << a.name);
  // the same at a higher precision; sub-second part kept
  size_t ui = s.draw(3);
  int64_t sc = kScale[ui];
  int64_t lim = INT64_MAX / sc / 2;
  if (want < lim && want > -lim && t < lim && t > -lim) {
    int64_t sub = sc > 1 ? s.range(0, sc - 1) : 0;
    int64_t got = DateAddHighPrecision(a.f, n, t * sc + sub, ui * 3);
    REQUIRE(got == want * sc + sub, (t * sc + sub) << " in 1/" << sc << " s + " << n << " " << a.name << " is " << got << ", expected " << want * sc + sub);
    REQUIRE(DateAddHighPrecisionNullable(a.f, n, t * sc + sub, ui * 3, INT64_MIN) == got, "nullable form");
    REQUIRE(DateAddHighPrecisionNullable(a.f, n, INT64_MIN, ui * 3, INT64_MIN) == INT64_MIN, "NULL + " << a.name);
    c.nontrivial(n != 0);
    // adding sub-second fields
    size_t fi = 1 + s.draw(2);
    DateAddField sf = fi == 1 ? DateAddField::kMilli : fi == 2 ? DateAddField::kMicro : DateAddField::kNano;
    if (ui) {
      int64_t k = s.around(-5000000000ll, 5000000000ll);
      int64_t d = fi > ui ? refcal::fdiv(k, kScale[fi] / kScale[ui]) : k * (kScale[ui] / kScale[fi]);
      int64_t v = (t % 4000000000ll) * sc + sub;
      if (std::abs(double(v) + double(d)) < 9e18) {
        int64_t g = DateAddHighPrecision(sf, k, v, ui * 3);
        REQUIRE(g == v + d, v << " in 1/" << sc << " s + " << k << " of 1/" << kScale[fi] << " s is " << g << ", expected " << v + d);
      }
    }
  }
}

FACET(diff) {
  auto& s = c.s;
  const auto& a = kDiff[s.draw(std::size(kDiff) - 1)];
  int64_t x = genSec(s, false);
  int64_t y;
  switch (s.draw(2)) {
    case 0:
      y = genSec(s, false);
      break;
    case 1:  // a whole number of units away, give or take a bit
      y = a.months ? refcal::addMonths(x, a.months * s.around(-30, 30)) : x + a.secs * s.around(-30, 30);
      y += s.draw(1) ? s.around(-2, 2) : s.around(-90000, 90000);
      break;
    default:
      y = x + s.around(-3, 3);
  }
  c.describe([&](auto& o) { o << a.name << " from " << x << " to " << y; });
  int64_t want = a.months ? monthsBetween(x, 0, y, 0) / a.months : (y - x) / a.secs;
  int64_t got = DateDiff(a.f, x, y);
  REQUIRE(got == want, a.name << " from " << x << " to " << y << ": " << got << ", expected " << want);
  REQUIRE(DateDiffNullable(a.f, x, y, INT64_MIN) == want, "nullable form");
  REQUIRE(DateDiffNullable(a.f, INT64_MIN, y, INT64_MIN) == INT64_MIN && DateDiffNullable(a.f, x, INT64_MIN, INT64_MIN) == INT64_MIN, "NULL operand");
  REQUIRE(DateDiff(a.f, y, x) == -want, a.name << " is not antisymmetric from " << x << " to " << y);
  // mixed precisions
  size_t u1 = s.draw(3), u2 = s.draw(3);
  int64_t lim = INT64_MAX / kScale[std::max(u1, u2)] / 4;
  if (std::abs(x) < lim && std::abs(y) < lim) {
    int64_t s1 = kScale[u1] > 1 ? (s.draw(1) ? s.range(0, kScale[u1] - 1) : s.range(0, 2)) : 0;
    int64_t s2 = kScale[u2] > 1 ? (s.draw(1) ? s.range(0, kScale[u2] - 1) : s.range(0, 2)) : 0;
    int64_t n1 = s1 * (1000000000 / kScale[u1]), n2 = s2 * (1000000000 / kScale[u2]);
    int64_t w;
    if (a.months) {
      w = monthsBetween(x, n1, y, n2) / a.months;
    } else {
      __int128 d = (__int128(y) - x) * 1000000000 + (n2 - n1);
      w = static_cast<int64_t>(d / (__int128(a.secs) * 1000000000));
    }
    int64_t g = DateDiffHighPrecision(a.f, x * kScale[u1] + s1, y * kScale[u2] + s2, u1 * 3, u2 * 3);
    REQUIRE(g == w, a.name << " from " << x << "s+" << n1 << "ns (1/" << kScale[u1] << ") to " << y << "s+" << n2 << "ns (1/" << kScale[u2] << "): " << g << ", expected " << w);
    REQUIRE(DateDiffHighPrecisionNullable(a.f, x * kScale[u1] + s1, y * kScale[u2] + s2, u1 * 3, u2 * 3, INT64_MIN) == w, "nullable form");
    REQUIRE(DateDiffHighPrecisionNullable(a.f, INT64_MIN, y * kScale[u2] + s2, u1 * 3, u2 * 3, INT64_MIN) == INT64_MIN, "NULL operand");
    // sub-second parts
    size_t fi = 1 + s.draw(2);
    DateTruncField sf = fi == 1 ? DateTruncField::kMilli : fi == 2 ? DateTruncField::kMicro : DateTruncField::kNano;
    __int128 dn = (__int128(y) - x) * 1000000000 + (n2 - n1);
    __int128 ww = dn / (1000000000 / kScale[fi]);
    // the result and the operands at the finer of the precisions have to fit
    __int128 at = std::max<__int128>(std::max(u1, u2), fi);
    if ((ww < 0 ? -ww : ww) < INT64_MAX && (__int128(std::max(std::abs(x), std::abs(y))) + 1) * kScale[static_cast<size_t>(at)] * 2 < INT64_MAX) {
      int64_t g2 = DateDiffHighPrecision(sf, x * kScale[u1] + s1, y * kScale[u2] + s2, u1 * 3, u2 * 3);
      REQUIRE(g2 == static_cast<int64_t>(ww), "1/" << kScale[fi] << " s from " << x << "s+" << n1 << "ns (1/" << kScale[u1] << ") to " << y << "s+" << n2 << "ns (1/" << kScale[u2] << "): " << g2 << ", expected " << static_cast<int64_t>(ww));
      if (!s1 && !s2) {
        REQUIRE(DateDiff(sf, x, y) == static_cast<int64_t>(ww), "1/" << kScale[fi] << " s from " << x << " to " << y);
      }
    }
  }
  c.nontrivial(x != y);
}

PBT_MAIN
