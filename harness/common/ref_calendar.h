// Proleptic Gregorian calendar by tables and counting, written independently of the code under test.
#pragma once
#include <cstdint>
#include <vector>

namespace refcal {

inline int64_t fdiv(int64_t a, int64_t b) {  // floor, b > 0
  int64_t q = a / b, r = a % b;
  return r < 0 ? q - 1 : q;
}
inline int64_t fmod(int64_t a, int64_t b) {
  int64_t r = a % b;
  return r < 0 ? r + b : r;
}
inline bool leap(int64_t y) {
  return fmod(y, 4) == 0 && (fmod(y, 100) != 0 || fmod(y, 400) == 0);
}
inline int mdays(int64_t y, int m) {
  static const int d[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return m == 2 && leap(y) ? 29 : d[m - 1];
}
struct Ymd {
  int64_t y;
  int m, d;
};
// Day number of January 1 of year 0..400 relative to January 1 of year 0.
inline const std::vector<int64_t>& yearStarts() {
  static const std::vector<int64_t> t = [] {
    std::vector<int64_t> v{0};
    for (int y = 0; y < 400; ++y) {
      v.push_back(v.back() + (leap(y) ? 366 : 365));
    }
    return v;
  }();
  return t;
}
constexpr int64_t kDaysBefore1970 = 719528;  // from 0000-01-01 to 1970-01-01
inline int64_t days(int64_t y, int m, int d) {
  int64_t cyc = fdiv(y, 400);
  int64_t r = cyc * 146097 + yearStarts()[y - cyc * 400];
  for (int i = 1; i < m; ++i) {
    r += mdays(y, i);
  }
  return r + d - 1 - kDaysBefore1970;
}
inline Ymd civil(int64_t day) {
  int64_t n = day + kDaysBefore1970;
  int64_t cyc = fdiv(n, 146097);
  int64_t doc = n - cyc * 146097;
  auto& t = yearStarts();
  int lo = 0, hi = 399;
  while (lo < hi) {
    int mid = (lo + hi + 1) / 2;
    if (t[mid] <= doc) {
      lo = mid;
    } else {
      hi = mid - 1;
    }
  }
  Ymd r{cyc * 400 + lo, 1, 0};
  int64_t rest = doc - t[lo];
  while (rest >= mdays(r.y, r.m)) {
    rest -= mdays(r.y, r.m);
    ++r.m;
  }
  r.d = static_cast<int>(rest) + 1;
  return r;
}
// Monday = 0
inline int dow(int64_t day) {
  return static_cast<int>(fmod(day + 3, 7));
}
// Number of the week holding `day` when weeks start on `first` (Monday = 0) and week 1 holds January 4.
inline int week(int64_t day, int first) {
  auto start = [&](int64_t d) { return d - fmod(dow(d) - first, 7); };
  int64_t w = start(day);
  int64_t y = civil(day).y + 1;
  while (start(days(y, 1, 4)) > w) {
    --y;
  }
  return static_cast<int>((w - start(days(y, 1, 4))) / 7) + 1;
}
// Adds months, clamping the day of the month.
inline int64_t addMonths(int64_t t, int64_t n) {
  int64_t day = fdiv(t, 86400), sod = t - day * 86400;
  auto c = civil(day);
  int64_t mi = c.y * 12 + (c.m - 1) + n;
  int64_t y = fdiv(mi, 12);
  int m = static_cast<int>(mi - y * 12) + 1;
  int d = c.d < mdays(y, m) ? c.d : mdays(y, m);
  return days(y, m, d) * 86400 + sod;
}

}  // namespace refcal
