// The parts of the query harnesses that need no engine: cells, rows, types, generated values, comparison.
#pragma once
#include <algorithm>
#include <cmath>
#include <functional>
#include <optional>

#include "common/MemStorage.h"
#include "common/pbt.h"

#include "Logger/Logger.h"
#include "QueryBuilder/QueryBuilder.h"
#include "Shared/InlineNullValues.h"

namespace qe {
using namespace hdk::ir;
using mem::Cell;
using mem::Col;
using Row = std::vector<Cell>;

inline Context& ctx() { return Context::defaultCtx(); }

// Dates are compared as seconds: the engine computes with them that way.
inline const Type* canonDate(const Type* t) {
  if (t->isDate() && t->as<DateType>()->unit() == TimeUnit::kDay) {
    return ctx().date64(TimeUnit::kSecond, t->nullable());
  }
  if (t->isArray() && t->as<ArrayBaseType>()->elemType() != canonDate(t->as<ArrayBaseType>()->elemType())) {
    return ctx().arrayVarLen(canonDate(t->as<ArrayBaseType>()->elemType()), 4, t->nullable());
  }
  return t;
}
inline Cell canonCell(const Cell& c, const Type* from) {
  if (!c.null && from->isDate() && from->as<DateType>()->unit() == TimeUnit::kDay) {
    return Cell::I(c.i * 86400);
  }
  if (!c.null && from->isArray() && canonDate(from) != from) {
    Cell r = c;
    for (auto& e : r.arr) {
      e = canonCell(e, from->as<ArrayBaseType>()->elemType());
    }
    return r;
  }
  return c;
}

// ---- printing and comparing

inline std::string show(const Cell& c, const Type* t) {
  if (c.null) {
    return "NULL";
  }
  std::ostringstream o;
  if (t->isArray()) {
    auto et = t->as<ArrayBaseType>()->elemType();
    o << "[";
    for (size_t i = 0; i < c.arr.size(); ++i) {
      o << (i ? "," : "") << show(c.arr[i], et);
    }
    o << "]";
  } else if (t->isString() || t->isExtDictionary()) {
    o << pbt::jstr(c.s);
  } else if (t->isFloatingPoint()) {
    o.precision(17);
    o << c.d;
  } else {
    o << c.i;
    if (t->isDecimal() && t->as<DecimalType>()->scale()) {
      o << "e-" << t->as<DecimalType>()->scale();
    }
  }
  return o.str();
}
inline std::string show(const Row& r, const std::vector<const Type*>& t) {
  std::string s = "(";
  for (size_t i = 0; i < r.size(); ++i) {
    s += (i ? ", " : "") + show(r[i], t[i]);
  }
  return s + ")";
}

inline bool fpEq(double a, double b, double tol) {
  if (std::isnan(a) || std::isnan(b)) {
    return std::isnan(a) && std::isnan(b);
  }
  if (a == b) {
    return true;
  }
  if (std::isinf(a) || std::isinf(b)) {
    return false;
  }
  return std::fabs(a - b) <= tol * std::max(std::fabs(a), std::fabs(b)) + (tol > 1e-8 ? 1e-9 : 0);  // loose comparisons: cancellation around 0
}

inline bool same(const Cell& a, const Cell& b, const Type* t, double tol = -1) {
  if (a.null || b.null) {
    return a.null == b.null;
  }
  if (t->isArray()) {
    if (a.arr.size() != b.arr.size()) {
      return false;
    }
    for (size_t i = 0; i < a.arr.size(); ++i) {
      if (!same(a.arr[i], b.arr[i], t->as<ArrayBaseType>()->elemType(), tol)) {
        return false;
      }
    }
    return true;
  }
  if (t->isString() || t->isExtDictionary()) {
    return a.s == b.s;
  }
  if (t->isFloatingPoint()) {
    return fpEq(a.d, b.d, tol >= 0 ? tol : (t->isFp32() ? 1e-5 : 1e-11));
  }
  return a.i == b.i;
}
inline bool sameRow(const Row& a, const Row& b, const std::vector<const Type*>& t, double tol = -1) {
  for (size_t i = 0; i < a.size(); ++i) {
    if (!same(a[i], b[i], t[i], tol)) {
      return false;
    }
  }
  return true;
}
// Total order for cells: NULL first.
inline int cmpCell(const Cell& a, const Cell& b, const Type* t) {
  if (a.null || b.null) {
    return a.null == b.null ? 0 : (a.null ? -1 : 1);
  }
  if (t->isArray()) {
    for (size_t i = 0; i < std::min(a.arr.size(), b.arr.size()); ++i) {
      if (int k = cmpCell(a.arr[i], b.arr[i], t->as<ArrayBaseType>()->elemType())) {
        return k;
      }
    }
    return a.arr.size() < b.arr.size() ? -1 : a.arr.size() > b.arr.size();
  }
  if (t->isString() || t->isExtDictionary()) {
    int k = a.s.compare(b.s);
    return k < 0 ? -1 : k > 0;
  }
  if (t->isFloatingPoint()) {
    return a.d < b.d ? -1 : a.d > b.d;
  }
  return a.i < b.i ? -1 : a.i > b.i;
}
// Sort key order used for multiset comparison: non-fp columns first so that fp noise does not disturb it.
inline void sortRows(std::vector<Row>& rows, const std::vector<const Type*>& t) {
  std::stable_sort(rows.begin(), rows.end(), [&](const Row& a, const Row& b) {
    for (int pass = 0; pass < 2; ++pass) {
      for (size_t i = 0; i < t.size(); ++i) {
        if (t[i]->isFloatingPoint() == (pass == 1)) {
          if (int k = cmpCell(a[i], b[i], t[i])) {
            return k < 0;
          }
        }
      }
    }
    return false;
  });
}

inline std::string dump(const std::vector<Row>& rows, const std::vector<const Type*>& t, size_t max = 12) {
  std::string s = std::to_string(rows.size()) + " rows";
  for (size_t i = 0; i < rows.size() && i < max; ++i) {
    s += "\n    " + show(rows[i], t);
  }
  if (rows.size() > max) {
    s += "\n    ...";
  }
  return s;
}

// Compares as multisets; the reference types decide how cells compare.
inline void requireSameBag(std::vector<Row> got, std::vector<Row> want, const std::vector<const Type*>& t, const std::string& what, double tol = -1) {
  sortRows(got, t);
  sortRows(want, t);
  if (got.size() == want.size()) {
    bool ok = true;
    for (size_t i = 0; ok && i < got.size(); ++i) {
      ok = sameRow(got[i], want[i], t, tol);
    }
    if (!ok && got.size() <= 500) {  // rounding may have changed the sort order
      std::vector<char> used(want.size(), 0);
      ok = true;
      for (size_t i = 0; ok && i < got.size(); ++i) {
        ok = false;
        for (size_t k = 0; k < want.size(); ++k) {
          size_t j = (i + k) % want.size();
          if (!used[j] && sameRow(got[i], want[j], t, tol)) {
            used[j] = 1;
            ok = true;
            break;
          }
        }
      }
    }
    if (ok) {
      return;
    }
  }
  // report the first difference
  size_t i = 0;
  while (i < got.size() && i < want.size() && sameRow(got[i], want[i], t, tol)) {
    ++i;
  }
  throw pbt::Fail(what + ": got " + std::to_string(got.size()) + " rows, expected " + std::to_string(want.size()) +
                  "; first difference (sorted) got " + (i < got.size() ? show(got[i], t) : "-") + " expected " +
                  (i < want.size() ? show(want[i], t) : "-") + "\n  got " + dump(got, t) + "\n  expected " + dump(want, t));
}
inline void requireSameSeq(const std::vector<Row>& got, const std::vector<Row>& want, const std::vector<const Type*>& t, const std::string& what, double tol = -1) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && sameRow(got[i], want[i], t, tol)) {
    ++i;
  }
  if (i == got.size() && i == want.size()) {
    return;
  }
  throw pbt::Fail(what + ": got " + std::to_string(got.size()) + " rows, expected " + std::to_string(want.size()) +
                  "; first difference at row " + std::to_string(i) + " got " + (i < got.size() ? show(got[i], t) : "-") +
                  " expected " + (i < want.size() ? show(want[i], t) : "-") + "\n  got " + dump(got, t) + "\n  expected " +
                  dump(want, t));
}

// ---- generated tables

struct Table {
  std::string name;
  int id = 0;
  std::vector<Col> cols;
  std::vector<const Type*> types;  // as the engine knows them (dictionary ids assigned)
  size_t rows = 0;
  size_t frag = 0;
  Row row(size_t r) const {
    Row x;
    for (auto& c : cols) {
      x.push_back(canonCell(c.cells[r], c.type));
    }
    return x;
  }
  std::vector<Row> allRows() const {
    std::vector<Row> v;
    for (size_t r = 0; r < rows; ++r) {
      v.push_back(row(r));
    }
    return v;
  }
  std::string str(size_t max = 8) const {
    std::string s = name + "[" + std::to_string(rows) + " rows, fragments of " + std::to_string(frag) + "](";
    for (size_t i = 0; i < cols.size(); ++i) {
      s += (i ? ", " : "") + cols[i].name + " " + cols[i].type->toString();
    }
    s += "):";
    for (size_t r = 0; r < rows && r < max; ++r) {
      s += " " + show(row(r), types);
    }
    return s + (rows > max ? " ..." : "");
  }
};

inline int64_t nullOf(const Type* t) { return inline_int_null_value(t); }

// Value ranges of the integer-like types (the null sentinel is the minimum and is left out).
inline std::pair<int64_t, int64_t> intRange(int size) {
  switch (size) {
    case 1:
      return {-127, 127};
    case 2:
      return {-32767, 32767};
    case 4:
      return {-2147483647LL, 2147483647LL};
    default:
      return {-INT64_MAX, INT64_MAX};
  }
}

inline const std::vector<std::string>& smallStrings() {
  static const std::vector<std::string> v = {"c", "a", "b", "aa", "ab", "A", "hello", "Hello world", "foo_bar", "100%", "z", "\xc3\xa9t\xc3\xa9", "str12", "x y", "0", "-1"};
  return v;
}

struct ValueStyle {
  bool boundary = false;   // whole range of the type, biased to its ends
  int domain = 8;          // number of different values otherwise
  int64_t offset = 0;
  int null_pct = 15;
};

inline Cell genCell(pbt::Src& s, const Type* t, const ValueStyle& st) {
  if (t->nullable() && st.null_pct && s.chance(st.null_pct, 100)) {
    return Cell::Null();
  }
  if (t->isBoolean()) {
    return Cell::I(s.draw(1));
  }
  if (t->isExtDictionary() || t->isString()) {
    if (st.domain > static_cast<int>(smallStrings().size())) {
      return Cell::S("s" + std::to_string(s.draw(st.domain - 1)));
    }
    return Cell::S(smallStrings()[s.draw(std::max(1, st.domain) - 1)]);
  }
  if (t->isFloatingPoint()) {
    double v;
    switch (s.weighted({5, 3, 1})) {
      case 0:
        v = static_cast<double>(static_cast<int64_t>(s.draw(st.domain)) - st.domain / 2) * 0.5;
        break;
      case 1:
        v = s.around(-1000000, 1000000) / 64.0;
        break;
      default:
        v = st.boundary ? std::ldexp(static_cast<double>(s.around(-1000, 1000)), static_cast<int>(s.range(-40, 40))) : static_cast<double>(s.around(-5, 5));
    }
    if (t->isFp32()) {
      v = static_cast<float>(v);
    }
    return Cell::D(v);
  }
  if (t->isDate()) {
    auto unit = t->as<DateType>()->unit();
    int64_t lim = t->size() == 2 ? 32000 : 200000;
    int64_t days = st.boundary ? s.around(-lim, lim) : s.range(0, st.domain - 1) * 31 - 60;
    return Cell::I(unit == TimeUnit::kDay ? days : days * 86400 * unitsPerSecond(unit));
  }
  if (t->isTime()) {
    auto u = unitsPerSecond(t->as<TimeType>()->unit());
    int64_t sec = st.boundary ? s.range(0, 86399) : s.range(0, std::min<int64_t>(st.domain, 23)) * 3600 + 59;
    return Cell::I(sec * u + (u > 1 ? s.range(0, u - 1) : 0));
  }
  if (t->isTimestamp()) {
    auto u = unitsPerSecond(t->as<TimestampType>()->unit());
    int64_t sec = st.boundary ? s.around(-4000000000LL, 8000000000LL) : (s.range(0, st.domain) - st.domain / 2) * 86401 * 17;
    return Cell::I(sec * u + (u > 1 ? s.pick<int64_t>({0, 1, u / 2, u - 1}) : 0));
  }
  auto [lo, hi] = intRange(t->isDecimal() ? 8 : t->size());
  if (t->isDecimal()) {
    auto p = t->as<DecimalType>()->precision();
    int64_t m = 1;
    for (int i = 0; i < std::min(p, 18); ++i) {
      m *= 10;
    }
    lo = -(m - 1);
    hi = m - 1;
  }
  if (st.boundary) {
    return Cell::I(s.boundary(lo, hi));
  }
  int64_t v = static_cast<int64_t>(s.draw(std::max(1, st.domain) - 1)) - st.domain / 2 + st.offset;
  return Cell::I(std::min(hi, std::max(lo, v)));
}

inline const Type* genIntType(pbt::Src& s) { return ctx().integer(s.pick<int>({4, 8, 2, 1}), !s.chance(1, 4)); }
inline const Type* genDecType(pbt::Src& s) {
  int p = static_cast<int>(s.range(3, 12));
  return ctx().decimal64(p, static_cast<int>(s.range(0, std::min(p, 4))), !s.chance(1, 4));
}
inline const Type* genFpType(pbt::Src& s) { return s.chance(1, 3) ? ctx().fp32(!s.chance(1, 4)) : ctx().fp64(!s.chance(1, 4)); }
inline const Type* genTimeType(pbt::Src& s) {
  bool n = !s.chance(1, 4);
  switch (s.draw(4)) {
    case 0:
      return ctx().timestamp(s.pick<TimeUnit>({TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano}), n);
    case 1:
      return ctx().date32(TimeUnit::kDay, n);
    case 2:
      return ctx().date16(TimeUnit::kDay, n);
    case 3:
      return ctx().date64(TimeUnit::kSecond, n);
    default:
      return ctx().time64(s.pick<TimeUnit>({TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano}), n);
  }
}
inline const Type* genDictType(pbt::Src& s) { return ctx().extDict(ctx().text(!s.chance(1, 5)), 0, s.pick<int>({4, 4, 2, 1})); }

inline size_t genFragSize(pbt::Src& s, size_t rows) {
  switch (s.draw(3)) {
    case 0:
      return std::max<size_t>(1, rows);
    case 1:
      return std::max<size_t>(1, (rows + 1) / 2);
    case 2:
      return std::max<size_t>(1, rows / s.size(3, 9));
    default:
      return std::max<size_t>({1, rows / 60, std::min<size_t>(rows, s.size(1, 5))});
  }
}

}  // namespace qe
