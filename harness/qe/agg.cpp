// Aggregation and grouping against a naive reference.
#include "qe/expr.h"
#include "qe/qe.h"
using namespace qe;

struct KeyLess {
  const std::vector<const Type*>* t;
  bool operator()(const Row& a, const Row& b) const {
    for (size_t i = 0; i < t->size(); ++i) {
      if (int k = cmpCell(a[i], b[i], (*t)[i])) {
        return k < 0;
      }
    }
    return false;
  }
};

// One aggregate: how it is written and how its value for a group is judged ("" means fine).
struct Agg {
  BuilderExpr b;
  std::string s;
  const Type* t;
  int sets = -1;  // the column whose distinct values are counted
  std::vector<size_t> squares;
  int topk_col = -1;  // columns whose squares are summed up
  std::function<std::string(const std::vector<Row>&, const Cell&)> judge;
};

static std::vector<Cell> nonNull(const std::vector<Row>& g, size_t col) {
  std::vector<Cell> v;
  for (auto& r : g) {
    if (!r[col].null) {
      v.push_back(r[col]);
    }
  }
  return v;
}
static double asDouble(const Cell& c, const Type* t) {
  if (t->isFloatingPoint()) {
    return c.d;
  }
  return static_cast<double>(c.i) / static_cast<double>(p10(scaleOf(t)));
}
// Squares of such values do not fit 64 bits (the engine reports an overflow, or its sums wrap around).
static bool hugeForSquares(const std::vector<Row>& rows, size_t col, const Type* t) {
  if (!t->isFloatingPoint()) {
    for (auto& r : rows) {
      if (!r[col].null && std::llabs(r[col].i) > 50000000) {
        return true;
      }
    }
  }
  return false;
}
static std::string expectCell(const Cell& want, const Cell& got, const Type* t, double abs_tol = 0) {
  if (want.null != got.null) {
    return "expected " + show(want, t) + ", got " + show(got, t);
  }
  if (want.null) {
    return "";
  }
  bool ok = t->isFloatingPoint() ? (same(got, want, t) || std::fabs(want.d - got.d) <= abs_tol) : same(got, want, t);
  return ok ? "" : "expected " + show(want, t) + ", got " + show(got, t);
}

static std::optional<Agg> genAgg(pbt::Src& s, QueryBuilder& qb, const BuilderNode& n, const std::vector<const Type*>& types, bool approx, bool grouped) {
  auto ref = [&](size_t i) { return n.ref(static_cast<int>(i)); };
  size_t col = s.draw(types.size() - 1);
  const Type* t = types[col];
  std::string nm = "$" + std::to_string(col);
  auto count_t = env().cfg->exec.group_by.bigint_count ? ctx().int64(false) : ctx().int32(false);
  bool num = t->isNumber();
  bool ord = num || t->isDateTime();
  Agg a;
  if (approx) {
    if (s.draw(1) || !num) {
      a.b = ref(col).approxCountDist();
      a.s = "approx_count_distinct(" + nm + ")";
      a.t = count_t;
      a.judge = [col, t](const std::vector<Row>& g, const Cell& got) -> std::string {
        std::vector<const Type*> kt{t};
        std::set<Row, KeyLess> d(KeyLess{&kt});
        for (auto& c : nonNull(g, col)) {
          d.insert({c});
        }
        double n = static_cast<double>(d.size());
        if (got.null || std::fabs(got.i - n) > 2 + 0.15 * n) {
          return "expected about " + std::to_string(d.size()) + ", got " + show(got, ctx().int64());
        }
        return "";
      };
      return a;
    }
    double q = s.pick<double>({0.5, 0.0, 1.0, 0.25, 0.9, 0.01});
    a.b = ref(col).approxQuantile(q);
    a.s = "approx_quantile(" + nm + ", " + std::to_string(q) + ")";
    a.t = ctx().fp64();
    a.judge = [col, t, q](const std::vector<Row>& g, const Cell& got) -> std::string {
      std::vector<double> v;
      for (auto& c : nonNull(g, col)) {
        v.push_back(asDouble(c, t));
      }
      if (v.empty()) {
        return got.null ? "" : "expected NULL, got " + show(got, ctx().fp64());
      }
      if (got.null) {
        return "got NULL for " + std::to_string(v.size()) + " values";
      }
      std::sort(v.begin(), v.end());
      // the rank error of the digest is a few percent; small groups are kept exactly
      double slack = std::max(1.0, 0.05 * v.size());
      double pos = q * (v.size() - 1);
      size_t lo = static_cast<size_t>(std::max(0.0, std::floor(pos - slack))), hi = std::min(v.size() - 1, static_cast<size_t>(std::ceil(pos + slack)));
      double eps = 1e-6 * std::max({1.0, std::fabs(v[lo]), std::fabs(v[hi])});
      if (got.d < v[lo] - eps || got.d > v[hi] + eps) {
        return "expected between " + std::to_string(v[lo]) + " and " + std::to_string(v[hi]) + ", got " + show(got, ctx().fp64());
      }
      return "";
    };
    return a;
  }
  switch (s.weighted({3, 3, 4, 3, 3, 3, 3, 2, 2, 2, 1, 2})) {
    case 0:
      a.b = qb.count();
      a.s = "count(*)";
      a.t = count_t;
      a.judge = [](const std::vector<Row>& g, const Cell& got) { return expectCell(Cell::I(g.size()), got, ctx().int64()); };
      return a;
    case 1:
      a.b = ref(col).count();
      a.s = "count(" + nm + ")";
      a.t = count_t;
      a.judge = [col](const std::vector<Row>& g, const Cell& got) { return expectCell(Cell::I(nonNull(g, col).size()), got, ctx().int64()); };
      return a;
    case 2: {
      if (!num) {
        return {};
      }
      a.b = ref(col).sum();
      a.s = "sum(" + nm + ")";
      a.t = t->isInteger() ? ctx().int64(t->nullable()) : t;
      auto rt = a.t;
      a.judge = [col, t, rt](const std::vector<Row>& g, const Cell& got) -> std::string {
        auto v = nonNull(g, col);
        if (v.empty()) {
          // an empty sum of a column that cannot be NULL has no other representation than zero
          if (!t->nullable() && !got.null && (t->isFloatingPoint() ? got.d == 0 : got.i == 0)) {
            return "";
          }
          return expectCell(Cell::Null(), got, rt);
        }
        if (t->isFloatingPoint()) {
          double x = 0, ab = 0;
          for (auto& c : v) {
            x += c.d;
            ab += std::fabs(c.d);
          }
          return expectCell(Cell::D(x), got, rt, ab * (t->isFp32() ? 1e-5 : 1e-12));
        }
        int64_t x = 0;
        for (auto& c : v) {
          x += c.i;
        }
        return expectCell(Cell::I(x), got, rt);
      };
      return a;
    }
    case 3:
    case 4: {
      if (!ord) {
        return {};
      }
      bool mx = s.draw(1);
      a.b = mx ? ref(col).max() : ref(col).min();
      a.s = std::string(mx ? "max(" : "min(") + nm + ")";
      a.t = t;
      a.judge = [col, t, mx](const std::vector<Row>& g, const Cell& got) -> std::string {
        auto v = nonNull(g, col);
        if (v.empty()) {
          return t->nullable() ? expectCell(Cell::Null(), got, t) : "";
        }
        Cell best = v[0];
        for (auto& c : v) {
          int k = cmpCell(c, best, t);
          if (mx ? k > 0 : k < 0) {
            best = c;
          }
        }
        return expectCell(best, got, t);
      };
      return a;
    }
    case 5: {
      if (!num) {
        return {};
      }
      a.b = ref(col).avg();
      a.s = "avg(" + nm + ")";
      a.t = ctx().fp64();
      a.judge = [col, t](const std::vector<Row>& g, const Cell& got) -> std::string {
        auto v = nonNull(g, col);
        if (v.empty()) {
          return expectCell(Cell::Null(), got, ctx().fp64());
        }
        double x = 0, ab = 0;
        for (auto& c : v) {
          x += asDouble(c, t);
          ab += std::fabs(asDouble(c, t));
        }
        return expectCell(Cell::D(x / v.size()), got, ctx().fp64(), ab / v.size() * (t->isFp32() ? 1e-5 : 1e-12));
      };
      return a;
    }
    case 6: {
      if (t->isFloatingPoint()) {
        return {};
      }
      a.b = ref(col).count(true);
      a.s = "count(distinct " + nm + ")";
      a.t = count_t;
      a.sets = col;
      a.judge = [col, t](const std::vector<Row>& g, const Cell& got) {
        std::vector<const Type*> kt{t};
        std::set<Row, KeyLess> d(KeyLess{&kt});
        for (auto& c : nonNull(g, col)) {
          d.insert({c});
        }
        return expectCell(Cell::I(d.size()), got, ctx().int64());
      };
      return a;
    }
    case 7: {
      if (!num) {
        return {};
      }
      a.b = ref(col).stdDev();
      a.s = "stddev(" + nm + ")";
      a.t = ctx().fp64();
      a.squares = {col};
      a.judge = [col, t](const std::vector<Row>& g, const Cell& got) -> std::string {
        auto v = nonNull(g, col);
        if (v.size() < 2) {
          return got.null || std::isnan(got.d) ? "" : "expected NULL, got " + show(got, ctx().fp64());
        }
        double m = 0, q = 0, mx = 0;
        for (auto& c : v) {
          m += asDouble(c, t);
          mx = std::max(mx, std::fabs(asDouble(c, t)));
        }
        m /= v.size();
        for (auto& c : v) {
          q += (asDouble(c, t) - m) * (asDouble(c, t) - m);
        }
        // sums of squares cancel: the error is that of the square root of a difference
        double w = std::sqrt(q / (v.size() - 1));
        double tol = std::max(1e-9 * mx, mx * mx * (t->isFp32() ? 1e-5 : 1e-13) * v.size() / std::max(w, 1e-7 * mx));
        if (w <= 1e-6 * mx && !got.null && std::isnan(got.d)) {
          return "";
        }
        return expectCell(Cell::D(w), got, ctx().fp64(), tol + 1e-6 * mx);
      };
      return a;
    }
    case 8: {
      if (!ord || t->isDate()) {
        return {};
      }
      double q = s.pick<double>({0.5, 0.0, 1.0, 0.25, 0.9, 0.37});
      auto ip = s.pick<Interpolation>({Interpolation::kLinear, Interpolation::kLower, Interpolation::kHigher, Interpolation::kNearest, Interpolation::kMidpoint});
      a.b = ref(col).quantile(q, ip);
      a.s = "quantile(" + nm + ", " + std::to_string(q) + ", " + toString(ip) + ")";
      bool interp = ip == Interpolation::kLinear || ip == Interpolation::kMidpoint;
      a.t = a.b.type();
      auto rt = a.t;
      a.judge = [col, t, q, ip, interp, rt](const std::vector<Row>& g, const Cell& got) -> std::string {
        auto v = nonNull(g, col);
        if (v.empty()) {
          return expectCell(Cell::Null(), got, rt);
        }
        std::sort(v.begin(), v.end(), [&](auto& x, auto& y) { return cmpCell(x, y, t) < 0; });
        double pos = q * (v.size() - 1);
        size_t lo = static_cast<size_t>(std::floor(pos)), hi = static_cast<size_t>(std::ceil(pos));
        if (!interp) {
          size_t k = ip == Interpolation::kLower ? lo : ip == Interpolation::kHigher ? hi : static_cast<size_t>(std::round(pos));
          return expectCell(v[k], got, t);
        }
        double co = ip == Interpolation::kMidpoint ? 0.5 : pos - lo;
        if (lo == hi) {
          co = 0;
        }
        double l = t->isFloatingPoint() ? v[lo].d : static_cast<double>(v[lo].i), h = t->isFloatingPoint() ? v[hi].d : static_cast<double>(v[hi].i);
        double w = l + (h - l) * co;
        if (rt->isFloatingPoint()) {
          return expectCell(Cell::D(w), got, rt, 1e-9 * std::max(std::fabs(l), std::fabs(h)) * (t->isFp32() ? 1e3 : 1));
        }
        // rounded towards zero, up to the precision of the computation
        if (got.null || std::fabs(got.i - w) > 1 + 1e-9 * std::fabs(w)) {
          return "expected about " + std::to_string(w) + ", got " + show(got, rt);
        }
        return "";
      };
      return a;
    }
    case 9: {
      if (!ord || t->isDecimal()) {
        return {};
      }
      int k = static_cast<int>(s.range(1, 5));
      bool top = s.draw(1);
      a.b = top ? ref(col).topK(k) : ref(col).bottomK(k);
      a.topk_col = static_cast<int>(col);
      a.s = (top ? "topk(" : "bottomk(") + nm + ", " + std::to_string(k) + ")";
      a.t = a.b.type();
      auto rt = a.t;
      a.judge = [col, t, k, top, rt](const std::vector<Row>& g, const Cell& got) -> std::string {
        auto v = nonNull(g, col);
        std::sort(v.begin(), v.end(), [&](auto& x, auto& y) { return top ? cmpCell(x, y, t) > 0 : cmpCell(x, y, t) < 0; });
        if (v.size() > static_cast<size_t>(k)) {
          v.resize(k);
        }
        if (v.empty()) {
          return got.null || got.arr.empty() ? "" : "expected nothing, got " + show(got, rt);
        }
        return expectCell(Cell::A(v), got, rt);
      };
      return a;
    }
    case 10: {
      if (!grouped) {
        return {};  // no sample of no rows
      }
      a.b = ref(col).sample();
      a.s = "sample(" + nm + ")";
      a.t = t;
      a.judge = [col, t](const std::vector<Row>& g, const Cell& got) -> std::string {
        if (g.empty()) {
          return "";
        }
        for (auto& r : g) {
          if (same(r[col], got, t)) {
            return "";
          }
        }
        return "not a value of the group: " + show(got, t);
      };
      return a;
    }
    default: {
      size_t c2 = s.draw(types.size() - 1);
      auto t2 = types[c2];
      if (!num || !t2->isNumber()) {
        return {};
      }
      a.b = ref(col).corr(ref(c2));
      a.s = "corr(" + nm + ", $" + std::to_string(c2) + ")";
      a.t = ctx().fp64();
      a.squares = {col, c2};
      a.judge = [col, c2, t, t2](const std::vector<Row>& g, const Cell& got) -> std::string {
        std::vector<std::pair<double, double>> v;
        double m1 = 0, m2 = 0, a1 = 0, a2 = 0;
        for (auto& r : g) {
          if (!r[col].null && !r[c2].null) {
            v.emplace_back(asDouble(r[col], t), asDouble(r[c2], t2));
            m1 += v.back().first;
            m2 += v.back().second;
            a1 = std::max(a1, std::fabs(v.back().first));
            a2 = std::max(a2, std::fabs(v.back().second));
          }
        }
        if (v.empty()) {
          return got.null || std::isnan(got.d) || std::isinf(got.d) ? "" : "expected NULL, got " + show(got, ctx().fp64());
        }
        if (v.size() == 1) {
          return "";  // undefined: whatever rounding makes of 0 / 0
        }
        m1 /= v.size();
        m2 /= v.size();
        double xx = 0, yy = 0, xy = 0;
        for (auto& [x, y] : v) {
          xx += (x - m1) * (x - m1);
          yy += (y - m2) * (y - m2);
          xy += (x - m1) * (y - m2);
        }
        if (xx <= 1e-4 * a1 * a1 * v.size() || yy <= 1e-4 * a2 * a2 * v.size()) {
          return "";  // (nearly) constant: dominated by rounding
        }
        double w = xy / std::sqrt(xx * yy);
        return expectCell(Cell::D(w), got, ctx().fp64(), t->isFp32() || t2->isFp32() ? 1e-2 : 1e-6);
      };
      return a;
    }
  }
}

static void aggCase(pbt::Case& c, bool approx) {
  auto& s = c.s;
  Scope sc;
  std::string cfg = s.chance(1, 2) ? genConfig(s) : "";
  Table t;
  t.name = "t";
  size_t rows = s.chance(1, 15) ? 0 : 1 + (s.chance(1, 12) ? s.size(200, 3000) : s.logsize(approx ? 600 : 120));
  size_t ncols = s.size(2, 5);
  for (size_t i = 0; i < ncols; ++i) {
    const Type* ty;
    switch (s.weighted({6, 2, 2, 1, 3, 3})) {
      case 0:
        ty = genIntType(s);
        break;
      case 1:
        ty = genFpType(s);
        break;
      case 2:
        ty = genDecType(s);
        break;
      case 3:
        ty = ctx().boolean(!s.chance(1, 4));
        break;
      case 4:
        ty = genDictType(s);
        break;
      default:
        ty = genTimeType(s);
    }
    ValueStyle st;
    st.domain = static_cast<int>(s.pick<int>({6, 1, 3, 12, 40, 120}));
    if (ty->isExtDictionary()) {
      st.domain = std::min(st.domain, 100);
    }
    st.offset = ty->isInteger() && ty->size() > 2 && s.chance(1, 4) ? s.pick<int64_t>({1000000, -70000, 2000000000LL}) : 0;
    st.null_pct = s.pick<int>({0, 15, 15, 60, 100});
    // sparse values: too wide a range for a perfect hash
    int64_t stride = (ty->isInteger() && ty->size() == 8 && s.chance(1, 3)) || (ty->isInteger() && ty->size() == 4 && s.chance(1, 6)) ? s.pick<int64_t>({1000003, 7, 12345678}) : 1;
    Col col{std::string(1, static_cast<char>('a' + i)), ty, {}};
    for (size_t r = 0; r < rows; ++r) {
      Cell cell = genCell(s, ty, st);
      if (!cell.null && stride > 1) {
        if (st.offset) {
          stride = 1;
        }
        cell.i *= ty->size() == 4 ? std::min<int64_t>(stride, 1000003) : stride * 1000;
      }
      col.cells.push_back(cell);
    }
    t.cols.push_back(std::move(col));
  }
  t.frag = genFragSize(s, rows);
  sc.add(t);
  auto qb = builder();
  auto scan = qb.scan(mem::kDbId, "t");
  BuilderNode n = scan;
  std::vector<Row> data = t.allRows();
  std::string q = " FROM t";
  std::vector<const Type*> types = t.types;
  if (s.chance(1, 4)) {
    Gen g{s, qb};
    g.addCols(scan, types);
    Ex f = g.boolean(1);
    if (!f.cst) {
      Cx cx;
      std::vector<Row> kept;
      for (auto& r : data) {
        Cell k = f.f(r, cx);
        if (!k.null && k.i) {
          kept.push_back(r);
        }
      }
      if (cx.amb || cx.strict || cx.maybe) {
        throw pbt::Discard();
      }
      n = scan.filter(f.b);
      data = kept;
      q += " WHERE " + f.s;
    }
  }
  size_t nk = s.weighted({2, 5, 4, 1});
  nk = std::min(nk, ncols);
  std::vector<int> keys;
  std::vector<const Type*> kt;
  for (size_t i = 0; i < nk; ++i) {
    int k = static_cast<int>(s.draw(ncols - 1));
    if (std::find(keys.begin(), keys.end(), k) == keys.end()) {
      keys.push_back(k);
      kt.push_back(types[k]);
    }
  }
  std::vector<Agg> aggs;
  size_t want_aggs = s.size(1, 4);
  for (size_t i = 0; i < want_aggs; ++i) {
    if (auto a = genAgg(s, qb, n, types, approx, !keys.empty())) {
      aggs.push_back(*a);
    }
  }
  if (aggs.empty()) {
    throw pbt::Discard();
  }
  std::vector<BuilderExpr> ab;
  std::string d;
  for (auto k : keys) {
    d += (d.empty() ? "" : ", ") + ("$" + std::to_string(k));
  }
  q += keys.empty() ? "" : " GROUP BY " + d;
  // distinct values are kept in a bitmap over the value range for each group and fragment: bound the memory
  for (auto& a : aggs) {
    if (a.sets >= 0 && !types[a.sets]->isString()) {
      std::set<Row, KeyLess> ks(KeyLess{&kt});
      int64_t lo = std::numeric_limits<int64_t>::max(), hi = std::numeric_limits<int64_t>::min();
      for (auto& r : t.allRows()) {
        Row kr;
        for (auto k : keys) {
          kr.push_back(r[k]);
        }
        ks.insert(kr);
        if (!r[a.sets].null) {
          lo = std::min(lo, r[a.sets].i);
          hi = std::max(hi, r[a.sets].i);
        }
      }
      double bytes = hi > lo ? (double(hi) - double(lo)) / 8 : 0;
      if (bytes < 4e8 && bytes * ks.size() * (rows / std::max<size_t>(1, t.frag) + 1) > 2e9) {
        throw pbt::Discard();
      }
    }
    for (auto k : a.squares) {
      if (hugeForSquares(data, k, types[k])) {
        throw pbt::Discard();
      }
    }
  }
  for (size_t i = 0; i < aggs.size(); ++i) {
    ab.push_back(aggs[i].b.rename("g" + std::to_string(i)));
    d += (d.empty() ? "" : ", ") + aggs[i].s;
  }
  q = "SELECT " + d + q + cfg;
  BuilderNode a = n.agg(keys, ab);
  // HAVING on a count
  std::optional<int64_t> having;
  if (s.chance(1, 6) && !keys.empty() && aggs[0].s == "count(*)") {
    having = s.range(1, 4);
    a = a.filter(a.ref(static_cast<int>(keys.size())).gt(static_cast<int>(*having)));
    q += " HAVING count(*) > " + std::to_string(*having);
  }
  c.describe([&](auto& o) { o << q << " OVER " << t.str(); });
  auto got = tryRun(a);
  std::string where = q + "\n  " + t.str(60);
  if (!got.res && got.divZero() && d.find("corr(") != std::string::npos) {
    throw pbt::Discard();  // the correlation with a constant is undefined; the engine reports a division by zero
  }
  if (!got.res && got.err.find("Not enough host memory") != std::string::npos) {
    throw pbt::Discard();  // sets, digests or heaps for each possible group can exceed the memory the harness allows
  }
  REQUIRE(got.res, "the query failed: " << got.err << "\n  " << where);
  std::map<Row, std::vector<Row>, KeyLess> groups(KeyLess{&kt});
  if (keys.empty()) {
    groups[{}] = {};
  }
  for (auto& r : data) {
    Row k;
    for (auto i : keys) {
      k.push_back(r[i]);
    }
    groups[k].push_back(r);
  }
  if (having) {
    for (auto it = groups.begin(); it != groups.end();) {
      it = static_cast<int64_t>(it->second.size()) > *having ? std::next(it) : groups.erase(it);
    }
  }
  auto& res = *got.res;
  REQUIRE(res.types.size() == keys.size() + aggs.size(), "columns " << res.types.size());
  for (size_t i = 0; i < aggs.size(); ++i) {
    REQUIRE(sameType(res.types[keys.size() + i], aggs[i].t) || (aggs[i].s.find("distinct") != std::string::npos && aggs[i].t->isInt32() && res.types[keys.size() + i]->isInt64() && pbt::isKnown(c, "count-distinct-type")) || aggs[i].t->isExtDictionary() || aggs[i].t->isArray(), "type of " << aggs[i].s << " is " << res.types[keys.size() + i]->toString() << ", expected " << aggs[i].t->toString() << "\n  " << where);
  }
  REQUIRE(res.rows.size() == groups.size(), "got " << res.rows.size() << " groups, expected " << groups.size() << "\n  " << where << "\n  got " << dump(res.rows, res.types));
  std::set<Row, KeyLess> seen(KeyLess{&kt});
  for (auto& r : res.rows) {
    Row k(r.begin(), r.begin() + keys.size());
    auto it = groups.find(k);
    REQUIRE(it != groups.end(), "no such group " << show(r, res.types) << "\n  " << where);
    REQUIRE(seen.insert(k).second, "group twice " << show(r, res.types) << "\n  " << where);
    for (size_t i = 0; i < aggs.size(); ++i) {
      auto m = aggs[i].judge(it->second, r[keys.size() + i]);
      if (!m.empty() && aggs[i].topk_col >= 0 && canonDate(t.cols[aggs[i].topk_col].type) != t.cols[aggs[i].topk_col].type && (having || d.find("stddev(") != std::string::npos || d.find("corr(") != std::string::npos) && pbt::isKnown(c, "topk-day-dates")) {
        continue;
      }
      REQUIRE(m.empty(), aggs[i].s << " of group " << show(k, kt) << " with " << it->second.size() << " rows: " << m << "\n  " << where << "\n  got " << dump(res.rows, res.types));
    }
  }
  c.nontrivial(data.size() > 1 && (keys.empty() || groups.size() > 1));
  c.label(keys.empty(), "no keys");
  c.label(keys.size() > 1, "several keys");
  c.label(t.rows > t.frag, "several fragments");
  c.label(!cfg.empty(), "non-default configuration");
  c.label(groups.size() > 20, "more than 20 groups");
}

FACET(agg) { aggCase(c, false); }
FACET(approx) { aggCase(c, true); }

PBT_MAIN
