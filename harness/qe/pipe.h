// Generated query pipelines (scan, projection, filter, aggregation, sort, join, window functions): each step is built
// through the query builder and, side by side, applied to a plain list of rows.
#pragma once
#include <map>
#include <set>

#include "qe/expr.h"

namespace qe {

// ---- aggregates over lists of cells

inline double asDouble(const Cell& c, const Type* t) {
  return t->isFloatingPoint() ? c.d : static_cast<double>(c.i) / static_cast<double>(p10(scaleOf(t)));
}
struct CellLess {
  const Type* t;
  bool operator()(const Cell& a, const Cell& b) const { return cmpCell(a, b, t) < 0; }
};

struct AggSpec {
  AggType kind = AggType::kCount;
  bool distinct = false;
  bool star = false;
  int k = 0;
  double q = 0;
  Interpolation ip = Interpolation::kLinear;
};

inline Cell aggCell(const AggSpec& a, const std::vector<Cell>& all, const Type* t, const std::vector<Cell>& all2, const Type* t2) {
  if (a.kind == AggType::kCount && a.star) {
    return Cell::I(static_cast<int64_t>(all.size()));
  }
  std::vector<Cell> v, v2;
  for (size_t i = 0; i < all.size(); ++i) {
    if (!all[i].null && (a.kind != AggType::kCorr || !all2[i].null)) {
      v.push_back(all[i]);
      if (a.kind == AggType::kCorr) {
        v2.push_back(all2[i]);
      }
    }
  }
  if (a.kind == AggType::kCount) {
    if (a.distinct) {
      std::set<Cell, CellLess> d(CellLess{t});
      d.insert(v.begin(), v.end());
      return Cell::I(static_cast<int64_t>(d.size()));
    }
    return Cell::I(static_cast<int64_t>(v.size()));
  }
  if (a.kind == AggType::kTopK) {
    std::sort(v.begin(), v.end(), [&](auto& x, auto& y) { return a.k > 0 ? cmpCell(x, y, t) > 0 : cmpCell(x, y, t) < 0; });
    v.resize(std::min<size_t>(v.size(), std::abs(a.k)));
    return Cell::A(v);
  }
  if (v.empty()) {
    return Cell::Null();
  }
  switch (a.kind) {
    case AggType::kSum: {
      if (t->isFloatingPoint()) {
        double x = 0;
        for (auto& c : v) {
          x += c.d;
        }
        return Cell::D(x);
      }
      int64_t x = 0;
      for (auto& c : v) {
        x += c.i;
      }
      return Cell::I(x);
    }
    case AggType::kMin:
    case AggType::kMax: {
      Cell b = v[0];
      for (auto& c : v) {
        int k = cmpCell(c, b, t);
        if (a.kind == AggType::kMax ? k > 0 : k < 0) {
          b = c;
        }
      }
      return b;
    }
    case AggType::kAvg: {
      double x = 0;
      for (auto& c : v) {
        x += asDouble(c, t);
      }
      return Cell::D(x / v.size());
    }
    case AggType::kStdDevSamp: {
      if (v.size() < 2) {
        return Cell::Null();
      }
      double m = 0, q = 0, mag = 0;
      for (auto& c : v) {
        m += asDouble(c, t);
        mag += asDouble(c, t) * asDouble(c, t);
      }
      m /= v.size();
      for (auto& c : v) {
        q += (asDouble(c, t) - m) * (asDouble(c, t) - m);
      }
      if (q < 1e-6 * mag && !(t->isInteger() && mag < 1e12)) {
        throw pbt::Discard();  // the variance is lost in rounding
      }
      return Cell::D(std::sqrt(q / (v.size() - 1)));
    }
    case AggType::kCorr: {
      double mx = 0, my = 0, sx = 0, sy = 0, sxy = 0;
      for (size_t i = 0; i < v.size(); ++i) {
        mx += asDouble(v[i], t);
        my += asDouble(v2[i], t2);
      }
      mx /= v.size();
      my /= v.size();
      for (size_t i = 0; i < v.size(); ++i) {
        double x = asDouble(v[i], t) - mx, y = asDouble(v2[i], t2) - my;
        sx += x * x;
        sy += y * y;
        sxy += x * y;
      }
      if (sx < 1e-9 * mx * mx || sy < 1e-9 * my * my || sx == 0 || sy == 0) {
        throw pbt::Discard();  // no correlation with a constant
      }
      return Cell::D(sxy / std::sqrt(sx * sy));
    }
    case AggType::kQuantile: {
      std::sort(v.begin(), v.end(), CellLess{t});
      double pos = a.q * (v.size() - 1);
      size_t lo = static_cast<size_t>(std::floor(pos)), hi = static_cast<size_t>(std::ceil(pos));
      switch (a.ip) {
        case Interpolation::kLower:
          return v[lo];
        case Interpolation::kHigher:
          return v[hi];
        case Interpolation::kNearest:
          return v[static_cast<size_t>(std::round(pos))];
        default: {
          double c = lo == hi ? 0 : a.ip == Interpolation::kMidpoint ? 0.5 : pos - lo;
          double l = t->isFloatingPoint() ? v[lo].d : static_cast<double>(v[lo].i), h = t->isFloatingPoint() ? v[hi].d : static_cast<double>(v[hi].i);
          double w = l + (h - l) * c;
          return t->isFloatingPoint() || t->isInteger() ? Cell::D(w) : Cell::I(static_cast<int64_t>(w));
        }
      }
    }
    default:
      throw pbt::Discard();
  }
}

// ---- ordering and window functions

struct OrdKey {
  bool desc = false;
  bool nulls_first = false;
};
inline int cmpOrd(const Row& a, const Row& b, const std::vector<const Type*>& t, const std::vector<OrdKey>& k) {
  for (size_t i = 0; i < k.size(); ++i) {
    if (a[i].null || b[i].null) {
      if (a[i].null != b[i].null) {
        return (a[i].null == k[i].nulls_first) ? -1 : 1;
      }
      continue;
    }
    if (int c = cmpCell(a[i], b[i], t[i])) {
      return k[i].desc ? -c : c;
    }
  }
  return 0;
}

struct WinSpec {
  WindowFunctionKind kind;
  int n = 1;
  std::vector<Row> part;  // per row
  std::vector<const Type*> part_t;
  std::vector<Row> ord;
  std::vector<const Type*> ord_t;
  std::vector<OrdKey> keys;
  std::vector<Cell> arg;
  const Type* arg_t = nullptr;
};

inline std::vector<Cell> windowCells(const WinSpec& w, size_t rows) {
  std::vector<Cell> out(rows);
  std::vector<size_t> idx(rows);
  for (size_t i = 0; i < rows; ++i) {
    idx[i] = i;
  }
  auto part_cmp = [&](size_t a, size_t b) {
    for (size_t i = 0; i < w.part_t.size(); ++i) {
      if (int c = cmpCell(w.part[a][i], w.part[b][i], w.part_t[i])) {
        return c;
      }
    }
    return 0;
  };
  auto ord_cmp = [&](size_t a, size_t b) { return w.keys.empty() ? 0 : cmpOrd(w.ord[a], w.ord[b], w.ord_t, w.keys); };
  std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) {
    int c = part_cmp(a, b);
    return c ? c < 0 : ord_cmp(a, b) < 0;
  });
  for (size_t b = 0; b < rows;) {
    size_t e = b;
    while (e < rows && !part_cmp(idx[b], idx[e])) {
      ++e;
    }
    size_t n = e - b;
    size_t rank = 0, dense = 0, peers_end = 0;
    for (size_t p = 0; p < n; ++p) {
      size_t row = idx[b + p];
      if (p == 0 || ord_cmp(idx[b + p - 1], row) != 0) {
        rank = p + 1;
        ++dense;
        peers_end = p;
        while (peers_end < n && !ord_cmp(row, idx[b + peers_end])) {
          ++peers_end;
        }
      }
      auto shifted = [&](int64_t d) {
        int64_t q = static_cast<int64_t>(p) + d;
        return q < 0 || q >= static_cast<int64_t>(n) ? Cell::Null() : w.arg[idx[b + q]];
      };
      auto agg = [&](AggType k, bool star = false) {
        std::vector<Cell> v;
        for (size_t q = 0; q < (w.keys.empty() ? n : peers_end); ++q) {
          v.push_back(w.arg.empty() ? Cell::I(1) : w.arg[idx[b + q]]);
        }
        AggSpec a;
        a.kind = k;
        a.star = star;
        return aggCell(a, v, w.arg_t, {}, nullptr);
      };
      Cell c;
      switch (w.kind) {
        case WindowFunctionKind::RowNumber:
          c = Cell::I(static_cast<int64_t>(p + 1));
          break;
        case WindowFunctionKind::Rank:
          c = Cell::I(static_cast<int64_t>(rank));
          break;
        case WindowFunctionKind::DenseRank:
          c = Cell::I(static_cast<int64_t>(dense));
          break;
        case WindowFunctionKind::PercentRank:
          c = Cell::D(n == 1 ? 0.0 : static_cast<double>(rank - 1) / static_cast<double>(n - 1));
          break;
        case WindowFunctionKind::Lag:
          c = shifted(-w.n);
          break;
        case WindowFunctionKind::Lead:
          c = shifted(w.n);
          break;
        case WindowFunctionKind::FirstValue:
          c = w.arg[idx[b]];
          break;
        case WindowFunctionKind::LastValue:
          c = w.arg[idx[b + n - 1]];
          break;
        case WindowFunctionKind::Avg:
          c = agg(AggType::kAvg);
          break;
        case WindowFunctionKind::Min:
          c = agg(AggType::kMin);
          break;
        case WindowFunctionKind::Max:
          c = agg(AggType::kMax);
          break;
        case WindowFunctionKind::Sum:
          c = agg(AggType::kSum);
          break;
        case WindowFunctionKind::Count:
          c = agg(AggType::kCount, w.arg.empty());
          break;
        default:
          throw pbt::Discard();
      }
      out[row] = c;
    }
    b = e;
  }
  return out;
}

// ---- relations

struct Rel {
  BuilderNode n;
  std::vector<const Type*> types;
  std::vector<std::string> names;
  std::vector<bool> exact;  // floating point columns without rounding errors
  std::vector<Row> rows;
  std::string s;
  bool scan = false;        // the last column is the row id
  int steps = 0;
  bool window = false;
  bool joined = false;
  bool aggregated = false;
  bool limited = false;
  // set when the rows come in an order
  std::vector<size_t> order_cols;
  std::vector<OrdKey> order;

  size_t size() const { return types.size(); }
  Row key(const Row& r) const {
    Row k;
    for (auto c : order_cols) {
      k.push_back(r[c]);
    }
    return k;
  }
  std::vector<const Type*> keyTypes() const {
    std::vector<const Type*> k;
    for (auto c : order_cols) {
      k.push_back(types[c]);
    }
    return k;
  }
};

struct NameModel {
  std::set<std::string> used;
  std::string choose(const std::string& name) const {
    std::string base = name.empty() ? "expr" : name;
    if (!name.empty() && !used.count(name)) {
      return name;
    }
    for (int i = 1;; ++i) {
      std::string c = base + "_" + std::to_string(i);
      if (!used.count(c)) {
        return c;
      }
    }
  }
  // (name, automatic) pairs to field names
  static std::vector<std::string> fields(const std::vector<std::pair<std::string, bool>>& in) {
    NameModel m;
    for (auto& p : in) {
      if (!p.second) {
        m.used.insert(p.first);
      }
    }
    std::vector<std::string> out;
    for (auto& p : in) {
      out.push_back(p.second ? m.choose(p.first) : p.first);
      m.used.insert(out.back());
    }
    return out;
  }
};

struct PipeOpts {
  bool sort = true, join = true, window = true, agg = true, filter = true, proj = true;
  bool left_join = true, expr_join = true;
  bool dates = true;
  bool rowid = true;
  bool stat_aggs = true;  // stddev, corr, quantile, topk
  size_t max_rows = 12;
  bool bigint_count = false;
  bool count_distinct = true;
  bool shared = true;  // parts of the query used several times
  unsigned w_proj = 4, w_filter = 4, w_agg = 3, w_sort = 3, w_window = 2;
  unsigned w_stat = 1;
  unsigned join_share = 3;  // eighths of the queries that are joins
  unsigned nested_join_share = 0;
  bool force_sort = false;
};

class Pipe {
 public:
  Pipe(pbt::Src& s, QueryBuilder& qb, std::function<Table(pbt::Src&, Table)> make, PipeOpts o = {}) : s(s), qb(qb), make_(std::move(make)), o(o) {}

  pbt::Src& s;
  QueryBuilder& qb;
  std::vector<Table> tables;

  const Type* genType() {
    switch (s.weighted({8, 3, 3, 2, 4, o.dates ? 2u : 0u})) {
      case 0:
        return genIntType(s);
      case 1:
        return ctx().fp64(!s.chance(1, 4));
      case 2:
        return ctx().decimal64(static_cast<int>(s.range(4, 9)), static_cast<int>(s.range(0, 2)), !s.chance(1, 4));
      case 3:
        return ctx().boolean(!s.chance(1, 4));
      case 4:
        return ctx().extDict(ctx().text(!s.chance(1, 5)), 0, 4);
      default:
        return s.draw(1) ? static_cast<const Type*>(ctx().date32(TimeUnit::kDay, !s.chance(1, 4))) : ctx().timestamp(TimeUnit::kSecond, !s.chance(1, 4));
    }
  }
  std::string newName(std::set<std::string>& used) {
    static const std::vector<std::string> pool = {"a", "b", "c", "x", "a_1", "expr_1", "Key", "B", "count", "a_sum", "col with space"};
    std::string n = s.pick(pool);
    while (!used.insert(n).second) {
      n += "x";
    }
    return n;
  }

  Rel scan() {
    Table t;
    t.name = "t" + std::to_string(tables.size());
    size_t ncols = s.size(1, 4);
    t.rows = (o.join_share == 8 || o.force_sort) && !s.chance(1, 8) ? s.size(2, o.max_rows) : s.logsize(o.max_rows);
    t.frag = genFragSize(s, t.rows);
    std::set<std::string> used{"rowid"};
    for (size_t i = 0; i < ncols; ++i) {
      Col c;
      c.name = newName(used);
      c.type = o.join_share == 8 && !i && !s.chance(1, 4) ? genIntType(s) : genType();
      ValueStyle st;
      st.domain = static_cast<int>(s.pick<int>({4, 2, 8, 15}));
      st.null_pct = s.pick<int>({15, 40, 0});
      for (size_t r = 0; r < t.rows; ++r) {
        c.cells.push_back(genCell(s, c.type, st));
      }
      t.cols.push_back(std::move(c));
    }
    t = make_(s, std::move(t));
    tables.push_back(t);
    Rel r;
    switch (s.draw(2)) {
      case 0:
        r.n = qb.scan(t.name);
        break;
      case 1:
        r.n = qb.scan(mem::kDbId, t.name);
        break;
      default:
        r.n = qb.scan(mem::kDbId, t.id);
    }
    r.scan = true;
    for (size_t i = 0; i < t.cols.size(); ++i) {
      r.types.push_back(canonDate(t.types[i]));
      r.names.push_back(t.cols[i].name);
    }
    r.types.push_back(ctx().int64(false));
    r.names.push_back("rowid");
    r.exact.assign(r.types.size(), true);
    r.rows = t.allRows();
    for (size_t i = 0; i < r.rows.size(); ++i) {
      r.rows[i].push_back(Cell::I(static_cast<int64_t>(i)));
    }
    r.s = t.name;
    check(r);
    return r;
  }

  // Names and types of the node are what the model says.
  void check(const Rel& r) {
    if (r.n.size() != static_cast<int>(r.size())) {
      throw pbt::Fail(r.s + " has " + std::to_string(r.n.size()) + " columns, expected " + std::to_string(r.size()));
    }
    for (size_t i = 0; i < r.size(); ++i) {
      auto nm = r.n.node()->getFieldName(i);
      if (nm != r.names[i]) {
        throw pbt::Fail("column " + std::to_string(i) + " of " + r.s + " is called '" + nm + "', expected '" + r.names[i] + "'");
      }
      auto ref = r.n.ref(static_cast<int>(i));
      auto info = r.n.columnInfo(static_cast<int>(i) - (s.draw(1) ? static_cast<int>(r.size()) : 0));
      const Type* got = canonDate(ref.type());
      if (!sameType(got, r.types[i])) {
        throw pbt::Fail("column " + std::to_string(i) + " of " + r.s + " is of type " + got->toString() + ", expected " + r.types[i]->toString());
      }
      if (r.types[i]->nullable() && !got->nullable()) {
        throw pbt::Fail("column " + std::to_string(i) + " of " + r.s + " can be NULL but its type is " + got->toString());
      }
      if (info->name != nm || canonDate(info->type) != got) {
        throw pbt::Fail("column info of column " + std::to_string(i) + " of " + r.s + " is " + info->toString() + ", expected " + nm + " " + got->toString());
      }
      if (ref.name() != nm) {
        throw pbt::Fail("a reference to column " + std::to_string(i) + " of " + r.s + " is called " + ref.name());
      }
    }
  }

  Gen gen(const Rel& r) {
    Gen g{s, qb, {}};
    g.addCols(r.n, r.types);
    for (size_t i = 0; i < r.size(); ++i) {
      g.cols[i].exact = r.exact[i];
    }
    return g;
  }
  // A column reference written in one of the possible ways.
  BuilderExpr ref(const Rel& r, size_t i) {
    switch (s.draw(3)) {
      case 0:
        return r.n.ref(static_cast<int>(i));
      case 1:
        return r.n.ref(static_cast<int>(i) - static_cast<int>(r.size()));
      case 2:
        return r.n.ref(r.names[i]);
      default:
        return s.draw(1) ? r.n[static_cast<int>(i)] : r.n[r.names[i]];
    }
  }
  size_t anyCol(const Rel& r) { return s.draw(r.size() - (r.scan && !(o.rowid && s.chance(1, 6)) ? 2 : 1)); }

  Cell eval(const Ex& e, const Row& r) {
    Cx c;
    Cell v = e.f(r, c);
    if (c.strict || c.maybe || c.amb) {
      throw pbt::Discard();
    }
    return v;
  }
  static bool exactEx(const Ex& e) { return !e.t->isFloatingPoint() || e.exact; }

  Rel project(const Rel& in) {
    Rel r;
    std::vector<std::pair<std::string, bool>> nm;
    std::vector<Ex> ex;
    std::vector<int> src;  // column of the input or -1
    size_t n = s.size(1, 4);
    Gen g = gen(in);
    std::set<std::string> used;
    bool refs_only = s.chance(1, 3);
    for (size_t i = 0; i < n; ++i) {
      if (refs_only || s.chance(1, 2)) {
        size_t c = anyCol(in);
        Ex e = g.cols[c];
        e.b = ref(in, c);
        ex.push_back(e);
        src.push_back(static_cast<int>(c));
      } else {
        ex.push_back(s.draw(2) ? g.num(static_cast<int>(s.range(1, 2))) : g.boolean(2));
        src.push_back(-1);
      }
    }
    std::vector<std::string> fields;
    bool explicit_fields = s.chance(1, 4);
    r.s = in.s + ".proj(";
    for (size_t i = 0; i < n; ++i) {
      auto& e = ex[i];
      if (explicit_fields) {
        fields.push_back(newName(used));
        nm.push_back({fields.back(), false});
      } else if (!refs_only && s.chance(1, 4)) {
        e.b = e.b.rename(newName(used));
        nm.push_back({e.b.name(), false});
      } else {
        nm.push_back({src[i] >= 0 ? in.names[src[i]] : e.b.name(), true});
      }
      r.s += (i ? ", " : "") + e.s + " as " + (nm.back().second ? "auto" : nm.back().first);
      r.types.push_back(e.t);
      r.exact.push_back(exactEx(e));
    }
    r.s += ")";
    r.names = NameModel::fields(nm);
    if (refs_only) {
      std::vector<int> idx;
      std::vector<std::string> names;
      for (auto c : src) {
        idx.push_back(s.draw(1) ? c : c - static_cast<int>(in.size()));
        names.push_back(in.names[c]);
      }
      bool by_name = s.draw(1);
      if (n == 1 && s.draw(1)) {
        r.n = explicit_fields ? (by_name ? in.n.proj(names[0], fields[0]) : in.n.proj(idx[0], fields[0])) : (by_name ? in.n.proj(names[0]) : in.n.proj(idx[0]));
      } else if (n == 2 && s.draw(1)) {
        r.n = explicit_fields ? (by_name ? in.n.proj({names[0], names[1]}, fields) : in.n.proj({idx[0], idx[1]}, fields)) : (by_name ? in.n.proj({names[0], names[1]}) : in.n.proj({idx[0], idx[1]}));
      } else {
        r.n = explicit_fields ? (by_name ? in.n.proj(names, fields) : in.n.proj(idx, fields)) : (by_name ? in.n.proj(names) : in.n.proj(idx));
      }
    } else {
      std::vector<BuilderExpr> be;
      for (auto& e : ex) {
        be.push_back(e.b);
      }
      if (n == 1 && s.draw(1)) {
        r.n = explicit_fields ? in.n.proj(be[0], fields[0]) : in.n.proj(be[0]);
      } else {
        r.n = explicit_fields ? in.n.proj(be, fields) : in.n.proj(be);
      }
    }
    for (auto& row : in.rows) {
      Row x;
      for (auto& e : ex) {
        x.push_back(eval(e, row));
      }
      r.rows.push_back(x);
    }
    inherit(r, in);
    // the order survives if its columns do
    for (size_t k = 0; k < in.order_cols.size(); ++k) {
      size_t j = 0;
      while (j < n && src[j] != static_cast<int>(in.order_cols[k])) {
        ++j;
      }
      if (j == n) {
        break;
      }
      r.order_cols.push_back(j);
      r.order.push_back(in.order[k]);
    }
    check(r);
    return r;
  }
  void inherit(Rel& r, const Rel& in) {
    r.steps = in.steps + 1;
    r.window = r.window || in.window;
    r.joined = r.joined || in.joined;
    r.aggregated = r.aggregated || in.aggregated;
    r.limited = r.limited || in.limited;
  }

  Rel filter(const Rel& in) {
    Gen g = gen(in);
    if (in.scan && !(o.rowid && s.chance(1, 5))) {
      g.cols.pop_back();
    }
    Ex cond = g.boolean(static_cast<int>(s.range(1, 2)));
    Rel r = in;
    r.scan = false;
    r.steps = in.steps + 1;
    r.n = in.n.filter(cond.b);
    r.s = in.s + ".filter(" + cond.s + ")";
    if (in.scan) {
      // the row id goes unless the condition uses it
      bool keep = r.n.size() == static_cast<int>(in.size());
      bool uses = cond.s.find("rowid") != std::string::npos;
      if (!keep && uses && cond.b.expr()->toString().find(":" + std::to_string(in.size() - 1) + ")") != std::string::npos) {
        throw pbt::Fail(r.s + " has no row id although the condition uses it");
      }
      if (!keep) {
        dropLast(r);
      }
    }
    std::vector<Row> rows;
    for (size_t i = 0; i < in.rows.size(); ++i) {
      Cell c = eval(cond, in.rows[i]);
      if (!c.null && c.i) {
        rows.push_back(r.rows[i]);
      }
    }
    r.rows = rows;
    check(r);
    return r;
  }
  void dropLast(Rel& r) {
    r.types.pop_back();
    r.names.pop_back();
    r.exact.pop_back();
    for (auto& x : r.rows) {
      x.pop_back();
    }
  }

  const Type* countType() { return o.bigint_count ? ctx().int64(false) : ctx().int32(false); }

  Rel aggregate(const Rel& in) {
    Rel r;
    size_t nkeys = s.draw(2), naggs = s.draw(3);
    if (!nkeys && !naggs) {
      naggs = 1;
    }
    std::vector<size_t> keys;
    std::vector<BuilderExpr> kb;
    std::vector<std::pair<std::string, bool>> nm;
    std::set<std::string> used;
    bool plain_keys = true;
    for (size_t i = 0; i < nkeys; ++i) {
      size_t c = anyCol(in);
      if (in.types[c]->isFloatingPoint() || in.types[c]->isArray() || std::count(keys.begin(), keys.end(), c)) {
        continue;
      }
      keys.push_back(c);
      BuilderExpr b = ref(in, c);
      if (s.chance(1, 6)) {
        b = b.rename(newName(used));
        nm.push_back({b.name(), false});
        plain_keys = false;
      } else {
        nm.push_back({in.names[c], true});
      }
      kb.push_back(b);
    }
    std::vector<AggSpec> specs;
    std::vector<size_t> args, args2;
    std::vector<BuilderExpr> ab;
    std::vector<std::string> astr;
    bool strings = true;
    std::vector<const Type*> at;
    std::string text;
    for (size_t i = 0; i < naggs; ++i) {
      size_t c = anyCol(in), c2 = anyCol(in);
      const Type* t = in.types[c];
      AggSpec a;
      BuilderExpr b;
      const Type* rt = nullptr;
      std::string name, str;
      std::string col = in.names[c];
      switch (s.weighted({3, 3, 4, 3, 3, 3, 3, o.stat_aggs ? 2 * o.w_stat : 0u, o.stat_aggs ? 2 * o.w_stat : 0u, o.stat_aggs ? 2 * o.w_stat : 0u, o.stat_aggs ? 2 * o.w_stat : 0u})) {
        case 0:
          a.star = true;
          b = s.draw(1) ? qb.count() : in.n.count();
          rt = countType();
          name = "count";
          str = s.pick<std::string>({"count", "count(*)", "COUNT(1)", "count()", " Count "});
          break;
        case 1:
          b = s.draw(1) ? in.n.ref(static_cast<int>(c)).count() : s.draw(1) ? in.n.count(static_cast<int>(c)) : in.n.count(col);
          rt = countType();
          name = col + "_count";
          str = "count(" + col + ")";
          break;
        case 2:
          a.kind = AggType::kSum;
          if (!t->isNumber()) {
            continue;
          }
          b = ref(in, c).sum();
          rt = t->isInteger() ? ctx().int64(t->nullable()) : t;
          name = col + "_sum";
          str = "sum( " + col + ")";
          break;
        case 3:
        case 4: {
          bool mx = s.draw(1);
          a.kind = mx ? AggType::kMax : AggType::kMin;
          if (!t->isNumber() && !t->isDateTime()) {
            continue;
          }
          b = mx ? ref(in, c).max() : ref(in, c).min();
          rt = t;
          name = col + (mx ? "_max" : "_min");
          str = (mx ? "MAX(" : "min(") + col + ")";
          break;
        }
        case 5:
          a.kind = AggType::kAvg;
          if (!t->isNumber()) {
            continue;
          }
          b = ref(in, c).avg();
          rt = ctx().fp64();
          name = col + "_avg";
          str = "avg(" + col + " )";
          break;
        case 6:
          a.distinct = true;
          if (t->isFloatingPoint() || t->isArray() || !o.count_distinct) {
            continue;
          }
          b = s.draw(1) ? ref(in, c).count(true) : in.n.count(static_cast<int>(c), true);
          rt = countType();
          name = col + "_count_dist";
          str = s.pick<std::string>({"count_dist", "count_distinct", "count dist", "COUNT distinct"}) + "(" + col + ")";
          break;
        case 7:
          a.kind = AggType::kStdDevSamp;
          if (!t->isNumber() || !in.exact[c]) {
            continue;
          }
          b = ref(in, c).stdDev();
          rt = ctx().fp64();
          name = col + "_stddev";
          str = s.pick<std::string>({"stddev", "stddev_samp", "STDDEV samp"}) + "(" + col + ")";
          break;
        case 8:
          a.kind = AggType::kCorr;
          if (!t->isNumber() || !in.types[c2]->isNumber() || !in.exact[c] || !in.exact[c2]) {
            continue;
          }
          b = ref(in, c).corr(ref(in, c2));
          rt = ctx().fp64();
          name = col + "_corr_" + in.names[c2];
          str = "corr(" + col + ", " + in.names[c2] + ")";
          break;
        case 9:
          a.kind = AggType::kTopK;
          if (!t->isNumber() || t->isDecimal() || !in.exact[c]) {
            continue;
          }
          a.k = static_cast<int>(s.pick<int>({1, 2, 3, -1, -2}));
          b = a.k > 0 ? ref(in, c).topK(a.k) : ref(in, c).bottomK(-a.k);
          rt = ctx().arrayVarLen(t, 4, false);
          name = col + (a.k > 0 ? "_top_" : "_bottom_") + std::to_string(std::abs(a.k));
          str = (a.k > 0 ? "topk(" : "bottom_k(") + col + "," + std::to_string(std::abs(a.k)) + ")";
          break;
        default:
          a.kind = AggType::kQuantile;
          if (!t->isInteger() && !t->isFp64()) {
            continue;
          }
          a.q = s.pick<double>({0.5, 0.0, 1.0, 0.25});
          a.ip = s.pick<Interpolation>({Interpolation::kLinear, Interpolation::kLinear, Interpolation::kLower, Interpolation::kHigher});
          if (a.ip != Interpolation::kLinear) {
            strings = false;
          }
          b = ref(in, c).quantile(a.q, a.ip);
          rt = a.ip == Interpolation::kLinear && t->isInteger() ? static_cast<const Type*>(ctx().fp64()) : t;
          name = col + "_quantile";
          {
            std::ostringstream os;
            os.setf(std::ios::fixed);
            os.precision(2);
            os << a.q;
            str = "quantile(" + col + ", " + os.str() + ")";
          }
      }
      if (s.chance(1, 6)) {
        b = b.rename(newName(used));
        nm.push_back({b.name(), false});
        strings = false;
      } else {
        nm.push_back({name, true});
      }
      specs.push_back(a);
      args.push_back(c);
      args2.push_back(c2);
      ab.push_back(b);
      at.push_back(rt);
      astr.push_back(str);
      text += (text.empty() ? "" : ", ") + str;
    }
    if (keys.empty() && specs.empty()) {
      throw pbt::Discard();
    }
    std::string kt;
    for (size_t i = 0; i < keys.size(); ++i) {
      kt += (i ? "," : "") + in.names[keys[i]];
    }
    r.s = in.s + ".agg({" + kt + "}, {" + text + "})";
    // commas and brackets in names cannot be written in the text form
    for (auto& x : astr) {
      if (x.find("space") != std::string::npos && x.find(',') != std::string::npos) {
        strings = false;
      }
    }
    std::vector<std::string> kn;
    std::vector<int> ki;
    for (auto k : keys) {
      kn.push_back(in.names[k]);
      ki.push_back(static_cast<int>(k) - (s.draw(1) ? static_cast<int>(in.size()) : 0));
    }
    bool use_str = strings && s.draw(1) && !astr.empty();
    int form = plain_keys ? static_cast<int>(s.draw(3)) : 0;
    if (form == 1) {
      r.n = use_str ? in.n.agg(ki, astr) : in.n.agg(ki, ab);
    } else if (form == 2) {
      r.n = use_str ? in.n.agg(kn, astr) : in.n.agg(kn, ab);
    } else if (form == 3 && keys.size() == 1 && ab.size() == 1) {
      r.n = use_str ? (s.draw(1) ? in.n.agg(kn[0], astr[0]) : in.n.agg(ki[0], astr[0])) : (s.draw(1) ? in.n.agg(kn[0], ab[0]) : in.n.agg(ki[0], ab[0]));
    } else {
      r.n = use_str ? in.n.agg(kb, astr) : in.n.agg(kb, ab);
    }
    r.names = NameModel::fields(nm);
    std::vector<const Type*> key_t;
    for (auto k : keys) {
      r.types.push_back(in.types[k]);
      key_t.push_back(in.types[k]);
      r.exact.push_back(in.exact[k]);
    }
    for (size_t i = 0; i < at.size(); ++i) {
      const Type* t = at[i];
      r.types.push_back(t);
      r.exact.push_back(!t->isFloatingPoint() || ((specs[i].kind == AggType::kMin || specs[i].kind == AggType::kMax) && in.exact[args[i]]));
    }
    auto less = [&](const Row& a, const Row& b) {
      for (size_t i = 0; i < key_t.size(); ++i) {
        if (int c = cmpCell(a[i], b[i], key_t[i])) {
          return c < 0;
        }
      }
      return false;
    };
    std::map<Row, std::vector<Row>, decltype(less)> groups(less);
    if (keys.empty()) {
      groups[{}];
    }
    for (auto& row : in.rows) {
      Row k;
      for (auto c : keys) {
        k.push_back(row[c]);
      }
      groups[k].push_back(row);
    }
    for (auto& [k, g] : groups) {
      Row out = k;
      for (size_t i = 0; i < specs.size(); ++i) {
        std::vector<Cell> v, v2;
        for (auto& row : g) {
          v.push_back(row[args[i]]);
          v2.push_back(row[args2[i]]);
        }
        out.push_back(aggCell(specs[i], v, in.types[args[i]], v2, in.types[args2[i]]));
        if (out.back().null && !r.types[k.size() + i]->nullable()) {
          throw pbt::Discard();  // an aggregate of no values of a column that cannot be NULL
        }
      }
      r.rows.push_back(out);
    }
    inherit(r, in);
    r.aggregated = true;
    check(r);
    return r;
  }

  bool sortable(const Type* t) const { return !t->isArray() && !(t->isExtDictionary()); }

  Rel sort(const Rel& in0) {
    Rel in = in0;
    std::vector<size_t> cols;
    std::vector<OrdKey> keys;
    size_t limit = 0, offset = 0;
    if (s.chance(1, 2)) {
      limit = o.force_sort && s.draw(1) ? s.draw(o.max_rows + 3) : s.draw(6);
      offset = s.chance(1, 3) ? s.draw(3) : 0;
    }
    bool uses_rowid = false;
    bool total = limit || offset || s.draw(1);
    size_t avail = in.size() - (in.scan ? 1 : 0);
    auto add = [&](size_t c) {
      if (sortable(in.types[c]) && in.exact[c] && !std::count(cols.begin(), cols.end(), c)) {
        cols.push_back(c);
      }
    };
    for (size_t i = 0, n = s.size(1, 2); i < n; ++i) {
      add(s.draw(avail - 1));
    }
    if (in.scan && o.rowid && s.chance(1, 8)) {
      add(in.size() - 1);
    }
    if (total) {
      for (size_t c = 0; c < avail; ++c) {
        add(c);
      }
    }
    if (cols.empty()) {
      throw pbt::Discard();
    }
    bool uniform = s.draw(1);
    for (size_t i = 0; i < cols.size(); ++i) {
      OrdKey k = uniform && i ? keys[0] : OrdKey{s.draw(1) == 1, s.draw(1) == 1};
      keys.push_back(k);
      uses_rowid = uses_rowid || (in.scan && cols[i] == in.size() - 1);
    }
    Rel r = in;
    r.s = in.s + ".sort(";
    std::vector<BuilderSortField> fields;
    std::vector<int> idx;
    std::vector<std::string> names;
    std::vector<BuilderExpr> refs;
    for (size_t i = 0; i < cols.size(); ++i) {
      bool d = keys[i].desc, nf = keys[i].nulls_first;
      auto dir = d ? SortDirection::Descending : SortDirection::Ascending;
      auto np = nf ? NullSortedPosition::First : NullSortedPosition::Last;
      std::string ds = d ? s.pick<std::string>({"desc", "DESC", " Descending"}) : s.pick<std::string>({"asc", "Ascending", "ASC "});
      std::string ns = nf ? s.pick<std::string>({"first", "FIRST"}) : s.pick<std::string>({"last", " Last "});
      int ci = static_cast<int>(cols[i]) - (s.draw(1) ? static_cast<int>(in.size()) : 0);
      std::string cn = in.names[cols[i]];
      idx.push_back(ci);
      names.push_back(cn);
      refs.push_back(ref(in, cols[i]));
      switch (s.draw(5)) {
        case 0:
          fields.emplace_back(ci, dir, np);
          break;
        case 1:
          fields.emplace_back(ci, ds, ns);
          break;
        case 2:
          fields.emplace_back(cn, dir, np);
          break;
        case 3:
          fields.emplace_back(cn, ds, ns);
          break;
        case 4:
          fields.emplace_back(refs.back(), dir, np);
          break;
        default:
          fields.emplace_back(refs.back(), ds, ns);
      }
      r.s += (i ? ", " : "") + cn + (d ? " desc" : " asc") + (nf ? " nulls first" : " nulls last");
    }
    r.s += (limit ? ", limit " + std::to_string(limit) : "") + (offset ? ", offset " + std::to_string(offset) : "") + ")";
    auto dir = keys[0].desc ? SortDirection::Descending : SortDirection::Ascending;
    auto np = keys[0].nulls_first ? NullSortedPosition::First : NullSortedPosition::Last;
    std::string ds = keys[0].desc ? "desc" : "asc", ns = keys[0].nulls_first ? "first" : "last";
    if (uniform && s.draw(1)) {
      switch (s.draw(5)) {
        case 0:
          r.n = in.n.sort(idx, dir, np, limit, offset);
          break;
        case 1:
          r.n = in.n.sort(idx, ds, ns, limit, offset);
          break;
        case 2:
          r.n = in.n.sort(names, dir, np, limit, offset);
          break;
        case 3:
          r.n = in.n.sort(names, ds, ns, limit, offset);
          break;
        case 4:
          r.n = in.n.sort(refs, dir, np, limit, offset);
          break;
        default:
          r.n = in.n.sort(refs, ds, ns, limit, offset);
      }
    } else if (fields.size() == 1 && s.draw(1)) {
      r.n = in.n.sort(fields[0], limit, offset);
    } else {
      r.n = in.n.sort(fields, limit, offset);
    }
    if (in.scan && !uses_rowid) {
      dropLast(r);
    }
    r.scan = false;
    r.steps = in.steps + 1;
    r.limited = in.limited || limit || offset;
    r.order_cols = cols;
    r.order = keys;
    auto kt = r.keyTypes();
    std::stable_sort(r.rows.begin(), r.rows.end(), [&](const Row& a, const Row& b) { return cmpOrd(r.key(a), r.key(b), kt, r.order) < 0; });
    if (limit || offset) {
      size_t b = std::min(offset, r.rows.size()), e = limit ? std::min(r.rows.size(), offset + limit) : r.rows.size();
      // which of several rows with the same key are cut off is not defined
      auto ambiguous = [&](size_t at) {
        return at > 0 && at < r.rows.size() && !cmpOrd(r.key(r.rows[at - 1]), r.key(r.rows[at]), kt, r.order) && !sameRow(r.rows[at - 1], r.rows[at], r.types, 0);
      };
      // ties beyond neighbours
      auto cut_ok = [&](size_t at) {
        if (at == 0 || at >= r.rows.size()) {
          return true;
        }
        size_t lo = at, hi = at;
        while (lo > 0 && !cmpOrd(r.key(r.rows[lo - 1]), r.key(r.rows[at]), kt, r.order)) {
          --lo;
        }
        while (hi < r.rows.size() && !cmpOrd(r.key(r.rows[hi]), r.key(r.rows[at]), kt, r.order)) {
          ++hi;
        }
        if (lo == at) {
          return true;
        }
        for (size_t i = lo + 1; i < hi; ++i) {
          if (!sameRow(r.rows[i], r.rows[lo], r.types, 0)) {
            return false;
          }
        }
        return true;
      };
      if (ambiguous(b) || ambiguous(e) || !cut_ok(b) || !cut_ok(e)) {
        throw pbt::Discard();
      }
      r.rows = std::vector<Row>(r.rows.begin() + b, r.rows.begin() + e);
    }
    check(r);
    return r;
  }

  bool joinable(const Type* a, const Type* b) const {
    return (a->isInteger() && b->isInteger()) || (a->isExtDictionary() && b->isExtDictionary()) || (a->isDate() && b->isDate()) ||
           (a->isTimestamp() && b->isTimestamp());
  }
  Rel join(const Rel& l, const Rel& r) {
    Rel out;
    if (l.n.node() == r.n.node()) {
      throw pbt::Discard();  // references to the two sides are the same
    }
    bool left = o.left_join && s.chance(1, 3);
    auto jt = left ? JoinType::LEFT : JoinType::INNER;
    std::string js = left ? s.pick<std::string>({"left", "LEFT", " Left"}) : s.pick<std::string>({"inner", "INNER "});
    std::vector<std::pair<size_t, size_t>> pairs;
    for (size_t i = 0; i < l.size() - l.scan; ++i) {
      for (size_t j = 0; j < r.size() - r.scan; ++j) {
        if (joinable(l.types[i], r.types[j])) {
          pairs.push_back({i, j});
        }
      }
    }
    if (pairs.empty()) {
      throw pbt::Discard();
    }
    std::vector<std::pair<size_t, size_t>> on;
    for (size_t n = s.size(1, 2); n; --n) {
      auto p = s.pick(pairs);
      bool dup = false;
      for (auto& q : on) {
        dup = dup || q.second == p.second;
      }
      if (!dup) {
        on.push_back(p);
      }
    }
    std::set<size_t> excluded;
    std::optional<Ex> extra;
    std::vector<std::string> ln, rn;
    for (auto& p : on) {
      ln.push_back(l.names[p.first]);
      rn.push_back(r.names[p.second]);
    }
    std::string desc;
    int form = static_cast<int>(s.draw(o.expr_join ? 2 : 1));
    // natural join: every common name has to be comparable
    std::set<std::string> common;
    bool natural_ok = true;
    for (size_t i = 0; i < l.size() - l.scan; ++i) {
      for (size_t j = 0; j < r.size() - r.scan; ++j) {
        if (l.names[i] == r.names[j]) {
          common.insert(l.names[i]);
          natural_ok = natural_ok && joinable(l.types[i], r.types[j]);
        }
      }
    }
    if (!common.empty() && natural_ok && s.draw(1)) {
      form = 3;
    }
    if (form == 0 || form == 1) {
      if (form == 0 && ln == rn) {
        out.n = s.draw(1) ? l.n.join(r.n, ln, jt) : l.n.join(r.n, ln, js);
      } else {
        out.n = s.draw(1) ? l.n.join(r.n, ln, rn, jt) : l.n.join(r.n, ln, rn, js);
      }
      for (auto& p : on) {
        excluded.insert(p.second);
      }
      desc = "equi";
    } else if (form == 3) {
      on.clear();
      for (auto& c : common) {
        size_t i = std::find(l.names.begin(), l.names.end(), c) - l.names.begin();
        size_t j = std::find(r.names.begin(), r.names.end(), c) - r.names.begin();
        on.push_back({i, j});
        excluded.insert(j);
      }
      out.n = s.draw(1) ? l.n.join(r.n, jt) : l.n.join(r.n, js);
      desc = "natural";
    } else {
      BuilderExpr cond = ref(l, on[0].first).eq(ref(r, on[0].second));
      for (size_t i = 1; i < on.size(); ++i) {
        cond = cond.logicalAnd(ref(l, on[i].first).eq(ref(r, on[i].second)));
      }
      if (s.chance(1, 3)) {
        // a further comparison between the two sides
        Gen g{s, qb, {}};
        g.addCols(l.n, l.types);
        Gen h{s, qb, {}};
        h.addCols(r.n, r.types, l.size());
        auto a = g.anyCol([](const Type* t) { return t->isInteger(); });
        auto b = h.anyCol([](const Type* t) { return t->isInteger(); });
        if (a && b) {
          extra = compare(static_cast<int>(s.range(1, 5)), *a, *b);
          cond = s.draw(1) ? cond.logicalAnd(extra->b) : extra->b.logicalAnd(cond);
        }
      }
      out.n = s.draw(1) ? l.n.join(r.n, cond, jt) : l.n.join(r.n, cond, js);
      desc = "cond";
    }
    out.s = "(" + l.s + ").join(" + r.s + ", " + desc + " on";
    for (auto& p : on) {
      out.s += " " + l.names[p.first] + "=" + r.names[p.second];
    }
    out.s += (extra ? " and " + extra->s : "") + (left ? ", left)" : ", inner)");
    std::vector<std::pair<std::string, bool>> nm;
    std::vector<std::pair<int, size_t>> src;
    for (size_t i = 0; i < l.size() - l.scan; ++i) {
      nm.push_back({l.names[i], true});
      src.push_back({0, i});
      out.types.push_back(l.types[i]);
      out.exact.push_back(l.exact[i]);
    }
    for (size_t j = 0; j < r.size() - r.scan; ++j) {
      if (!excluded.count(j)) {
        nm.push_back({r.names[j], true});
        src.push_back({1, j});
        out.types.push_back(left ? r.types[j]->withNullable(true) : r.types[j]);
        out.exact.push_back(r.exact[j]);
      }
    }
    out.names = NameModel::fields(nm);
    auto emit = [&](const Row& a, const Row* b) {
      Row x;
      for (auto& p : src) {
        x.push_back(p.first == 0 ? a[p.second] : b ? (*b)[p.second] : Cell::Null());
      }
      out.rows.push_back(x);
    };
    for (auto& a : l.rows) {
      bool hit = false;
      for (auto& b : r.rows) {
        bool m = true;
        for (auto& p : on) {
          auto& x = a[p.first];
          auto& y = b[p.second];
          m = m && !x.null && !y.null && cmpCell(x, y, l.types[p.first]) == 0;
        }
        if (m && extra) {
          Row ab = a;
          ab.insert(ab.end(), b.begin(), b.end());
          Cell c = eval(*extra, ab);
          m = !c.null && c.i;
        }
        if (m) {
          emit(a, &b);
          hit = true;
        }
      }
      if (left && !hit) {
        emit(a, nullptr);
      }
    }
    inherit(out, l);
    inherit(out, r);
    out.steps = l.steps + r.steps + 1;
    out.joined = true;
    check(out);
    return out;
  }

  Rel windows(const Rel& in) {
    Rel r;
    std::vector<BuilderExpr> be;
    std::vector<std::pair<std::string, bool>> nm;
    std::vector<std::vector<Cell>> values;
    std::vector<const Type*> types;
    std::vector<bool> exact;
    r.s = in.s + ".proj(";
    for (size_t i = 0, n = s.size(1, 2); i < n; ++i) {
      size_t c = anyCol(in);
      be.push_back(ref(in, c));
      nm.push_back({in.names[c], true});
      types.push_back(in.types[c]);
      exact.push_back(in.exact[c]);
      std::vector<Cell> v;
      for (auto& row : in.rows) {
        v.push_back(row[c]);
      }
      values.push_back(v);
      r.s += in.names[c] + ", ";
    }
    bool positional_used = false;
    for (size_t i = 0, n = s.size(1, 2); i < n; ++i) {
      WinSpec w;
      std::vector<size_t> part, ord;
      size_t c = anyCol(in);
      const Type* t = in.types[c];
      BuilderExpr b;
      const Type* rt = nullptr;
      std::string name, text;
      bool positional = false, need_order = false, has_arg = true, ex = true;
      std::string col = in.names[c];
      switch (s.draw(12)) {
        case 0:
          b = qb.rowNumber();
          w.kind = WindowFunctionKind::RowNumber;
          rt = ctx().int64(false);
          name = "row_number";
          positional = true;
          has_arg = false;
          break;
        case 1:
          b = qb.rank();
          w.kind = WindowFunctionKind::Rank;
          rt = ctx().int64(false);
          name = "rank";
          has_arg = false;
          need_order = true;
          break;
        case 2:
          b = qb.denseRank();
          w.kind = WindowFunctionKind::DenseRank;
          rt = ctx().int64(false);
          name = "dense_rank";
          has_arg = false;
          need_order = true;
          break;
        case 3:
          b = qb.percentRank();
          w.kind = WindowFunctionKind::PercentRank;
          rt = ctx().fp64(false);
          name = "percent_rank";
          has_arg = false;
          need_order = true;
          ex = false;
          break;
        case 4:
        case 5: {
          if (t->isArray()) {
            continue;
          }
          bool lag = s.draw(1);
          w.n = static_cast<int>(s.range(0, 3));
          b = lag ? ref(in, c).lag(w.n) : ref(in, c).lead(w.n);
          w.kind = lag ? WindowFunctionKind::Lag : WindowFunctionKind::Lead;
          rt = t->withNullable(true);
          name = col + (lag ? "_lag" : "_lead");
          positional = true;
          break;
        }
        case 6:
          if (t->isArray()) {
            continue;
          }
          b = ref(in, c).firstValue();
          w.kind = WindowFunctionKind::FirstValue;
          rt = t;
          name = col + "_first_value";
          positional = true;
          break;
        case 7:
          if (t->isArray()) {
            continue;
          }
          b = ref(in, c).lastValue();
          w.kind = WindowFunctionKind::LastValue;
          rt = t;
          name = col + "_last_value";
          positional = true;
          break;
        case 8:
          if (!t->isNumber()) {
            continue;
          }
          b = ref(in, c).avg();
          w.kind = WindowFunctionKind::Avg;
          rt = ctx().fp64();
          name = col + "_avg";
          ex = false;
          break;
        case 9:
          if (!t->isNumber()) {
            continue;
          }
          b = ref(in, c).sum();
          w.kind = WindowFunctionKind::Sum;
          rt = t->isInteger() ? ctx().int64(t->nullable()) : t;
          name = col + "_sum";
          ex = !t->isFloatingPoint();
          break;
        case 10: {
          if (!t->isNumber()) {
            continue;
          }
          bool mx = s.draw(1);
          b = mx ? ref(in, c).max() : ref(in, c).min();
          w.kind = mx ? WindowFunctionKind::Max : WindowFunctionKind::Min;
          rt = t;
          name = col + (mx ? "_max" : "_min");
          break;
        }
        case 11:
          if (t->isArray()) {
            continue;
          }
          b = ref(in, c).count();
          w.kind = WindowFunctionKind::Count;
          rt = countType();
          name = col + "_count";
          break;
        default:
          b = qb.count();
          w.kind = WindowFunctionKind::Count;
          rt = countType();
          name = "count";
          has_arg = false;
      }
      if (positional && positional_used) {
        continue;
      }
      for (size_t k = s.draw(2); k; --k) {
        size_t pc = anyCol(in);
        if (!in.types[pc]->isFloatingPoint() && !in.types[pc]->isArray() && !std::count(part.begin(), part.end(), pc)) {
          part.push_back(pc);
        }
      }
      auto addOrd = [&](size_t oc) {
        if (sortable(in.types[oc]) && !in.types[oc]->isArray() && in.exact[oc] && !std::count(ord.begin(), ord.end(), oc)) {
          ord.push_back(oc);
          w.keys.push_back({s.draw(1) == 1, s.draw(1) == 1});
        }
      };
      if (need_order || positional || s.draw(1)) {
        for (size_t k = s.size(1, 2); k; --k) {
          addOrd(anyCol(in));
        }
      }
      if (positional) {
        for (size_t oc = 0; oc < in.size(); ++oc) {
          addOrd(oc);
        }
      }
      if ((need_order || positional) && ord.empty()) {
        continue;
      }
      // Rows that tie must be the same rows, or the result would depend on the order of the input.
      if (positional && ord.size() < in.size()) {
        continue;
      }
      // over and order by in one or several calls
      bool agg_like = b.expr()->is<AggExpr>();
      bool order_first = !agg_like && s.draw(1);
      auto over = [&] {
        if (part.empty()) {
          if (agg_like || s.draw(1)) {
            b = b.over();
          }
        } else if (part.size() == 1 && s.draw(1)) {
          b = b.over(ref(in, part[0]));
        } else if (s.chance(1, 3)) {
          for (auto p : part) {
            b = b.over(ref(in, p));
          }
        } else {
          std::vector<BuilderExpr> ks;
          for (auto p : part) {
            ks.push_back(ref(in, p));
          }
          b = b.over(ks);
        }
      };
      auto orderBy = [&] {
        bool chain = s.chance(1, 3);
        std::vector<BuilderOrderByKey> ks;
        for (size_t k = 0; k < ord.size(); ++k) {
          auto dir = w.keys[k].desc ? SortDirection::Descending : SortDirection::Ascending;
          auto np = w.keys[k].nulls_first ? NullSortedPosition::First : NullSortedPosition::Last;
          std::string ds = w.keys[k].desc ? "DESC" : "asc", ns = w.keys[k].nulls_first ? "first" : "last";
          bool str = s.draw(1);
          if (chain) {
            b = str ? b.orderBy(ref(in, ord[k]), ds, ns) : b.orderBy(ref(in, ord[k]), dir, np);
          } else {
            ks.push_back(str ? BuilderOrderByKey(ref(in, ord[k]), ds, ns) : BuilderOrderByKey(ref(in, ord[k]), dir, np));
          }
        }
        if (!ks.empty()) {
          b = ks.size() == 1 && s.draw(1) ? b.orderBy(ks[0]) : b.orderBy(ks);
        }
      };
      if (order_first) {
        orderBy();
        over();
      } else {
        over();
        orderBy();
      }
      text = name + " over(";
      for (auto p : part) {
        text += in.names[p] + " ";
      }
      for (size_t k = 0; k < ord.size(); ++k) {
        text += (k ? ", " : "order by ") + in.names[ord[k]] + (w.keys[k].desc ? " desc" : "") + (w.keys[k].nulls_first ? " nulls first" : "");
      }
      r.s += text + "), ";
      for (auto& row : in.rows) {
        Row p, q;
        for (auto x : part) {
          p.push_back(row[x]);
        }
        for (auto x : ord) {
          q.push_back(row[x]);
        }
        w.part.push_back(p);
        w.ord.push_back(q);
        if (has_arg) {
          w.arg.push_back(row[c]);
        }
      }
      for (auto x : part) {
        w.part_t.push_back(in.types[x]);
      }
      for (auto x : ord) {
        w.ord_t.push_back(in.types[x]);
      }
      w.arg_t = has_arg ? t : ctx().int64();
      positional_used = positional_used || positional;
      be.push_back(b);
      nm.push_back({name, true});
      types.push_back(rt);
      exact.push_back(ex && (!has_arg || in.exact[c]));
      values.push_back(windowCells(w, in.rows.size()));
      for (auto& v : values.back()) {
        if (v.null && !rt->nullable()) {
          throw pbt::Discard();
        }
      }
      r.window = true;
    }
    if (!r.window) {
      throw pbt::Discard();
    }
    r.s += ")";
    r.n = in.n.proj(be);
    r.types = types;
    r.exact = exact;
    r.names = NameModel::fields(nm);
    for (size_t i = 0; i < in.rows.size(); ++i) {
      Row x;
      for (auto& v : values) {
        x.push_back(v[i]);
      }
      r.rows.push_back(x);
    }
    bool w = r.window;
    inherit(r, in);
    r.window = w;
    check(r);
    return r;
  }

  // A pipeline of a few steps.
  // a query with a constant that does not fit its type may be rejected when it is built
  Rel build(int depth) {
    try {
      return pipeline(depth);
    } catch (const std::runtime_error& e) {
      if (std::string(e.what()).find("Overflow or underflow") != std::string::npos) {
        throw pbt::Discard();
      }
      throw;
    }
  }

  Rel pipeline(int depth, bool top = true) {
    Rel r;
    if (o.join && depth > 1 && s.chance(top ? o.join_share : o.nested_join_share, 8)) {
      Rel a = pipeline(static_cast<int>(s.draw(depth - 1)), false), b = pipeline(static_cast<int>(s.draw(depth - 1)), false);
      r = join(a, b);
      --depth;
    } else if (o.shared && !stash_.empty() && s.chance(1, 3)) {
      r = stash_[s.draw(stash_.size() - 1)];  // a part of the query used twice
    } else {
      r = scan();
    }
    for (int i = 0; i < depth; ++i) {
      if (o.shared) {
        stash_.push_back(r);
      }
      switch (s.weighted({o.proj ? o.w_proj : 0u, o.filter ? o.w_filter : 0u, o.agg ? o.w_agg : 0u, o.sort ? o.w_sort : 0u, o.window && !r.limited ? o.w_window : 0u})) {
        case 0:
          r = project(r);
          break;
        case 1:
          r = filter(r);
          break;
        case 2:
          r = aggregate(r);
          break;
        case 3:
          r = sort(r);
          break;
        default:
          r = windows(r);
      }
      if (r.rows.size() > 400) {
        throw pbt::Discard();
      }
    }
    if (top && o.force_sort && (r.s.find(".sort(") == std::string::npos || s.chance(1, 4))) {
      r = sort(r);
    }
    return r;
  }

 private:
  std::function<Table(pbt::Src&, Table)> make_;
  PipeOpts o;
  std::vector<Rel> stash_;
};

}  // namespace qe
