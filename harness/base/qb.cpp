// Query builder and query canonicalization.
#include "qe/irinterp.h"

#include "QueryOptimizer/CanonicalizeQuery.h"

#include <regex>
using namespace qe;

static Table makeTable(mem::MemStorage& st, Table t) {
  t.id = st.createTable(t.name, t.cols, t.frag);
  for (auto& c : st.listColumns(mem::kDbId, t.id)) {
    if (!c->is_rowid) {
      t.types.push_back(canonDate(c->type));
    }
  }
  return t;
}

static void checkNodeList(const QueryDag& dag, const std::string& what) {
  std::map<const Node*, size_t> pos;
  auto& nodes = dag.getNodes();
  for (size_t i = 0; i < nodes.size(); ++i) {
    if (!pos.emplace(nodes[i].get(), i).second) {
      throw pbt::Fail(what + ": a node is listed twice");
    }
    for (size_t k = 0; k < nodes[i]->inputCount(); ++k) {
      if (!pos.count(nodes[i]->getInput(k))) {
        throw pbt::Fail(what + ": an input of " + nodes[i]->toString() + " is not listed before it: " + nodes[i]->getInput(k)->toString());
      }
    }
  }
  if (!pos.count(dag.getRootNode())) {
    throw pbt::Fail(what + ": the root is not listed");
  }
}

static void requireRows(const std::vector<Row>& got, const Rel& r, const std::string& what) {
  requireSameBag(got, r.rows, r.types, what, 1e-7);
  if (!r.order_cols.empty()) {
    std::vector<Row> a, b;
    for (auto& x : got) {
      a.push_back(r.key(x));
    }
    for (auto& x : r.rows) {
      b.push_back(r.key(x));
    }
    requireSameSeq(a, b, r.keyTypes(), what + " (order)", 1e-7);
  }
}

static void queryCase(pbt::Case& c, PipeOpts o) {
  auto& s = c.s;
  auto st = std::make_shared<mem::MemStorage>();
  auto cfg = std::make_shared<Config>();
  cfg->exec.group_by.bigint_count = s.chance(1, 3);
  QueryBuilder qb(ctx(), st, cfg);
  o.bigint_count = cfg->exec.group_by.bigint_count;
  Pipe p(s, qb, [&](pbt::Src&, Table t) { return makeTable(*st, std::move(t)); }, o);
  Rel r = p.build(static_cast<int>(s.range(1, 4)));
  c.nontrivial(r.steps >= 2 && !r.rows.empty());
  c.label(r.window ? "window" : r.joined ? "join" : r.aggregated ? "aggregation" : "plain");
  c.describe([&](std::ostream& o) {
    for (auto& t : p.tables) {
      o << t.str() << "\n";
    }
    o << r.s;
  });
  auto dag = r.n.finalize();
  if (r.scan) {
    p.dropLast(r);
  }
  Interp::Tables tables;
  for (auto& t : p.tables) {
    tables[t.id] = &t;
  }
  checkNodeList(*dag, "built query");
  {
    Interp in(tables);
    requireRows(in.run(dag->getRootNode()), r, "the query as built");
  }
  canonicalizeQuery(*dag);
  checkNodeList(*dag, "canonicalized query");
  {
    Interp in(tables);
    requireRows(in.run(dag->getRootNode()), r, "the canonicalized query");
  }
  auto root = dag->getRootNode();
  for (size_t i = 0; i < r.size(); ++i) {
    REQUIRE(root->getFieldName(i) == r.names[i], "column " << i << " of the canonicalized query is called " << root->getFieldName(i) << ", expected " << r.names[i]);
    auto t = canonDate(getColumnType(root, i));
    REQUIRE(sameType(t, r.types[i]), "column " << i << " of the canonicalized query is of type " << t->toString() << ", expected " << r.types[i]->toString());
  }
}

FACET(query) {
  queryCase(c, {});
}

// What canonicalization rewrites: dead sorts, compound aggregates, inputs of window functions, all shared between users.
FACET(canon) {
  PipeOpts o;
  switch (c.s.draw(2)) {
    case 0:
      o.w_sort = 8;
      o.w_filter = 2;
      o.w_agg = 2;
      break;
    case 1:
      o.w_agg = 8;
      o.w_stat = 4;
      o.w_window = 0;
      break;
    default:
      o.w_window = 8;
      o.w_sort = 2;
  }
  o.max_rows = 8;
  queryCase(c, o);
}

// ---- the different ways to say the same thing

static bool sameExpr(const BuilderExpr& a, const BuilderExpr& b) { return *a.expr() == *b.expr() && a.type()->equal(b.type()); }
static std::string showE(const BuilderExpr& e) { return e.expr()->toString() + ":" + e.type()->toString() + " called '" + e.name() + "'"; }
static void requireSame(const BuilderExpr& got, const BuilderExpr& want, const std::string& what) {
  if (!sameExpr(got, want) || got.name() != want.name() || got.isAutoNamed() != want.isAutoNamed()) {
    throw pbt::Fail(what + " gives " + showE(got) + ", expected " + showE(want));
  }
}
// What an expression is worth, or how it is refused.
template <typename F>
static std::optional<BuilderExpr> attempt(F&& f) {
  try {
    return f();
  } catch (const InvalidQueryError&) {
    return std::nullopt;
  }
}
template <typename F, typename G>
static void sameForms(F&& got, G&& want, const std::string& what) {
  auto a = attempt(got), b = attempt(want);
  if (a.has_value() != b.has_value()) {
    throw pbt::Fail(what + (a ? " is accepted: " + showE(*a) : std::string(" is refused")) + ", but the equivalent form " + (b ? "is not: " + showE(*b) : std::string("is refused")));
  }
  if (a) {
    requireSame(*a, *b, what);
  }
}

static BuilderExpr rawConst(const QueryBuilder& qb, const Type* t, Datum d, bool null = false) { return BuilderExpr(&qb, std::make_shared<Constant>(t, null, d)); }
static BuilderExpr intConst(const QueryBuilder& qb, const Type* t, int64_t v) {
  Datum d;
  d.bigintval = 0;
  switch (t->size()) {
    case 1:
      d.tinyintval = static_cast<int8_t>(v);
      break;
    case 2:
      d.smallintval = static_cast<int16_t>(v);
      break;
    case 4:
      d.intval = static_cast<int32_t>(v);
      break;
    default:
      d.bigintval = v;
  }
  return rawConst(qb, t, d);
}
static BuilderExpr fpConst(const QueryBuilder& qb, const Type* t, double v) {
  Datum d;
  d.bigintval = 0;
  if (t->isFp32()) {
    d.floatval = static_cast<float>(v);
  } else {
    d.doubleval = v;
  }
  return rawConst(qb, t, d);
}

// A table with a column of every simple type.
struct Zoo {
  std::shared_ptr<mem::MemStorage> st = std::make_shared<mem::MemStorage>();
  std::shared_ptr<Config> cfg = std::make_shared<Config>();
  QueryBuilder qb;
  BuilderNode scan, other;
  std::vector<std::string> names;
  std::vector<const Type*> types;

  explicit Zoo(pbt::Src& s) : qb(ctx(), st, cfg) {
    cfg->exec.group_by.bigint_count = s.chance(1, 2);
    std::vector<const Type*> ts = {ctx().int8(), ctx().int16(), ctx().int32(), ctx().int64(), ctx().fp32(), ctx().fp64(), ctx().decimal64(10, 2), ctx().boolean(), ctx().text(), ctx().date32(TimeUnit::kDay), ctx().date64(TimeUnit::kSecond), ctx().timestamp(TimeUnit::kSecond), ctx().timestamp(TimeUnit::kMilli), ctx().timestamp(TimeUnit::kMicro), ctx().timestamp(TimeUnit::kNano), ctx().time64(TimeUnit::kSecond), ctx().extDict(ctx().text(), 0)};
    std::vector<mem::Col> cols;
    for (size_t i = 0; i < ts.size(); ++i) {
      mem::Col col;
      col.name = "c" + std::to_string(i);
      col.type = ts[i]->isExtDictionary() ? ts[i] : ts[i]->withNullable(s.chance(2, 3));
      cols.push_back(col);
    }
    st->createTable("zoo", cols, 10);
    st->createTable("other", {cols[0], cols[3], cols[5]}, 10);
    scan = qb.scan("zoo");
    other = qb.scan("other");
    for (size_t i = 0; i < ts.size(); ++i) {
      names.push_back(cols[i].name);
      types.push_back(scan.ref(static_cast<int>(i)).type());
    }
  }
  BuilderExpr col(pbt::Src& s) {
    size_t i = s.draw(names.size() - 1);
    switch (s.draw(3)) {
      case 0:
        return scan.ref(static_cast<int>(i));
      case 1:
        return scan.ref(names[i]);
      case 2:
        return scan[names[i]];
      default:
        return scan[static_cast<int>(i) - static_cast<int>(names.size()) - 1];  // the row number comes last
    }
  }
  BuilderExpr any(pbt::Src& s) {
    auto c = col(s);
    switch (s.draw(4)) {
      case 0:
        return s.chance(1, 2) ? qb.cst(static_cast<int>(s.range(0, 5))) : qb.cst(0.5);
      case 1:
        if (c.type()->isNumber()) {
          return c.add(qb.cst(1));
        }
        return c;
      default:
        return c;
    }
  }
};

static std::string vary(pbt::Src& s, std::string x) {
  for (auto& ch : x) {
    if (s.chance(1, 3)) {
      ch = static_cast<char>(std::toupper(ch));
    }
  }
  return x;
}
static std::string spaced(pbt::Src& s, const std::string& x) { return std::string(s.size(0, 2), ' ') + vary(s, x) + std::string(s.size(0, 2), s.chance(1, 2) ? ' ' : '\t'); }

#define ARITH(name, method, oper)                                                                                                                                  \
  {                                                                                                                                                                \
    std::string op = #method;                                                                                                                                      \
    switch (form) {                                                                                                                                                \
      case 0:                                                                                                                                                      \
        sameForms([&] { return left ? i oper x : x.method(i); }, [&] { return left ? ci.method(x) : x.method(ci); }, op + " with an int");                       \
        sameForms([&] { return x oper i; }, [&] { return x.method(ci); }, op + " operator with an int");                                                         \
        break;                                                                                                                                                     \
      case 1:                                                                                                                                                      \
        sameForms([&] { return left ? l oper x : x.method(l); }, [&] { return left ? cl.method(x) : x.method(cl); }, op + " with an int64");                     \
        sameForms([&] { return x oper l; }, [&] { return x.method(cl); }, op + " operator with an int64");                                                       \
        break;                                                                                                                                                     \
      case 2:                                                                                                                                                      \
        sameForms([&] { return left ? f oper x : x.method(f); }, [&] { return left ? cf.method(x) : x.method(cf); }, op + " with a float");                      \
        sameForms([&] { return x oper f; }, [&] { return x.method(cf); }, op + " operator with a float");                                                        \
        break;                                                                                                                                                     \
      case 3:                                                                                                                                                      \
        sameForms([&] { return left ? d oper x : x.method(d); }, [&] { return left ? cd.method(x) : x.method(cd); }, op + " with a double");                     \
        sameForms([&] { return x oper d; }, [&] { return x.method(cd); }, op + " operator with a double");                                                       \
        break;                                                                                                                                                     \
      default:                                                                                                                                                     \
        sameForms([&] { return x oper y; }, [&] { return x.method(y); }, op + " operator");                                                                        \
    }                                                                                                                                                              \
  }
// comparisons also take strings
#define COMPARE(name, method, oper)                                                                                                                                \
  if (form == 5) {                                                                                                                                                 \
    sameForms([&] { return x.method(str); }, [&] { return x.method(cs); }, std::string(#method) + " with a string");                                               \
  } else                                                                                                                                                           \
    ARITH(name, method, oper)

static const std::vector<std::pair<std::string, DateAddField>>& dateAddNames() {
  using F = DateAddField;
  static const std::vector<std::pair<std::string, F>> v = {{"year", F::kYear}, {"years", F::kYear}, {"quarter", F::kQuarter}, {"quarters", F::kQuarter}, {"month", F::kMonth}, {"months", F::kMonth}, {"day", F::kDay}, {"days", F::kDay}, {"hour", F::kHour}, {"hours", F::kHour}, {"min", F::kMinute}, {"mins", F::kMinute}, {"minute", F::kMinute}, {"minutes", F::kMinute}, {"sec", F::kSecond}, {"secs", F::kSecond}, {"second", F::kSecond}, {"seconds", F::kSecond}, {"millennium", F::kMillennium}, {"millenniums", F::kMillennium}, {"century", F::kCentury}, {"centuries", F::kCentury}, {"decade", F::kDecade}, {"decades", F::kDecade}, {"ms", F::kMilli}, {"milli", F::kMilli}, {"millisecond", F::kMilli}, {"milliseconds", F::kMilli}, {"us", F::kMicro}, {"micro", F::kMicro}, {"microsecond", F::kMicro}, {"microseconds", F::kMicro}, {"ns", F::kNano}, {"nano", F::kNano}, {"nanosecond", F::kNano}, {"nanoseconds", F::kNano}, {"week", F::kWeek}, {"weeks", F::kWeek}, {"quarterday", F::kQuarterDay}, {"quarter_day", F::kQuarterDay}, {"quarter day", F::kQuarterDay}, {"quarterdays", F::kQuarterDay}, {"quarter_days", F::kQuarterDay}, {"quarter days", F::kQuarterDay}, {"weekday", F::kWeekDay}, {"week_day", F::kWeekDay}, {"week day", F::kWeekDay}, {"weekdays", F::kWeekDay}, {"week_days", F::kWeekDay}, {"week days", F::kWeekDay}, {"dayofyear", F::kDayOfYear}, {"day_of_year", F::kDayOfYear}, {"day of year", F::kDayOfYear}, {"doy", F::kDayOfYear}};
  return v;
}
static const std::vector<std::pair<std::string, DateExtractField>>& extractNames() {
  using F = DateExtractField;
  static const std::vector<std::pair<std::string, F>> v = {{"year", F::kYear}, {"quarter", F::kQuarter}, {"month", F::kMonth}, {"day", F::kDay}, {"hour", F::kHour}, {"min", F::kMinute}, {"minute", F::kMinute}, {"sec", F::kSecond}, {"second", F::kSecond}, {"milli", F::kMilli}, {"millisecond", F::kMilli}, {"micro", F::kMicro}, {"microsecond", F::kMicro}, {"nano", F::kNano}, {"nanosecond", F::kNano}, {"dow", F::kDayOfWeek}, {"dayofweek", F::kDayOfWeek}, {"day_of_week", F::kDayOfWeek}, {"day of week", F::kDayOfWeek}, {"isodow", F::kIsoDayOfWeek}, {"isodayofweek", F::kIsoDayOfWeek}, {"iso_day_of_week", F::kIsoDayOfWeek}, {"iso day of week", F::kIsoDayOfWeek}, {"doy", F::kDayOfYear}, {"dayofyear", F::kDayOfYear}, {"day_of_year", F::kDayOfYear}, {"day of year", F::kDayOfYear}, {"epoch", F::kEpoch}, {"quarterday", F::kQuarterDay}, {"quarter_day", F::kQuarterDay}, {"quarter day", F::kQuarterDay}, {"week", F::kWeek}, {"weeksunday", F::kWeekSunday}, {"week_sunday", F::kWeekSunday}, {"week sunday", F::kWeekSunday}, {"weeksaturday", F::kWeekSaturday}, {"week_saturday", F::kWeekSaturday}, {"week saturday", F::kWeekSaturday}, {"dateepoch", F::kDateEpoch}, {"date_epoch", F::kDateEpoch}, {"date epoch", F::kDateEpoch}};
  return v;
}

FACET(forms) {
  auto& s = c.s;
  Zoo z(s);
  auto x = z.any(s), y = z.any(s);
  int i = static_cast<int>(s.boundary(-2147483647 - 1, 2147483647));
  int64_t l = s.boundary(INT64_MIN, INT64_MAX);
  float f = static_cast<float>(s.range(-1000, 1000)) / 8;
  double d = static_cast<double>(s.range(-1000, 1000)) / 16;
  std::string str = s.pick<std::string>({"", "a", "2000-01-02", "12:00:01", "2001-02-03 04:05:06", "A%"});
  auto ci = intConst(z.qb, ctx().int32(false), i), cl = intConst(z.qb, ctx().int64(false), l);
  auto cf = fpConst(z.qb, ctx().fp32(false), f), cd = fpConst(z.qb, ctx().fp64(false), d);
  auto cs = z.qb.cst(str, x.type()->isDate() && x.type()->as<DateType>()->unit() == TimeUnit::kDay ? "text" : "text");
  int form = static_cast<int>(s.draw(5));
  bool left = s.draw(1);
  int what = static_cast<int>(s.draw(21));
  c.describe([&](std::ostream& o) { o << "form " << form << (left ? "l" : "r") << " what " << what << " x=" << showE(x) << " y=" << showE(y) << " i=" << i << " l=" << l << " f=" << f << " d=" << d << " str=" << pbt::jstr(str); });
  c.nontrivial(true);
  switch (what) {
    case 0:
      if (form < 5) {
        ARITH(add, add, +);
      }
      break;
    case 1:
      if (form < 5) {
        ARITH(sub, sub, -);
      }
      break;
    case 2:
      if (form < 5) {
        ARITH(mul, mul, *);
      }
      break;
    case 3:
      if (form < 5) {
        ARITH(div, div, /);
      }
      break;
    case 4:
      COMPARE(eq, eq, ==);
      break;
    case 5:
      COMPARE(ne, ne, !=);
      break;
    case 6:
      COMPARE(lt, lt, <);
      break;
    case 7:
      COMPARE(le, le, <=);
      break;
    case 8:
      COMPARE(gt, gt, >);
      break;
    case 9:
      COMPARE(ge, ge, >=);
      break;
    case 10:  // remainders
      switch (form) {
        case 0:
        case 1:
          sameForms([&] { return left ? i % x : x % i; }, [&] { return left ? ci.mod(x) : x.mod(ci); }, "% with an int");
          sameForms([&] { return x.mod(i); }, [&] { return x.mod(ci); }, "mod(int)");
          break;
        case 2:
        case 3:
          sameForms([&] { return left ? l % x : x % l; }, [&] { return left ? cl.mod(x) : x.mod(cl); }, "% with an int64");
          sameForms([&] { return x.mod(l); }, [&] { return x.mod(cl); }, "mod(int64)");
          break;
        default:
          sameForms([&] { return x % y; }, [&] { return x.mod(y); }, "%");
      }
      break;
    case 11:  // bits
      sameForms([&] { return x.bwAnd(i); }, [&] { return x.bwAnd(ci); }, "bwAnd(int)");
      sameForms([&] { return x.bwAnd(l); }, [&] { return x.bwAnd(cl); }, "bwAnd(int64)");
      sameForms([&] { return x.bwOr(i); }, [&] { return x.bwOr(ci); }, "bwOr(int)");
      sameForms([&] { return x.bwOr(l); }, [&] { return x.bwOr(cl); }, "bwOr(int64)");
      sameForms([&] { return x.bwXor(i); }, [&] { return x.bwXor(ci); }, "bwXor(int)");
      sameForms([&] { return x.bwXor(l); }, [&] { return x.bwXor(cl); }, "bwXor(int64)");
      break;
    case 12:
      sameForms([&] { return x.pow(i); }, [&] { return x.pow(ci); }, "pow(int)");
      sameForms([&] { return x.pow(l); }, [&] { return x.pow(cl); }, "pow(int64)");
      sameForms([&] { return x.pow(f); }, [&] { return x.pow(cf); }, "pow(float)");
      sameForms([&] { return x.pow(d); }, [&] { return x.pow(cd); }, "pow(double)");
      break;
    case 13:
      sameForms([&] { return !x; }, [&] { return x.logicalNot(); }, "!");
      sameForms([&] { return -x; }, [&] { return x.uminus(); }, "unary -");
      sameForms([&] { return x && y; }, [&] { return x.logicalAnd(y); }, "&&");
      sameForms([&] { return x || y; }, [&] { return x.logicalOr(y); }, "||");
      break;
    case 14: {  // names of date fields
      auto& e = s.pick(extractNames());
      auto name = spaced(s, e.first);
      sameForms([&] { return x.extract(name); }, [&] { return x.extract(e.second); }, "extract(" + pbt::jstr(name) + ")");
      break;
    }
    case 15: {
      auto& e = s.pick(dateAddNames());
      auto name = spaced(s, e.first);
      sameForms([&] { return x.add(y, name); }, [&] { return x.add(y, e.second); }, "add(expr, " + pbt::jstr(name) + ")");
      sameForms([&] { return x.add(l, name); }, [&] { return x.add(cl, e.second); }, "add(int64, " + pbt::jstr(name) + ")");
      sameForms([&] { return x.add(l, e.second); }, [&] { return x.add(cl, e.second); }, "add(int64, field)");
      sameForms([&] { return x.sub(y, name); }, [&] { return x.sub(y, e.second); }, "sub(expr, " + pbt::jstr(name) + ")");
      if (i != INT32_MIN) {
        sameForms([&] { return x.sub(i, name); }, [&] { return x.add(intConst(z.qb, ctx().int32(false), -i), e.second); }, "sub(int, " + pbt::jstr(name) + ")");
        sameForms([&] { return x.sub(i, e.second); }, [&] { return x.add(intConst(z.qb, ctx().int32(false), -i), e.second); }, "sub(int, field)");
      }
      if (l != INT64_MIN) {
        sameForms([&] { return x.sub(l, name); }, [&] { return x.add(intConst(z.qb, ctx().int64(false), -l), e.second); }, "sub(int64, " + pbt::jstr(name) + ")");
        sameForms([&] { return x.sub(l, e.second); }, [&] { return x.add(intConst(z.qb, ctx().int64(false), -l), e.second); }, "sub(int64, field)");
      }
      break;
    }
    case 16: {  // names of types
      auto t = s.pick(z.types);
      if (t->isExtDictionary()) {
        t = ctx().text();
      }
      auto name = t->toString();
      sameForms([&] { return x.cast(name); }, [&] { return x.cast(t); }, "cast(" + name + ")");
      if (t->isNumber() || t->isBoolean()) {
        int64_t v = s.range(-100, 100);
        if (t->isBoolean()) {
          v &= 1;
        }
        sameForms([&] { return z.qb.cst(v, name); }, [&] { return z.qb.cst(v, t); }, "cst(int64, " + name + ")");
        sameForms([&] { return z.qb.cst(static_cast<int>(v), name); }, [&] { return z.qb.cst(v, t); }, "cst(int, " + name + ")");
      }
      if (t->isFloatingPoint() || t->isDecimal()) {
        sameForms([&] { return z.qb.cst(d, name); }, [&] { return z.qb.cst(d, t); }, "cst(double, " + name + ")");
      }
      sameForms([&] { return z.qb.nullCst(name); }, [&] { return z.qb.nullCst(t); }, "nullCst(" + name + ")");
      break;
    }
    case 17: {  // names of aggregates
      using K = AggType;
      struct A {
        const char* name;
        K kind;
        bool distinct;
        std::function<BuilderExpr(const BuilderExpr&)> f;
      };
      int k = static_cast<int>(s.range(1, 5));
      double q = s.pick<double>({0.5, 0.0, 1.0, 0.25});
      static const std::vector<A> aggs = {{"count", K::kCount, false, [](auto& e) { return e.count(); }}, {"count_dist", K::kCount, true, [](auto& e) { return e.count(true); }}, {"count_distinct", K::kCount, true, [](auto& e) { return e.count(true); }}, {"count dist", K::kCount, true, [](auto& e) { return e.count(true); }}, {"count distinct", K::kCount, true, [](auto& e) { return e.count(true); }}, {"sum", K::kSum, false, [](auto& e) { return e.sum(); }}, {"min", K::kMin, false, [](auto& e) { return e.min(); }}, {"max", K::kMax, false, [](auto& e) { return e.max(); }}, {"avg", K::kAvg, false, [](auto& e) { return e.avg(); }}, {"approx_count_dist", K::kApproxCountDistinct, false, [](auto& e) { return e.approxCountDist(); }}, {"approx count distinct", K::kApproxCountDistinct, false, [](auto& e) { return e.approxCountDist(); }}, {"sample", K::kSample, false, [](auto& e) { return e.sample(); }}, {"single_value", K::kSingleValue, false, [](auto& e) { return e.singleValue(); }}, {"single value", K::kSingleValue, false, [](auto& e) { return e.singleValue(); }}, {"stddev", K::kStdDevSamp, false, [](auto& e) { return e.stdDev(); }}, {"stddev_samp", K::kStdDevSamp, false, [](auto& e) { return e.stdDev(); }}};
      auto& a = s.pick(aggs);
      auto name = vary(s, a.name);
      auto u = z.col(s);
      sameForms([&] { return u.agg(name); }, [&] { return a.f(u); }, "agg(" + pbt::jstr(name) + ")");
      sameForms([&] { return u.agg(a.kind, a.distinct); }, [&] { return a.f(u); }, "agg(kind of " + name + ")");
      auto qn = vary(s, s.pick<std::string>({"quantile", "approx_quantile", "approx quantile"}));
      bool approx = qn[0] == 'a' || qn[0] == 'A';
      sameForms([&] { return u.agg(qn, q); }, [&] { return approx ? u.approxQuantile(q) : u.quantile(q); }, "agg(" + qn + ", double)");
      sameForms([&] { return u.agg(approx ? K::kApproxQuantile : K::kQuantile, q); }, [&] { return approx ? u.approxQuantile(q) : u.quantile(q); }, "agg(kind of " + qn + ", double)");
      auto ip = s.pick<Interpolation>({Interpolation::kLower, Interpolation::kHigher, Interpolation::kMidpoint, Interpolation::kNearest, Interpolation::kLinear});
      sameForms([&] { return u.agg(K::kQuantile, q, ip); }, [&] { return u.quantile(q, ip); }, "agg(quantile, double, interpolation)");
      bool bottom = s.draw(1);
      auto tn = vary(s, bottom ? s.pick<std::string>({"bottomk", "bottom_k"}) : s.pick<std::string>({"topk", "top_k"}));
      sameForms([&] { return u.agg(tn, k); }, [&] { return u.topK(bottom ? -k : k); }, "agg(" + tn + ", int)");
      sameForms([&] { return u.agg(K::kTopK, bottom ? -k : k); }, [&] { return bottom ? u.bottomK(k) : u.topK(k); }, "agg(kTopK, int)");
      auto v = z.col(s);
      sameForms([&] { return u.agg(vary(s, "corr"), v); }, [&] { return u.corr(v); }, "agg(corr, column)");
      break;
    }
    case 18: {  // counts
      size_t n = s.draw(z.names.size() - 1);
      bool dist = s.draw(1);
      auto want = z.scan.ref(z.names[n]).count(dist);
      requireSame(z.scan.count(z.names[n], dist), want, "count(name)");
      requireSame(z.scan.count(static_cast<int>(n), dist), want, "count(index)");
      requireSame(z.scan.count(z.scan.ref(z.names[n]), dist), want, "count(column)");
      requireSame(z.scan.count(), z.qb.count(), "count()");
      break;
    }
    case 19: {  // window functions
      auto w = s.chance(1, 2) ? z.qb.rowNumber() : z.scan.ref("c3").lag(static_cast<int>(s.range(-2, 2)));
      auto k1 = z.col(s), k2 = z.col(s);
      bool asc = s.draw(1), first = s.draw(1);
      auto sd = asc ? SortDirection::Ascending : SortDirection::Descending;
      auto np = first ? NullSortedPosition::First : NullSortedPosition::Last;
      auto ds = spaced(s, asc ? s.pick<std::string>({"asc", "ascending"}) : s.pick<std::string>({"desc", "descending"})), ns = spaced(s, first ? "first" : "last");
      auto want = w.over({k1}).orderBy(std::vector<BuilderOrderByKey>{BuilderOrderByKey(k1, sd, np), BuilderOrderByKey(k2, sd, np)});
      requireSame(w.over(k1).orderBy({k1, k2}, sd, np), want, "orderBy(list, direction)");
      requireSame(w.over(k1).orderBy({k1, k2}, ds, ns), want, "orderBy(list, names)");
      requireSame(w.over(k1).orderBy(std::vector<BuilderExpr>{k1, k2}, sd, np), want, "orderBy(vector, direction)");
      requireSame(w.over(k1).orderBy(std::vector<BuilderExpr>{k1, k2}, ds, ns), want, "orderBy(vector, names)");
      requireSame(w.over(std::vector<BuilderExpr>{k1}).orderBy(k1, sd, np).orderBy(k2, ds, ns), want, "orderBy(key).orderBy(key)");
      requireSame(w.over().over(k1).orderBy(BuilderOrderByKey(k1, ds, ns)).orderBy(BuilderOrderByKey(k2, sd, np)), want, "orderBy(OrderByKey)");
      auto wf = want.expr()->as<WindowFunction>();
      REQUIRE(wf && wf->partitionKeys().size() == 1 && wf->orderKeys().size() == 2 && wf->collation().size() == 2, "a window function lost its keys: " << showE(want));
      REQUIRE(wf->collation()[1].is_desc == !asc && wf->collation()[1].nulls_first == first, "wrong order of " << showE(want));
      break;
    }
    case 20: {  // constants
      auto is = [&](const BuilderExpr& e, const Type* t, const Cell& v, const std::string& how) {
        REQUIRE(sameType(e.type(), t), how << " is of type " << e.type()->toString() << ", expected " << t->toString());
        Interp in({});
        REQUIRE(same(in.eval(e.expr().get(), {}), v, t, 0), how << " is " << showE(e) << ", expected " << show(v, t));
      };
      is(z.qb.cst(i), ctx().int64(false), Cell::I(i), "cst(int)");
      is(z.qb.cst(l), ctx().int64(false), Cell::I(l), "cst(int64)");
      is(z.qb.cst(d), ctx().fp64(), Cell::D(d), "cst(double)");
      is(z.qb.cst(str), ctx().text(), Cell::S(str), "cst(string)");
      is(z.qb.trueCst(), ctx().boolean(false), Cell::I(1), "trueCst()");
      is(z.qb.falseCst(), ctx().boolean(false), Cell::I(0), "falseCst()");
      is(-z.qb.cst(d), ctx().fp64(), Cell::D(-d), "-cst(double)");
      is(!z.qb.trueCst(), ctx().boolean(false), Cell::I(0), "!trueCst()");
      for (auto t : {static_cast<const Type*>(ctx().int8()), static_cast<const Type*>(ctx().int32()), static_cast<const Type*>(ctx().int64()), static_cast<const Type*>(ctx().fp32()), static_cast<const Type*>(ctx().fp64()), static_cast<const Type*>(ctx().decimal64(10, 2))}) {
        is(z.qb.nullCst(t), t, Cell::Null(), "nullCst");
        is(-z.qb.nullCst(t), t, Cell::Null(), "-nullCst of " + t->toString());
        is(z.qb.nullCst(t).isNull(), ctx().boolean(false), Cell::I(1), "nullCst.isNull()");
        int64_t v = s.range(-128, 127);
        is(z.qb.cst(v, t), t, t->isFloatingPoint() ? Cell::D(static_cast<double>(v)) : Cell::I(v * p10(scaleOf(t))), "cst(" + std::to_string(v) + ", " + t->toString() + ")");
        if (v != -128) {
          is(-z.qb.cst(v, t), t, t->isFloatingPoint() ? Cell::D(static_cast<double>(-v)) : Cell::I(-v * p10(scaleOf(t))), "-cst(" + std::to_string(v) + ", " + t->toString() + ")");
        }
      }
      is(!z.qb.nullCst(ctx().boolean()), ctx().boolean(), Cell::Null(), "!nullCst(bool)");
      int scale = static_cast<int>(s.range(0, 4));
      auto dt = ctx().decimal64(12, scale, s.draw(1));
      int64_t raw = s.range(-100000, 100000);
      is(z.qb.cst(static_cast<double>(raw) / static_cast<double>(p10(scale)), dt), dt, Cell::I(raw), "cst(" + std::to_string(raw) + "e-" + std::to_string(scale) + " as a double, " + dt->toString() + ")");
      is(z.qb.cstNoScale(raw, dt), dt, Cell::I(raw), "cstNoScale");
      break;
    }
    default: {  // steps
      auto n = s.chance(1, 2) ? z.scan.proj(z.names) : z.scan;
      int a = static_cast<int>(s.draw(z.names.size() - 1)), b = static_cast<int>(s.draw(z.names.size() - 1));
      auto sameNode = [&](const BuilderNode& got, const BuilderNode& want, const std::string& how) {
        auto text = [](const BuilderNode& x) {
          std::string r;
          auto dag = x.finalize();
          std::map<std::string, std::string> ids;
          for (auto& n : dag->getNodes()) {
            std::string t = n->toString(), o;
            for (size_t k = 0; k < t.size(); ++k) {
              if (t[k] == '#') {
                size_t e = k + 1;
                while (e < t.size() && std::isdigit(t[e])) {
                  ++e;
                }
                o += ids.emplace(t.substr(k, e - k), "#" + std::to_string(ids.size())).first->second;
                k = e - 1;
              } else {
                o += t[k];
              }
            }
            for (size_t k = 0; k < n->size(); ++k) {
              o += " " + n->getFieldName(k);
            }
            r += o + "\n";
          }
          return r;
        };
        REQUIRE(text(got) == text(want), how << " gives\n" << text(got) << "expected\n" << text(want));
      };
      auto na = z.names[a], nb = z.names[b];
      int form2 = static_cast<int>(s.draw(3));
      if (form2 == 0) {
        auto want = n.proj(std::vector<BuilderExpr>{n.ref(na), n.ref(nb)});
        sameNode(n.proj({a, b}), want, "proj({index})");
        sameNode(n.proj({na, nb}), want, "proj({name})");
        sameNode(n.proj(std::vector<int>{a, b}), want, "proj(indices)");
        sameNode(n.proj(std::vector<std::string>{na, nb}), want, "proj(names)");
        sameNode(n.proj(a), n.proj(n.ref(na)), "proj(index)");
        sameNode(n.proj(na), n.proj(n.ref(na)), "proj(name)");
        auto wf = n.proj(std::vector<BuilderExpr>{n.ref(na).rename("p"), n.ref(nb).rename("q")});
        sameNode(n.proj({a, b}, {"p", "q"}), wf, "proj({index}, names)");
        sameNode(n.proj({na, nb}, {"p", "q"}), wf, "proj({name}, names)");
        sameNode(n.proj(std::vector<BuilderExpr>{n.ref(na), n.ref(nb)}, {"p", "q"}), wf, "proj(exprs, names)");
        sameNode(n.proj(a, "p"), n.proj(n.ref(na).rename("p")), "proj(index, name)");
        sameNode(n.proj(na, "p"), n.proj(n.ref(na).rename("p")), "proj(name, name)");
        sameNode(n.proj(n.ref(na), "p"), n.proj(n.ref(na).rename("p")), "proj(expr, name)");
      } else if (form2 == 1) {
        auto cnt = n.count();
        auto sum = n.ref("c3").sum();
        std::vector<BuilderExpr> keys{n.ref(na), n.ref(nb)}, ag{cnt, sum};
        if (a == b) {
          break;
        }
        auto want = n.agg(keys, ag);
        sameNode(n.agg(keys, {"count", "sum(c3)"}), want, "agg(exprs, strings)");
        sameNode(n.agg(std::vector<std::string>{na, nb}, ag), want, "agg(names, exprs)");
        sameNode(n.agg(std::vector<std::string>{na, nb}, {"count(*)", " SUM ( c3 ) "}), want, "agg(names, strings)");
        sameNode(n.agg(std::vector<int>{a, b}, ag), want, "agg(indices, exprs)");
        sameNode(n.agg(std::vector<int>{a, b}, std::vector<std::string>{"count(1)", "sum(c3)"}), want, "agg(indices, strings)");
        sameNode(n.agg({na, nb}, ag), want, "agg({name}, exprs)");
        sameNode(n.agg({n.ref(na), n.ref(nb)}, ag), want, "agg({expr}, exprs)");
        auto w1 = n.agg(std::vector<BuilderExpr>{n.ref(na)}, std::vector<BuilderExpr>{sum});
        sameNode(n.agg(a, "sum(c3)"), w1, "agg(index, string)");
        sameNode(n.agg(a, sum), w1, "agg(index, expr)");
        sameNode(n.agg(na, "sum(c3)"), w1, "agg(name, string)");
        sameNode(n.agg(na, sum), w1, "agg(name, expr)");
        sameNode(n.agg(n.ref(na), "sum(c3)"), w1, "agg(expr, string)");
        sameNode(n.agg(n.ref(na), sum), w1, "agg(expr, expr)");
        auto w0 = n.agg(std::vector<BuilderExpr>{}, std::vector<BuilderExpr>{sum});
        sameNode(n.agg("", "sum(c3)"), w0, "agg(\"\", string)");
        sameNode(n.agg(std::vector<std::string>{}, sum), w0, "agg({}, expr)");
        auto wk = n.agg(std::vector<BuilderExpr>{n.ref(na)}, std::vector<BuilderExpr>{});
        sameNode(n.agg(na, ""), wk, "agg(name, \"\")");
        sameNode(n.agg(a, ""), wk, "agg(index, \"\")");
        sameNode(n.agg(n.ref(na), ""), wk, "agg(expr, \"\")");
      } else if (form2 == 2) {
        bool asc = s.draw(1), first = s.draw(1);
        size_t lim = s.size(0, 3), off = s.size(0, 2);
        auto sd = asc ? SortDirection::Ascending : SortDirection::Descending;
        auto np = first ? NullSortedPosition::First : NullSortedPosition::Last;
        auto ds = spaced(s, asc ? s.pick<std::string>({"asc", "ascending"}) : s.pick<std::string>({"desc", "descending"})), ns = spaced(s, first ? "first" : "last");
        auto want = n.sort(std::vector<BuilderSortField>{BuilderSortField(na, sd, np), BuilderSortField(nb, sd, np)}, lim, off);
        sameNode(n.sort({a, b}, sd, np, lim, off), want, "sort({index}, direction)");
        sameNode(n.sort({a, b}, ds, ns, lim, off), want, "sort({index}, names)");
        sameNode(n.sort({na, nb}, sd, np, lim, off), want, "sort({name}, direction)");
        sameNode(n.sort({na, nb}, ds, ns, lim, off), want, "sort({name}, names)");
        sameNode(n.sort({n.ref(na), n.ref(nb)}, sd, np, lim, off), want, "sort({expr}, direction)");
        sameNode(n.sort({n.ref(na), n.ref(nb)}, ds, ns, lim, off), want, "sort({expr}, names)");
        sameNode(n.sort(std::vector<int>{a, b}, sd, np, lim, off), want, "sort(indices, direction)");
        sameNode(n.sort(std::vector<std::string>{na, nb}, ds, ns, lim, off), want, "sort(names, names)");
        sameNode(n.sort(std::vector<BuilderExpr>{n.ref(na), n.ref(nb)}, ds, ns, lim, off), want, "sort(exprs, names)");
        sameNode(n.sort(std::vector<BuilderSortField>{BuilderSortField(a, ds, ns), BuilderSortField(n.ref(nb), ds, ns)}, lim, off), want, "sort(fields)");
        auto w1 = n.sort(std::vector<BuilderSortField>{BuilderSortField(na, sd, np)}, lim, off);
        sameNode(n.sort(a, sd, np, lim, off), w1, "sort(index)");
        sameNode(n.sort(na, ds, ns, lim, off), w1, "sort(name)");
        sameNode(n.sort(n.ref(na), sd, np, lim, off), w1, "sort(expr)");
        sameNode(n.sort(BuilderSortField(a, sd, np), lim, off), w1, "sort(field)");
        auto so = want.node()->as<Sort>();
        REQUIRE(so && so->collationCount() == 2 && so->getLimit() == lim && so->getOffset() == off, "the sort lost a part: " << want.node()->toString());
        REQUIRE(so->getCollation(1).getSortDir() == sd && so->getCollation(1).getNullsPosition() == np, "the sort changed its order: " << want.node()->toString());
        auto info = n.columnInfo(na);
        REQUIRE(info->name == na && info->type->equal(n.ref(na).type()), "columnInfo(name) describes " << info->name << " " << info->type->toString());
      } else {
        auto o = z.other;
        auto jt = s.pick<std::pair<std::string, JoinType>>({{"inner", JoinType::INNER}, {"left", JoinType::LEFT}, {"semi", JoinType::SEMI}, {"anti", JoinType::ANTI}});
        auto js = spaced(s, jt.first);
        auto want = n.join(o, std::vector<std::string>{"c0", "c3"}, std::vector<std::string>{"c0", "c3"}, jt.second);
        sameNode(n.join(o, std::vector<std::string>{"c0", "c3"}, js), want, "join(names, type name)");
        sameNode(n.join(o, std::vector<std::string>{"c0", "c3"}, jt.second), want, "join(names, type)");
        sameNode(n.join(o, std::vector<std::string>{"c0", "c3"}, std::vector<std::string>{"c0", "c3"}, js), want, "join(names, names, type name)");
        auto wc = n.join(o, n.ref("c0").eq(o.ref("c0")), jt.second);
        sameNode(n.join(o, n.ref("c0").eq(o.ref("c0")), js), wc, "join(condition, type name)");
        REQUIRE(want.node()->getInput(0)->as<Join>() && want.node()->getInput(0)->as<Join>()->getJoinType() == jt.second, "the join changed its type");
        sameNode(z.qb.scan(mem::kDbId, "zoo"), z.qb.scan("zoo"), "scan(db, name)");
      }
    }
  }
}

FACET(reject) {
  auto& s = c.s;
  Zoo z(s);
  auto n = s.chance(1, 2) ? z.scan.proj(z.names) : z.scan;
  auto bad = s.pick<std::string>({"nosuch", "", "C3", "c3 ", " c3", "c", "c33", "c3\t"});
  int big = static_cast<int>(s.pick<int64_t>({1, 2, 1000000, 2147483647 - 100}));
  int size = static_cast<int>(n.size());
  int what = static_cast<int>(s.draw(24));
  auto cn = [&](std::function<bool(const Type*)> p) -> BuilderExpr {
    std::vector<size_t> v;
    for (size_t i = 0; i < z.types.size(); ++i) {
      if (p(z.types[i])) {
        v.push_back(i);
      }
    }
    return n.ref(z.names[s.pick(v)]);
  };
  auto isText = [](const Type* t) { return t->isText() || t->isExtDictionary(); };
  auto notNum = [](const Type* t) { return !t->isNumber(); };
  auto foreign = z.other.ref(0);
  auto refuse = [&](const std::string& how, const std::function<void()>& f) {
    try {
      f();
    } catch (const InvalidQueryError&) {
      return;
    } catch (const hdk::ir::TypeError&) {
      return;  // an unknown type name
    }
    throw pbt::Fail(how + " is accepted");
  };
  c.nontrivial(true);
  auto x = cn([](const Type*) { return true; });
  c.describe([&](std::ostream& o) { o << "group " << what << " on " << (n.node()->is<Project>() ? "a projection" : "a table") << " bad=" << pbt::jstr(bad) << " x=" << showE(x); });
  switch (what) {
    case 0:
      refuse("ref of the unknown column " + pbt::jstr(bad), [&] { n.ref(bad); });
      refuse("a projection of the unknown column " + pbt::jstr(bad), [&] { n.proj({"c1", bad}); });
      refuse("a sort by the unknown column " + pbt::jstr(bad), [&] { n.sort(bad); });
      refuse("a column info of the unknown column " + pbt::jstr(bad), [&] { n.columnInfo(bad); });
      if (!bad.empty()) {
        refuse("a grouping by the unknown column " + pbt::jstr(bad), [&] { n.agg(std::vector<std::string>{bad}, "count"); });
      }
      refuse("a join on the unknown column " + pbt::jstr(bad), [&] { n.join(z.other, {bad}); });
      refuse("an operator[] of the unknown column", [&] { n[bad]; });
      if (bad == "nosuch" || bad == "C3" || bad == "c" || bad == "c33") {
        refuse("an aggregate of the unknown column " + pbt::jstr(bad), [&] { n.agg("c1", "sum(" + bad + ")"); });
      }
      break;
    case 1: {
      int i = s.draw(1) ? size - 1 + big : -size - big;
      refuse("column number " + std::to_string(i) + " of " + std::to_string(size), [&] { n.ref(i); });
      refuse("a projection of column number " + std::to_string(i), [&] { n.proj({0, i}); });
      refuse("a sort by column number " + std::to_string(i), [&] { n.sort(i); });
      refuse("an aggregation by column number " + std::to_string(i), [&] { n.agg(i, "count"); });
      refuse("a column info of column number " + std::to_string(i), [&] { n.columnInfo(i); });
      break;
    }
    case 2:
      refuse("an unknown table", [&] { z.qb.scan("nosuch"); });
      refuse("an unknown table with a database", [&] { z.qb.scan(mem::kDbId, "Zoo"); });
      refuse("an unknown table id", [&] { z.qb.scan(mem::kDbId, 1000 + big); });
      break;
    case 3:
      refuse("two columns of the same name", [&] { n.proj({n.ref("c1").rename("p"), n.ref("c2").rename("p")}); });
      refuse("two columns of the same name", [&] { n.proj({"c1", "c2"}, {"p", "p"}); });
      refuse("an empty column name", [&] { n.proj(n.ref("c1").rename("")); });
      refuse("a wrong number of names", [&] { n.proj({"c1", "c2"}, {"p"}); });
      refuse("a wrong number of names", [&] { n.proj({"c1"}, {"p", "q"}); });
      refuse("an empty projection", [&] { n.proj(std::vector<int>{}); });
      refuse("two aggregates of the same name", [&] { n.agg(std::vector<std::string>{"c1"}, {n.ref("c2").sum().rename("p"), n.ref("c3").sum().rename("p")}); });
      break;
    case 4:
      refuse("a projection of another table's column", [&] { n.proj(foreign); });
      refuse("a projection of an expression over another table's column", [&] { n.proj(n.ref("c3").add(foreign)); });
      refuse("a filter by another table's column", [&] { n.filter(foreign.eq(1)); });
      refuse("an aggregate of another table's column", [&] { n.agg("c1", foreign.sum()); });
      refuse("a grouping by another table's column", [&] { n.agg(foreign, "count"); });
      refuse("a sort by another table's column", [&] { n.sort(foreign); });
      refuse("a join condition over another table", [&] { n.join(z.other, n.ref("c0").eq(z.qb.scan("other").ref("c0"))); });
      refuse("a projection of a column of the step before", [&] { n.proj({"c1", "c2"}).proj(n.ref("c1")); });
      break;
    case 5:
      refuse("NOT of " + x.type()->toString(), [&] { !cn([](const Type* t) { return !t->isBoolean(); }); });
      refuse("AND", [&] { cn([](const Type* t) { return !t->isBoolean(); }).logicalAnd(n.ref("c7")); });
      refuse("OR", [&] { n.ref("c7").logicalOr(cn([](const Type* t) { return !t->isBoolean(); })); });
      break;
    case 6:
      refuse("minus of a non-number", [&] { cn(notNum).uminus(); });
      refuse("a ceiling of a non-number", [&] { cn(notNum).ceil(); });
      refuse("a floor of a non-number", [&] { cn(notNum).floor(); });
      refuse("a power of a non-number", [&] { cn(notNum).pow(2); });
      refuse("a power of a non-number", [&] { n.ref("c3").pow(cn(notNum)); });
      break;
    case 7:
      refuse("a sum of a number and a text", [&] { n.ref("c3").add(cn(isText)); });
      refuse("a difference of a number and a text", [&] { n.ref("c3").sub(cn(isText)); });
      refuse("a product of a text and a number", [&] { cn(isText).mul(n.ref("c3")); });
      refuse("a quotient of a text and a number", [&] { cn(isText).div(n.ref("c3")); });
      refuse("a remainder of a text and a number", [&] { cn(isText).mod(n.ref("c3")); });
      break;
    case 8:
      refuse("& of a fraction", [&] { cn([](const Type* t) { return !t->isInteger(); }).bwAnd(n.ref("c3")); });
      refuse("| of a fraction", [&] { cn([](const Type* t) { return !t->isInteger(); }).bwOr(n.ref("c3")); });
      refuse("^ of a fraction", [&] { n.ref("c2").bwXor(cn([](const Type* t) { return !t->isInteger(); })); });
      refuse("~ of a fraction", [&] { cn([](const Type* t) { return !t->isInteger(); }).bwNot(); });
      break;
    case 9:
      refuse("extract from a non-date", [&] { cn([](const Type* t) { return !t->isDateTime(); }).extract("year"); });
      refuse("an unknown date field", [&] { n.ref("c11").extract(s.pick<std::string>({"", "yr", "day-of-week", "years", "dayofweek1"})); });
      break;
    case 10:
      refuse("adding months to a non-date", [&] { cn([](const Type* t) { return !t->isDate() && !t->isTimestamp(); }).add(1, "month"); });
      refuse("adding a fraction of a month", [&] { n.ref("c11").add(cn([](const Type* t) { return !t->isInteger(); }), "month"); });
      refuse("an unknown field to add", [&] { n.ref("c11").add(1, s.pick<std::string>({"", "yr", "dayz", "monthss"})); });
      break;
    case 11:
      refuse("an average of a non-number", [&] { cn(notNum).avg(); });
      refuse("a sum of a non-number", [&] { cn(notNum).sum(); });
      refuse("a deviation of a non-number", [&] { cn(notNum).stdDev(); });
      refuse("a minimum of text", [&] { cn(isText).min(); });
      refuse("a maximum of text", [&] { cn(isText).max(); });
      refuse("a correlation of a non-number", [&] { n.ref("c3").corr(cn(notNum)); });
      refuse("a correlation of a non-number", [&] { cn(notNum).corr(n.ref("c3")); });
      refuse("a quantile of text", [&] { cn(isText).quantile(0.5); });
      break;
    case 12: {
      double q = s.pick<double>({-0.001, 1.001, -5, 100, 1e300});
      refuse("quantile " + std::to_string(q), [&] { n.ref("c3").quantile(q); });
      refuse("approximate quantile " + std::to_string(q), [&] { n.ref("c3").approxQuantile(q); });
      refuse("quantile without an argument", [&] { n.ref("c3").agg("quantile"); });
      refuse("topk without an argument", [&] { n.ref("c3").agg("topk"); });
      refuse("corr without an argument", [&] { n.ref("c3").agg("corr"); });
      refuse("topk of nothing", [&] { n.ref("c3").topK(0); });
      refuse("sum with an argument", [&] { n.ref("c3").agg("sum", 1); });
      refuse("distinct sum", [&] { n.ref("c3").agg(AggType::kSum, true); });
      break;
    }
    case 13:
      refuse("no tiles", [&] { z.qb.nTile(static_cast<int>(s.range(-3, 0))); });
      break;
    case 14:
      refuse("a window over a column", [&] { x.over(); });
      refuse("a window over an expression", [&] { n.ref("c3").add(1).over(n.ref("c1")); });
      refuse("an order of a plain column", [&] { x.orderBy(n.ref("c1")); });
      refuse("an order of an aggregate", [&] { n.ref("c3").sum().orderBy(n.ref("c1")); });
      refuse("a partition by an expression", [&] { z.qb.rowNumber().over(n.ref("c3").add(1)); });
      refuse("an order by an expression", [&] { z.qb.rowNumber().over().orderBy(n.ref("c3").add(1)); });
      refuse("a window of a deviation", [&] { n.ref("c3").stdDev().over(); });
      refuse("a window of a distinct count", [&] { n.ref("c3").count(true).over(); });
      refuse("an unknown direction", [&] { z.qb.rowNumber().over().orderBy(n.ref("c3"), s.pick<std::string>({"", "up", "ascend", "descc"})); });
      refuse("an unknown place for nulls", [&] { z.qb.rowNumber().over().orderBy(n.ref("c3"), "asc", s.pick<std::string>({"", "lst", "firs"})); });
      break;
    case 15:
      refuse("an unknown sort direction", [&] { n.sort("c1", s.pick<std::string>({"", "up", "ascend", "descc"})); });
      refuse("an unknown place for nulls", [&] { n.sort("c1", "desc", s.pick<std::string>({"", "lst", "firs"})); });
      refuse("a sort by an expression", [&] { n.sort(n.ref("c3").add(1)); });
      break;
    case 16:
      refuse("an unknown join type", [&] { n.join(z.other, std::vector<std::string>{"c0"}, s.pick<std::string>({"", "outer", "lefty", "full", "cross"})); });
      refuse("a join without keys", [&] { n.join(z.other, std::vector<std::string>{}); });
      refuse("a join with unequal keys", [&] { n.join(z.other, {"c0", "c3"}, std::vector<std::string>{"c0"}); });
      refuse("a natural join without common columns", [&] { n.proj({"c1", "c2"}).join(z.other); });
      break;
    case 17:
      refuse("an unknown aggregate", [&] { n.agg("c1", s.pick<std::string>({"total(c3)", "sum c3", "sum(c3", "sumc3)", "(c3)", "", "sum()", "()"}) + (s.chance(1, 2) ? "" : " ") + (s.chance(1, 2) ? "x" : "y")); });
      refuse("an unknown aggregate name", [&] { n.ref("c3").agg(s.pick<std::string>({"", "total", "su", "sum ", "counts"})); });
      refuse("a malformed aggregate", [&] { n.agg("c1", s.pick<std::string>({"total(c3)", "sum(c3", "sum", "(c3)", " ", "max()", "()", ")", "(", "sum(nosuch)", "quantile(c3, x)", "corr(c3, nosuch)", "topk(c3, 1.5)", "quantile(c3, 1..1)"})); });
      break;
    case 18:
      refuse("an aggregation of nothing", [&] { n.agg(std::vector<std::string>{}, std::vector<BuilderExpr>{}); });
      refuse("a column as an aggregate", [&] { n.agg("c1", n.ref("c3")); });
      refuse("a key that is an expression", [&] { n.agg(n.ref("c3").add(1), "count"); });
      break;
    case 19:
      refuse("a text as a number", [&] { cn(isText).cast(s.pick<std::string>({"int32", "fp64", "int64"})); });
      refuse("a floating point number as a date", [&] { n.ref("c5").cast("date"); });
      refuse("a date as a number", [&] { n.ref("c10").cast(s.pick<std::string>({"int32", "fp64"})); });
      refuse("a boolean as a timestamp", [&] { n.ref("c7").cast("timestamp"); });
      refuse("an unknown type", [&] { n.ref("c3").cast(s.pick<std::string>({"int33", "", "foo", "dec(", "fp16"})); });
      break;
    case 20:
      refuse("an unreadable number", [&] { z.qb.cst(s.pick<std::string>({"abc", "1x", "--1"}), "int32"); });
      refuse("an unreadable date", [&] { z.qb.date(s.pick<std::string>({"abc", "x12", "2000-13"})); });
      refuse("a double as a date", [&] { z.qb.cst(0.5, s.pick<std::string>({"date", "text", "int32", "bool"})); });
      refuse("an integer as a text", [&] { z.qb.cst(5, "text"); });
      refuse("an unscaled number as an integer", [&] { z.qb.cstNoScale(5, "int64"); });
      break;
    case 21:
      refuse("mixed branches", [&] { z.qb.ifThenElse(n.ref("c7"), n.ref("c3"), n.ref("c5")); });
      refuse("mixed branches", [&] { z.qb.ifThenElse(n.ref("c7"), n.ref("c3"), n.ref("c8")); });
      break;
    case 22:
      refuse("an element of a non-array", [&] { x.at(1); });
      refuse("the size of a non-array", [&] { x.cardinality(); });
      refuse("unnesting a non-array", [&] { x.unnest(); });
      break;
    case 23:
      refuse("a comparison of a number and a text", [&] { n.ref("c3").eq(cn(isText)); });
      refuse("a comparison of a text and a number", [&] { cn(isText).lt(n.ref("c5")); });
      refuse("a comparison of a timestamp and a time", [&] { n.ref("c11").lt(n.ref("c15")); });
      refuse("a comparison of a date and a time", [&] { n.ref("c15").ge(n.ref("c10")); });
      break;
    case 24:
      if (n.node()->is<Project>()) {
        refuse("a row count of a step", [&] { n.rowCount(); });
      }
      break;
    default:
      throw pbt::Discard();
  }
  // nothing of it sticks
  auto ok = n.proj({"c1", "c3"}).agg("c1", "sum(c3)");
  REQUIRE(ok.size() == 2 && ok.finalize()->getNodes().size() >= 3, "a refused request spoils the next one");
}

PBT_MAIN
