// Scalar expressions in projections and filters against the row-at-a-time reference.
#include "qe/expr.h"
#include "qe/qe.h"
using namespace qe;

static Table genTable(pbt::Src& s, Scope& sc, bool errors, size_t max_rows = 40) {
  Table t;
  t.name = "t";
  size_t rows = s.chance(1, 12) ? 0 : 1 + s.logsize(max_rows);
  size_t ncols = s.size(1, 5);
  for (size_t i = 0; i < ncols; ++i) {
    const Type* ty;
    switch (s.weighted({6, 3, 3, 2, 2})) {
      case 0:
        ty = genIntType(s);
        break;
      case 1:
        ty = genFpType(s);
        break;
      case 2:
        ty = genDecType(s);
        break;
      case 3:
        ty = ctx().boolean(!s.chance(1, 4));
        break;
      default:
        ty = genDictType(s);
    }
    ValueStyle st;
    st.boundary = s.chance(errors ? 4 : 1, 6);
    st.domain = static_cast<int>(s.range(1, 14));
    st.null_pct = s.pick<int>({0, 15, 15, 60});
    Col c{std::string(1, static_cast<char>('a' + i)), ty, {}};
    for (size_t r = 0; r < rows; ++r) {
      c.cells.push_back(genCell(s, ty, st));
    }
    t.cols.push_back(std::move(c));
  }
  t.frag = genFragSize(s, rows);
  sc.add(t);
  return t;
}

static void scalarCase(pbt::Case& c, bool errors) {
  auto& s = c.s;
  Scope sc;
  Table t = genTable(s, sc, errors);
  auto qb = builder();
  auto scan = qb.scan(mem::kDbId, "t");
  bool with_filter = s.draw(2) != 0;
  BuilderNode n = scan;
  Gen g{s, qb};
  g.errors = errors;
  g.addCols(scan, t.types);
  std::optional<Ex> flt;
  int depth = static_cast<int>(s.range(1, 3));
  if (with_filter) {
    flt = g.boolean(depth);
    if (flt->cst) {
      flt.reset();
    } else {
      n = scan.filter(flt->b);
    }
  }
  std::vector<Ex> ex;
  Gen g2{s, qb};
  g2.errors = errors;
  g2.addCols(n, t.types);
  size_t k = s.size(1, 3);
  for (size_t i = 0; i < k; ++i) {
    ex.push_back(errors && s.chance(1, 2) ? g2.edgy() : s.chance(1, 4) ? g2.boolean(depth) : g2.num(depth));
  }
  if (s.chance(1, 3)) {
    ex.push_back(g2.cols[s.draw(g2.cols.size() - 1)]);
  }
  std::vector<BuilderExpr> be;
  std::vector<const Type*> types;
  std::string q;
  for (size_t i = 0; i < ex.size(); ++i) {
    be.push_back(ex[i].b.rename("c" + std::to_string(i)));
    types.push_back(ex[i].t);
    q += (i ? ", " : "") + ex[i].s;
  }
  q = "SELECT " + q + " FROM t" + (flt ? " WHERE " + flt->s : "");
  c.describe([&](auto& o) { o << q << " OVER " << t.str(); });
  auto node = n.proj(be);
  // the same expressions below an aggregate: several fragments may share a kernel
  bool agg = errors && s.chance(1, 3);
  for (auto& e : ex) {
    agg = agg && e.t->isNumber() && !e.cst;
  }
  if (agg) {
    std::vector<BuilderExpr> ab;
    for (size_t i = 0; i < ex.size(); ++i) {
      ab.push_back(node.ref(static_cast<int>(i)).max());
    }
    std::vector<int> keys;
    if (s.chance(1, 3) && ex[0].t->isInteger()) {
      keys.push_back(0);
    }
    node = node.agg(keys, ab);
    q = "SELECT max(..) FROM (" + q + ")" + (keys.empty() ? "" : " GROUP BY c0");
  }
  if (s.chance(1, 3)) {
    q += genConfig(s);
  }
  // reference
  Cx cx;
  std::vector<Row> want;
  for (auto& r : t.allRows()) {
    if (flt) {
      Cell f = flt->f(r, cx);
      if (f.null || !f.i) {
        continue;
      }
    }
    Row o;
    for (auto& e : ex) {
      o.push_back(e.f(r, cx));
    }
    want.push_back(std::move(o));
  }
  if (cx.amb) {
    throw pbt::Discard();
  }
  {
    // an error in a constant part may be reported even if no row reaches it
    Cx k;
    k.lazy = 1;
    Row nulls(t.cols.size(), Cell::Null());
    for (auto& e : ex) {
      e.f(nulls, k);
    }
    if (flt) {
      flt->f(nulls, k);
    }
    cx.maybe = cx.maybe || k.maybe || k.amb;
  }
  auto got = tryRun(node);
  c.label(cx.strict, "must fail");
  c.label(cx.maybe && !cx.strict, "may fail");
  if (!got.res) {
    REQUIRE(got.overflow() || got.divZero(), "the query failed for another reason: " << got.err << "\n  " << q << "\n  " << t.str(40));
    REQUIRE(cx.strict || cx.maybe, "the query failed without an arithmetic error: " << got.err << "\n  " << q << "\n  " << t.str(40));
    c.nontrivial(errors);
    return;
  }
  REQUIRE(!cx.strict, "an overflow or division by zero went unnoticed\n  " << q << "\n  " << t.str(40) << "\n got " << dump(got.res->rows, got.res->types));
  if (agg) {
    c.label(true, "below an aggregate");
    return;
  }
  REQUIRE(got.res->types.size() == types.size(), "columns");
  for (size_t i = 0; i < types.size(); ++i) {
    REQUIRE(sameType(got.res->types[i], types[i]) || types[i]->isExtDictionary(), "type of column " << i << " is " << got.res->types[i]->toString() << ", expected " << types[i]->toString() << "\n  " << q);
    REQUIRE(got.res->names[i] == "c" + std::to_string(i), "name of column " << i << " is " << got.res->names[i]);
  }
  bool f32 = false;
  for (auto& e : ex) {
    f32 = f32 || e.f32;
  }
  requireSameBag(got.res->rows, want, types, q + "\n  " + t.str(40), f32 ? 1e-3 : 1e-9);
  if (!errors) {
    c.nontrivial(t.rows > 0 && !want.empty());
    c.label(t.rows > t.frag, "several fragments");
    c.label(with_filter && want.size() < t.rows && !want.empty(), "filter splits");
  }
}

FACET(scalar) { scalarCase(c, false); }
FACET(errors) {
  try {
    scalarCase(c, true);
  } catch (const pbt::Fail&) {
    throw;
  } catch (const std::exception& e) {
    // the builder converts literals itself and rejects those that do not fit
    if (std::string(e.what()).find("verflow") == std::string::npos) {
      throw;
    }
    throw pbt::Discard();
  }
}

PBT_MAIN
