// Whole queries: generated pipelines of scans, projections, filters, aggregations, joins, sorts and window functions are
// executed by the engine and compared with a row-at-a-time model.
#include "qe/pipe.h"
#include "qe/qe.h"

using namespace qe;

static void requireRows(const std::vector<Row>& got, const Rel& r, const std::string& what) {
  requireSameBag(got, r.rows, r.types, what, 1e-7);
  if (!r.order_cols.empty()) {
    std::vector<Row> a, b;
    for (auto& x : got) {
      a.push_back(r.key(x));
    }
    for (auto& x : r.rows) {
      b.push_back(r.key(x));
    }
    requireSameSeq(a, b, r.keyTypes(), what + " (order)", 1e-7);
  }
}

static void pipeCase(pbt::Case& c, PipeOpts o, int depth) {
  auto& s = c.s;
  Scope sc;
  std::string cfg = s.chance(1, 2) ? genConfig(s) : "";
  auto qb = builder();
  o.bigint_count = env().cfg->exec.group_by.bigint_count;
  o.count_distinct = o.bigint_count;  // known finding count-distinct-type of X03
  Pipe p(s, qb, [&](pbt::Src&, Table t) {
    sc.add(t);
    return t;
  }, o);
  Rel r = p.build(depth);
  c.describe([&](std::ostream& o) {
    for (auto& t : p.tables) {
      o << t.str() << "\n";
    }
    o << r.s << cfg;
  });
  auto got = tryRun(r.n);
  if (r.scan) {
    p.dropLast(r);
  }
  if (!got.res && got.err.find("Not enough host memory") != std::string::npos) {
    throw pbt::Discard();
  }
  if (!got.res && r.joined && (got.err.find("Cannot fall back to loop join") != std::string::npos || got.err.find("Hash join failed") != std::string::npos || got.err.find("not supported self-join pattern") != std::string::npos)) {
    c.label("join refused");  // only some joins can be chained
    return;
  }
  REQUIRE(got.res, "the query failed: " << got.err);
  auto& res = *got.res;
  REQUIRE(res.types.size() == r.size(), "the result has " << res.types.size() << " columns, expected " << r.size());
  for (size_t i = 0; i < r.size(); ++i) {
    REQUIRE(sameType(res.types[i], r.types[i]), "column " << i << " is of type " << res.types[i]->toString() << ", expected " << r.types[i]->toString());
    REQUIRE(i >= res.names.size() || res.names[i] == r.names[i], "column " << i << " is called " << res.names[i] << ", expected " << r.names[i]);
  }
  requireRows(res.rows, r, "result");
  bool sorted = r.s.find(".sort(") != std::string::npos;
  c.nontrivial(o.join_share >= 8 ? r.joined && !r.rows.empty() : o.force_sort ? sorted && r.rows.size() > 1 : r.steps >= 2 && !r.rows.empty());
  c.label(sorted, "sorted");
  c.label(r.window ? "window" : r.joined ? "join" : r.aggregated ? "aggregation" : "plain");
  c.label(!cfg.empty(), "non-default configuration");
}

FACET(join) {
  PipeOpts o;
  o.window = false;
  o.sort = false;
  o.stat_aggs = false;
  o.shared = false;
  o.join_share = 8;
  pipeCase(c, o, 2 + c.s.draw(1));
}
FACET(sort) {
  PipeOpts o;
  o.window = false;
  o.join = false;
  o.w_sort = 6;
  o.force_sort = true;
  o.stat_aggs = false;
  o.max_rows = 40;
  pipeCase(c, o, 1 + c.s.draw(2));
}
FACET(window) {
  PipeOpts o;
  o.join = false;
  o.w_sort = 1;
  o.w_window = 8;
  o.stat_aggs = false;
  o.max_rows = 30;
  pipeCase(c, o, 1 + c.s.draw(2));
}
FACET(pipeline) {
  PipeOpts o;
  pipeCase(c, o, 1 + c.s.draw(3));
}
PBT_MAIN
