// Scratch pad.
#include "qe/qe.h"
using namespace qe;
int main() {
  for (int v = 0; v < 6; ++v) {
    Scope sc;
    env().cfg->rs.enable_columnar_output = true;
    if (v >= 9) env().cfg->rs.enable_lazy_fetch = false;
    Table t;
    t.name = "t";
    t.frag = 2;
    t.cols.push_back({"a", ctx().fp32(false), {Cell::D(-0.5), Cell::D(2.5)}});
    t.cols.push_back({"b", ctx().int32(false), {Cell::I(1), Cell::I(2)}});
    sc.add(t);
    auto qb = builder();
    auto n = qb.scan(mem::kDbId, "t");
    std::vector<BuilderExpr> e;
    if (v == 0 || v == 4) e = {n.ref(0), n.ref(1)};
    if (v == 1) e = {n.ref(0).add(n.ref(0)), n.ref(0)};
    if (v == 2) e = {n.ref(0).add(n.ref(0)), n.ref(1), n.ref(0)};
    if (v == 3) e = {n.ref(1).add(n.ref(1)), n.ref(0)};
    if (v == 5) e = {n.ref(0), n.ref(0)};
    auto r = tryRun(n.proj(e));
    std::cout << v << " " << (r.res ? dump(r.res->rows, r.res->types) : r.err) << std::endl;
  }
  _exit(0);
}
