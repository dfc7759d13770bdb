// Query plan steps: identity (hash), copies, shape, listing. A step is described by a plain structural specification; the
// oracle is the specification itself.
#include "IR/Context.h"
#include "IR/InputRewriter.h"
#include "IR/Node.h"
#include "SchemaMgr/ColumnInfo.h"
#include "SchemaMgr/TableInfo.h"
#include "common/pbt.h"

#include <memory>

using namespace hdk::ir;
namespace {
Context& ctx() {
  return Context::defaultCtx();
}
const Type* typeOf(int t) {
  switch (t) {
    case 0:
      return ctx().int32(true);
    case 1:
      return ctx().int64(true);
    case 2:
      return ctx().int64(false);
    case 3:
      return ctx().fp64(true);
    case 4:
      return ctx().text(true);
    default:
      return ctx().boolean(false);
  }
}
struct Spec;
void giveTypes(const Spec& sp, const Node* n);
using SpecP = std::shared_ptr<Spec>;
struct ES {  // expression over the columns of the inputs
  int kind = 0;  // 0 column, 1 int64 constant, 2 column + constant, 3 column = constant (boolean), 4 column = column
  int in = 0, col = 0, in2 = 0, col2 = 0;
  int64_t lit = 0;
  std::string key() const {
    std::ostringstream o;
    o << "e" << kind;
    if (kind != 1)
      o << "c" << in << "." << col;
    if (kind == 4)
      o << "d" << in2 << "." << col2;
    if (kind >= 1 && kind <= 3)
      o << "l" << lit;
    return o.str();
  }
};
struct AS {  // aggregate
  int kind = 0;  // 0 count(*), 1 count(col), 2 count(distinct col), 3 min, 4 max, 5 sum
  int col = 0;
  std::string key() const { return "a" + std::to_string(kind) + (kind ? "." + std::to_string(col) : ""); }
};
enum K { SCAN, PROJ, FILT, AGG, JOIN, SORT, VALUES, UNION, SHUF };
struct Spec {
  K k = SCAN;
  std::vector<SpecP> in;
  int db = 0, table = 0;
  std::string tname;
  std::vector<std::string> names;
  std::vector<int> types;  // types of scanned columns / values
  std::vector<ES> exprs;
  std::vector<AS> aggs;
  size_t keys = 0;
  bool part = false;
  size_t hint = 0;
  int jt = 0;
  std::vector<std::array<int, 3>> coll;
  size_t limit = 0, offset = 0;
  bool empty = false;
  std::vector<std::vector<int64_t>> rows;
  size_t parts = 0;
  NodePtr node;

  std::string key() const {
    std::ostringstream o;
    o << "(" << k << ";" << db << ";" << table << ";" << tname << ";";
    for (auto& n : names)
      o << n << "|";
    o << ";";
    for (auto t : types)
      o << t << ",";
    o << ";";
    for (auto e : exprs) {
      // References name the step they come from: the sides of a join of two equal steps cannot be told apart in them.
      if (in.size() == 2 && in[0]->key() == in[1]->key())
        e.in = e.in2 = 0;
      o << e.key() << ",";
    }
    o << ";";
    for (auto& a : aggs)
      o << a.key() << ",";
    o << ";" << keys << ";" << jt << ";";
    for (auto& c : coll)
      o << c[0] << "." << c[1] << "." << c[2] << ",";
    o << ";" << limit << ";" << offset << ";" << empty << ";" << rows.size() << ";";
    for (auto& r : rows) {
      for (auto v : r)
        o << v << ",";
      o << "/";
    }
    o << ";" << parts << ";";
    for (auto& i : in)
      o << i->key();
    o << ")";
    return o.str();
  }
  size_t width() const {
    switch (k) {
      case SCAN:
      case VALUES:
        return types.size();
      case PROJ:
        return exprs.size();
      case SHUF:
        return exprs.size();
      case AGG:
        return keys + aggs.size();
      case JOIN:
        return in[0]->width() + in[1]->width();
      default:
        return in[0]->width();
    }
  }
  const Type* type(size_t i) const {
    switch (k) {
      case SCAN:
      case VALUES:
        return typeOf(types[i]);
      case PROJ:
      case SHUF:
        switch (exprs[i].kind) {
          case 0:
            return in[exprs[i].in]->type(exprs[i].col);
          case 1:
            return ctx().int64(false);
          case 2:
            return ctx().int64(true);
          default:
            return ctx().boolean(true);
        }
      case AGG:
        if (i < keys)
          return in[0]->type(i);
        switch (aggs[i - keys].kind) {
          case 0:
          case 1:
          case 2:
            return ctx().int64(false);
          case 5:
            return ctx().int64(true);
          default:
            return in[0]->type(aggs[i - keys].col)->withNullable(true);
        }
      case JOIN:
        if (i < in[0]->width())
          return in[0]->type(i);
        return jt == 1 ? in[1]->type(i - in[0]->width())->withNullable(true) : in[1]->type(i - in[0]->width());
      default:
        return in[0]->type(i);
    }
  }
  std::string name(size_t i) const {
    switch (k) {
      case SCAN:
      case VALUES:
      case PROJ:
      case AGG:
      case SHUF:
        return names[i];
      case JOIN:
        return i < in[0]->width() ? in[0]->name(i) : in[1]->name(i - in[0]->width());
      default:
        return in[0]->name(i);
    }
  }
  ExprPtr col(int input, int c) const { return getNodeColumnRef(in[input]->node.get(), c); }
  ExprPtr expr(const ES& e) const {
    Datum d;
    d.bigintval = e.lit;
    auto lit = makeExpr<Constant>(ctx().int64(false), false, d);
    switch (e.kind) {
      case 0:
        return col(e.in, e.col);
      case 1:
        return lit;
      case 2:
        return makeExpr<BinOper>(ctx().int64(true), OpType::kPlus, Qualifier::kOne, col(e.in, e.col), lit);
      case 3:
        return makeExpr<BinOper>(ctx().boolean(true), OpType::kEq, Qualifier::kOne, col(e.in, e.col), lit);
      default:
        return makeExpr<BinOper>(ctx().boolean(true), OpType::kEq, Qualifier::kOne, col(e.in, e.col), col(e.in2, e.col2));
    }
  }
  ExprPtr agg(const AS& a) const {
    auto t = ctx().int64(false);
    switch (a.kind) {
      case 0:
        return makeExpr<AggExpr>(t, AggType::kCount, nullptr, false, nullptr);
      case 1:
        return makeExpr<AggExpr>(t, AggType::kCount, col(0, a.col), false, nullptr);
      case 2:
        return makeExpr<AggExpr>(t, AggType::kCount, col(0, a.col), true, nullptr);
      case 3:
        return makeExpr<AggExpr>(in[0]->type(a.col)->withNullable(true), AggType::kMin, col(0, a.col), false, nullptr);
      case 4:
        return makeExpr<AggExpr>(in[0]->type(a.col)->withNullable(true), AggType::kMax, col(0, a.col), false, nullptr);
      default:
        return makeExpr<AggExpr>(ctx().int64(true), AggType::kSum, col(0, a.col), false, nullptr);
    }
  }
  ExprPtrVector exprVec() const {
    ExprPtrVector res;
    for (auto& e : exprs)
      res.push_back(expr(e));
    return res;
  }
  std::vector<SortField> collation() const {
    std::vector<SortField> res;
    for (auto& c : coll)
      res.emplace_back(c[0],
                       c[1] ? SortDirection::Descending : SortDirection::Ascending,
                       c[2] ? NullSortedPosition::First : NullSortedPosition::Last);
    return res;
  }
  NodePtr build() {
    doBuild();
    giveTypes(*this, node.get());
    return node;
  }
  void doBuild() {
    for (auto& i : in)
      if (!i->node)
        i->build();
    switch (k) {
      case SCAN: {
        std::vector<ColumnInfoPtr> cols;
        for (size_t i = 0; i < names.size(); ++i)
          cols.push_back(std::make_shared<ColumnInfo>(db, table, int(i) + 1, names[i], typeOf(types[i]), false));
        node = std::make_shared<Scan>(std::make_shared<TableInfo>(db, table, tname, false, 1, 10), cols);
        break;
      }
      case PROJ:
        node = std::make_shared<Project>(exprVec(), names, in[0]->node);
        break;
      case FILT:
        node = std::make_shared<Filter>(expr(exprs[0]), in[0]->node);
        break;
      case AGG: {
        ExprPtrVector as;
        for (auto& a : aggs)
          as.push_back(agg(a));
        auto a = std::make_shared<Aggregate>(keys, as, names, in[0]->node);
        a->setPartitioned(part);
        a->setBufferEntryCountHint(hint);
        node = a;
        break;
      }
      case JOIN:
        node = std::make_shared<Join>(
            in[0]->node, in[1]->node, exprs.empty() ? nullptr : expr(exprs[0]), jt ? JoinType::LEFT : JoinType::INNER);
        break;
      case SORT: {
        auto s = std::make_shared<Sort>(collation(), limit, offset, in[0]->node);
        s->setEmptyResult(empty);
        node = s;
        break;
      }
      case VALUES: {
        std::vector<TargetMetaInfo> tt;
        for (size_t i = 0; i < names.size(); ++i)
          tt.emplace_back(names[i], typeOf(types[i]));
        std::vector<ExprPtrVector> vals;
        for (auto& r : rows) {
          ExprPtrVector v;
          for (auto x : r) {
            Datum d;
            d.bigintval = x;
            v.push_back(makeExpr<Constant>(ctx().int64(true), false, d));
          }
          vals.push_back(v);
        }
        node = std::make_shared<LogicalValues>(tt, vals);
        break;
      }
      case UNION:
        node = std::make_shared<LogicalUnion>(NodeInputs{in[0]->node, in[1]->node}, true);
        break;
      case SHUF: {
        ExprPtrVector ks;
        for (size_t i = 0; i < keys; ++i)
          ks.push_back(col(0, i));
        node = std::make_shared<Shuffle>(
            ks, exprVec(), names, ShuffleFunction{ShuffleFunction::kHash, parts}, std::vector<NodePtr>{in[0]->node});
        break;
      }
    }
  }
};

// Column types of a shuffle are given by whoever plans it.
void giveTypes(const Spec& sp, const Node* n) {
  if (sp.k == SHUF) {
    std::vector<TargetMetaInfo> m;
    for (size_t i = 0; i < sp.names.size(); ++i)
      m.emplace_back(sp.names[i], sp.type(i));
    n->setOutputMetainfo(m);
  }
}
std::string someName(pbt::Src& s) {
  static const char* n[] = {"a", "b", "c", "ab", "a b", ""};
  return n[s.draw(5)];
}
ES someExpr(pbt::Src& s, const Spec& sp, bool boolean) {
  ES e;
  if (boolean) {
    e.kind = sp.in.size() > 1 || s.draw(1) ? 4 : 3;
  } else {
    e.kind = s.weighted({5, 1, 2});
  }
  e.in = s.draw(sp.in.size() - 1);
  e.col = s.draw(sp.in[e.in]->width() - 1);
  e.in2 = s.draw(sp.in.size() - 1);
  e.col2 = s.draw(sp.in[e.in2]->width() - 1);
  e.lit = s.draw(2);
  return e;
}
SpecP genSpec(pbt::Src& s, int depth, std::vector<SpecP>& pool) {
  if (!pool.empty() && s.chance(3, 10))
    return pool[s.draw(pool.size() - 1)];
  auto sp = std::make_shared<Spec>();
  int k = depth ? s.draw(8) : (s.draw(3) ? SCAN : VALUES);
  sp->k = K(k);
  switch (sp->k) {
    case SCAN:
      sp->db = 1 + s.draw(1);
      sp->table = 1 + s.draw(1);
      sp->tname = s.draw(1) ? "t" : "u";
      for (size_t i = 0, n = 1 + s.draw(2); i < n; ++i) {
        sp->names.push_back(someName(s));
        // The type of a stored column is a function of the table and the column.
        sp->types.push_back((sp->names.back().size() + sp->db + 2 * sp->table) % 6);
      }
      break;
    case VALUES:
      for (size_t i = 0, n = 1 + s.draw(1); i < n; ++i) {
        sp->names.push_back(someName(s));
        sp->types.push_back(1);
      }
      for (size_t i = 0, n = s.draw(2); i < n; ++i) {
        sp->rows.emplace_back();
        for (size_t j = 0; j < sp->names.size(); ++j)
          sp->rows.back().push_back(s.draw(2));
      }
      break;
    case JOIN:
    case UNION:
      sp->in.push_back(genSpec(s, depth - 1, pool));
      sp->in.push_back(genSpec(s, depth - 1, pool));
      if (sp->k == JOIN) {
        sp->jt = s.draw(1);
        if (s.draw(3))
          sp->exprs.push_back(someExpr(s, *sp, true));
      }
      break;
    default:
      sp->in.push_back(genSpec(s, depth - 1, pool));
      switch (sp->k) {
        case PROJ:
          for (size_t i = 0, n = 1 + s.draw(2); i < n; ++i) {
            sp->exprs.push_back(someExpr(s, *sp, false));
            sp->names.push_back(someName(s));
          }
          break;
        case FILT:
          sp->exprs.push_back(someExpr(s, *sp, true));
          break;
        case AGG:
          sp->keys = s.draw(std::min<size_t>(2, sp->in[0]->width()));
          for (size_t i = 0, n = s.draw(2) + (sp->keys ? 0 : 1); i < n; ++i)
            sp->aggs.push_back(AS{int(s.draw(5)), int(s.draw(sp->in[0]->width() - 1))});
          for (size_t i = 0; i < sp->keys + sp->aggs.size(); ++i)
            sp->names.push_back(someName(s));
          sp->part = s.chance(3, 10);
          sp->hint = s.draw(2) * 100;
          break;
        case SORT:
          for (size_t i = 0, n = s.draw(2); i < n; ++i)
            sp->coll.push_back({int(s.draw(sp->in[0]->width() - 1)), int(s.draw(1)), int(s.draw(1))});
          sp->limit = s.draw(2);
          sp->offset = s.draw(2);
          sp->empty = s.chance(1, 10);
          break;
        case SHUF:
          sp->keys = 1 + s.draw(std::min<size_t>(2, sp->in[0]->width()) - 1);
          for (size_t i = 0, n = 1 + s.draw(1); i < n; ++i) {
            sp->exprs.push_back(someExpr(s, *sp, false));
            sp->names.push_back(someName(s));
          }
          sp->parts = 1 + s.draw(2);
          break;
        default:
          break;
      }
  }
  pool.push_back(sp);
  return sp;
}
SpecP clone(const SpecP& s) {  // structural copy, nothing shared, nothing built
  auto r = std::make_shared<Spec>(*s);
  r->node = nullptr;
  for (auto& i : r->in)
    i = clone(i);
  return r;
}
// One edit somewhere in the plan.
void mutate(pbt::Src& s, Spec& sp) {
  if (!sp.in.empty() && s.draw(1)) {
    mutate(s, *sp.in[s.draw(sp.in.size() - 1)]);
    return;
  }
  switch (sp.k) {
    case SCAN:
      switch (s.draw(4)) {
        case 0:
          sp.db += 6;
          break;
        case 1:
          sp.table += 3;
          break;
        case 2:
          sp.tname += "x";
          break;
        case 3:
          sp.names[s.draw(sp.names.size() - 1)] += "xxxxxx";
          break;
        default:
          sp.names.push_back("z");
          sp.types.push_back(1);
      }
      break;
    case VALUES:
      switch (s.draw(2)) {
        case 0:
          sp.names[s.draw(sp.names.size() - 1)] += "x";
          break;
        case 1:
          sp.rows.emplace_back(sp.names.size(), 7);
          break;
        default:
          if (sp.rows.empty())
            throw pbt::Discard();
          sp.rows[s.draw(sp.rows.size() - 1)][0] += 1;
      }
      break;
    case PROJ:
    case SHUF:
      switch (s.draw(2)) {
        case 0:
          sp.names[s.draw(sp.names.size() - 1)] += "x";
          break;
        case 1:
          sp.exprs[s.draw(sp.exprs.size() - 1)] = someExpr(s, sp, false);
          break;
        default:
          if (sp.k == SHUF)
            sp.parts++;
          else {
            sp.exprs.push_back(someExpr(s, sp, false));
            sp.names.push_back("z");
          }
      }
      break;
    case FILT:
      sp.exprs[0] = someExpr(s, sp, true);
      break;
    case JOIN:
      if (s.draw(1))
        sp.jt ^= 1;
      else if (sp.exprs.empty() || s.draw(1))
        sp.exprs = {someExpr(s, sp, true)};
      else
        sp.exprs.clear();
      break;
    case AGG:
      if (sp.aggs.empty() || s.draw(1))
        sp.names[s.draw(sp.names.size() - 1)] += "x";
      else
        sp.aggs[s.draw(sp.aggs.size() - 1)] = AS{int(s.draw(5)), int(s.draw(sp.in[0]->width() - 1))};
      break;
    case SORT:
      switch (s.draw(4)) {
        case 0:
          sp.limit++;
          break;
        case 1:
          sp.offset++;
          break;
        case 2:
          sp.empty = !sp.empty;
          break;
        case 3:
          sp.coll.push_back({0, 0, 0});
          break;
        default:
          if (sp.coll.empty())
            throw pbt::Discard();
          auto& x = sp.coll[s.draw(sp.coll.size() - 1)];
          int w = s.draw(2);
          if (w)
            x[w] ^= 1;
          else
            x[0] = s.draw(sp.in[0]->width() - 1);
      }
      break;
    case UNION:
      std::swap(sp.in[0], sp.in[1]);
      break;
  }
}
bool validRefs(const Spec& sp) {
  for (auto& i : sp.in)
    if (!validRefs(*i))
      return false;
  for (auto& e : sp.exprs) {
    if (e.kind != 1 && (e.in >= int(sp.in.size()) || e.col >= int(sp.in[e.in]->width())))
      return false;
    if (e.kind == 4 && (e.in2 >= int(sp.in.size()) || e.col2 >= int(sp.in[e.in2]->width())))
      return false;
  }
  for (auto& a : sp.aggs)
    if (a.col >= int(sp.in[0]->width()))
      return false;
  for (auto& c : sp.coll)
    if (c[0] >= int(sp.in[0]->width()))
      return false;
  if ((sp.k == AGG || sp.k == SHUF) && sp.keys > sp.in[0]->width())
    return false;
  return true;
}
void allSpecs(const SpecP& s, std::set<Spec*>& out) {
  if (out.insert(s.get()).second)
    for (auto& i : s->in)
      allSpecs(i, out);
}
ConfigPtr cfg() {
  static ConfigPtr c = std::make_shared<Config>();
  return c;
}
void checkCommon(const Spec& sp, const Node* n, const char* what) {
  REQUIRE(n->size() == sp.width(), what << ": " << n->size() << " columns, expected " << sp.width() << " " << sp.key());
  REQUIRE(getNodeColumnCount(n) == sp.width(), what << ": column count " << getNodeColumnCount(n) << " " << sp.key());
  auto refs = getNodeColumnRefs(n);
  REQUIRE(refs.size() == sp.width(), what << ": column references");
  for (size_t i = 0; i < sp.width(); ++i) {
    REQUIRE(n->getFieldName(i) == sp.name(i), what << ": column " << i << " named " << n->getFieldName(i));
    REQUIRE(getColumnType(n, i)->equal(sp.type(i)),
            what << ": column " << i << " has type " << getColumnType(n, i)->toString() << " not " << sp.type(i)->toString()
                 << " in " << sp.key());
    auto r = refs[i]->as<hdk::ir::ColumnRef>();
    REQUIRE(r && r->node() == n && r->index() == i && r->type()->equal(sp.type(i)), what << ": reference to column " << i);
    if (sp.k == JOIN) {
      auto j = getJoinInputColumnRef(r);
      auto jr = j->as<hdk::ir::ColumnRef>();
      size_t lw = sp.in[0]->width();
      REQUIRE(jr && jr->node() == n->getInput(i < lw ? 0 : 1) && jr->index() == (i < lw ? i : i - lw),
              what << ": join column " << i << " resolves to " << j->toString());
    }
  }
  REQUIRE(n->inputCount() == sp.in.size(), what << ": inputs");
  for (size_t i = 0; i < sp.in.size(); ++i)
    REQUIRE(n->getInput(i) == sp.in[i]->node.get(), what << ": input " << i);
  if (auto p = n->as<Project>()) {
    bool simple = true, renaming = false;
    for (size_t i = 0; i < sp.exprs.size(); ++i) {
      if (sp.exprs[i].kind != 0)
        simple = false;
      else if (sp.in[0]->name(sp.exprs[i].col) != sp.names[i])
        renaming = true;
    }
    REQUIRE(p->isSimple() == simple, what << ": isSimple " << p->isSimple() << " " << sp.key());
    REQUIRE(p->isRenaming() == (simple && renaming), what << ": isRenaming " << p->isRenaming() << " " << sp.key());
    // every column once, in order, and not the columns of two joined inputs
    bool all = simple && sp.in[0]->k != JOIN && sp.exprs.size() == sp.in[0]->width();
    bool in_order = all;
    for (size_t i = 0; in_order && i < sp.exprs.size(); ++i)
      in_order = sp.exprs[i].col == static_cast<int>(i);
    REQUIRE(all || !p->isIdentity(), what << ": isIdentity " << sp.key());
    REQUIRE(!in_order || p->isIdentity(), what << ": not isIdentity " << sp.key());
    REQUIRE(p->getFields() == sp.names, what << ": fields");
    for (size_t i = 0; i < sp.exprs.size(); ++i)
      REQUIRE(*p->getExpr(i) == *sp.expr(sp.exprs[i]), what << ": projected expression " << i);
  } else if (auto a = n->as<Aggregate>()) {
    REQUIRE(a->getGroupByCount() == sp.keys && a->getAggsCount() == sp.aggs.size(), what << ": aggregate shape");
    REQUIRE(a->getFields() == sp.names, what << ": fields");
    REQUIRE(a->isPartitioned() == sp.part, what << ": partitioned flag " << a->isPartitioned());
    REQUIRE(a->bufferEntryCountHint() == sp.hint, what << ": buffer size hint " << a->bufferEntryCountHint());
    for (size_t i = 0; i < sp.aggs.size(); ++i)
      REQUIRE(*a->getAgg(i) == *sp.agg(sp.aggs[i]), what << ": aggregate " << i);
  } else if (auto f = n->as<Filter>()) {
    REQUIRE(*f->getConditionExpr() == *sp.expr(sp.exprs[0]), what << ": condition");
  } else if (auto j = n->as<Join>()) {
    REQUIRE(j->getJoinType() == (sp.jt ? JoinType::LEFT : JoinType::INNER), what << ": join type");
    REQUIRE(!j->getCondition() == sp.exprs.empty(), what << ": join condition");
    if (j->getCondition())
      REQUIRE(*j->getCondition() == *sp.expr(sp.exprs[0]), what << ": join condition");
  } else if (auto so = n->as<Sort>()) {
    REQUIRE(so->getLimit() == sp.limit && so->getOffset() == sp.offset && so->isEmptyResult() == sp.empty, what << ": sort bounds");
    auto c = sp.collation();
    REQUIRE(so->collationCount() == c.size(), what << ": sort keys");
    for (size_t i = 0; i < c.size(); ++i)
      REQUIRE(so->getCollation(i) == c[i], what << ": sort key " << i);
  } else if (auto v = n->as<LogicalValues>()) {
    REQUIRE(v->getNumRows() == sp.rows.size() && v->hasRows() == !sp.rows.empty(), what << ": rows");
    for (size_t i = 0; i < sp.rows.size(); ++i)
      for (size_t k = 0; k < sp.names.size(); ++k)
        REQUIRE(v->getValue(i, k)->as<Constant>()->value().bigintval == sp.rows[i][k], what << ": value");
  } else if (auto u = n->as<LogicalUnion>()) {
    REQUIRE(u->isAll(), what << ": union");
  } else if (auto sh = n->as<Shuffle>()) {
    REQUIRE(sh->fields() == sp.names && sh->keys().size() == sp.keys && sh->fn().partitions == sp.parts, what << ": shuffle");
    for (size_t i = 0; i < sp.exprs.size(); ++i)
      REQUIRE(*sh->exprs()[i] == *sp.expr(sp.exprs[i]), what << ": shuffled expression " << i);
  } else if (auto sc = n->as<Scan>()) {
    REQUIRE(sc->getDatabaseId() == sp.db && sc->getTableId() == sp.table, what << ": table");
  }
}
}  // namespace

FACET(identity) {
  std::vector<SpecP> pool;
  int n = 1 + c.s.draw(5);
  std::vector<SpecP> all;
  for (int i = 0; i < n; ++i)
    all.push_back(genSpec(c.s, c.s.draw(4), pool));
  // Twins (built separately, from nothing shared) and near twins.
  size_t base = all.size();
  for (int i = 0, m = 1 + c.s.draw(5); i < m; ++i) {
    auto t = clone(all[c.s.draw(base - 1)]);
    int edits = c.s.draw(2);
    for (int k = 0; k < edits; ++k)
      mutate(c.s, *t);
    if (validRefs(*t))
      all.push_back(t);
  }
  std::map<std::string, size_t> byKey;
  std::map<size_t, std::string> byHash;
  bool twin = false;
  for (auto& sp : all) {
    if (!sp->node)
      sp->build();
    std::set<Spec*> parts;
    allSpecs(sp, parts);
    for (auto p : parts) {
      auto key = p->key();
      auto h = p->node->toHash();
      REQUIRE(p->node->toHash() == h, "identity of a step changes between calls");
      auto [it, fresh] = byKey.emplace(key, h);
      twin = twin || !fresh;
      REQUIRE(it->second == h, "two equal steps have different identities: " << key);
      auto [jt, fresh2] = byHash.emplace(h, key);
      REQUIRE(jt->second == key, "different steps have one identity:\n  " << jt->second << "\n  " << key);
    }
  }
  c.nontrivial(byKey.size() > 2 && twin);
  c.label(all.back()->in.empty() ? "leaf" : "plan");
  c.describe([&](auto& o) { o << all.back()->key(); });
}

FACET(copies) {
  std::vector<SpecP> pool;
  auto sp = genSpec(c.s, 1 + c.s.draw(4), pool);
  sp->build();
  std::set<Spec*> parts;
  allSpecs(sp, parts);
  c.describe([&](auto& o) { o << sp->key(); });
  size_t copied = 0;
  for (auto p : parts) {
    checkCommon(*p, p->node.get(), "step");
    if (p->k == SCAN)
      continue;
    // Poison the freed memory a copy is likely to be built in.
    for (int i = 0; i < 4; ++i) {
      auto junk = std::make_unique<unsigned char[]>(64 + 32 * i + 100);
      std::memset(junk.get(), 0xa5, 164 + 32 * i);
    }
    auto cp = p->node->deepCopy();
    giveTypes(*p, cp.get());
    REQUIRE(cp.get() != p->node.get() && cp->getId() != p->node->getId(), "a copy is the original");
    checkCommon(*p, cp.get(), "copy");
    REQUIRE(cp->toHash() == p->node->toHash(), "a copy has another identity: " << p->key());
    ++copied;
    // Editing the copy leaves the original alone.
    if (auto a = std::dynamic_pointer_cast<Project>(cp)) {
      a->appendInput("more", p->expr(p->exprs[0]));
      REQUIRE(a->size() == p->width() + 1 && a->getFields().size() == a->size() && a->getFieldName(p->width()) == "more" && a->getExprs().size() == a->size() &&
                  *a->getExpr(p->width()) == *p->expr(p->exprs[0]),
              "an appended column");
      checkCommon(*p, p->node.get(), "edited step");
    } else if (auto a = std::dynamic_pointer_cast<Sort>(cp)) {
      a->setCollation({});
      checkCommon(*p, p->node.get(), "edited step");
    } else if (auto a = std::dynamic_pointer_cast<Aggregate>(cp)) {
      a->setFields({});
      a->setPartitioned(!p->part);
      checkCommon(*p, p->node.get(), "edited step");
    }
    if (!p->in.empty() && c.s.draw(1)) {
      // Redirect the copy to a copy of one of its inputs: same columns, so all references move and nothing else changes.
      auto old = p->in[c.s.draw(p->in.size() - 1)];
      if (old->k != SCAN && (p->k != JOIN || p->in[0] != p->in[1])) {
        auto redirected = p->node->deepCopy();
        giveTypes(*p, redirected.get());
        auto fresh = old->node->deepCopy();
        giveTypes(*old, fresh.get());
        redirected->replaceInput(old->node, fresh);
        Spec other = *p;
        auto oldcopy = std::make_shared<Spec>(*old);
        oldcopy->node = fresh;
        for (auto& i : other.in)
          if (i == old)
            i = oldcopy;
        checkCommon(other, redirected.get(), "redirected step");
        checkCommon(*p, p->node.get(), "step after redirecting its copy");
      }
    }
  }
  // A union is accepted exactly when its inputs have the same columns types.
  {
    auto side = [&](std::vector<const Type*> types) {
      std::vector<std::string> names;
      std::vector<TargetMetaInfo> info;
      std::vector<TargetMetaInfo> tuple;
      for (size_t i = 0; i < types.size(); ++i) {
        names.push_back("c" + std::to_string(i));
        tuple.emplace_back(names.back(), types[i]);
        info.emplace_back(names.back(), types[i]);
      }
      auto n = std::make_shared<LogicalValues>(tuple, std::vector<ExprPtrVector>{});
      n->setOutputMetainfo(info);
      return n;
    };
    auto anyType = [&]() -> const Type* {
      switch (c.s.draw(8)) {
        case 0:
          return ctx().extDict(ctx().text(), 1 + c.s.draw(1), 4);
        case 1:
          return ctx().decimal64(10, c.s.draw(2));
        case 2:
          return ctx().timestamp(c.s.draw(1) ? TimeUnit::kSecond : TimeUnit::kMilli);
        default:
          return typeOf(c.s.draw(5));
      }
    };
    std::vector<const Type*> lt, rt;
    for (size_t k = c.s.size(1, 4); k; --k)
      lt.push_back(anyType());
    rt = lt;
    if (c.s.draw(2))
      rt[c.s.draw(rt.size() - 1)] = anyType();
    if (c.s.chance(1, 5))
      rt.push_back(anyType());
    else if (c.s.chance(1, 5) && rt.size() > 1)
      rt.pop_back();
    bool same = lt.size() == rt.size();
    for (size_t i = 0; same && i < lt.size(); ++i)
      same = lt[i]->toString() == rt[i]->toString();
    LogicalUnion u(NodeInputs{side(lt), side(rt)}, true);
    bool accepted = true;
    try {
      u.checkForMatchingMetaInfoTypes();
    } catch (const std::runtime_error&) {
      accepted = false;
    }
    REQUIRE(accepted == same, "a union of " << lt.size() << " and " << rt.size() << " columns of " << (same ? "the same" : "different") << " types is " << (accepted ? "accepted" : "refused"));
    bool refused = false;
    try {
      LogicalUnion d(NodeInputs{side(lt), side(lt)}, false);
    } catch (const std::exception&) {
      refused = true;
    }
    REQUIRE(refused, "a union that removes duplicates is accepted");
  }
  // The plan lists each of its steps once, inputs before users.
  time_t before = time(nullptr);
  QueryDag dag(cfg(), sp->node);
  time_t after = time(nullptr);
  REQUIRE(dag.now() >= before && dag.now() <= after, "the plan's current time is " << dag.now());
  std::set<const Node*> seen;
  dag.eachNode([&](const Node* n) {
    for (size_t i = 0; i < n->inputCount(); ++i)
      REQUIRE(seen.count(n->getInput(i)), "a step is listed before its input");
    REQUIRE(seen.insert(n).second, "a step is listed twice");
  });
  REQUIRE(seen.size() == parts.size(), "the plan lists " << seen.size() << " of " << parts.size() << " steps");
  std::vector<std::shared_ptr<const ScalarSubquery>> subs;
  for (size_t k = c.s.draw(3); k; --k) {
    subs.push_back(std::make_shared<const ScalarSubquery>(ctx().int64(), sp->node));
    dag.registerSubquery(subs.back());
  }
  REQUIRE(dag.getSubqueries() == subs, "registered subqueries");
  REQUIRE(dag.getRootNode() == sp->node.get() && dag.getNodes().back() == sp->node, "root");
  c.nontrivial(copied >= 2 && parts.size() >= 3);
  c.label(std::to_string(sp->k));
}
PBT_MAIN
