// A plain interpreter of query DAGs: what a built (or rewritten) query means.
#pragma once
#include "IR/Expr.h"
#include "IR/Node.h"
#include "qe/pipe.h"

namespace qe {

class Interp {
 public:
  using Tables = std::map<int, const Table*>;
  explicit Interp(Tables t) : tables_(std::move(t)) {}

  const std::vector<Row>& run(const Node* n) {
    auto it = memo_.find(n);
    if (it != memo_.end()) {
      return it->second;
    }
    auto rows = compute(n);
    for (auto& r : rows) {
      if (r.size() != n->size()) {
        throw pbt::Fail("node " + n->toString() + " has " + std::to_string(n->size()) + " columns but computes " + std::to_string(r.size()));
      }
    }
    return memo_[n] = std::move(rows);
  }

 public:
  struct Src1 {
    const Node* n;
    const Row* r;
  };
  using Env = std::vector<Src1>;
  Tables tables_;
  std::map<const Node*, std::vector<Row>> memo_;
  std::map<const WindowFunction*, std::vector<Cell>>* win_ = nullptr;
  size_t win_row_ = 0;

  static const Type* typ(const Expr* e) { return canonDate(e->type()); }
  static const Type* colType(const Node* n, size_t i) { return canonDate(getColumnType(n, i)); }

  Cell column(const hdk::ir::ColumnRef* c, const Env& env) {
    for (auto& e : env) {
      if (e.n == c->node()) {
        if (c->index() >= e.r->size()) {
          throw pbt::Fail("column " + std::to_string(c->index()) + " of a node with " + std::to_string(e.r->size()) + " columns is referenced");
        }
        return (*e.r)[c->index()];
      }
    }
    for (auto& e : env) {
      // the input passes the column through
      if (auto p = e.n->as<Project>()) {
        for (size_t i = 0; i < p->size(); ++i) {
          auto r = p->getExpr(i)->as<hdk::ir::ColumnRef>();
          if (r && r->node() == c->node() && r->index() == c->index()) {
            return (*e.r)[i];
          }
        }
      }
      // a column of a join is a column of one of its inputs
      if (auto j = e.n->as<Join>()) {
        size_t l = j->getInput(0)->size();
        if (c->node() == j->getInput(0)) {
          return (*e.r)[c->index()];
        }
        if (c->node() == j->getInput(1)) {
          return (*e.r)[l + c->index()];
        }
      }
    }
    throw pbt::Fail("a reference to column " + std::to_string(c->index()) + " of " + c->node()->toString() + " which is not an input");
  }

  Cell eval(const Expr* e, const Env& env) {
    if (auto c = e->as<hdk::ir::ColumnRef>()) {
      return column(c, env);
    }
    if (auto k = e->as<Constant>()) {
      auto t = k->type();
      if (k->isNull() || t->isNull()) {
        return Cell::Null();
      }
      if (t->isFloatingPoint()) {
        return Cell::D(k->fpVal());
      }
      if (t->isString()) {
        return Cell::S(*k->value().stringval);
      }
      if (t->isArray() || t->isExtDictionary()) {
        throw pbt::Discard();
      }
      return canonCell(Cell::I(k->intVal()), t);
    }
    if (auto u = e->as<UOper>()) {
      return unary(u, env);
    }
    if (auto b = e->as<BinOper>()) {
      return binary(b, env);
    }
    if (auto c = e->as<CaseExpr>()) {
      for (auto& p : c->exprPairs()) {
        Cell k = eval(p.first.get(), env);
        if (!k.null && k.i) {
          return eval(p.second.get(), env);
        }
      }
      return c->elseExpr() ? eval(c->elseExpr(), env) : Cell::Null();
    }
    if (auto f = e->as<FunctionOper>()) {
      std::vector<Cell> a;
      for (size_t i = 0; i < f->arity(); ++i) {
        a.push_back(eval(f->arg(i), env));
        if (a.back().null) {
          return Cell::Null();
        }
      }
      auto t = typ(f->arg(0));
      if (f->name() == "POWER") {
        return Cell::D(std::pow(a[0].d, a[1].d));
      }
      if (f->name() == "FLOOR" || f->name() == "CEIL") {
        bool fl = f->name() == "FLOOR";
        if (t->isFloatingPoint()) {
          return Cell::D(fl ? std::floor(a[0].d) : std::ceil(a[0].d));
        }
        int64_t k = p10(scaleOf(t)), q = a[0].i / k, m = a[0].i % k;
        if (m) {
          q += fl ? (a[0].i < 0 ? -1 : 0) : (a[0].i > 0 ? 1 : 0);
        }
        return Cell::I(q * k);
      }
      throw pbt::Fail("unexpected function " + f->name());
    }
    if (auto w = e->as<WindowFunction>()) {
      return win_->at(w)[win_row_];
    }
    throw pbt::Fail("unexpected expression " + e->toString());
  }

  Cell conv(const Cell& v, const Type* from, const Type* to) {
    if (v.null || sameType(from, to)) {
      return v;
    }
    bool sf = from->isString() || from->isExtDictionary(), st = to->isString() || to->isExtDictionary();
    if (sf || st) {
      if (sf && st) {
        return v;
      }
      throw pbt::Fail("unexpected conversion from " + from->toString() + " to " + to->toString());
    }
    if (from->isBoolean() && to->isBoolean()) {
      return v;
    }
    if ((from->isBoolean() || from->isNumber()) && to->isNumber()) {
      Cx c;
      Cell r = convNum(v, from, to, c);
      if (c.amb || c.strict || c.maybe) {
        throw pbt::Discard();
      }
      return r;
    }
    if (from->isDateTime() && to->isDateTime()) {
      auto ns = instantNs(v, from);
      auto u = to->as<DateTimeBaseType>()->unit();
      I128 d = u == TimeUnit::kDay ? I128(86400) * 1000000000LL : I128(1000000000LL / unitsPerSecond(u));
      if (to->isDate()) {
        I128 day = I128(86400) * 1000000000LL;
        I128 k = ns % day;
        ns -= k < 0 ? k + day : k;
      }
      return Cell::I(static_cast<int64_t>(ns / d));
    }
    throw pbt::Fail("unexpected conversion from " + from->toString() + " to " + to->toString());
  }

  Cell unary(const UOper* u, const Env& env) {
    Cell x = eval(u->operand(), env);
    auto from = typ(u->operand()), t = typ(u);
    switch (u->opType()) {
      case OpType::kIsNull:
        return Cell::I(x.null);
      case OpType::kNot:
        return x.null ? x : Cell::I(!x.i);
      case OpType::kUMinus:
        return x.null ? x : t->isFloatingPoint() ? Cell::D(-x.d) : Cell::I(-x.i);
      case OpType::kBwNot:
        return x.null ? x : Cell::I(~x.i);
      case OpType::kCast:
        return conv(x, from, t);
      default:
        throw pbt::Fail("unexpected operation " + u->toString());
    }
  }

  Cell binary(const BinOper* b, const Env& env) {
    Cell x = eval(b->leftOperand(), env), y = eval(b->rightOperand(), env);
    auto lt = typ(b->leftOperand()), rt = typ(b->rightOperand()), t = typ(b);
    if (b->isLogic()) {
      int64_t dom = b->isAnd() ? 0 : 1;
      if ((!x.null && x.i == dom) || (!y.null && y.i == dom)) {
        return Cell::I(dom);
      }
      return x.null || y.null ? Cell::Null() : Cell::I(1 - dom);
    }
    if (b->isComparison()) {
      if (b->isBwEq() && (x.null || y.null)) {
        return Cell::I(x.null == y.null);
      }
      if (x.null || y.null) {
        return Cell::Null();
      }
      int k;
      bool sl = lt->isString() || lt->isExtDictionary(), sr = rt->isString() || rt->isExtDictionary();
      if (sl != sr) {
        throw pbt::Fail("comparison of " + lt->toString() + " and " + rt->toString());
      }
      if (sl) {
        k = x.s.compare(y.s);
      } else if (lt->isDateTime()) {
        auto p = instantNs(x, lt), q = instantNs(y, rt);
        k = p < q ? -1 : p > q;
      } else if (!lt->isFloatingPoint() && !rt->isFloatingPoint() && lt->isNumber() && rt->isNumber()) {
        int sc = std::max(scaleOf(lt), scaleOf(rt));
        I128 p = I128(x.i) * p10(sc - scaleOf(lt)), q = I128(y.i) * p10(sc - scaleOf(rt));
        k = p < q ? -1 : p > q;
      } else if (lt->isFloatingPoint() || rt->isFloatingPoint()) {
        if (!lt->isNumber() || !rt->isNumber()) {
          throw pbt::Fail("comparison of " + lt->toString() + " and " + rt->toString());
        }
        double p = asDouble(x, lt), q = asDouble(y, rt);
        k = p < q ? -1 : p > q;
      } else {
        k = x.i < y.i ? -1 : x.i > y.i;
      }
      switch (b->opType()) {
        case OpType::kEq:
        case OpType::kBwEq:
          return Cell::I(k == 0);
        case OpType::kNe:
          return Cell::I(k != 0);
        case OpType::kLt:
          return Cell::I(k < 0);
        case OpType::kLe:
          return Cell::I(k <= 0);
        case OpType::kGt:
          return Cell::I(k > 0);
        default:
          return Cell::I(k >= 0);
      }
    }
    if (x.null || y.null) {
      return Cell::Null();
    }
    if (t->isFloatingPoint()) {
      if (!lt->isNumber() || !rt->isNumber()) {
        throw pbt::Fail("arithmetic on " + lt->toString() + " and " + rt->toString() + " yields " + t->toString());
      }
      x.d = asDouble(x, lt);
      y.d = asDouble(y, rt);
      switch (b->opType()) {
        case OpType::kPlus:
          return Cell::D(x.d + y.d);
        case OpType::kMinus:
          return Cell::D(x.d - y.d);
        case OpType::kMul:
          return Cell::D(x.d * y.d);
        case OpType::kDiv:
          if (y.d == 0) {
            throw pbt::Discard();
          }
          return Cell::D(x.d / y.d);
        default:
          throw pbt::Fail("unexpected operation " + b->toString());
      }
    }
    int ls = scaleOf(lt), rs = scaleOf(rt), ts = scaleOf(t);
    I128 v = 0;
    switch (b->opType()) {
      case OpType::kPlus:
      case OpType::kMinus:
        // operands are brought to the scale of the result
        if (ls > ts || rs > ts) {
          throw pbt::Fail("a sum of " + lt->toString() + " and " + rt->toString() + " yields " + t->toString());
        }
        v = b->isPlus() ? I128(x.i) * p10(ts - ls) + I128(y.i) * p10(ts - rs) : I128(x.i) * p10(ts - ls) - I128(y.i) * p10(ts - rs);
        break;
      case OpType::kMul:
        if (ls + rs != ts) {
          throw pbt::Fail("a product of " + lt->toString() + " and " + rt->toString() + " yields " + t->toString());
        }
        v = I128(x.i) * y.i;
        break;
      case OpType::kDiv:
        if (y.i == 0) {
          throw pbt::Discard();
        }
        if (t->isDecimal()) {
          v = I128(x.i) * p10(ts - ls) * p10(ts) / (I128(y.i) * p10(ts - rs));
        } else {
          v = x.i / y.i;
        }
        break;
      case OpType::kMod:
        if (y.i == 0) {
          throw pbt::Discard();
        }
        v = x.i % y.i;
        break;
      case OpType::kBwAnd:
        v = x.i & y.i;
        break;
      case OpType::kBwOr:
        v = x.i | y.i;
        break;
      case OpType::kBwXor:
        v = x.i ^ y.i;
        break;
      default:
        throw pbt::Fail("unexpected operation " + b->toString());
    }
    Cx c;
    Cell r = fit(v, t->isDecimal() ? 8 : t->size(), c);
    if (c.amb || c.strict) {
      throw pbt::Discard();
    }
    return r;
  }

  static void collectWindows(const Expr* e, std::vector<const WindowFunction*>& out) {
    if (auto w = e->as<WindowFunction>()) {
      out.push_back(w);
    }
  }

  std::vector<Row> compute(const Node* n) {
    std::vector<Row> out;
    if (auto s = n->as<Scan>()) {
      auto it = tables_.find(s->getTableId());
      if (it == tables_.end()) {
        throw pbt::Fail("a scan of an unknown table");
      }
      auto rows = it->second->allRows();
      for (size_t i = 0; i < rows.size(); ++i) {
        rows[i].push_back(Cell::I(static_cast<int64_t>(i)));
      }
      return rows;
    }
    if (auto p = n->as<Project>()) {
      auto in_node = p->getInput(0);
      auto& in = run(in_node);
      std::map<const WindowFunction*, std::vector<Cell>> win;
      for (size_t i = 0; i < p->size(); ++i) {
        std::vector<const WindowFunction*> ws;
        collectWindows(p->getExpr(i).get(), ws);
        for (auto w : ws) {
          win[w] = window(w, in_node, in);
        }
      }
      if (p->getFields().size() != p->size()) {
        throw pbt::Fail("a projection with " + std::to_string(p->size()) + " expressions and " + std::to_string(p->getFields().size()) + " names");
      }
      for (size_t i = 0; i < in.size(); ++i) {
        Row r;
        for (auto& e : p->getExprs()) {
          win_ = &win;
          win_row_ = i;
          r.push_back(eval(e.get(), {{in_node, &in[i]}}));
        }
        out.push_back(r);
      }
      return out;
    }
    if (auto f = n->as<Filter>()) {
      auto& in = run(f->getInput(0));
      for (auto& r : in) {
        Cell c = eval(f->getConditionExpr(), {{f->getInput(0), &r}});
        if (!c.null && c.i) {
          out.push_back(r);
        }
      }
      return out;
    }
    if (auto s = n->as<Sort>()) {
      out = run(s->getInput(0));
      std::vector<const Type*> t;
      std::vector<OrdKey> k;
      std::vector<size_t> cols;
      for (size_t i = 0; i < s->collationCount(); ++i) {
        auto c = s->getCollation(i);
        cols.push_back(c.getField());
        if (c.getField() >= n->size()) {
          throw pbt::Fail("a sort on column " + std::to_string(c.getField()) + " of " + std::to_string(n->size()));
        }
        t.push_back(colType(n, c.getField()));
        k.push_back({c.getSortDir() == SortDirection::Descending, c.getNullsPosition() == NullSortedPosition::First});
      }
      auto key = [&](const Row& r) {
        Row x;
        for (auto c : cols) {
          x.push_back(r[c]);
        }
        return x;
      };
      std::stable_sort(out.begin(), out.end(), [&](const Row& a, const Row& b) { return cmpOrd(key(a), key(b), t, k) < 0; });
      size_t b = std::min(out.size(), s->getOffset()), e = s->getLimit() ? std::min(out.size(), s->getOffset() + s->getLimit()) : out.size();
      return std::vector<Row>(out.begin() + b, out.begin() + e);
    }
    if (auto j = n->as<Join>()) {
      auto l = run(j->getInput(0));
      auto r = run(j->getInput(1));
      for (auto& a : l) {
        bool hit = false;
        for (auto& b : r) {
          Cell c = j->getCondition() ? eval(j->getCondition(), {{j->getInput(0), &a}, {j->getInput(1), &b}}) : Cell::I(1);
          if (!c.null && c.i) {
            hit = true;
            Row x = a;
            x.insert(x.end(), b.begin(), b.end());
            out.push_back(x);
          }
        }
        if (!hit && j->getJoinType() == JoinType::LEFT) {
          Row x = a;
          x.resize(n->size(), Cell::Null());
          out.push_back(x);
        }
      }
      return out;
    }
    if (auto a = n->as<Aggregate>()) {
      auto in_node = a->getInput(0);
      auto& in = run(in_node);
      size_t nk = a->getGroupByCount();
      if (a->getFields().size() != a->size()) {
        throw pbt::Fail("an aggregation with " + std::to_string(a->size()) + " columns and " + std::to_string(a->getFields().size()) + " names");
      }
      std::vector<const Type*> kt;
      for (size_t i = 0; i < nk; ++i) {
        kt.push_back(colType(in_node, i));
      }
      auto less = [&](const Row& x, const Row& y) {
        for (size_t i = 0; i < nk; ++i) {
          if (int c = cmpCell(x[i], y[i], kt[i])) {
            return c < 0;
          }
        }
        return false;
      };
      std::map<Row, std::vector<const Row*>, decltype(less)> groups(less);
      if (!nk) {
        groups[{}];
      }
      for (auto& r : in) {
        groups[Row(r.begin(), r.begin() + nk)].push_back(&r);
      }
      for (auto& [k, g] : groups) {
        Row r = k;
        for (auto& e : a->getAggs()) {
          auto x = e->as<AggExpr>();
          if (!x) {
            throw pbt::Fail("not an aggregate: " + e->toString());
          }
          AggSpec s;
          s.kind = x->aggType();
          s.distinct = x->isDistinct();
          s.star = !x->arg();
          s.ip = x->interpolation();
          std::vector<Cell> v, v2;
          const Type *t = x->arg() ? typ(x->arg()) : nullptr, *t2 = nullptr;
          bool second = s.kind == AggType::kCorr;
          if (x->arg1() && !second) {
            auto c = x->arg1()->as<Constant>();
            if (!c) {
              throw pbt::Fail("the parameter of " + e->toString() + " is not a constant");
            }
            if (s.kind == AggType::kTopK) {
              s.k = static_cast<int>(c->intVal());
            } else {
              s.q = c->fpVal();
            }
          }
          for (auto row : g) {
            v.push_back(x->arg() ? eval(x->arg(), {{in_node, row}}) : Cell::I(1));
            if (second) {
              t2 = typ(x->arg1());
              v2.push_back(eval(x->arg1(), {{in_node, row}}));
            }
          }
          if (second && g.empty()) {
            t2 = typ(x->arg1());
          }
          r.push_back(aggCell(s, v, t, v2, t2));
        }
        out.push_back(r);
      }
      return out;
    }
    throw pbt::Fail("unexpected node " + n->toString());
  }

  std::vector<Cell> window(const WindowFunction* w, const Node* in_node, const std::vector<Row>& in) {
    WinSpec s;
    s.kind = w->kind();
    auto save_win = win_;
    for (auto& k : w->partitionKeys()) {
      s.part_t.push_back(typ(k.get()));
    }
    for (auto& k : w->orderKeys()) {
      s.ord_t.push_back(typ(k.get()));
    }
    if (w->collation().size() != w->orderKeys().size()) {
      throw pbt::Fail("a window function with " + std::to_string(w->orderKeys().size()) + " order keys and " + std::to_string(w->collation().size()) + " directions");
    }
    for (auto& c : w->collation()) {
      s.keys.push_back({c.is_desc, c.nulls_first});
    }
    bool shift = s.kind == WindowFunctionKind::Lag || s.kind == WindowFunctionKind::Lead;
    if (shift) {
      if (w->args().size() > 1) {
        s.n = static_cast<int>(w->args()[1]->as<Constant>()->intVal());
      }
    }
    bool has_arg = !w->args().empty() && s.kind != WindowFunctionKind::NTile;
    s.arg_t = has_arg ? typ(w->args()[0].get()) : ctx().int64();
    for (auto& row : in) {
      Env env{{in_node, &row}};
      Row p, o;
      for (auto& k : w->partitionKeys()) {
        p.push_back(eval(k.get(), env));
      }
      for (auto& k : w->orderKeys()) {
        o.push_back(eval(k.get(), env));
      }
      s.part.push_back(p);
      s.ord.push_back(o);
      if (has_arg) {
        s.arg.push_back(eval(w->args()[0].get(), env));
      }
    }
    win_ = save_win;
    return windowCells(s, in.size());
  }
};

}  // namespace qe
