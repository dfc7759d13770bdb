// Analysis of operators: which operands go together, and the types they are brought to so that an operator over the stored
// values computes the operation over the values meant.
#include "Analyzer/Analyzer.h"
#include "IR/Context.h"
#include "IR/Expr.h"
#include "Logger/Logger.h"
#include "StringDictionary/StringDictionary.h"
#include "common/pbt.h"

using namespace hdk::ir;
using i128 = __int128;

namespace {
Context& C() {
  return Context::defaultCtx();
}

struct Provider : StringDictionaryProvider {
  std::map<int, std::shared_ptr<StringDictionary>> d;
  Provider() {
    for (int id : {1, 2, 3}) {
      d[id] = std::make_shared<StringDictionary>(DictRef{1, id});
      for (int i = 0; i < (id == 2 ? 5 : 2); ++i) {
        d[id]->getOrAdd("s" + std::to_string(id * 10 + i));
      }
    }
  }
  StringDictionary* getStringDictionary(const int id, const bool) const override { return d.at(id).get(); }
};
const Provider& provider() {
  static Provider p;
  return p;
}

enum Kind { Int, Fp, Dec, Bool, Str, Dict, Date, Time, Ts, Ival };

struct Opnd {
  Kind k;
  const Type* t;
  bool is_const = false, is_null = false;
  ExprPtr e;
  // The value meant: v / 10^scale for numbers, v / per_second seconds for dates and timestamps, str for strings.
  i128 v = 0;
  int scale = 0;
  double f = 0;
  std::string str;
};

i128 p10(int n) {
  i128 r = 1;
  while (n-- > 0) {
    r *= 10;
  }
  return r;
}
i128 unitsPer(TimeUnit u) {
  switch (u) {
    case TimeUnit::kSecond:
      return 1;
    case TimeUnit::kMilli:
      return 1000;
    case TimeUnit::kMicro:
      return 1000000;
    case TimeUnit::kNano:
      return 1000000000;
    default:
      throw pbt::Discard();
  }
}
TimeUnit anyUnit(pbt::Src& s) {
  return s.pick<TimeUnit>({TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano});
}

const Type* genType(pbt::Src& s, Kind k) {
  bool n = s.draw(1);
  switch (k) {
    case Int:
      return C().integer(s.pick<int>({1, 2, 4, 8}), n);
    case Fp:
      return s.draw(1) ? C().fp64(n) : C().fp32(n);
    case Dec: {
      int p = s.size(1, 14);
      return C().decimal64(p, s.draw(std::min(p, 4)), n);
    }
    case Bool:
      return C().boolean(n);
    case Str:
      return s.draw(1) ? C().text(n) : static_cast<const Type*>(C().varChar(s.size(1, 12), n));
    case Dict:
      return C().extDict(C().text(n), s.size(1, 3), s.pick<int>({1, 2, 4}));
    case Date:
      switch (s.draw(2)) {
        case 0:
          return C().date64(TimeUnit::kSecond, n);
        case 1:
          return C().date32(TimeUnit::kDay, n);
        default:
          return C().date16(TimeUnit::kDay, n);
      }
    case Time:
      return C().time64(anyUnit(s), n);
    case Ts:
      return C().timestamp(anyUnit(s), n);
    default:
      return C().interval64(s.pick<TimeUnit>({TimeUnit::kMonth, TimeUnit::kDay, TimeUnit::kSecond, TimeUnit::kMilli}), n);
  }
}

Opnd genOpnd(pbt::Src& s, Kind k, const Type* t, bool allow_const = true) {
  Opnd o;
  o.k = k;
  o.t = t;
  bool can = k != Dict && k != Time && k != Ival && !(k == Date && t->as<DateType>()->unit() == TimeUnit::kDay);
  o.is_const = allow_const && can && s.chance(2, 3);
  if (!o.is_const) {
    o.e = makeExpr<ColumnVar>(t, 1, 1 + s.draw(1), 1 + s.draw(5), s.draw(1));
    return o;
  }
  Datum d;
  d.bigintval = 0;
  if (t->nullable() && s.chance(1, 8)) {
    o.is_null = true;
    if (t->isString()) {
      d.stringval = nullptr;
    }
    o.e = makeExpr<Constant>(t, true, d);
    return o;
  }
  switch (k) {
    case Int: {
      int64_t v = s.boundary(t->size() == 1 ? -100 : -30000, t->size() == 1 ? 100 : 30000);
      o.v = v;
      switch (t->size()) {
        case 1:
          d.tinyintval = v;
          break;
        case 2:
          d.smallintval = v;
          break;
        case 4:
          d.intval = v;
          break;
        default:
          d.bigintval = v;
      }
      break;
    }
    case Fp:
      o.f = static_cast<double>(s.range(-40000, 40000)) / (1 << s.draw(3));
      if (t->size() == 4) {
        d.floatval = o.f;
      } else {
        d.doubleval = o.f;
      }
      break;
    case Dec:
      o.scale = t->as<DecimalType>()->scale();
      o.v = s.boundary(-200000, 200000);
      d.bigintval = o.v;
      break;
    case Bool:
      o.v = s.draw(1);
      d.boolval = o.v;
      break;
    case Str: {
      size_t n = t->isVarChar() ? s.size(0, t->as<VarCharType>()->maxLength()) : s.size(0, 12);
      for (; n; --n) {
        o.str += 'a' + s.draw(3);
      }
      d.stringval = new std::string(o.str);
      break;
    }
    case Date:
      o.v = static_cast<i128>(s.boundary(-60000, 60000)) * 86400;
      d.bigintval = o.v;
      break;
    default:
      o.v = s.boundary(-4000000000, 4000000000) * (t->as<TimestampType>()->unit() == TimeUnit::kSecond || s.draw(1) ? 1 : 1000);
      if (s.chance(1, 3)) {  // at midnight
        o.v = static_cast<i128>(s.range(-300, 300)) * 86400 * unitsPer(t->as<TimestampType>()->unit());
      }
      d.bigintval = o.v;
  }
  o.e = makeExpr<Constant>(t, false, d);
  o.t = o.e->type();  // not nullable
  return o;
}

i128 rawInt(const Constant* c) {
  auto t = c->type();
  auto v = c->value();
  if (t->isInteger()) {
    switch (t->size()) {
      case 1:
        return v.tinyintval;
      case 2:
        return v.smallintval;
      case 4:
        return v.intval;
      default:
        return v.bigintval;
    }
  }
  if (t->isBoolean()) {
    return v.boolval ? 1 : 0;
  }
  return v.bigintval;
}
double rawFp(const Constant* c) {
  return c->type()->size() == 4 ? c->value().floatval : c->value().doubleval;
}
int scaleOf(const Type* t) {
  return t->isDecimal() ? t->as<DecimalType>()->scale() : 0;
}

// The analysed operand still stands for the operand: a constant for the same value (or NULL), a column under casts only.
void checkOperand(const Opnd& o, const ExprPtr& e, const std::string& what) {
  if (!o.is_const) {
    auto x = e;
    while (auto u = x->as<UOper>()) {
      REQUIRE(u->isCast(), what << " became " << e->toString());
      x = u->operandShared();
    }
    REQUIRE(*x == *o.e, what << " " << o.e->toString() << " became " << e->toString());
    return;
  }
  auto x = e;
  while (auto u = x->as<UOper>()) {
    REQUIRE(u->isCast(), what << " became " << e->toString());
    x = u->operandShared();
  }
  auto c = x->as<Constant>();
  REQUIRE(c, what << " became " << e->toString());
  REQUIRE(c->isNull() == o.is_null, what << " " << o.e->toString() << " became " << e->toString());
  if (o.is_null) {
    return;
  }
  auto t = c->type();
  switch (o.k) {
    case Int:
    case Dec:
      if (t->isFloatingPoint()) {
        double want = static_cast<double>(o.v) / static_cast<double>(p10(o.scale));
        REQUIRE(std::fabs(rawFp(c) - want) <= std::fabs(want) * (t->size() == 4 ? 1e-6 : 1e-14), what << " " << o.e->toString() << " became " << e->toString());
      } else {
        REQUIRE(t->isInteger() || t->isDecimal(), what << " became " << e->toString());
        int sc = scaleOf(t);
        REQUIRE(sc >= o.scale && rawInt(c) == o.v * p10(sc - o.scale), what << " " << o.e->toString() << " became " << e->toString());
      }
      break;
    case Fp:
      REQUIRE(t->isFloatingPoint() && rawFp(c) == o.f, what << " " << o.e->toString() << " became " << e->toString());
      break;
    case Bool:
      REQUIRE(t->isBoolean() && rawInt(c) == o.v, what << " became " << e->toString());
      break;
    case Str:
      REQUIRE((t->isString() || t->isExtDictionary()) && *c->value().stringval == o.str, what << " " << o.e->toString() << " became " << e->toString());
      break;
    case Date:
    case Ts: {
      REQUIRE(t->isDateTime(), what << " became " << e->toString());
      auto from = unitsPer(o.t->as<DateTimeBaseType>()->unit());
      auto to = unitsPer(t->as<DateTimeBaseType>()->unit());
      REQUIRE(to >= from && rawInt(c) == o.v * (to / from), what << " " << o.e->toString() << " became " << e->toString());
      break;
    }
    default:
      break;
  }
}

bool isNum(Kind k) {
  return k == Int || k == Fp || k == Dec;
}
bool isStr(Kind k) {
  return k == Str || k == Dict;
}

std::string show(const Opnd& o) {
  return o.e->toString() + ":" + o.t->toString();
}

// Whether the combination makes sense; nullopt where it is left open.
std::optional<bool> sensible(OpType op, const Opnd& l, const Opnd& r) {
  if (isLogic(op)) {
    return l.k == Bool && r.k == Bool;
  }
  if (isComparison(op)) {
    if (isNum(l.k) && isNum(r.k)) {
      return true;
    }
    if (isStr(l.k) && isStr(r.k)) {
      return true;
    }
    if ((l.k == Date || l.k == Ts) && (r.k == Date || r.k == Ts)) {
      return true;
    }
    if (l.k == r.k) {
      return l.k == Ival ? std::nullopt : std::make_optional(true);
    }
    return false;
  }
  if (isBitwise(op)) {
    return l.k == Int && r.k == Int;
  }
  // arithmetic
  if (op == OpType::kMinus && (l.k == Date || l.k == Ts) && r.k == Ival) {
    return true;
  }
  if (!(isNum(l.k) || l.k == Ival) || !(isNum(r.k) || r.k == Ival)) {
    return false;
  }
  if (op == OpType::kMod) {
    return l.k == Int && r.k == Int;
  }
  if (l.k == Ival && r.k == Ival) {
    return op == OpType::kPlus || op == OpType::kMinus;
  }
  if (r.k == Ival && op == OpType::kDiv) {
    return false;
  }
  if (l.k == Ival || r.k == Ival) {
    return (l.k == Ival ? r.k : l.k) == Int;
  }
  return true;
}

const Type* bare(const Type* t) {
  return t->withNullable(true);
}

Kind anyKind(pbt::Src& s) {
  return static_cast<Kind>(s.weighted({5, 4, 5, 2, 3, 3, 3, 2, 4, 2}));
}
}  // namespace

FACET(binary) {
  auto& s = c.s;
  static const std::vector<OpType> ops = {OpType::kEq, OpType::kNe, OpType::kLt, OpType::kGt, OpType::kLe, OpType::kGe, OpType::kAnd, OpType::kOr,
                                          OpType::kPlus, OpType::kMinus, OpType::kMul, OpType::kDiv, OpType::kMod, OpType::kBwAnd, OpType::kBwOr, OpType::kBwXor, OpType::kBwEq};
  auto op = s.pick(ops);
  auto kl = anyKind(s);
  Kind kr = kl;
  switch (s.draw(3)) {
    case 0:
      kr = anyKind(s);
      break;
    case 1:
      kr = isNum(kl) ? s.pick<Kind>({Int, Fp, Dec}) : isStr(kl) ? s.pick<Kind>({Str, Dict}) : kl == Date || kl == Ts ? s.pick<Kind>({Date, Ts}) : kl == Ival ? Int : kl;
      break;
    default:
      break;
  }
  auto tl = genType(s, kl);
  auto tr = kr == kl && s.chance(1, 3) ? tl : genType(s, kr);
  auto l = genOpnd(s, kl, tl), r = genOpnd(s, kr, tr);
  tl = l.t;
  tr = r.t;
  c.describe([&](auto& o) { o << show(l) << " " << toString(op) << " " << show(r); });
  auto want = sensible(op, l, r);
  ExprPtr e;
  try {
    e = Analyzer::normalizeOperExpr(op, Qualifier::kOne, l.e, r.e, &provider());
  } catch (const std::runtime_error& x) {
    REQUIRE(!want || !*want, "refused: " << x.what());
    return;
  }
  REQUIRE(!want || *want, "accepted as " << e->toString());
  auto b = e->as<BinOper>();
  REQUIRE(b && b->opType() == op && b->qualifier() == Qualifier::kOne && !b->containsAgg(), "analysed as " << e->toString());
  auto le = b->leftOperandShared(), re = b->rightOperandShared();
  checkOperand(l, le, "left operand");
  checkOperand(r, re, "right operand");
  auto lt = le->type(), rt = re->type(), t = b->type();
  bool nullable = tl->nullable() || tr->nullable();
  std::string types = " operands of types " + lt->toString() + " and " + rt->toString() + ", result " + t->toString();
  REQUIRE(t->nullable() == nullable, "nullability:" << types);
  // Analysis without dictionaries gives the same result type.
  auto plain = Analyzer::normalizeOperExpr(op, Qualifier::kOne, l.e, r.e);
  REQUIRE(plain->type()->equal(t), "result type " << t->toString() << " but " << plain->type()->toString() << " before translation of strings");
  c.nontrivial(kl != kr || tl != tr);
  c.label(isComparison(op) ? "comparison" : isLogic(op) ? "logic" : isBitwise(op) ? "bitwise" : "arithmetic");
  if (isLogic(op)) {
    REQUIRE(t->isBoolean() && lt->isBoolean() && rt->isBoolean(), types);
    return;
  }
  bool consts = l.is_const && r.is_const && !l.is_null && !r.is_null && le->as<Constant>() && re->as<Constant>();
  auto lc = le->as<Constant>(), rc = re->as<Constant>();
  if (isComparison(op)) {
    REQUIRE(t->isBoolean(), types);
    if (isStr(kl)) {
      // Both as text, or both as ids of one dictionary.
      if (lt->isExtDictionary() || rt->isExtDictionary()) {
        REQUIRE(lt->isExtDictionary() && rt->isExtDictionary() && lt->as<ExtDictionaryType>()->dictId() == rt->as<ExtDictionaryType>()->dictId(), types);
        bool order = !(op == OpType::kEq || op == OpType::kNe || op == OpType::kBwEq);
        REQUIRE(!order || kl != Dict || kr != Dict, "ids are compared for order:" << types);
      } else {
        REQUIRE(lt->isString() && rt->isString(), types);
      }
      return;
    }
    // Stored values are compared as they are, so they must have one unit.
    if (isNum(kl)) {
      REQUIRE(bare(lt) == bare(rt), types);
    } else if (kl != Ival) {
      REQUIRE(bare(lt)->canonicalize() == bare(rt)->canonicalize() || (lt->isDateTime() && rt->isDateTime() && lt->as<DateTimeBaseType>()->unit() == rt->as<DateTimeBaseType>()->unit()), types);
      if (kl == Ts || kr == Ts) {
        auto finest = TimeUnit::kSecond;
        for (auto o : {&l, &r}) {
          if (o->k == Ts) {
            finest = std::max(finest, o->t->as<TimestampType>()->unit());
          }
        }
        REQUIRE(lt->as<DateTimeBaseType>()->unit() == finest, types);
      }
    }
    if (consts) {
      if (isNum(kl)) {
        // exact comparison of the values meant
        long double lv = l.k == Fp ? l.f : static_cast<long double>(l.v) / static_cast<long double>(p10(l.scale));
        long double rv = r.k == Fp ? r.f : static_cast<long double>(r.v) / static_cast<long double>(p10(r.scale));
        int want_cmp = l.k != Fp && r.k != Fp ? (l.v * p10(r.scale) < r.v * p10(l.scale) ? -1 : l.v * p10(r.scale) > r.v * p10(l.scale)) : (lv < rv ? -1 : lv > rv);
        int got_cmp = lt->isFloatingPoint() ? (rawFp(lc) < rawFp(rc) ? -1 : rawFp(lc) > rawFp(rc)) : (rawInt(lc) < rawInt(rc) ? -1 : rawInt(lc) > rawInt(rc));
        bool close = lt->isFloatingPoint() && std::fabs(static_cast<double>(lv - rv)) <= std::fabs(static_cast<double>(lv)) * (lt->size() == 4 ? 1e-6 : 1e-14);
        REQUIRE(close || want_cmp == got_cmp, "the values compare differently as" << types);
      } else {
        i128 lu = l.k == Bool ? 1 : unitsPer(tl->as<DateTimeBaseType>()->unit()), ru = r.k == Bool ? 1 : unitsPer(tr->as<DateTimeBaseType>()->unit());
        int want_cmp = l.v * ru < r.v * lu ? -1 : l.v * ru > r.v * lu;
        int got_cmp = rawInt(lc) < rawInt(rc) ? -1 : rawInt(lc) > rawInt(rc);
        REQUIRE(want_cmp == got_cmp, "the values compare differently as" << types);
      }
    }
    return;
  }
  if (isBitwise(op)) {
    REQUIRE(t->isInteger() && bare(lt) == bare(t) && bare(rt) == bare(t) && t->size() == std::max(tl->size(), tr->size()), types);
    return;
  }
  if (kr == Ival || kl == Ival) {
    if (kl == Date || kl == Ts) {
      REQUIRE(bare(t)->canonicalize() == bare(tl)->canonicalize() || (t->isDate() && tl->isDate()), types);
    } else {
      REQUIRE(t->isInterval(), types);
    }
    return;
  }
  if (kl == Fp || kr == Fp) {
    int sz = std::max(kl == Fp ? tl->size() : 0, kr == Fp ? tr->size() : 0);
    REQUIRE(t->isFloatingPoint() && t->size() == sz && bare(lt) == bare(t) && bare(rt) == bare(t), types);
  } else if (kl == Int && kr == Int) {
    REQUIRE(t->isInteger() && t->size() == std::max(tl->size(), tr->size()) && bare(lt) == bare(t) && bare(rt) == bare(t), types);
  } else {
    REQUIRE(t->isDecimal(), types);
    int prec = t->as<DecimalType>()->precision();
    int pl = kl == Dec ? tl->as<DecimalType>()->precision() : 0, pr = kr == Dec ? tr->as<DecimalType>()->precision() : 0;
    int sl = scaleOf(tl), sr = scaleOf(tr);
    if (op == OpType::kMul) {
      REQUIRE(scaleOf(lt) == sl && scaleOf(rt) == sr && scaleOf(t) == sl + sr, types);
      REQUIRE(prec >= pl + pr, types);
    } else if (op == OpType::kPlus || op == OpType::kMinus) {
      REQUIRE(scaleOf(lt) == std::max(sl, sr) && scaleOf(rt) == scaleOf(lt) && scaleOf(t) == scaleOf(lt), types);
      REQUIRE(prec > std::max(pl, pr), types);
    } else {
      REQUIRE(scaleOf(lt) == std::max(sl, sr) && scaleOf(rt) == scaleOf(lt), types);
    }
    if (consts && op != OpType::kDiv) {
      i128 a = rawInt(lc), bb = rawInt(rc);
      i128 got = op == OpType::kMul ? a * bb : op == OpType::kPlus ? a + bb : a - bb;
      int st = scaleOf(t);
      i128 lv = l.v * p10(sr), rv = r.v * p10(sl);  // at scale sl + sr
      i128 exact = op == OpType::kMul ? l.v * r.v : op == OpType::kPlus ? lv + rv : lv - rv;
      REQUIRE(got * p10(sl + sr) == exact * p10(st), "the operation over the stored values gives another value:" << types);
    }
  }
}

FACET(cases) {
  auto& s = c.s;
  // Branches of one family of types
  int fam = s.weighted({6, 2, 4, 3, 1});
  auto kind = [&]() -> Kind {
    switch (fam) {
      case 0:
        return s.pick<Kind>({Int, Fp, Dec});
      case 1:
        return Bool;
      case 2:
        return s.pick<Kind>({Str, Dict});
      case 3:
        return s.pick<Kind>({Date, Ts, Time});
      default:
        return s.pick<Kind>({Int, Dec, Fp, Bool, Dict, Date, Ts});
    }
  };
  std::vector<Opnd> brs;
  size_t n = s.size(1, 4);
  Kind first = kind();
  for (size_t i = 0; i <= n; ++i) {
    Kind k = fam == 3 || s.chance(1, 3) ? first : kind();
    const Type* t = fam == 3 && !brs.empty() ? brs[0].t : !brs.empty() && s.chance(1, 3) && brs.back().k == k ? brs.back().t : genType(s, k);
    brs.push_back(genOpnd(s, k, t));
  }
  bool has_else = s.chance(3, 4);
  if (!has_else) {
    brs.pop_back();
  }
  std::list<std::pair<ExprPtr, ExprPtr>> whens;
  std::vector<ExprPtr> conds;
  for (size_t i = 0; i < n; ++i) {
    conds.push_back(makeExpr<ColumnVar>(C().boolean(), 1, 1, 10 + i, 0));
    whens.emplace_back(conds.back(), brs[i].e);
  }
  c.describe([&](auto& o) {
    for (auto& b : brs) {
      o << show(b) << "; ";
    }
    o << (has_else ? "with" : "without") << " else";
  });
  bool num = true, str = true, boolean = true, dt = true;
  for (auto& b : brs) {
    num = num && isNum(b.k);
    str = str && isStr(b.k);
    boolean = boolean && b.k == Bool;
    dt = dt && bare(b.t) == bare(brs[0].t);
  }
  bool fit = num || str || boolean || dt;
  ExprPtr e;
  bool pl_ok = true;
  const Type* plain = nullptr;
  try {
    plain = Analyzer::normalizeCaseExpr(whens, has_else ? brs.back().e : nullptr)->type();
  } catch (const std::runtime_error& x) {
    pl_ok = false;
  }
  try {
    e = Analyzer::normalizeCaseExpr(whens, has_else ? brs.back().e : nullptr, &provider());
  } catch (const std::runtime_error& x) {
    REQUIRE(!fit, "refused: " << x.what());
    return;
  }
  bool mixed_str = false;
  for (auto& b : brs) {
    mixed_str = mixed_str || b.k == Str || b.is_null;
  }
  bool dates = std::all_of(brs.begin(), brs.end(), [](auto& b) { return b.k == Date; });
  REQUIRE(fit || mixed_str || dates, "accepted as " << e->toString());
  if (!fit && !dates) {
    return;
  }
  REQUIRE(pl_ok, "refused before translation of strings");
  auto ce = e->as<CaseExpr>();
  REQUIRE(ce && ce->exprPairs().size() == n && ce->elseExpr(), "analysed as " << e->toString());
  auto t = ce->type();
  bool nullable = !has_else;
  size_t i = 0;
  auto check = [&](const Opnd& o, const ExprPtr& x) {
    checkOperand(o, x, "branch " + std::to_string(i));
    nullable = nullable || o.t->nullable();
    bool same = bare(x->type()) == bare(t) || (x->type()->isExtDictionary() && t->isExtDictionary() && x->type()->as<ExtDictionaryType>()->dictId() == t->as<ExtDictionaryType>()->dictId());
    REQUIRE(same, "branch " << i << " has type " << x->type()->toString() << " in a CASE of type " << t->toString());
  };
  for (auto& [cond, x] : ce->exprPairs()) {
    REQUIRE(*cond == *conds[i], "condition " << i);
    check(brs[i], x);
    ++i;
  }
  if (has_else) {
    check(brs.back(), std::const_pointer_cast<const Expr>(ce->elseExpr()->shared_from_this()));
  } else {
    auto k = ce->elseExpr()->as<Constant>();
    REQUIRE(k && k->isNull(), "a missing ELSE is " << ce->elseExpr()->toString());
  }
  REQUIRE(!nullable || t->nullable(), "a branch can be NULL but the type is " << t->toString());
  c.nontrivial(brs.size() > 1);
  c.label(num ? "numbers" : str ? "strings" : boolean ? "booleans" : "times");
}

FACET(literals) {
  auto& s = c.s;
  int64_t v = s.boundary(INT64_MIN, INT64_MAX);
  if (s.draw(1)) {
    v = s.pick<int64_t>({INT8_MIN, INT8_MAX, INT16_MIN, INT16_MAX, INT32_MIN, INT32_MAX}) + s.range(-2, 2);
  }
  c.describe([&](auto& o) { o << v; });
  auto ep = Analyzer::analyzeIntValue(v);
  auto e = ep->as<Constant>();
  REQUIRE(e && e->type()->isInteger() && !e->isNull() && rawInt(e) == v, "the literal " << v << " is " << e->toString());
  int p = s.size(1, 18), sc = s.draw(p);
  auto fp = Analyzer::analyzeFixedPtValue(v, sc, p);
  auto f = fp->as<Constant>();
  REQUIRE(f && f->type()->isDecimal() && scaleOf(f->type()) == sc && f->type()->as<DecimalType>()->precision() == p && !f->isNull() && rawInt(f) == v, "decimal literal " << f->toString());
  std::string str;
  for (size_t n = s.size(0, 20); n; --n) {
    str += static_cast<char>(1 + s.draw(254));
  }
  auto stp = Analyzer::analyzeStringValue(str);
  auto st = stp->as<Constant>();
  REQUIRE(st && st->type()->isString() && !st->isNull() && *st->value().stringval == str && (!st->type()->isVarChar() || st->type()->as<VarCharType>()->maxLength() >= static_cast<int64_t>(str.size())),
          "string literal " << st->toString());
  auto usp = Analyzer::getUserLiteral(str);
  auto us = usp->as<Constant>();
  REQUIRE(us && us->type()->isString() && !us->isNull() && *us->value().stringval == str, "user literal");
  auto tsp = Analyzer::getTimestampLiteral(v);
  auto ts = tsp->as<Constant>();
  REQUIRE(ts && ts->type()->isTimestamp() && ts->type()->as<TimestampType>()->unit() == TimeUnit::kSecond && rawInt(ts) == v, "time literal");
  // Common types: independent of the order, wide enough for both sides.
  auto num = [&] { return genType(s, s.pick<Kind>({Int, Fp, Dec})); };
  auto a = num(), b = num();
  auto ab = Analyzer::common_numeric_type(a, b), ba = Analyzer::common_numeric_type(b, a);
  std::string show = a->toString() + " and " + b->toString() + ": " + ab->toString();
  REQUIRE(ab->equal(ba), "common type depends on the order: " << show << " or " << ba->toString());
  REQUIRE(ab->nullable() == (a->nullable() || b->nullable()), "nullability of " << show);
  for (auto x : {a, b}) {
    bool ok = ab->isFloatingPoint() ? (!x->isFloatingPoint() || ab->size() >= x->size())
              : ab->isDecimal()     ? (x->isDecimal() ? scaleOf(ab) >= scaleOf(x) && ab->as<DecimalType>()->precision() >= x->as<DecimalType>()->precision()
                                                      : x->isInteger() && ab->as<DecimalType>()->precision() - scaleOf(ab) >= (x->size() == 8 ? 19 - scaleOf(ab) : x->size() == 4 ? std::min(10, 19 - scaleOf(ab)) : 5))
                                    : x->isInteger() && ab->isInteger() && ab->size() >= x->size();
    REQUIRE(ok, "common type of " << show);
  }
  auto stype = [&] { return genType(s, s.pick<Kind>({Str, Dict})); };
  auto x = stype(), y = stype();
  auto xy = Analyzer::common_string_type(x, y);
  std::string sshow = x->toString() + " and " + y->toString() + ": " + xy->toString();
  REQUIRE(xy->equal(Analyzer::common_string_type(y, x)), "common type depends on the order: " << sshow);
  REQUIRE(xy->nullable() || !(x->nullable() || y->nullable()), "nullability of " << sshow);
  if (x->isExtDictionary() && y->isExtDictionary() && x->as<ExtDictionaryType>()->dictId() == y->as<ExtDictionaryType>()->dictId()) {
    REQUIRE(xy->isExtDictionary() && xy->as<ExtDictionaryType>()->dictId() == x->as<ExtDictionaryType>()->dictId() && xy->size() >= std::max(x->size(), y->size()), "common type of " << sshow);
  } else if (x->isVarChar() && y->isVarChar()) {
    REQUIRE(xy->isText() || (xy->isVarChar() && xy->as<VarCharType>()->maxLength() >= std::max(x->as<VarCharType>()->maxLength(), y->as<VarCharType>()->maxLength())), "common type of " << sshow);
  } else {
    REQUIRE(xy->isText(), "common type of " << sshow);
  }
  c.nontrivial(a != b);
}

int main(int argc, char** argv) {
  pbt::g_init = [](int, char** av) {
    logger::LogOptions lo(av[0]);
    lo.severity_ = logger::Severity::FATAL;
    logger::init(lo);
  };
  return pbt::mainImpl(argc, argv);
}
