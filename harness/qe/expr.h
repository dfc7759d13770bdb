// Generated scalar expressions: each one is built through the query builder and, side by side, as a plain evaluator
// over one row (three-valued logic, exact 128-bit integer arithmetic).
#pragma once
#include "qe/model.h"

namespace qe {

// What the evaluation of a row ran into.
struct Cx {
  bool strict = false;  // an arithmetic error in a part that is always evaluated
  bool maybe = false;   // an arithmetic error in a part that may be skipped
  bool amb = false;     // a value outside what the engine can represent (a null sentinel, inf); nothing is claimed
  int lazy = 0;
  void err() { (lazy ? maybe : strict) = true; }
};
using Fn = std::function<Cell(const Row&, Cx&)>;
struct Ex {
  BuilderExpr b;
  const Type* t = nullptr;
  Fn f;
  std::string s;
  bool cst = false;
  bool f32 = false;    // single precision involved
  bool exact = false;  // a column or literal: a floating point value has no rounding error
};

inline int scaleOf(const Type* t) { return t->isDecimal() ? t->as<DecimalType>()->scale() : 0; }
inline int precOf(const Type* t) { return t->isDecimal() ? t->as<DecimalType>()->precision() : 0; }
inline int64_t p10(int n) {
  int64_t r = 1;
  while (n-- > 0) {
    r *= 10;
  }
  return r;
}
using I128 = __int128;

inline const Type* commonNum(const Type* a, const Type* b) {
  bool n = a->nullable() || b->nullable();
  if (a->isFloatingPoint() && b->isFloatingPoint()) {
    return a->size() != b->size() ? ctx().fp64(n) : a->withNullable(n);
  }
  if (a->isFloatingPoint()) {
    return a->withNullable(n);
  }
  if (b->isFloatingPoint()) {
    return b->withNullable(n);
  }
  if (a->isDecimal() && b->isDecimal()) {
    return ctx().decimal64(std::max(precOf(a), precOf(b)), std::max(scaleOf(a), scaleOf(b)), n);
  }
  if (a->isDecimal() || b->isDecimal()) {
    auto d = a->isDecimal() ? a : b;
    auto i = a->isDecimal() ? b : a;
    return ctx().decimal64(i->size() == 8 ? 19 : std::min(19, std::max(precOf(d), 5 + scaleOf(d))), scaleOf(d), n);
  }
  return ctx().integer(std::max(a->size(), b->size()), n);
}

// Stores an exact integer in a type of the given size.
inline Cell fit(I128 v, int size, Cx& c) {
  I128 max = size == 1 ? 127 : size == 2 ? 32767 : size == 4 ? 2147483647LL : static_cast<I128>(INT64_MAX);
  if (v > max || v < -max - 1) {
    c.err();
    return Cell::Null();
  }
  if (v == -max - 1) {
    c.amb = true;
    return Cell::Null();
  }
  return Cell::I(static_cast<int64_t>(v));
}
inline Cell fpCell(double v, const Type* t, Cx& c) {
  if (t->isFp32()) {
    v = static_cast<float>(v);
  }
  if (!std::isfinite(v) || v == (t->isFp32() ? double(NULL_FLOAT) : NULL_DOUBLE)) {
    c.amb = true;
  }
  return Cell::D(v);
}

// Conversion between numeric types.
inline Cell convNum(const Cell& v, const Type* from, const Type* to, Cx& c) {
  if (v.null) {
    return v;
  }
  if (from->isFloatingPoint()) {
    if (to->isFloatingPoint()) {
      return fpCell(v.d, to, c);
    }
    // integers: round half away from zero
    double r = from->isFp32() ? static_cast<double>(static_cast<float>(static_cast<float>(v.d) + (v.d < 0 ? -0.5f : 0.5f))) : v.d + (v.d < 0 ? -0.5 : 0.5);
    double lim = std::ldexp(1.0, to->size() * 8 - 1) - 2;
    if (!(std::fabs(r) < lim)) {
      c.amb = true;
      return Cell::Null();
    }
    return Cell::I(static_cast<int64_t>(r));
  }
  int fs = scaleOf(from);
  if (to->isFloatingPoint()) {
    double d = to->isFp32() ? static_cast<float>(v.i) : static_cast<double>(v.i);
    if (fs) {
      d /= p10(fs);
    }
    return fpCell(d, to, c);
  }
  int ts = scaleOf(to);
  I128 x = v.i;
  if (ts > fs) {
    x *= p10(ts - fs);
    I128 margin = I128(INT64_MAX) - 2 * I128(p10(ts - fs));
    if ((x > margin && x <= INT64_MAX) || (x < -margin && x >= -I128(INT64_MAX))) {
      c.amb = true;
    }
  } else if (fs > ts) {
    int64_t k = p10(fs - ts);
    I128 h = k / 2;
    if (x > INT64_MAX - h || x < -I128(INT64_MAX) + h) {
      c.amb = true;
    }
    x = (x >= 0 ? x + h : x - h) / k;
  }
  int size = to->isDecimal() ? 8 : to->size();
  I128 max = (I128(1) << (size * 8 - 1)) - 1;
  if (x > max || x < -max) {  // the most negative value is the null marker: a conversion rejects it
    c.err();
    return Cell::Null();
  }
  return Cell::I(static_cast<int64_t>(x));
}

// Evaluates an operand that gets converted to a type. The engine computes a sum, difference or product of integers in
// the wider type when it is widened right away, so nothing is claimed when the narrow computation overflows.
inline Cell evalFor(const Fn& f, const Type* from, const Type* to, const Row& r, Cx& c) {
  bool widening = from->isInteger() && (to->isInteger() || to->isFloatingPoint()) && to->size() > from->size();
  if (!widening) {
    return f(r, c);
  }
  Cx sub;
  Cell x = f(r, sub);
  c.amb = c.amb || sub.amb || sub.strict || sub.maybe;
  return x;
}

// Evaluates an operand that may not be evaluated by the engine although its value matters here.
inline Cell evalSkippable(const Fn& f, const Row& r, Cx& c) {
  Cx sub;
  Cell x = f(r, sub);
  c.amb = c.amb || sub.amb || sub.strict || sub.maybe;
  return x;
}

// A computed floating point value may carry a rounding error: is it on the edge between two outcomes?
inline bool nearTie(double a, double b) { return std::fabs(a - b) <= 1e-6 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
inline bool nearInteger(double v) { return std::fabs(v) > 1e6 || nearTie(v, std::round(v)); }

inline bool sameType(const Type* got, const Type* want) {
  return got->id() == want->id() && got->size() == want->size() && scaleOf(got) == scaleOf(want) &&
         (!got->isDateTime() || got->as<DateTimeBaseType>()->unit() == want->as<DateTimeBaseType>()->unit());
}

inline Ex mk(BuilderExpr b, const Type* t, Fn f, std::string s) {
  if (!sameType(b.type(), t)) {
    throw pbt::Fail("the type of " + s + " is " + b.type()->toString() + ", expected " + t->toString());
  }
  if (t->nullable() && !b.type()->nullable()) {
    throw pbt::Fail("the type of " + s + " is " + b.type()->toString() + ", but it can be NULL");
  }
  Ex e;
  e.b = std::move(b);
  e.t = t;
  e.f = std::move(f);
  e.s = std::move(s);
  return e;
}

inline Ex arith(char op, const Ex& a, const Ex& b) {
  BuilderExpr be;
  switch (op) {
    case '+':
      be = a.b.add(b.b);
      break;
    case '-':
      be = a.b.sub(b.b);
      break;
    case '*':
      be = a.b.mul(b.b);
      break;
    case '/':
      be = a.b.div(b.b);
      break;
    default:
      be = a.b.mod(b.b);
  }
  const Type* t = commonNum(a.t, b.t);
  if (t->isDecimal()) {
    if (op == '*') {
      t = ctx().decimal64(std::max(precOf(t), precOf(a.t) + precOf(b.t)), scaleOf(a.t) + scaleOf(b.t), t->nullable());
    } else if (op == '+' || op == '-') {
      t = ctx().decimal64(precOf(t) + 1, scaleOf(t), t->nullable());
    }
  }
  auto at = a.t, bt = b.t;
  auto af = a.f, bf = b.f;
  bool exact = a.exact && b.exact && !at->isDecimal() && !bt->isDecimal();
  bool alike = op == '-' && a.s == b.s;  // zero without evaluation
  bool rhs_int = bt->isInteger() || b.cst;
  Fn f = [=](const Row& r, Cx& c) {
    Cell x = alike ? evalSkippable(af, r, c) : evalFor(af, at, t, r, c);
    Cell y = alike ? evalSkippable(bf, r, c) : evalFor(bf, bt, t, r, c);
    if (t->isFloatingPoint()) {
      x = convNum(x, at, t, c);
      y = convNum(y, bt, t, c);
      if (x.null || y.null) {
        return Cell::Null();
      }
      double v = 0;
      auto cancel = [&] {
        if (!exact && std::fabs(v) < 1e-3 * std::max(std::fabs(x.d), std::fabs(y.d))) {
          c.amb = true;  // rounding errors of the operands dominate
        }
      };
      switch (op) {
        case '+':
          v = x.d + y.d;
          cancel();
          break;
        case '-':
          v = x.d - y.d;
          cancel();
          break;
        case '*':
          v = x.d * y.d;
          break;
        default:
          if (y.d == 0) {
            c.err();
            return Cell::Null();
          }
          v = x.d / y.d;
      }
      return fpCell(v, t, c);
    }
    if (t->isDecimal()) {
      if (op == '*') {
        if (x.null || y.null) {
          return Cell::Null();
        }
        return fit(I128(x.i) * y.i, 8, c);
      }
      if (op == '/') {
        if (x.null || y.null) {
          return Cell::Null();
        }
        if (y.i == 0) {
          c.err();
          return Cell::Null();
        }
        I128 xs = I128(x.i) * p10(scaleOf(t) - scaleOf(at)), ys = I128(y.i) * p10(scaleOf(t) - scaleOf(bt));
        I128 up = xs * p10(scaleOf(t));
        I128 margin = I128(INT64_MAX) - 2 * I128(p10(scaleOf(t)));
        auto over = [&](I128 v) { return v > INT64_MAX || v < -I128(INT64_MAX); };
        auto edge = [&](I128 v) { return (v > margin || v < -margin) && !over(v); };
        if (rhs_int) {
          // the divisor may or may not be scaled first
          c.maybe = c.maybe || over(xs) || over(ys) || over(up);
        } else if (over(xs) || over(ys) || over(up)) {
          c.err();
          return Cell::Null();
        }
        c.amb = c.amb || edge(xs) || edge(ys) || edge(up);
        return fit(up / ys, 8, c);
      }
      Cell xs = convNum(x, at, t, c), ys = convNum(y, bt, t, c);
      if (xs.null || ys.null) {
        return Cell::Null();
      }
      return fit(op == '+' ? I128(xs.i) + ys.i : I128(xs.i) - ys.i, 8, c);
    }
    if (x.null || y.null) {
      if (op == '%' && !y.null && y.i == 0) {
        c.maybe = true;
      }
      return Cell::Null();
    }
    I128 v = 0;
    switch (op) {
      case '+':
        v = I128(x.i) + y.i;
        break;
      case '-':
        v = I128(x.i) - y.i;
        break;
      case '*':
        v = I128(x.i) * y.i;
        break;
      default:
        if (y.i == 0) {
          c.err();
          return Cell::Null();
        }
        v = op == '/' ? x.i / y.i : x.i % y.i;
    }
    return fit(v, t->size(), c);
  };
  Ex e = mk(be, t, f, "(" + a.s + " " + op + " " + b.s + ")");
  e.f32 = a.f32 || b.f32 || t->isFp32();
  return e;
}

inline Ex bitwise(char op, const Ex& a, const Ex& b) {
  BuilderExpr be = op == '&' ? a.b.bwAnd(b.b) : op == '|' ? a.b.bwOr(b.b) : a.b.bwXor(b.b);
  const Type* t = commonNum(a.t, b.t);
  auto at = a.t, bt = b.t;
  auto af = a.f, bf = b.f;
  return mk(be, t,
            [=](const Row& r, Cx& c) {
              Cell x = evalFor(af, at, t, r, c), y = evalFor(bf, bt, t, r, c);
              if (x.null || y.null) {
                return Cell::Null();
              }
              return fit(op == '&' ? (x.i & y.i) : op == '|' ? (x.i | y.i) : (x.i ^ y.i), t->size(), c);
            },
            "(" + a.s + " bw" + op + " " + b.s + ")");
}
inline Ex bwNot(const Ex& a) {
  auto af = a.f;
  auto t = a.t;
  return mk(a.b.bwNot(), t,
            [=](const Row& r, Cx& c) {
              Cell x = af(r, c);
              return x.null ? x : fit(~x.i, t->size(), c);
            },
            "(bw~ " + a.s + ")");
}
inline Ex neg(const Ex& a) {
  auto af = a.f;
  auto t = a.t;
  Ex e = mk(a.b.uminus(), t,
            [=](const Row& r, Cx& c) {
              Cell x = af(r, c);
              if (x.null) {
                return x;
              }
              return t->isFloatingPoint() ? Cell::D(-x.d) : Cell::I(-x.i);
            },
            "(- " + a.s + ")");
  e.f32 = a.f32;
  return e;
}
inline Ex castNumRaw(const Ex& a, const Type* to);
inline Ex castNum(const Ex& a, const Type* to) {
  Ex e = castNumRaw(a, to);
  e.f32 = a.f32 || to->isFp32();
  return e;
}
inline Ex castNumRaw(const Ex& a, const Type* to) {
  auto af = a.f;
  auto from = a.t;
  to = to->withNullable(from->nullable());
  bool exact = a.exact;
  return mk(a.b.cast(to), to,
            [=](const Row& r, Cx& c) {
              Cell x = evalFor(af, from, to, r, c);
              if (sameType(from, to)) {
                return x;
              }
              if (from->isFloatingPoint() && to->isInteger() && !exact && !x.null && nearInteger(x.d + 0.5)) {
                c.amb = true;
              }
              return convNum(x, from, to, c);
            },
            "cast(" + a.s + " as " + to->toString() + ")");
}
inline Ex floorCeil(bool fl, const Ex& a) {
  auto af = a.f;
  auto t = a.t;
  bool exact = a.exact;
  return mk(fl ? a.b.floor() : a.b.ceil(), t,
            [=](const Row& r, Cx& c) {
              Cell x = af(r, c);
              if (x.null || t->isInteger()) {
                return x;
              }
              if (t->isFloatingPoint()) {
                if (!exact && nearInteger(x.d)) {
                  c.amb = true;
                }
                return fpCell(fl ? std::floor(x.d) : std::ceil(x.d), t, c);
              }
              int64_t k = p10(scaleOf(t));
              int64_t q = x.i / k, m = x.i % k;
              if (m) {
                q += fl ? (x.i < 0 ? -1 : 0) : (x.i > 0 ? 1 : 0);
              }
              return fit(I128(q) * k, 8, c);
            },
            std::string(fl ? "floor(" : "ceil(") + a.s + ")");
}

inline const char* opName(int op) {
  static const char* n[] = {"=", "<>", "<", "<=", ">", ">="};
  return n[op];
}
inline BuilderExpr cmpB(int op, const BuilderExpr& a, const BuilderExpr& b) {
  switch (op) {
    case 0:
      return a.eq(b);
    case 1:
      return a.ne(b);
    case 2:
      return a.lt(b);
    case 3:
      return a.le(b);
    case 4:
      return a.gt(b);
    default:
      return a.ge(b);
  }
}
inline bool opHolds(int op, int k) {
  switch (op) {
    case 0:
      return k == 0;
    case 1:
      return k != 0;
    case 2:
      return k < 0;
    case 3:
      return k <= 0;
    case 4:
      return k > 0;
    default:
      return k >= 0;
  }
}

// Instants of date-time cells in nanoseconds.
inline I128 instantNs(const Cell& c, const Type* t) {
  auto u = t->as<DateTimeBaseType>()->unit();
  if (u == TimeUnit::kDay) {
    return I128(c.i) * 86400 * 1000000000LL;
  }
  return I128(c.i) * (1000000000LL / unitsPerSecond(u));
}

inline Ex compare(int op, const Ex& a, const Ex& b) {
  auto at = a.t, bt = b.t;
  auto af = a.f, bf = b.f;
  auto t = ctx().boolean(at->nullable() || bt->nullable());
  bool exact = a.exact && b.exact && !at->isDecimal() && !bt->isDecimal();
  bool alike = a.s == b.s;  // decided without evaluation
  auto cmp_t = at->isNumber() ? commonNum(at, bt) : at;
  Fn f = [=](const Row& r, Cx& c) {
    Cell x = alike ? evalSkippable(af, r, c) : evalFor(af, at, cmp_t, r, c);
    Cell y = alike ? evalSkippable(bf, r, c) : evalFor(bf, bt, cmp_t, r, c);
    if (at->isNumber()) {
      ++c.lazy;
      x = convNum(x, at, cmp_t, c);
      y = convNum(y, bt, cmp_t, c);
      --c.lazy;
    }
    if (x.null || y.null) {
      return Cell::Null();
    }
    int k;
    if (at->isString() || at->isExtDictionary()) {
      k = x.s.compare(y.s);
    } else if (at->isNumber()) {
      auto ct = cmp_t;
      k = cmpCell(x, y, ct);
      if (ct->isFloatingPoint() && !exact && !x.null && !y.null && nearTie(x.d, y.d)) {
        c.amb = true;
      }
    } else if (at->isDateTime()) {
      auto p = instantNs(x, at), q = instantNs(y, bt);
      k = p < q ? -1 : p > q;
    } else {
      k = cmpCell(x, y, at);
    }
    return Cell::I(opHolds(op, k));
  };
  return mk(cmpB(op, a.b, b.b), t, f, "(" + a.s + " " + opName(op) + " " + b.s + ")");
}

inline Ex andOr(bool is_and, const Ex& a, const Ex& b) {
  auto af = a.f, bf = b.f;
  auto t = ctx().boolean(a.t->nullable() || b.t->nullable());
  return mk(is_and ? a.b.logicalAnd(b.b) : a.b.logicalOr(b.b), t,
            [=](const Row& r, Cx& c) {
              ++c.lazy;
              Cell x = af(r, c), y = bf(r, c);
              --c.lazy;
              int64_t dom = is_and ? 0 : 1;
              if ((!x.null && x.i == dom) || (!y.null && y.i == dom)) {
                return Cell::I(dom);
              }
              if (x.null || y.null) {
                return Cell::Null();
              }
              return Cell::I(1 - dom);
            },
            "(" + a.s + (is_and ? " AND " : " OR ") + b.s + ")");
}
inline Ex notE(const Ex& a) {
  auto af = a.f;
  return mk(a.b.logicalNot(), a.t,
            [=](const Row& r, Cx& c) {
              Cell x = af(r, c);
              return x.null ? x : Cell::I(!x.i);
            },
            "(NOT " + a.s + ")");
}
inline Ex isNullE(const Ex& a) {
  auto af = a.f;
  return mk(a.b.isNull(), ctx().boolean(false),
            [=](const Row& r, Cx& c) {
              Cell x = evalSkippable(af, r, c);  // not evaluated if it cannot be NULL
              return Cell::I(x.null);
            },
            "(" + a.s + " IS NULL)");
}
inline Ex caseE(QueryBuilder& qb, const Ex& cond, const Ex& a, const Ex& b) {
  auto cf = cond.f, af = a.f, bf = b.f;
  Ex e = mk(qb.ifThenElse(cond.b, a.b, b.b), a.t->withNullable(a.t->nullable() || b.t->nullable()),
            [=](const Row& r, Cx& c) {
              Cell k = cf(r, c);
              ++c.lazy;
              Cell x = af(r, c), y = bf(r, c);
              --c.lazy;
              return !k.null && k.i ? x : y;
            },
            "(CASE WHEN " + cond.s + " THEN " + a.s + " ELSE " + b.s + ")");
  e.f32 = a.f32 || b.f32;
  return e;
}

inline Ex literal(QueryBuilder& qb, const Cell& v, const Type* t) {
  Ex e;
  e.cst = true;
  e.exact = true;
  e.t = t;
  if (v.null) {
    e.b = qb.nullCst(t->withNullable(true));
    e.t = t->withNullable(true);
  } else if (t->isFloatingPoint()) {
    e.b = qb.cst(v.d, t);
  } else if (t->isDecimal()) {
    e.b = qb.cstNoScale(v.i, t);
  } else if (t->isString() || t->isExtDictionary()) {
    e.b = qb.cst(v.s);
    e.t = ctx().text(false);
  } else if (t->isBoolean()) {
    e.b = v.i ? qb.trueCst() : qb.falseCst();
  } else {
    e.b = qb.cst(v.i, t);
  }
  e.s = show(v, e.t);
  e.f = [v](const Row&, Cx&) { return v; };
  return e;
}

struct Gen {
  pbt::Src& s;
  QueryBuilder& qb;
  std::vector<Ex> cols;          // what expressions may refer to
  bool errors = false;           // aim for arithmetic errors instead of avoiding them
  bool div = true;
  bool null_literals = true;

  // Columns of a node; the evaluator gets the row of that node.
  void addCols(const BuilderNode& n, const std::vector<const Type*>& types, size_t first = 0) {
    for (size_t i = 0; i < types.size(); ++i) {
      Ex e;
      e.b = n.ref(static_cast<int>(i));
      e.t = types[i];
      e.exact = true;
      e.f32 = types[i]->isFp32();
      size_t k = first + i;
      e.f = [k](const Row& r, Cx&) { return r[k]; };
      e.s = e.b.name().empty() ? "$" + std::to_string(k) : e.b.name();
      cols.push_back(e);
    }
  }
  std::vector<size_t> colsWhere(const std::function<bool(const Type*)>& p) const {
    std::vector<size_t> v;
    for (size_t i = 0; i < cols.size(); ++i) {
      if (p(cols[i].t)) {
        v.push_back(i);
      }
    }
    return v;
  }
  std::optional<Ex> anyCol(const std::function<bool(const Type*)>& p) {
    auto v = colsWhere(p);
    if (v.empty()) {
      return {};
    }
    return cols[s.pick(v)];
  }

  Ex numLit() {
    switch (s.weighted({6, 3, 2, 2})) {
      case 0: {
        bool wide = s.chance(1, 4);
        auto t = ctx().integer(wide ? 8 : 4, false);
        auto r = intRange(wide ? 8 : 4);
        return literal(qb, Cell::I(errors && s.chance(1, 3) ? s.boundary(r.first, r.second) : s.around(-20, 100)), t);
      }
      case 1:
        return literal(qb, Cell::D(s.around(-40, 40) / 4.0), ctx().fp64(false));
      case 2: {
        int sc = static_cast<int>(s.range(0, 3));
        return literal(qb, Cell::I(s.around(-2000, 2000)), ctx().decimal64(6, sc, false));
      }
      default:
        if (null_literals) {
          return literal(qb, Cell::Null(), s.draw(1) ? static_cast<const Type*>(ctx().int32()) : ctx().fp64());
        }
        return literal(qb, Cell::I(1), ctx().int32(false));
    }
  }
  Ex numLeaf() {
    if (!s.chance(1, 4)) {
      if (auto c = anyCol([](const Type* t) { return t->isNumber(); })) {
        return *c;
      }
    }
    return numLit();
  }
  // Widens an integer operand so that small values cannot overflow.
  Ex widen(const Ex& e) {
    if (!errors && e.t->isInteger() && e.t->size() < 8 && !e.cst) {
      return castNum(e, ctx().int64());
    }
    return e;
  }
  Ex num(int d) {
    if (d <= 0) {
      return numLeaf();
    }
    switch (s.weighted({3, 8, 2, 4, 3, 2, 2})) {
      case 0:
        return numLeaf();
      case 1: {
        Ex a = num(d - 1), b = num(d - 1);
        char op = s.pick<char>({'+', '-', '*', '/', '%'});
        if (op == '%' && !(a.t->isInteger() && b.t->isInteger())) {
          op = '+';
        }
        if (op == '/' && !div) {
          op = '-';
        }
        if (a.cst && b.cst) {
          return a;
        }
        if (op == '*' && scaleOf(a.t) + scaleOf(b.t) > 10) {
          op = '+';
        }
        if ((op == '/' || op == '%') && !errors) {
          // a divisor that cannot be zero
          Ex k = literal(qb, Cell::I(s.range(1, 7)), ctx().int32(false));
          if (s.draw(1)) {
            k = neg(k);
            k.cst = true;
          }
          b = k;
        }
        return arith(op, op == '%' ? a : widen(a), op == '%' ? b : widen(b));
      }
      case 2: {
        Ex a = num(d - 1);
        return a.cst ? a : neg(a);
      }
      case 3: {
        Ex a = num(d - 1);
        if (a.cst) {
          return a;
        }
        return castNum(a, castTarget(a.t));
      }
      case 4: {
        Ex k = boolean(d - 1), a = num(d - 1), b = num(d - 1);
        if (!sameType(a.t, b.t) || precOf(a.t) != precOf(b.t)) {
          if (a.t->isFloatingPoint() || (a.t->isInteger() && a.t->size() == 8 && !b.t->isFloatingPoint())) {
            b = b.cst ? literal(qb, Cell::I(3), ctx().integer(8, false)) : b;
            b = sameType(a.t, b.t) ? b : castNum(b, a.t);
          } else {
            b = null_literals ? literal(qb, Cell::Null(), a.t) : a;
          }
        }
        if (!a.b.type()->withNullable(true)->equal(b.b.type()->withNullable(true))) {
          return a;
        }
        return caseE(qb, k, a, b);
      }
      case 5: {
        Ex a = num(d - 1), b = num(d - 1);
        if (!a.t->isInteger() || a.cst) {
          return a;
        }
        if (!b.t->isInteger()) {
          return bwNot(a);
        }
        return bitwise(s.pick<char>({'&', '|', '^'}), a, b);
      }
      default: {
        Ex a = num(d - 1);
        if (a.cst) {
          return a;
        }
        return floorCeil(s.draw(1), a);
      }
    }
  }
  // An operation at the top whose operands are apt to be extreme.
  Ex edgy() {
    auto c1 = anyCol([](const Type* t) { return t->isNumber() && !t->isFloatingPoint(); });
    auto c2 = anyCol([](const Type* t) { return t->isNumber() && !t->isFloatingPoint(); });
    if (!c1 || !c2) {
      return num(2);
    }
    if (s.chance(1, 3)) {
      return castNum(*c1, castTarget(c1->t));
    }
    Ex b = s.chance(1, 3) ? numLit() : *c2;
    char op = s.pick<char>({'+', '-', '*', '/', '%'});
    if (op == '%' && !(c1->t->isInteger() && b.t->isInteger())) {
      op = '*';
    }
    return s.draw(1) ? arith(op, *c1, b) : arith(op, b, *c1);
  }
  const Type* castTarget(const Type* from) {
    if (from->isFloatingPoint()) {
      switch (s.draw(2)) {
        case 0:
          return ctx().fp64();
        case 1:
          return ctx().fp32();
        default:
          return ctx().integer(s.pick<int>({8, 4, 2, 1}));
      }
    }
    switch (s.draw(3)) {
      case 0:
        return ctx().int64();
      case 1:
        return ctx().fp64();
      case 2:
        return ctx().decimal64(static_cast<int>(s.range(10, 18)), static_cast<int>(s.range(0, 4)));
      default:
        return ctx().integer(s.pick<int>({4, 2, 1}));
    }
  }
  Ex boolLeaf() {
    switch (s.draw(4)) {
      case 0:
        if (auto c = anyCol([](const Type* t) { return t->isBoolean(); })) {
          return *c;
        }
        break;
      case 1:
        if (auto c = anyCol([](const Type* t) { return t->isExtDictionary(); })) {
          return compare(static_cast<int>(s.draw(1)), *c, literal(qb, Cell::S(s.pick(smallStrings())), ctx().text(false)));
        }
        break;
      case 2:
        if (auto c = anyCol([](const Type*) { return true; })) {
          return isNullE(*c);
        }
        break;
      default:
        break;
    }
    if (auto c = anyCol([](const Type* t) { return t->isNumber(); })) {
      return compare(static_cast<int>(s.draw(5)), *c, literal(qb, Cell::I(s.around(-5, 5)), ctx().int32(false)));
    }
    return literal(qb, Cell::I(1), ctx().boolean(false));
  }
  Ex boolean(int d) {
    if (d <= 0) {
      return boolLeaf();
    }
    switch (s.weighted({2, 5, 4, 2, 2})) {
      case 0:
        return boolLeaf();
      case 1: {
        Ex a = num(d - 1), b = num(d - 1);
        if (a.cst && b.cst) {
          return boolLeaf();
        }
        return compare(static_cast<int>(s.draw(5)), a, b);
      }
      case 2: {
        Ex a = boolean(d - 1), b = boolean(d - 1);
        if (a.cst || b.cst) {
          return boolLeaf();
        }
        return andOr(s.draw(1), a, b);
      }
      case 3: {
        Ex a = boolean(d - 1);
        return a.cst ? a : notE(a);
      }
      default: {
        Ex a = s.draw(1) ? num(d - 1) : boolean(d - 1);
        return a.cst ? boolLeaf() : isNullE(a);
      }
    }
  }
};

}  // namespace qe
