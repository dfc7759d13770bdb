// Types, constants and expressions of the query representation.
#include "common/pbt.h"
#include "common/ref_calendar.h"

#include "IR/Context.h"
#include "QueryEngine/DateTimeUtils.h"
#include "IR/Exception.h"
#include "IR/Expr.h"
#include "IR/ExprCollector.h"
#include "IR/ExprRewriter.h"
#include "IR/Type.h"
#include "Shared/SqlTypesLayout.h"
#include "Shared/sqltypes.h"

#include <optional>

int64_t convert_decimal_value_to_scale(const int64_t decimal_value, const hdk::ir::Type* type, const hdk::ir::Type* new_type);

using namespace hdk::ir;
using i128 = __int128;

namespace {

// ---------------------------------------------------------------------------------------------------------- types
struct TSpec {
  enum K { Null, Bool, Int, Fp, Dec, VarChar, Text, Date, Time, Timestamp, Interval, Fixed, VarLen, Dict, Column, ColumnList } k = Null;
  int size = 8, a = 0, b = 0;  // precision/scale, length, unit (as an index), elements, dictionary id
  bool nullable = true;
  std::vector<TSpec> elem;
  bool operator==(const TSpec& o) const { return k == o.k && size == o.size && a == o.a && b == o.b && nullable == o.nullable && elem == o.elem; }
};
const TimeUnit kUnits[] = {TimeUnit::kMonth, TimeUnit::kDay, TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano};
const char* kUnitNames[] = {"m", "d", "s", "ms", "us", "ns"};

TSpec genType(pbt::Src& s, int depth, bool columns) {
  TSpec t;
  size_t k = s.weighted({1, 2, 4, 2, 3, 2, 2, 4, 4, 3, 3, unsigned(depth ? 3 : 0), unsigned(depth ? 3 : 0), unsigned(depth ? 3 : 2), unsigned(columns ? 1 : 0), unsigned(columns ? 1 : 0)});
  t.k = static_cast<TSpec::K>(k);
  t.nullable = s.draw(1) == 0;
  switch (t.k) {
    case TSpec::Null:
      t.nullable = true;
      t.size = 0;
      break;
    case TSpec::Bool:
      t.size = 1;
      break;
    case TSpec::Int:
      t.size = s.pick<int>({1, 2, 4, 8});
      break;
    case TSpec::Fp:
      t.size = s.pick<int>({4, 8});
      break;
    case TSpec::Dec:
      t.a = s.draw(40);
      t.b = s.draw(40);
      break;
    case TSpec::VarChar:
      t.size = -1;
      t.a = s.boundary(0, INT32_MAX);
      break;
    case TSpec::Text:
      t.size = -1;
      break;
    case TSpec::Date:
      t.size = s.pick<int>({2, 4, 8});
      t.a = t.size == 2 ? 1 : t.size == 4 ? s.size(1, 2) : s.size(1, 5);
      break;
    case TSpec::Time:
      t.size = s.pick<int>({2, 4, 8});
      t.a = t.size == 2 ? 2 : t.size == 4 ? s.size(2, 3) : s.size(2, 5);
      break;
    case TSpec::Timestamp:
      t.a = s.size(2, 5);
      break;
    case TSpec::Interval:
      t.size = s.pick<int>({2, 4, 8});
      t.a = s.draw(5);
      break;
    case TSpec::Fixed:
    case TSpec::VarLen: {
      TSpec e;
      do {
        e = genType(s, 0, false);
      } while (e.k == TSpec::VarChar || e.k == TSpec::Text);
      t.elem = {e};
      if (t.k == TSpec::Fixed) {
        t.a = s.draw(30);
        t.size = t.a * e.size;
      } else {
        t.size = -1;
      }
      break;
    }
    case TSpec::Dict: {
      TSpec e;
      e.k = s.draw(1) ? TSpec::Text : TSpec::VarChar;
      e.size = -1;
      e.nullable = t.nullable;
      e.a = e.k == TSpec::VarChar ? s.draw(100) : 0;
      t.elem = {e};
      t.size = s.pick<int>({1, 2, 4});
      t.a = s.boundary(INT32_MIN, INT32_MAX);
      break;
    }
    default:
      t.elem = {genType(s, 1, false)};
      t.size = t.elem[0].size;
      if (t.k == TSpec::ColumnList) {
        t.a = s.size(1, 9);
      }
  }
  return t;
}
void normalize(TSpec& t) {  // a dictionary is nullable when its strings are
  for (auto& e : t.elem) {
    if (t.k == TSpec::Dict) {
      e.nullable = t.nullable;
    }
    normalize(e);
  }
}
const Type* buildType(Context& c, const TSpec& t) {
  switch (t.k) {
    case TSpec::Null:
      return c.null();
    case TSpec::Bool:
      return c.boolean(t.nullable);
    case TSpec::Int:
      return c.integer(t.size, t.nullable);
    case TSpec::Fp:
      return t.size == 4 ? c.fp32(t.nullable) : c.fp64(t.nullable);
    case TSpec::Dec:
      return c.decimal64(t.a, t.b, t.nullable);
    case TSpec::VarChar:
      return c.varChar(t.a, t.nullable);
    case TSpec::Text:
      return c.text(t.nullable);
    case TSpec::Date:
      return c.date(t.size, kUnits[t.a], t.nullable);
    case TSpec::Time:
      return c.time(t.size, kUnits[t.a], t.nullable);
    case TSpec::Timestamp:
      return c.timestamp(kUnits[t.a], t.nullable);
    case TSpec::Interval:
      return c.interval(t.size, kUnits[t.a], t.nullable);
    case TSpec::Fixed:
      return c.arrayFixed(t.a, buildType(c, t.elem[0]), t.nullable);
    case TSpec::VarLen:
      return c.arrayVarLen(buildType(c, t.elem[0]), 4, t.nullable);
    case TSpec::Dict:
      return c.extDict(buildType(c, t.elem[0]), t.a, t.size);
    case TSpec::Column:
      return c.column(buildType(c, t.elem[0]), t.nullable);
    default:
      return c.columnList(buildType(c, t.elem[0]), t.a, t.nullable);
  }
}
void checkType(const Type* p, const TSpec& t, const char* what) {
  auto bad = [&](const char* x) { throw pbt::Fail(std::string(what) + ": " + x + " of " + p->toString()); };
  auto need = [&](bool ok, const char* x) {
    if (!ok) {
      bad(x);
    }
  };
  need(p->size() == t.size, "size");
  need(p->nullable() == t.nullable, "nullability");
  need(p->isNull() == (t.k == TSpec::Null) && p->isBoolean() == (t.k == TSpec::Bool) && p->isInteger() == (t.k == TSpec::Int) && p->isFloatingPoint() == (t.k == TSpec::Fp) && p->isDecimal() == (t.k == TSpec::Dec) &&
           p->isVarChar() == (t.k == TSpec::VarChar) && p->isText() == (t.k == TSpec::Text) && p->isDate() == (t.k == TSpec::Date) && p->isTime() == (t.k == TSpec::Time) && p->isTimestamp() == (t.k == TSpec::Timestamp) &&
           p->isInterval() == (t.k == TSpec::Interval) && p->isFixedLenArray() == (t.k == TSpec::Fixed) && p->isVarLenArray() == (t.k == TSpec::VarLen) && p->isExtDictionary() == (t.k == TSpec::Dict) &&
           p->isColumn() == (t.k == TSpec::Column) && p->isColumnList() == (t.k == TSpec::ColumnList),
       "kind");
  need(p->isNumber() == (t.k == TSpec::Int || t.k == TSpec::Fp || t.k == TSpec::Dec), "number class");
  need(p->isString() == (t.k == TSpec::Text || t.k == TSpec::VarChar), "string class");
  need(p->isDateTime() == (t.k == TSpec::Date || t.k == TSpec::Time || t.k == TSpec::Timestamp), "date class");
  need(p->isArray() == (t.k == TSpec::Fixed || t.k == TSpec::VarLen), "array class");
  need(p->isVarLen() == (t.k == TSpec::Text || t.k == TSpec::VarChar || t.k == TSpec::VarLen), "varlen class");
  need(p->isInt8() == (t.k == TSpec::Int && t.size == 1) && p->isInt16() == (t.k == TSpec::Int && t.size == 2) && p->isInt32() == (t.k == TSpec::Int && t.size == 4) && p->isInt64() == (t.k == TSpec::Int && t.size == 8) &&
           p->isFp32() == (t.k == TSpec::Fp && t.size == 4) && p->isFp64() == (t.k == TSpec::Fp && t.size == 8),
       "sized class");
  if (auto d = p->as<DecimalType>()) {
    need(d->precision() == t.a && d->scale() == t.b, "precision and scale");
  }
  if (auto d = p->as<VarCharType>()) {
    need(d->maxLength() == t.a, "length");
  }
  if (auto d = p->as<DateTimeBaseType>()) {
    need(d->unit() == kUnits[t.a], "unit");
  }
  if (auto d = p->as<FixedLenArrayType>()) {
    need(d->numElems() == t.a, "element count");
  }
  if (auto d = p->as<ArrayBaseType>()) {
    checkType(d->elemType(), t.elem[0], what);
  }
  if (auto d = p->as<ExtDictionaryType>()) {
    need(d->dictId() == t.a, "dictionary");
    checkType(d->elemType(), t.elem[0], what);
  }
  if (auto d = p->as<ColumnType>()) {
    checkType(d->columnType(), t.elem[0], what);
  }
  if (auto d = p->as<ColumnListType>()) {
    need(d->length() == t.a, "length");
    checkType(d->columnType(), t.elem[0], what);
  }
}
// A text form the documentation of the builder allows for the type, with random case and optional parts.
std::string typeText(pbt::Src& s, const TSpec& t) {
  std::string nn = t.nullable ? "" : "[nn]";
  auto unit = [&](int dflt) -> std::string { return t.a == dflt && s.draw(1) ? "" : std::string("[") + kUnitNames[t.a] + "]"; };
  auto bits = [&](int dflt) -> std::string { return t.size == dflt && s.draw(1) ? "" : std::to_string(t.size * 8); };
  std::string r;
  switch (t.k) {
    case TSpec::Null:
      r = "nullt";
      break;
    case TSpec::Bool:
      r = "bool" + nn;
      break;
    case TSpec::Int:
      r = "int" + bits(8) + nn;
      break;
    case TSpec::Fp:
      r = "fp" + bits(8) + nn;
      break;
    case TSpec::Dec: {
      std::string sp = s.draw(1) ? "" : " ";
      r = s.pick<std::string>({"dec", "decimal", "dec64", "decimal64"}) + "(" + sp + std::to_string(t.a) + sp + "," + sp + std::to_string(t.b) + sp + ")" + nn;
      break;
    }
    case TSpec::VarChar:
      r = "varchar(" + std::to_string(t.a) + ")" + nn;
      break;
    case TSpec::Text:
      r = "text" + nn;
      break;
    case TSpec::Date:
      r = "date" + bits(8) + unit(t.size == 2 ? 1 : 2) + nn;
      break;
    case TSpec::Time:
      r = "time" + bits(8) + unit(t.size == 2 ? 2 : t.size == 4 ? 3 : 4) + nn;
      break;
    case TSpec::Timestamp:
      r = std::string("timestamp") + (s.draw(1) ? "64" : "") + unit(4) + nn;
      break;
    case TSpec::Interval:
      r = "interval" + bits(8) + unit(4) + nn;
      break;
    case TSpec::Fixed:
      r = "array(" + typeText(s, t.elem[0]) + ")(" + std::to_string(t.a) + ")" + nn;
      break;
    case TSpec::VarLen:
      r = "array(" + typeText(s, t.elem[0]) + ")" + nn;
      break;
    default: {
      r = "dict" + bits(4);
      if (!(t.elem[0].k == TSpec::Text && t.elem[0].nullable && s.draw(1))) {
        r += "(" + typeText(s, t.elem[0]) + ")";
      }
      if (t.a != 0 || s.draw(1)) {
        r += "[" + std::to_string(t.a) + "]";
      }
    }
  }
  if (s.chance(1, 4)) {
    for (auto& ch : r) {
      if (s.draw(1)) {
        ch = toupper(ch);
      }
    }
  }
  return r;
}

}  // namespace

FACET(types) {
  auto& s = c.s;
  Context a, b;
  std::vector<TSpec> specs;
  for (size_t n = s.size(1, 4); n; --n) {
    if (!specs.empty() && s.chance(1, 2)) {  // a near copy
      auto t = s.pick(specs);
      if (t.k == TSpec::Null) {
        continue;
      }
      switch (s.draw(3)) {
        case 0:
          t.nullable = !t.nullable;
          if (t.k == TSpec::Dict) {
            t.elem[0].nullable = t.nullable;
          }
          break;
        case 1:
          if (t.k == TSpec::Dec || t.k == TSpec::VarChar) {
            t.a = t.a ? t.a - 1 : 1;
          } else if (t.k == TSpec::Dict) {
            t.a ^= 1;
          }
          break;
        case 2:
          if (t.k == TSpec::Dec) {
            ++t.b;
          } else if (!t.elem.empty() && t.elem[0].k != TSpec::Null && t.k != TSpec::Dict) {
            t.elem[0].nullable = !t.elem[0].nullable;
          }
          break;
        default:
          break;
      }
      specs.push_back(t);
    } else {
      specs.push_back(genType(s, 1, true));
    }
  }
  for (auto& t : specs) {
    normalize(t);
  }
  std::string first;
  std::vector<const Type*> ts, ts2;
  for (auto& t : specs) {
    ts.push_back(buildType(a, t));
    ts2.push_back(buildType(b, t));
    first += ts.back()->toString() + "; ";
  }
  c.describe([&](std::ostream& o) { o << first; });
  for (size_t i = 0; i < specs.size(); ++i) {
    auto& t = specs[i];
    auto p = ts[i];
    checkType(p, t, "built type");
    REQUIRE(buildType(a, t) == p, "the same type twice in one context");
    for (size_t j = 0; j < specs.size(); ++j) {
      bool same = t == specs[j];
      REQUIRE(p->equal(ts[j]) == same && (*p == *ts[j]) == same, p->toString() << " and " << ts[j]->toString() << " compare " << (same ? "different" : "equal"));
      REQUIRE(p->equal(ts2[j]) == same, p->toString() << " and " << ts2[j]->toString() << " of another context compare " << (same ? "different" : "equal"));
    }
    // printing and reading back
    bool readable = t.k != TSpec::Column && t.k != TSpec::ColumnList;
    if (readable) {
      REQUIRE(a.typeFromString(p->toString()) == p, p->toString() << " reads back as " << a.typeFromString(p->toString())->toString());
      auto text = typeText(s, t);
      auto q = a.typeFromString(text);
      REQUIRE(q == p, "'" << text << "' is read as " << q->toString() << " instead of " << p->toString());
    }
    auto cp = p->copyTo(b);
    REQUIRE(cp == ts2[i] && &cp->ctx() == &b, p->toString() << " is copied to another context as " << cp->toString());
    for (bool n : {false, true}) {
      auto t2 = t;
      if (t.k != TSpec::Null) {
        t2.nullable = n;
        if (t.k == TSpec::Dict) {
          t2.elem[0].nullable = n;
        }
      }
      REQUIRE(p->withNullable(n) == buildType(a, t2), p->toString() << " with nullability " << n << " is " << p->withNullable(n)->toString());
    }
    auto t3 = t;
    if (t.k == TSpec::Date) {
      t3.size = 8;
      t3.a = 2;
    } else if (t.k == TSpec::Time || t.k == TSpec::Interval) {
      t3.size = 8;
    } else if (t.k == TSpec::Dict) {
      t3.size = 4;
    }
    auto can = p->canonicalize();
    REQUIRE(can == buildType(a, t3), p->toString() << " has canonical form " << can->toString());
    REQUIRE(can->canonicalize() == can && p->canonicalSize() == t3.size, "canonical form of a canonical form");
    if (auto arr = p->as<ArrayBaseType>()) {
      TSpec e;
      do {
        e = genType(s, 0, false);
      } while (e.k == TSpec::VarChar || e.k == TSpec::Text);
      auto t4 = t;
      t4.elem = {e};
      t4.size = t.k == TSpec::Fixed ? t.a * e.size : -1;
      REQUIRE(arr->withElemType(buildType(a, e)) == buildType(a, t4), "array with another element type");
    }
  }
  {  // spellings and parameters that are not types
    bool scalar = specs[0].elem.empty();
    std::string t = scalar ? typeText(s, specs[0]) : "INT32";
    static const char* bad[] = {"", "INT24", "INT128", "FP16", "DATE8", "DATE16[s]", "DATE32[ms]", "DATE64[m]", "TIME8", "TIME64[d]", "TIME[m]", "TIME16[ms]", "TIME32[us]", "TIMESTAMP32", "TIMESTAMP[d]", "TIMESTAMP[m]",
                                "TIMESTAMP[min]", "INTERVAL8", "DICT64(TEXT)[0]", "DICT32(INT32)[0]", "VARCHAR", "VARCHAR()", "VARCHAR(-1)", "DEC(3)", "DEC32(3,1)", "DEC(-1,0)", "ARRAY()", "ARRAY(TEXT)", "ARRAY(VARCHAR(3))", "ARRAY(INT32)(-1)",
                                "ARRAY(ARRAY(INT32))", "ARRAY16(INT32)", "ARRAY(TEXT)(2)", "BOOL8", "TEXT(3)", "NULLT[NN]", "INT32[N]", "DICT[x]"};
    std::string text;
    switch (s.draw(7)) {
      case 0:
        text = t + s.pick<const char*>({"x", "]", ")", "[NN][NN]", "[nn]x", "(3)(3)", "[q]", " int32", ";"});
        break;
      case 1:
        text = s.pick<const char*>({"x", "(", "[NN]", "a ", "-"}) + t;
        break;
      case 2:
        text = "ARRAY(" + t;
        break;
      case 3:
        text = "ARRAY(" + t + "x)";
        break;
      default:
        text = bad[s.draw(std::size(bad) - 1)];
    }
    for (int rep = 0; rep < 2; ++rep) {
      const Type* got = nullptr;
      try {
        got = a.typeFromString(text);
      } catch (const std::exception&) {
      }
      REQUIRE(!got, "'" << text << "' is accepted as " << got->toString());
    }
  }
  c.nontrivial(specs.size() > 1 || !specs[0].elem.empty());
}

namespace {
// ------------------------------------------------------------------------------------------------------ constants
struct Num {  // value = v / 10^scale
  i128 v;
  int scale;
};
i128 p10(int n) {
  i128 r = 1;
  while (n-- > 0) {
    r *= 10;
  }
  return r;
}
i128 roundDiv(i128 v, i128 d) {  // half away from zero
  i128 a = v < 0 ? -v : v;
  i128 q = a / d + ((a % d) * 2 >= d ? 1 : 0);
  return v < 0 ? -q : q;
}
std::string i128str(i128 v) {
  bool neg = v < 0;
  unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : v;
  std::string r;
  do {
    r.insert(r.begin(), '0' + static_cast<int>(u % 10));
    u /= 10;
  } while (u);
  return neg ? "-" + r : r;
}
std::string decText(i128 v, int scale) {
  std::string r = i128str(v < 0 ? -v : v);
  if (scale) {
    while (static_cast<int>(r.size()) <= scale) {
      r.insert(r.begin(), '0');
    }
    r.insert(r.size() - scale, ".");
  }
  return (v < 0 ? "-" : "") + r;
}
bool fitsInt(i128 v, int size) { return v >= -(i128(1) << (size * 8 - 1)) && v < (i128(1) << (size * 8 - 1)); }
Datum intDatum(int64_t v, int size) {
  Datum d{0};
  switch (size) {
    case 1:
      d.tinyintval = v;
      break;
    case 2:
      d.smallintval = v;
      break;
    case 4:
      d.intval = v;
      break;
    default:
      d.bigintval = v;
  }
  return d;
}
int64_t intOf(const Constant* c) { return c->intVal(); }
}  // namespace

FACET(consts) {
  auto& s = c.s;
  Context ctx;
  enum K { Bool, Int, Dec, Fp, Ts, Text };
  K from = static_cast<K>(s.draw(5));
  int fsize = s.pick<int>({1, 2, 4, 8}), fscale = s.draw(18), funit = s.size(2, 5);
  const int64_t per_second[] = {0, 0, 1, 1000, 1000000, 1000000000};
  const Type* ft = nullptr;
  Datum d{0};
  i128 iv = 0;
  double fv = 0;
  std::string text;
  Num num{0, 0};  // of a text
  switch (from) {
    case Bool:
      ft = ctx.boolean(false);
      iv = s.draw(1);
      d.boolval = iv != 0;
      break;
    case Int:
      ft = ctx.integer(fsize, false);
      iv = s.boundary(fsize == 8 ? INT64_MIN : -(int64_t(1) << (fsize * 8 - 1)), fsize == 8 ? INT64_MAX : (int64_t(1) << (fsize * 8 - 1)) - 1);
      d = intDatum(iv, fsize);
      break;
    case Dec:
      ft = ctx.decimal64(19, fscale, false);
      iv = s.boundary(-INT64_MAX, INT64_MAX);
      if (s.chance(1, 3)) {  // close to a rounding boundary
        iv = s.range(-1000, 1000) * p10(fscale) / (s.draw(1) ? 2 : 1) + s.range(-1, 1);
        if (!fitsInt(iv, 8)) {
          iv = 1;
        }
      }
      d.bigintval = iv;
      break;
    case Fp: {
      bool f32 = s.draw(1);
      ft = f32 ? static_cast<const Type*>(ctx.fp32(false)) : ctx.fp64(false);
      switch (s.draw(4)) {
        case 0:
          fv = static_cast<double>(s.boundary(INT64_MIN, INT64_MAX));
          break;
        case 1:
          fv = s.range(-2000, 2000) / 2.0 + (s.chance(1, 4) ? 0.25 : 0);
          break;
        case 2:
          fv = std::ldexp(1.0, s.range(5, 66)) * (s.draw(1) ? 1 : -1) + s.range(-2, 2) / 2.0;
          break;
        case 3:
          fv = s.range(-1000000, 1000000) / 1000.0;
          break;
        default:
          fv = std::ldexp(static_cast<double>(s.range(-1000000, 1000000)), s.range(-80, 80));
      }
      if (f32) {
        d.floatval = static_cast<float>(fv);
        fv = d.floatval;
      } else {
        d.doubleval = fv;
      }
      break;
    }
    case Ts:
      ft = ctx.timestamp(kUnits[funit], false);
      iv = s.draw(1) ? s.boundary(INT64_MIN / 2, INT64_MAX / 2) : i128(s.range(-4000000000ll, 4000000000ll)) * per_second[funit] + s.range(-1, 1);
      if (!fitsInt(iv, 8)) {
        iv = -1;
      }
      d.bigintval = iv;
      break;
    case Text: {
      // a decimal number of at most 18 digits
      size_t frac = s.draw(9), whole = s.size(1, 9);
      if (s.chance(1, 4)) {
        frac = 0;
        whole = s.size(1, 19);
      }
      std::string digits;
      for (size_t i = 0; i < whole + frac; ++i) {
        digits += s.chance(1, 2) ? '0' + static_cast<int>(s.draw(9)) : s.pick<char>({'0', '4', '5', '9'});
      }
      bool neg = s.draw(1);
      for (char ch : digits) {
        num.v = num.v * 10 + (ch - '0');
      }
      num.scale = frac;
      num.v = neg ? -num.v : num.v;
      text = (neg ? "-" : "") + digits.substr(0, whole) + (frac ? "." + digits.substr(whole) : s.chance(1, 6) ? "." : "");
      if (frac && whole == 1 && digits[0] == '0' && !neg && s.draw(1)) {
        text = text.substr(1);
      }
      ft = ctx.text(false);
      d.stringval = new std::string(text);
      break;
    }
  }
  auto cst = makeExpr<Constant>(ft, false, d);
  K to = static_cast<K>(s.draw(5));
  int tsize = s.pick<int>({1, 2, 4, 8}), tscale = s.draw(18), tunit = s.size(2, 5);
  bool vc = s.chance(1, 3);
  int vlen = s.draw(8);
  const Type* tt = nullptr;
  bool tnull = s.draw(1);
  bool tf32 = s.draw(1), tdate = s.chance(1, 3);
  switch (to) {
    case Bool:
      tt = ctx.boolean(tnull);
      break;
    case Int:
      tt = ctx.integer(tsize, tnull);
      break;
    case Dec:
      tt = ctx.decimal64(19, tscale, tnull);
      break;
    case Fp:
      tt = tf32 ? static_cast<const Type*>(ctx.fp32(tnull)) : ctx.fp64(tnull);
      break;
    case Ts:
      tt = ctx.timestamp(kUnits[tunit], tnull);
      if (from == Ts && tdate) {
        tt = ctx.date64(TimeUnit::kSecond, tnull);
      }
      break;
    case Text:
      tt = vc ? static_cast<const Type*>(ctx.varChar(vlen, tnull)) : ctx.text(tnull);
      break;
  }
  c.describe([&](std::ostream& o) { o << ft->toString() << " " << (from == Text ? text : from == Fp ? std::to_string(fv) : i128str(iv)) << " to " << tt->toString(); });
  if (s.chance(1, 12)) {  // NULL stays NULL
    auto r = makeExpr<Constant>(ft->withNullable(true), true, Datum{0})->cast(tt->withNullable(true));
    auto rc = r->as<Constant>();
    REQUIRE(rc && rc->isNull() && rc->type() == tt->withNullable(true), "cast of NULL gives " << r->toString());
    return;
  }
  if ((to == Bool && from != Bool && from != Text) || (from == Text && to == Ts)) {
    throw pbt::Discard();
  }
  // expectation
  bool overflow = false, any = false;
  std::optional<i128> wi;
  std::optional<std::string> ws;
  std::optional<double> wf;
  double ftol = 0;
  auto pow10 = [](int n) { return std::pow(10.0L, n); };
  auto asInt = [&](i128 v, int size) {
    wi = v;
    overflow = !fitsInt(v, size);
  };
  if (to == Int || to == Dec || (to == Ts && from != Ts)) {
    int size = to == Int ? tsize : 8, scale = to == Dec ? tscale : 0;
    switch (from) {
      case Bool:
      case Int:
      case Ts:
        if (scale && (iv > (i128(1) << 64) || iv < -(i128(1) << 64))) {
          overflow = true;
        } else {
          asInt(iv * p10(scale), size);
        }
        break;
      case Dec:
        asInt(scale >= fscale ? iv * p10(scale - fscale) : roundDiv(iv, p10(fscale - scale)), size);
        break;
      case Fp: {
        long double x = static_cast<long double>(fv) * pow10(scale);
        long double r = std::round(x);
        long double lim = std::ldexp(1.0L, size * 8 - 1);
        if (scale) {  // computed in double precision
          if (std::fabs(r) > lim * 0.999999L && std::fabs(r) < lim * 1.000001L) {
            any = true;
          } else if (std::fabs(r) >= lim) {
            overflow = true;
          } else {
            wi = static_cast<i128>(r);
            ftol = 1 + std::fabs(static_cast<double>(r)) * 4e-16;
          }
        } else if (r < -lim || r >= lim) {
          overflow = true;
          wi = 0;
        } else {
          wi = static_cast<i128>(r);
        }
        break;
      }
      default: {  // text
        if (to == Int) {
          i128 r = roundDiv(num.v, p10(num.scale));
          asInt(r, size);
          if (tnull && r == -(i128(1) << (size * 8 - 1))) {
            overflow = true;  // would be read as NULL
          }
        } else {
          i128 r = scale >= num.scale ? num.v * p10(scale - num.scale) : roundDiv(num.v, p10(num.scale - scale));
          asInt(r, 8);
          // intermediate results have to fit as well
          if (i128 a = num.v < 0 ? -num.v : num.v; a > INT64_MAX || r == INT64_MIN) {
            any = true;
          }
        }
      }
    }
  } else if (to == Fp) {
    switch (from) {
      case Bool:
      case Int:
      case Ts:
        wf = tf32 ? static_cast<float>(static_cast<int64_t>(iv)) : static_cast<double>(static_cast<int64_t>(iv));
        break;
      case Dec:
        wf = static_cast<double>(static_cast<long double>(iv) / pow10(fscale));
        ftol = std::fabs(*wf) * (tf32 ? 3e-7 : 5e-16);
        break;
      case Fp:
        wf = tf32 ? static_cast<float>(fv) : fv;
        break;
      default:
        wf = static_cast<double>(static_cast<long double>(num.v) / pow10(num.scale));
        ftol = std::fabs(*wf) * (tf32 ? 3e-7 : 5e-16);
    }
  } else if (to == Ts) {  // from a timestamp
    auto floorDiv = [](i128 a, i128 b) { return a / b - (a % b < 0 ? 1 : 0); };
    if (tdate) {
      wi = floorDiv(iv, i128(86400) * per_second[funit]) * 86400;
    } else if (tunit >= funit) {
      asInt(iv * (per_second[tunit] / per_second[funit]), 8);
    } else {
      wi = floorDiv(iv, per_second[funit] / per_second[tunit]);
    }
  } else if (to == Text) {
    switch (from) {
      case Bool:
        ws = iv ? "t" : "f";
        break;
      case Int:
        ws = i128str(iv);
        break;
      case Dec:
        ws = decText(iv, fscale);
        break;
      case Fp: {
        char buf[512];
        snprintf(buf, sizeof(buf), "%f", fv);
        ws = buf;
        break;
      }
      case Ts: {
        // years that print with four digits
        i128 sec = iv / per_second[funit];
        if (sec < -62000000000ll || sec > 250000000000ll) {
          throw pbt::Discard();
        }
        any = true;  // the format of timestamps is another property
        break;
      }
      default:
        ws = text;
    }
    if (ws && vc) {
      ws = ws->substr(0, vlen);
    }
  } else {  // to bool
    if (from == Text) {
      if (text == "1" || text == "0") {
        wi = text == "1";
      } else {
        overflow = true;
      }
    } else {
      wi = iv;
    }
  }
  c.nontrivial(from != to);
  ExprPtr r;
  try {
    r = cst->cast(tt);
  } catch (const std::runtime_error& e) {
    REQUIRE(overflow || any, "cast fails with: " << e.what());
    c.label("overflow");
    return;
  }
  if (any) {
    return;
  }
  REQUIRE(!overflow, "a value that does not fit is accepted as " << r->toString());
  auto rc = r->as<Constant>();
  REQUIRE(rc && !rc->isNull(), "not a constant: " << r->toString());
  REQUIRE(rc->type()->withNullable(true) == tt->withNullable(true), "type " << rc->type()->toString());
  if (wi) {
    i128 got = to == Bool ? (rc->value().boolval ? 1 : 0) : i128(intOf(rc));
    i128 diff = got > *wi ? got - *wi : *wi - got;
    REQUIRE(diff == 0 || static_cast<double>(diff) <= ftol, i128str(got) << " instead of " << i128str(*wi));
  }
  if (wf) {
    double got = rc->fpVal();
    REQUIRE(got == *wf || std::fabs(got - *wf) <= ftol, got << " instead of " << *wf);
  }
  if (ws) {
    REQUIRE(rc->value().stringval && *rc->value().stringval == *ws, "'" << *rc->value().stringval << "' instead of '" << *ws << "'");
    if (from == Int || from == Dec || from == Bool) {  // and back
      if (!vc && ws->size() <= 18) {  // as many digits as a decimal literal may have
        auto back = r->cast(ft);
        REQUIRE(*back == *cst, back->toString() << " after reading back " << *ws);
      }
    }
  }
  // equality and hashes
  auto again = cst->cast(tt);
  REQUIRE(*again == *r && again->hash() == r->hash(), "the same cast twice gives different constants");
}

namespace {
// ---------------------------------------------------------------------------------------------------- expressions
struct X {
  enum K { Col, Var_, Cst, NullC, Un, CastE, Bin, Range, InV, InSet, CharLen, Key, SampleR, Lower, Card, Like, Regexp, Bucket, Likely, Agg, Case_, Extract, DAdd, DDiff, DTrunc, Func, FuncC, Offs, Win, Arr, Tuple, ArrC, kCount } k = Col;
  std::vector<int64_t> n;
  std::vector<X> ch;
  std::vector<std::vector<X>> groups;  // lists of children
};
Context& C() { return Context::defaultCtx(); }

const OpType kBinOps[] = {OpType::kEq, OpType::kNe, OpType::kLt, OpType::kGt, OpType::kLe, OpType::kGe, OpType::kAnd, OpType::kOr, OpType::kMinus, OpType::kPlus, OpType::kMul, OpType::kDiv, OpType::kMod, OpType::kBwEq, OpType::kArrayAt};
const OpType kUnOps[] = {OpType::kNot, OpType::kUMinus, OpType::kIsNull, OpType::kUnnest, OpType::kBwNot};

// bounds of the attributes of each kind, so that they can be drawn and mutated
std::vector<int64_t> bounds(X::K k) {
  switch (k) {
    case X::Col:
      return {2, 2, 3, 2};  // database, table, column, range table entry
    case X::Var_:
      return {3, 3};
    case X::Cst:
      return {5, 6};  // kind, value
    case X::NullC:
      return {3};
    case X::Un:
      return {4, 1};
    case X::CastE:
      return {3, 1};
    case X::Bin:
      return {14, 2};
    case X::Range:
      return {1, 1};
    case X::InSet:
      return {3, 3, 3};
    case X::CharLen:
      return {1};
    case X::Like:
      return {1};
    case X::Likely:
      return {3};
    case X::Agg:
      return {12, 1, 4};
    case X::Extract:
      return {19};
    case X::DAdd:
    case X::DDiff:
    case X::DTrunc:
      return {15};
    case X::Func:
    case X::FuncC:
      return {2, 1};
    case X::Win:
      return {14};
    case X::Arr:
      return {1};
    case X::ArrC:
      return {2, 2};
    default:
      return {};
  }
}
struct G {
  pbt::Src& s;
  bool visitable;
  X gen(int depth) {
    X x;
    do {
      x.k = depth <= 0 ? s.pick<X::K>({X::Col, X::Col, X::Cst, X::NullC, X::Var_}) : static_cast<X::K>(s.draw(X::kCount - 1));
    } while (visitable && x.k == X::Range);
    for (auto b : bounds(x.k)) {
      x.n.push_back(s.draw(b));
    }
    auto kids = [&](size_t lo, size_t hi) {
      for (size_t n = s.size(lo, hi); n; --n) {
        x.ch.push_back(gen(depth - 1));
      }
    };
    auto group = [&](size_t lo, size_t hi) {
      x.groups.emplace_back();
      for (size_t n = s.size(lo, hi); n; --n) {
        x.groups.back().push_back(gen(depth - 1));
      }
    };
    switch (x.k) {
      case X::Un:
      case X::InSet:
      case X::CharLen:
      case X::Key:
      case X::SampleR:
      case X::Lower:
      case X::Card:
      case X::Likely:
      case X::Extract:
      case X::DTrunc:
        kids(1, 1);
        break;
      case X::CastE: {
        X col;
        col.k = X::Col;
        for (auto b : bounds(X::Col)) {
          col.n.push_back(s.draw(b));
        }
        x.ch = {col};
        break;
      }
      case X::Bin:
      case X::Range:
      case X::DAdd:
      case X::DDiff:
        kids(2, 2);
        break;
      case X::InV:
        kids(1, 1);
        group(0, 3);
        break;
      case X::Like:
      case X::Regexp:
        kids(2, 3);
        break;
      case X::Bucket:
        kids(4, 4);
        break;
      case X::Agg: {
        kids(0, 1);
        if (x.n[0] == 0 && x.ch.empty()) {
          x.n[0] = 4;
        }
        bool cst = x.n[0] == 5 || x.n[0] == 6 || x.n[0] == 9 || x.n[0] == 10, corr = x.n[0] == 12;
        group(corr || cst ? 1 : 0, corr || cst ? 1 : 0);
        if (cst) {
          X k;
          k.k = X::Cst;
          k.n = {static_cast<int64_t>(s.draw(1)), static_cast<int64_t>(s.draw(6))};
          x.groups[0] = {k};
        }
        break;
      }
      case X::Case_:
        group(1, 3);
        if (x.groups[0].size() % 2) {
          x.groups[0].push_back(gen(depth - 1));
        }
        kids(visitable ? 1 : 0, 1);
        break;
      case X::Func:
      case X::FuncC:
      case X::Arr:
        group(0, 3);
        break;
      case X::Tuple:
        group(1, 3);
        break;
      case X::Win:
        group(0, 2);
        group(0, 2);
        group(0, 2);
        for (size_t i = 0; i < x.groups[2].size(); ++i) {
          x.n.push_back(s.draw(1));
          x.n.push_back(s.draw(1));
        }
        break;
      default:
        break;
    }
    return x;
  }
};
ExprPtr build(const X& x) {
  auto ch = [&](size_t i) { return build(x.ch[i]); };
  auto vec = [&](size_t g) {
    ExprPtrVector v;
    for (auto& y : x.groups[g]) {
      v.push_back(build(y));
    }
    return v;
  };
  const Type* castTypes[] = {C().fp64(), C().fp32(), C().int32(), C().decimal64(10, 2)};
  switch (x.k) {
    case X::Col:
      return makeExpr<ColumnVar>(x.n[2] % 2 ? static_cast<const Type*>(C().int64()) : C().int64(false), x.n[0] + 1, x.n[1] + 1, x.n[2] + 1, x.n[3]);
    case X::Var_:
      return makeExpr<Var>(C().int64(), static_cast<Var::WhichRow>(x.n[0]), x.n[1] + 1);
    case X::Cst: {
      Datum d{0};
      switch (x.n[0]) {
        case 0:
          d.bigintval = x.n[1];
          return makeExpr<Constant>(C().int64(false), false, d);
        case 1:
          d.intval = x.n[1];
          return makeExpr<Constant>(C().int32(false), false, d);
        case 2:
          d.doubleval = x.n[1] / 2.0;
          return makeExpr<Constant>(C().fp64(false), false, d);
        case 3:
          d.stringval = new std::string("s" + std::to_string(x.n[1]));
          return makeExpr<Constant>(C().text(false), false, d);
        case 4:
          d.bigintval = x.n[1];
          return makeExpr<Constant>(C().decimal64(10, 2, false), false, d);
        default:
          d.bigintval = x.n[1];
          return makeExpr<Constant>(C().timestamp(TimeUnit::kMilli, false), false, d);
      }
    }
    case X::NullC: {
      const Type* ts[] = {C().int64(), C().fp64(), C().text(), C().timestamp()};
      return makeExpr<Constant>(ts[x.n[0]], true, Datum{0});
    }
    case X::Un:
      return makeExpr<UOper>(x.n[0] == 0 || x.n[0] == 2 ? static_cast<const Type*>(C().boolean()) : C().int64(), false, kUnOps[x.n[0]], ch(0), x.n[1] != 0);
    case X::CastE:
      return makeExpr<UOper>(castTypes[x.n[0]], false, OpType::kCast, ch(0), false);
    case X::Bin:
      return makeExpr<BinOper>(x.n[0] < 8 || x.n[0] == 13 ? static_cast<const Type*>(C().boolean()) : C().int64(), false, kBinOps[x.n[0]], static_cast<Qualifier>(x.n[1]), ch(0), ch(1));
    case X::Range:
      return makeExpr<RangeOper>(x.n[0] != 0, x.n[1] != 0, ch(0), ch(1));
    case X::InV: {
      auto v = vec(0);
      return makeExpr<InValues>(ch(0), ExprPtrList(v.begin(), v.end()));
    }
    case X::InSet:
      return makeExpr<InIntegerSet>(ch(0), std::vector<int64_t>(x.n.begin(), x.n.end()), false);
    case X::CharLen:
      return makeExpr<CharLengthExpr>(ch(0), x.n[0] != 0);
    case X::Key:
      return makeExpr<KeyForStringExpr>(ch(0));
    case X::SampleR:
      return makeExpr<SampleRatioExpr>(ch(0));
    case X::Lower:
      return makeExpr<LowerExpr>(ch(0));
    case X::Card:
      return makeExpr<CardinalityExpr>(ch(0));
    case X::Like:
      return makeExpr<LikeExpr>(ch(0), ch(1), x.ch.size() > 2 ? ch(2) : nullptr, x.n[0] != 0, false);
    case X::Regexp:
      return makeExpr<RegexpExpr>(ch(0), ch(1), x.ch.size() > 2 ? ch(2) : nullptr);
    case X::Bucket:
      return makeExpr<WidthBucketExpr>(ch(0), ch(1), ch(2), ch(3));
    case X::Likely:
      return makeExpr<LikelihoodExpr>(ch(0), x.n[0] / 4.0f);
    case X::Agg: {
      auto v = vec(0);
      auto kind = static_cast<AggType>(x.n[0]);
      return makeExpr<AggExpr>(C().fp64(), kind, x.ch.empty() ? nullptr : ch(0), x.n[1] != 0, v.empty() ? nullptr : v[0], static_cast<Interpolation>(kind == AggType::kQuantile ? x.n[2] : 4));
    }
    case X::Case_: {
      auto v = vec(0);
      std::list<std::pair<ExprPtr, ExprPtr>> l;
      for (size_t i = 0; i + 1 < v.size(); i += 2) {
        l.emplace_back(v[i], v[i + 1]);
      }
      return makeExpr<CaseExpr>(C().int64(), false, l, x.ch.empty() ? nullptr : ch(0));
    }
    case X::Extract:
      return makeExpr<ExtractExpr>(C().int64(), false, static_cast<DateExtractField>(x.n[0]), ch(0));
    case X::DAdd:
      return makeExpr<DateAddExpr>(C().timestamp(), static_cast<DateAddField>(x.n[0]), ch(0), ch(1));
    case X::DDiff:
      return makeExpr<DateDiffExpr>(C().int64(), static_cast<DateTruncField>(x.n[0]), ch(0), ch(1));
    case X::DTrunc:
      return makeExpr<DateTruncExpr>(C().timestamp(), false, static_cast<DateTruncField>(x.n[0]), ch(0));
    case X::Func:
      return makeExpr<FunctionOper>(x.n[1] ? static_cast<const Type*>(C().int64()) : C().fp64(), "F" + std::to_string(x.n[0]), vec(0));
    case X::FuncC:
      return makeExpr<FunctionOperWithCustomTypeHandling>(x.n[1] ? static_cast<const Type*>(C().int64()) : C().fp64(), "G" + std::to_string(x.n[0]), vec(0));
    case X::Offs:
      return makeExpr<OffsetInFragment>();
    case X::Win: {
      std::vector<OrderEntry> coll;
      for (size_t i = 0; i < x.groups[2].size(); ++i) {
        coll.emplace_back(static_cast<int>(i) + 1, x.n[1 + 2 * i] != 0, x.n[2 + 2 * i] != 0);
      }
      return makeExpr<WindowFunction>(C().int64(), static_cast<WindowFunctionKind>(x.n[0]), vec(0), vec(1), vec(2), coll);
    }
    case X::Arr:
      return makeExpr<ArrayExpr>(C().arrayVarLen(C().int64()), vec(0), x.n[0] != 0);
    case X::Tuple:
      return makeExpr<ExpressionTuple>(vec(0));
    case X::ArrC: {
      ExprPtrList l;
      for (int64_t i = 0; i <= x.n[0]; ++i) {
        Datum d{0};
        d.bigintval = x.n[1] + i;
        l.push_back(makeExpr<Constant>(C().int64(false), false, d));
      }
      return makeExpr<Constant>(C().arrayVarLen(C().int64(false), 4, false), false, l);
    }
    default:
      abort();
  }
}
void all(X& x, std::vector<X*>& out) {
  out.push_back(&x);
  for (auto& y : x.ch) {
    all(y, out);
  }
  for (auto& g : x.groups) {
    for (auto& y : g) {
      all(y, out);
    }
  }
}
// One change somewhere that changes the meaning. Returns false when the picked place has nothing to change.
bool mutate(pbt::Src& s, X& root) {
  std::vector<X*> v;
  all(root, v);
  X& x = *v[s.draw(v.size() - 1)];
  bool structural = s.chance(1, 3);
  if (structural && !x.groups.empty()) {
    size_t gi = s.draw(x.groups.size() - 1);
    auto& g = x.groups[gi];
    if (x.k == X::Agg || x.k == X::Case_ || (x.k == X::Win && gi == 2)) {
      return false;
    }
    if (!g.empty() && s.draw(1) && !(x.k == X::Tuple && g.size() == 1)) {
      g.pop_back();
    } else {
      X c;
      c.k = X::Cst;
      c.n = {0, 1};
      g.push_back(c);
    }
    return true;
  }
  if (structural && (x.k == X::Like || x.k == X::Regexp)) {
    if (x.ch.size() == 3) {
      x.ch.pop_back();
    } else {
      X c;
      c.k = X::Cst;
      c.n = {3, 1};
      x.ch.push_back(c);
    }
    return true;
  }
  if (x.n.empty()) {
    return false;
  }
  size_t i = s.draw(x.n.size() - 1);
  auto b = bounds(x.k);
  int64_t bound = i < b.size() ? b[i] : 1;
  if (x.k == X::CastE && i == 1) {
    return false;
  }
  if (x.k == X::Agg) {
    if (i == 0 || (i == 2 && static_cast<AggType>(x.n[0]) != AggType::kQuantile)) {
      return false;
    }
  }
  if (x.k == X::Win && x.n.size() == 1 && i > 0) {
    return false;
  }
  x.n[i] = (x.n[i] + 1 + s.draw(bound - 1)) % (bound + 1);
  return true;
}
using ColKey = std::tuple<int, int, int, int>;
void columns(const X& x, std::multiset<ColKey>& out) {
  if (x.k == X::Col) {
    out.emplace(x.n[0] + 1, x.n[1] + 1, x.n[2] + 1, x.n[3]);
  }
  for (auto& y : x.ch) {
    columns(y, out);
  }
  for (auto& g : x.groups) {
    for (auto& y : g) {
      columns(y, out);
    }
  }
}
struct Collect : ExprCollector<std::multiset<ColKey>, Collect> {
 protected:
  void visitColumnVar(const ColumnVar* c) override { result_.emplace(c->dbId(), c->tableId(), c->columnId(), c->rteIdx()); }
};
struct Rewrite : ExprRewriter {
  int64_t from, to;

 protected:
  ExprPtr visitColumnVar(const ColumnVar* c) override {
    if (c->tableId() == from) {
      return makeExpr<ColumnVar>(c->type(), c->dbId(), to, c->columnId(), c->rteIdx());
    }
    return defaultResult(c);
  }
};
}  // namespace

// The factors between units of time used when a time is extracted, truncated, shifted or cast.
FACET(units) {
  auto& s = c.s;
  using namespace DateTimeUtils;
  static const std::pair<TimeUnit, int> us[] = {{TimeUnit::kSecond, 0}, {TimeUnit::kMilli, 3}, {TimeUnit::kMicro, 6}, {TimeUnit::kNano, 9}};
  auto pw = [](int n) {
    i128 r = 1;
    while (n--) {
      r *= 10;
    }
    return r;
  };
  auto [u, d] = us[s.draw(3)];
  auto [u2, d2] = us[s.draw(3)];
  int64_t v = s.boundary(INT64_MIN + 1, INT64_MAX);
  if (s.draw(1)) {
    v = s.range(-4000000000, 4000000000);
  }
  c.describe([&](auto& o) { o << v << " 10^-" << d << " to 10^-" << d2; });
  auto floorDiv = [](i128 a, i128 b) { return a / b - (a % b < 0 ? 1 : 0); };
  auto up = static_cast<i128>(v) * pw(d), down = floorDiv(v, pw(d));
  bool fits = up >= INT64_MIN && up <= INT64_MAX;
  try {
    auto got = get_datetime_scaled_epoch(ScaleUp, v, d);
    REQUIRE(fits && got == up, v << " seconds are " << got << " units of 10^-" << d);
  } catch (const std::runtime_error& e) {
    REQUIRE(!fits, "scaling up " << v << " fails: " << e.what());
  }
  REQUIRE(get_datetime_scaled_epoch(ScaleDown, v, d) == down, v << " units of 10^-" << d << " in seconds");
  REQUIRE(get_timestamp_precision_scale(d) == pw(d), "units per second");
  i128 conv = d2 >= d ? static_cast<i128>(v) * pw(d2 - d) : floorDiv(v, pw(d - d2));
  fits = conv >= INT64_MIN && conv <= INT64_MAX;
  try {
    auto got = get_datetime_scaled_epoch(v, u, u2);
    REQUIRE(fits && got == conv, v << " of 10^-" << d << " is " << got << " of 10^-" << d2);
  } catch (const std::runtime_error& e) {
    REQUIRE(!fits, "conversion of " << v << " fails: " << e.what());
  }
  // amounts of a sub-second field in a unit
  static const std::tuple<DateAddField, DateExtractField, DateTruncField, int> fs[] = {{DateAddField::kMilli, DateExtractField::kMilli, DateTruncField::kMilli, 3},
                                                                                        {DateAddField::kMicro, DateExtractField::kMicro, DateTruncField::kMicro, 6},
                                                                                        {DateAddField::kNano, DateExtractField::kNano, DateTruncField::kNano, 9}};
  auto [fa, fe, ft, fd] = fs[s.draw(2)];
  REQUIRE(is_subsecond_dateadd_field(fa) && is_subsecond_extract_field(fe) && is_subsecond_datetrunc_field(ft), "sub-second fields");
  auto other = s.draw(8);
  REQUIRE(!is_subsecond_dateadd_field(static_cast<DateAddField>(other % 6)) && !is_subsecond_extract_field(s.pick<DateExtractField>({DateExtractField::kYear, DateExtractField::kSecond, DateExtractField::kMinute, DateExtractField::kEpoch})) &&
              !is_subsecond_datetrunc_field(s.pick<DateTruncField>({DateTruncField::kYear, DateTruncField::kSecond, DateTruncField::kMinute, DateTruncField::kDay})),
          "fields of whole seconds");
  REQUIRE(get_dateadd_timestamp_precision_scale(fa) == pw(fd) && get_extract_timestamp_precision_scale(fe) == pw(fd), "sub-second units per second");
  auto apply = [&](std::pair<OpType, int64_t> f, i128 x) { return !f.second ? x : f.first == OpType::kMul ? x * f.second : f.first == OpType::kDiv ? x / f.second : INT64_MIN; };
  int64_t x = s.range(-1000000, 1000000);
  if (d) {
    auto f = get_dateadd_high_precision_adjusted_scale(fa, d);
    REQUIRE(apply(f, static_cast<i128>(x) * pw(9)) == (d >= fd ? static_cast<i128>(x) * pw(9) * pw(d - fd) : static_cast<i128>(x) * pw(9) / pw(fd - d)), "amount of 10^-" << fd << " in a timestamp of 10^-" << d);
    auto g = get_extract_high_precision_adjusted_scale(fe, u);
    REQUIRE(apply(g, static_cast<i128>(x) * pw(9)) == (fd >= d ? static_cast<i128>(x) * pw(9) * pw(fd - d) : static_cast<i128>(x) * pw(9) / pw(d - fd)), "extract 10^-" << fd << " of a timestamp of 10^-" << d);
    auto h = get_datetrunc_high_precision_scale(ft, u);
    REQUIRE(h == (d > fd ? static_cast<int64_t>(pw(d - fd)) : -1), "truncation to 10^-" << fd << " of a timestamp of 10^-" << d);
  }
  c.nontrivial(d != d2);
}

FACET(exprs) {
  auto& s = c.s;
  G g{s, s.draw(1) == 0};
  X x = g.gen(s.size(1, 4));
  auto e = build(x), copy = build(x);
  c.describe([&](std::ostream& o) { o << e->toString(); });
  REQUIRE(*e == *e && *e == *copy && *copy == *e, "an expression and its copy compare different");
  REQUIRE(e->hash() == copy->hash(), "an expression and its copy have different hashes");
  X y = x;
  bool changed = false;
  for (int i = 0; i < 4 && !changed; ++i) {
    changed = mutate(s, y);
  }
  if (changed) {
    auto f = build(y);
    REQUIRE(!(*e == *f) && !(*f == *e), "different expressions compare equal: " << e->toString() << " and " << f->toString());
    REQUIRE(e->hash() != f->hash(), "different expressions have the same hash: " << e->toString() << " and " << f->toString());
  }
  X z = g.gen(1);
  auto f = build(z);
  REQUIRE((*e == *f) == (*f == *e), "comparison is not symmetric for " << e->toString() << " and " << f->toString());
  if (*e == *f) {
    REQUIRE(e->hash() == f->hash(), "equal expressions with different hashes");
  }
  if (g.visitable) {
    std::multiset<ColKey> want;
    columns(x, want);
    REQUIRE(Collect::collect(e) == want, "visiting finds " << Collect::collect(e).size() << " columns instead of " << want.size());
    Rewrite r;
    r.from = s.size(1, 3);
    r.to = 7;
    X w = x;
    std::vector<X*> v;
    all(w, v);
    bool touched = false;
    for (auto p : v) {
      if (p->k == X::Col && p->n[1] + 1 == r.from) {
        p->n[1] = r.to - 1;
        touched = true;
      }
    }
    auto got = r.visit(e.get());
    auto we = build(w);
    REQUIRE(*got == *we && got->hash() == we->hash(), "after replacing a table: " << got->toString() << " instead of " << we->toString());
    REQUIRE(got->type() == e->type(), "rewriting changed the type");
    REQUIRE(touched || got == e, "rewriting nothing made a copy");
    c.label(touched, "rewritten");
  }
  // only the type changes
  if (x.k != X::Cst && x.k != X::NullC && x.k != X::ArrC && x.k != X::Lower && x.k != X::Range && x.k != X::Offs && x.k != X::Tuple && x.k != X::Var_) {
    auto nt = e->type()->withNullable(!e->type()->nullable());
    auto t = e->withType(nt);
    REQUIRE(t->type() == nt, "withType gives " << t->type()->toString());
    auto back = t->withType(e->type());
    REQUIRE(*back == *e && back->hash() == e->hash(), "changing the type and back changes the expression: " << back->toString() << " from " << e->toString());
  }
  c.nontrivial(!x.ch.empty() || !x.groups.empty());
  c.label(changed, "mutated");
}

PBT_MAIN
