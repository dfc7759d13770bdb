// Result sets: buffers in every layout are written by an independent model of the layout, and everything the result
// set reports about them is compared with the rows that were written.
#include "common/gen_str.h"
#include "common/pbt.h"

#include "IR/Context.h"
#include "IR/Type.h"
#include "QueryEngine/InputMetadata.h"
#include "ResultSet/BitmapGenerators.h"
#include "ResultSet/ColRangeInfo.h"
#include "ResultSet/CountDistinct.h"
#include "ResultSet/QueryMemoryDescriptor.h"
#include "ResultSet/ResultSet.h"
#include "ResultSet/RowSetMemoryOwner.h"
#include "ResultSet/StreamingTopN.h"
#include "ResultSet/TopKAggAccessors.h"
#include "Shared/InlineNullValues.h"
#include "Shared/quantile.h"
#include "StringDictionary/StringDictionary.h"
#include "Utils/ChunkIter.h"

#include <deque>
#include <optional>
#include <thread>
#include <variant>

using namespace hdk::ir;
using QDT = QueryDescriptionType;
using pbt::Case;

namespace {
constexpr int64_t kEmpty64 = std::numeric_limits<int64_t>::max();
constexpr int32_t kEmpty32 = std::numeric_limits<int32_t>::max();

Context& cx() {
  return Context::defaultCtx();
}

struct Cell {
  bool null = false;
  int64_t i = 0;
  double d = 0;
  std::string s;                // text
  std::vector<Cell> arr;        // arrays
  std::set<int64_t> distinct;   // count distinct
  int64_t cnt = 0;              // avg
};

enum class K { INT, BOOL, FP, DEC, DT, DICT, TEXT, ARR, COUNT, SUM, MIN, MAX, AVG, DISTINCT, SAMPLE, QUANT, TOPK };

struct Tgt {
  K k;
  TargetInfo ti;
  const Type* vt = nullptr;  // type of the value (argument for aggregates)
  int64_t key = -1;          // group key this target repeats, through target_groupby_indices
  bool lazy = false;
  const Type* lazy_type = nullptr;  // stored type of the lazily fetched column
  std::vector<int> logical, padded;  // slot widths
};

TargetInfo plain(const Type* t) {
  return {false, AggType::kMin, t, nullptr, false, false, 0, false, 0, Interpolation::kLower};
}
TargetInfo agg(AggType a, const Type* t, const Type* arg, bool distinct = false) {
  return {true, a, t, arg, arg ? arg->nullable() : false, distinct, 0, false, 0, Interpolation::kLower};
}

int64_t nullOfWidth(int w) {
  return w == 1 ? std::numeric_limits<int8_t>::min()
                : w == 2 ? std::numeric_limits<int16_t>::min()
                         : w == 4 ? std::numeric_limits<int32_t>::min() : std::numeric_limits<int64_t>::min();
}
int64_t lo(int w) {
  return nullOfWidth(w) + 1;
}
int64_t hi(int w) {
  return w == 8 ? std::numeric_limits<int64_t>::max() : -(nullOfWidth(w) + 1);
}

const Type* scalarType(Case& c, bool nullable, bool small) {
  auto& s = c.s;
  switch (s.weighted({5, 1, 2, 2, 2, small ? 0u : 2u})) {
    case 0:
      return cx().integer(small ? s.pick({1, 2, 4}) : s.pick({1, 2, 4, 8}), nullable);
    case 1:
      return cx().boolean(nullable);
    case 2:
      return small ? cx().fp32(nullable) : s.pick({0, 1}) ? cx().fp64(nullable) : cx().fp32(nullable);
    case 3:
      return small ? cx().integer(s.pick({1, 2, 4}), nullable) : static_cast<const Type*>(cx().decimal(8, 18, s.range(0, 6), nullable));
    case 4:
      return cx().extDict(cx().text(nullable), s.pick({1, 2}), 4);
    default:
      switch (s.draw(3)) {
        case 0:
          return cx().timestamp(s.pick({TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano}), nullable);
        case 1:
          return cx().time64(TimeUnit::kSecond, nullable);
        case 2:
          return cx().date64(TimeUnit::kSecond, nullable);
        default:
          return cx().interval(8, TimeUnit::kMilli, nullable);
      }
  }
}

K kindOf(const Type* t) {
  if (t->isInteger()) {
    return K::INT;
  }
  if (t->isBoolean()) {
    return K::BOOL;
  }
  if (t->isFloatingPoint()) {
    return K::FP;
  }
  if (t->isDecimal()) {
    return K::DEC;
  }
  if (t->isExtDictionary()) {
    return K::DICT;
  }
  return K::DT;
}

struct Provider : DataProvider {
  std::map<int, DictDescriptor> d;
  std::shared_ptr<Chunk_NS::Chunk> getChunk(ColumnInfoPtr, const ChunkKey&, const Data_Namespace::MemoryLevel, const int, const size_t, const size_t) override {
    return nullptr;
  }
  std::unique_ptr<Data_Namespace::AbstractDataToken> getZeroCopyColumnData(const ::ColumnRef&) override { return nullptr; }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int, int) const override { return nullptr; }
  const DictDescriptor* getDictMetadata(int id, bool) const override {
    auto it = d.find(id);
    return it == d.end() ? nullptr : &it->second;
  }
};

struct World {
  Provider provider;
  std::vector<std::shared_ptr<StringDictionary>> dicts;
  std::vector<std::vector<std::string>> strs;
  std::shared_ptr<RowSetMemoryOwner> owner;
  std::deque<std::vector<int8_t>> bufs;
  std::deque<ChunkIter> iters;
  std::deque<hdk::quantile::Quantile> quants;
  int8_t* alloc(size_t n, int fill) {
    bufs.emplace_back(n + 16, static_cast<int8_t>(fill));
    return bufs.back().data();
  }
};

void initDicts(Case& c, World& w) {
  w.owner = std::make_shared<RowSetMemoryOwner>(&w.provider, 1 << 16);
  for (int d = 1; d <= 2; ++d) {
    auto dict = std::make_shared<StringDictionary>(DictRef{1, d}, false);
    std::vector<std::string> strs;
    size_t n = d * 3 + 1;
    for (size_t i = 0; i < n; ++i) {
      std::string v = "d" + std::to_string(d) + "_" + std::string(i % 5, 'x') + std::to_string(i);
      auto id = dict->getOrAdd(v);
      REQUIRE(id == static_cast<int>(i), "dictionary ids are not dense");
      strs.push_back(v);
    }
    w.dicts.push_back(dict);
    w.strs.push_back(strs);
    w.owner->addStringDict(dict, d, -1);
    DictDescriptor desc(1, d, "d", 32, false, 1, "", true);
    desc.stringDict = dict;
    w.provider.d.emplace(d, desc);
  }
}

Cell genVal(Case& c, const Type* t, World& w) {
  auto& s = c.s;
  Cell v;
  if (t->nullable() && s.chance(1, 5)) {
    v.null = true;
    return v;
  }
  switch (kindOf(t)) {
    case K::BOOL:
      v.i = s.draw(1);
      break;
    case K::FP:
      switch (s.weighted({4, 2, 1, 1})) {
        case 0:
          v.d = s.around(-50, 50) / 4.0;
          break;
        case 1:
          v.d = static_cast<double>(s.boundary(-(1ll << 24), 1ll << 24));
          break;
        case 2:
          v.d = s.pick({0.0, -0.0, 1e30, -1e30, 1e-30});
          break;
        default:
          v.d = s.pick({static_cast<double>(std::numeric_limits<float>::infinity()), -static_cast<double>(std::numeric_limits<float>::infinity())});
      }
      if (t->isFp32()) {
        v.d = static_cast<float>(v.d);
      }
      break;
    case K::DICT: {
      auto id = t->as<ExtDictionaryType>()->dictId();
      v.i = s.draw(w.strs[id - 1].size() - 1);
      break;
    }
    default:
      v.i = s.boundary(lo(t->size()), hi(t->size()) - 1);
  }
  return v;
}

Cell genText(Case& c) {
  Cell v;
  if (c.s.chance(1, 5)) {
    v.null = true;
  } else {
    v.s = gen::shortStr(c.s, c.s.chance(1, 6) ? 40 : 6, true);
  }
  return v;
}

Cell genArr(Case& c, const Type* t, World& w) {
  Cell v;
  if (t->nullable() && c.s.chance(1, 5)) {
    v.null = true;
    return v;
  }
  auto et = t->as<ArrayBaseType>()->elemType();
  for (auto n = c.s.weighted({2, 3, 2, 1, 1}); n; --n) {
    v.arr.push_back(genVal(c, et, w));
  }
  return v;
}

void putInt(int8_t* p, int64_t v, int width) {
  switch (width) {
    case 1:
      *p = static_cast<int8_t>(v);
      break;
    case 2: {
      auto x = static_cast<int16_t>(v);
      memcpy(p, &x, 2);
      break;
    }
    case 4: {
      auto x = static_cast<int32_t>(v);
      memcpy(p, &x, 4);
      break;
    }
    default:
      memcpy(p, &v, 8);
  }
}
void putF(int8_t* p, float f) {
  memcpy(p, &f, 4);
}
void putD(int8_t* p, double f) {
  memcpy(p, &f, 8);
}
int64_t rawInt(const Type* t, const Cell& v) {
  return v.null ? nullOfWidth(t->isBoolean() ? 1 : t->isExtDictionary() ? 4 : t->size()) : v.i;
}
double rawFp(const Type* t, const Cell& v) {
  return v.null ? (t->isFp32() ? static_cast<double>(std::numeric_limits<float>::min()) : std::numeric_limits<double>::min()) : v.d;
}
// One array element / plain column value in its natural width.
void putNatural(int8_t* p, const Type* t, const Cell& v) {
  if (t->isFloatingPoint()) {
    t->isFp32() ? putF(p, rawFp(t, v)) : putD(p, rawFp(t, v));
  } else {
    putInt(p, rawInt(t, v), t->size());
  }
}
std::vector<int8_t> arrBytes(const Type* t, const Cell& v) {
  auto et = t->as<ArrayBaseType>()->elemType();
  std::vector<int8_t> b(v.arr.size() * et->size());
  for (size_t i = 0; i < v.arr.size(); ++i) {
    putNatural(b.data() + i * et->size(), et, v.arr[i]);
  }
  return b;
}

struct Layout {
  QDT qt;
  bool columnar = false, keyless = false;
  int key_idx = 0;  // slot telling empty entries of a keyless layout
  size_t nkeys = 0;
  int key_width = 8;
  std::vector<int8_t> group_widths;
  std::vector<int64_t> tgi;
  std::string name;
};

struct Storage {
  size_t entries = 0;
  std::vector<std::optional<std::vector<Cell>>> rows;
  std::vector<std::vector<int64_t>> keys;
  // Lazily fetched columns: [fragment][column]
  std::vector<size_t> frag_rows;
  std::vector<std::vector<int64_t>> pos;  // [row][target] global position
  std::shared_ptr<ResultSet> rs;
};

size_t al8(size_t x) {
  return (x + 7) & ~size_t(7);
}

struct Slots {
  // Byte position of a slot (and of the keys) by the layout's definition.
  const Layout& l;
  const std::vector<Tgt>& t;
  size_t n;
  std::vector<int> widths;
  Slots(const Layout& l, const std::vector<Tgt>& t, size_t n) : l(l), t(t), n(n) {
    for (auto& x : t) {
      for (auto p : x.padded) {
        widths.push_back(p);
      }
    }
  }
  size_t rowBytes() const {
    size_t r = l.keyless ? 0 : al8(l.nkeys * l.key_width);
    for (auto x : widths) {
      r += x;
    }
    return r;
  }
  size_t total() const {
    if (!l.columnar) {
      return rowBytes() * n;
    }
    size_t r = l.keyless ? 0 : l.nkeys * 8 * n;
    for (auto x : widths) {
      r += al8(x * n);
    }
    return r;
  }
  size_t key(size_t e, size_t k) const { return l.columnar ? (k * n + e) * 8 : e * rowBytes() + k * l.key_width; }
  size_t slot(size_t e, size_t s) const {
    if (l.columnar) {
      size_t r = l.keyless ? 0 : l.nkeys * 8 * n;
      for (size_t i = 0; i < s; ++i) {
        r += al8(widths[i] * n);
      }
      return r + e * widths[s];
    }
    size_t r = e * rowBytes() + (l.keyless ? 0 : al8(l.nkeys * l.key_width));
    for (size_t i = 0; i < s; ++i) {
      r += widths[i];
    }
    return r;
  }
};

struct World2;

// What the value of a target must be when read.
struct Exp {
  bool translate, dec2dbl;
};

std::string showCell(const Cell& c) {
  if (c.null) {
    return "null";
  }
  std::ostringstream o;
  o << "i=" << c.i << " d=" << c.d << " s=" << c.s << " cnt=" << c.cnt << " arr=" << c.arr.size();
  return o.str();
}
std::string showScalar(const ScalarTargetValue& v) {
  std::ostringstream o;
  o.precision(17);
  if (auto i = boost::get<int64_t>(&v)) {
    o << "int " << *i;
  } else if (auto d = boost::get<double>(&v)) {
    o << "double " << *d;
  } else if (auto f = boost::get<float>(&v)) {
    o << "float " << *f;
  } else {
    auto& ns = boost::get<NullableString>(v);
    if (auto str = boost::get<std::string>(&ns)) {
      o << "str " << *str;
    } else {
      o << "nullstr";
    }
  }
  return o.str();
}
std::string showTv(const TargetValue& v) {
  if (auto s = boost::get<ScalarTargetValue>(&v)) {
    return showScalar(*s);
  }
  auto& a = boost::get<ArrayTargetValue>(v);
  if (!a) {
    return "null array";
  }
  std::string r = "[";
  for (auto& e : *a) {
    r += showScalar(e) + ",";
  }
  return r + "]";
}

bool sameD(double a, double b) {
  return a == b;
}

bool scalarMatches(const Type* t, const Cell& c, const ScalarTargetValue& v, const Exp& e, const World& w, int null_width) {
  switch (kindOf(t)) {
    case K::FP:
      if (t->isFp32()) {
        auto f = boost::get<float>(&v);
        return f && sameD(*f, rawFp(t, c));
      } else {
        auto d = boost::get<double>(&v);
        return d && sameD(*d, rawFp(t, c));
      }
    case K::DICT: {
      if (e.translate) {
        auto ns = boost::get<NullableString>(&v);
        if (!ns) {
          return false;
        }
        auto str = boost::get<std::string>(ns);
        if (c.null) {
          return !str;
        }
        return str && *str == w.strs[t->as<ExtDictionaryType>()->dictId() - 1][c.i];
      }
      auto i = boost::get<int64_t>(&v);
      return i && *i == rawInt(t, c);
    }
    case K::DEC:
      if (e.dec2dbl) {
        auto d = boost::get<double>(&v);
        if (!d) {
          return false;
        }
        if (c.null) {
          return *d == std::numeric_limits<double>::min();
        }
        double sc = 1;
        for (int k = t->as<DecimalType>()->scale(); k; --k) {
          sc *= 10;
        }
        return *d == static_cast<double>(c.i) / sc;
      }
      [[fallthrough]];
    default: {
      auto i = boost::get<int64_t>(&v);
      return i && *i == (c.null ? nullOfWidth(null_width) : c.i);
    }
  }
}

// The quantile of a cell's values: the value at the position rounded down or up.
Cell quantileOf(const Tgt& t, const Cell& c) {
  Cell r;
  if (c.arr.empty()) {
    r.null = true;
    return r;
  }
  auto v = c.arr;
  std::sort(v.begin(), v.end(), [](const Cell& a, const Cell& b) { return std::make_pair(a.i, a.d) < std::make_pair(b.i, b.d); });
  double pos = t.ti.quantile_param * static_cast<double>(v.size() - 1);
  return v[static_cast<size_t>(t.ti.interpolation == Interpolation::kLower ? std::floor(pos) : std::ceil(pos))];
}
std::vector<Cell> topOf(const Tgt& t, const Cell& c) {
  auto v = c.arr;
  std::sort(v.begin(), v.end(), [&](const Cell& a, const Cell& b) {
    auto x = std::make_pair(a.i, a.d), y = std::make_pair(b.i, b.d);
    return t.ti.topk_param > 0 ? y < x : x < y;
  });
  return v;
}

bool matches(const Tgt& t, const Cell& c, const TargetValue& v, const Exp& e, const World& w) {
  if (t.k == K::TOPK) {
    auto a = boost::get<ArrayTargetValue>(&v);
    auto want = topOf(t, c);
    if (!a || !*a || (*a)->size() != want.size()) {
      return false;
    }
    for (size_t i = 0; i < want.size(); ++i) {
      if (!scalarMatches(t.vt, want[i], (**a)[i], {false, false}, w, t.vt->size())) {
        return false;
      }
    }
    return true;
  }
  if (t.k == K::ARR) {
    auto a = boost::get<ArrayTargetValue>(&v);
    if (!a) {
      return false;
    }
    if (c.null) {
      return !*a;
    }
    if (!*a || (*a)->size() != c.arr.size()) {
      return false;
    }
    auto et = t.vt->as<ArrayBaseType>()->elemType();
    for (size_t i = 0; i < c.arr.size(); ++i) {
      if (!scalarMatches(et, c.arr[i], (**a)[i], {e.translate, false}, w, et->isBoolean() ? 1 : et->size())) {
        return false;
      }
    }
    return true;
  }
  auto s = boost::get<ScalarTargetValue>(&v);
  if (!s) {
    return false;
  }
  switch (t.k) {
    case K::TEXT: {
      auto ns = boost::get<NullableString>(s);
      if (!ns) {
        return false;
      }
      auto str = boost::get<std::string>(ns);
      return c.null ? !str : str && *str == c.s;
    }
    case K::QUANT:
      return scalarMatches(t.ti.type, quantileOf(t, c), *s, {false, false}, w, t.ti.type->size());
    case K::COUNT: {
      auto i = boost::get<int64_t>(s);
      return i && *i == c.i;
    }
    case K::DISTINCT: {
      auto i = boost::get<int64_t>(s);
      return i && *i == static_cast<int64_t>(c.distinct.size());
    }
    case K::AVG: {
      auto d = boost::get<double>(s);
      if (!d) {
        return false;
      }
      if (!c.cnt) {
        return *d == std::numeric_limits<double>::min();
      }
      double sum = t.vt->isFloatingPoint() ? c.d : static_cast<double>(c.i);
      double den = static_cast<double>(c.cnt);
      if (t.vt->isDecimal()) {
        for (int k = t.vt->as<DecimalType>()->scale(); k; --k) {
          den *= 10;
        }
      }
      return *d == sum / den;
    }
    default:
      return scalarMatches(t.ti.type, c, *s, e, w, t.ti.type->isBoolean() ? 1 : t.ti.type->isExtDictionary() ? 4 : t.ti.type->size());
  }
}

// Writes a cell into its slots.
void writeCell(const Tgt& t, const Cell& c, const Layout& l, int8_t* p1, int w1, int8_t* p2, int w2, World& w) {
  switch (t.k) {
    case K::TEXT: {
      int8_t* mem = w.alloc(c.s.size() + 1, 0x55);
      memcpy(mem, c.s.data(), c.s.size());
      putInt(p1, c.null ? 0 : reinterpret_cast<int64_t>(mem), 8);
      putInt(p2, c.null ? 0 : static_cast<int64_t>(c.s.size()), 8);
      return;
    }
    case K::ARR: {
      auto b = arrBytes(t.vt, c);
      int8_t* mem = w.alloc(b.size() + 1, 0x55);
      if (!b.empty()) {
        memcpy(mem, b.data(), b.size());
      }
      putInt(p1, c.null ? 0 : reinterpret_cast<int64_t>(mem), 8);
      putInt(p2, c.null ? 0 : static_cast<int64_t>(c.arr.size()), 8);
      return;
    }
    case K::COUNT:
      putInt(p1, c.i, w1);
      return;
    case K::QUANT: {
      if (c.null) {
        putInt(p1, 0, 8);
        return;
      }
      w.quants.emplace_back(w.owner.get());
      auto& q = w.quants.back();
      for (auto& v : c.arr) {
        if (t.vt->isFp32()) {
          q.add<float>(v.d);
        } else if (t.vt->isFp64()) {
          q.add<double>(v.d);
        } else if (t.vt->size() == 1) {
          q.add<int8_t>(v.i);
        } else if (t.vt->size() == 2) {
          q.add<int16_t>(v.i);
        } else if (t.vt->size() == 4) {
          q.add<int32_t>(v.i);
        } else {
          q.add<int64_t>(v.i);
        }
      }
      putInt(p1, reinterpret_cast<int64_t>(&q), 8);
      return;
    }
    case K::TOPK: {
      if (c.null) {
        putInt(p1, 0, 8);
        return;
      }
      size_t k = std::abs(t.ti.topk_param), sz = t.vt->size();
      int8_t* mem = w.alloc(std::max<size_t>(k * sz, 8), 0x55);
      Cell null;
      null.null = true;
      for (size_t i = 0; i < k; ++i) {
        putNatural(mem + i * sz, t.vt, i < c.arr.size() ? c.arr[i] : null);
      }
      if (t.ti.topk_inline_buffer) {
        memcpy(p1, mem, 8);
      } else {
        putInt(p1, reinterpret_cast<int64_t>(mem), 8);
      }
      return;
    }
    case K::DISTINCT: {
      // Bitmap of 256 values from 0, 32 bytes.
      int8_t* mem = w.alloc(32, 0);
      memset(mem, 0, 32);
      for (auto x : c.distinct) {
        mem[x >> 3] |= static_cast<int8_t>(1 << (x & 7));
      }
      putInt(p1, reinterpret_cast<int64_t>(mem), 8);
      return;
    }
    case K::AVG:
      if (t.vt->isFp32()) {
        putF(p1, static_cast<float>(c.d));
      } else if (t.vt->isFloatingPoint()) {
        putD(p1, c.d);
      } else {
        putInt(p1, c.i, 8);
      }
      putInt(p2, c.cnt, w2);
      return;
    default:
      if (t.ti.type->isFloatingPoint()) {
        bool is_float = t.ti.type->isFp32() && ((t.ti.is_agg && t.k != K::SAMPLE) || (l.columnar && l.qt == QDT::Projection));
        if (t.ti.type->isFp64() || !is_float) {
          putD(p1, rawFp(t.ti.type, c));
        } else {
          putF(p1, static_cast<float>(rawFp(t.ti.type, c)));
        }
      } else {
        putInt(p1, rawInt(t.ti.type, c), w1);
      }
  }
}
}  // namespace

FACET(rows) {
  auto& s = c.s;
  World w;
  initDicts(c, w);
  Layout l;
  switch (s.weighted({4, 4, 3, 3, 2, 2, 3, 3, 1, 1})) {
    case 0:
      l = {QDT::Projection, false};
      l.name = "projection rows";
      break;
    case 1:
      l = {QDT::Projection, true};
      l.name = "projection columns";
      break;
    case 2:
      l = {QDT::GroupByPerfectHash, false};
      l.name = "perfect hash rows";
      break;
    case 3:
      l = {QDT::GroupByPerfectHash, true};
      l.name = "perfect hash columns";
      break;
    case 4:
      l = {QDT::GroupByPerfectHash, false, true};
      l.name = "keyless rows";
      break;
    case 5:
      l = {QDT::GroupByPerfectHash, true, true};
      l.name = "keyless columns";
      break;
    case 6:
      l = {QDT::GroupByBaselineHash, false};
      l.name = "baseline rows";
      break;
    case 7:
      l = {QDT::GroupByBaselineHash, true};
      l.name = "baseline columns";
      break;
    case 8:
      l = {QDT::NonGroupedAggregate, false};
      l.name = "aggregate rows";
      break;
    default:
      l = {QDT::NonGroupedAggregate, true};
      l.name = "aggregate columns";
  }
  bool proj = l.qt == QDT::Projection, nga = l.qt == QDT::NonGroupedAggregate;
  l.nkeys = proj || l.keyless ? 1 : nga ? 0 : s.size(1, 3);
  if (l.qt == QDT::GroupByBaselineHash && !l.columnar && s.chance(1, 3)) {
    l.key_width = 4;
  }
  bool lazy = proj && s.chance(1, 3);
  bool columnar_lazy = lazy && l.columnar;
  // Targets.
  std::vector<Tgt> tg;
  size_t nt = s.size(1, 5);
  bool has_distinct = false, has_quant = false, finalize = !proj && s.chance(1, 2);
  for (size_t i = 0; i < nt; ++i) {
    Tgt t;
    bool nullable = s.chance(2, 3);
    bool key_target = l.qt == QDT::GroupByBaselineHash && s.chance(1, 3);
    bool aggregated = !proj && !key_target && (nga || s.chance(3, 4));
    if (key_target) {
      t.key = s.draw(l.nkeys - 1);
      auto ty = l.key_width == 4 ? (s.draw(1) ? cx().integer(s.pick({1, 2, 4}), true) : static_cast<const Type*>(cx().extDict(cx().text(true), 1, 4)))
                                 : (s.draw(2) ? cx().integer(s.pick({1, 2, 4, 8}), true) : static_cast<const Type*>(cx().extDict(cx().text(true), 1, 4)));
      t.vt = ty;
      t.k = kindOf(ty);
      t.ti = plain(ty);
      t.logical = {0};
      t.padded = {0};
      tg.push_back(t);
      continue;
    }
    if (!aggregated) {
      size_t kind = s.weighted({6, proj ? 1u : 0u, proj ? 1u : 0u});
      if (kind == 1) {
        t.k = K::TEXT;
        t.vt = cx().text(nullable);
        t.ti = plain(t.vt);
        t.logical = t.padded = {8, 8};
      } else if (kind == 2) {
        t.k = K::ARR;
        const Type* et = scalarType(c, true, false);
        while (!(et->isInteger() || et->isFloatingPoint() || et->isExtDictionary() || et->isBoolean())) {
          et = cx().int32();
        }
        t.vt = cx().arrayVarLen(et, 4, nullable);
        t.ti = plain(t.vt);
        t.logical = t.padded = {8, 8};
      } else {
        t.vt = scalarType(c, nullable, false);
        t.k = kindOf(t.vt);
        t.ti = plain(t.vt);
        int wd = t.vt->isExtDictionary() ? 4 : t.vt->size();
        t.logical = {wd};
        t.padded = {proj && l.columnar ? wd : 8};
      }
      if (lazy && s.chance(1, 2)) {
        t.lazy = true;
        t.lazy_type = t.vt;
        if (t.k == K::INT && s.chance(1, 3)) {
          t.lazy_type = t.vt;
        }
        if (columnar_lazy) {
          t.key = 0;
          t.logical = t.padded = t.k == K::TEXT || t.k == K::ARR ? std::vector<int>{8, 8} : std::vector<int>{0};
          if (t.k == K::TEXT || t.k == K::ARR) {
            t.key = -1;
          }
        } else {
          t.logical = t.padded = t.k == K::TEXT || t.k == K::ARR ? std::vector<int>{8, 8} : std::vector<int>{8};
        }
      }
      tg.push_back(t);
      continue;
    }
    switch (s.weighted({3, 3, 2, 2, 3, l.columnar ? 0u : 1u, nga ? 0u : 1u, 2, 2})) {
      case 7: {
        t.k = K::QUANT;
        t.vt = s.draw(2) ? cx().integer(s.pick({1, 2, 4, 8}), nullable) : s.draw(1) ? static_cast<const Type*>(cx().fp64(nullable)) : static_cast<const Type*>(cx().fp32(nullable));
        t.ti = agg(AggType::kQuantile, t.vt->withNullable(true), t.vt);
        t.ti.quantile_param = s.pick({0.5, 0.0, 0.25, 0.75, 1.0});
        t.ti.interpolation = s.draw(1) ? Interpolation::kHigher : Interpolation::kLower;
        has_quant = true;
        break;
      }
      case 8: {
        t.k = K::TOPK;
        t.vt = s.draw(2) ? cx().integer(s.pick({1, 2, 4, 8}), nullable) : s.draw(1) ? static_cast<const Type*>(cx().fp64(nullable)) : static_cast<const Type*>(cx().fp32(nullable));
        t.ti = agg(AggType::kTopK, cx().arrayVarLen(t.vt, 4, false), t.vt);
        t.ti.topk_param = static_cast<int>(s.range(1, 9)) * (s.draw(1) ? 1 : -1);
        t.ti.topk_inline_buffer = std::abs(t.ti.topk_param) * t.vt->size() <= 8;
        break;
      }
      case 0:
        t.k = K::COUNT;
        t.ti = agg(AggType::kCount, cx().integer(s.pick({4, 8}), false), nullptr);
        break;
      case 1: {
        t.k = K::SUM;
        const Type* a = s.draw(2) == 0 ? static_cast<const Type*>(cx().fp64(nullable)) : s.draw(2) == 0 ? static_cast<const Type*>(cx().fp32(nullable)) : s.draw(2) == 0 ? static_cast<const Type*>(cx().decimal(8, 18, 2, nullable)) : static_cast<const Type*>(cx().int64(nullable));
        t.vt = a;
        t.ti = agg(AggType::kSum, a, a);
        break;
      }
      case 2:
      case 3: {
        t.vt = scalarType(c, nullable, false);
        while (t.vt->isExtDictionary() || t.vt->isBoolean()) {
          t.vt = cx().int32(nullable);
        }
        t.k = s.draw(1) ? K::MAX : K::MIN;
        t.ti = agg(t.k == K::MAX ? AggType::kMax : AggType::kMin, t.vt, t.vt);
        break;
      }
      case 4: {
        t.k = K::AVG;
        t.vt = s.draw(2) == 0 ? static_cast<const Type*>(cx().fp64(nullable)) : s.draw(2) == 0 ? static_cast<const Type*>(cx().fp32(nullable)) : s.draw(1) ? static_cast<const Type*>(cx().decimal(8, 18, s.range(0, 4), nullable)) : static_cast<const Type*>(cx().integer(s.pick({1, 2, 4, 8}), nullable));
        t.ti = agg(AggType::kAvg, t.vt->isInteger() ? cx().int64(nullable) : t.vt, t.vt);
        t.logical = t.padded = {8, 8};
        break;
      }
      case 5:
        t.k = K::DISTINCT;
        t.vt = cx().int32(nullable);
        t.ti = agg(AggType::kCount, cx().int64(false), t.vt, true);
        has_distinct = true;
        break;
      default:
        t.k = K::SAMPLE;
        t.vt = scalarType(c, nullable, false);
        t.ti = agg(AggType::kSample, t.vt, t.vt);
    }
    if (t.logical.empty()) {
      t.logical = t.padded = {8};
    }
    tg.push_back(t);
  }
  if (l.keyless) {
    // The slot that tells empty entries apart: a count.
    Tgt t;
    t.k = K::COUNT;
    t.ti = agg(AggType::kCount, cx().int64(false), nullptr);
    t.logical = t.padded = {8};
    size_t at = s.draw(tg.size());
    tg.insert(tg.begin() + at, t);
    int slot = 0;
    for (size_t i = 0; i < at; ++i) {
      slot += tg[i].logical.size();
    }
    l.key_idx = slot;
  }
  bool uses_keys = false;
  for (auto& t : tg) {
    uses_keys |= t.key >= 0;
  }
  if (uses_keys) {
    for (auto& t : tg) {
      l.tgi.push_back(t.key);
    }
  }
  l.group_widths.assign(l.nkeys, 8);

  // Storages.
  size_t nst = (proj || l.qt == QDT::GroupByBaselineHash) && !s.chance(1, 2) ? s.size(1, 3) : 1;
  if (nga) {
    nst = 1;
  }
  std::vector<TargetInfo> tis;
  std::vector<ColumnLazyFetchInfo> lfi;
  ColSlotContext csc;
  CountDistinctDescriptors cdd;
  std::vector<int64_t> init;
  for (auto& t : tg) {
    tis.push_back(t.ti);
    std::vector<std::tuple<int8_t, int8_t>> sl;
    for (size_t i = 0; i < t.logical.size(); ++i) {
      sl.emplace_back(t.logical[i], t.padded[i]);
      init.push_back(0);
    }
    csc.addColumn(sl);
    CountDistinctDescriptor d{};
    d.impl_type_ = CountDistinctImplType::Invalid;
    if (t.k == K::DISTINCT) {
      d = CountDistinctDescriptor{CountDistinctImplType::Bitmap, 0, 256, false, ExecutorDeviceType::CPU, 1};
    }
    cdd.push_back(d);
    lfi.push_back({t.lazy, static_cast<int>(lfi.size()), t.lazy ? t.lazy_type : nullptr});
  }
  auto config = std::make_shared<Config>();
  std::vector<Storage> sts(nst);
  bool big = s.chance(1, 400);
  size_t total_rows = 0;
  for (size_t k = 0; k < nst; ++k) {
    auto& st = sts[k];
    st.entries = nga ? 1 : big && k == 0 ? s.size(20000, 20100) : s.size(1, s.chance(1, 8) ? 150 : 12);
    st.rows.resize(st.entries);
    st.keys.resize(st.entries);
    st.pos.resize(st.entries);
    size_t valid = proj ? s.size(0, st.entries) : 0;
    uint64_t fill_mode = s.draw(3);
    ColRangeInfo cri{l.qt, 0, static_cast<int64_t>(st.entries), 0, false};
    QueryMemoryDescriptor qmd(nullptr, config, {}, false, false, false, l.keyless, false, l.keyless ? l.key_idx : -1, cri, csc, l.group_widths,
                              static_cast<int8_t>(l.key_width == 4 ? 4 : 0), l.tgi, st.entries, cdd, false, l.columnar, false, false);
    REQUIRE(qmd.didOutputColumnar() == l.columnar || has_distinct, "columnar output was not honoured");
    auto fixed = ResultSet::fixupQueryMemoryDescriptor(qmd);
    Slots sl(l, tg, st.entries);
    REQUIRE(fixed.getBufferSizeBytes(ExecutorDeviceType::CPU) >= sl.total(),
            "the buffer of " << st.entries << " entries is sized " << fixed.getBufferSizeBytes(ExecutorDeviceType::CPU) << " instead of " << sl.total());
    // Fragments of the lazily fetched columns.
    auto cb = std::make_shared<ColBuffers>();
    auto fo = std::make_shared<FragOffsets>();
    auto fs = std::make_shared<FragSizes>();
    std::vector<std::vector<Cell>> lazy_cols(tg.size());
    size_t lazy_rows = 0;
    if (lazy) {
      size_t nf = s.size(1, 4);
      bool same = s.chance(1, 2);
      size_t fsz = s.size(1, 6);
      for (size_t f = 0; f < nf; ++f) {
        st.frag_rows.push_back(same ? (f + 1 == nf ? s.size(1, fsz) : fsz) : s.size(1, 6));
        lazy_rows += st.frag_rows.back();
      }
      bool cons = true;
      for (size_t f = 0; f + 1 < nf; ++f) {
        cons &= st.frag_rows[f] == st.frag_rows[0];
      }
      cons &= nf == 1 || st.frag_rows.back() <= st.frag_rows[0];
      size_t off = 0;
      for (size_t f = 0; f < nf; ++f) {
        cb->push_back({});
        fo->push_back({});
        for (size_t t = 0; t < tg.size(); ++t) {
          fo->back().push_back(off);
          if (!tg[t].lazy) {
            cb->back().push_back(nullptr);
            continue;
          }
          auto ty = tg[t].lazy_type;
          size_t n = st.frag_rows[f];
          if (tg[t].k == K::TEXT) {
            std::vector<int32_t> offs{0};
            std::string data;
            for (size_t r = 0; r < n; ++r) {
              auto v = genText(c);
              if (v.s.empty()) {
                v.null = true;  // stored strings of length zero are NULLs
              }
              data += v.s;
              offs.push_back(data.size());
              lazy_cols[t].push_back(v);
            }
            auto db = w.alloc(data.size() + 1, 0);
            memcpy(db, data.data(), data.size());
            auto ob = w.alloc(offs.size() * 4, 0);
            memcpy(ob, offs.data(), offs.size() * 4);
            ChunkIter it{};
            it.type_id = ty->id();
            it.type_size = ty->size();
            it.type_nullable = ty->nullable();
            it.second_buf = db;
            it.current_pos = it.start_pos = ob;
            it.end_pos = ob + n * 4;
            it.skip = 1;
            it.skip_size = 0;
            it.num_elems = n;
            w.iters.push_back(it);
            cb->back().push_back(reinterpret_cast<int8_t*>(&w.iters.back()));
          } else if (tg[t].k == K::ARR) {
            std::vector<int32_t> offs{0};
            std::vector<int8_t> data(8, 0);
            offs[0] = 8;
            for (size_t r = 0; r < n; ++r) {
              auto v = genArr(c, ty, w);
              auto b = arrBytes(ty, v);
              data.insert(data.end(), b.begin(), b.end());
              offs.push_back(v.null ? -static_cast<int32_t>(data.size()) : static_cast<int32_t>(data.size()));
              lazy_cols[t].push_back(v);
            }
            auto db = w.alloc(data.size() + 1, 0);
            memcpy(db, data.data(), data.size());
            auto ob = w.alloc(offs.size() * 4, 0);
            memcpy(ob, offs.data(), offs.size() * 4);
            ChunkIter it{};
            it.type_id = ty->id();
            it.type_size = ty->size();
            it.type_nullable = ty->nullable();
            auto et = ty->as<ArrayBaseType>()->elemType();
            it.elem_type_id = et->id();
            it.elem_type_size = et->size();
            it.second_buf = db;
            it.current_pos = it.start_pos = ob;
            it.end_pos = ob + n * 4;
            it.skip = 1;
            it.skip_size = 0;
            it.num_elems = n;
            w.iters.push_back(it);
            cb->back().push_back(reinterpret_cast<int8_t*>(&w.iters.back()));
          } else {
            auto b = w.alloc(n * ty->size(), 0);
            for (size_t r = 0; r < n; ++r) {
              auto v = genVal(c, ty, w);
              putNatural(b + r * ty->size(), ty, v);
              lazy_cols[t].push_back(v);
            }
            cb->back().push_back(b);
          }
        }
        off += st.frag_rows[f];
      }
      for (size_t t = 0; t < tg.size(); ++t) {
        fs->push_back(cons ? static_cast<int64_t>(st.frag_rows[0]) : -1);
      }
      c.label(cons ? "lazy, even fragments" : "lazy, uneven fragments");
    }
    int8_t* buf = w.alloc(std::max(sl.total(), fixed.getBufferSizeBytes(ExecutorDeviceType::CPU)), static_cast<int>(s.draw(255)));
    int64_t next_key = s.range(0, 5);
    for (size_t e = 0; e < st.entries; ++e) {
      bool ok = nga ? true : proj ? e < valid : big ? (e * 7 + fill_mode) % 3 != 0 : fill_mode == 0 ? true : fill_mode == 1 ? false : s.draw(1);
      // Keys.
      if (!l.keyless) {
        for (size_t k2 = 0; k2 < l.nkeys; ++k2) {
          int64_t kv = ok ? (proj ? static_cast<int64_t>(e) : next_key++) : l.key_width == 4 ? static_cast<int64_t>(kEmpty32) : kEmpty64;
          st.keys[e].push_back(kv);
        }
      }
      size_t slot = 0;
      if (ok) {
        ++total_rows;
        st.rows[e].emplace();
        st.pos[e].resize(tg.size());
        int64_t lpos = lazy ? s.draw(lazy_rows - 1) : 0;
        for (size_t t = 0; t < tg.size(); ++t) {
          auto& x = tg[t];
          int8_t* p1 = buf + sl.slot(e, slot);
          int8_t* p2 = x.padded.size() > 1 ? buf + sl.slot(e, slot + 1) : nullptr;
          Cell v;
          if (x.lazy) {
            int64_t p = x.key >= 0 ? lpos : s.draw(lazy_rows - 1);
            v = lazy_cols[t][p];
            st.pos[e][t] = p;
            if (x.key >= 0) {
              st.keys[e][0] = p;
            } else {
              putInt(p1, p, 8);
              if (p2) {
                putInt(p2, 0, 8);
              }
            }
          } else if (x.key >= 0) {
            // Key columns: all the targets of one key share a value.
            bool found = false;
            for (size_t t2 = 0; t2 < t; ++t2) {
              if (tg[t2].key == x.key) {
                found = true;
                auto& o = (*st.rows[e])[t2];
                v = o;
              }
            }
            if (!found) {
              v = genVal(c, x.vt, w);
              st.keys[e][x.key] = rawInt(x.vt, v);
            } else if (tg[t].vt != tg[t].vt) {
              throw pbt::Discard{};
            }
          } else {
            if (x.k == K::TEXT) {
              v = genText(c);
            } else if (x.k == K::ARR) {
              v = genArr(c, x.vt, w);
            } else if (x.k == K::COUNT) {
              v.i = l.keyless && slot == static_cast<size_t>(l.key_idx) ? s.range(1, 100) : s.range(0, 100);
            } else if (x.k == K::QUANT || x.k == K::TOPK) {
              v.null = x.k == K::QUANT ? !finalize && s.chance(1, 8) : !x.ti.topk_inline_buffer && s.chance(1, 8);
              if (!v.null) {
                for (auto n = x.k == K::QUANT ? s.size(0, 7) : s.size(0, std::abs(x.ti.topk_param)); n; --n) {
                  v.arr.push_back(genVal(c, x.vt->withNullable(false), w));
                }
              }
            } else if (x.k == K::DISTINCT) {
              for (auto n = s.size(0, 6); n; --n) {
                v.distinct.insert(s.draw(255));
              }
            } else if (x.k == K::AVG) {
              v = genVal(c, x.vt->isInteger() ? cx().int64(false) : x.vt->withNullable(false), w);
              v.cnt = s.chance(1, 4) ? 0 : s.range(1, 1000);
            } else {
              v = genVal(c, x.ti.type, w);
            }
            writeCell(x, v, l, p1, x.padded[0], p2, p2 ? x.padded[1] : 0, w);
          }
          st.rows[e]->push_back(v);
          slot += x.padded.size();
        }
      } else if (l.keyless) {
        putInt(buf + sl.slot(e, l.key_idx), 0, 8);
      }
      if (!l.keyless) {
        for (size_t k2 = 0; k2 < l.nkeys; ++k2) {
          putInt(buf + sl.key(e, k2), st.keys[e][k2], l.columnar ? 8 : l.key_width);
        }
      }
    }
    if (lazy) {
      st.rs = std::make_shared<ResultSet>(tis, lfi, cb, fo, fs, ExecutorDeviceType::CPU, 0, fixed, w.owner, nullptr, 0, 0);
    } else {
      st.rs = std::make_shared<ResultSet>(tis, ExecutorDeviceType::CPU, fixed, w.owner, nullptr, 0, 0);
    }
    st.rs->allocateStorage(buf, init);
  }
  // Key targets of one key must have the same type, or the shared value would not fit.
  for (size_t a = 0; a < tg.size(); ++a) {
    for (size_t b = 0; b < a; ++b) {
      if (!tg[a].lazy && tg[a].key >= 0 && tg[a].key == tg[b].key && tg[a].vt != tg[b].vt) {
        throw pbt::Discard{};
      }
    }
  }
  auto& rs = *sts[0].rs;
  for (size_t k = 1; k < nst; ++k) {
    if (s.draw(1)) {
      rs.rowCount();
    }
    rs.append(*sts[k].rs);
  }
  // Everything in entry order.
  std::vector<std::pair<size_t, size_t>> ent;  // entry -> storage, local
  for (size_t k = 0; k < nst; ++k) {
    for (size_t e = 0; e < sts[k].entries; ++e) {
      ent.emplace_back(k, e);
    }
  }
  auto rowOf = [&](size_t e) -> std::optional<std::vector<Cell>>& { return sts[ent[e].first].rows[ent[e].second]; };
  std::vector<size_t> order;  // entries with rows, in result order
  for (size_t e = 0; e < ent.size(); ++e) {
    if (rowOf(e)) {
      order.push_back(e);
    }
  }
  REQUIRE(rs.entryCount() == ent.size(), "entryCount is " << rs.entryCount() << ", not " << ent.size());
  bool permuted = false;
  if (!big && s.chance(1, 4) && !order.empty()) {
    permuted = true;
    for (size_t i = order.size(); i > 1; --i) {
      std::swap(order[i - 1], order[s.draw(i - 1)]);
    }
    size_t keep = s.chance(1, 3) ? s.size(1, order.size()) : order.size();
    order.resize(keep);
    rs.setPermutationBuffer(Permutation(order.begin(), order.end()));
    rs.invalidateCachedRowCount();
    REQUIRE(rs.entryCount() == order.size(), "entryCount of a sorted result");
  }
  size_t limit = 0, offset = 0;
  if (s.chance(1, 2)) {
    limit = s.draw(1) ? s.size(0, order.size() + 2) : 0;
    offset = s.draw(1) ? s.size(0, order.size() + 2) : 0;
    rs.keepFirstN(limit);
    rs.dropFirstN(offset);
  }
  if (finalize && !permuted) {
    rs.finalizeAggregates();
    if (has_quant) {
      c.label("finalized");
    }
  }
  std::vector<size_t> exp;
  for (size_t i = offset; i < order.size(); ++i) {
    if (!limit || exp.size() < limit) {
      exp.push_back(order[i]);
    }
  }
  c.label(l.name);
  if (nst > 1) {
    c.label("appended");
  }
  if (permuted) {
    c.label("sorted");
  }
  if (limit || offset) {
    c.label("limit or offset");
  }
  if (lazy) {
    c.label("lazily fetched");
  }
  if (exp.size() > 1 && tg.size() > 1) {
    c.nontrivial();
  }
  c.describe([&](std::ostream& o) {
    o << l.name << ", " << nst << " storages, " << ent.size() << " entries, " << order.size() << " rows, limit " << limit << " offset " << offset << ", keys " << l.nkeys << "x" << l.key_width << ", targets:";
    for (auto& t : tg) {
      o << " " << t.ti.toString() << (t.lazy ? " lazy" : "") << " key " << t.key << ";";
    }
  });
  // Counts.
  bool par = s.draw(1);
  REQUIRE(rs.rowCount(par) == exp.size(), l.name << ": rowCount is " << rs.rowCount() << ", not " << exp.size() << " (parallel " << par << ")");
  REQUIRE(rs.isEmpty() == exp.empty(), "isEmpty");
  rs.invalidateCachedRowCount();
  REQUIRE(rs.rowCount(!par) == exp.size(), l.name << ": rowCount is " << rs.rowCount() << ", not " << exp.size() << " (parallel " << !par << ")");
  REQUIRE(!rs.definitelyHasNoRows() || exp.empty(), "definitelyHasNoRows");
  REQUIRE(rs.colCount() == tg.size(), "colCount");

  auto same = [&](const std::vector<TargetValue>& row, size_t e, Exp ex, const char* how) {
    auto& want = *rowOf(e);
    REQUIRE(row.size() == tg.size(), how << ": a row of " << row.size() << " values instead of " << tg.size());
    for (size_t t = 0; t < tg.size(); ++t) {
      REQUIRE(matches(tg[t], want[t], row[t], ex, w), l.name << ", " << how << ": entry " << e << " target " << t << " (" << tg[t].ti.toString() << (tg[t].lazy ? ", lazy" : "") << ") reads " << showTv(row[t]) << " but was written " << showCell(want[t]));
    }
  };
  Exp ex{static_cast<bool>(s.draw(1)), static_cast<bool>(s.draw(1))};
  // Iteration, twice.
  for (int pass = 0; pass < 2; ++pass) {
    rs.moveToBegin();
    for (size_t i = 0; i < exp.size(); ++i) {
      auto row = rs.getNextRow(ex.translate, ex.dec2dbl);
      REQUIRE(!row.empty(), l.name << ": iteration stops after " << i << " of " << exp.size() << " rows");
      same(row, exp[i], ex, "getNextRow");
      if (big && i > 50) {
        break;
      }
    }
    if (!big) {
      REQUIRE(rs.getNextRow(ex.translate, ex.dec2dbl).empty(), l.name << ": iteration goes on after " << exp.size() << " rows");
      REQUIRE(rs.getNextRow(ex.translate, ex.dec2dbl).empty(), "iteration restarts after its end");
    }
  }
  {
    size_t from = s.size(0, exp.size());
    if (big) {
      from = std::min<size_t>(from, 30);
    }
    auto it = rs.rowIterator(from, ex.translate, ex.dec2dbl);
    for (size_t i = from; i < exp.size(); ++i) {
      REQUIRE(it.isValid(), l.name << ": the row iterator from " << from << " stops at row " << i << " of " << exp.size());
      same(*it, exp[i], ex, "rowIterator");
      ++it;
      if (big && i > from + 50) {
        break;
      }
    }
    if (!big) {
      REQUIRE(!it.isValid(), "the row iterator goes on after the last row");
    }
  }
  if (!exp.empty()) {
    size_t i = s.draw(std::min<size_t>(exp.size() - 1, 200));
    same(rs.getRowAt(i, ex.translate, ex.dec2dbl), exp[i], ex, "getRowAt(row)");
    size_t col = s.draw(tg.size() - 1);
    auto v = rs.getRowAt(i, col, ex.translate, ex.dec2dbl);
    REQUIRE(matches(tg[col], (*rowOf(exp[i]))[col], v, ex, w), "getRowAt(row, column) differs");
  }
  // Random access by entry (position in the sorted order when sorted).
  size_t n = rs.entryCount();
  std::vector<bool> skip(tg.size());
  for (size_t t = 0; t < tg.size(); ++t) {
    skip[t] = s.draw(1);
  }
  for (size_t q = 0; q < n && q < 60; ++q) {
    size_t e = permuted ? order[q] : big ? s.draw(n - 1) : q;
    size_t idx = permuted ? q : e;
    REQUIRE(rs.isRowAtEmpty(idx) == !rowOf(e), l.name << ": isRowAtEmpty(" << idx << ") is " << rs.isRowAtEmpty(idx));
    auto row = rs.getRowAt(idx);
    REQUIRE(row.empty() == !rowOf(e), "getRowAt(entry) of a missing entry");
    auto raw = rs.getRowAtNoTranslations(idx);
    auto part = rs.getRowAtNoTranslations(idx, skip);
    if (rowOf(e)) {
      same(row, e, {true, false}, "getRowAt(entry)");
      same(raw, e, {false, false}, "getRowAtNoTranslations");
      for (size_t t = 0; t < tg.size(); ++t) {
        REQUIRE(skip[t] || matches(tg[t], (*rowOf(e))[t], part[t], {false, false}, w), "getRowAtNoTranslations with skipped targets, target " << t << " reads " << showTv(part[t]));
      }
      if (!l.columnar && !permuted && (tg[0].k == K::INT || tg[0].k == K::COUNT)) {
        auto one = rs.getOneColRow(e);
        REQUIRE(one.valid && matches(tg[0], (*rowOf(e))[0], TargetValue(one.value), {false, false}, w), "getOneColRow reads " << one.value);
      }
    } else if (!l.columnar && (tg[0].k == K::INT || tg[0].k == K::COUNT)) {
      REQUIRE(!rs.getOneColRow(e).valid, "getOneColRow of an empty entry");
    }
  }
  REQUIRE(rs.getRowAt(n).empty() && rs.isRowAtEmpty(n) && rs.getRowAtNoTranslations(n).empty(), "an entry past the end is not empty");
  // Values for sorting.
  {
    ResultSet::RowWiseTargetAccessor* rw = nullptr;
    ResultSet::ColumnWiseTargetAccessor* cw = nullptr;
    std::unique_ptr<ResultSet::RowWiseTargetAccessor> rwo;
    std::unique_ptr<ResultSet::ColumnWiseTargetAccessor> cwo;
    if (l.columnar) {
      cwo = std::make_unique<ResultSet::ColumnWiseTargetAccessor>(&rs);
      cw = cwo.get();
    } else {
      rwo = std::make_unique<ResultSet::RowWiseTargetAccessor>(&rs);
      rw = rwo.get();
    }
    for (size_t q = 0; q < ent.size() && q < 40; ++q) {
      if (!rowOf(q)) {
        continue;
      }
      auto st = rs.findStorage(q);
      REQUIRE(st.storage_idx == ent[q].first && st.fixedup_entry_idx == ent[q].second, "findStorage");
      for (size_t t = 0; t < tg.size(); ++t) {
        auto& x = tg[t];
        if (x.k == K::ARR || x.k == K::DISTINCT || x.k == K::SAMPLE || x.k == K::TOPK) {
          continue;
        }
        auto v = (*rowOf(q))[t];
        if (x.k == K::QUANT) {
          v = quantileOf(x, v);
        }
        if (x.k == K::TEXT && v.null && !x.lazy) {
          continue;
        }
        auto buff = st.storage_ptr->getUnderlyingBuffer();
        auto iv = rw ? rw->getColumnInternal(buff, st.fixedup_entry_idx, t, st) : cw->getColumnInternal(buff, st.fixedup_entry_idx, t, st);
        std::string where = l.name + ", sort value of target " + std::to_string(t) + " (" + x.ti.toString() + (x.lazy ? ", lazy" : "") + ")";
        if (x.k == K::AVG) {
          REQUIRE(iv.isPair() && iv.i2 == v.cnt, where << " has count " << iv.i2);
        } else if (x.k == K::TEXT) {
          REQUIRE(iv.isStr(), where << " is not a string");
          auto str = reinterpret_cast<const std::string*>(iv.i1);
          REQUIRE(v.null ? !str : str && *str == v.s, where << " of entry " << q << " is " << (str ? *str : "NULL") << " instead of " << showCell(v));
        } else if (x.ti.type->isFloatingPoint()) {
          REQUIRE(iv.isInt(), where);
          double d;
          bool fl = x.ti.type->isFp32() && (x.lazy ? false : (x.ti.is_agg || (l.columnar && proj)));
          if (fl) {
            float f;
            auto i32 = static_cast<int32_t>(iv.i1);
            memcpy(&f, &i32, 4);
            d = f;
          } else {
            memcpy(&d, &iv.i1, 8);
          }
          REQUIRE(sameD(d, rawFp(x.ti.type, v)), where << " of entry " << q << " is " << d << " instead of " << showCell(v));
        } else {
          int64_t want = x.k == K::COUNT ? v.i : rawInt(x.ti.type, v);
          REQUIRE(iv.isInt() && iv.i1 == want, where << " of entry " << q << " is " << iv.i1 << " instead of " << want);
        }
      }
    }
  }
  // Columns as buffers.
  if (!permuted && proj && l.columnar) {
    for (size_t t = 0; t < tg.size(); ++t) {
      auto& x = tg[t];
      bool can = x.k != K::TEXT && x.k != K::ARR && !x.lazy;
      REQUIRE(rs.isChunkedZeroCopyColumnarConversionPossible(t) == can, "isChunkedZeroCopyColumnarConversionPossible");
      REQUIRE(rs.isZeroCopyColumnarConversionPossible(t) == (can && nst == 1), "isZeroCopyColumnarConversionPossible");
      if (!can) {
        continue;
      }
      int wd = x.padded[0];
      auto readBack = [&](const int8_t* p) {
        Cell v;
        auto ty = x.ti.type;
        if (ty->isFp32()) {
          float f;
          memcpy(&f, p, 4);
          v.d = f;
        } else if (ty->isFp64()) {
          memcpy(&v.d, p, 8);
        } else {
          v.i = wd == 1 ? *p : wd == 2 ? *reinterpret_cast<const int16_t*>(p) : wd == 4 ? *reinterpret_cast<const int32_t*>(p) : *reinterpret_cast<const int64_t*>(p);
        }
        return v;
      };
      auto agree = [&](const int8_t* p, size_t i, const char* how) {
        auto v = readBack(p);
        auto& want = (*rowOf(exp[i]))[t];
        bool ok = x.ti.type->isFloatingPoint() ? sameD(v.d, rawFp(x.ti.type, want)) : v.i == rawInt(x.ti.type, want);
        REQUIRE(ok, how << ": row " << i << " of column " << t << " is " << showCell(v) << " instead of " << showCell(want));
      };
      std::vector<int8_t> out(exp.size() * wd + 8, 0x77);
      rs.copyColumnIntoBuffer(t, out.data(), exp.size() * wd);
      for (size_t i = 0; i < exp.size(); ++i) {
        agree(out.data() + i * wd, i, "copyColumnIntoBuffer");
      }
      auto chunks = rs.getChunkedColumnarBuffer(t);
      size_t i = 0;
      for (auto& ch : chunks) {
        for (size_t r = 0; r < ch.second; ++r, ++i) {
          REQUIRE(i < exp.size(), "getChunkedColumnarBuffer has more rows than the result");
          agree(ch.first + r * wd, i, "getChunkedColumnarBuffer");
        }
      }
      REQUIRE(i == exp.size(), "getChunkedColumnarBuffer has " << i << " rows instead of " << exp.size());
      if (nst == 1) {
        auto p = rs.getColumnarBuffer(t);
        for (size_t r = 0; r < exp.size(); ++r) {
          agree(p + (r + offset) * wd, r, "getColumnarBuffer");
        }
      }
    }
  }
  // Lengths of strings and arrays.
  if (proj) {
    for (size_t t = 0; t < tg.size(); ++t) {
      auto& x = tg[t];
      if (x.k != K::TEXT && x.k != K::ARR) {
        continue;
      }
      std::vector<int32_t> offs(exp.size() + 2, 0x7777);
      size_t written = rs.computeVarLenOffsets(t, offs.data());
      REQUIRE(written == exp.size() + 1, "computeVarLenOffsets wrote " << written << " offsets for " << exp.size() << " rows");
      int64_t at = 0;
      REQUIRE(offs[0] == 0, "the first offset is " << offs[0]);
      for (size_t i = 0; i < exp.size(); ++i) {
        auto& v = (*rowOf(exp[i]))[t];
        size_t len = v.null ? 0 : x.k == K::TEXT ? v.s.size() : v.arr.size() * x.vt->as<ArrayBaseType>()->elemType()->size();
        at += len;
        int64_t want = v.null && x.k == K::ARR ? -at : at;
        REQUIRE(offs[i + 1] == want, "the offset after row " << i << " of column " << t << (x.lazy ? " (lazy)" : "") << " is " << offs[i + 1] << " instead of " << want);
      }
    }
  }
  // Direct access to entries of group-by results.
  if (!proj && !nga && nst == 1) {
    size_t slot = 0;
    for (size_t t = 0; t < tg.size(); ++t) {
      auto& x = tg[t];
      if (x.k != K::AVG && x.k != K::DISTINCT && x.k != K::QUANT && x.k != K::TOPK && !(x.k == K::SAMPLE) && (l.qt == QDT::GroupByPerfectHash || uses_keys)) {
        for (size_t e = 0; e < ent.size() && e < 20; ++e) {
          if (!rowOf(e)) {
            continue;
          }
          auto& v = (*rowOf(e))[t];
          bool fp = x.ti.type->isFloatingPoint(), f32 = fp && x.ti.type->isFp32() && x.ti.is_agg;
          auto get = [&](auto tag) {
            using T = decltype(tag);
            return l.qt == QDT::GroupByPerfectHash ? (l.columnar ? rs.getEntryAt<T, QDT::GroupByPerfectHash, true>(e, t, slot) : rs.getEntryAt<T, QDT::GroupByPerfectHash, false>(e, t, slot))
                                                   : (l.columnar ? rs.getEntryAt<T, QDT::GroupByBaselineHash, true>(e, t, slot) : rs.getEntryAt<T, QDT::GroupByBaselineHash, false>(e, t, slot));
          };
          if (f32) {
            if (!l.columnar) {
              REQUIRE(get(0.0f) == static_cast<float>(rawFp(x.ti.type, v)), "getEntryAt of a float");
            }
          } else if (fp) {
            REQUIRE(get(0.0) == rawFp(x.ti.type, v), "getEntryAt of a double");
          } else if (l.key_width == 4 && x.key >= 0) {
            REQUIRE(get(int32_t(0)) == rawInt(x.ti.type, v), "getEntryAt of a 4 byte key");
          } else {
            int64_t want = x.k == K::COUNT ? v.i : rawInt(x.ti.type, v);
            REQUIRE(get(int64_t(0)) == want, l.name << ": getEntryAt of entry " << e << " target " << t << " is " << get(int64_t(0)) << " instead of " << want);
          }
        }
      }
      slot += x.padded.size();
    }
  }
  // The distinct strings of a column.
  if (!limit && !offset) {
    for (size_t t = 0; t < tg.size(); ++t) {
      if (tg[t].k == K::DICT && !big) {
        std::set<int32_t> want;
        for (auto e : exp) {
          auto& v = (*rowOf(e))[t];
          if (!v.null) {
            want.insert(v.i);
          }
        }
        auto got = rs.getUniqueStringsForDictEncodedTargetCol(t);
        std::set<int32_t> ids(got.first.begin(), got.first.end());
        REQUIRE(ids == want && got.first.size() == ids.size() && got.second.size() == ids.size(), "the distinct strings of column " << t << " are wrong: " << ids.size() << " instead of " << want.size());
        for (size_t i = 0; i < got.first.size(); ++i) {
          REQUIRE(got.second[i] == w.strs[tg[t].vt->as<ExtDictionaryType>()->dictId() - 1][got.first[i]], "a distinct string is wrong");
        }
      }
    }
  }
  // Printing.
  if (!big && nst < 3) {
    auto txt = rs.contentToString(false);
    size_t lines = 0;
    bool strs = false;
    for (auto& t : tg) {
      strs |= t.k == K::TEXT;
    }
    for (auto ch : txt) {
      lines += ch == '\n';
    }
    REQUIRE(strs || lines == exp.size(), "the printed result has " << lines << " lines instead of " << exp.size());
  }
  auto copy = rs.shallowCopy();
  REQUIRE(copy->rowCount() == exp.size(), "a shallow copy has " << copy->rowCount() << " rows");
  for (size_t i = 0; i < exp.size() && i < 20; ++i) {
    same(copy->getNextRow(ex.translate, ex.dec2dbl), exp[i], ex, "getNextRow of a shallow copy");
  }
}


namespace {
uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
template <typename R>
void hllAdd(std::vector<R>& regs, int b, uint64_t hash) {
  uint64_t index = hash >> (64 - b), rest = hash << b;
  int rank = 1;
  while (rank <= 64 - b && !(rest >> 63)) {
    rest <<= 1;
    ++rank;
  }
  regs[index] = std::max<R>(regs[index], static_cast<R>(std::min(rank, 64 - b + 1)));
}

// Sets of distinct values kept as bitmaps (possibly several to be combined) or hash sets.
void checkSets(Case& c) {
  auto& s = c.s;
  bool hash = s.chance(1, 4);
  size_t sets = s.size(1, 4);
  int64_t bits = s.size(1, s.draw(1) ? 70 : 3000);
  CountDistinctDescriptor d{hash ? CountDistinctImplType::HashSet : CountDistinctImplType::Bitmap, 0, bits, false, s.draw(1) ? ExecutorDeviceType::GPU : ExecutorDeviceType::CPU,
                            s.draw(1) ? 1 : static_cast<size_t>(s.range(2, 5))};
  std::vector<std::set<int64_t>> vals(sets);
  std::vector<std::vector<int8_t>> maps(sets);
  std::vector<robin_hood::unordered_set<int64_t>> hs(sets);
  std::vector<int64_t> handle(sets);
  if (!hash) {
    REQUIRE(static_cast<int64_t>(d.bitmapSizeBytes()) * 8 >= bits && static_cast<int64_t>(d.bitmapSizeBytes()) * 8 < bits + 8, "a bitmap of " << bits << " bits has " << d.bitmapSizeBytes() << " bytes");
    REQUIRE(d.bitmapPaddedSizeBytes() >= d.bitmapSizeBytes() * d.sub_bitmap_count && d.bitmapPaddedSizeBytes() % d.sub_bitmap_count == 0, "the padded size of " << d.sub_bitmap_count << " bitmaps of " << bits << " bits is " << d.bitmapPaddedSizeBytes());
  }
  for (size_t i = 0; i < sets; ++i) {
    if (hash) {
      handle[i] = reinterpret_cast<int64_t>(&hs[i]);
    } else {
      maps[i].assign(d.bitmapPaddedSizeBytes() + 8, 0);
      memset(maps[i].data() + d.bitmapPaddedSizeBytes(), 0x5a, 8);
      handle[i] = reinterpret_cast<int64_t>(maps[i].data());
    }
    for (size_t n = s.chance(1, 6) ? 0 : s.size(0, 40); n; --n) {
      int64_t v = hash ? s.boundary(std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()) : s.draw(3) ? s.range(0, bits - 1) : s.draw(1) ? bits - 1 : 0;
      vals[i].insert(v);
      if (hash) {
        hs[i].insert(v);
      } else {
        size_t sub = s.draw(d.sub_bitmap_count - 1);
        maps[i][sub * (d.bitmapPaddedSizeBytes() / d.sub_bitmap_count) + (v >> 3)] |= static_cast<int8_t>(1 << (v & 7));
      }
    }
  }
  c.label(hash ? "hash set" : d.sub_bitmap_count > 1 ? "several bitmaps" : "bitmap");
  size_t ops = s.size(1, 8);
  std::ostringstream trace;
  for (size_t o = 0; o < ops; ++o) {
    size_t a = s.draw(sets - 1), b = s.draw(sets - 1);
    if (s.draw(1) && a != b) {
      count_distinct_set_union(handle[a], handle[b], d, d);
      vals[a].insert(vals[b].begin(), vals[b].end());
      trace << " " << a << "+=" << b;
    } else {
      auto got = count_distinct_set_size(handle[a], d);
      trace << " |" << a << "|=" << got;
      REQUIRE(got == static_cast<int64_t>(vals[a].size()), "after" << trace.str() << ": the size of set " << a << " is " << got << " instead of " << vals[a].size());
    }
  }
  for (size_t i = 0; i < sets; ++i) {
    auto got = count_distinct_set_size(handle[i], d);
    REQUIRE(got == static_cast<int64_t>(vals[i].size()), "after" << trace.str() << ": the size of set " << i << " is " << got << " instead of " << vals[i].size());
    if (!hash) {
      for (int k = 0; k < 8; ++k) {
        REQUIRE(maps[i][d.bitmapPaddedSizeBytes() + k] == 0x5a, "memory behind a bitmap was written");
      }
    }
  }
  REQUIRE(count_distinct_set_size(0, d) == 0, "the size of no set");
  c.nontrivial(sets > 1 && ops > 1);
  c.describe([&](std::ostream& o) { o << (hash ? "hash sets" : "bitmaps of ") << bits << " bits x" << d.sub_bitmap_count << ":" << trace.str(); });
}

// Approximate counts: the sketch's estimate averaged over many independent sets is near the truth, and a union of
// sketches is the sketch of the union.
template <typename R, typename R2>
void checkHll(Case& c) {
  auto& s = c.s;
  int b = s.draw(2) ? static_cast<int>(s.range(4, 12)) : static_cast<int>(s.pick({14, 11, 14, 16}));
  size_t m = size_t(1) << b;
  size_t n = s.chance(1, 4) ? s.size(0, 20) : s.logsize(m * (b >= 14 ? 8 : 40));
  size_t trials = std::max<size_t>(1, 16384 / m);
  uint64_t seed = s.draw(1ull << 40);
  bool gpu = sizeof(R) == 4, gpu2 = sizeof(R2) == 4;
  CountDistinctDescriptor d{CountDistinctImplType::Bitmap, 0, b, true, gpu ? ExecutorDeviceType::GPU : ExecutorDeviceType::CPU, 1};
  CountDistinctDescriptor d2{CountDistinctImplType::Bitmap, 0, b, true, gpu2 ? ExecutorDeviceType::GPU : ExecutorDeviceType::CPU, 1};
  REQUIRE(d.bitmapSizeBytes() == m * sizeof(R), "a sketch of " << m << " registers has " << d.bitmapSizeBytes() << " bytes");
  double sum = 0;
  for (size_t t = 0; t < trials; ++t) {
    std::vector<R> a(m), all(m);
    std::vector<R2> rest(m);
    for (size_t i = 0; i < n; ++i) {
      auto h = mix(mix(seed + t * 1000003) ^ i);
      hllAdd(all, b, h);
      if (i % 3) {
        hllAdd(a, b, h);
      }
      if (i % 3 != 1) {
        hllAdd(rest, b, h);
      }
    }
    auto est = count_distinct_set_size(reinterpret_cast<int64_t>(all.data()), d);
    sum += static_cast<double>(est);
    if (t < 2) {
      count_distinct_set_union(reinterpret_cast<int64_t>(a.data()), reinterpret_cast<int64_t>(rest.data()), d, d2);
      auto u = count_distinct_set_size(reinterpret_cast<int64_t>(a.data()), d);
      REQUIRE(u == est, "the union of two sketches counts " << u << ", the sketch of the union " << est << " (" << n << " values, " << m << " registers)");
    }
  }
  double avg = sum / static_cast<double>(trials), err = std::abs(avg - static_cast<double>(n));
  double sigma = 1.04 / std::sqrt(static_cast<double>(m * trials));
  double tol = 1.5 + static_cast<double>(n) * (6 * sigma + 0.04);
  c.label(b == 14 ? "2^14 registers" : "other registers");
  c.nontrivial(n > 20);
  c.describe([&](std::ostream& o) { o << n << " values, " << m << " registers, average estimate " << avg << " over " << trials; });
  REQUIRE(err <= tol, "the average estimate over " << trials << " sets of " << n << " values with " << m << " registers is " << avg << ", off by more than " << tol);
  int p1 = s.range(1, 99), p2 = s.range(1, 99);
  REQUIRE((p1 <= p2) ? hll_size_for_rate(p1) >= hll_size_for_rate(p2) : hll_size_for_rate(p1) <= hll_size_for_rate(p2), "a smaller error needs a smaller sketch");
  int k = hll_size_for_rate(p1);
  REQUIRE(k >= 4 && k <= 16 && (k == 16 || 1.04 / std::sqrt(std::pow(2.0, k)) <= p1 / 100.0), "a sketch for an error of " << p1 << "% has 2^" << k << " registers");
}

template <typename T>
void checkHeap(Case& c) {
  auto& s = c.s;
  int k = static_cast<int>(s.range(1, 12)), n = static_cast<int>(s.range(0, k));
  auto ty = std::is_floating_point_v<T> ? (sizeof(T) == 4 ? static_cast<const Type*>(cx().fp32()) : cx().fp64()) : cx().integer(sizeof(T));
  std::vector<T> h(k, inline_null_value<T>());
  for (int i = 0; i < n; ++i) {
    h[i] = static_cast<T>(s.range(-100, 100));
  }
  auto got = getTopKHeapSize(reinterpret_cast<const int8_t*>(h.data()), ty, k);
  c.label("heap");
  c.nontrivial(n > 0 && n < k);
  c.describe([&](std::ostream& o) { o << "heap of " << n << " of " << k << " " << ty->toString(); });
  REQUIRE(got == n, "a heap with " << n << " of " << k << " values of " << ty->toString() << " has size " << got);
  REQUIRE(getTopKHeapSize(nullptr, ty, k) == 0, "no heap has size 0");
}

template <typename T>
void checkBitmap(Case& c, size_t (*f)(uint8_t*, const T*, size_t, const T)) {
  auto& s = c.s;
  size_t n = 64 * s.size(1, 6);
  T null = s.draw(1) ? static_cast<T>(inline_null_value<std::make_signed_t<T>>()) : static_cast<T>(s.draw(255));
  std::vector<T> v(n);
  std::vector<uint8_t> out(n / 8 + 16, 0x5a);
  size_t nulls = 0;
  int dens = static_cast<int>(s.range(1, 8));
  for (auto& x : v) {
    x = s.chance(1, dens) ? null : static_cast<T>(s.draw(3) ? s.draw(~0ull) : null + 1);
    nulls += x == null;
  }
  auto got = f(out.data(), v.data(), n, null);
  c.label("validity bitmap");
  c.nontrivial(nulls > 0 && nulls < n);
  c.describe([&](std::ostream& o) { o << n << " values of " << sizeof(T) << " bytes, " << nulls << " nulls"; });
  REQUIRE(got == nulls, "counted " << got << " nulls instead of " << nulls << " in " << n << " values of " << sizeof(T) << " bytes");
  for (size_t i = 0; i < n; ++i) {
    REQUIRE(((out[i / 8] >> (i % 8)) & 1) == (v[i] != null), "validity bit " << i << " of " << n << " values of " << sizeof(T) << " bytes");
  }
  for (size_t i = 0; i < 16; ++i) {
    REQUIRE(out[n / 8 + i] == 0x5a, "memory behind the bitmap was written");
  }
}

void checkTopN(Case& c) {
  auto& s = c.s;
  size_t row = 8 * s.size(1, 5), n = s.size(1, 6), thr = s.size(1, 4);
  auto size = streaming_top_n::get_heap_size(row, n, thr);
  auto off = streaming_top_n::get_rows_offset_of_heaps(n, thr);
  c.label("top n");
  c.nontrivial(thr > 1 && n > 1);
  c.describe([&](std::ostream& o) { o << n << " rows of " << row << " bytes, " << thr << " threads"; });
  REQUIRE(size == off + row * n * thr && off >= (1 + n) * thr * 8, "heaps of " << n << " rows of " << row << " bytes for " << thr << " threads have " << size << " bytes, rows from " << off);
  std::vector<int64_t> heaps(size / 8);
  for (size_t i = 0; i < heaps.size(); ++i) {
    heaps[i] = mix(i);
  }
  auto rows = streaming_top_n::get_rows_copy_from_heaps(heaps.data(), size, n, thr);
  REQUIRE(rows.size() == row * n * thr && !memcmp(rows.data(), reinterpret_cast<int8_t*>(heaps.data()) + off, rows.size()), "the rows copied from the heaps differ");
}
}  // namespace

FACET(sets) {
  switch (c.s.weighted({6, 2, 2, 2})) {
    case 0:
      return checkSets(c);
    case 1:
      switch (c.s.draw(5)) {
        case 0:
          return checkHeap<int8_t>(c);
        case 1:
          return checkHeap<int16_t>(c);
        case 2:
          return checkHeap<int32_t>(c);
        case 3:
          return checkHeap<int64_t>(c);
        case 4:
          return checkHeap<float>(c);
        default:
          return checkHeap<double>(c);
      }
    case 2:
      switch (c.s.draw(3)) {
        case 0:
          return checkBitmap<uint8_t>(c, gen_null_bitmap_8);
        case 1:
          return checkBitmap<uint16_t>(c, gen_null_bitmap_16);
        case 2:
          return checkBitmap<uint32_t>(c, gen_null_bitmap_32);
        default:
          return checkBitmap<uint64_t>(c, gen_null_bitmap_64);
      }
    default:
      return checkTopN(c);
  }
}

FACET(sketch) {
  {
    // The sketch size for an error rate: the least one that keeps the standard error, within what is supported.
    int err = 1 + c.s.draw(99);
    int b = hll_size_for_rate(err);
    REQUIRE(b >= 4 && b <= 16, "sketch size " << b << " for an error of " << err << "%");
    auto fits = [&](int k) { return 1.04 / std::sqrt(std::pow(2.0, k)) <= err / 100.0 * (1 + 1e-9); };
    REQUIRE(b == 16 || fits(b), "sketch size " << b << " does not keep an error of " << err << "%");
    REQUIRE(b == 4 || !fits(b - 1), "sketch size " << b << " is larger than an error of " << err << "% needs");
  }
  switch (c.s.draw(3)) {
    case 0:
      return checkHll<int8_t, int8_t>(c);
    case 1:
      return checkHll<int32_t, int32_t>(c);
    case 2:
      return checkHll<int8_t, int32_t>(c);
    default:
      return checkHll<int32_t, int8_t>(c);
  }
}

// Memory handed out for results: no two pieces overlap and contents stay, whatever thread asks.
FACET(owner) {
  auto& s = c.s;
  RowSetMemoryOwner owner(nullptr, 1 << 16);
  size_t threads = s.size(1, 4);
  struct Piece {
    int8_t* p;
    size_t n;
    int8_t fill;
  };
  struct Req {
    int kind;
    size_t n;
  };
  std::vector<std::vector<Req>> plan(threads);
  bool large = s.chance(1, 8);
  for (auto& pl : plan) {
    for (size_t k = s.size(1, 30); k; --k) {
      pl.push_back({static_cast<int>(s.weighted({6, 2, 2, 1, 1})), large && s.chance(1, 5) ? static_cast<size_t>(s.boundary(1, 11 << 20)) : s.size(1, s.draw(1) ? 40 : 3000)});
    }
  }
  std::vector<std::vector<Piece>> got(threads);
  std::vector<std::vector<std::pair<std::string*, std::string>>> strs(threads);
  std::vector<std::vector<std::pair<std::vector<int64_t>*, size_t>>> arrs(threads);
  std::atomic<bool> zero_ok{true};
  auto work = [&](size_t t) {
    int8_t fill = static_cast<int8_t>(t * 37 + 1);
    for (auto& r : plan[t]) {
      ++fill;
      switch (r.kind) {
        case 0:
          got[t].push_back({owner.allocateSmallMtNoLock(r.n, t), r.n, fill});
          break;
        case 1:
          got[t].push_back({owner.allocate(r.n, t), r.n, fill});
          break;
        case 2: {
          auto p = owner.allocateCountDistinctBuffer(r.n, t);
          for (size_t i = 0; i < r.n; ++i) {
            if (p[i]) {
              zero_ok = false;
            }
          }
          got[t].push_back({p, r.n, fill});
          break;
        }
        case 3: {
          std::string v(r.n % 100, static_cast<char>(fill));
          strs[t].emplace_back(owner.addString(v), v);
          continue;
        }
        default: {
          std::vector<int64_t> v(r.n % 50, fill);
          arrs[t].emplace_back(owner.addArray(v), r.n % 50);
          continue;
        }
      }
      memset(got[t].back().p, fill, r.n);
    }
  };
  if (threads == 1) {
    work(0);
  } else {
    std::vector<std::thread> th;
    for (size_t t = 0; t < threads; ++t) {
      th.emplace_back(work, t);
    }
    for (auto& x : th) {
      x.join();
    }
  }
  c.nontrivial(threads > 1);
  c.label(threads > 1, "several threads");
  c.label(large, "large pieces");
  c.describe([&](std::ostream& o) { o << threads << " threads, " << plan[0].size() << " requests by the first"; });
  REQUIRE(zero_ok, "memory for a set of distinct values is not cleared");
  std::vector<std::pair<int8_t*, size_t>> all;
  for (auto& g : got) {
    for (auto& p : g) {
      REQUIRE(p.p, "no memory");
      REQUIRE(reinterpret_cast<uintptr_t>(p.p) % 8 == 0, "memory of " << p.n << " bytes is not aligned");
      REQUIRE(p.p[0] == p.fill && p.p[p.n / 2] == p.fill && p.p[p.n - 1] == p.fill && !memcmp(p.p, p.p + 1, p.n - 1), "the contents of " << p.n << " bytes changed");
      all.emplace_back(p.p, p.n);
    }
  }
  std::sort(all.begin(), all.end());
  for (size_t i = 1; i < all.size(); ++i) {
    REQUIRE(all[i - 1].first + all[i - 1].second <= all[i].first, "two pieces of memory overlap");
  }
  for (auto& t : strs) {
    for (auto& x : t) {
      REQUIRE(*x.first == x.second, "a kept string changed");
    }
  }
  for (auto& t : arrs) {
    for (auto& x : t) {
      REQUIRE(x.first->size() == x.second, "a kept array changed");
    }
  }
}

// Views of dictionaries and translation tables kept for a query: one per dictionary, private to the owner, and each id
// leads to the same text.
FACET(dict_views) {
  auto& s = c.s;
  Provider prov;
  std::vector<std::shared_ptr<StringDictionary>> base;
  std::vector<std::vector<std::string>> strs;
  size_t nd = s.size(2, 3);
  auto word = [&] { return std::string(1, static_cast<char>('a' + s.draw(5))) + std::string(s.draw(2), 'x'); };
  for (size_t d = 0; d < nd; ++d) {
    base.push_back(std::make_shared<StringDictionary>(DictRef{1, static_cast<int>(d + 1)}, false));
    strs.emplace_back();
    for (size_t n = s.size(0, 8); n; --n) {
      auto v = word();
      if (static_cast<size_t>(base[d]->getOrAdd(v)) == strs[d].size()) {
        strs[d].push_back(v);
      }
    }
    DictDescriptor desc(1, static_cast<int>(d + 1), "d", 32, false, 1, "", true);
    desc.stringDict = base[d];
    prov.d.emplace(static_cast<int>(d + 1), desc);
  }
  auto owner = std::make_shared<RowSetMemoryOwner>(&prov, 1 << 16);
  std::vector<StringDictionary*> view(nd, nullptr);
  std::vector<std::vector<std::string>> vs(nd);  // what each view holds
  std::vector<size_t> gen(nd);
  std::map<std::pair<size_t, size_t>, std::pair<const std::vector<int32_t>*, std::vector<int32_t>>> inter, uni;
  StringDictionary* lit = nullptr;
  std::vector<std::string> lits;
  std::ostringstream log;
  auto addTo = [](std::vector<std::string>& v, const std::string& x) {
    auto it = std::find(v.begin(), v.end(), x);
    if (it != v.end()) {
      return static_cast<int32_t>(it - v.begin());
    }
    v.push_back(x);
    return static_cast<int32_t>(v.size() - 1);
  };
  size_t shared = 0;
  for (size_t steps = s.size(1, 30), done = 0; done < steps; ++done) {
    size_t d = s.draw(nd - 1);
    switch (s.weighted({done < 6 ? 12u : 3u, 4, 4, 4, 2, 2, 1})) {
      case 0: {
        int id = static_cast<int>(d + 1);
        bool fresh = !view[d];
        int64_t g = fresh ? static_cast<int64_t>(s.draw(strs[d].size())) : s.draw(1) ? static_cast<int64_t>(gen[d]) : -1;
        if (fresh && s.draw(1)) {
          g = -1;
        }
        auto p = s.draw(1) ? owner->getOrAddStringDictProxy(s.draw(1) ? id : -id, g) : owner->addStringDict(base[d], id, g);
        log << "view" << id << "@" << g << "; ";
        REQUIRE(p, "no view");
        if (fresh) {
          view[d] = p;
          gen[d] = g < 0 ? strs[d].size() : g;
          vs[d].assign(strs[d].begin(), strs[d].begin() + gen[d]);
          REQUIRE(p->getBaseGeneration() == static_cast<int64_t>(gen[d]), log.str() << "the view has " << p->getBaseGeneration() << " strings of its dictionary, expected " << gen[d]);
        } else {
          ++shared;
          REQUIRE(p == view[d], log.str() << "another view of the same dictionary");
        }
        REQUIRE(p->getBaseDictionary() == base[d].get() && owner->getStringDictProxy(id) == p && owner->getStringDictProxyOwned(id).get() == p,
                log.str() << "the view is not the one of dictionary " << id);
        break;
      }
      case 1:
        if (view[d]) {
          auto v = word();
          auto want = addTo(vs[d], v);
          auto got = view[d]->getOrAdd(v);
          log << "view" << d + 1 << ".add " << v << "; ";
          REQUIRE(got == want, log.str() << "got id " << got << ", expected " << want);
        }
        break;
      case 2:
      case 3: {
        size_t e = s.draw(nd - 1);
        if (d == e || !view[d] || !view[e]) {
          break;
        }
        bool un = s.draw(1);
        auto& cache = un ? uni : inter;
        auto m = un ? owner->addStringProxyUnionTranslationMap(view[d], view[e]) : owner->addStringProxyIntersectionTranslationMap(view[d], view[e]);
        log << (un ? "union " : "intersection ") << d + 1 << "->" << e + 1 << "; ";
        auto it = cache.find({d, e});
        if (it != cache.end()) {
          ++shared;
          REQUIRE(m == it->second.first && *m == it->second.second, log.str() << "a kept translation table changed");
          break;
        }
        std::vector<int32_t> want;
        for (auto& x : vs[d]) {
          if (un) {
            want.push_back(addTo(vs[e], x));
          } else {
            auto f = std::find(vs[e].begin(), vs[e].end(), x);
            want.push_back(f == vs[e].end() ? -1 : static_cast<int32_t>(f - vs[e].begin()));
          }
        }
        REQUIRE(*m == want, log.str() << "the translation table is wrong");
        cache[{d, e}] = {m, want};
        break;
      }
      case 4: {
        auto v = word();  // the dictionary grows under its view
        log << "dict" << d + 1 << ".add " << v << "; ";
        auto want = addTo(strs[d], v);
        REQUIRE(base[d]->getOrAdd(v) == want, log.str() << "a view changed its dictionary");
        break;
      }
      case 5: {
        auto p = owner->getOrAddStringDictProxy(DictRef::literalsDictId);
        log << "literals; ";
        REQUIRE(p && (!lit || p == lit) && owner->getLiteralStringDictProxy() == p && owner->getStringDictProxyOwned(DictRef::literalsDictId).get() == p,
                log.str() << "the dictionary of literals changed");
        lit = p;
        auto v = word();
        auto want = addTo(lits, v);
        auto got = lit->getOrAdd(v);
        REQUIRE(lit->getString(got) == v && (static_cast<size_t>(want) + 1 != lits.size() || got == want), log.str() << "literal " << v << " is " << lit->getString(got));
        break;
      }
      default: {
        auto o2 = owner->cloneStrDictDataOnly();
        log << "clone; ";
        for (size_t i = 0; i < nd; ++i) {
          REQUIRE(o2->getStringDictProxyOwned(static_cast<int>(i + 1)).get() == view[i], log.str() << "a copy has other views");
        }
        REQUIRE(o2->getLiteralStringDictProxy() == lit, log.str() << "a copy has other literals");
        if (s.draw(1)) {
          owner = o2;
          inter.clear();
          uni.clear();
        }
      }
    }
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(shared > 0 && (!inter.empty() || !uni.empty()));
  c.label(!uni.empty(), "union");
  c.label(!inter.empty(), "intersection");
  for (size_t d = 0; d < nd; ++d) {
    REQUIRE(base[d]->entryCount() == strs[d].size(), log.str() << "dictionary " << d + 1 << " has " << base[d]->entryCount() << " strings, expected " << strs[d].size());
    for (size_t i = 0; i < strs[d].size(); ++i) {
      REQUIRE(base[d]->getString(static_cast<int32_t>(i)) == strs[d][i], log.str() << "a string of dictionary " << d + 1 << " changed");
    }
    for (size_t i = 0; view[d] && i < vs[d].size(); ++i) {
      REQUIRE(view[d]->getString(static_cast<int32_t>(i)) == vs[d][i], log.str() << "string " << i << " of view " << d + 1 << " is " << view[d]->getString(static_cast<int32_t>(i)) << ", expected " << vs[d][i]);
    }
  }
}

PBT_MAIN
