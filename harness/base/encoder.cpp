// Column chunk statistics: encoders and chunk metadata against a scan of the values they were given.
#include "common/pbt.h"

#include "DataMgr/ArrayNoneEncoder.h"
#include "DataMgr/FixedLengthArrayNoneEncoder.h"
#include "DataMgr/StringNoneEncoder.h"
#include "DataMgr/AbstractBuffer.h"
#include "DataMgr/Encoder.h"
#include "DataMgr/MemoryLevel.h"
#include "IR/Context.h"
#include "IR/DatumFetchers.h"
#include "Shared/InlineNullValues.h"

#include <memory>
#include <optional>
#include <type_traits>

using namespace Data_Namespace;
using hdk::ir::Context;
namespace ir = hdk::ir;

namespace {

struct Buf : AbstractBuffer {
  Buf(const ir::Type* t) : AbstractBuffer(0, t) {}
  void read(int8_t* const, const size_t, const size_t, const MemoryLevel, const int) override {}
  void write(int8_t*, const size_t, const size_t, const MemoryLevel, const int) override {}
  void reserve(size_t) override {}
  void append(int8_t*, const size_t, const MemoryLevel, const int) override {}
  int8_t* getMemoryPtr() override { return nullptr; }
  size_t pageCount() const override { return 0; }
  size_t pageSize() const override { return 0; }
  size_t reservedSize() const override { return 0; }
  MemoryLevel getType() const override { return CPU_LEVEL; }
};

// What the statistics have to say. Values are kept as int64 or double in the type's logical representation.
struct Model {
  bool nulls = false;
  bool any = false;
  bool fp = false;
  int64_t imin = 0, imax = 0;
  double dmin = 0, dmax = 0;
  void addI(int64_t v) {
    if (!any) {
      imin = imax = v;
    } else {
      imin = std::min(imin, v);
      imax = std::max(imax, v);
    }
    any = true;
  }
  void addD(double v) {
    if (!any) {
      dmin = dmax = v;
    } else {
      dmin = std::min(dmin, v);
      dmax = std::max(dmax, v);
    }
    any = true;
  }
  void merge(const Model& o) {
    nulls = nulls || o.nulls;
    if (o.any) {
      if (fp) {
        addD(o.dmin);
        addD(o.dmax);
      } else {
        addI(o.imin);
        addI(o.imax);
      }
    }
  }
};

struct TypeDesc {
  const ir::Type* type;   // column type
  const ir::Type* elem;   // element type (same for scalars)
  int width;              // storage width of an element
  bool fp = false;
  bool uns = false;       // dictionary ids in 1 or 2 bytes
  bool days = false;      // date in days: the statistics are in seconds
  bool fixed = false;     // a fixed length encoder: raw data is 8 bytes wide
  bool array = false, fixarr = false;
  int arr_n = 0;
};

int64_t nullOf(const TypeDesc& d) {
  if (d.uns) {
    return d.width == 1 ? 255 : 65535;
  }
  switch (d.width) {
    case 1:
      return INT8_MIN;
    case 2:
      return INT16_MIN;
    case 4:
      return INT32_MIN;
    default:
      return INT64_MIN;
  }
}
int64_t arrNullOf(const TypeDesc& d) {
  return d.width == 1 && d.uns ? 254 : d.width == 2 && d.uns ? 65534 : nullOf(d) + 1;
}

TypeDesc pickScalar(pbt::Src& s) {
  auto& ctx = Context::defaultCtx();
  bool nl = !s.chance(1, 8);
  TypeDesc d{};
  switch (s.draw(10)) {
    case 0:
      d.width = 1 << s.draw(3);
      d.type = ctx.integer(d.width, nl);
      break;
    case 1:
      d.width = 1;
      d.type = ctx.boolean(nl);
      break;
    case 2:
      d.width = 8;
      d.type = ctx.decimal(8, 1 + s.draw(17), s.draw(1), nl);
      break;
    case 3:
      d.fp = true;
      d.width = s.draw(1) ? 8 : 4;
      d.type = d.width == 4 ? static_cast<const ir::Type*>(ctx.fp32(nl)) : ctx.fp64(nl);
      break;
    case 4:
      d.width = 1 << s.draw(2);
      d.uns = d.width < 4;
      d.type = ctx.extDict(ctx.text(nl), 1, d.width);
      break;
    case 5:
    case 6:
      d.width = 2 << s.draw(2);
      d.days = true;
      d.type = ctx.date(d.width, ir::TimeUnit::kDay, nl);
      break;
    case 7:
      d.width = 4 << s.draw(1);
      d.type = ctx.date(d.width, ir::TimeUnit::kSecond, nl);
      d.fixed = d.width < 8;
      break;
    case 8:
      d.width = 4 << s.draw(1);
      d.type = ctx.time(d.width, ir::TimeUnit::kSecond, nl);
      d.fixed = d.width < 8;
      break;
    case 9:
      d.width = 4 << s.draw(1);
      d.type = ctx.timestamp(d.width == 4 ? ir::TimeUnit::kSecond : s.pick({ir::TimeUnit::kSecond, ir::TimeUnit::kMilli, ir::TimeUnit::kMicro, ir::TimeUnit::kNano}), nl);
      d.width = d.type->size();
      d.fixed = d.width < 8;
      break;
    default:
      d.width = 4 << s.draw(1);
      d.type = ctx.interval(d.width, ir::TimeUnit::kMilli, nl);
      d.fixed = d.width < 8;
  }
  d.elem = d.type;
  return d;
}

TypeDesc pickArray(pbt::Src& s) {
  auto& ctx = Context::defaultCtx();
  TypeDesc d{};
  switch (s.draw(6)) {
    case 0:
      d.width = 1 << s.draw(3);
      d.elem = ctx.integer(d.width);
      break;
    case 1:
      d.width = 1;
      d.elem = ctx.boolean();
      break;
    case 2:
      d.fp = true;
      d.width = s.draw(1) ? 8 : 4;
      d.elem = d.width == 4 ? static_cast<const ir::Type*>(ctx.fp32()) : ctx.fp64();
      break;
    case 3:
      d.width = 4;
      d.elem = ctx.extDict(ctx.text(), 1, 4);
      break;
    case 4:
      d.width = 8;
      d.elem = ctx.timestamp(ir::TimeUnit::kSecond);
      break;
    case 5:
      d.width = 8;
      d.elem = ctx.decimal(8, 12, 2);
      break;
    default:
      d.width = 8;
      d.elem = ctx.date(8, ir::TimeUnit::kSecond);
  }
  d.array = true;
  d.fixarr = s.draw(1);
  if (d.fixarr) {
    d.arr_n = 1 + s.draw(4);
    d.type = ctx.arrayFixed(d.arr_n, d.elem);
  } else {
    d.type = ctx.arrayVarLen(d.elem);
  }
  return d;
}

// The value range of a column in its storage representation, without the null sentinels.
void storageRange(const TypeDesc& d, int64_t& lo, int64_t& hi, bool arr_null_excluded) {
  if (d.type->isBoolean() || d.elem->isBoolean()) {
    lo = 0;
    hi = 1;
    return;
  }
  if (d.uns) {
    lo = 0;
    hi = d.width == 1 ? 254 : 65534;
    if (arr_null_excluded) {
      --hi;
    }
    return;
  }
  lo = nullOf(d) + 1 + (arr_null_excluded ? 1 : 0);
  hi = d.width == 1 ? INT8_MAX : d.width == 2 ? INT16_MAX : d.width == 4 ? INT32_MAX : INT64_MAX;
  if (d.days && d.width == 8) {  // the seconds have to fit
    hi = INT64_MAX / 86400 - 1;
    lo = -hi;
  }
}

double fpVal(pbt::Src& s, const TypeDesc& d) {
  double v;
  switch (s.draw(4)) {
    case 0:
      v = s.around(-20, 20);
      break;
    case 1:
      v = s.around(-100000, 100000) / 64.0;
      break;
    case 2:
      v = s.around(-1000, 1000) * (d.width == 4 ? 1e30 : 1e290);
      break;
    case 3:
      v = s.around(-1000, 1000) * (d.width == 4 ? 1e-30 : 1e-290);
      break;
    default:
      v = s.draw(1) ? -(d.width == 4 ? double(FLT_MAX) : DBL_MAX) : (d.width == 4 ? double(FLT_MAX) : DBL_MAX);
  }
  if (d.width == 4) {
    v = static_cast<float>(v);
    if (v == static_cast<double>(FLT_MIN) || v == static_cast<double>(static_cast<float>(FLT_MIN * 2.0))) {
      v = 0;
    }
  } else if (v == DBL_MIN || v == DBL_MIN * 2) {
    v = 0;
  }
  return v;
}

void put(std::vector<int8_t>& b, const void* p, size_t n) {
  auto q = static_cast<const int8_t*>(p);
  b.insert(b.end(), q, q + n);
}
void putInt(std::vector<int8_t>& b, int64_t v, int width) {
  put(b, &v, width);  // little endian
}
void putFp(std::vector<int8_t>& b, double v, int width) {
  if (width == 4) {
    float f = static_cast<float>(v);
    put(b, &f, 4);
  } else {
    put(b, &v, 8);
  }
}
void putNull(std::vector<int8_t>& b, const TypeDesc& d) {
  if (d.fp) {
    putFp(b, d.width == 4 ? static_cast<double>(inline_null_value<float>()) : inline_null_value<double>(), d.width);
  } else {
    putInt(b, nullOf(d), d.width);
  }
}
void putArrNull(std::vector<int8_t>& b, const TypeDesc& d) {
  if (d.fp) {
    putFp(b, d.width == 4 ? static_cast<double>(inline_null_array_value<float>()) : inline_null_array_value<double>(), d.width);
  } else {
    putInt(b, arrNullOf(d), d.width);
  }
}

int64_t statI(const Datum& v, const ir::Type* t) {
  if (t->isBoolean()) {
    return v.tinyintval;
  }
  if (t->isExtDictionary()) {
    return v.intval;
  }
  if (t->isDateTime() || t->isInterval()) {
    return v.bigintval;
  }
  switch (t->size()) {
    case 1:
      return v.tinyintval;
    case 2:
      return v.smallintval;
    case 4:
      return v.intval;
    default:
      return v.bigintval;
  }
}
double statD(const Datum& v, const ir::Type* t) {
  return t->size() == 4 ? v.floatval : v.doubleval;
}

void checkStats(const ChunkStats& st, const TypeDesc& d, const Model& m, const std::string& where) {
  REQUIRE(st.has_nulls == m.nulls, where << ": has_nulls is " << st.has_nulls << ", the data " << (m.nulls ? "has" : "has no") << " nulls, type " << d.type->toString());
  if (!m.any) {
    return;
  }
  if (d.fp) {
    double lo = statD(st.min, d.elem), hi = statD(st.max, d.elem);
    REQUIRE(lo == m.dmin && hi == m.dmax, where << ": min/max " << lo << "/" << hi << ", the data has " << m.dmin << "/" << m.dmax << ", type " << d.type->toString());
  } else {
    int64_t lo = statI(st.min, d.elem), hi = statI(st.max, d.elem);
    // extDict widths below 4 are stored as int
    REQUIRE(lo == m.imin && hi == m.imax, where << ": min/max " << lo << "/" << hi << ", the data has " << m.imin << "/" << m.imax << ", type " << d.type->toString());
  }
}

struct Col {
  std::vector<int8_t> bytes;
  size_t n = 0;
};

// Appends n generated elements in storage representation; large runs are drawn from a seed so cases stay small.
void genStorage(pbt::Src& s, const TypeDesc& d, size_t n, bool arr_nulls, Col& col, Model& m) {
  int64_t lo, hi;
  storageRange(d, lo, hi, d.array);
  bool bulk = n > 24;
  uint64_t seed = bulk ? s.draw(UINT64_MAX - 1) : 0;
  unsigned null_pct = s.pick({0u, 10u, 50u, 100u});
  // A bulk run has a narrow range plus few outliers, so that one element decides the answer.
  int64_t blo = 0, bhi = 0;
  if (bulk) {
    blo = s.boundary(lo, hi);
    bhi = s.draw(1) ? blo : s.boundary(lo, hi);
    if (blo > bhi) {
      std::swap(blo, bhi);
    }
  }
  size_t out_pos = bulk ? s.draw(n - 1) : 0;
  int64_t out_v = bulk ? s.boundary(lo, hi) : 0;
  bool one_null = bulk && s.draw(1);
  size_t null_pos = bulk ? s.draw(n - 1) : 0;
  pbt::Src local(seed);
  for (size_t i = 0; i < n; ++i) {
    pbt::Src& g = bulk ? local : s;
    bool is_null = g.draw(99) < null_pct;
    if (bulk && null_pct == 0) {
      is_null = one_null && i == null_pos;
    }
    if (is_null) {
      putNull(col.bytes, d);
      m.nulls = true;
    } else if (arr_nulls && g.chance(1, 10)) {
      putArrNull(col.bytes, d);
    } else if (d.fp) {
      double v = fpVal(g, d);
      putFp(col.bytes, v, d.width);
      m.addD(v);
    } else {
      int64_t v = bulk ? (i == out_pos ? out_v : g.range(blo, bhi)) : g.boundary(lo, hi);
      putInt(col.bytes, v, d.width);
      m.addI(d.days ? v * 86400 : v);
    }
    ++col.n;
  }
}

struct File {
  FILE* f = tmpfile();
  ~File() { fclose(f); }
};

}  // namespace

// Histories of updates on scalar columns.
FACET(scalar) {
  auto& s = c.s;
  TypeDesc d = pickScalar(s);
  Buf buf(d.type);
  auto enc = buf.getEncoder();
  REQUIRE(enc, "no encoder for " << d.type->toString());
  Model m;
  m.fp = d.fp;
  size_t num_elems = 0;
  size_t steps = 1 + s.draw(6);
  size_t updates = 0;
  std::vector<std::unique_ptr<Buf>> keep;
  c.describe([&](auto& o) { o << d.type->toString() << ":"; });
  for (size_t st = 0; st < steps; ++st) {
    auto op = s.weighted({5, 4, 4, 2, 2, 2, 1, 2});
    std::string where = "step " + std::to_string(st) + " op " + std::to_string(op);
    c.describe([&](auto& o) { o << " op" << op; });
    switch (op) {
      case 0: {  // encoded data
        size_t n = s.weighted({3, 1}) ? s.size(25, s.chance(1, 6) ? 300000 : 5000) : s.size(0, 24);
        Col col;
        genStorage(s, d, n, false, col, m);
        enc->updateStatsEncoded(col.bytes.data(), col.n);
        c.label(n > 24, "bulk");
        c.describe([&](auto& o) { o << "(" << n << " encoded)"; });
        updates += n;
        break;
      }
      case 1: {  // one synthesized value
        bool is_null = s.chance(1, 4);
        if (d.fp) {
          double v = fpVal(s, d);
          enc->updateStats(v, is_null);
          if (is_null) {
            m.nulls = true;
          } else {
            m.addD(v);
          }
        } else {
          int64_t lo, hi;
          storageRange(d, lo, hi, false);
          int64_t v = s.boundary(lo, hi);
          if (d.days) {
            v *= 86400;
          }
          enc->updateStats(v, is_null);
          if (is_null) {
            m.nulls = true;
          } else {
            m.addI(v);
          }
        }
        ++updates;
        break;
      }
      case 2: {  // raw data
        size_t n = s.size(0, 20);
        std::vector<int8_t> b;
        if (d.days || d.fixed) {
          int64_t lo, hi;
          storageRange(d, lo, hi, false);
          if (d.days && d.width == 8) {  // raw dates are limited to 32 bits of days whatever the width
            lo = INT32_MIN + 1;
            hi = INT32_MAX;
          }
          for (size_t i = 0; i < n; ++i) {
            int64_t null_v = nullOf(d);
            if (s.chance(1, 5)) {
              putInt(b, null_v, 8);
              m.nulls = true;
            } else {
              int64_t v = s.boundary(lo, hi);
              if (d.days) {
                int64_t sec = v * 86400 + (s.draw(1) ? s.range(0, 86399) : 0);
                if (sec == null_v) {
                  sec = 0;
                  v = 0;
                }
                putInt(b, sec, 8);
                m.addI(v * 86400);
              } else {
                putInt(b, v, 8);
                m.addI(v);
              }
            }
          }
        } else {
          Col col;
          genStorage(s, d, n, false, col, m);
          b = col.bytes;
        }
        enc->updateStats(b.data(), n);
        updates += n;
        break;
      }
      case 3: {  // reduce with another encoder
        keep.push_back(std::make_unique<Buf>(d.type));
        auto e2 = keep.back()->getEncoder();
        Model m2;
        m2.fp = d.fp;
        Col col;
        genStorage(s, d, s.size(0, 12), false, col, m2);
        e2->updateStatsEncoded(col.bytes.data(), col.n);
        checkStats(e2->getMetadata(d.type)->chunkStats(), d, m2, where + " (other)");
        enc->reduceStats(*e2);
        m.merge(m2);
        break;
      }
      case 4: {  // copy to a new encoder and go on there
        keep.push_back(std::make_unique<Buf>(d.type));
        auto e2 = keep.back()->getEncoder();
        e2->copyMetadata(enc);
        enc = e2;
        break;
      }
      case 5: {  // write and read back
        keep.push_back(std::make_unique<Buf>(d.type));
        auto e2 = keep.back()->getEncoder();
        File f;
        enc->writeMetadata(f.f);
        long w = ftell(f.f);
        rewind(f.f);
        e2->readMetadata(f.f);
        REQUIRE(ftell(f.f) == w, where << ": metadata is written as " << w << " bytes and read as " << ftell(f.f));
        enc = e2;
        break;
      }
      case 6:
        if (s.draw(1)) {
          enc->resetChunkStats();
          m = Model();
          m.fp = d.fp;
        } else {
          num_elems = s.draw(100000);
          enc->setNumElems(num_elems);
        }
        break;
      default: {  // reset to the statistics of another encoder
        Buf b2(d.type);
        Model m2;
        m2.fp = d.fp;
        Col col;
        genStorage(s, d, s.size(1, 12), false, col, m2);
        b2.getEncoder()->updateStatsEncoded(col.bytes.data(), col.n);
        if (!m2.any) {
          break;
        }
        ChunkStats cs;
        b2.getEncoder()->fillChunkStats(cs, d.type);
        checkStats(cs, d, m2, where + " (filled)");
        bool same = m.any && m.nulls == m2.nulls && (d.fp ? m.dmin == m2.dmin && m.dmax == m2.dmax : m.imin == m2.imin && m.imax == m2.imax);
        if (d.uns) {
          break;  // small dictionary ids are kept as int in the statistics
        }
        bool changed = enc->resetChunkStats(cs);
        REQUIRE(changed == !same, where << ": reset reports " << changed);
        m = m2;
      }
    }
    // whatever happened, all views of the statistics agree with the data
    auto md = enc->getMetadata();
    checkStats(md->chunkStats(), d, m, where);
    REQUIRE(md->numElements() == num_elems, where << ": number of elements " << md->numElements() << " instead of " << num_elems);
    REQUIRE(md->type() == d.type, where << ": metadata type");
    checkStats(enc->getMetadata(d.type)->chunkStats(), d, m, where + " (synthesized)");
    ChunkStats cs;
    enc->fillChunkStats(cs, d.type);
    checkStats(cs, d, m, where + " (filled)");
  }
  c.nontrivial(updates > 0 && m.any);
  c.label(d.type->toString().substr(0, 8));
}

// Values that do not fit a date in days are rejected and leave the statistics alone.
FACET(date_overflow) {
  auto& s = c.s;
  auto& ctx = Context::defaultCtx();
  int w = s.draw(1) ? 4 : 2;
  TypeDesc d{};
  d.width = w;
  d.days = true;
  d.type = d.elem = ctx.date(w, ir::TimeUnit::kDay);
  Buf buf(d.type);
  auto enc = buf.getEncoder();
  Model m;
  int64_t hi = w == 2 ? INT16_MAX : INT32_MAX;
  size_t n = 1 + s.draw(10);
  for (size_t i = 0; i < n; ++i) {
    int64_t day = s.draw(1) ? s.boundary(-hi, hi) : s.around(-hi - 3, hi + 3);
    if (s.chance(1, 4)) {
      day = s.boundary(-hi * 4, hi * 4);
    }
    int64_t sec = day * 86400 + (s.draw(1) ? s.range(0, 86399) : s.pick<int64_t>({0, 1, 86399}));
    if (sec == nullOf(d)) {
      continue;
    }
    bool fits = day >= -hi - 1 && day <= hi;
    if (day == -hi - 1) {
      continue;  // the encoded value would be the null sentinel
    }
    bool thrown = false;
    try {
      enc->updateStats(reinterpret_cast<int8_t*>(&sec), 1);
    } catch (const std::runtime_error&) {
      thrown = true;
    }
    c.describe([&](auto& o) { o << " day " << day << " sec " << sec << (thrown ? " rejected" : ""); });
    REQUIRE(thrown == !fits, "day " << day << " of " << d.type->toString() << (thrown ? " rejected" : " accepted"));
    if (fits) {
      m.addI(day * 86400);
    }
    c.nontrivial(!fits);
    checkStats(enc->getMetadata()->chunkStats(), d, m, "after day " + std::to_string(day));
  }
}

// Arrays: statistics over the elements of all the arrays.
FACET(array) {
  auto& s = c.s;
  TypeDesc d = pickArray(s);
  Buf buf(d.type);
  auto enc = buf.getEncoder();
  Model m;
  m.fp = d.fp;
  std::vector<std::unique_ptr<Buf>> keep;
  size_t steps = 1 + s.draw(5);
  size_t num_elems = 0;
  c.describe([&](auto& o) { o << d.type->toString() << ":"; });
  for (size_t st = 0; st < steps; ++st) {
    auto op = s.weighted({6, 1, 1, 1, 1});
    std::string where = "step " + std::to_string(st) + " op " + std::to_string(op);
    switch (op) {
      case 0: {
        size_t n = s.size(0, 6);
        std::vector<std::unique_ptr<Col>> data;
        std::vector<ArrayDatum> arrs;
        size_t start = s.draw(2), tail = s.draw(1);
        for (size_t i = 0; i < start + n + tail; ++i) {
          bool inside = i >= start && i < start + n;
          Model skip;
          skip.fp = d.fp;
          Model& mm = inside ? m : skip;
          data.push_back(std::make_unique<Col>());
          bool is_null = s.chance(1, 6);
          size_t len = d.fixarr ? d.arr_n : s.draw(5);
          if (is_null) {
            mm.nulls = true;
            data.back()->bytes.resize(len * d.width);
            if (d.fixarr) {
              data.back()->bytes.clear();
              putArrNull(data.back()->bytes, d);
              for (size_t k = 1; k < len; ++k) {
                putNull(data.back()->bytes, d);
              }
            }
          } else {
            genStorage(s, d, len, false, *data.back(), mm);
          }
          arrs.emplace_back(data.back()->bytes.size(), data.back()->bytes.data(), is_null, DoNothingDeleter());
          c.describe([&](auto& o) { o << (inside ? " in" : " out") << (is_null ? ":null" : ":") << len; });
        }
        if (!arrs.empty()) {
          // How many of the arrays fit a number of bytes.
          bool rep = s.chance(1, 4);
          size_t limit = s.draw(60), fit = 0, used = 0;
          while (fit < n && used + arrs[rep ? 0 : start + fit].length <= limit) {
            used += arrs[rep ? 0 : start + fit].length;
            ++fit;
          }
          size_t got = fit;
          if (auto e = dynamic_cast<ArrayNoneEncoder*>(enc)) {
            got = e->getNumElemsForBytesInsertData(&arrs, start, n, limit, rep);
          } else if (auto e = dynamic_cast<FixedLengthArrayNoneEncoder*>(enc)) {
            got = e->getNumElemsForBytesInsertData(&arrs, start, n, limit, rep);
          }
          REQUIRE(got == fit, where << ": " << got << " arrays are said to fit " << limit << " bytes, not " << fit);
        }
        enc->updateStats(&arrs, start, n);
        break;
      }
      case 1: {
        keep.push_back(std::make_unique<Buf>(d.type));
        auto e2 = keep.back()->getEncoder();
        e2->copyMetadata(enc);
        enc = e2;
        break;
      }
      case 2: {
        keep.push_back(std::make_unique<Buf>(d.type));
        auto e2 = keep.back()->getEncoder();
        File f;
        enc->writeMetadata(f.f);
        rewind(f.f);
        e2->readMetadata(f.f);
        enc = e2;
        break;
      }
      case 3:
        enc->resetChunkStats();
        m = Model();
        m.fp = d.fp;
        break;
      default:
        num_elems = s.draw(1000);
        enc->setNumElems(num_elems);
    }
    auto md = enc->getMetadata();
    checkStats(md->chunkStats(), d, m, where);
    REQUIRE(md->numElements() == num_elems, where << ": number of elements");
    checkStats(enc->getMetadata(d.type)->chunkStats(), d, m, where + " (synthesized)");
    c.nontrivial(m.any && st > 0);
  }
  c.label(d.fixarr ? "fixed" : "varlen");
}

// Fixed length arrays stored as flat element data.
FACET(flat_array) {
  auto& s = c.s;
  TypeDesc d = pickArray(s);
  if (d.elem->isExtDictionary() || d.elem->isBoolean()) {
    throw pbt::Discard();
  }
  Buf buf(d.elem);
  auto enc = buf.getEncoder();
  Model m;
  m.fp = d.fp;
  size_t steps = 1 + s.draw(2);
  for (size_t i = 0; i < steps; ++i) {
    Col col;
    genStorage(s, d, s.chance(1, 4) ? s.size(25, 20000) : s.size(1, 20), true, col, m);
    enc->updateStatsEncoded(col.bytes.data(), col.n, true);
    d.type = d.elem;
    checkStats(enc->getMetadata()->chunkStats(), d, m, "flat array data");
    d.type = Context::defaultCtx().arrayFixed(1, d.elem);
  }
  c.nontrivial(m.any);
}

// Strings: only the presence of empty (null) strings is tracked.
FACET(strings) {
  auto& s = c.s;
  auto& ctx = Context::defaultCtx();
  auto t = s.draw(1) ? static_cast<const ir::Type*>(ctx.text()) : ctx.varChar(10);
  Buf buf(t);
  auto enc = buf.getEncoder();
  bool nulls = false;
  std::vector<std::unique_ptr<Buf>> keep;
  for (size_t k = 1 + s.draw(3); k; --k) {
    std::vector<std::string> v;
    size_t start = s.draw(2), n = s.draw(5), tail = s.draw(1);
    for (size_t i = 0; i < start + n + tail; ++i) {
      v.push_back(s.chance(1, 5) ? "" : std::string(1 + s.draw(3), 'x'));
      if (i >= start && i < start + n && v.back().empty()) {
        nulls = true;
      }
    }
    {
      // How many of the strings fit a number of bytes.
      size_t limit = s.draw(12), fit = 0, used = 0;
      bool rep = s.chance(1, 4);
      while (fit < n && used + v[rep ? 0 : start + fit].size() <= limit) {
        used += v[rep ? 0 : start + fit].size();
        ++fit;
      }
      auto got = static_cast<StringNoneEncoder*>(enc)->getNumElemsForBytesInsertData(&v, start, n, limit, rep);
      REQUIRE(got == fit, got << " strings are said to fit " << limit << " bytes, not " << fit);
    }
    enc->updateStats(&v, start, n);
    REQUIRE(enc->getMetadata()->chunkStats().has_nulls == nulls, "has_nulls");
    REQUIRE(enc->getMetadata(t)->chunkStats().has_nulls == nulls, "has_nulls (synthesized)");
    keep.push_back(std::make_unique<Buf>(t));
    auto e2 = keep.back()->getEncoder();
    if (s.draw(1)) {
      File f;
      enc->writeMetadata(f.f);
      rewind(f.f);
      e2->readMetadata(f.f);
    } else {
      e2->copyMetadata(enc);
    }
    enc = e2;
    REQUIRE(enc->getMetadata()->chunkStats().has_nulls == nulls, "has_nulls after a copy");
    if (s.chance(1, 6)) {
      enc->resetChunkStats();
      nulls = false;
    }
    c.nontrivial(n > 0);
  }
}

// Statistics of several chunks merged, lazily computed statistics, metadata equality.
FACET(merge) {
  auto& s = c.s;
  TypeDesc d = s.chance(1, 4) ? pickArray(s) : pickScalar(s);
  size_t chunks = 2 + s.draw(4);
  Model total;
  total.fp = d.fp;
  std::vector<std::shared_ptr<ChunkMetadata>> mds;
  std::vector<int> calls(chunks, 0);
  std::vector<ChunkStats> stats(chunks);
  std::vector<Model> models(chunks);
  std::vector<bool> lazy(chunks);
  size_t n_all = 0;
  for (size_t i = 0; i < chunks; ++i) {
    Buf buf(d.array ? d.elem : d.type);
    TypeDesc sd = d;
    sd.type = sd.elem;
    sd.array = false;
    models[i].fp = d.fp;
    Col col;
    size_t n = s.size(1, 10);
    genStorage(s, sd, n, false, col, models[i]);
    buf.getEncoder()->updateStatsEncoded(col.bytes.data(), col.n);
    buf.getEncoder()->fillChunkStats(stats[i], sd.type);
    n_all += n;
    lazy[i] = s.draw(1);
    if (lazy[i]) {
      mds.push_back(std::make_shared<ChunkMetadata>(d.type, n * d.width, n, [&, i](ChunkStats& out) {
        ++calls[i];
        out = stats[i];
      }));
      REQUIRE(!mds.back()->hasComputedChunkStats(), "lazy statistics reported as computed");
    } else if (s.draw(1)) {
      mds.push_back(std::make_shared<ChunkMetadata>(d.type, n * d.width, n, stats[i]));
    } else {
      mds.push_back(std::make_shared<ChunkMetadata>(d.type, n * d.width, n));
      mds.back()->fillChunkStats(stats[i]);
    }
    total.merge(models[i]);
  }
  bool all_any = true;
  for (auto& m : models) {
    all_any = all_any && m.any;
  }
  ChunkStats acc = mds[0]->chunkStats();
  for (size_t i = 1; i < chunks; ++i) {
    mergeStats(acc, mds[i]->chunkStats(), d.type);
  }
  c.describe([&](auto& o) { o << d.type->toString() << " " << chunks << " chunks, " << n_all << " values"; });
  if (!(d.uns && !all_any)) {  // an empty range of narrow ids is not empty as int
    checkStats(acc, d, total, "merged");
  }
  for (size_t i = 0; i < chunks; ++i) {
    checkStats(mds[i]->chunkStats(), d, models[i], "chunk " + std::to_string(i));
    REQUIRE(calls[i] == (lazy[i] ? 1 : 0), "lazy statistics computed " << calls[i] << " times");
    REQUIRE(mds[i]->hasComputedChunkStats(), "statistics not marked as computed");
    // equality
    auto same = std::make_shared<ChunkMetadata>(d.type, mds[i]->numBytes(), mds[i]->numElements(), stats[i]);
    REQUIRE(*mds[i] == *same, "metadata with the same content differs");
    if (!d.fp && models[i].any && !d.uns) {
      auto other = stats[i];
      int which = s.draw(4);
      size_t nb = mds[i]->numBytes(), ne = mds[i]->numElements();
      switch (which) {
        case 0:
          other.has_nulls = !other.has_nulls;
          break;
        case 1:
          other.min.bigintval ^= 1;
          break;
        case 2:
          other.max.bigintval ^= 1;
          break;
        case 3:
          nb += 1 + s.draw(10);
          break;
        default:
          ne += 1 + s.draw(10);
      }
      auto diff = std::make_shared<ChunkMetadata>(d.type, nb, ne, other);
      REQUIRE(!(*mds[i] == *diff), "metadata that differs in field " << which << " compares equal, type " << d.type->toString());
    }
  }
  c.nontrivial(total.any);
}

PBT_MAIN
