// Chunks of tables: what the data manager hands out is what the table's provider holds, value by value.
#include "common/pbt.h"

#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/Chunk/Chunk.h"
#include "DataMgr/DataMgr.h"
#include "DataMgr/PersistentStorageMgr/PersistentStorageMgr.h"
#include "DataProvider/DictDescriptor.h"
#include "DataProvider/TableFragmentsInfo.h"
#include "IR/Context.h"
#include "SchemaMgr/ColumnInfo.h"
#include "Shared/Config.h"
#include "Shared/InlineNullValues.h"
#include "Utils/ChunkIter.h"

#include <optional>

using namespace Data_Namespace;
using hdk::ir::Context;
using hdk::ir::Type;

namespace {
using Bytes = std::vector<int8_t>;
using Value = std::optional<Bytes>;  // the bytes of a value; none: null

Context& ctx() { return Context::defaultCtx(); }

template <typename T>
Bytes raw(T v) {
  Bytes b(sizeof(T));
  memcpy(b.data(), &v, sizeof(T));
  return b;
}
Bytes nullOf(const Type* t, bool array) {
  if (t->isFloatingPoint()) {
    return t->size() == 4 ? raw(array ? inline_null_array_value<float>() : inline_null_value<float>())
                          : raw(array ? inline_null_array_value<double>() : inline_null_value<double>());
  }
  switch (t->size()) {
    case 1:
      return raw(array ? inline_null_array_value<int8_t>() : inline_null_value<int8_t>());
    case 2:
      return raw(array ? inline_null_array_value<int16_t>() : inline_null_value<int16_t>());
    case 4:
      return raw(array ? inline_null_array_value<int32_t>() : inline_null_value<int32_t>());
    default:
      return raw(array ? inline_null_array_value<int64_t>() : inline_null_value<int64_t>());
  }
}

struct Col {
  const Type* type;
  std::vector<std::vector<Value>> frags;
  std::vector<Bytes> data, index;  // per fragment
  ColumnInfoPtr info;
};
struct Tab {
  int db, id;
  std::vector<Col> cols;
  std::shared_ptr<TableFragmentsInfo> meta = std::make_shared<TableFragmentsInfo>();
  size_t nfrags;
};

struct Token : AbstractDataToken {
  Bytes data;
  const Type* type;
  const int8_t* getMemoryPtr() const override { return data.data(); }
  size_t getSize() const override { return data.size(); }
  const Type* getType() const override { return type; }
};

struct Provider : AbstractDataProvider {
  std::map<std::pair<int, int>, Tab*> tabs;
  std::map<int, std::unique_ptr<DictDescriptor>> dicts;
  std::vector<ChunkKey> deleted;
  bool zero_copy = false;
  void fetchBuffer(const ChunkKey& key, AbstractBuffer* dest, const size_t n) override {
    auto it = tabs.find({key.at(0), key.at(1)});
    REQUIRE(it != tabs.end(), "a chunk of table " << key[0] << "." << key[1] << " was asked of a provider which has no such table");
    auto& col = it->second->cols.at(key.at(2));
    bool var = col.type->isVarLen();
    REQUIRE(key.size() == (var ? 5u : 4u), "a chunk key of " << key.size() << " parts");
    auto& src = var && key[4] == 2 ? col.index.at(key[3]) : col.data.at(key[3]);
    REQUIRE(n <= src.size(), n << " bytes asked of a chunk of " << src.size());
    if (!(var && key[4] == 2) && !dest->hasEncoder()) {
      dest->initEncoder(col.type);
    }
    size_t have = dest->size();
    if (n > have) {
      dest->append(const_cast<int8_t*>(src.data()) + have, n - have);
    }
    dest->clearDirtyBits();
  }
  std::unique_ptr<AbstractDataToken> getZeroCopyColumnData(const ColumnRef& r) override {
    auto it = tabs.find({r.db_id, r.table_id});
    REQUIRE(it != tabs.end(), "a column of table " << r.db_id << "." << r.table_id << " was asked of a provider which has no such table");
    auto& col = it->second->cols.at(r.column_id);
    if (!zero_copy || col.type->isVarLen()) {
      return nullptr;
    }
    auto t = std::make_unique<Token>();
    t->type = col.type;
    for (auto& d : col.data) {
      t->data.insert(t->data.end(), d.begin(), d.end());
    }
    return t;
  }
  void deleteBuffersWithPrefix(const ChunkKey& k, const bool) override { deleted.push_back(k); }
  const DictDescriptor* getDictMetadata(int id, bool) override {
    auto it = dicts.find(id);
    return it == dicts.end() ? nullptr : it->second.get();
  }
  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int db, int id) const override {
    auto it = tabs.find({db, id});
    REQUIRE(it != tabs.end(), "metadata of table " << db << "." << id << " was asked of a provider which has no such table");
    return it->second->meta;
  }
};

const Type* genType(pbt::Src& s) {
  bool null = !s.chance(1, 4);
  auto unit = s.pick<hdk::ir::TimeUnit>({hdk::ir::TimeUnit::kSecond, hdk::ir::TimeUnit::kMilli, hdk::ir::TimeUnit::kMicro, hdk::ir::TimeUnit::kNano});
  auto scalar = [&](bool n) -> const Type* {
    switch (s.draw(9)) {
      case 0:
        return ctx().boolean(n);
      case 1:
        return ctx().int8(n);
      case 2:
        return ctx().int16(n);
      case 3:
        return ctx().int32(n);
      case 4:
        return ctx().int64(n);
      case 5:
        return ctx().fp32(n);
      case 6:
        return ctx().fp64(n);
      case 7:
        return ctx().decimal64(10, 2, n);
      case 8:
        return ctx().extDict(ctx().text(n), 1, s.pick<int>({1, 2, 4}));
      default:
        switch (s.draw(2)) {
          case 0:
            return s.draw(1) ? ctx().date16(hdk::ir::TimeUnit::kDay, n) : ctx().date32(hdk::ir::TimeUnit::kDay, n);
          case 1:
            return s.draw(1) && (unit == hdk::ir::TimeUnit::kSecond || unit == hdk::ir::TimeUnit::kMilli) ? ctx().time32(unit, n) : ctx().time64(unit, n);
          default:
            return ctx().timestamp(unit, n);
        }
    }
  };
  switch (s.weighted({6, 2, 2, 2})) {
    case 0:
      return scalar(null);
    case 1:
      return ctx().text(null);
    case 2:
      return ctx().arrayVarLen(scalar(true), 4, null);
    default:
      return ctx().arrayFixed(static_cast<int>(s.size(1, 4)), scalar(true), null);
  }
}

Value genValue(pbt::Src& s, const Type* t) {
  bool null = t->nullable() && s.chance(1, 4);
  auto scalar = [&](const Type* e) {
    for (;;) {
      Bytes b;
      int64_t v = s.chance(1, 3) ? s.range(-3, 3) : static_cast<int64_t>(s.draw(UINT32_MAX)) * (s.draw(1) ? 1 : -65537);
      if (e->isFloatingPoint()) {
        b = e->size() == 4 ? raw(static_cast<float>(v) / 4) : raw(static_cast<double>(v) / 4);
      } else {
        b = raw(v);
        b.resize(e->size());
      }
      if (b != nullOf(e, false) && b != nullOf(e, true)) {
        return b;
      }
      b = e->isFloatingPoint() ? (e->size() == 4 ? raw(1.5f) : raw(1.5)) : Bytes(e->size(), 1);
      return b;
    }
  };
  if (null) {
    return std::nullopt;
  }
  if (t->isString()) {
    // an empty string is the same as null in this format
    Bytes b(s.size(1, 9));
    for (auto& x : b) {
      x = static_cast<int8_t>(s.draw(255));
    }
    return b;
  }
  if (t->isArray()) {
    auto e = t->as<hdk::ir::ArrayBaseType>()->elemType();
    size_t n = t->isFixedLenArray() ? t->as<hdk::ir::FixedLenArrayType>()->numElems() : s.draw(5);
    Bytes b;
    for (size_t i = 0; i < n; ++i) {
      auto x = s.chance(1, 8) ? nullOf(e, false) : scalar(e);
      if (t->isFixedLenArray() && !t->nullable() && i == 0 && s.chance(1, 4)) {
        x = nullOf(e, true);  // a value like any other where there are no nulls
      }
      b.insert(b.end(), x.begin(), x.end());
    }
    return b;
  }
  return scalar(t);
}

void layOut(Col& c) {
  for (auto& f : c.frags) {
    Bytes d;
    std::vector<int32_t> idx;
    if (c.type->isVarLenArray()) {
      // an offset is negative where the array before it is null, so the first one of a leading null is not zero
      if (!f.empty() && !f[0]) {
        d.resize(8, 0);
      }
      idx.push_back(static_cast<int32_t>(d.size()));
    } else if (c.type->isVarLen()) {
      idx.push_back(0);
    }
    for (auto& v : f) {
      if (v) {
        d.insert(d.end(), v->begin(), v->end());
      } else if (c.type->isFixedLenArray()) {
        auto e = c.type->as<hdk::ir::ArrayBaseType>()->elemType();
        auto n = nullOf(e, true);
        d.insert(d.end(), n.begin(), n.end());
        for (size_t k = n.size(); k < static_cast<size_t>(c.type->size()); k += n.size()) {
          auto m = nullOf(e, false);
          d.insert(d.end(), m.begin(), m.end());
        }
      } else if (!c.type->isVarLen()) {
        auto n = nullOf(c.type, false);
        d.insert(d.end(), n.begin(), n.end());
      } else if (c.type->isVarLenArray() && d.empty()) {
        // a null after empty arrays only: keep its offset off zero
        d.resize(8, 0);
        for (auto& o : idx) {
          o = 8;
        }
      }
      if (c.type->isVarLen()) {
        idx.push_back(c.type->isVarLenArray() && !v ? -static_cast<int32_t>(d.size()) : static_cast<int32_t>(d.size()));
      }
    }
    c.data.push_back(d);
    Bytes ib(idx.size() * 4);
    memcpy(ib.data(), idx.data(), ib.size());
    c.index.push_back(ib);
  }
}

std::string show(const Value& v) {
  if (!v) {
    return "NULL";
  }
  std::ostringstream o;
  for (auto b : *v) {
    o << std::hex << (b & 255) << " ";
  }
  return o.str();
}

struct Held {
  Tab* tab;
  size_t col, frag;
  std::shared_ptr<Chunk_NS::Chunk> chunk;
};

// Reads the chunk in every way there is.
void readAll(pbt::Src& s, const Col& col, size_t frag, Chunk_NS::Chunk& ch) {
  auto& vals = col.frags[frag];
  auto t = col.type;
  auto meta = std::make_shared<ChunkMetadata>(t, col.data[frag].size(), vals.size());
  std::string what = t->toString() + " fragment of " + std::to_string(vals.size());
  auto same = [&](const Value& want, bool null, const int8_t* p, size_t n, size_t i, const char* how) {
    REQUIRE(null == !want.has_value(), what << ": " << how << " says row " << i << (null ? " is null" : " is not null") << ", it is " << show(want));
    if (want) {
      REQUIRE(n == want->size() && (n == 0 || !memcmp(p, want->data(), n)), what << ": " << how << " of row " << i << " has " << n << " bytes, expected " << show(want));
    }
  };
  auto it = ch.begin_iterator(meta);
  if (t->isArray()) {
    for (int i = -1; i <= static_cast<int>(vals.size()); ++i) {
      for (int way = 0; way < 3; ++way) {
        bool in = i >= 0 && i < static_cast<int>(vals.size());
        bool end = false;
        ArrayDatum d;
        if (way == 0) {
          ChunkIter_get_nth(&it, i, &d, &end);
        } else if (way == 1 && t->isVarLenArray()) {
          ChunkIter_get_nth_varlen(&it, i, &d, &end);
        } else if (way == 2 && t->isVarLenArray() && in && std::all_of(vals.begin(), vals.end(), [](auto& v) { return v.has_value(); })) {
          ChunkIter_get_nth_varlen_notnull(&it, i, &d, &end);
        } else {
          continue;
        }
        REQUIRE(end == !in, what << ": row " << i << (end ? " is past the end" : " exists"));
        if (in) {
          same(vals[i], d.is_null, d.pointer, d.length, i, way == 0 ? "get_nth" : way == 1 ? "get_nth_varlen" : "get_nth_varlen_notnull");
        }
      }
    }
    return;
  }
  // Narrow dates and times are widened on request.
  bool unc = s.draw(1);
  bool wide = unc && t->isDateTime() && t->size() != 8;
  auto want = [&](size_t i) -> Value {
    if (!wide || !vals[i]) {
      return vals[i];
    }
    int64_t v = 0;
    switch (t->size()) {
      case 2: {
        int16_t x;
        memcpy(&x, vals[i]->data(), 2);
        v = x;
        break;
      }
      case 4: {
        int32_t x;
        memcpy(&x, vals[i]->data(), 4);
        v = x;
        break;
      }
    }
    return raw(v);
  };
  for (int i = -1; i <= static_cast<int>(vals.size()); ++i) {
    VarlenDatum d;
    bool end = false, in = i >= 0 && i < static_cast<int>(vals.size());
    ChunkIter_get_nth(&it, i, unc, &d, &end);
    REQUIRE(end == !in, what << ": row " << i << (end ? " is past the end" : " exists"));
    if (in) {
      same(want(i), d.is_null, d.pointer, d.length, i, unc ? "uncompressed get_nth" : "get_nth");
    }
  }
  // in sequence, from anywhere, in strides, twice
  int start = static_cast<int>(s.draw(vals.size())), skip = static_cast<int>(s.size(1, 3));
  auto seq = ch.begin_iterator(meta, start, skip);
  for (int round = 0; round < 2; ++round) {
    for (size_t i = start;; i += skip) {
      VarlenDatum d;
      bool end = false;
      ChunkIter_get_next(&seq, unc, &d, &end);
      REQUIRE(end == (i >= vals.size()), what << ": the sequence from " << start << " by " << skip << (end ? " ends" : " goes on") << " at row " << i);
      if (end) {
        REQUIRE(d.is_null && d.length == 0 && !d.pointer, what << ": a value past the end");
        break;
      }
      same(want(i), d.is_null, d.pointer, d.length, i, unc ? "uncompressed get_next" : "get_next");
    }
    ChunkIter_reset(&seq);
  }
}
}  // namespace

FACET(chunks) {
  auto& s = c.s;
  Config cfg;
  cfg.exec.cpu_only = true;
  const size_t page = 512;
  size_t pages = s.size(8, s.draw(1) ? 10 : 40);
  // one slab, at least four times the largest buffer: with nothing pinned a chunk always fits
  cfg.mem.cpu.max_size = pages * page + s.draw(page - 1);
  cfg.mem.cpu.min_slab_size = cfg.mem.cpu.max_slab_size = cfg.mem.cpu.max_size;
  DataMgr mgr(cfg);
  std::vector<int> schemas;
  std::vector<std::shared_ptr<Provider>> provs;
  std::list<Tab> tabs;
  auto psm = mgr.getPersistentStorageMgr();
  for (size_t n = s.size(1, 3); n; --n) {
    int id = static_cast<int>(s.range(0, 100));
    if (std::count(schemas.begin(), schemas.end(), id)) {
      continue;
    }
    schemas.push_back(id);
    provs.push_back(std::make_shared<Provider>());
    provs.back()->zero_copy = s.draw(1);
    REQUIRE(!psm->hasDataProvider(id), "an unknown data provider");
    psm->registerDataProvider(id, provs.back());
    REQUIRE(psm->hasDataProvider(id) && psm->getDataProvider(id) == provs.back(), "the registered data provider");
  }
  size_t largest = pages / 4 * page;
  for (size_t n = s.size(1, 3); n; --n) {
    size_t p = s.draw(provs.size() - 1);
    int db = (schemas[p] << 24) + static_cast<int>(s.draw(2)), id = static_cast<int>(s.size(1, 4));
    if (provs[p]->tabs.count({db, id})) {
      continue;
    }
    tabs.emplace_back();
    auto& t = tabs.back();
    t.db = db;
    t.id = id;
    t.nfrags = s.size(1, 3);
    std::vector<size_t> rows;
    for (size_t f = 0; f < t.nfrags; ++f) {
      rows.push_back(s.size(1, s.chance(1, 6) ? 200 : 12));
    }
    for (size_t k = s.size(1, 4); k; --k) {
      Col col{genType(s)};
      for (auto r : rows) {
        col.frags.emplace_back();
        for (size_t i = 0; i < r; ++i) {
          col.frags.back().push_back(genValue(s, col.type));
        }
      }
      layOut(col);
      col.info = std::make_shared<ColumnInfo>(db, id, static_cast<int>(t.cols.size()), "c" + std::to_string(t.cols.size()), col.type, false);
      t.cols.push_back(std::move(col));
    }
    provs[p]->tabs[{db, id}] = &t;
    int dict = (schemas[p] << 24) + static_cast<int>(s.draw(2)) + 1;
    provs[p]->dicts[dict] = std::make_unique<DictDescriptor>(db, dict, "", 32, true, 1, "", true);
  }
  std::list<Held> held;
  size_t gets = 0, ooms = 0, evicted = 0;
  std::ostringstream log;
  auto keyOf = [](const Tab& t, size_t col, size_t frag) { return ChunkKey{t.db, t.id, static_cast<int>(col), static_cast<int>(frag)}; };
  auto pickTab = [&]() -> Tab& { return *std::next(tabs.begin(), s.draw(tabs.size() - 1)); };
  auto isHeld = [&](const Tab& t, size_t col, size_t frag) {
    return std::any_of(held.begin(), held.end(), [&](auto& h) { return h.tab == &t && h.col == col && h.frag == frag; });
  };
  auto heldStay = [&] {
    auto& t = pickTab();
    for (size_t col = 0; col < t.cols.size(); ++col) {
      for (size_t f = 0; f < t.nfrags; ++f) {
        auto key = keyOf(t, col, f), k1 = key, k2 = key;
        k1.push_back(1);
        k2.push_back(2);
        bool on = t.cols[col].type->isVarLen() ? mgr.isBufferOnDevice(k1, CPU_LEVEL, 0) && mgr.isBufferOnDevice(k2, CPU_LEVEL, 0) : mgr.isBufferOnDevice(key, CPU_LEVEL, 0);
        REQUIRE(Chunk_NS::Chunk(t.cols[col].info).isChunkOnDevice(&mgr, key, CPU_LEVEL, 0) == on, "a chunk is in memory when all of its buffers are");
      }
    }
    for (auto& h : held) {
      REQUIRE(h.chunk->isChunkOnDevice(&mgr, keyOf(*h.tab, h.col, h.frag), CPU_LEVEL, 0), "a chunk in use left the memory");
    }
  };
  for (size_t step = s.size(2, 30); step; --step) {
    switch (s.weighted({8, 3, 1, 1, 1, 2})) {
      case 0: {
        auto& t = pickTab();
        size_t col = s.draw(t.cols.size() - 1), frag = s.draw(t.nfrags - 1);
        auto& cl = t.cols[col];
        if (cl.data[frag].size() > largest || cl.index[frag].size() > largest || cl.data[frag].empty()) {
          break;
        }
        log << "get " << t.db << "." << t.id << "." << col << "." << frag << " " << cl.type->toString() << "; ";
        std::shared_ptr<Chunk_NS::Chunk> ch;
        auto key = keyOf(t, col, frag);
        try {
          ch = s.draw(1) ? Chunk_NS::Chunk::getChunk(cl.info, &mgr, key, CPU_LEVEL, 0, cl.data[frag].size(), cl.frags[frag].size())
                         : mgr.getDataProvider()->getChunk(cl.info, key, CPU_LEVEL, 0, cl.data[frag].size(), cl.frags[frag].size());
        } catch (const OutOfMemory&) {
          ++ooms;
          REQUIRE(!held.empty(), "out of memory although nothing is in use");
          break;
        }
        ++gets;
        REQUIRE(ch->isChunkOnDevice(&mgr, key, CPU_LEVEL, 0), "the chunk is not in memory");
        REQUIRE(ch->getColumnInfo() == cl.info && ch->columnType() == cl.type && ch->getTableId() == t.id && ch->getColumnId() == static_cast<int>(col) && ch->getColumnName() == cl.info->name,
                "the column of a chunk");
        readAll(s, cl, frag, *ch);
        if (s.chance(1, 2)) {
          held.push_back({&t, col, frag, ch});
        }
        break;
      }
      case 1:
        if (!held.empty()) {
          auto h = std::next(held.begin(), s.draw(held.size() - 1));
          log << "drop; ";
          readAll(s, h->tab->cols[h->col], h->frag, *h->chunk);
          held.erase(h);
        }
        break;
      case 2: {
        auto& t = pickTab();
        ChunkKey p{t.db, t.id};
        if (s.draw(1)) {
          p.push_back(static_cast<int>(s.draw(t.cols.size() - 1)));
        }
        bool all = s.draw(1);
        log << "delete " << t.db << "." << t.id << (all ? " everywhere" : "") << "; ";
        size_t before = 0;
        for (auto& pr : provs) {
          before += pr->deleted.size();
        }
        all ? mgr.deleteChunksWithPrefix(p) : mgr.deleteChunksWithPrefix(p, CPU_LEVEL);
        size_t after = 0;
        for (size_t i = 0; i < provs.size(); ++i) {
          after += provs[i]->deleted.size();
          if (all && schemas[i] == t.db >> 24) {
            REQUIRE(!provs[i]->deleted.empty() && provs[i]->deleted.back() == p, "the provider was not told of the deletion");
          }
        }
        REQUIRE(after == before + all, after - before << " providers were told of the deletion");
        for (size_t col = 0; col < t.cols.size(); ++col) {
          for (size_t f = 0; f < t.nfrags; ++f) {
            if ((p.size() == 2 || p[2] == static_cast<int>(col)) && !isHeld(t, col, f)) {
              Chunk_NS::Chunk probe(t.cols[col].info);
              REQUIRE(!probe.isChunkOnDevice(&mgr, keyOf(t, col, f), CPU_LEVEL, 0), "a deleted chunk stays in memory");
            }
          }
        }
        break;
      }
      case 3: {
        log << "clear; ";
        mgr.clearMemory(CPU_LEVEL);
        ++evicted;
        for (auto& t : tabs) {
          for (size_t col = 0; col < t.cols.size(); ++col) {
            for (size_t f = 0; f < t.nfrags; ++f) {
              if (!isHeld(t, col, f)) {
                Chunk_NS::Chunk probe(t.cols[col].info);
                REQUIRE(!probe.isChunkOnDevice(&mgr, keyOf(t, col, f), CPU_LEVEL, 0), "a chunk stays in the cleared memory");
              }
            }
          }
        }
        break;
      }
      case 4: {  // working memory
        size_t n = s.size(1, page * 3);
        log << "alloc " << n << "; ";
        try {
          bool via = s.draw(1);
          auto a = via ? mgr.getBufferProvider()->alloc(CPU_LEVEL, 0, n) : mgr.alloc(CPU_LEVEL, 0, n);
          AbstractBuffer* b = nullptr;
          try {
            b = mgr.alloc(CPU_LEVEL, 0, n);
          } catch (const OutOfMemory&) {
          }
          REQUIRE(a->reservedSize() >= n && a->getType() == CPU_LEVEL && a->getDeviceId() == 0, "an allocated buffer");
          Bytes d(n);
          for (size_t i = 0; i < n; ++i) {
            d[i] = static_cast<int8_t>(pbt::mix(n + i));
          }
          a->write(d.data(), n, 0, CPU_LEVEL, 0);
          if (b) {
            mgr.copy(b, a);
            REQUIRE(b->size() == n && !memcmp(b->getMemoryPtr(), d.data(), n), "the copy of a buffer");
            mgr.free(b);
          }
          REQUIRE(a->size() == n && !memcmp(a->getMemoryPtr(), d.data(), n), "the content of a buffer");
          via ? mgr.getBufferProvider()->free(a) : mgr.free(a);
        } catch (const OutOfMemory&) {
          ++ooms;
          REQUIRE(!held.empty(), "out of memory although nothing is in use");
        }
        break;
      }
      default: {  // lookups are answered by the provider of the schema
        auto& t = pickTab();
        auto prov = provs[std::find(schemas.begin(), schemas.end(), t.db >> 24) - schemas.begin()];
        bool via = s.draw(1);
        auto m = via ? mgr.getDataProvider()->getTableMetadata(t.db, t.id) : mgr.getTableMetadata(t.db, t.id);
        REQUIRE(m == t.meta, "the metadata of table " << t.db << "." << t.id);
        int dict = (static_cast<int>(s.range(0, 2)) == 0 ? static_cast<int>(s.range(0, 100)) : s.pick(schemas)) << 24;
        dict += static_cast<int>(s.draw(3));
        const DictDescriptor* want = nullptr;
        for (size_t i = 0; i < schemas.size(); ++i) {
          if (schemas[i] == dict >> 24 && provs[i]->dicts.count(dict)) {
            want = provs[i]->dicts[dict].get();
          }
        }
        auto got = via ? mgr.getDataProvider()->getDictMetadata(dict) : mgr.getDictMetadata(dict);
        REQUIRE(got == want, "the dictionary " << dict);
        auto& cl = s.pick(t.cols);
        auto tok = via ? mgr.getDataProvider()->getZeroCopyColumnData(*cl.info) : mgr.getZeroCopyColumnData(*cl.info);
        auto exp = prov->getZeroCopyColumnData(*cl.info);
        REQUIRE(!tok == !exp, "zero-copy column data");
        if (tok) {
          REQUIRE(tok->getSize() == exp->getSize() && !memcmp(tok->getMemoryPtr(), exp->getMemoryPtr(), exp->getSize()) && tok->getType() == exp->getType(), "zero-copy column data");
        }
        auto mi = mgr.getMemoryInfo(CPU_LEVEL);
        REQUIRE(mi.size() == 1 && mi[0].pageSize == page && mi[0].maxNumPages == pages && mi[0].numPageAllocated <= pages, "the memory report");
        REQUIRE(mgr.getMemoryInfo(GPU_LEVEL).empty() && !mgr.gpusPresent(), "memory of a GPU");
      }
    }
    heldStay();
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  for (auto& h : held) {
    readAll(s, h.tab->cols[h.col], h.frag, *h.chunk);
  }
  held.clear();
  // nothing stays pinned
  mgr.clearMemory(CPU_LEVEL);
  auto mi = mgr.getMemoryInfo(CPU_LEVEL);
  REQUIRE(mi[0].numPageAllocated == 0, "memory stays in use when no chunk is");
  c.nontrivial(gets >= 2);
  c.label(ooms > 0, "out of memory");
  c.label(provs.size() > 1, "several providers");
}

PBT_MAIN
