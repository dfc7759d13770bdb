// A small in-memory storage layer: the same two interfaces ArrowStorage implements (schema provider + data provider),
// with the same fragment layout, inline nulls and Encoder-computed chunk statistics, but with no Arrow underneath.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <variant>
#include <vector>

#include "DataMgr/AbstractDataProvider.h"
#include "DataMgr/Encoder.h"
#include "DataProvider/DictDescriptor.h"
#include "IR/Context.h"
#include "IR/Type.h"
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"
#include "Shared/InlineNullValues.h"
#include "StringDictionary/StringDictionary.h"

namespace mem {

struct Cell {
  bool null = true;
  int64_t i = 0;
  double d = 0;
  std::string s;
  std::vector<Cell> arr;
  static Cell Null() { return {}; }
  static Cell I(int64_t v) {
    Cell c;
    c.null = false;
    c.i = v;
    return c;
  }
  static Cell D(double v) {
    Cell c;
    c.null = false;
    c.d = v;
    return c;
  }
  static Cell S(std::string v) {
    Cell c;
    c.null = false;
    c.s = std::move(v);
    return c;
  }
  static Cell A(std::vector<Cell> v) {
    Cell c;
    c.null = false;
    c.arr = std::move(v);
    return c;
  }
};

struct Col {
  std::string name;
  const hdk::ir::Type* type;  // for dictionary columns: any ExtDictionary type; the dictionary id is assigned here
  std::vector<Cell> cells;
  int share_dict_with = -1;   // index of an earlier column of the same table whose dictionary is shared
};

inline const int kSchemaId = 7;
inline const int kDbId = (kSchemaId << 24) + 1;

class MemToken : public Data_Namespace::AbstractDataToken {
 public:
  MemToken(const hdk::ir::Type* t, const int8_t* p, size_t s) : t_(t), p_(p), s_(s) {}
  const int8_t* getMemoryPtr() const override { return p_; }
  size_t getSize() const override { return s_; }
  const hdk::ir::Type* getType() const override { return t_; }

 private:
  const hdk::ir::Type* t_;
  const int8_t* p_;
  size_t s_;
};

class MemStorage : public SimpleSchemaProvider, public AbstractDataProvider {
 public:
  MemStorage() : SimpleSchemaProvider(hdk::ir::Context::defaultCtx(), kSchemaId, "mem") {}

  bool zero_copy = true;

  template <typename T>
  static void put(std::vector<int8_t>& out, T v) {
    auto p = reinterpret_cast<const int8_t*>(&v);
    out.insert(out.end(), p, p + sizeof(T));
  }

  static void putFixed(std::vector<int8_t>& out, const hdk::ir::Type* t, const Cell& c, StringDictionary* dict) {
    if (t->isExtDictionary()) {
      int32_t id = c.null ? inline_null_value<int32_t>() : dict->getOrAdd(c.s);
      switch (t->size()) {
        case 1:
          put<uint8_t>(out, c.null ? inline_null_value<uint8_t>() : id);
          return;
        case 2:
          put<uint16_t>(out, c.null ? inline_null_value<uint16_t>() : id);
          return;
        default:
          put<int32_t>(out, id);
          return;
      }
    }
    if (t->isFp32()) {
      put<float>(out, c.null ? inline_null_value<float>() : static_cast<float>(c.d));
      return;
    }
    if (t->isFp64()) {
      put<double>(out, c.null ? inline_null_value<double>() : c.d);
      return;
    }
    switch (t->size()) {
      case 1:
        put<int8_t>(out, c.null ? inline_null_value<int8_t>() : c.i);
        return;
      case 2:
        put<int16_t>(out, c.null ? inline_null_value<int16_t>() : c.i);
        return;
      case 4:
        put<int32_t>(out, c.null ? inline_null_value<int32_t>() : c.i);
        return;
      case 8:
        put<int64_t>(out, c.null ? inline_null_value<int64_t>() : c.i);
        return;
    }
    abort();
  }

  // All columns must have the same number of cells.  Returns the table id.
  int createTable(const std::string& name, std::vector<Col> cols, size_t frag_size) {
    int table_id = next_table_id_++;
    size_t rows = cols.empty() ? 0 : cols[0].cells.size();
    auto& tbl = tables_[table_id];
    size_t nfrag = rows ? (rows + frag_size - 1) / frag_size : 0;
    std::vector<int> dict_ids(cols.size(), 0);
    for (size_t c = 0; c < cols.size(); ++c) {
      auto t = cols[c].type;
      auto elem = t->isArray() ? t->as<hdk::ir::ArrayBaseType>()->elemType() : t;
      if (elem->isExtDictionary()) {
        if (cols[c].share_dict_with >= 0) {
          dict_ids[c] = dict_ids[cols[c].share_dict_with];
        } else {
          dict_ids[c] = addDictionary(elem->size() * 8);
        }
        elem = ctx_.extDict(elem->as<hdk::ir::ExtDictionaryType>()->elemType(), dict_ids[c], elem->size());
        if (t->isVarLenArray()) {
          t = ctx_.arrayVarLen(elem, 4, t->nullable());
        } else if (t->isFixedLenArray()) {
          t = ctx_.arrayFixed(t->as<hdk::ir::FixedLenArrayType>()->numElems(), elem, t->nullable());
        } else {
          t = elem;
        }
        cols[c].type = t;
      }
    }
    addTableInfo(kDbId, table_id, name, false, nfrag ? nfrag : size_t(1), rows);
    for (size_t c = 0; c < cols.size(); ++c) {
      addColumnInfo(kDbId, table_id, static_cast<int>(c + 1), cols[c].name, cols[c].type, false);
    }
    addRowidColumn(kDbId, table_id, static_cast<int>(cols.size() + 1));

    TableStats table_stats;
    auto& info = tbl.info;
    info = std::make_shared<TableFragmentsInfo>();
    info->setPhysicalNumTuples(rows);
    info->chunkKeyPrefix = {kDbId, table_id};
    tbl.cols.resize(cols.size());
    if (!rows) {
      for (int k = 0; k < 2; ++k) {
        FragmentInfo f;
        f.fragmentId = 0;
        f.setPhysicalNumTuples(0);
        f.deviceIds = {0, 0, 0};
        f.physicalTableId = table_id;
        info->fragments.push_back(f);
      }
      return table_id;
    }
    for (size_t f = 0; f < nfrag; ++f) {
      size_t beg = f * frag_size, end = std::min(rows, beg + frag_size);
      auto& fi = info->fragments.emplace_back();
      fi.fragmentId = static_cast<int>(f + 1);
      fi.physicalTableId = table_id;
      fi.setPhysicalNumTuples(end - beg);
      fi.deviceIds = {0, 0, 0};
      for (size_t c = 0; c < cols.size(); ++c) {
        auto t = cols[c].type;
        auto& chunk = tbl.cols[c].emplace_back();
        auto elem = t->isArray() ? t->as<hdk::ir::ArrayBaseType>()->elemType() : t;
        StringDictionary* dict = dict_ids[c] ? dicts_.at(dict_ids[c])->stringDict.get() : nullptr;
        std::unique_ptr<Encoder> encoder(Encoder::Create(nullptr, elem));
        ChunkStats stats;
        if (t->isString()) {
          chunk.offsets.push_back(0);
          bool has_nulls = false;
          for (size_t r = beg; r < end; ++r) {
            auto& cell = cols[c].cells[r];
            has_nulls |= cell.null;
            chunk.data.insert(chunk.data.end(), cell.s.begin(), cell.s.end());
            chunk.offsets.push_back(static_cast<uint32_t>(chunk.data.size()));
          }
          stats.min.bigintval = stats.max.bigintval = 0;
          stats.has_nulls = has_nulls;
        } else if (t->isVarLenArray()) {
          // Null arrays: negative offsets, as ArrowStorage's replaceNullValuesVarSizedArray lays them out.
          std::vector<int32_t> offs;
          bool first_null = end > beg && cols[c].cells[beg].null;
          if (first_null) {
            chunk.data.insert(chunk.data.end(), 8, 0);  // ArrayNoneEncoder::DEFAULT_NULL_PADDING_SIZE
          }
          offs.push_back(static_cast<int32_t>(chunk.data.size()));
          for (size_t r = beg; r < end; ++r) {
            auto& cell = cols[c].cells[r];
            if (cell.null) {
              offs.push_back(-static_cast<int32_t>(chunk.data.size()));
            } else {
              for (auto& e : cell.arr) {
                putFixed(chunk.data, elem, e, dict);
              }
              offs.push_back(static_cast<int32_t>(chunk.data.size()));
            }
          }
          for (auto o : offs) {
            chunk.offsets.push_back(static_cast<uint32_t>(o));
          }
          encoder->updateStatsEncoded(chunk.data.data(), chunk.data.size() / elem->size());
          encoder->fillChunkStats(stats, elem);
        } else if (t->isFixedLenArray()) {
          abort();  // not used by the harnesses
        } else {
          for (size_t r = beg; r < end; ++r) {
            putFixed(chunk.data, t, cols[c].cells[r], dict);
          }
          encoder->updateStatsEncoded(chunk.data.data(), end - beg);
          encoder->fillChunkStats(stats, t);
        }
        auto meta = std::make_shared<ChunkMetadata>(t, chunk.data.size(), end - beg, stats);
        fi.setChunkMetadata(static_cast<int>(c + 1), meta);
        auto it = table_stats.find(static_cast<int>(c + 1));
        if (it == table_stats.end()) {
          table_stats.emplace(static_cast<int>(c + 1), stats);
        } else {
          mergeStats(it->second, stats, t);
        }
      }
    }
    info->setTableStats(table_stats);
    return table_id;
  }

  void drop(int table_id) {
    if (tables_.erase(table_id)) {
      SimpleSchemaProvider::dropTable(kDbId, table_id);
    }
  }

  void clearDicts() {
    if (tables_.empty()) {
      dicts_.clear();
    }
  }

  int addDictionary(int bits) {
    int dict_id = addSchemaId(next_dict_id_++, kSchemaId);
    auto dd = std::make_unique<DictDescriptor>(kDbId, dict_id, "d" + std::to_string(dict_id), bits, false, 1, "", true);
    dd->stringDict = std::make_shared<StringDictionary>(DictRef{kDbId, dict_id}, true);
    dicts_[dict_id] = std::move(dd);
    return dict_id;
  }

  void fetchBuffer(const ChunkKey& key, Data_Namespace::AbstractBuffer* dest, const size_t num_bytes = 0) override {
    auto& chunk = chunkAt(key);
    auto type = getColumnInfo(key[0], key[1], key[2])->type;
    dest->reserve(num_bytes);
    const int8_t* src;
    size_t avail;
    if (!type->isVarLen()) {
      src = chunk.data.data();
      avail = chunk.data.size();
    } else if (key[4] == 1) {
      if (!dest->hasEncoder()) {
        dest->initEncoder(type);
      }
      src = chunk.data.data();
      avail = chunk.data.size();
    } else {
      src = reinterpret_cast<const int8_t*>(chunk.offsets.data());
      avail = chunk.offsets.size() * 4;
    }
    memcpy(dest->getMemoryPtr(), src, std::min(avail, num_bytes));
    dest->setSize(num_bytes);
  }

  std::unique_ptr<Data_Namespace::AbstractDataToken> getZeroCopyBufferMemory(const ChunkKey& key,
                                                                             size_t num_bytes) override {
    if (!zero_copy) {
      return nullptr;
    }
    auto type = getColumnInfo(key[0], key[1], key[2])->type;
    if (type->isVarLen()) {
      return nullptr;
    }
    auto& chunk = chunkAt(key);
    return std::make_unique<MemToken>(type, chunk.data.data(), chunk.data.size());
  }

  std::shared_ptr<const TableFragmentsInfo> getTableMetadata(int db_id, int table_id) const override {
    return tables_.at(table_id).info;
  }

  const DictDescriptor* getDictMetadata(int dict_id, bool load_dict = true) override {
    auto it = dicts_.find(dict_id);
    return it == dicts_.end() ? nullptr : it->second.get();
  }

 private:
  struct Chunk {
    std::vector<int8_t> data;
    std::vector<uint32_t> offsets;
  };
  struct Table {
    std::vector<std::vector<Chunk>> cols;
    std::shared_ptr<TableFragmentsInfo> info;
  };
  Chunk& chunkAt(const ChunkKey& key) {
    auto& t = tables_.at(key[1]);
    return t.cols.at(key[2] - 1).at(key[3] - 1);
  }

  int next_table_id_ = 1;
  int next_dict_id_ = 1;
  std::map<int, Table> tables_;
  std::map<int, std::unique_ptr<DictDescriptor>> dicts_;
};

}  // namespace mem
