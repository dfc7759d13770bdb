// Catalogue, settings, cost model and embedded database: the small services around the query engine.
#include "Calcite/SchemaJson.h"
#include "ConfigBuilder/ConfigBuilder.h"
#include "IR/Context.h"
#include "QueryEngine/CostModel/Dispatchers/DefaultExecutionPolicy.h"
#include "QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h"
#include "QueryEngine/CostModel/Dispatchers/RRExecutionPolicy.h"
#include "QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.h"
#ifdef HAVE_ARMADILLO
#include "QueryEngine/CostModel/ExtrapolationModels/LinearRegression.h"
#endif
#include "QueryEngine/CostModel/ExtrapolationModels/ExtrapolationModelProvider.h"
#include "QueryEngine/CostModel/IterativeCostModel.h"
#include "ResultSetRegistry/ResultSetRegistry.h"
#include "SchemaMgr/SchemaMgr.h"
#include "SchemaMgr/SimpleSchemaProvider.h"
#include "SqliteConnector/SqliteConnector.h"
#include "common/gen_str.h"
#include "common/pbt.h"

#include <boost/program_options.hpp>
#include <rapidjson/document.h>

#include <filesystem>
#include <set>
#include <unistd.h>

using namespace hdk::ir;
namespace {
Context& ctx() {
  return Context::defaultCtx();
}

// ---------------------------------------------------------------- catalogue
class Catalogue : public SimpleSchemaProvider {
 public:
  Catalogue(int id) : SimpleSchemaProvider(Context::defaultCtx(), id, "cat" + std::to_string(id)) {}
  using SimpleSchemaProvider::addColumnInfo;
  using SimpleSchemaProvider::addRowidColumn;
  using SimpleSchemaProvider::addTableInfo;
  using SimpleSchemaProvider::dropTable;
};
struct MCol {
  std::string name;
  const Type* type;
  bool rowid;
};
struct MTable {
  std::string name;
  size_t frags, rows;
  bool view, stream;
  std::map<int, MCol> cols;
};
using MDb = std::map<int, MTable>;
const Type* someType(pbt::Src& s) {
  bool n = s.draw(1);
  switch (s.draw(13)) {
    case 0:
      return ctx().boolean(n);
    case 1:
      return ctx().int8(n);
    case 2:
      return ctx().int16(n);
    case 3:
      return ctx().int32(n);
    case 4:
      return ctx().int64(n);
    case 5:
      return ctx().fp32(n);
    case 6:
      return ctx().fp64(n);
    case 7: {
      int p = static_cast<int>(s.range(1, 18));
      return ctx().decimal64(p, static_cast<int>(s.range(0, p)), n);
    }
    case 8:
      return ctx().timestamp(s.pick<TimeUnit>({TimeUnit::kSecond, TimeUnit::kMilli, TimeUnit::kMicro, TimeUnit::kNano}), n);
    case 9:
      return ctx().text(n);
    case 10:
      return ctx().varChar(static_cast<int>(s.range(1, 1000)), n);
    case 11:
      return ctx().time64(TimeUnit::kSecond, n);
    case 12:
      return s.draw(1) ? ctx().date32(TimeUnit::kDay, n) : ctx().date64(TimeUnit::kSecond, n);
    default:
      return ctx().extDict(ctx().text(n), static_cast<int>(s.range(1, 50)));
  }
}
const Type* columnType(pbt::Src& s) {
  auto t = someType(s);
  if (t->isString()) {
    return t;
  }
  switch (s.draw(7)) {
    case 0:
      return ctx().arrayFixed(static_cast<int>(s.range(1, 9)), t, s.draw(1));
    case 1:
      return ctx().arrayVarLen(t, 4, s.draw(1));
    default:
      return t;
  }
}
std::string tname(pbt::Src& s) {
  return s.pick<std::string>({"a", "b", "t", "T", "t1", "table one", "x\"y", "\xc3\xa9", "rowid", "", "verylongname_verylongname_verylongname"});
}
void checkTable(const SchemaProvider& p, int db, int id, const MTable& m) {
  auto ti = p.getTableInfo(db, id), tn = p.getTableInfo(db, m.name), tr = p.getTableInfo(TableRef(db, id));
  REQUIRE(ti && tn && tr, "table " << db << "." << id << " (" << m.name << ") is not found " << (ti ? "by name" : "by number"));
  REQUIRE(ti == tn && ti == tr, "table " << db << "." << id << " by number and by name are different tables");
  REQUIRE(ti->db_id == db && ti->table_id == id && ti->name == m.name && ti->fragments == m.frags && ti->row_count == m.rows && ti->is_view == m.view && ti->is_stream == m.stream,
          "table " << db << "." << id << " is described as " << ti->toString());
  auto cols = p.listColumns(db, id), cols2 = p.listColumns(*ti);
  REQUIRE(cols == cols2, "two column lists differ");
  REQUIRE(cols.size() == m.cols.size(), "table " << db << "." << id << " has " << cols.size() << " columns, expected " << m.cols.size());
  size_t i = 0;
  for (auto& [cid, mc] : m.cols) {
    auto& c = cols[i++];
    REQUIRE(c->column_id == cid && c->name == mc.name && c->type == mc.type && c->is_rowid == mc.rowid && c->db_id == db && c->table_id == id,
            "column " << cid << " (" << mc.name << ") of table " << db << "." << id << " is listed as " << c->toString());
    REQUIRE(p.getColumnInfo(db, id, cid) == c && p.getColumnInfo(db, id, mc.name) == c && p.getColumnInfo(*ti, cid) == c && p.getColumnInfo(*ti, mc.name) == c &&
                p.getColumnInfo(::ColumnRef(db, id, cid)) == c,
            "column " << cid << " (" << mc.name << ") of table " << db << "." << id << " is a different one by number and by name");
  }
  REQUIRE(!p.getColumnInfo(db, id, 77777) && !p.getColumnInfo(db, id, std::string("no such")), "an unknown column is found");
}
void checkProvider(const SchemaProvider& p, const std::map<int, MDb>& m, const std::set<int>& probe_ids) {
  auto dbs = p.listDatabases();
  std::multiset<int> got(dbs.begin(), dbs.end()), want;
  for (auto& [db, _] : m) {
    want.insert(db);
  }
  REQUIRE(got == want, "wrong list of databases: " << got.size() << " expected " << want.size());
  for (auto& [db, ts] : m) {
    auto l = p.listTables(db);
    std::multiset<int> ids, wids;
    for (auto& t : l) {
      ids.insert(t->table_id);
    }
    for (auto& [id, _] : ts) {
      wids.insert(id);
    }
    REQUIRE(ids == wids, "wrong list of tables of database " << db);
    for (auto& [id, t] : ts) {
      checkTable(p, db, id, t);
    }
    for (int id : probe_ids) {
      if (!ts.count(id)) {
        REQUIRE(!p.getTableInfo(db, id) && !p.getColumnInfo(db, id, 1), "a table that is not there is found");
      }
    }
    REQUIRE(!p.getTableInfo(db, std::string("no such")), "an unknown name is found");
  }
}
}  // namespace

FACET(schema) {
  auto& s = c.s;
  std::vector<int> schemas;
  std::vector<std::shared_ptr<Catalogue>> cats;
  size_t ncats = s.size(1, 4);
  for (size_t i = 0; i < ncats; ++i) {
    int id = static_cast<int>(s.pick<int64_t>({0, 1, 2, 3, 64, 127}));
    if (std::count(schemas.begin(), schemas.end(), id)) {
      continue;
    }
    schemas.push_back(id);
    cats.push_back(std::make_shared<Catalogue>(id));
  }
  std::vector<std::map<int, MDb>> model(cats.size());
  std::ostringstream log;
  std::set<int> ids;
  size_t drops = 0;
  for (size_t n = s.size(1, 16); n; --n) {
    size_t k = s.draw(cats.size() - 1);
    int db = addSchemaIdChecked(static_cast<int>(s.pick<int64_t>({0, 1, 2, 3, (1 << 24) - 1})), schemas[k]);
    auto& mdb = model[k];
    if (mdb.count(db) && !mdb[db].empty() && s.chance(1, 4)) {
      auto it = mdb[db].begin();
      std::advance(it, s.draw(mdb[db].size() - 1));
      cats[k]->dropTable(db, it->first);
      log << "drop " << db << "." << it->first << "; ";
      mdb[db].erase(it);
      ++drops;
    } else {
      int id = static_cast<int>(s.pick<int64_t>({1, 2, 3, 4, 5, 1 << 20, 2147483647}));
      auto name = tname(s);
      bool taken = false;
      for (auto& [i, t] : mdb[db]) {
        taken |= i == id || t.name == name;
      }
      if (taken) {
        if (mdb[db].empty()) {
          mdb.erase(db);
        }
        continue;
      }
      MTable t{name, s.draw(5), s.draw(1000), s.draw(1) != 0, s.draw(1) != 0, {}};
      cats[k]->addTableInfo(db, id, name, t.view, t.frags, t.rows, t.stream);
      log << "create " << db << "." << id << " " << pbt::jstr(name) << "(";
      ids.insert(id);
      std::vector<int> cids;
      for (size_t q = s.size(1, 6); q; --q) {
        int cid = static_cast<int>(s.range(1, 12));
        auto cn = s.pick<std::string>({"a", "b", "c", "A", "x y", "", "d", "rowid2", "\xc3\xa9"});
        bool dup = t.cols.count(cid);
        for (auto& [_, x] : t.cols) {
          dup |= x.name == cn;
        }
        if (dup) {
          continue;
        }
        t.cols[cid] = {cn, columnType(s), false};
        cats[k]->addColumnInfo(db, id, cid, cn, t.cols[cid].type, false);
        log << cid << " " << cn << ",";
      }
      if (s.draw(1)) {
        t.cols[100] = {"rowid", ctx().int64(), true};
        cats[k]->addRowidColumn(db, id, 100);
      }
      log << "); ";
      mdb[db][id] = t;
    }
  }
  c.describe([&](std::ostream& o) { o << cats.size() << " catalogues: " << log.str(); });
  std::map<int, MDb> all;
  std::set<int> used;
  for (size_t i = 0; i < cats.size(); ++i) {
    checkProvider(*cats[i], model[i], ids);
    REQUIRE(cats[i]->getId() == schemas[i] && cats[i]->getName() == "cat" + std::to_string(schemas[i]), "a catalogue forgets its name");
    for (auto& [db, m] : model[i]) {
      all[db] = m;
      REQUIRE(getSchemaId(db) == schemas[i], "the schema of database " << db << " is " << getSchemaId(db));
      used.insert(schemas[i]);
    }
  }
  c.nontrivial(all.size() > 1 && drops);
  c.label(drops ? "with drops" : "no drops");
  // all of them seen through one
  auto merged = mergeProviders(std::vector<SchemaProviderPtr>(cats.begin(), cats.end()));
  checkProvider(*merged, all, ids);
  for (int sc : {0, 1, 2, 3, 5, 64, 127}) {
    if (!used.count(sc)) {
      int db = addSchemaId(1, sc);
      REQUIRE(merged->listTables(db).empty() && merged->listColumns(db, 1).empty() && !merged->getTableInfo(db, 1) && !merged->getTableInfo(db, std::string("a")) && !merged->getColumnInfo(db, 1, 1),
              "the merged catalogue finds something in the unused schema " << sc);
    }
  }
  if (!used.empty()) {
    auto twice = std::vector<SchemaProviderPtr>(cats.begin(), cats.end());
    twice.push_back(cats[s.draw(cats.size() - 1)]);
    bool dup = !model[static_cast<size_t>(std::find(cats.begin(), cats.end(), twice.back()) - cats.begin())].empty();
    bool refused = false;
    try {
      mergeProviders(twice);
    } catch (const std::runtime_error&) {
      refused = true;
    }
    REQUIRE(refused == dup, "two catalogues with the same schema are " << (refused ? "refused" : "accepted"));
  }
  // later changes show through the merged view
  if (!all.empty() && s.chance(1, 2)) {
    for (size_t i = 0; i < cats.size(); ++i) {
      for (auto& [db, m] : model[i]) {
        if (!m.empty()) {
          int id = m.begin()->first;
          cats[i]->dropTable(db, id);
          m.erase(id);
          all[db].erase(id);
          checkProvider(*merged, all, ids);
          return;
        }
      }
    }
  }
}

// What the SQL front end is told about the tables.
FACET(schema_json) {
  auto& s = c.s;
  Catalogue cat(1);
  int db = addSchemaIdChecked(static_cast<int>(s.range(0, 5)), 1);
  std::map<int, MTable> m;
  std::set<std::string> names;
  std::ostringstream log;
  for (size_t n = s.size(0, 4); n; --n) {
    auto name = s.chance(1, 2) ? tname(s) : gen::shortStr(s, 6, true);
    name = std::string(name.c_str());
    if (!names.insert(name).second) {
      continue;
    }
    int id = static_cast<int>(m.size()) + 1 + static_cast<int>(s.draw(1)) * 10;
    if (m.count(id)) {
      continue;
    }
    MTable t{name, 1, 1, false, false, {}};
    cat.addTableInfo(db, id, name, false, size_t(1), size_t(1), false);
    std::set<std::string> cn;
    for (size_t q = s.size(1, 6); q; --q) {
      std::string x = std::string(gen::shortStr(s, 6, true).c_str());
      int cid = static_cast<int>(t.cols.size()) + 1;
      if (!cn.insert(x).second) {
        continue;
      }
      t.cols[cid] = {x, columnType(s), false};
      cat.addColumnInfo(db, id, cid, x, t.cols[cid].type, false);
      log << x << " " << t.cols[cid].type->toString() << ", ";
    }
    if (t.cols.empty()) {
      t.cols[1] = {"c", ctx().int32(), false};
      cat.addColumnInfo(db, id, 1, std::string("c"), ctx().int32(), false);
    }
    if (s.draw(1) && !cn.count("rowid")) {
      t.cols[100] = {"rowid", ctx().int64(), true};
      cat.addRowidColumn(db, id, 100);
    }
    m[id] = t;
  }
  c.describe([&](std::ostream& o) { o << m.size() << " tables " << log.str(); });
  c.nontrivial(!m.empty());
  auto js = schema_to_json(&cat);
  rapidjson::Document d;
  d.Parse(js.c_str());
  REQUIRE(!d.HasParseError() && d.IsObject(), "not a JSON object: " << js);
  REQUIRE(d.MemberCount() == m.size(), "described " << d.MemberCount() << " tables of " << m.size() << ": " << js);
  for (auto& [id, t] : m) {
    auto it = d.FindMember(t.name.c_str());
    REQUIRE(it != d.MemberEnd(), "table " << pbt::jstr(t.name) << " is missing: " << js);
    auto& jt = it->value;
    REQUIRE(jt["name"].GetString() == t.name && jt["id"].GetInt() == id, "wrong name or number: " << js);
    auto& cols = jt["columns"];
    REQUIRE(cols.Size() == t.cols.size(), "wrong number of columns: " << js);
    rapidjson::SizeType i = 0;
    for (auto& [cid, mc] : t.cols) {
      auto& jc = cols[i++];
      auto base = mc.type;
      bool arr = base->isArray();
      if (arr) {
        base = base->as<ArrayBaseType>()->elemType();
      }
      int ty = 0, dim = 0, scale = 0;
      switch (base->id()) {
        case Type::kBoolean:
          ty = 1;
          break;
        case Type::kInteger:
          ty = base->size() == 1 ? 18 : base->size() == 2 ? 7 : base->size() == 4 ? 6 : 12;
          break;
        case Type::kFloatingPoint:
          ty = base->isFp32() ? 8 : 9;
          break;
        case Type::kDecimal:
          ty = 5;
          dim = base->as<DecimalType>()->precision();
          scale = base->as<DecimalType>()->scale();
          break;
        case Type::kTimestamp: {
          auto u = base->as<TimestampType>()->unit();
          ty = 11;
          dim = u == TimeUnit::kSecond ? 0 : u == TimeUnit::kMilli ? 3 : u == TimeUnit::kMicro ? 6 : 9;
          break;
        }
        case Type::kText:
        case Type::kExtDictionary:
          ty = 13;
          break;
        case Type::kVarChar:
          ty = 3;
          dim = base->as<VarCharType>()->maxLength();
          break;
        case Type::kTime:
          ty = 10;
          break;
        default:
          ty = 14;
      }
      REQUIRE(jc["name"].GetString() == mc.name, "column " << pbt::jstr(mc.name) << " is called " << jc["name"].GetString());
      REQUIRE(jc["coltype"].GetInt() == (arr ? 15 : ty) && jc["colsubtype"].GetInt() == (arr ? ty : 0) && jc["coldim"].GetInt() == dim && jc["colscale"].GetInt() == scale,
              "column " << pbt::jstr(mc.name) << " of type " << mc.type->toString() << " is described by " << jc["coltype"].GetInt() << "/" << jc["colsubtype"].GetInt() << "/" << jc["coldim"].GetInt() << "/"
                        << jc["colscale"].GetInt() << ", expected " << (arr ? 15 : ty) << "/" << (arr ? ty : 0) << "/" << dim << "/" << scale);
      REQUIRE(jc["is_notnull"].GetBool() == !mc.type->nullable() && jc["is_systemcol"].GetBool() == mc.rowid && jc["is_virtualcol"].GetBool() == mc.rowid && !jc["is_deletedcol"].GetBool(),
              "wrong flags of column " << pbt::jstr(mc.name));
    }
  }
}

// ---------------------------------------------------------------- settings
namespace {
struct Opt {
  std::string name;
  std::function<std::string(const Config&)> get;
  std::function<std::string(pbt::Src&, Config&)> set;  // a new value, as it is written
  bool implicit;
  bool flag;
};
template <typename T>
std::string showv(const T& v) {
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
inline std::string genv(pbt::Src& s, bool& v) {
  v = s.draw(1);
  return v ? s.pick<std::string>({"true", "1", "on", "yes"}) : s.pick<std::string>({"false", "0", "off", "no"});
}
template <typename T>
std::string genInt(pbt::Src& s, T& v) {
  using L = std::numeric_limits<T>;
  switch (s.draw(3)) {
    case 0:
      v = static_cast<T>(s.draw(100));
      break;
    case 1:
      v = L::max();
      break;
    case 2:
      v = L::is_signed ? L::min() : T(0);
      break;
    default:
      v = static_cast<T>(s.draw(static_cast<uint64_t>(L::max())));
  }
  return std::to_string(v);
}
inline std::string genv(pbt::Src& s, size_t& v) {
  return genInt(s, v);
}
inline std::string genv(pbt::Src& s, unsigned& v) {
  return genInt(s, v);
}
inline std::string genv(pbt::Src& s, int64_t& v) {
  return genInt(s, v);
}
inline std::string genv(pbt::Src& s, short& v) {
  return genInt(s, v);
}
inline std::string genv(pbt::Src& s, double& v) {
  v = static_cast<double>(s.range(-1000, 1000)) / 64;
  return showv(v);
}
inline std::string genv(pbt::Src& s, float& v) {
  v = static_cast<float>(s.range(-1000, 1000)) / 64;
  return showv(v);
}
inline std::string genv(pbt::Src& s, std::string& v) {
  v = s.pick<std::string>({"a", "x.bin", "/tmp/x", "intel", "nvidia", "a-b=c", "--x"});
  return v;
}
const std::vector<Opt>& opts() {
  static const std::vector<Opt> o = [] {
    std::vector<Opt> o;
#define OPT(NAME, FIELD, IMPL)                                                \
  o.push_back({NAME, [](const Config& k) { return showv(k.FIELD); },          \
               [](pbt::Src& s, Config& k) { return genv(s, k.FIELD); }, IMPL, \
               std::is_same_v<decltype(Config().FIELD), bool>});
  OPT("enable-watchdog", exec.watchdog.enable, true)
  OPT("enable-dynamic-watchdog", exec.watchdog.enable_dynamic, true)
  OPT("dynamic-watchdog-time-limit", exec.watchdog.time_limit, false)
  OPT("watchdog-baseline-max-groups", exec.watchdog.baseline_max_groups, false)
  OPT("parallel-top-max", exec.watchdog.parallel_top_max, false)
  OPT("enable-cpu-sub-tasks", exec.sub_tasks.enable, true)
  OPT("cpu-sub-task-size", exec.sub_tasks.sub_task_size, false)
  OPT("enable-loop-join", exec.join.allow_loop_joins, true)
  OPT("loop-join-limit", exec.join.trivial_loop_join_threshold, false)
  OPT("huge-join-hash-threshold", exec.join.huge_join_hash_threshold, false)
  OPT("huge-join-hash-min-load", exec.join.huge_join_hash_min_load, false)
  OPT("bigint-count", exec.group_by.bigint_count, true)
  OPT("default-max-groups-buffer-entry-guess", exec.group_by.default_max_groups_buffer_entry_guess, false)
  OPT("big-group-threshold", exec.group_by.big_group_threshold, false)
  OPT("use-groupby-buffer-desc", exec.group_by.use_groupby_buffer_desc, true)
  OPT("enable-gpu-shared-mem-group-by", exec.group_by.enable_gpu_smem_group_by, true)
  OPT("enable-gpu-shared-mem-non-grouped-agg", exec.group_by.enable_gpu_smem_non_grouped_agg, true)
  OPT("enable-gpu-shared-mem-grouped-non-count-agg", exec.group_by.enable_gpu_smem_grouped_non_count_agg, true)
  OPT("enable-cpu-groupby-multifrag-kernels", exec.group_by.enable_cpu_multifrag_kernels, true)
  OPT("gpu-shared-mem-threshold", exec.group_by.gpu_smem_threshold, false)
  OPT("hll-precision-bits", exec.group_by.hll_precision_bits, false)
  OPT("groupby-baseline-threshold", exec.group_by.baseline_threshold, false)
  OPT("large-ndv-threshold", exec.group_by.large_ndv_threshold, false)
  OPT("large-ndv-multiplier", exec.group_by.large_ndv_multiplier, false)
  OPT("enable-cpu-partitioned-groupby", exec.group_by.enable_cpu_partitioned_groupby, true)
  OPT("groupby-partitioning-buffer-size-threshold", exec.group_by.partitioning_buffer_size_threshold, false)
  OPT("groupby-partitioning-group-size-threshold", exec.group_by.partitioning_group_size_threshold, false)
  OPT("groupby-min-partitions", exec.group_by.min_partitions, false)
  OPT("groupby-max-partitions", exec.group_by.max_partitions, false)
  OPT("groupby-partitioning-target-buffer-size", exec.group_by.partitioning_buffer_target_size, false)
  OPT("enable-window-functions", exec.window_func.enable, true)
  OPT("enable-parallel-window-partition-compute", exec.window_func.parallel_window_partition_compute, true)
  OPT("parallel-window-partition-compute-threshold", exec.window_func.parallel_window_partition_compute_threshold, false)
  OPT("enable-parallel-window-partition-sort", exec.window_func.parallel_window_partition_sort, true)
  OPT("parallel-window-partition-sort-threshold", exec.window_func.parallel_window_partition_sort_threshold, false)
  OPT("enable-heterogeneous", exec.heterogeneous.enable_heterogeneous_execution, true)
  OPT("enable-multifrag-heterogeneous", exec.heterogeneous.enable_multifrag_heterogeneous_execution, true)
  OPT("force-heterogeneous-distribution", exec.heterogeneous.forced_heterogeneous_distribution, true)
  OPT("force-cpu-proportion", exec.heterogeneous.forced_cpu_proportion, false)
  OPT("force-gpu-proportion", exec.heterogeneous.forced_gpu_proportion, false)
  OPT("allow-cpu-retry", exec.heterogeneous.allow_cpu_retry, true)
  OPT("allow-query-step-cpu-retry", exec.heterogeneous.allow_query_step_cpu_retry, true)
  OPT("enable-runtime-query-interrupt", exec.interrupt.enable_runtime_query_interrupt, true)
  OPT("enable-non-kernel-time-query-interrupt", exec.interrupt.enable_non_kernel_time_query_interrupt, true)
  OPT("running-query-interrupt-freq", exec.interrupt.running_query_interrupt_freq, false)
  OPT("null-div-by-zero", exec.codegen.null_div_by_zero, true)
  OPT("inf-div-by-zero", exec.codegen.inf_div_by_zero, true)
  OPT("null-mod-by-zero", exec.codegen.null_mod_by_zero, true)
  OPT("enable-hoist-literals", exec.codegen.hoist_literals, true)
  OPT("enable-filter-function", exec.codegen.enable_filter_function, true)
  OPT("streaming-top-n-max", exec.streaming_topn_max, false)
  OPT("parallel-top-min", exec.parallel_top_min, false)
  OPT("enable-experimental-string-functions", exec.enable_experimental_string_functions, true)
  OPT("enable-interoperability", exec.enable_interop, true)
  OPT("parallel-linearization-threshold", exec.parallel_linearization_threshold, false)
  OPT("enable-multifrag-results", exec.enable_multifrag_rs, true)
  OPT("enable-multifrag-execution-result", exec.enable_multifrag_execution_result, true)
  OPT("gpu-block-size", exec.override_gpu_block_size, false)
  OPT("gpu-grid-size", exec.override_gpu_grid_size, false)
  OPT("cpu-only", exec.cpu_only, true)
  OPT("initialize-with-gpu-vendor", exec.initialize_with_gpu_vendor, false)
  OPT("use-cost-model", exec.enable_cost_model, false)
  OPT("enable-filter-push-down", opts.filter_pushdown.enable, true)
  OPT("filter-push-down-low-frac", opts.filter_pushdown.low_frac, false)
  OPT("filter-push-down-high-frac", opts.filter_pushdown.high_frac, false)
  OPT("filter-push-down-passing-row-ubound", opts.filter_pushdown.passing_row_ubound, false)
  OPT("from-table-reordering", opts.from_table_reordering, true)
  OPT("constrained-by-in-threshold", opts.constrained_by_in_threshold, false)
  OPT("enable-left-join-filter-hoisting", opts.enable_left_join_filter_hoisting, true)
  OPT("enable-columnar-output", rs.enable_columnar_output, true)
  OPT("optimize-row-init", rs.optimize_row_initialization, true)
  OPT("enable-direct-columnarization", rs.enable_direct_columnarization, true)
  OPT("enable-lazy-fetch", rs.enable_lazy_fetch, true)
  OPT("enable-tiered-cpu-mem", mem.cpu.enable_tiered_cpu_mem, true)
  OPT("pmem-size", mem.cpu.pmem_size, false)
  OPT("cpu-buffer-mem-bytes", mem.cpu.max_size, false)
  OPT("min-cpu-slab-size", mem.cpu.min_slab_size, false)
  OPT("max-cpu-slab-size", mem.cpu.max_slab_size, false)
  OPT("min-output-projection-allocation-bytes", mem.gpu.min_memory_allocation_size, false)
  OPT("max-output-projection-allocation-bytes", mem.gpu.max_memory_allocation_size, false)
  OPT("gpu-input-mem-limit", mem.gpu.input_mem_limit_percent, false)
  OPT("res-gpu-mem", mem.gpu.reserved_mem_bytes, false)
  OPT("gpu-buffer-mem-bytes", mem.gpu.max_size, false)
  OPT("min-gpu-slab-size", mem.gpu.min_slab_size, false)
  OPT("max-gpu-slab-size", mem.gpu.max_slab_size, false)
  OPT("use-estimator-result-cache", cache.use_estimator_result_cache, true)
  OPT("enable-data-recycler", cache.enable_data_recycler, true)
  OPT("use-hashtable-cache", cache.use_hashtable_cache, true)
  OPT("hashtable-cache-total-bytes", cache.hashtable_cache_total_bytes, false)
  OPT("max-cacheable-hashtable-size-bytes", cache.max_cacheable_hashtable_size_bytes, false)
  OPT("gpu-code-cache-eviction-percent", cache.gpu_fraction_code_cache_to_evict, false)
  OPT("dag-cache-size", cache.dag_cache_size, false)
  OPT("code-cache-size", cache.code_cache_size, false)
  OPT("build-rel-alg-cache", debug.build_ra_cache, false)
  OPT("use-rel-alg-cache", debug.use_ra_cache, false)
  OPT("enable-automatic-ir-metadata", debug.enable_automatic_ir_metadata, true)
  OPT("dump-after-all", debug.dump_llvm_ir_after_each_pass, true)
  OPT("enable-gpu-code-compilation-cache", debug.enable_gpu_code_compilation_cache, true)
  OPT("enable-lazy-dict-materialization", storage.enable_lazy_dict_materialization, true)
  OPT("enable-non-lazy-data-import", storage.enable_non_lazy_data_import, true)
#undef OPT
    return o;
  }();
  return o;
}
}  // namespace

FACET(config) {
  auto& s = c.s;
  auto& all = opts();
  auto before = std::make_shared<Config>();
  // settings made by the program before the command line is read
  bool preset = s.draw(1);
  if (preset) {
    for (size_t n = s.size(0, 6); n; --n) {
      auto& o = all[s.draw(all.size() - 1)];
      if (o.name != "gpu-input-mem-limit" && o.name != "hll-precision-bits") {
        o.set(s, *before);
      }
    }
  }
  Config want = *before;
  std::vector<std::string> args;
  std::set<std::string> given;
  for (size_t n = s.size(0, 8); n; --n) {
    auto& o = all[s.draw(all.size() - 1)];
    if (!given.insert(o.name).second) {
      continue;
    }
    if (o.name == "gpu-input-mem-limit") {
      want.mem.gpu.input_mem_limit_percent = static_cast<double>(s.range(1, 63)) / 64;
      args.push_back("--" + o.name + "=" + showv(want.mem.gpu.input_mem_limit_percent));
    } else if (o.name == "hll-precision-bits") {
      want.exec.group_by.hll_precision_bits = static_cast<unsigned>(s.range(1, 16));
      args.push_back("--" + o.name + "=" + showv(want.exec.group_by.hll_precision_bits));
    } else if (o.flag && o.implicit && s.chance(1, 3)) {
      pbt::Src on(std::vector<uint64_t>{1});
      o.set(on, want);
      args.push_back("--" + o.name);
    } else {
      auto v = o.set(s, want);
      if (v[0] != '-' && !o.implicit && s.chance(1, 3)) {
        args.push_back("--" + o.name);
        args.push_back(v);
      } else {
        args.push_back("--" + o.name + "=" + v);
      }
    }
  }
  std::string line;
  for (auto& a : args) {
    line += (line.empty() ? "" : " ") + a;
  }
  bool text = s.draw(1);
  c.describe([&](std::ostream& o) { o << (preset ? "changed settings, then " : "") << line; });
  c.nontrivial(given.size() >= 2);
  ConfigBuilder b(before);
  ConfigBuilder fresh;
  ConfigBuilder& use = preset || s.draw(1) ? b : fresh;
  bool help = false;
  if (text) {
    help = use.parseCommandLineArgs("app", line, s.draw(1) != 0);
  } else {
    std::vector<const char*> argv{"app"};
    for (auto& a : args) {
      argv.push_back(a.c_str());
    }
    help = use.parseCommandLineArgs(static_cast<int>(argv.size()), argv.data(), s.draw(1) != 0);
  }
  REQUIRE(!help, "help was asked for");
  auto got = use.config();
  for (auto& o : all) {
    REQUIRE(o.get(*got) == o.get(want), "after " << pbt::jstr(line) << (preset ? " on changed settings" : "") << " " << o.name << " is " << o.get(*got) << ", expected " << o.get(want)
                                                 << (given.count(o.name) ? "" : " (it was not given)"));
  }
  // what makes no sense is refused
  std::string bad = s.pick<std::string>({"--no-such-option", "--loop-join-limit=abc", "--enable-watchdog=maybe", "--hll-precision-bits=0", "--hll-precision-bits=17", "--gpu-input-mem-limit=0.001", "--gpu-input-mem-limit=1",
                                         "--dag-cache-size=", "--dag-cache-size=1x", "--dump-after-all=70000", "--force-cpu-proportion=4294967296"});
  bool refused = false;
  ConfigBuilder nb;
  try {
    nb.parseCommandLineArgs("app", bad, false);
  } catch (const boost::program_options::error&) {
    refused = true;
  }
  REQUIRE(refused, bad << " is accepted");
}

// ---------------------------------------------------------------- cost model
namespace {
using costmodel::Detail::Measurement;
std::vector<Measurement> genMeasurements(pbt::Src& s, size_t lo = 2) {
  std::vector<Measurement> m;
  size_t b = s.draw(100);
  for (size_t n = s.size(lo, 6); n; --n) {
    m.push_back({b, s.chance(1, 4) ? s.draw(5) : s.draw(100000)});
    b += 1 + (s.chance(1, 2) ? s.draw(10) : s.draw(1000000));
  }
  return m;
}
double extrapolate(const std::vector<Measurement>& m, size_t bytes) {
  size_t i = 1;
  while (i + 1 < m.size() && m[i].bytes <= bytes) {
    ++i;
  }
  double x1 = static_cast<double>(m[i - 1].bytes), x2 = static_cast<double>(m[i].bytes), y1 = static_cast<double>(m[i - 1].milliseconds), y2 = static_cast<double>(m[i].milliseconds);
  double r = y1 + (static_cast<double>(bytes) - x1) / (x2 - x1) * (y2 - y1);
  return std::max(0.0, r);
}
class GivenData : public costmodel::DataSource {
 public:
  GivenData(costmodel::Detail::DeviceMeasurements m)
      : costmodel::DataSource(costmodel::DataSourceConfig{
            "given", {ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}, {costmodel::Scan, costmodel::Sort, costmodel::Join, costmodel::GroupBy}})
      , m_(std::move(m)) {}
  costmodel::Detail::DeviceMeasurements getMeasurements(const std::vector<ExecutorDeviceType>& devices, const std::vector<costmodel::AnalyticalTemplate>& t) override {
    costmodel::Detail::DeviceMeasurements r;
    for (auto d : devices) {
      for (auto x : t) {
        if (m_.count(d) && m_[d].count(x)) {
          r[d][x] = m_[d][x];
        }
      }
    }
    return r;
  }
  costmodel::Detail::DeviceMeasurements m_;
};
FragmentInfo fragment(int id, int devs) {
  FragmentInfo f;
  f.fragmentId = id;
  f.deviceIds = {0, id % devs + 100, id % devs + 200};
  return f;
}
}  // namespace

FACET(cost) {
  auto& s = c.s;
  using costmodel::AnalyticalTemplate;
  std::vector<AnalyticalTemplate> kinds{costmodel::Scan, costmodel::Sort, costmodel::Join, costmodel::GroupBy};
  costmodel::Detail::DeviceMeasurements dm;
  std::ostringstream log;
  for (auto d : {ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}) {
    for (auto k : kinds) {
      dm[d][k] = genMeasurements(s);
      log << deviceToString(d) << " " << costmodel::toString(k) << ":";
      for (auto& x : dm[d][k]) {
        log << " " << x.bytes << "->" << x.milliseconds;
      }
      log << "; ";
    }
  }
  costmodel::QueryInfo q;
  for (size_t n = s.size(0, 3); n; --n) {
    q.templs.push_back(s.pick(kinds));
  }
  q.bytes_size = s.chance(1, 3) ? s.draw(10) : s.chance(1, 3) ? s.draw(uint64_t(1) << 40) : s.draw(2000000);
  log << "query of " << q.bytes_size << " bytes:";
  for (auto t : q.templs) {
    log << " " << costmodel::toString(t);
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(!q.templs.empty() && q.bytes_size > 1);
  // one model alone
  {
    auto& m = dm[ExecutorDeviceType::CPU][costmodel::Scan];
    costmodel::LinearExtrapolation e(m);
    for (int i = 0; i < 4; ++i) {
      size_t b = s.draw(1) ? m[s.draw(m.size() - 1)].bytes : s.draw(2 * m.back().bytes + 10);
      double want = extrapolate(m, b), got = static_cast<double>(e.getExtrapolatedData(b));
      REQUIRE(std::fabs(got - want) <= 1 + 1e-9 * want, "the time of " << b << " bytes is extrapolated as " << got << ", expected " << want);
    }
    for (auto& x : m) {
      REQUIRE(e.getExtrapolatedData(x.bytes) == x.milliseconds, "the time of " << x.bytes << " bytes was measured as " << x.milliseconds << ", the model says " << e.getExtrapolatedData(x.bytes));
    }
  }
#ifdef HAVE_ARMADILLO
  {
    auto& m = dm[ExecutorDeviceType::CPU][costmodel::Scan];
    costmodel::LinearRegression e(m);
    long double sx = 0, sy = 0, sxx = 0, sxy = 0, n = static_cast<long double>(m.size());
    for (auto& x : m) {
      sx += x.bytes;
      sy += x.milliseconds;
    }
    for (auto& x : m) {
      sxx += (x.bytes - sx / n) * (x.bytes - sx / n);
      sxy += (x.bytes - sx / n) * (x.milliseconds - sy / n);
    }
    for (int i = 0; i < 4; ++i) {
      size_t b = s.draw(2 * m.back().bytes + 10);
      double want = static_cast<double>(std::max(0.0L, sy / n + sxy / sxx * (b - sx / n))), got = static_cast<double>(e.getExtrapolatedData(b));
      REQUIRE(std::fabs(got - want) <= 2 + 1e-3 * want, "the time of " << b << " bytes is predicted by regression as " << got << ", expected " << want);
    }
  }
#endif
  costmodel::ExtrapolationModelProvider prov;
  std::map<ExecutorDeviceType, std::map<AnalyticalTemplate, std::shared_ptr<costmodel::ExtrapolationModel>>> models;
  for (auto& [d, x] : dm) {
    for (auto& [t, m] : x) {
      models[d][t] = prov.provide(m);
    }
  }
  costmodel::IterativeCostModel cm(costmodel::CostModelConfig{std::make_unique<GivenData>(dm)});
  std::map<ExecutorDeviceType, ExecutorDispatchMode> modes{{ExecutorDeviceType::CPU, ExecutorDispatchMode::KernelPerFragment}, {ExecutorDeviceType::GPU, ExecutorDispatchMode::MultifragmentKernel}};
  bool refused = false;
  if (!q.templs.empty()) {
    try {
      cm.predict(q, modes);
    } catch (const costmodel::CostModelException&) {
      refused = true;
    }
    REQUIRE(refused, "a model that was not calibrated predicts");
  }
  cm.calibrate({{ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}});
  auto p = cm.predict(q, modes);
  REQUIRE(p->getExecutionModes() == modes && p->hasDevice(ExecutorDeviceType::CPU) && p->devices().size() == 2, "the dispatch modes are lost");
  // how the work is split: no worse than any other split, up to the granularity of the search
  size_t frags = 1024;
  size_t cpu = 0;
  bool switched = false;
  for (size_t i = 0; i < frags; ++i) {
    auto a = p->scheduleSingleFragment(fragment(static_cast<int>(i), 3), i, frags);
    REQUIRE(a.device_id == static_cast<int>(i) % 3 + (a.dt == ExecutorDeviceType::GPU ? 200 : 100), "fragment " << i << " goes to device " << a.device_id);
    cpu += a.dt == ExecutorDeviceType::CPU;
    switched |= cpu && a.dt == ExecutorDeviceType::GPU;
  }
  (void)switched;
  auto cost = [&](double share) {
    double cs = 0, gs = 0;
    size_t cb = static_cast<size_t>(share * static_cast<double>(q.bytes_size)), gb = q.bytes_size - cb;
    for (auto t : q.templs) {
      cs += static_cast<double>(models[ExecutorDeviceType::CPU][t]->getExtrapolatedData(cb));
      gs += static_cast<double>(models[ExecutorDeviceType::GPU][t]->getExtrapolatedData(gb));
    }
    return std::max(cs, gs);
  };
  if (q.bytes_size > 2000 && !q.templs.empty()) {
    double best = 1e300;
    for (size_t k = 0; k < 1024; ++k) {
      best = std::min(best, cost(static_cast<double>(k) / 1024));
    }
    // the chosen share is known up to the fragment granularity
    double near = 1e300;
    for (int d = -3; d <= 3; ++d) {
      double sh = (static_cast<double>(cpu) + d) / 1024;
      if (sh >= 0 && sh <= 1) {
        near = std::min(near, cost(sh));
      }
    }
    double slack = 0;  // how much the cost changes from one candidate to the next
    for (size_t k = 0; k < 1024; ++k) {
      slack = std::max(slack, std::fabs(cost(static_cast<double>(k) / 1024) - cost(static_cast<double>(k + 1) / 1024)));
    }
    REQUIRE(near <= best + 2 * slack + static_cast<double>(q.templs.size()) + 1, "the split gives " << cpu << "/1024 to the CPU, predicted time " << near << ", but " << best << " is possible");
  }
}

FACET(policy) {
  auto& s = c.s;
  std::map<ExecutorDeviceType, unsigned> prop;
  int which = static_cast<int>(s.draw(2));
  auto amount = [&]() -> unsigned { return static_cast<unsigned>(s.chance(1, 4) ? 0 : s.chance(1, 3) ? s.draw(4294967295u) : s.draw(10)); };
  if (which != 1) {
    prop[ExecutorDeviceType::CPU] = amount();
  }
  if (which != 2) {
    prop[ExecutorDeviceType::GPU] = amount();
  }
  size_t frags = s.chance(1, 3) ? s.draw(3) + 1 : s.draw(200) + 1;
  std::map<ExecutorDeviceType, ExecutorDispatchMode> modes{{ExecutorDeviceType::CPU, ExecutorDispatchMode::KernelPerFragment}};
  uint64_t total = 0;
  for (auto& [d, n] : prop) {
    total += n;
  }
  c.describe([&](std::ostream& o) {
    o << frags << " fragments as";
    for (auto& [d, n] : prop) {
      o << " " << deviceToString(d) << ":" << n;
    }
  });
  c.nontrivial(prop.size() == 2 && frags > 2);
  auto given = prop;
  std::unique_ptr<policy::ExecutionPolicy> p;
  try {
    p = std::make_unique<policy::ProportionBasedExecutionPolicy>(std::move(given), modes);
  } catch (const std::runtime_error&) {
    REQUIRE(total == 0, "a valid proportion is refused");
  }
  if (p) {
    REQUIRE(total, "an empty proportion is accepted");
    std::map<ExecutorDeviceType, size_t> got;
    for (size_t i = 0; i < frags; ++i) {
      auto a = p->scheduleSingleFragment(fragment(static_cast<int>(i), 4), i, frags);
      ++got[a.dt];
      REQUIRE(prop.count(a.dt) && prop[a.dt], "fragment " << i << " goes to a device without a share");
      REQUIRE(a.device_id == static_cast<int>(i) % 4 + (a.dt == ExecutorDeviceType::GPU ? 200 : 100), "fragment " << i << " goes to device " << a.device_id);
    }
    for (auto& [d, n] : prop) {
      double want = static_cast<double>(frags) * n / static_cast<double>(total);
      REQUIRE(std::fabs(static_cast<double>(got[d]) - want) < 1 + 1e-9, deviceToString(d) << " gets " << got[d] << " of " << frags << " fragments, its share is " << want);
    }
  }
  policy::RoundRobinExecutionPolicy rr(modes);
  size_t n[2] = {0, 0};
  for (size_t i = 0; i < frags; ++i) {
    auto a = rr.scheduleSingleFragment(fragment(static_cast<int>(i), 4), i, frags);
    ++n[a.dt == ExecutorDeviceType::GPU];
    REQUIRE(a.device_id == static_cast<int>(i) % 4 + (a.dt == ExecutorDeviceType::GPU ? 200 : 100), "round robin: fragment " << i << " goes to device " << a.device_id);
  }
  REQUIRE(n[0] - n[1] <= 1, "round robin gives " << n[0] << " and " << n[1]);
  for (auto d : {ExecutorDeviceType::CPU, ExecutorDeviceType::GPU}) {
    policy::FragmentIDAssignmentExecutionPolicy f(d, modes);
    auto a = f.scheduleSingleFragment(fragment(3, 4), 3, frags);
    REQUIRE(a.dt == d && a.device_id == (d == ExecutorDeviceType::GPU ? 203 : 103) && f.devices() == std::set<ExecutorDeviceType>{d}, "a fixed assignment goes elsewhere");
  }
}

// ---------------------------------------------------------------- embedded database
namespace {
struct Scratch {
  std::string dir;
  Scratch() {
    auto base = std::filesystem::temp_directory_path() / ("pbt_sqlite." + std::to_string(getpid()));
    dir = base.string();
    std::filesystem::remove_all(base);
    std::filesystem::create_directories(base);
  }
  ~Scratch() { std::filesystem::remove_all(dir); }
};
using SCell = std::optional<std::string>;
}  // namespace

FACET(sqlite) {
  auto& s = c.s;
  Scratch dir;
  std::vector<std::pair<std::string, SCell>> rows;  // key, value
  std::ostringstream log;
  auto db = std::make_unique<SqliteConnector>("d.db", dir.dir + (s.draw(1) ? "/" : ""));
  db->query("PRAGMA synchronous=OFF");
  db->query("CREATE TABLE t(k TEXT PRIMARY KEY, v)");
  auto text = [&] { return s.chance(1, 6) ? std::string("o'b\"r;-- ?") : gen::shortStr(s, 8, true); };
  auto check = [&] {
    db->query("SELECT k, v, typeof(v) FROM t ORDER BY rowid");
    REQUIRE(db->getNumRows() == rows.size(), "there are " << db->getNumRows() << " rows, expected " << rows.size());
    REQUIRE(db->getNumCols() == (rows.empty() ? 0u : 3u), "wrong number of columns");
    if (!rows.empty()) {
      REQUIRE((db->columnNames == std::vector<std::string>{"k", "v", "typeof(v)"}), "wrong column names");
    }
    for (size_t i = 0; i < rows.size(); ++i) {
      int r = static_cast<int>(i);
      REQUIRE(db->getData<std::string>(r, 0) == rows[i].first && !db->isNull(r, 0), "row " << i << " has the key " << gen::quote(db->getData<std::string>(r, 0)) << ", expected " << gen::quote(rows[i].first));
      REQUIRE(db->isNull(r, 1) == !rows[i].second, "row " << i << " is " << (db->isNull(r, 1) ? "" : "not ") << "NULL");
      if (rows[i].second) {
        REQUIRE(db->getData<std::string>(r, 1) == *rows[i].second, "row " << i << " has the value " << gen::quote(db->getData<std::string>(r, 1)) << ", expected " << gen::quote(*rows[i].second));
      }
    }
  };
  auto has = [&](const std::string& k) {
    for (auto& r : rows) {
      if (r.first == k) {
        return true;
      }
    }
    return false;
  };
  size_t failures = 0;
  for (size_t n = s.size(1, 8); n; --n) {
    switch (s.draw(5)) {
      case 0: {
        auto k = text(), v = text();
        auto bt = s.pick<SqliteConnector::BindType>({SqliteConnector::BindType::TEXT, SqliteConnector::BindType::BLOB, SqliteConnector::BindType::NULL_TYPE});
        log << "insert " << gen::quote(k) << "; ";
        bool dup = has(k), failed = false;
        try {
          db->query_with_text_params("INSERT INTO t VALUES(?, ?)", {k, v}, {SqliteConnector::BindType::TEXT, bt});
        } catch (const std::runtime_error&) {
          failed = true;
        }
        REQUIRE(failed == dup, "an insert is " << (failed ? "refused" : "accepted"));
        failures += failed;
        if (!dup) {
          rows.push_back({k, bt == SqliteConnector::BindType::NULL_TYPE ? SCell() : SCell(v)});
        }
        break;
      }
      case 1: {
        std::vector<std::vector<std::string>> v;
        auto next = rows;
        bool dup = false;
        log << "batch";
        for (size_t m = s.size(0, 5); m; --m) {
          auto k = text();
          for (auto& r : next) {
            dup |= r.first == k;
          }
          v.push_back({k, text()});
          next.push_back({v.back()[0], v.back()[1]});
          log << " " << gen::quote(k);
        }
        log << "; ";
        bool failed = false;
        try {
          db->batch_insert("t", v);
        } catch (const std::runtime_error&) {
          failed = true;
        }
        REQUIRE(failed == dup, "a batch is " << (failed ? "refused" : "accepted"));
        failures += failed;
        if (!dup) {
          rows = next;
        }
        break;
      }
      case 2:
        if (!rows.empty()) {
          auto k = rows[s.draw(rows.size() - 1)].first;
          log << "delete " << gen::quote(k) << "; ";
          if (s.draw(1)) {
            db->query_with_text_param("DELETE FROM t WHERE k = ?", k);
          } else {
            db->query_with_text_params(std::vector<std::string>{"DELETE FROM t WHERE k = ?", k});
          }
          rows.erase(std::find_if(rows.begin(), rows.end(), [&](auto& r) { return r.first == k; }));
        }
        break;
      case 3: {
        bool failed = false;
        log << "bad; ";
        try {
          if (s.draw(1)) {
            db->query(s.pick<std::string>({"SELEC", "SELECT * FROM nosuch", "INSERT INTO t VALUES(1)"}));
          } else {
            std::vector<std::vector<std::string>> v{{"a", "b"}};
            db->batch_insert("nosuch", v);
          }
        } catch (const std::runtime_error&) {
          failed = true;
        }
        REQUIRE(failed, "a bad statement is accepted");
        ++failures;
        break;
      }
      case 4:
        log << "reopen; ";
        db.reset();
        db = std::make_unique<SqliteConnector>("d.db", dir.dir);
        db->query("PRAGMA synchronous=OFF");
        break;
      default:
        check();
    }
  }
  c.describe([&](std::ostream& o) { o << log.str(); });
  c.nontrivial(rows.size() > 1);
  c.label(failures ? "with failures" : "no failures");
  check();
  db = nullptr;
  db = std::make_unique<SqliteConnector>("d.db", dir.dir);
  check();
}
PBT_MAIN
