// Common parts of the end-to-end query harnesses: engine set-up, running a query, reading results, table generation.
#pragma once
#include "qe/model.h"

#include "QueryEngine/ExtensionFunctionsWhitelist.h"
#include "QueryEngine/RelAlgExecutor.h"
#include "ResultSetRegistry/ResultSetRegistry.h"
#include "SchemaMgr/SchemaMgr.h"

namespace qe {

// The extension functions the SQL front end would announce to the engine.
inline std::string extensionSignatures() {
  return R"([
    {"name":"Floor","ret":"double","args":["double"]}, {"name":"Floor__","ret":"float","args":["float"]},
    {"name":"Floor__1","ret":"i16","args":["i16"]}, {"name":"Floor__2","ret":"i32","args":["i32"]}, {"name":"Floor__3","ret":"i64","args":["i64"]},
    {"name":"Ceil","ret":"double","args":["double"]}, {"name":"Ceil__","ret":"float","args":["float"]},
    {"name":"Ceil__1","ret":"i16","args":["i16"]}, {"name":"Ceil__2","ret":"i32","args":["i32"]}, {"name":"Ceil__3","ret":"i64","args":["i64"]},
    {"name":"power","ret":"double","args":["double","double"]}
  ])";
}

// One engine per process; tables come and go with the cases.
struct Env {
  ConfigPtr cfg;
  Config defaults;
  std::shared_ptr<mem::MemStorage> st;
  std::unique_ptr<Data_Namespace::DataMgr> dm;
  std::shared_ptr<Executor> ex;
  std::shared_ptr<SchemaMgr> schema;
  std::shared_ptr<hdk::ResultSetRegistry> registry;

  Env() {
    logger::LogOptions lo("h");
    lo.severity_ = logger::Severity::FATAL;
    lo.severity_clog_ = logger::Severity::FATAL;
    logger::init(lo);
    ExtensionFunctionsWhitelist::add(extensionSignatures());
    cfg = std::make_shared<Config>();
    cfg->mem.cpu.min_slab_size = 8u << 20;
    cfg->mem.cpu.max_slab_size = 64u << 20;
    cfg->mem.cpu.max_size = 1ull << 30;
    defaults = *cfg;
    st = std::make_shared<mem::MemStorage>();
    dm = std::make_unique<Data_Namespace::DataMgr>(*cfg, 0);
    registry = hdk::ResultSetRegistry::getOrCreate(dm.get(), cfg);
    schema = std::make_shared<SchemaMgr>();
    schema->registerProvider(mem::kSchemaId, st);
    schema->registerProvider(hdk::ResultSetRegistry::SCHEMA_ID, registry);
    dm->getPersistentStorageMgr()->registerDataProvider(mem::kSchemaId, st);
    ex = Executor::getExecutor(dm.get(), cfg, "", "");
    ex->setSchemaProvider(schema);
  }
};
inline Env& env() {
  static Env* e = new Env;
  return *e;
}

struct Result {
  std::vector<const Type*> types;
  std::vector<std::string> names;
  std::vector<Row> rows;
  hdk::ResultSetTableTokenPtr token;
};

inline Cell scalarCell(const ScalarTargetValue& sv, const Type* t) {
  if (auto p = boost::get<int64_t>(&sv)) {
    // dates in days are read as seconds (8 bytes)
    int64_t null = t->isExtDictionary() ? inline_int_null_value<int32_t>() : t->isDate() ? inline_int_null_value<int64_t>() : inline_int_null_value(t);
    return *p == null ? Cell::Null() : Cell::I(*p);
  }
  if (auto p = boost::get<double>(&sv)) {
    return *p == NULL_DOUBLE ? Cell::Null() : Cell::D(*p);
  }
  if (auto p = boost::get<float>(&sv)) {
    return *p == NULL_FLOAT ? Cell::Null() : Cell::D(*p);
  }
  auto& ns = boost::get<NullableString>(sv);
  if (auto s = boost::get<std::string>(&ns)) {
    return Cell::S(*s);
  }
  return Cell::Null();
}

inline Cell toCell(const TargetValue& tv, const Type* t) {
  if (auto sv = boost::get<ScalarTargetValue>(&tv)) {
    return scalarCell(*sv, t);
  }
  auto& av = boost::get<ArrayTargetValue>(tv);
  if (!av) {
    return Cell::Null();
  }
  std::vector<Cell> r;
  auto et = t->as<ArrayBaseType>()->elemType();
  for (auto& e : *av) {
    r.push_back(scalarCell(e, et));
  }
  return Cell::A(std::move(r));
}

struct QueryError {
  std::string msg;
  bool overflow() const { return msg.find("verflow") != std::string::npos; }
  bool divZero() const { return msg.find("ivision by zero") != std::string::npos || msg.find("DIV_BY_ZERO") != std::string::npos; }
};

struct RunOpts {
  std::function<void(ExecutionOptions&)> tune;
};

inline Result readToken(hdk::ResultSetTableTokenPtr tok, const std::vector<std::string>& names = {}) {
  Result r;
  r.token = tok;
  r.names = names;
  for (size_t i = 0; i < tok->colCount(); ++i) {
    r.types.push_back(tok->colType(i));
  }
  for (size_t k = 0; k < tok->resultSetCount(); ++k) {
    auto rs = tok->resultSet(k);
    rs->moveToBegin();
    while (true) {
      auto row = rs->getNextRow(true, false);
      if (row.empty()) {
        break;
      }
      Row out;
      for (size_t i = 0; i < row.size(); ++i) {
        out.push_back(toCell(row[i], r.types[i]));
      }
      r.rows.push_back(std::move(out));
    }
  }
  for (auto& t : r.types) {
    t = canonDate(t);
  }
  return r;
}

inline ExecutionOptions execOpts() {
  auto eo = ExecutionOptions::fromConfig(*env().cfg);
  return eo;
}

inline Result run(std::unique_ptr<QueryDag> dag, std::function<void(ExecutionOptions&)> tune = {}) {
  auto& e = env();
  try {
    RelAlgExecutor rae(e.ex.get(), e.schema, std::move(dag));
    auto eo = execOpts();
    if (tune) {
      tune(eo);
    }
    auto co = CompilationOptions::defaults(ExecutorDeviceType::CPU);
    co.hoist_literals = e.cfg->exec.codegen.hoist_literals;
    co.opt_level = ExecutorOptLevel::ReductionJIT;  // cheap machine code generation
    auto res = rae.executeRelAlgQuery(co, eo, false);
    std::vector<std::string> names;
    for (auto& m : res.getTargetsMeta()) {
      names.push_back(m.get_resname());
    }
    auto tok = res.getToken();
    return readToken(tok, names);
  } catch (const pbt::Fail&) {
    throw;
  } catch (const std::exception& x) {
    throw QueryError{x.what()};
  }
}
inline Result run(const BuilderNode& n, std::function<void(ExecutionOptions&)> tune = {}) { return run(n.finalize(), tune); }

// Outcome of a query: rows, or an error text.
struct Outcome {
  std::optional<Result> res;
  std::string err;
  bool overflow() const { return err.find("verflow") != std::string::npos; }
  bool divZero() const { return err.find("ivision by zero") != std::string::npos || err.find("DIV_BY_ZERO") != std::string::npos; }
};
inline Outcome tryRun(const BuilderNode& n, std::function<void(ExecutionOptions&)> tune = {}) {
  Outcome o;
  try {
    o.res = run(n, tune);
  } catch (const QueryError& e) {
    o.err = e.msg.empty() ? "unknown error" : e.msg;
  }
  return o;
}

// Tables, results and configuration changes of one case; undone at its end.
struct Scope {
  std::vector<int> ids;
  ~Scope() {
    auto& e = env();
    *e.cfg = e.defaults;
    for (auto id : ids) {
      e.st->drop(id);
      e.dm->deleteChunksWithPrefix({mem::kDbId, id}, Data_Namespace::MemoryLevel::CPU_LEVEL);
    }
    e.st->clearDicts();
    static int n = 0;
    if (++n % 64 == 0) {
      e.dm->clearMemory(Data_Namespace::MemoryLevel::CPU_LEVEL);
      Executor::clearMemory(Data_Namespace::MemoryLevel::CPU_LEVEL, e.dm.get());
    }
  }
  void add(Table& t) {
    auto& e = env();
    t.rows = t.cols.empty() ? 0 : t.cols[0].cells.size();
    t.id = e.st->createTable(t.name, t.cols, t.frag);
    ids.push_back(t.id);
    t.types.clear();
    for (size_t i = 0; i < t.cols.size(); ++i) {
      t.types.push_back(canonDate(e.st->getColumnInfo(mem::kDbId, t.id, static_cast<int>(i + 1))->type));
    }
  }
};

// Switches that must not change any result.
inline std::string genConfig(pbt::Src& s) {
  auto& c = *env().cfg;
  std::string d;
  auto b = [&](const char* n, bool& v) {
    if (s.chance(1, 4)) {
      v = !v;
      d += std::string(" ") + n + "=" + (v ? "1" : "0");
    }
  };
  auto z = [&](const char* n, size_t& v, std::initializer_list<size_t> opts) {
    if (s.chance(1, 4)) {
      v = s.pick(opts);
      d += std::string(" ") + n + "=" + std::to_string(v);
    }
  };
  b("columnar", c.rs.enable_columnar_output);
  b("row_init", c.rs.optimize_row_initialization);
  b("direct_columnarization", c.rs.enable_direct_columnarization);
  b("lazy_fetch", c.rs.enable_lazy_fetch);
  b("bigint_count", c.exec.group_by.bigint_count);
  b("multifrag_kernels", c.exec.group_by.enable_cpu_multifrag_kernels);
  b("multifrag_rs", c.exec.enable_multifrag_rs);
  b("multifrag_result", c.exec.enable_multifrag_execution_result);
  b("hoist_literals", c.exec.codegen.hoist_literals);
  b("filter_function", c.exec.codegen.enable_filter_function);
  b("materialize_inner", c.exec.materialize_inner_join_tables);
  b("reorder", c.opts.from_table_reordering);
  b("left_join_hoisting", c.opts.enable_left_join_filter_hoisting);
  b("recycler", c.cache.enable_data_recycler);
  b("hashtable_cache", c.cache.use_hashtable_cache);
  b("estimator_cache", c.cache.use_estimator_result_cache);
  // exec.sub_tasks (experimental, off by default) is left out: see DESIGN.md
  z("groups_guess", c.exec.group_by.default_max_groups_buffer_entry_guess, {1, 16, 100});
  z("big_group", c.exec.group_by.big_group_threshold, {1, 10, 100});
  z("baseline", c.exec.group_by.baseline_threshold, {1, 50});
  z("topn_max", c.exec.streaming_topn_max, {0, 3, 10});
  z("parallel_top_min", c.exec.parallel_top_min, {1, 10});
  z("linearization", c.exec.parallel_linearization_threshold, {1, 10});
  z("in_threshold", c.opts.constrained_by_in_threshold, {1, 3});
  z("window_partition", c.exec.window_func.parallel_window_partition_compute_threshold, {1, 16});
  z("window_sort", c.exec.window_func.parallel_window_partition_sort_threshold, {1, 16});
  if (s.chance(1, 6)) {
    c.exec.group_by.partitioning_buffer_size_threshold = 10;
    c.exec.group_by.partitioning_group_size_threshold = 1.0;
    c.exec.group_by.min_partitions = s.pick<size_t>({0, 2, 7});
    c.exec.group_by.max_partitions = s.pick<size_t>({1024, 8});
    c.exec.group_by.partitioning_buffer_target_size = s.pick<size_t>({10, 200, 4096});
    d += " partitioned";
  }
  return d.empty() ? "" : " [" + d.substr(1) + "]";
}

inline QueryBuilder builder() { return QueryBuilder(ctx(), env().schema, env().cfg); }

}  // namespace qe
