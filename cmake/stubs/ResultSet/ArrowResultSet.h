// Stand-in for the project's header of this name, which cannot be compiled without Arrow C++.
#pragma once
#include <stdexcept>
#include "DataMgr/DataMgr.h"
#include "IR/TargetMetaInfo.h"
#include "ResultSet/ResultSet.h"
#include "arrow/api.h"
class ArrowResultSetConverter {
 public:
  ArrowResultSetConverter(const std::shared_ptr<ResultSet>&, const std::vector<std::string>&, const int32_t) {}
  std::shared_ptr<arrow::Table> convertToArrowTable() const {
    throw std::runtime_error("Arrow is not available in this build");
  }
};
