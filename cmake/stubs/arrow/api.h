// Stand-in: Arrow C++ is not installed in this sandbox.  Only what ResultSetRegistry needs in order to *compile*;
// nothing in the harnesses converts to Arrow.
#pragma once
#include <memory>
#include <string>
#include <vector>
#define ARROW_VERSION 13000000
#include "arrow/status.h"
namespace arrow {
class Table {};
inline Result<std::shared_ptr<Table>> ConcatenateTables(const std::vector<std::shared_ptr<Table>>&) {
  return Status{};
}
}  // namespace arrow
