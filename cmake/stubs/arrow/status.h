#pragma once
#include <string>
#include <utility>
#include "arrow/util/macros.h"
namespace arrow {
enum class StatusCode : char { OK = 0, OutOfMemory = 1, NotImplemented = 10 };
class Status {
 public:
  bool ok() const { return false; }
  StatusCode code() const { return StatusCode::NotImplemented; }
  std::string ToString() const { return "Arrow is not available in this build"; }
};
template <typename T>
class Result {
 public:
  Result(Status s) : s_(s) {}
  Status status() const { return s_; }
  T MoveValueUnsafe() && { return std::move(v_); }

 private:
  Status s_;
  T v_;
};
}  // namespace arrow
