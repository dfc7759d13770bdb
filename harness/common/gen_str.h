#pragma once
#include <string>
#include <unordered_map>
#include <vector>
#include "common/pbt.h"
namespace gen {
inline std::string quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s.substr(0, 40)) {
    if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  if (s.size() > 40) {
    o += "...(" + std::to_string(s.size()) + ")";
  }
  return o + "\"";
}
// A short string over a small, adversarial alphabet.
inline std::string shortStr(pbt::Src& s, size_t maxlen = 8, bool allow_empty = false) {
  static const std::string al = "abcABxyz019 %_[]\\.*^$-\x7f\x80\xc3\xa9\xff";
  size_t n = s.size(allow_empty ? 0 : 1, maxlen);
  std::string r;
  bool tiny = s.chance(1, 2);
  for (size_t i = 0; i < n; ++i) {
    r += al[s.draw(tiny ? 3 : al.size() - 1)];
  }
  return r;
}
}  // namespace gen
