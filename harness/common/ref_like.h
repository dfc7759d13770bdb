// Reference SQL LIKE: '%' any run, '_' one byte, '[set]' one byte of the set, escape takes the next byte literally.
// ILIKE folds ASCII only and expects a lowercased pattern.  A malformed pattern matches nothing.
#pragma once
#include <string>
#include <vector>
namespace ref {
struct LikeTok {
  enum K { Lit, Any, One, Set } k;
  std::string set;
};
inline bool likeParse(const std::string& p, char esc, std::vector<LikeTok>& out) {
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i] == esc) {
      if (++i == p.size()) {
        return false;
      }
      out.push_back({LikeTok::Lit, std::string(1, p[i])});
    } else if (p[i] == '%') {
      out.push_back({LikeTok::Any, ""});
    } else if (p[i] == '_') {
      out.push_back({LikeTok::One, ""});
    } else if (p[i] == '[') {
      auto j = p.find(']', i + 1);
      if (j == std::string::npos) {
        return false;
      }
      out.push_back({LikeTok::Set, p.substr(i + 1, j - i - 1)});
      i = j;
    } else {
      out.push_back({LikeTok::Lit, std::string(1, p[i])});
    }
  }
  return true;
}
inline char lower(char c) {
  return c >= 'A' && c <= 'Z' ? static_cast<char>(c - 'A' + 'a') : c;
}
inline bool like(const std::string& s, const std::string& p, char esc, bool icase) {
  std::vector<LikeTok> t;
  if (!likeParse(p, esc, t)) {
    return false;
  }
  std::vector<char> cur(s.size() + 1, 0), nxt;
  cur[0] = 1;
  for (auto& k : t) {
    nxt.assign(s.size() + 1, 0);
    if (k.k == LikeTok::Any) {
      bool on = false;
      for (size_t i = 0; i <= s.size(); ++i) {
        on = on || cur[i];
        nxt[i] = on;
      }
    } else {
      for (size_t i = 0; i < s.size(); ++i) {
        if (cur[i]) {
          char ch = icase ? lower(s[i]) : s[i];
          if (k.k == LikeTok::One || k.set.find(ch) != std::string::npos) {
            nxt[i + 1] = 1;
          }
        }
      }
    }
    cur.swap(nxt);
  }
  return cur[s.size()];
}
inline bool contains(const std::string& s, const std::string& p, bool icase) {
  std::string f = s;
  if (icase) {
    for (auto& ch : f) {
      ch = lower(ch);
    }
  }
  return f.find(p) != std::string::npos;
}
// Byte-wise (unsigned) lexicographic order.
inline int compare(const std::string& a, const std::string& b) {
  return a.compare(b);
}
}  // namespace ref
