// Random regular expressions with an independent matcher (set-of-positions semantics).
#pragma once
#include <memory>
#include <set>
#include "common/pbt.h"
namespace ref {
struct Re {
  enum K { Lit, Dot, Cls, Cat, Alt, Star, Plus, Opt, Eps } k;
  char ch = 0;
  std::string cls;
  bool neg = false;
  std::vector<std::shared_ptr<Re>> kids;
};
using ReP = std::shared_ptr<Re>;
inline bool nullable(const Re& r) {
  switch (r.k) {
    case Re::Cat:
      for (auto& k : r.kids) {
        if (!nullable(*k)) {
          return false;
        }
      }
      return true;
    case Re::Alt:
      for (auto& k : r.kids) {
        if (nullable(*k)) {
          return true;
        }
      }
      return false;
    case Re::Plus:
      return nullable(*r.kids[0]);
    case Re::Star:
    case Re::Opt:
    case Re::Eps:
      return true;
    default:
      return false;
  }
}
inline bool quantified(const Re& r) {
  if (r.k == Re::Star || r.k == Re::Plus || r.k == Re::Opt || r.k == Re::Alt) {
    return true;
  }
  for (auto& k : r.kids) {
    if (quantified(*k)) {
      return true;
    }
  }
  return false;
}
// Quantifiers are put on sequences of single-character expressions only (Boost's matcher gives up on some of those as too complex).
inline ReP genRe(pbt::Src& s, int depth, const std::string& alpha) {
  auto r = std::make_shared<Re>();
  size_t w = depth <= 0 ? s.weighted({6, 2, 2}) : s.weighted({5, 2, 2, 5, 3, 2, 2, 2});
  switch (w) {
    case 0:
      r->k = Re::Lit;
      r->ch = alpha[s.draw(alpha.size() - 1)];
      break;
    case 1:
      r->k = Re::Dot;
      break;
    case 2:
      r->k = Re::Cls;
      r->neg = s.chance(1, 4);
      for (size_t n = s.size(1, 3); n; --n) {
        r->cls += alpha[s.draw(alpha.size() - 1)];
      }
      break;
    case 3:
    case 4:
      r->k = w == 3 ? Re::Cat : Re::Alt;
      for (size_t n = s.size(2, 3); n; --n) {
        r->kids.push_back(genRe(s, depth - 1, alpha));
      }
      break;
    default:
      r->k = w == 5 ? Re::Star : w == 6 ? Re::Plus : Re::Opt;
      r->kids.push_back(genRe(s, depth - 1, alpha));
      if (quantified(*r->kids[0])) {
        return r->kids[0];
      }
  }
  return r;
}
inline std::string print(const Re& r) {
  switch (r.k) {
    case Re::Lit:
      return std::string(1, r.ch);
    case Re::Dot:
      return ".";
    case Re::Cls:
      return std::string("[") + (r.neg ? "^" : "") + r.cls + "]";
    case Re::Cat: {
      std::string o;
      for (auto& k : r.kids) {
        o += k->k == Re::Alt ? "(" + print(*k) + ")" : print(*k);
      }
      return o;
    }
    case Re::Alt: {
      std::string o;
      for (size_t i = 0; i < r.kids.size(); ++i) {
        o += (i ? "|" : "") + print(*r.kids[i]);
      }
      return "(" + o + ")";
    }
    case Re::Star:
    case Re::Plus:
    case Re::Opt:
      return "(" + print(*r.kids[0]) + ")" + (r.k == Re::Star ? "*" : r.k == Re::Plus ? "+" : "?");
    default:
      return "";
  }
}
inline std::set<size_t> step(const Re& r, const std::string& t, const std::set<size_t>& in) {
  std::set<size_t> out;
  switch (r.k) {
    case Re::Lit:
    case Re::Dot:
    case Re::Cls:
      for (auto p : in) {
        if (p < t.size()) {
          bool m = r.k == Re::Dot || (r.k == Re::Lit && t[p] == r.ch) ||
                   (r.k == Re::Cls && (r.cls.find(t[p]) != std::string::npos) != r.neg);
          if (m) {
            out.insert(p + 1);
          }
        }
      }
      return out;
    case Re::Cat: {
      auto cur = in;
      for (auto& k : r.kids) {
        cur = step(*k, t, cur);
      }
      return cur;
    }
    case Re::Alt:
      for (auto& k : r.kids) {
        auto o = step(*k, t, in);
        out.insert(o.begin(), o.end());
      }
      return out;
    case Re::Opt:
      out = step(*r.kids[0], t, in);
      out.insert(in.begin(), in.end());
      return out;
    case Re::Star:
    case Re::Plus: {
      auto cur = r.k == Re::Star ? in : step(*r.kids[0], t, in);
      out = cur;
      while (true) {
        cur = step(*r.kids[0], t, cur);
        size_t before = out.size();
        out.insert(cur.begin(), cur.end());
        if (out.size() == before) {
          return out;
        }
      }
    }
    default:
      return in;
  }
}
inline bool matches(const Re& r, const std::string& t) {
  return step(r, t, {0}).count(t.size()) > 0;
}
}  // namespace ref
