// String dictionary: histories of operations over a forest of (nested) dictionaries against a reference model.
#include <boost/regex.hpp>
#include <atomic>
#include <thread>
#include "Logger/Logger.h"
#include "StringDictionary/StringDictionary.h"
#include "Shared/InlineNullValues.h"
#include "common/gen_str.h"
#include "common/pbt.h"
#include "common/ref_like.h"

extern bool g_enable_stringdict_parallel;

namespace {

const int32_t kNull = inline_null_value<int32_t>();

uint32_t dictHash(const std::string& s) {
  uint32_t h = 1;
  for (size_t i = 0; i < s.size(); ++i) {
    h = h * 997 + s[i];
  }
  return h;
}
// Pairs of strings with equal 32-bit hashes of the multiplicative kind the dictionary uses.
const std::vector<std::pair<std::string, std::string>>& collisions() {
  static auto v = [] {
    std::vector<std::pair<std::string, std::string>> r;
    std::unordered_map<uint32_t, std::string> seen;
    uint64_t st = 42;
    while (r.size() < 24) {
      st = pbt::mix(st);
      std::string s;
      uint64_t x = st;
      for (int i = 0; i < 8; ++i, x >>= 8) {
        s += static_cast<char>('a' + (x & 15));
      }
      auto [it, ins] = seen.emplace(dictHash(s), s);
      if (!ins && it->second != s) {
        r.emplace_back(it->second, s);
      }
    }
    return r;
  }();
  return v;
}

std::string genStr(pbt::Src& s) {
  switch (s.weighted({5, 6, 3, 2, 1, 1})) {
    case 0:
      return "k" + std::to_string(s.draw(30));
    case 1:
      return gen::shortStr(s, 6);
    case 2:
      return "str" + std::to_string(s.draw(100000));
    case 3: {
      auto& c = s.pick(collisions());
      return s.draw(1) ? c.second : c.first;
    }
    case 4: {  // long, up to the maximum the dictionary takes
      size_t n = s.draw(1) ? StringDictionary::MAX_STRLEN - s.draw(2) : 200 + s.draw(3000);
      std::string r(n, static_cast<char>('a' + s.draw(3)));
      r[n - 1] = static_cast<char>('0' + s.draw(9));
      return r;
    }
    default: {
      std::string r = "w";
      for (size_t n = s.size(1, 12); n; --n) {
        r += static_cast<char>(1 + s.draw(254));
      }
      return r;
    }
  }
}

struct Model {
  std::shared_ptr<StringDictionary> d;
  Model* base = nullptr;
  int64_t base_gen = 0;
  std::vector<std::string> own;
  std::unordered_map<std::string, int32_t> ids;  // own ids
  std::set<std::string> patterns;
  std::vector<std::string> asked, compared;  // some patterns searched for before
  int64_t count() const { return base_gen + static_cast<int64_t>(own.size()); }
  const std::string& str(int64_t id) const { return id < base_gen ? base->str(id) : own[id - base_gen]; }
  int32_t find(const std::string& s, int64_t gen = -1) const {
    if (base) {
      auto r = base->find(s, base_gen);
      if (r >= 0) {
        return gen >= 0 && r >= gen ? -1 : r;
      }
    }
    auto it = ids.find(s);
    if (it == ids.end() || (gen >= 0 && it->second >= gen)) {
      return -1;
    }
    return it->second;
  }
  int32_t add(const std::string& s) {
    if (s.empty()) {
      return kNull;
    }
    auto r = find(s);
    if (r >= 0) {
      return r;
    }
    int32_t id = static_cast<int32_t>(count());
    own.push_back(s);
    ids[s] = id;
    return id;
  }
};

struct World {
  std::vector<std::unique_ptr<Model>> ms;
  std::ostringstream log;
  bool v;
  Model& pick(pbt::Src& s) { return *ms[s.draw(ms.size() - 1)]; }
};

struct Collect : StringDictionary::StringCallback {
  std::vector<std::pair<int32_t, std::string>> got;
  void operator()(std::string const& s, int32_t const id) override { got.emplace_back(id, s); }
  void operator()(std::string_view const s, int32_t const id) override { got.emplace_back(id, std::string(s)); }
};

void checkAll(Model& m, bool full = true) {
  REQUIRE(static_cast<int64_t>(m.d->entryCount()) == m.count(), "entryCount " << m.d->entryCount() << " expected " << m.count());
  REQUIRE(m.d->storageEntryCount() == m.own.size(), "storageEntryCount");
  int64_t n = m.count();
  int64_t step = full || n < 4000 ? 1 : n / 2000;
  for (int64_t id = 0; id < n; id += step) {
    auto& s = m.str(id);
    auto g = m.d->getString(static_cast<int32_t>(id));
    REQUIRE(g == s, "getString(" << id << ") = " << gen::quote(g) << " expected " << gen::quote(s));
    auto f = m.d->getIdOfString(s);
    REQUIRE(f == m.find(s), "getIdOfString(" << gen::quote(s) << ") = " << f << " expected " << m.find(s));
  }
}

std::string gname(World& w, Model& m) {
  for (size_t i = 0; i < w.ms.size(); ++i) {
    if (w.ms[i].get() == &m) {
      return "d" + std::to_string(i);
    }
  }
  return "?";
}

void addDict(pbt::Case& c, World& w) {
  auto& s = c.s;
  auto m = std::make_unique<Model>();
  bool mat = s.draw(1);
  if (w.ms.empty() || s.chance(1, 3)) {
    size_t cap = s.pick<size_t>({256, 2, 1, 4, 0, 16, 1024});
    m->d = std::make_shared<StringDictionary>(DictRef{1, static_cast<int>(w.ms.size() + 1)}, mat, cap);
    c.describe([&](auto& o) { o << "d" << w.ms.size() << "=root(mat=" << mat << ",cap=" << cap << "); "; });
  } else {
    auto& b = w.pick(s);
    int64_t gen = s.chance(1, 2) ? -1 : static_cast<int64_t>(s.draw(b.count()));
    size_t cap = s.pick<size_t>({0, 2, 64});
    m->d = std::make_shared<StringDictionary>(b.d, gen, mat, cap);
    m->base = &b;
    m->base_gen = gen < 0 ? b.count() : gen;
    c.describe([&](auto& o) {
      o << "d" << w.ms.size() << "=nested(" << gname(w, b) << ",gen=" << gen << ",mat=" << mat << ",cap=" << cap << "); ";
    });
    c.label("nested");
    REQUIRE(m->d->getBaseDictionary() == b.d.get(), "base");
    REQUIRE(m->d->getBaseGeneration() == m->base_gen, "base generation");
  }
  w.ms.push_back(std::move(m));
}

std::vector<std::string> genBulk(pbt::Case& c, size_t maxn) {
  auto& s = c.s;
  std::vector<std::string> v;
  size_t n = s.logsize(maxn);
  if (n > 60) {  // big batches come from one arithmetic pattern, so that they stay cheap to draw
    uint64_t start = s.draw(5000), mod = 1 + s.draw(2 * n), mul = 1 + s.draw(20);
    size_t pad = s.chance(1, 4) ? s.draw(60) : 0;
    std::string prefix = s.draw(1) ? "str" : "b";
    for (size_t i = 0; i < n; ++i) {
      v.push_back(prefix + std::to_string(start + (i * mul) % mod) + std::string(pad, '.'));
    }
    if (s.draw(1)) {
      v[s.draw(n - 1)] = "";
    }
    c.label(n > 1000 ? "bulk>1000" : "bulk>60");
  } else {
    for (size_t i = 0; i < n; ++i) {
      v.push_back(s.chance(1, 12) ? std::string() : genStr(s));
    }
  }
  return v;
}

template <typename T>
void addBulkT(pbt::Case& c, Model& m, const std::vector<std::string>& v, bool views) {
  std::vector<T> out(v.size() + 1, T(77));
  bool threw = false;
  const int64_t maxid = std::numeric_limits<T>::max() - (std::is_unsigned<T>::value ? 1 : 0);
  // the model: strings are added in order until an id no longer fits
  std::vector<int64_t> exp;
  bool overflow = false;
  for (auto& x : v) {
    if (x.empty()) {
      exp.push_back(static_cast<int64_t>(inline_null_value<T>()));
      continue;
    }
    auto r = m.find(x);
    if (r < 0 && m.count() > maxid) {
      overflow = true;
      break;
    }
    r = m.add(x);
    exp.push_back(static_cast<T>(r));
  }
  try {
    if (views) {
      std::vector<std::string_view> sv(v.begin(), v.end());
      m.d->getOrAddBulk(sv, out.data());
    } else {
      m.d->getOrAddBulk(v, out.data());
    }
  } catch (const std::runtime_error&) {
    threw = true;
  }
  REQUIRE(threw == overflow, "getOrAddBulk<" << sizeof(T) << "> overflow reported=" << threw << " expected=" << overflow);
  c.label(overflow, "overflow");
  if (!threw) {
    for (size_t i = 0; i < v.size(); ++i) {
      REQUIRE(static_cast<int64_t>(out[i]) == exp[i], "getOrAddBulk<" << sizeof(T) << ">[" << i << "] of " << gen::quote(v[i])
                                                                     << " = " << int64_t(out[i]) << " expected " << exp[i]);
    }
  }
  REQUIRE(out[v.size()] == T(77), "wrote past the output");
}

template <typename T>
void getBulkT(Model& m, const std::vector<std::string>& v, int64_t gen) {
  std::vector<T> out(v.size() + 1, T(77));
  size_t miss = m.d->getBulk(v, out.data(), gen);
  size_t exp_miss = 0;
  for (size_t i = 0; i < v.size(); ++i) {
    if (v[i].empty()) {
      REQUIRE(out[i] == inline_null_value<T>(), "getBulk of an empty string = " << int64_t(out[i]));
      continue;
    }
    auto r = m.find(v[i], gen);
    exp_miss += r < 0;
    REQUIRE(out[i] == static_cast<T>(r), "getBulk<" << sizeof(T) << ">(gen=" << gen << ")[" << i << "] of " << gen::quote(v[i]) << " = "
                                                   << int64_t(out[i]) << " expected " << r);
  }
  REQUIRE(miss == exp_miss, "getBulk(gen=" << gen << ") reports " << miss << " missing, expected " << exp_miss);
  REQUIRE(out[v.size()] == T(77), "wrote past the output");
}

// A narrow id width is only meaningful while every id fits it.
size_t fitWidth(Model& m, size_t w) {
  return (w == 1 && m.count() > 255) || (w == 2 && m.count() > 65535) ? 0 : w;
}

int64_t genGen(pbt::Src& s, Model& m) {
  switch (s.weighted({3, 2, 1, 1})) {
    case 0:
      return -1;
    case 1:
      return static_cast<int64_t>(s.draw(m.count()));
    case 2:
      return m.base_gen;
    default:
      return m.count();
  }
}

std::string genPattern(pbt::Src& s, Model& m) {
  std::string base;
  if (m.count() && s.chance(2, 3)) {
    base = m.str(s.draw(m.count() - 1));
    if (base.size() > 30) {
      base.resize(30);
    }
  } else {
    base = gen::shortStr(s, 5, true);
  }
  return base;
}

std::string likePattern(pbt::Src& s, Model& m, char esc) {
  std::string b = genPattern(s, m), r;
  for (char ch : b) {
    switch (s.weighted({10, 2, 2, 1, 1, 1})) {
      case 0:
        r += ch;
        break;
      case 1:
        r += '_';
        break;
      case 2:
        r += '%';
        break;
      case 3:
        r += esc;
        r += ch;
        break;
      case 4:
        r += '[';
        r += ch;
        r += "ab]";
        break;
      default:
        break;
    }
  }
  if (s.chance(1, 3)) {
    r += '%';
  }
  if (s.chance(1, 4)) {
    r = "%" + r;
  }
  return r;
}

std::vector<int32_t> sorted(std::vector<int32_t> v) {
  std::sort(v.begin(), v.end());
  return v;
}

std::string showIds(const std::vector<int32_t>& v) {
  std::ostringstream o;
  o << "[" << v.size() << ":";
  for (size_t i = 0; i < v.size() && i < 12; ++i) {
    o << " " << v[i];
  }
  o << "]";
  return o.str();
}

void search(pbt::Case& c, World& w, Model& m) {
  auto& s = c.s;
  int64_t gen = genGen(s, m);
  int64_t lim = gen < 0 ? m.count() : std::min(gen, m.count());
  std::vector<int32_t> exp, got;
  std::string what;
  switch (s.weighted({3, 4, 2})) {
    case 0: {
      char esc = s.pick<char>({'\\', '!', '#'});
      bool icase = s.draw(1), simple = s.chance(1, 3);
      // A pattern asked for before can be searched for in another way.
      std::string p = !m.asked.empty() && s.chance(1, 2) ? s.pick(m.asked) : "";
      if (p.empty() || p.back() == esc) {
        p = simple ? genPattern(s, m) : likePattern(s, m, esc);
      }
      if (icase) {
        for (auto& ch : p) {
          ch = ref::lower(ch);
        }
      }
      if (m.asked.size() < 4) {
        m.asked.push_back(p);
      }
      what = "like(" + gen::quote(p) + ",icase=" + std::to_string(icase) + ",simple=" + std::to_string(simple) + ",escape=" + esc + ",gen=" +
             std::to_string(gen) + ")";
      for (int64_t id = 0; id < lim; ++id) {
        if (simple ? ref::contains(m.str(id), p, icase) : ref::like(m.str(id), p, esc, icase)) {
          exp.push_back(static_cast<int32_t>(id));
        }
      }
      got = m.d->getLike(p, icase, simple, esc, gen);
      break;
    }
    case 1: {
      std::string p = !m.compared.empty() && s.chance(1, 2) ? s.pick(m.compared) : genPattern(s, m);
      if (m.compared.size() < 4) {
        m.compared.push_back(p);
      }
      std::string op = s.chance(1, 2) ? s.pick<std::string>({"=", "<>"}) : s.pick<std::string>({"<", "<=", ">", ">="});
      what = "compare(" + op + " " + gen::quote(p) + ",gen=" + std::to_string(gen) + ")";
      for (int64_t id = 0; id < lim; ++id) {
        int k = ref::compare(m.str(id), p);
        bool hit = op == "=" ? k == 0 : op == "<>" ? k != 0 : op == "<" ? k < 0 : op == "<=" ? k <= 0 : op == ">" ? k > 0 : k >= 0;
        if (hit) {
          exp.push_back(static_cast<int32_t>(id));
        }
      }
      got = m.d->getCompare(p, op, gen);
      break;
    }
    default: {
      static const std::vector<std::string> pats = {"k.*",     "[a-c]+",     "(a|b)*c?", ".*1$", "str[0-9]{2,4}", "^b",
                                                    "[^a-z]+", "w.*\xff.*", "k(1|2).",  "",     "(",             ".*"};
      std::string p = s.pick(pats);
      what = "regexp(" + gen::quote(p) + ",gen=" + std::to_string(gen) + ")";
      bool bad = false;
      boost::regex re;
      try {
        re = boost::regex(p, boost::regex::extended);
      } catch (const std::runtime_error&) {
        bad = true;
      }
      for (int64_t id = 0; id < lim; ++id) {
        if (!bad && boost::regex_match(m.str(id), re)) {
          exp.push_back(static_cast<int32_t>(id));
        }
      }
      got = m.d->getRegexpLike(p, '\\', gen);
      break;
    }
  }
  c.describe([&](auto& o) { o << gname(w, m) << "." << what << "->" << exp.size() << "; "; });
  c.nontrivial(!exp.empty() && static_cast<int64_t>(exp.size()) < lim);
  auto gs = sorted(got);
  REQUIRE(gs == exp, gname(w, m) << "." << what << " = " << showIds(gs) << " expected " << showIds(exp) << " of " << lim);
}

void translate(pbt::Case& c, World& w) {
  auto& s = c.s;
  Model& a = w.pick(s);
  Model& b = w.pick(s);
  // The API rejects a dictionary translated to itself; a source nested in the destination is the same thing one level up.
  for (Model* x = &a; x; x = x->base) {
    if (x == &b) {
      return;
    }
  }
  int mode = static_cast<int>(s.draw(2));
  c.describe([&](auto& o) { o << "translate" << mode << "(" << gname(w, a) << "->" << gname(w, b) << "); "; });
  c.nontrivial(a.count() > 0);
  if (mode == 0) {
    auto r = a.d->buildIntersectionTranslationMap(b.d.get());
    REQUIRE(static_cast<int64_t>(r.size()) == a.count(), "translation map size");
    for (int64_t i = 0; i < a.count(); ++i) {
      REQUIRE(r[i] == b.find(a.str(i)), "intersection map[" << i << "] (" << gen::quote(a.str(i)) << ") = " << r[i] << " expected " << b.find(a.str(i)));
    }
  } else if (mode == 1) {
    // b must not be a base of something whose ids are already fixed by generation: adding is always allowed.
    auto r = a.d->buildUnionTranslationMap(b.d.get());
    REQUIRE(static_cast<int64_t>(r.size()) == a.count(), "translation map size");
    std::vector<std::string> all;
    for (int64_t i = 0; i < a.count(); ++i) {
      all.push_back(a.str(i));
    }
    for (int64_t i = 0; i < static_cast<int64_t>(all.size()); ++i) {
      auto e = b.add(all[i]);
      REQUIRE(r[i] == e, "union map[" << i << "] (" << gen::quote(all[i]) << ") = " << r[i] << " expected " << e);
    }
    REQUIRE(static_cast<int64_t>(b.d->entryCount()) == b.count(), "entryCount after union");
  } else {
    int64_t sg = static_cast<int64_t>(s.draw(a.count())), dg = static_cast<int64_t>(s.draw(b.count()));
    std::vector<int32_t> out(sg + 1, 77);
    auto miss = StringDictionaryTranslator::buildDictionaryTranslationMap(
        a.d.get(), b.d.get(), out.data(), sg, dg, false, [](std::string_view, int32_t) { return true; });
    size_t em = 0;
    for (int64_t i = 0; i < sg; ++i) {
      auto e = b.find(a.str(i), dg);
      em += e < 0;
      REQUIRE(out[i] == e, "translation map[" << i << "] (" << gen::quote(a.str(i)) << ", gens " << sg << "," << dg << ") = " << out[i] << " expected " << e);
    }
    REQUIRE(out[sg] == 77, "wrote past the source generation");
    REQUIRE(miss == em, "translation reports " << miss << " missing, expected " << em);
  }
}

void addSome(pbt::Case& c, World& w, Model& m, size_t maxbulk) {
  auto& s = c.s;
  if (s.draw(1)) {
    auto x = s.chance(1, 15) ? std::string() : genStr(s);
    auto e = m.add(x);
    c.describe([&](auto& o) { o << gname(w, m) << ".add(" << gen::quote(x) << ")->" << e << "; "; });
    auto g = m.d->getOrAdd(x);
    REQUIRE(g == e, "getOrAdd(" << gen::quote(x) << ") = " << g << " expected " << e);
  } else {
    auto v = genBulk(c, maxbulk);
    bool views = s.draw(1);
    g_enable_stringdict_parallel = s.draw(1);
    size_t width = fitWidth(m, s.weighted({6, 1, 1}));
    c.describe([&](auto& o) {
      o << gname(w, m) << ".addBulk<" << width << ">(n=" << v.size() << ",par=" << g_enable_stringdict_parallel << "";
      for (size_t i = 0; i < v.size() && i < 4; ++i) {
        o << "," << gen::quote(v[i]);
      }
      o << "); ";
    });
    width == 0 ? addBulkT<int32_t>(c, m, v, views) : width == 1 ? addBulkT<uint8_t>(c, m, v, views) : addBulkT<uint16_t>(c, m, v, views);
    g_enable_stringdict_parallel = false;
  }
}

void readSome(pbt::Case& c, World& w, Model& m) {
  auto& s = c.s;
  switch (s.draw(5)) {
    case 0: {
      auto v = genBulk(c, 2500);
      auto gen = genGen(s, m);
      size_t width = fitWidth(m, s.weighted({6, 1, 1}));
      c.describe([&](auto& o) { o << gname(w, m) << ".getBulk<" << width << ">(n=" << v.size() << ",gen=" << gen << "); "; });
      width == 0 ? getBulkT<int32_t>(m, v, gen) : width == 1 ? getBulkT<uint8_t>(m, v, gen) : getBulkT<uint16_t>(m, v, gen);
      break;
    }
    case 1: {
      auto gen = genGen(s, m);
      int64_t lim = gen < 0 ? m.count() : std::min(gen, m.count());
      auto r = m.d->copyStrings(gen);
      c.describe([&](auto& o) { o << gname(w, m) << ".copyStrings(" << gen << "); "; });
      REQUIRE(static_cast<int64_t>(r.size()) == lim, "copyStrings(" << gen << ") returned " << r.size() << " expected " << lim);
      for (int64_t i = 0; i < lim; ++i) {
        REQUIRE(r[i] == m.str(i), "copyStrings[" << i << "] = " << gen::quote(r[i]) << " expected " << gen::quote(m.str(i)));
      }
      break;
    }
    case 2: {
      auto gen = genGen(s, m);
      int64_t lim = gen < 0 ? m.count() : std::min(gen, m.count());
      Collect k;
      m.d->eachStringSerially(gen, k);
      c.describe([&](auto& o) { o << gname(w, m) << ".each(" << gen << "); "; });
      REQUIRE(static_cast<int64_t>(k.got.size()) == lim, "eachStringSerially visited " << k.got.size() << " expected " << lim);
      for (int64_t i = 0; i < lim; ++i) {
        REQUIRE(k.got[i].first == i && k.got[i].second == m.str(i), "eachStringSerially entry " << i);
      }
      break;
    }
    case 3: {
      if (!m.count()) {
        return;
      }
      std::vector<int32_t> ids;
      for (size_t n = s.size(1, 6); n; --n) {
        ids.push_back(s.chance(1, 8) ? kNull : static_cast<int32_t>(s.draw(m.count() - 1)));
      }
      auto r = m.d->getStrings(ids);
      for (size_t i = 0; i < ids.size(); ++i) {
        REQUIRE(r[i] == (ids[i] == kNull ? std::string() : m.str(ids[i])), "getStrings");
        if (ids[i] != kNull) {
          auto b = m.d->getStringBytes(ids[i]);
          REQUIRE(std::string(b.first, b.second) == m.str(ids[i]), "getStringBytes");
        }
      }
      break;
    }
    case 4: {
      auto x = genStr(s);
      auto g = m.d->getIdOfString(x);
      REQUIRE(g == m.find(x), "getIdOfString(" << gen::quote(x) << ") = " << g << " expected " << m.find(x));
      break;
    }
    default: {
      Model& o = w.pick(s);
      bool same = m.base == o.base && m.base_gen == o.base_gen && m.own == o.own;
      REQUIRE((*m.d == *o.d) == same, gname(w, m) << " == " << gname(w, o) << " is " << (*m.d == *o.d) << " expected " << same);
      REQUIRE((*m.d != *o.d) == !same, "operator!=");
      c.describe([&](auto& os) { os << gname(w, m) << "==" << gname(w, o) << "; "; });
      break;
    }
  }
}

}  // namespace

// Ids form a stable bijection over any history of additions, bulk additions, rehashes and nesting.
FACET(history) {
  World w;
  addDict(c, w);
  size_t steps = c.s.size(2, 30);
  bool big = c.s.chance(1, 40);
  for (size_t i = 0; i < steps; ++i) {
    size_t op = c.s.weighted({5, 3, 1});
    if (op == 2 && w.ms.size() < 5) {
      addDict(c, w);
    } else if (op == 0) {
      addSome(c, w, w.pick(c.s), big ? 25000 : 2500);
    } else {
      readSome(c, w, w.pick(c.s));
    }
  }
  int64_t tot = 0;
  for (auto& m : w.ms) {
    checkAll(*m, false);
    tot += m->count();
  }
  c.label(big, "large batches");
  c.nontrivial(tot >= 3);
}

// Two dictionaries compare equal exactly when they hold the same strings under the same ids.
FACET(equality) {
  World w;
  addDict(c, w);
  for (size_t i = c.s.size(0, 3); i; --i) {
    addSome(c, w, *w.ms[0], 20);
  }
  Model* base = w.ms[0].get();
  std::vector<std::string> common;
  for (size_t n = c.s.size(0, 6); n; --n) {
    common.push_back(genStr(c.s));
  }
  bool nested = c.s.draw(1);
  for (int k = 0; k < 2; ++k) {
    auto m = std::make_unique<Model>();
    if (nested) {
      m->d = std::make_shared<StringDictionary>(base->d, -1, c.s.draw(1));
      m->base = base;
      m->base_gen = base->count();
    } else {
      m->d = std::make_shared<StringDictionary>(DictRef{1, 10 + k}, c.s.draw(1));
    }
    auto mine = common;
    if (k == 1 && !mine.empty() && c.s.chance(2, 3)) {
      mine[c.s.draw(mine.size() - 1)] = genStr(c.s);
    }
    for (auto& x : mine) {
      m->add(x);
      m->d->getOrAdd(x);
    }
    w.ms.push_back(std::move(m));
  }
  auto &a = *w.ms[1], &b = *w.ms[2];
  bool same = a.base == b.base && a.base_gen == b.base_gen && a.own == b.own;
  c.describe([&](auto& o) { o << "nested=" << nested << " own sizes " << a.own.size() << "," << b.own.size() << " same=" << same; });
  c.nontrivial(!a.own.empty());
  REQUIRE((*a.d == *b.d) == same, "dictionaries compare " << (*a.d == *b.d) << " expected " << same << " (nested=" << nested << ")");
}

// Very large dictionaries: storage growth of both the payload and the offset areas, rehash, 16/32-bit ids.
FACET(huge) {
  auto& s = c.s;
  size_t n = s.draw(1) ? 524286 + s.draw(6) : 100000 + s.draw(900000);
  size_t first = s.draw(3000);
  size_t len = s.pick<size_t>({0, 5, 24});
  bool mat = s.draw(1), par = s.draw(1), single = s.chance(1, 4);
  c.describe([&](auto& o) { o << "n=" << n << " first=" << first << " len=" << len << " mat=" << mat << " par=" << par; });
  c.nontrivial();
  StringDictionary d(DictRef{1, 1}, mat, 256);
  auto mk = [&](size_t i) { return std::to_string(i * 7 + 1) + std::string(len, 'p'); };
  std::vector<std::string> v;
  for (size_t i = 0; i < first; ++i) {
    REQUIRE(d.getOrAdd(mk(i)) == static_cast<int32_t>(i), "id");
  }
  for (size_t i = 0; i < n; ++i) {
    v.push_back(mk(i));
  }
  g_enable_stringdict_parallel = par;
  if (single) {
    for (size_t i = first; i < n; ++i) {
      REQUIRE(d.getOrAdd(v[i]) == static_cast<int32_t>(i), "id of string " << i);
    }
  } else {
    std::vector<int32_t> out(n);
    d.getOrAddBulk(v, out.data());
    for (size_t i = 0; i < n; ++i) {
      REQUIRE(out[i] == static_cast<int32_t>(i), "bulk id " << out[i] << " of string " << i);
    }
  }
  g_enable_stringdict_parallel = false;
  REQUIRE(d.entryCount() == n, "entryCount");
  std::vector<int32_t> got(n);
  REQUIRE(d.getBulk(v, got.data()) == 0, "all present");
  for (size_t i = 0; i < n; ++i) {
    REQUIRE(got[i] == static_cast<int32_t>(i), "lookup id " << got[i] << " of string " << i);
    if (i % 17 == 0 || i + 50 > n) {
      REQUIRE(d.getString(static_cast<int32_t>(i)) == v[i], "string of id " << i);
    }
  }
  auto cp = d.copyStrings();
  REQUIRE(cp == v, "copyStrings");
}

// Long strings: payload growth with single and bulk additions.
FACET(longpayload) {
  auto& s = c.s;
  StringDictionary d(DictRef{1, 1}, s.draw(1), 16);
  size_t n = s.size(100, 420);
  size_t base = s.draw(1) ? StringDictionary::MAX_STRLEN : 20000 + s.draw(12000);
  auto mk = [&](size_t i) {
    auto t = std::to_string(i) + "#";
    size_t len = base - (i % 5) * 3;
    return t + std::string(len - t.size(), static_cast<char>('a' + i % 26));
  };
  c.describe([&](auto& o) { o << n << " strings of about " << base << " bytes"; });
  c.nontrivial();
  std::vector<std::string> v;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(mk(i));
  }
  size_t i = 0;
  while (i < n) {
    size_t k = std::min(n - i, s.size(1, 150));
    if (k < 20) {
      for (size_t j = 0; j < k; ++j) {
        REQUIRE(d.getOrAdd(v[i + j]) == static_cast<int32_t>(i + j), "id");
      }
    } else {
      g_enable_stringdict_parallel = s.draw(1);
      std::vector<std::string> part(v.begin() + i, v.begin() + i + k);
      std::vector<int32_t> out(k);
      d.getOrAddBulk(part, out.data());
      g_enable_stringdict_parallel = false;
      for (size_t j = 0; j < k; ++j) {
        REQUIRE(out[j] == static_cast<int32_t>(i + j), "bulk id");
      }
    }
    i += k;
  }
  for (size_t j = 0; j < n; ++j) {
    REQUIRE(d.getString(static_cast<int32_t>(j)) == v[j], "string " << j);
    REQUIRE(d.getIdOfString(v[j]) == static_cast<int32_t>(j), "id " << j);
  }
}

// LIKE / comparison / REGEXP searches return exactly the ids whose strings match, whatever was added or cached before.
FACET(search) {
  World w;
  addDict(c, w);
  size_t steps = c.s.size(3, 24);
  for (size_t i = 0; i < steps; ++i) {
    size_t op = c.s.weighted({12, 8, 2, 1});
    if (op == 2 && w.ms.size() < 4) {
      addDict(c, w);
    } else if (op == 3) {
      // More strings than ids of one byte can tell apart: the add fails halfway and what it added stays.
      auto& m = w.pick(c.s);
      if (fitWidth(m, 1) == 1) {
        std::vector<std::string> v;
        for (int64_t n = 250 + static_cast<int64_t>(c.s.draw(8)) - m.count(); n > 0; --n) {
          v.push_back("str" + std::to_string(m.count() * 7 + n));
        }
        c.describe([&](auto& o) { o << gname(w, m) << ".crowd(" << v.size() << "); "; });
        addBulkT<uint8_t>(c, m, v, c.s.draw(1));
        search(c, w, m);
      }
    } else if (op == 1) {
      addSome(c, w, w.pick(c.s), 60);
    } else {
      search(c, w, w.pick(c.s));
    }
  }
}

// Translation maps between dictionaries.
FACET(translation) {
  World w;
  addDict(c, w);
  addDict(c, w);
  bool big = c.s.chance(1, 20);
  size_t steps = c.s.size(3, 20);
  for (size_t i = 0; i < steps; ++i) {
    size_t op = c.s.weighted({4, 4, 1});
    if (op == 2 && w.ms.size() < 5) {
      addDict(c, w);
    } else if (op == 1) {
      addSome(c, w, w.pick(c.s), big ? 8000 : 100);
    } else {
      translate(c, w);
    }
  }
  for (auto& m : w.ms) {
    checkAll(*m, false);
  }
}

// Concurrent writers and readers: at any time ids are unique per string and never change; afterwards they are dense.
FACET(concurrent) {
  auto& s = c.s;
  bool nested = s.draw(1);
  auto root = std::make_shared<StringDictionary>(DictRef{1, 1}, s.draw(1), s.pick<size_t>({2, 256}));
  std::vector<std::string> pre;
  for (size_t n = s.size(0, 20); n; --n) {
    pre.push_back("k" + std::to_string(s.draw(60)));
  }
  std::map<std::string, int32_t> fixed;
  for (auto& x : pre) {
    auto id = root->getOrAdd(x);
    auto [it, ins] = fixed.emplace(x, id);
    REQUIRE(it->second == id, "id changed");
  }
  size_t base_n = root->entryCount();
  REQUIRE(base_n == fixed.size(), "entryCount");
  auto d = nested ? std::make_shared<StringDictionary>(root, -1, s.draw(1)) : root;
  size_t nt = s.size(2, 4), ops = s.size(20, 200);
  uint64_t universe = s.pick<uint64_t>({40, 400, 3000});
  std::vector<uint64_t> seeds;
  std::vector<int> roles;
  for (size_t i = 0; i < nt; ++i) {
    seeds.push_back(s.draw(UINT64_MAX - 1));
    roles.push_back(i == 0 ? 0 : static_cast<int>(s.draw(2)));
  }
  c.describe([&](auto& o) { o << nt << " threads x " << ops << " ops over " << universe << " strings, nested=" << nested << " preloaded=" << fixed.size(); });
  c.nontrivial();
  std::vector<std::map<std::string, int32_t>> seen(nt);
  std::vector<std::string> errs(nt);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; ++t) {
    th.emplace_back([&, t] {
      uint64_t st = seeds[t];
      auto rnd = [&](uint64_t m) {
        st = pbt::mix(st);
        return st % m;
      };
      ready++;
      while (ready < nt) {
      }
      auto note = [&](const std::string& x, int32_t id, const char* how) {
        if (id < 0) {
          errs[t] = std::string(how) + " returned " + std::to_string(id) + " for " + x;
          return;
        }
        auto [it, ins] = seen[t].emplace(x, id);
        if (it->second != id) {
          errs[t] = std::string(how) + ": id of " + x + " changed from " + std::to_string(it->second) + " to " + std::to_string(id);
        }
        auto back = d->getString(id);
        if (back != x) {
          errs[t] = std::string(how) + ": id " + std::to_string(id) + " of " + x + " reads back as " + back;
        }
      };
      for (size_t k = 0; k < ops && errs[t].empty(); ++k) {
        auto op = rnd(10);
        if (roles[t] == 2 && op < 8) {
          op = 8 + rnd(2);
        }
        if (op < 5) {
          auto x = "k" + std::to_string(rnd(universe));
          note(x, d->getOrAdd(x), "add");
        } else if (op < 8) {
          std::vector<std::string> v;
          for (size_t n = 1 + rnd(30); n; --n) {
            v.push_back("k" + std::to_string(rnd(universe)));
          }
          std::vector<int32_t> out(v.size());
          d->getOrAddBulk(v, out.data());
          for (size_t i = 0; i < v.size(); ++i) {
            note(v[i], out[i], "bulk add");
          }
        } else if (op == 8 && rnd(3) == 0) {
          std::vector<std::string> v;
          for (size_t n = 1 + rnd(30); n; --n) {
            v.push_back("k" + std::to_string(rnd(universe)));
          }
          std::vector<int32_t> out(v.size());
          size_t miss = d->getBulk(v, out.data()), m2 = 0;
          for (size_t i = 0; i < v.size(); ++i) {
            if (out[i] >= 0) {
              note(v[i], out[i], "bulk lookup");
            } else {
              ++m2;
              if (seen[t].count(v[i])) {
                errs[t] = "bulk lookup lost " + v[i];
              }
            }
          }
          if (miss != m2) {
            errs[t] = "bulk lookup miscounts missing strings";
          }
        } else if (op == 8) {
          auto x = "k" + std::to_string(rnd(universe));
          auto id = d->getIdOfString(x);
          if (id >= 0) {
            note(x, id, "lookup");
          } else if (seen[t].count(x)) {
            errs[t] = "lookup lost " + x;
          }
        } else {
          auto kind = rnd(4);
          std::vector<int32_t> ids;
          auto x = "k" + std::to_string(rnd(universe));
          if (kind == 0) {
            ids = d->getLike(x, false, false, '\\');
          } else if (kind == 1) {
            ids = d->getCompare(x, "=");
          } else if (kind == 2) {
            auto all = d->getCompare(x, ">=");
            for (auto id : all) {
              if (d->getString(id) < x) {
                errs[t] = "compare >= " + x + " returned " + d->getString(id);
              }
            }
            continue;
          } else {
            size_t before = d->entryCount();
            auto cs = d->copyStrings();
            if (cs.size() < before) {
              errs[t] = "copyStrings lost entries";
            }
            for (size_t i = 0; i < cs.size(); i += 7) {
              if (d->getString(static_cast<int32_t>(i)) != cs[i]) {
                errs[t] = "copyStrings entry " + std::to_string(i) + " is " + cs[i];
              }
            }
            continue;
          }
          if (ids.size() > 1) {
            errs[t] = "search for " + x + " returned " + std::to_string(ids.size()) + " ids";
          }
          for (auto id : ids) {
            note(x, id, "search");
          }
          if (ids.empty() && seen[t].count(x)) {
            errs[t] = "search lost " + x;
          }
        }
      }
    });
  }
  for (auto& t : th) {
    t.join();
  }
  for (auto& e : errs) {
    REQUIRE(e.empty(), e);
  }
  std::map<std::string, int32_t> all = fixed;
  for (auto& m : seen) {
    for (auto& [x, id] : m) {
      auto [it, ins] = all.emplace(x, id);
      REQUIRE(it->second == id, "threads saw ids " << it->second << " and " << id << " for " << x);
    }
  }
  size_t n = d->entryCount();
  std::set<int32_t> ids;
  for (auto& [x, id] : all) {
    REQUIRE(ids.insert(id).second, "id " << id << " given to two strings");
    REQUIRE(d->getString(id) == x, "final string of id " << id);
    REQUIRE(d->getIdOfString(x) == id, "final id of " << x);
  }
  REQUIRE(ids.size() == n, "entryCount " << n << " but " << ids.size() << " strings were added");
  REQUIRE(ids.empty() || (*ids.begin() == 0 && *ids.rbegin() == static_cast<int32_t>(n) - 1), "ids are not dense");
}

// The alternative dictionary implementation (fast::StringDictionary) against a plain map.
FACET(alternative) {
  auto& s = c.s;
  size_t cap = size_t(1) << s.size(2, 9);
  fast::StringDictionary d(DictRef{3, 7}, false, cap);
  REQUIRE(d.getDbId() == 3 && d.getDictId() == 7, "dictionary reference");
  std::vector<std::string> strs;
  std::unordered_map<std::string, int32_t> ids;
  auto add = [&](const std::string& x) -> int32_t {
    if (x.empty()) {
      return kNull;
    }
    auto [it, ins] = ids.emplace(x, static_cast<int32_t>(strs.size()));
    if (ins) {
      strs.push_back(x);
    }
    return it->second;
  };
  auto find = [&](const std::string& x) -> int32_t {
    if (x.empty()) {
      return kNull;
    }
    auto it = ids.find(x);
    return it == ids.end() ? -1 : it->second;
  };
  auto str = [&]() -> std::string {
    if (s.chance(1, 12)) {
      return {};
    }
    return !strs.empty() && s.chance(1, 3) ? strs[s.draw(strs.size() - 1)] : genStr(s);
  };
  size_t bulk = s.chance(1, 10) ? 600 : 12;
  std::ostringstream log;
  for (size_t n = s.size(1, 40); n; --n) {
    switch (s.weighted({5, 4, 3, 3, 1, 1, 1})) {
      case 0: {
        auto x = str();
        auto got = d.getOrAdd(x);
        auto exp = add(x);
        REQUIRE(got == exp, "getOrAdd returned " << got << " not " << exp);
        log << "add ";
        break;
      }
      case 1: {
        std::vector<std::string> v;
        for (size_t k = s.size(0, bulk); k; --k) {
          v.push_back(str());
        }
        std::vector<int32_t> got(v.size(), 77);
        if (s.chance(1, 3)) {
          std::vector<std::string_view> sv(v.begin(), v.end());
          d.getOrAddBulk(sv, got.data());
        } else {
          d.getOrAddBulk(v, got.data());
        }
        for (size_t i = 0; i < v.size(); ++i) {
          auto exp = add(v[i]);
          REQUIRE(got[i] == exp, "getOrAddBulk entry " << i << " is " << got[i] << " not " << exp);
        }
        log << "bulk" << v.size() << " ";
        break;
      }
      case 2: {
        auto x = str();
        auto exp = find(x);
        auto got = s.draw(1) ? d.getIdOfString(x) : d.getIdOfString(std::string_view(x));
        REQUIRE(got == exp, "getIdOfString returned " << got << " not " << exp);
        break;
      }
      case 3: {
        std::vector<std::string> v;
        for (size_t k = s.size(0, bulk); k; --k) {
          v.push_back(str());
        }
        std::vector<int32_t> got(v.size(), 77);
        auto miss = s.draw(1) ? d.getBulk(v, got.data()) : d.getBulk(v, got.data(), int64_t(-1));
        size_t exp_miss = 0;
        for (size_t i = 0; i < v.size(); ++i) {
          auto exp = find(v[i]);
          exp_miss += exp == -1;
          REQUIRE(got[i] == exp, "getBulk entry " << i << " is " << got[i] << " not " << exp);
        }
        REQUIRE(miss == exp_miss, "getBulk reports " << miss << " missing, not " << exp_miss);
        break;
      }
      case 4:
        if (!strs.empty()) {
          auto id = s.draw(strs.size() - 1);
          REQUIRE(d.getString(id) == strs[id], "string of id " << id);
        }
        break;
      case 5:
        REQUIRE(d.storageEntryCount() == strs.size(), "entry count " << d.storageEntryCount() << " not " << strs.size());
        break;
      default: {
        // ids of the narrow widths
        if (strs.size() < 60) {
          std::vector<std::string> v;
          for (size_t k = s.size(0, 6); k; --k) {
            v.push_back(str());
          }
          std::vector<uint8_t> g8(v.size(), 77);
          std::vector<uint16_t> g16(v.size(), 77);
          bool w = s.draw(1);
          if (w) {
            d.getOrAddBulk(v, g16.data());
          } else {
            d.getOrAddBulk(v, g8.data());
          }
          for (size_t i = 0; i < v.size(); ++i) {
            auto exp = add(v[i]);
            if (v[i].empty()) {
              continue;
            }
            REQUIRE((w ? g16[i] : g8[i]) == exp, "narrow getOrAddBulk entry " << i);
          }
        }
      }
    }
  }
  REQUIRE(d.storageEntryCount() == strs.size(), "final entry count " << d.storageEntryCount() << " not " << strs.size());
  for (size_t i = 0; i < strs.size(); ++i) {
    REQUIRE(d.getString(i) == strs[i], "final string of id " << i);
    REQUIRE(d.getIdOfString(strs[i]) == static_cast<int32_t>(i), "final id of " << i);
  }
  struct Each : fast::StringDictionary::StringCallback {
    std::vector<std::pair<std::string, int32_t>> v;
    void operator()(std::string const& x, int32_t const id) override { v.emplace_back(x, id); }
    void operator()(std::string_view const x, int32_t const id) override { v.emplace_back(std::string(x), id); }
  } each;
  d.eachStringSerially(-1, each);
  REQUIRE(each.v.size() == strs.size(), "iteration visits " << each.v.size() << " of " << strs.size());
  for (size_t i = 0; i < each.v.size(); ++i) {
    REQUIRE(each.v[i].second == static_cast<int32_t>(i) && each.v[i].first == strs[i], "iteration entry " << i);
  }
  c.nontrivial(strs.size() >= 3);
  if (strs.size() > cap) {
    c.label("grown");
  }
  c.describe([&](auto& o) { o << "capacity " << cap << ": " << log.str(); });
}

int main(int argc, char** argv) {
  pbt::g_init = [](int, char** av) {
    logger::LogOptions lo(av[0]);
    lo.severity_ = logger::Severity::FATAL;
    logger::init(lo);
  };
  return pbt::mainImpl(argc, argv);
}
