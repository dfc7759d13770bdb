// A small property-based testing engine (Hypothesis-style: every generated case is a sequence of bounded integer
// choices, so any case can be replayed from its choice list and shrunk by editing that list).
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <execinfo.h>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Fail : std::exception {
  std::string msg;
  explicit Fail(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) {
    h = (h ^ c) * 1099511628211ull;
  }
  return h;
}

// Mirror of the choices of the case that is running, so that a crash can be attributed and shrunk by the driver.
struct Mirror {
  uint64_t* base = nullptr;
  size_t cap = 0;
  void open(const char* path, size_t cap_words = 1u << 20) {
    int fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, cap_words * 8) != 0) {
      perror("mirror");
      exit(9);
    }
    base = static_cast<uint64_t*>(mmap(nullptr, cap_words * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    cap = cap_words;
    ::close(fd);
  }
  void begin(uint64_t idx) {
    if (base) {
      base[0] = idx;
      base[1] = 0;
    }
  }
  void push(uint64_t v) {
    if (base && base[1] + 2 < cap) {
      base[2 + base[1]] = v;
      base[1]++;
    }
  }
};
inline Mirror g_mirror;

class Src {
 public:
  explicit Src(uint64_t seed) : state_(seed), replay_(false) {}
  explicit Src(std::vector<uint64_t> c) : replay_(true), in_(std::move(c)) {}

  // Uniform in [0, max]; 0 is the simplest.
  uint64_t draw(uint64_t max) {
    uint64_t v;
    if (replay_) {
      v = pos_ < in_.size() ? std::min(in_[pos_], max) : 0;
      ++pos_;
    } else {
      state_ += 0x9e3779b97f4a7c15ull;
      uint64_t z = mix(state_);
      v = max == UINT64_MAX ? z : z % (max + 1);
    }
    out_.push_back(v);
    g_mirror.push(v);
    return v;
  }
  size_t size(size_t lo, size_t hi) { return lo + static_cast<size_t>(draw(hi - lo)); }
  // Signed range, shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) {
    return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
  }
  // Shrinks towards zero when zero is inside.
  int64_t around(int64_t lo, int64_t hi) {
    if (lo >= 0 || hi <= 0) {
      return range(lo, hi);
    }
    if (draw(1)) {
      return -static_cast<int64_t>(1 + draw(static_cast<uint64_t>(-(lo + 1))));
    }
    return range(0, hi);
  }
  // true with probability num/den; false is simplest.
  bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size() - 1)];
  }
  template <typename T>
  T pick(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size() - 1));
  }
  // Index with the given weights; earlier is simpler.
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0;
    for (auto x : w) {
      tot += x;
    }
    uint64_t v = draw(tot - 1);
    size_t i = 0;
    for (auto x : w) {
      if (v < x) {
        return i;
      }
      v -= x;
      ++i;
    }
    return 0;
  }
  // A size that is usually small and sometimes large (log-uniform up to hi).
  size_t logsize(size_t hi) {
    size_t bits = 0;
    while ((size_t(1) << bits) <= hi) {
      ++bits;
    }
    size_t b = draw(bits);
    size_t m = std::min(hi, b >= 63 ? hi : (size_t(1) << b) - 1);
    return draw(m);
  }
  // An integer of the given width, biased to boundaries.
  int64_t boundary(int64_t lo, int64_t hi) {
    switch (weighted({4, 3, 2, 2, 1})) {
      case 0:
        return clampTo(around(-10, 10), lo, hi);
      case 1:
        return around(lo, hi);
      case 2: {
        int64_t d = range(0, 3);
        return draw(1) ? sat(hi, -d, lo, hi) : sat(lo, d, lo, hi);
      }
      case 3: {  // near a power of two
        int b = static_cast<int>(draw(62));
        int64_t v = (int64_t(1) << b) + range(-2, 2);
        return clampTo(draw(1) ? -v : v, lo, hi);
      }
      default: {
        int64_t p = 1;
        for (auto k = draw(18); k; --k) {
          p *= 10;
        }
        p += range(-1, 1);
        return clampTo(draw(1) ? -p : p, lo, hi);
      }
    }
  }
  const std::vector<uint64_t>& choices() const { return out_; }

 private:
  static int64_t clampTo(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : (v > hi ? hi : v); }
  static int64_t sat(int64_t b, int64_t d, int64_t lo, int64_t hi) {
    int64_t r;
    if (__builtin_add_overflow(b, d, &r)) {
      return b;
    }
    return clampTo(r, lo, hi);
  }
  uint64_t state_ = 0;
  bool replay_;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> out_;
};

struct Case {
  Src& s;
  bool verbose;
  bool nontrivial_ = false;
  std::vector<std::string> labels_;
  std::ostringstream desc_;
  std::string known_;
  explicit Case(Src& src, bool v) : s(src), verbose(v) {}
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(const std::string& l) { labels_.push_back(l); }
  void label(bool b, const std::string& l) {
    if (b) {
      labels_.push_back(l);
    }
  }
  template <typename F>
  void describe(F&& f) {
    if (verbose) {
      f(desc_);
      if (getenv("PBT_TRACE")) {  // shows the case even when it crashes
        std::cerr << "case: " << desc_.str() << std::endl;
      }
    }
  }
};

using FacetFn = std::function<void(Case&)>;
struct Facet {
  std::string name;
  FacetFn fn;
};
inline std::vector<Facet>& facets() {
  static std::vector<Facet> f;
  return f;
}
struct Reg {
  Reg(const char* n, FacetFn f) { facets().push_back({n, std::move(f)}); }
};

#define FACET(NAME)                                       \
  static void facet_##NAME(pbt::Case& c);                 \
  static pbt::Reg reg_##NAME(#NAME, facet_##NAME);        \
  static void facet_##NAME([[maybe_unused]] pbt::Case& c)

#define REQUIRE(cond, ...)                                                        \
  do {                                                                            \
    if (!(cond)) {                                                                \
      std::ostringstream os_;                                                     \
      os_ << "required: " #cond << " -- " << __VA_ARGS__;                         \
      throw pbt::Fail(os_.str());                                                 \
    }                                                                             \
  } while (0)

// Known findings: ids listed (one per line) in $PBT_KNOWN are tolerated (and counted) when the harness identifies them.
inline std::set<std::string>& knownIds() {
  static std::set<std::string> k = [] {
    std::set<std::string> r;
    if (auto e = getenv("PBT_KNOWN")) {
      std::stringstream ss(e);
      std::string l;
      while (std::getline(ss, l, ',')) {
        if (!l.empty()) {
          r.insert(l);
        }
      }
    }
    return r;
  }();
  return k;
}
inline bool isKnown(Case& c, const std::string& id) {
  if (knownIds().count(id)) {
    c.known_ = id;
    return true;
  }
  return false;
}

inline std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += static_cast<char>(ch);
    } else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += static_cast<char>(ch);
    }
  }
  return o + "\"";
}

struct Outcome {
  int kind = 0;  // 0 pass, 1 fail, 2 discard
  std::string msg;
};

inline unsigned g_case_limit_s = 60;

inline Outcome runCase(const Facet& f, Case& c) {
  Outcome o;
  alarm(g_case_limit_s);
  try {
    f.fn(c);
  } catch (const Fail& e) {
    o.kind = 1;
    o.msg = e.msg;
  } catch (const Discard&) {
    o.kind = 2;
  } catch (const std::exception& e) {
    o.kind = 1;
    o.msg = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    o.kind = 1;
    o.msg = "unexpected exception of unknown type";
  }
  alarm(0);
  return o;
}

inline bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) {
    return a.size() < b.size();
  }
  return a < b;
}

inline void writeChoices(const std::string& path, const std::vector<uint64_t>& c) {
  std::ofstream o(path);
  for (auto v : c) {
    o << v << "\n";
  }
}
inline std::vector<uint64_t> readChoices(const std::string& path) {
  std::ifstream i(path);
  std::vector<uint64_t> r;
  uint64_t v;
  while (i >> v) {
    r.push_back(v);
  }
  return r;
}

// Shrinks in process; every improvement is written to `out` so a crash of the process loses nothing.
inline void shrink(const Facet& f, std::vector<uint64_t> best, double budget_s, const std::string& out) {
  auto t0 = std::chrono::steady_clock::now();
  auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s; };
  auto fails = [&](const std::vector<uint64_t>& cand, std::vector<uint64_t>& norm) {
    g_mirror.begin(0);
    Src s(cand);
    Case c(s, getenv("PBT_TRACE") != nullptr);
    auto o = runCase(f, c);
    if (o.kind != 1) {
      return false;
    }
    norm = s.choices();
    return true;
  };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    std::vector<uint64_t> norm;
    if (fails(cand, norm) && simpler(norm, best)) {
      best = norm;
      writeChoices(out, best);
      return true;
    }
    return false;
  };
  {
    std::vector<uint64_t> norm;
    if (!fails(best, norm)) {
      return;
    }
    if (simpler(norm, best)) {
      best = norm;
    }
    writeChoices(out, best);
  }
  bool progress = true;
  while (progress && left()) {
    progress = false;
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k = k / 2) {
      for (size_t i = 0; i + k <= best.size() && left();) {
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + k);
        if (attempt(cand)) {
          progress = true;
          continue;
        }
        // delete and decrement the nearest earlier nonzero choice (a length, usually)
        bool ok = false;
        for (size_t j = i; j-- > 0 && i - j <= 4;) {
          if (best[j]) {
            cand = best;
            cand[j]--;
            cand.erase(cand.begin() + i, cand.begin() + i + k);
            if (attempt(cand)) {
              ok = progress = true;
            }
            break;
          }
        }
        if (!ok) {
          i += (best.size() > 400 && k < 4) ? k * 2 : k;
        }
      }
      if (k == 1) {
        break;
      }
    }
    for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && left(); k = k / 2) {
      for (size_t i = 0; i < best.size() && left(); i += k) {
        auto cand = best;
        bool any = false;
        for (size_t j = i; j < std::min(best.size(), i + k); ++j) {
          any = any || cand[j];
          cand[j] = 0;
        }
        if (any && attempt(cand)) {
          progress = true;
        }
      }
      if (k == 1) {
        break;
      }
    }
    for (size_t i = 0; i < best.size() && left(); ++i) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && left()) {  // binary descent
        uint64_t mid = lo + (best[i] - lo) / 2;
        if (mid == best[i]) {
          break;
        }
        auto cand = best;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
}

// Optional per-process hooks.
inline std::function<void(int, char**)> g_init;

inline void onAlarm(int) {
  const char m[] = "PBT-HANG\n";
  [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
  _exit(77);
}

#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
// Leaves the stack of the crashing thread on stderr; only for the report.
inline void onCrash(int sig) {
  void* frames[40];
  int n = backtrace(frames, 40);
  const char m[] = "PBT-CRASH stack:\n";
  [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
  backtrace_symbols_fd(frames, n, 2);
  signal(sig, SIG_DFL);
  raise(sig);
}

inline void installCrashHandler() {
  void* frames[2];
  backtrace(frames, 2);  // loads libgcc now, not in the handler
  static char alt[1 << 16];
  stack_t st{};
  st.ss_sp = alt;
  st.ss_size = sizeof alt;
  sigaltstack(&st, nullptr);
  struct sigaction sa {};
  sa.sa_handler = onCrash;
  sa.sa_flags = SA_ONSTACK | SA_RESETHAND | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) {
    sigaction(s, &sa, nullptr);
  }
}
#else
inline void installCrashHandler() {}
#endif

inline int mainImpl(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 2; i + 1 < argc; i += 2) {
    a[argv[i]] = argv[i + 1];
  }
  std::string cmd = argc > 1 ? argv[1] : "list";
  if (cmd == "list") {
    for (auto& f : facets()) {
      std::cout << f.name << "\n";
    }
    return 0;
  }
  signal(SIGALRM, onAlarm);
  installCrashHandler();
  if (a.count("--limit")) {
    g_case_limit_s = std::stoul(a["--limit"]);
  }
  const Facet* f = nullptr;
  for (auto& x : facets()) {
    if (x.name == a["--facet"]) {
      f = &x;
    }
  }
  if (!f) {
    std::cerr << "no such facet: " << a["--facet"] << "\n";
    return 8;
  }
  if (g_init) {
    g_init(argc, argv);
  }
  if (a.count("--mirror")) {
    g_mirror.open(a["--mirror"].c_str());
  }
  if (cmd == "replay") {
    int reps = a.count("--reps") ? std::stoi(a["--reps"]) : 1;
    for (int r = 0; r < reps; ++r) {
      g_mirror.begin(0);
      Src s(readChoices(a["--choices"]));
      Case c(s, true);
      auto o = runCase(*f, c);
      if (o.kind == 1 || r + 1 == reps) {
        std::cout << "case: " << c.desc_.str() << "\n"
                  << (o.kind == 1 ? "FAIL: " : (o.kind == 2 ? "discarded " : (c.known_.empty() ? "ok" : "KNOWN " + c.known_)))
                  << o.msg << std::endl;
      }
      if (o.kind == 1) {
        fflush(nullptr);
        _exit(1);
      }
    }
    fflush(nullptr);
    _exit(0);
  }
  if (cmd == "shrink") {
    shrink(*f, readChoices(a["--choices"]), std::stod(a["--budget"]), a["--out"]);
    fflush(nullptr);
    _exit(0);
  }
  if (cmd != "run") {
    return 8;
  }
  uint64_t seed = std::stoull(a["--seed"]);
  uint64_t b = std::stoull(a["--begin"]), e = std::stoull(a["--end"]);
  double budget = a.count("--time") ? std::stod(a["--time"]) : 1e9;
  uint64_t evals = 0, discards = 0, nontriv = 0, draws = 0, known_hits = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> known;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::string fail_json;
  auto t0 = std::chrono::steady_clock::now();
  int rc = 0;
  for (uint64_t i = b; i < e; ++i) {
    if ((i & 7) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) {
      break;
    }
    g_mirror.begin(i);
    Src s(mix(mix(seed) ^ hashStr(f->name) ^ (i * 0x2545F4914F6CDD1Dull)));
    uint64_t k = i - b;
    bool verbose = samples.size() < 3 && (k < 2 || k % 13 == 0);
    Case c(s, verbose || getenv("PBT_TRACE"));
    auto o = runCase(*f, c);
    if (o.kind == 2) {
      ++discards;
      continue;
    }
    ++evals;
    draws += s.choices().size();
    for (auto& l : c.labels_) {
      labels[l]++;
    }
    if (!c.known_.empty()) {
      known[c.known_]++;
      ++known_hits;
    }
    if (c.nontrivial_) {
      ++nontriv;
      uint64_t h = 0;
      for (auto v : s.choices()) {
        h = mix(h ^ v);
      }
      distinct.insert(h);
      if (verbose) {
        samples.push_back(c.desc_.str().substr(0, 600));
      }
    }
    if (o.kind == 1) {
      writeChoices(a["--out"] + ".choices", s.choices());
      fail_json = "{\"index\":" + std::to_string(i) + ",\"msg\":" + jstr(o.msg.substr(0, 4000)) + "}";
      rc = 1;
      break;
    }
  }
  {
    std::ofstream h(a["--out"] + ".hashes", std::ios::binary);
    for (auto v : distinct) {
      h.write(reinterpret_cast<const char*>(&v), 8);
    }
  }
  std::ofstream o(a["--out"]);
  o << "{\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"nontrivial\":" << nontriv
    << ",\"draws\":" << draws << ",\"labels\":{";
  bool first = true;
  for (auto& [l, n] : labels) {
    o << (first ? "" : ",") << jstr(l) << ":" << n;
    first = false;
  }
  o << "},\"known\":{";
  first = true;
  for (auto& [l, n] : known) {
    o << (first ? "" : ",") << jstr(l) << ":" << n;
    first = false;
  }
  o << "},\"samples\":[";
  first = true;
  for (auto& s : samples) {
    o << (first ? "" : ",") << jstr(s);
    first = false;
  }
  o << "],\"failure\":" << (fail_json.empty() ? "null" : fail_json) << "}\n";
  o.close();
  fflush(nullptr);
  _exit(rc);
}

}  // namespace pbt

#define PBT_MAIN                                                            \
  int main(int argc, char** argv) { return pbt::mainImpl(argc, argv); }
