// Sorting, quantiles and small text/number utilities.
#include "common/gen_str.h"
#include "common/pbt.h"

#include "Shared/DoubleSort.h"
#include "Shared/Intervals.h"
#include "Shared/MathUtils.h"
#include "Shared/StringTransform.h"
#include "Shared/approx_quantile.h"
#include "Shared/base64.h"
#include "Shared/misc.h"
#include "Shared/parallel_sort.h"
#include "Shared/quantile.h"

#include <numeric>

namespace ir = hdk::ir;

namespace {

struct Alloc : SimpleAllocator {
  std::vector<std::unique_ptr<int8_t[]>> mem;
  int8_t* allocate(const size_t n, const size_t) override {
    mem.emplace_back(new int8_t[n]);
    return mem.back().get();
  }
};

// Sizes around the points where the sort changes strategy.
size_t sortSize(pbt::Src& s) {
  switch (s.weighted({4, 3, 3, 2})) {
    case 0:
      return s.size(0, 40);
    case 1:
      return s.size(480, 520);
    case 2:
      return s.size(0, 3000);
    default:
      return s.size(0, 20000);
  }
}

// Values in a shape sorting algorithms are sensitive to.
std::vector<int64_t> shaped(pbt::Src& s, size_t n, int64_t lo, int64_t hi) {
  std::vector<int64_t> r(n);
  uint64_t seed = s.draw(UINT32_MAX);
  auto rnd = [&] { return seed = pbt::mix(seed); };
  auto kind = s.weighted({3, 2, 2, 2, 2, 2, 2});
  uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
  auto val = [&](uint64_t x) { return static_cast<int64_t>(static_cast<uint64_t>(lo) + (span == UINT64_MAX ? x : x % (span + 1))); };
  auto mono = [&](size_t i) { return static_cast<int64_t>(static_cast<uint64_t>(lo) + (n > 1 && span >= n ? span / n * i : (span ? i * span / std::max<size_t>(n, 1) : 0))); };
  switch (kind) {
    case 0:
      for (auto& v : r) {
        v = val(rnd());
      }
      break;
    case 1: {  // few distinct values
      uint64_t k = 1 + s.draw(5);
      std::vector<int64_t> d(k);
      for (auto& v : d) {
        v = val(rnd());
      }
      for (auto& v : r) {
        v = d[rnd() % k];
      }
      break;
    }
    case 2:
      for (size_t i = 0; i < n; ++i) {
        r[i] = mono(i);
      }
      break;
    case 3:
      for (size_t i = 0; i < n; ++i) {
        r[i] = mono(n - 1 - i);
      }
      break;
    case 4:  // organ pipe
      for (size_t i = 0; i < n; ++i) {
        r[i] = mono(i < n / 2 ? i : n - 1 - i);
      }
      break;
    case 5:  // sorted with a few displaced
      for (size_t i = 0; i < n; ++i) {
        r[i] = mono(i);
      }
      for (size_t k = s.draw(6); k && n; --k) {
        std::swap(r[rnd() % n], r[rnd() % n]);
      }
      break;
    default:
      for (size_t i = 0; i < n; ++i) {
        r[i] = i % 3 == 0 ? hi : i % 3 == 1 ? lo : val(rnd());
      }
      break;
  }
  return r;
}

template <typename K, typename Cmp>
void checkSort(pbt::Case& c, const std::vector<K>& keys, Cmp cmp, bool twosort) {
  size_t n = keys.size();
  std::vector<K> k = keys;
  std::vector<int64_t> v(n);
  std::iota(v.begin(), v.end(), 0);
  if (twosort) {
    if constexpr (std::is_arithmetic_v<K>) {
      using It = double_sort::Iterator<K, int64_t>;
      using Val = double_sort::Value<K, int64_t>;
      std::sort(It(k.data(), v.data()), It(k.data() + n, v.data() + n),
                [&](const Val& a, const Val& b) { return cmp(a.value0(), b.value0()); });
    }
  } else {
    parallel_sort_by_key(k.begin(), v.begin(), n, cmp);
  }
  std::vector<bool> seen(n);
  for (size_t i = 0; i < n; ++i) {
    REQUIRE(!i || !cmp(k[i], k[i - 1]), "position " << i << " of " << n << " is out of order");
    REQUIRE(v[i] >= 0 && static_cast<size_t>(v[i]) < n && !seen[v[i]], "value " << v[i] << " at " << i << " of " << n << " lost or repeated");
    seen[v[i]] = true;
    REQUIRE(k[i] == keys[v[i]], "the value at " << i << " of " << n << " left its key");
  }
}

template <typename T>
void describeVals(pbt::Case& c, const std::vector<T>& v) {
  c.describe([&](std::ostream& o) {
    o << v.size() << " values:";
    for (size_t i = 0; i < std::min<size_t>(v.size(), 12); ++i) {
      o << ' ' << +v[i];
    }
  });
}
}  // namespace

FACET(sort) {
  auto& s = c.s;
  size_t n = sortSize(s);
  bool desc = s.draw(1);
  bool twosort = s.chance(1, 4);
  auto vals = shaped(s, n, s.draw(1) ? -5 : INT64_MIN, s.draw(1) ? 5 : INT64_MAX);
  switch (s.draw(3)) {
    case 0:
      describeVals(c, vals);
      desc ? checkSort(c, vals, std::greater<int64_t>(), twosort) : checkSort(c, vals, std::less<int64_t>(), twosort);
      break;
    case 1: {
      std::vector<int32_t> k(vals.begin(), vals.end());
      describeVals(c, k);
      desc ? checkSort(c, k, std::greater<int32_t>(), twosort) : checkSort(c, k, std::less<int32_t>(), twosort);
      break;
    }
    case 2: {
      std::vector<double> k(n);
      for (size_t i = 0; i < n; ++i) {
        k[i] = vals[i] / 3.0;
      }
      describeVals(c, k);
      desc ? checkSort(c, k, std::greater<double>(), twosort) : checkSort(c, k, std::less<double>(), twosort);
      break;
    }
    default: {  // a coarse order: many ties
      auto cmp = [](int64_t a, int64_t b) { return (a & 7) < (b & 7); };
      describeVals(c, vals);
      checkSort(c, vals, cmp, twosort);
      break;
    }
  }
  c.nontrivial(n >= 500);
  c.label(n >= 500, "parallel");
}

namespace {

template <typename V, typename R>
void checkQuantile(pbt::Case& c) {
  auto& s = c.s;
  const auto interp = static_cast<ir::Interpolation>(s.pick({ir::Interpolation::kLower, ir::Interpolation::kHigher, ir::Interpolation::kNearest,
                                                             ir::Interpolation::kMidpoint, ir::Interpolation::kLinear}));
  double q = 0;
  switch (s.draw(3)) {
    case 0:
      q = s.pick({0.0, 1.0, 0.5, 0.25, 0.75, 0.1, 0.9});
      break;
    case 1:
      q = s.draw(1000) / 1000.0;
      break;
    case 2:
      q = 1.0 / (1 + s.draw(20));
      break;
    default:
      q = s.draw(UINT32_MAX) / double(UINT32_MAX);
  }
  Alloc alloc;
  struct Q {
    hdk::quantile::Quantile q;
    std::vector<V> vals;
    bool merged = false;
    Q(Alloc* a) : q(a) {}
  };
  int64_t lo = -100, hi = 100;
  if (s.chance(1, 2)) {
    if constexpr (std::is_floating_point_v<V>) {
      lo = -1000000000, hi = 1000000000;
    } else {
      lo = static_cast<int64_t>(std::numeric_limits<V>::min()) + 1;
      hi = std::numeric_limits<V>::max();
    }
  }
  const size_t chunk = 65536 / sizeof(V);
  std::vector<std::unique_ptr<Q>> qs;
  size_t nq = s.size(1, 4);
  size_t checks = 0;
  for (size_t i = 0; i < nq; ++i) {
    qs.emplace_back(std::make_unique<Q>(&alloc));
  }
  auto add = [&](Q& t, size_t n) {
    for (auto v : shaped(s, n, lo, hi)) {
      V x = std::is_floating_point_v<V> ? V(v) / V(4) : V(v);
      t.q.template add<V>(x);
      t.vals.push_back(x);
    }
  };
  auto expect = [&](std::vector<V> v, R got, const char* how) {
    ++checks;
    if (v.empty()) {
      REQUIRE(got == inline_null_value<R>(), how << ": quantile of nothing is not null");
      return;
    }
    std::sort(v.begin(), v.end());
    double pos = (v.size() - 1) * q;
    size_t l = static_cast<size_t>(std::floor(pos)), r = static_cast<size_t>(std::ceil(pos));
    bool ok = false;
    R want{};
    switch (interp) {
      case ir::Interpolation::kLower:
        ok = got == (want = static_cast<R>(v[l]));
        break;
      case ir::Interpolation::kHigher:
        ok = got == (want = static_cast<R>(v[r]));
        break;
      case ir::Interpolation::kNearest: {
        double f = pos - std::floor(pos);
        want = static_cast<R>(v[f < 0.5 ? l : r]);
        ok = got == want || (std::abs(f - 0.5) < 1e-9 && got == static_cast<R>(v[l]));
        break;
      }
      default: {
        long double f = interp == ir::Interpolation::kMidpoint ? (l == r ? 0.0L : 0.5L) : static_cast<long double>(pos - std::floor(pos));
        long double w = static_cast<long double>(v[l]) + (static_cast<long double>(v[r]) - static_cast<long double>(v[l])) * f;
        long double mag = std::max(std::abs(static_cast<long double>(v[l])), std::abs(static_cast<long double>(v[r])));
        long double tol = mag * (sizeof(V) == 4 && std::is_floating_point_v<V> ? 1e-6L : 1e-14L) + (std::is_integral_v<R> ? 1.0L : 1e-12L);
        want = static_cast<R>(w);
        ok = std::abs(static_cast<long double>(got) - w) <= tol;
        if (l == r && !std::is_floating_point_v<R>) {
          ok = got == static_cast<R>(v[l]);
        }
        break;
      }
    }
    REQUIRE(ok, how << ": quantile " << q << " (interpolation " << static_cast<int>(interp) << ") of " << v.size() << " values is " << +got << ", expected " << +want
                    << " between " << +v[l] << " and " << +v[r]);
  };
  size_t big = 0;
  for (size_t ops = s.size(1, 10); ops; --ops) {
    auto& t = *qs[s.draw(nq - 1)];
    switch (s.weighted({4, 2, 1, 2})) {
      case 0:
        if (!t.merged) {
          add(t, s.logsize(40));
        }
        break;
      case 1:
        if (!t.merged && big < 3) {  // around chunk boundaries
          ++big;
          size_t target = chunk * s.size(1, 2);
          size_t cur = t.vals.size() % chunk;
          add(t, target - cur + s.size(0, 3) - (s.draw(1) ? 1 : 0));
        }
        break;
      case 2: {
        if (t.merged) {  // its storage belongs to the other one now
          break;
        }
        expect(t.vals, t.q.template quantile<V, R>(q, interp), "intermediate");
        c.label("intermediate");
        break;
      }
      default: {
        auto& o = *qs[s.draw(nq - 1)];
        if (&o != &t && !o.merged && !t.merged) {
          t.q.merge(o.q);
          t.vals.insert(t.vals.end(), o.vals.begin(), o.vals.end());
          o.merged = true;
          c.label("merge");
        }
      }
    }
  }
  size_t most = 0;
  for (auto& p : qs) {
    if (p->merged) {
      continue;
    }
    REQUIRE(p->q.empty() == p->vals.empty(), "empty() is wrong for " << p->vals.size() << " values");
    p->q.template finalize<V, R>(q, interp);
    expect(p->vals, p->q.template quantile<V, R>(q, interp), "final");
    most = std::max(most, p->vals.size());
  }
  c.describe([&](std::ostream& o) { o << "q=" << q << " interpolation " << static_cast<int>(interp) << " largest set " << most << " value bytes " << sizeof(V); });
  c.nontrivial(most >= 2);
  c.label(most > chunk, "several chunks");
}
}  // namespace

FACET(quantile) {
  switch (c.s.draw(8)) {
    case 0:
      return checkQuantile<int64_t, double>(c);
    case 1:
      return checkQuantile<int32_t, double>(c);
    case 2:
      return checkQuantile<int16_t, double>(c);
    case 3:
      return checkQuantile<int8_t, int8_t>(c);
    case 4:
      return checkQuantile<float, float>(c);
    case 5:
      return checkQuantile<double, double>(c);
    case 6:
      return checkQuantile<int32_t, int32_t>(c);
    case 7:
      return checkQuantile<float, double>(c);
    default:
      return checkQuantile<int64_t, int64_t>(c);
  }
}

FACET(tdigest) {
  auto& s = c.s;
  using TD = quantile::TDigest;
  double q = s.draw(2) == 0 ? s.pick({0.0, 1.0, 0.5, 0.01, 0.99, 0.1, 0.9}) : s.draw(10000) / 10000.0;
  size_t centroids = s.pick({300, 100, 200});
  size_t buf = s.pick({1000, 300, 400});
  Alloc alloc;
  size_t nd = s.size(1, 4);
  struct D {
    std::unique_ptr<TD> d;
    std::vector<double> vals;
    bool merged = false;
  };
  std::vector<D> ds(nd);
  for (auto& d : ds) {
    d.d = std::make_unique<TD>(q, &alloc, buf, centroids);
    d.d->allocate();
  }
  size_t merges = 0;
  for (size_t ops = s.size(1, 8); ops; --ops) {
    auto& t = ds[s.draw(nd - 1)];
    if (t.merged) {
      continue;
    }
    if (s.draw(3)) {
      size_t n = s.draw(1) ? s.logsize(60) : s.logsize(6000);
      for (auto v : shaped(s, n, s.draw(1) ? 0 : -1000000, 1000000)) {
        t.d->add(v);
        t.vals.push_back(v);
      }
    } else {
      auto& o = ds[s.draw(nd - 1)];
      if (&o != &t && !o.merged && !o.vals.empty()) {
        t.d->mergeTDigest(*o.d);
        t.vals.insert(t.vals.end(), o.vals.begin(), o.vals.end());
        o.merged = true;
        ++merges;
      }
    }
  }
  size_t most = 0;
  for (auto& t : ds) {
    if (t.merged) {
      continue;
    }
    t.d->mergeBuffer();
    size_t n = t.vals.size();
    most = std::max(most, n);
    REQUIRE(t.d->totalWeight() == n, "total weight " << t.d->totalWeight() << " for " << n << " values");
    std::sort(t.vals.begin(), t.vals.end());
    std::vector<double> qq{q};
    for (auto x : {0.0, 1.0}) {
      qq.push_back(x);
    }
    for (double x : qq) {
      double r = t.d->quantile(x);
      if (!n) {
        REQUIRE(std::isnan(r), "quantile of nothing is " << r);
        continue;
      }
      double span = std::max(1.0, t.vals.back() - t.vals.front());
      REQUIRE(r >= t.vals.front() - 1e-9 * span && r <= t.vals.back() + 1e-9 * span,
              "quantile " << x << " = " << r << " is outside of [" << t.vals.front() << ", " << t.vals.back() << "]");
      if (x == 0) {
        REQUIRE(r == t.vals.front(), "quantile 0 = " << r << ", minimum " << t.vals.front());
      }
      if (x == 1) {
        REQUIRE(r == t.vals.back(), "quantile 1 = " << r << ", maximum " << t.vals.back());
      }
      double pos = x * n;
      if (n <= centroids) {  // nothing is merged: exact
        size_t i = std::min<size_t>(static_cast<size_t>(pos), n - 1);
        double want = x == 1 ? t.vals.back() : (pos == std::floor(pos) && i) ? 0.5 * (t.vals[i] + t.vals[i - 1]) : t.vals[i];
        REQUIRE(r == want, "quantile " << x << " of " << n << " values is " << r << ", expected exactly " << want);
      } else {
        double tol = 3 + (8.0 + 4 * merges) * n / centroids;
        auto at = [&](double p) { return t.vals[static_cast<size_t>(std::min<double>(std::max(0.0, p), n - 1))]; };
        double l = at(std::floor(pos - tol)), h = at(std::ceil(pos + tol));
        REQUIRE(r >= l - 1e-9 * span && r <= h + 1e-9 * span,
                "quantile " << x << " of " << n << " values with " << centroids << " centroids is " << r << ", outside of [" << l << ", " << h << "]");
      }
    }
  }
  c.describe([&](std::ostream& o) { o << "q=" << q << " centroids " << centroids << " buffer " << buf << " merges " << merges << " largest " << most; });
  c.nontrivial(most > 1);
  c.label(most > centroids, "compressed");
  c.label(merges > 0, "merged");
}

namespace {
template <typename T>
void checkIntervals(pbt::Case& c) {
  auto& s = c.s;
  using U = std::make_unsigned_t<T>;
  const int64_t lo = std::is_signed_v<T> ? static_cast<int64_t>(std::numeric_limits<T>::min()) : 0;
  const int64_t hi = static_cast<uint64_t>(std::numeric_limits<T>::max()) > INT64_MAX ? INT64_MAX : static_cast<int64_t>(std::numeric_limits<T>::max());
  T b = static_cast<T>(s.boundary(lo, hi)), e = static_cast<T>(s.boundary(lo, hi));
  if (s.chance(1, 8)) {
    b = std::numeric_limits<T>::min();
    e = std::numeric_limits<T>::max();
  }
  if (s.chance(2, 3) && b > e) {
    std::swap(b, e);
  }
  size_t n = s.draw(3) == 0 ? s.draw(2000) : s.draw(12);
  auto iv = makeIntervals<T>(b, e, n);
  using I128 = __int128;
  I128 total = b < e && n ? static_cast<I128>(e) - b : 0;
  n = std::min<size_t>(n, std::numeric_limits<U>::max());
  c.describe([&](std::ostream& o) { o << "[" << +b << ", " << +e << ") in " << n << " parts"; });
  REQUIRE(iv.empty() == (total == 0), "empty");
  size_t cnt = 0;
  I128 pos = b, prev = 0, largest = 0;
  for (auto const& x : iv) {
    REQUIRE(x.index == cnt, "index " << +x.index << " at " << cnt);
    REQUIRE(static_cast<I128>(x.begin) == pos, "part " << cnt << " begins at " << +x.begin);
    I128 sz = static_cast<I128>(x.end) - x.begin;
    REQUIRE(sz > 0, "part " << cnt << " is empty or reversed: [" << +x.begin << ", " << +x.end << ")");
    REQUIRE(static_cast<I128>(x.size()) == sz, "size() of part " << cnt);
    if (cnt) {
      REQUIRE(sz <= prev, "part " << cnt << " is larger than the one before");
    } else {
      largest = sz;
    }
    REQUIRE(largest - sz <= 1, "parts differ by more than one");
    prev = sz;
    pos = x.end;
    ++cnt;
    REQUIRE(cnt <= n, "more parts than workers");
  }
  REQUIRE(pos == static_cast<I128>(b) + total, "the parts do not cover the range");
  REQUIRE(static_cast<I128>(cnt) == std::min<I128>(total, n), cnt << " parts");
  c.nontrivial(cnt > 1);
}
}  // namespace

FACET(intervals) {
  switch (c.s.draw(7)) {
    case 0:
      return checkIntervals<int64_t>(c);
    case 1:
      return checkIntervals<int32_t>(c);
    case 2:
      return checkIntervals<uint32_t>(c);
    case 3:
      return checkIntervals<uint64_t>(c);
    case 4:
      return checkIntervals<int8_t>(c);
    case 5:
      return checkIntervals<uint8_t>(c);
    case 6:
      return checkIntervals<int16_t>(c);
    default:
      return checkIntervals<uint16_t>(c);
  }
}

namespace {
bool ws(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
std::string bytes(pbt::Src& s, size_t n, const char* alphabet) {
  std::string r;
  size_t k = strlen(alphabet);
  for (size_t i = 0; i < n; ++i) {
    r += s.chance(1, 10) ? static_cast<char>(s.draw(127)) : alphabet[s.draw(k - 1)];
  }
  return r;
}
std::string refBase64(const std::string& v, bool uri) {
  static const char* std_abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  static const char* uri_abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
  const char* abc = uri ? uri_abc : std_abc;
  std::string r;
  for (size_t i = 0; i < v.size(); i += 3) {
    uint32_t w = 0;
    size_t k = std::min<size_t>(3, v.size() - i);
    for (size_t j = 0; j < 3; ++j) {
      w = w << 8 | (j < k ? static_cast<unsigned char>(v[i + j]) : 0);
    }
    for (size_t j = 0; j < 4; ++j) {
      if (j <= k) {
        r += abc[w >> (18 - 6 * j) & 63];
      } else if (!uri) {
        r += '=';
      }
    }
  }
  return r;
}
}  // namespace

FACET(text) {
  auto& s = c.s;
  switch (s.draw(6)) {
    case 0: {  // base64
      std::string v;
      for (size_t n = s.logsize(64); n; --n) {
        v += static_cast<char>(s.draw(255));
      }
      c.describe([&](std::ostream& o) { o << "base64 of " << v.size() << " bytes"; });
      REQUIRE(shared::encode_base64(v) == refBase64(v, false), "encoding of " << v.size() << " bytes: " << shared::encode_base64(v));
      std::string t = v;
      while (!t.empty() && t.back() == '\0') {
        t.pop_back();
      }
      REQUIRE(shared::decode_base64(refBase64(v, false)) == t, "decoding");
      REQUIRE(shared::decode_base64_uri(refBase64(v, true)) == t, "URI decoding of " << refBase64(v, true));
      auto full = shared::decode_base64(refBase64(v, false), false);
      REQUIRE(full.substr(0, v.size()) == v && full.size() <= v.size() + 2, "decoding without trimming");
      full = shared::decode_base64_uri(refBase64(v, true), false);
      REQUIRE(full.substr(0, v.size()) == v && full.size() <= v.size() + 2, "URI decoding without trimming");
      c.nontrivial(v.size() > 2);
      break;
    }
    case 1: {  // split on a delimiter
      auto str = bytes(s, s.logsize(40), "ab,;");
      auto delim = s.pick<const char*>({",", ";", ",,", "ab", "aba"});
      std::optional<size_t> maxsplit;
      if (s.draw(1)) {
        maxsplit = s.draw(4);
      }
      std::vector<std::string> want;
      size_t j = 0;
      while (true) {
        auto p = str.find(delim, j);
        if (p == std::string::npos || (maxsplit && want.size() >= *maxsplit)) {
          want.push_back(str.substr(j));
          break;
        }
        want.push_back(str.substr(j, p - j));
        j = p + strlen(delim);
      }
      c.describe([&](std::ostream& o) { o << "split " << pbt::jstr(str) << " on " << delim; });
      auto got = split(str, delim, maxsplit);
      REQUIRE(got == want, "split into " << got.size() << " parts: " << join(got, "|"));
      if (!maxsplit) {
        REQUIRE(join(got, delim) == str, "join does not undo split");
      }
      c.nontrivial(got.size() > 1);
      break;
    }
    case 2: {  // split on whitespace
      auto str = bytes(s, s.logsize(40), "ab \t\n");
      std::optional<size_t> maxsplit;
      if (s.draw(1)) {
        maxsplit = 1 + s.draw(4);
      }
      std::vector<std::string> want;
      size_t i = 0;
      while (true) {
        while (i < str.size() && ws(str[i])) {
          ++i;
        }
        if (i >= str.size()) {
          break;
        }
        if (maxsplit && want.size() >= *maxsplit) {
          want.push_back(str.substr(i));
          break;
        }
        size_t b = i;
        while (i < str.size() && !ws(str[i])) {
          ++i;
        }
        want.push_back(str.substr(b, i - b));
      }
      c.describe([&](std::ostream& o) { o << "split " << pbt::jstr(str); });
      auto got = split(str, {}, maxsplit);
      if (maxsplit && got.size() == *maxsplit + 1) {  // the rest keeps the white space in front of it
        auto& l = got.back();
        size_t k = 0;
        while (k < l.size() && ws(l[k])) {
          ++k;
        }
        l = l.substr(k);
        if (l.empty()) {
          got.pop_back();
        }
      }
      REQUIRE(got == want, "split into " << got.size() << " parts: " << join(got, "|"));
      c.nontrivial(got.size() > 1);
      break;
    }
    case 3: {  // strip, case, substring
      auto str = bytes(s, s.logsize(20), "aB \t\n\r\v\fZz@[`{");
      c.describe([&](std::ostream& o) { o << "strip/case " << pbt::jstr(str); });
      size_t b = 0, e = str.size();
      while (b < e && ws(str[b])) {
        ++b;
      }
      while (e > b && ws(str[e - 1])) {
        --e;
      }
      REQUIRE(strip(str) == str.substr(b, e - b), "strip");
      auto up = str, lo = str;
      for (auto& ch : up) {
        ch = ch >= 'a' && ch <= 'z' ? ch - 32 : ch;
      }
      for (auto& ch : lo) {
        ch = ch >= 'A' && ch <= 'Z' ? ch + 32 : ch;
      }
      REQUIRE(to_upper(str) == up && to_lower(str) == lo, "case conversion");
      size_t n = s.draw(24);
      auto [sub, post] = substring(str, n);
      REQUIRE(sub == str.substr(0, n) && std::string(post) == (n < str.size() ? "..." : ""), "substring");
      c.nontrivial(!str.empty());
      break;
    }
    case 4: {  // quoting
      auto str = bytes(s, s.logsize(24), "a\"'\\b ");
      char q = s.pick({'"', '\''});
      char esc = s.pick({'\\', '^'});
      c.describe([&](std::ostream& o) { o << "quote " << pbt::jstr(str); });
      std::string want(1, q);
      for (char ch : str) {
        if (ch == q || ch == esc) {
          want += esc;
        }
        want += ch;
      }
      want += q;
      REQUIRE(get_quoted_string(str, q, esc) == want, "quoted as " << get_quoted_string(str, q, esc));
      c.nontrivial(str.find(q) != std::string::npos);
      break;
    }
    case 5: {  // white space outside of quotes
      auto str = bytes(s, s.logsize(30), "a'\"\\\n\t\r ");
      c.describe([&](std::ostream& o) { o << "white space in " << pbt::jstr(str); });
      std::string want;
      char in = 0;
      bool esc = false;
      for (char ch : str) {
        if ((ch == '\'' || ch == '"') && !esc) {
          in = in == 0 ? ch : in == ch ? 0 : in;
        }
        want += in == 0 && (ch == '\n' || ch == '\t' || ch == '\r') ? ' ' : ch;
        esc = ch == '\\' && !esc;
      }
      auto got = str;
      bool closed = remove_unquoted_newlines_linefeeds_and_tabs_from_sql_string(got);
      REQUIRE(got == want, "became " << pbt::jstr(got));
      REQUIRE(closed == (in == 0), "balanced quotes reported as " << closed);
      auto ss = simple_sanitize(str);
      auto w2 = str;
      for (auto& ch : w2) {
        ch = ch < 32 ? ' ' : ch;
      }
      REQUIRE(ss == w2, "sanitized to " << pbt::jstr(ss));
      c.nontrivial(str.find('\'') != std::string::npos || str.find('"') != std::string::npos);
      break;
    }
    default: {  // string literals: outside text and literals alternate
      std::string q;
      std::vector<std::pair<size_t, size_t>> want;
      for (size_t n = s.size(0, 4); n; --n) {
        q += bytes(s, 1 + s.draw(8), "ab =(,)\n\"");
        q.erase(std::remove(q.begin() + (want.empty() ? 0 : want.back().second), q.end(), '\''), q.end());
        if (q.size() == (want.empty() ? 0 : want.back().second)) {
          q += ' ';
        }
        size_t b = q.size();
        q += '\'';
        for (size_t k = 1 + s.draw(6); k; --k) {
          q += s.chance(1, 4) ? "''" : std::string(1, s.pick({'a', ' ', '"', '('}));
        }
        q += '\'';
        want.emplace_back(b, q.size());
      }
      q += " tail";
      c.describe([&](std::ostream& o) { o << "literals in " << pbt::jstr(q); });
      auto got = find_string_literals(q);
      REQUIRE(got == want, got.size() << " literals found, expected " << want.size());
      size_t st = s.draw(q.size()), ln = s.draw(6);
      auto in = inside_string_literal(st, ln, got);
      std::optional<size_t> win;
      for (auto& p : want) {
        if (!win && p.first <= st && st + ln <= p.second) {
          win = p.second;
        }
      }
      REQUIRE(in == win, "inside_string_literal");
      c.nontrivial(!want.empty());
    }
  }
}

FACET(number) {
  auto& s = c.s;
  int64_t a = s.boundary(INT64_MIN, INT64_MAX), b = s.boundary(1, INT64_MAX);
  c.describe([&](std::ostream& o) { o << a << " by " << b; });
  auto d = shared::divUMod(a, b);
  REQUIRE(d.rem >= 0 && d.rem < b && static_cast<__int128>(d.quot) * b + d.rem == a, "divUMod gives " << d.quot << " rest " << d.rem);
  REQUIRE(shared::unsignedMod(a, b) == static_cast<uint64_t>(d.rem), "unsignedMod gives " << shared::unsignedMod(a, b));
  uint64_t u = static_cast<uint64_t>(s.boundary(2, INT64_MAX));
  REQUIRE(shared::isPowOfTwo(u) == (__builtin_popcountll(u) == 1), "isPowOfTwo(" << u << ")");
  REQUIRE(shared::getExpOfTwo(u) == static_cast<unsigned>(63 - __builtin_clzll(u)), "getExpOfTwo(" << u << ")");
  uint64_t r = shared::roundUpToPow2(u);
  REQUIRE(__builtin_popcountll(r) == 1 && r >= u && r / 2 < u, "roundUpToPow2(" << u << ") = " << r);
  unsigned e = s.draw(60);
  double p = std::pow(10.0, e);
  REQUIRE(std::abs(shared::power10(e) - p) <= 1e-14 * p, "power10(" << e << ")");
  REQUIRE(std::abs(shared::power10inv(e) * p - 1) <= 1e-14, "power10inv(" << e << ")");
  double x = s.around(-1000, 1000) / 1000.0;
  REQUIRE(std::abs(shared::fastSin(x) - std::sin(x)) < 1e-12 && std::abs(shared::fastCos(x) - std::cos(x)) < 1e-12 && std::abs(shared::fastSinh(x) - std::sinh(x)) < 1e-12 &&
              std::abs(shared::fastCosh(x) - std::cosh(x)) < 1e-12,
          "fast trigonometry at " << x);
  double y = x * 0.15;
  REQUIRE(std::abs(shared::fastAtanh(y) - std::atanh(y)) < 1e-12, "fastAtanh at " << y);
  c.nontrivial(a < 0 || a >= b);
}

PBT_MAIN
