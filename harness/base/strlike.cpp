// Runtime string predicates: LIKE/ILIKE, comparison operators, REGEXP, and their NULL-aware forms.
#include "Analyzer/Analyzer.h"
#include "IR/Context.h"
#include "IR/Expr.h"
#include "Shared/funcannotations.h"
#include "Utils/Regexp.h"
#include "Utils/StringLike.h"
#include "common/gen_str.h"
#include "common/ref_like.h"
#include "common/ref_regex.h"

extern "C" bool string_like_simple(const char*, const int32_t, const char*, const int32_t);
extern "C" bool string_ilike_simple(const char*, const int32_t, const char*, const int32_t);
extern "C" int8_t string_like_simple_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
extern "C" int8_t string_ilike_simple_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
extern "C" int8_t string_like_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);
extern "C" int8_t string_ilike_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);
extern "C" int32_t StringCompare(const char*, const int32_t, const char*, const int32_t);
#define CMP(n)                                                                  \
  extern "C" bool string_##n(const char*, const int32_t, const char*, const int32_t); \
  extern "C" int8_t string_##n##_nullable(const char*, const int32_t, const char*, const int32_t, const int8_t);
CMP(lt)
CMP(le)
CMP(gt)
CMP(ge)
CMP(eq)
CMP(ne)
extern "C" bool regexp_like(const char*, const int32_t, const char*, const int32_t, const char);
extern "C" int8_t regexp_like_nullable(const char*, const int32_t, const char*, const int32_t, const char, const int8_t);

namespace {
// Copies into exact-size buffers surrounded by bytes that would change the verdict if they were read.
struct Buf {
  std::string b;
  size_t n;
  Buf(const std::string& s, char pad) : b(std::string(1, pad) + s + std::string(3, pad)), n(s.size()) {}
  const char* p() const { return b.data() + 1; }
  int32_t len() const { return static_cast<int32_t>(n); }
};

std::string genText(pbt::Src& s, const std::string& al, size_t maxlen) {
  std::string r;
  for (size_t n = s.size(0, maxlen); n; --n) {
    r += al[s.draw(al.size() - 1)];
  }
  return r;
}

const std::string kAl1 = "ab", kAl2 = "abAB%_[]\\!\xc3\xa9z", kAl3 = "aAbBzZ @`{[^_";

std::string pat(pbt::Src& s, const std::string& text, char esc, const std::string& al) {
  std::string r;
  size_t mode = s.weighted({4, 3, 2});
  if (mode == 0 && !text.empty()) {  // derived from the text, so that it often matches
    for (size_t i = 0; i < text.size(); ++i) {
      char ch = text[i];
      switch (s.weighted({8, 2, 2, 2, 1, 1, 1})) {
        case 0:
          if (ch == '%' || ch == '_' || ch == '[' || ch == esc) {
            r += esc;
          }
          r += ch;
          break;
        case 1:
          r += '_';
          break;
        case 2:
          r += '%';
          break;
        case 3: {
          r += '%';
          size_t k = s.size(0, 3);
          i += k ? k - 1 : 0;
          break;
        }
        case 4:
          r += '[';
          r += s.draw(1) ? std::string("xb") + ch : ch + std::string("xb");
          r += ']';
          break;
        case 5:
          r += esc;
          r += ch;
          break;
        default:
          r += ch;
          r += '%';
      }
    }
    if (s.chance(1, 3)) {
      r += '%';
    }
    return r;
  }
  const std::string toks = mode == 1 ? "%_ab" : "%_[]ab!\\AB" + al;
  for (size_t n = s.size(0, 8); n; --n) {
    r += toks[s.draw(toks.size() - 1)];
  }
  return r;
}
}  // namespace

FACET(like) {
  auto& s = c.s;
  const auto& al = *std::vector<const std::string*>{&kAl1, &kAl2, &kAl3}[s.draw(2)];
  char esc = s.pick<char>({'\\', '!', '|'});
  bool icase = s.draw(1);
  auto text = genText(s, al, s.pick<size_t>({6, 14, 40}));
  auto p = pat(s, text, esc, al);
  if (icase) {
    for (auto& ch : p) {
      ch = ref::lower(ch);
    }
  }
  Buf t(text, s.pick<char>({'a', '%', ']', '\0'})), q(p, s.pick<char>({'%', 'a', ']', '\0'}));
  bool e = ref::like(text, p, esc, icase);
  c.describe([&](auto& o) { o << gen::quote(text) << (icase ? " ILIKE " : " LIKE ") << gen::quote(p) << " escape " << esc << " -> " << e; });
  c.nontrivial(p.find_first_of("%_[") != std::string::npos && !text.empty());
  c.label(e ? "match" : "no match");
  bool g = icase ? string_ilike(t.p(), t.len(), q.p(), q.len(), esc) : string_like(t.p(), t.len(), q.p(), q.len(), esc);
  REQUIRE(g == e, gen::quote(text) << (icase ? " ILIKE " : " LIKE ") << gen::quote(p) << " is " << g << " expected " << e);
  int8_t nul = s.pick<int8_t>({-128, 2, 127});
  auto f = icase ? string_ilike_nullable : string_like_nullable;
  REQUIRE(f(t.p(), t.len(), q.p(), q.len(), esc, nul) == (e ? 1 : 0), "nullable form");
  REQUIRE(f(nullptr, 0, q.p(), q.len(), esc, nul) == nul && f(t.p(), t.len(), nullptr, 0, esc, nul) == nul, "NULL operand");
}

FACET(simple) {
  auto& s = c.s;
  bool icase = s.draw(1);
  const auto& al = *std::vector<const std::string*>{&kAl1, &kAl2, &kAl3}[s.draw(2)];
  auto text = genText(s, al, s.pick<size_t>({6, 30}));
  std::string p;
  if (!text.empty() && s.draw(1)) {
    size_t b = s.draw(text.size() - 1);
    p = text.substr(b, s.draw(text.size() - b));
    if (!p.empty() && s.chance(1, 3)) {
      p[s.draw(p.size() - 1)] = al[s.draw(al.size() - 1)];
    }
  } else {
    p = genText(s, al, 4);
  }
  if (icase) {
    for (auto& ch : p) {
      ch = ref::lower(ch);
    }
  }
  Buf t(text, s.pick<char>({'a', 'b', '%'})), q(p, 'a');
  bool e = ref::contains(text, p, icase);
  c.describe([&](auto& o) { o << gen::quote(text) << " contains " << gen::quote(p) << " icase=" << icase << " -> " << e; });
  c.nontrivial(!p.empty() && !text.empty());
  c.label(e ? "match" : "no match");
  bool g = icase ? string_ilike_simple(t.p(), t.len(), q.p(), q.len()) : string_like_simple(t.p(), t.len(), q.p(), q.len());
  REQUIRE(g == e, gen::quote(text) << " contains " << gen::quote(p) << " (icase=" << icase << ") is " << g);
  auto f = icase ? string_ilike_simple_nullable : string_like_simple_nullable;
  REQUIRE(f(t.p(), t.len(), q.p(), q.len(), -128) == (e ? 1 : 0), "nullable form");
  REQUIRE(f(nullptr, 0, q.p(), q.len(), -128) == -128 && f(t.p(), t.len(), nullptr, 0, -128) == -128, "NULL operand");
}

FACET(compare) {
  auto& s = c.s;
  static const std::string al = std::string("ab\x01\x7f\x80\xff zAB", 11) + std::string(1, '\0');
  auto a = genText(s, al, 6);
  std::string b;
  if (s.draw(1)) {
    b = a;
    switch (s.draw(3)) {
      case 0:
        break;
      case 1:
        b += al[s.draw(al.size() - 1)];
        break;
      case 2:
        if (!b.empty()) {
          b.pop_back();
        }
        break;
      default:
        if (!b.empty()) {
          b[s.draw(b.size() - 1)] = al[s.draw(al.size() - 1)];
        }
    }
  } else {
    b = genText(s, al, 6);
  }
  Buf x(a, s.pick<char>({'a', '\0', '\xff'})), y(b, s.pick<char>({'a', '\0', '\xff'}));
  int e = ref::compare(a, b);
  c.describe([&](auto& o) { o << gen::quote(a) << " <=> " << gen::quote(b) << " -> " << e; });
  c.nontrivial(!a.empty() && !b.empty());
  c.label(e < 0 ? "less" : e > 0 ? "greater" : "equal");
#define ONE(n, op)                                                                                                       \
  REQUIRE(string_##n(x.p(), x.len(), y.p(), y.len()) == (e op 0), gen::quote(a) << " " #n " " << gen::quote(b));             \
  REQUIRE(string_##n##_nullable(x.p(), x.len(), y.p(), y.len(), -128) == ((e op 0) ? 1 : 0), "nullable " #n);            \
  REQUIRE(string_##n##_nullable(nullptr, 0, y.p(), y.len(), -128) == -128, "NULL lhs " #n);                              \
  REQUIRE(string_##n##_nullable(x.p(), x.len(), nullptr, 0, -128) == -128, "NULL rhs " #n);
  ONE(lt, <) ONE(le, <=) ONE(gt, >) ONE(ge, >=) ONE(eq, ==) ONE(ne, !=)
  int k = StringCompare(x.p(), x.len(), y.p(), y.len());
  REQUIRE((k < 0) == (e < 0) && (k > 0) == (e > 0), "StringCompare sign " << k << " expected " << e);
}

FACET(regexp) {
  auto& s = c.s;
  static const std::string al = "ab01";
  auto re = ref::genRe(s, 3, al);
  auto p = ref::print(*re);
  auto text = genText(s, al, 8);
  bool e = ref::matches(*re, text);
  c.describe([&](auto& o) { o << gen::quote(text) << " REGEXP " << gen::quote(p) << " -> " << e; });
  c.nontrivial(!text.empty());
  c.label(e ? "match" : "no match");
  Buf t(text, 'a'), q(p, s.pick<char>({'a', '*', ')'}));
  bool g = regexp_like(t.p(), t.len(), q.p(), q.len(), '\\');
  REQUIRE(g == e, gen::quote(text) << " REGEXP " << gen::quote(p) << " is " << g << " expected " << e);
  REQUIRE(regexp_like_nullable(t.p(), t.len(), q.p(), q.len(), '\\', -128) == (e ? 1 : 0), "nullable form");
  REQUIRE(regexp_like_nullable(nullptr, 0, q.p(), q.len(), '\\', -128) == -128 && regexp_like_nullable(t.p(), t.len(), nullptr, 0, '\\', -128) == -128,
          "NULL operand");
}
// Analysis of LIKE, ILIKE and REGEXP with a constant pattern: whatever form the predicate is turned into, its value for
// every text is that of the pattern as written.
namespace {
using namespace hdk::ir;
Context& actx() {
  return Context::defaultCtx();
}
ExprPtr strConst(const std::string& v, bool varchar) {
  Datum d;
  d.stringval = new std::string(v);
  return makeExpr<Constant>(varchar ? static_cast<const Type*>(actx().varChar(100)) : actx().text(), false, d);
}
ExprPtr nullConst() {
  return makeExpr<Constant>(actx().text(), true, Datum{0});
}
std::string strOf(const Expr* e) {
  auto k = e->as<Constant>();
  REQUIRE(k && !k->isNull() && k->value().stringval, "the pattern is not a constant string but " << e->toString());
  return *k->value().stringval;
}
// 1, 0, or -1 for NULL; `v` is null for a NULL text
int evalPred(const Expr* e, const Expr* arg, const std::string* v, char esc) {
  if (auto u = e->as<UOper>()) {
    REQUIRE(u->isNot(), "an unexpected operator " << e->toString());
    int r = evalPred(u->operand(), arg, v, esc);
    return r < 0 ? r : !r;
  }
  if (auto k = e->as<Constant>()) {
    return k->isNull() ? -1 : k->value().boolval;
  }
  REQUIRE(e->type()->isBoolean(), "the predicate has type " << e->type()->toString());
  REQUIRE(!arg->type()->nullable() || e->type()->nullable(), "the predicate over a nullable text is not nullable");
  auto escOf = [&](const Expr* x) {
    if (!x) {
      return '\\';
    }
    auto t = strOf(x);
    return t.empty() ? '\0' : t[0];
  };
  if (auto l = e->as<LikeExpr>()) {
    REQUIRE(*l->arg() == *arg, "the argument became " << l->arg()->toString());
    if (!v) {
      return -1;
    }
    auto p = strOf(l->likeExpr());
    REQUIRE(l->isSimple() || escOf(l->escapeExpr()) == esc, "the escape character became " << escOf(l->escapeExpr()));
    Buf t(*v, 'a'), q(p, 'a');
    if (l->isSimple()) {
      return l->isIlike() ? string_ilike_simple(t.p(), t.len(), q.p(), q.len()) : string_like_simple(t.p(), t.len(), q.p(), q.len());
    }
    return l->isIlike() ? string_ilike(t.p(), t.len(), q.p(), q.len(), esc) : string_like(t.p(), t.len(), q.p(), q.len(), esc);
  }
  auto r = e->as<RegexpExpr>();
  REQUIRE(r, "an unexpected predicate " << e->toString());
  REQUIRE(*r->arg() == *arg, "the argument became " << r->arg()->toString());
  if (!v) {
    return -1;
  }
  auto p = strOf(r->patternExpr());
  Buf t(*v, 'a'), q(p, 'a');
  return regexp_like(t.p(), t.len(), q.p(), q.len(), escOf(r->escapeExpr()));
}
ExprPtr textArg(pbt::Src& s) {
  return makeExpr<ColumnVar>(actx().text(s.draw(1)), 1, 1, 0, 0);
}
std::string lowered(std::string x) {
  for (auto& ch : x) {
    ch = ref::lower(ch);
  }
  return x;
}
std::string wrapped(pbt::Src& s, const std::string& text, char esc, const std::string& al) {
  // between two percents: escapes in every position
  std::string r = s.chance(7, 8) ? "%" : "";
  std::string inner = s.chance(1, 2) && !text.empty() ? text.substr(s.size(0, text.size() - 1)) : genText(s, al, 5);
  inner = inner.substr(0, s.size(0, 5));
  for (char ch : inner) {
    if (s.chance(1, 3) || ((ch == '%' || ch == '_' || ch == esc || ch == '[' || ch == ']') && s.chance(7, 8))) {
      r += esc;
    }
    r += ch;
  }
  if (s.chance(7, 8)) {
    r += "%";
  }
  return r;
}
}  // namespace

FACET(analyzed_like) {
  auto& s = c.s;
  char esc = s.pick<char>({'\\', '!', '|'});
  bool explicit_esc = esc != '\\' || s.draw(1);
  std::string al = s.pick<std::string>({std::string("ab%_[]AB") + esc, std::string("aB%") + esc, std::string("a_") + esc, std::string("ab")});
  bool il = s.draw(1), neg = s.draw(1), varchar = s.chance(1, 3);
  auto seedtext = genText(s, al, 6);
  auto p = s.chance(3, 4) ? wrapped(s, seedtext, esc, al) : pat(s, seedtext, esc, al);
  std::vector<std::string> texts{seedtext, ""};
  if (p.size() > 2) {
    texts.push_back(p.substr(1, p.size() - 2));  // the pattern's own text
  }
  {
    std::string lit;  // the text the pattern spells
    for (size_t i = 0; i < p.size(); ++i) {
      if (p[i] == esc && i + 1 < p.size()) {
        lit += p[++i];
      } else if (p[i] != '%') {
        lit += p[i];
      }
    }
    texts.push_back(lit);
    texts.push_back("a" + lit + "b");
    texts.push_back(std::string(1, esc) + lit);
    texts.push_back(lit + esc);
  }
  for (size_t n = s.size(0, 4); n; --n) {
    texts.push_back(genText(s, al, 6));
  }
  std::vector<ref::LikeTok> toks;
  size_t run = 0;
  bool dangling = false;
  for (size_t i = 0; i < p.size(); ++i) {
    if (p[i] == '[') {
      auto j = p.find(']', i + 1);
      if (j == std::string::npos) {
        throw pbt::Discard();  // an unclosed set: malformed
      }
      i = j;
    } else if (p[i] == esc) {
      dangling = ++i >= p.size();
    }
  }
  (void)run;
  c.describe([&](auto& o) {
    o << (il ? "ILIKE " : "LIKE ") << gen::quote(p) << " ESCAPE " << esc << (neg ? " negated" : "") << " on";
    for (auto& t : texts) {
      o << " " << gen::quote(t);
    }
  });
  auto arg = textArg(s);
  auto pe = strConst(p, varchar);
  auto ee = explicit_esc ? strConst(std::string(1, esc), false) : nullptr;
  if (dangling) {
    c.label("dangling escape");
    c.nontrivial(true);
    try {
      Analyzer::getLikeExpr(arg, pe, ee, il, neg);
    } catch (const std::runtime_error&) {
      return;
    }
    throw pbt::Fail("a pattern that ends in an escape is accepted");
  }
  auto e = Analyzer::getLikeExpr(arg, pe, ee, il, neg);
  // the constant may be used elsewhere too
  auto e2 = s.chance(1, 3) ? Analyzer::getLikeExpr(arg, pe, ee, il, neg) : nullptr;
  bool any = false;
  for (auto& t : texts) {
    bool m = ref::like(il ? lowered(t) : t, il ? lowered(p) : p, esc, false);
    any |= m;
    int want = m != neg;
    int got = evalPred(e.get(), arg.get(), &t, esc);
    REQUIRE(got == want, gen::quote(t) << (neg ? " NOT" : "") << (il ? " ILIKE " : " LIKE ") << gen::quote(p) << " gives " << got << ", analyzed as " << e->toString());
    if (e2) {
      got = evalPred(e2.get(), arg.get(), &t, esc);
      REQUIRE(got == want, gen::quote(t) << " LIKE " << gen::quote(p) << " gives " << got << " when the pattern constant is used twice, analyzed as " << e2->toString());
    }
  }
  REQUIRE(evalPred(e.get(), arg.get(), nullptr, esc) == -1 || !arg->type()->nullable(), "LIKE over NULL is not NULL");
  c.nontrivial(p.find(esc) != std::string::npos || any);
  c.label(e->is<LikeExpr>() && e->as<LikeExpr>()->isSimple() ? "substring form" : "general form");
  if (s.chance(1, 8)) {
    auto n = Analyzer::getLikeExpr(arg, nullConst(), ee, il, neg);
    REQUIRE(evalPred(n.get(), arg.get(), &texts[0], esc) == -1, "LIKE NULL is " << n->toString());
  }
}

FACET(analyzed_regexp) {
  auto& s = c.s;
  static const std::string al = "ab01";
  ref::ReP re;
  std::string p;
  auto neg = s.draw(1) != 0;
  if (s.chance(1, 2)) {
    // what may be turned into LIKE: letters, '.', '.*', '.+', literal characters with a meaning for LIKE
    re = std::make_shared<ref::Re>();
    re->k = ref::Re::Cat;
    for (size_t n = s.size(0, 5); n; --n) {
      auto k = std::make_shared<ref::Re>();
      bool dot = s.draw(1);
      k->k = dot ? ref::Re::Dot : ref::Re::Lit;
      k->ch = s.pick<char>({'a', 'b', ' ', '0', '_', '%'});
      if (s.chance(1, 3) && (dot || s.chance(1, 4))) {
        auto q = std::make_shared<ref::Re>();
        q->k = s.draw(1) ? ref::Re::Star : ref::Re::Plus;
        q->kids = {k};
        p += ref::print(*k) + (q->k == ref::Re::Star ? "*" : "+");
        k = q;
      } else {
        p += ref::print(*k);
      }
      re->kids.push_back(k);
    }
  } else {
    re = ref::genRe(s, 3, al);
    p = ref::print(*re);
  }
  std::vector<std::string> texts;
  for (size_t n = s.size(1, 6); n; --n) {
    texts.push_back(genText(s, s.pick<std::string>({al, "ab", "ab _%0", "a"}), 6));
  }
  if (p.size() <= 8) {  // the regular expression library gives up on long texts
    texts.push_back(p);
  }
  auto arg = textArg(s);
  auto pe = strConst(p, s.chance(1, 3));
  auto ee = s.draw(1) ? strConst("\\", false) : nullptr;
  c.describe([&](auto& o) {
    o << "REGEXP " << gen::quote(p) << (neg ? " negated" : "") << " on";
    for (auto& t : texts) {
      o << " " << gen::quote(t);
    }
  });
  auto e = Analyzer::getRegexpExpr(arg, pe, ee, neg);
  auto e2 = s.chance(1, 3) ? Analyzer::getRegexpExpr(arg, pe, ee, neg) : nullptr;
  auto core = e.get();
  if (auto u = core->as<UOper>()) {
    core = u->operand();
  }
  c.label(core->is<LikeExpr>() ? "as LIKE" : "as REGEXP");
  bool any = false;
  for (auto& t : texts) {
    bool m = ref::matches(*re, t);
    any |= m;
    int want = m != neg;
    for (auto x : {e.get(), e2.get()}) {
      if (x) {
        int got = evalPred(x, arg.get(), &t, '\\');
        REQUIRE(got == want, gen::quote(t) << (neg ? " NOT" : "") << " REGEXP " << gen::quote(p) << " gives " << got << (x == e.get() ? "" : " when the pattern constant is used twice")
                                           << ", analyzed as " << x->toString());
      }
    }
  }
  c.nontrivial(any);
  REQUIRE(evalPred(e.get(), arg.get(), nullptr, '\\') == -1, "REGEXP over NULL is not NULL");
  if (s.chance(1, 8)) {
    auto n = Analyzer::getRegexpExpr(arg, nullConst(), ee, neg);
    REQUIRE(evalPred(n.get(), arg.get(), &texts[0], '\\') == -1, "REGEXP NULL is " << n->toString());
  }
}
PBT_MAIN
