// Generators and the pair (real matcher, reference model) for the URL side.
#pragma once
#include <deque>
#include <set>

#include "core.h"
#include "grpc_transcoding/path_matcher.h"
#include "ref.h"

namespace vp {
namespace gt = ::google::grpc::transcoding;
inline absl::string_view AV(std::string_view s) { return absl::string_view(s.data(), s.size()); }
#ifdef VP_HANDLE
// A route handle that owns something: moving from it empties it.
class Handle {
 public:
  constexpr Handle() noexcept {}
  constexpr Handle(std::nullptr_t) noexcept {}
  constexpr Handle(const int* p) noexcept : p_(p) {}
  constexpr Handle(const Handle& o) noexcept : p_(o.p_) {}
  constexpr Handle(Handle&& o) noexcept : p_(o.p_) { o.p_ = nullptr; }
  Handle& operator=(const Handle& o) noexcept { p_ = o.p_; return *this; }
  Handle& operator=(Handle&& o) noexcept { const int* p = o.p_; o.p_ = nullptr; p_ = p; return *this; }
  const int* get() const { return p_; }
  explicit operator bool() const { return p_ != nullptr; }
  const int& operator*() const { return *p_; }
  const int* operator->() const { return p_; }
  friend bool operator==(const Handle& a, const Handle& b) { return a.p_ == b.p_; }
  friend bool operator!=(const Handle& a, const Handle& b) { return a.p_ != b.p_; }

 private:
  const int* p_ = nullptr;
};
using Method = Handle;
#else
using Method = const int*;
#endif
using Builder = gt::PathMatcherBuilder<Method>;
using Matcher = gt::PathMatcher<Method>;
using Bindings = std::vector<gt::VariableBinding>;

inline std::vector<ref::Binding> ToRef(const Bindings& b) {
  std::vector<ref::Binding> o;
  for (auto& x : b) o.push_back({x.field_path, x.value});
  return o;
}
inline std::string ShowPath(const std::vector<std::string>& p) {
  std::string o;
  for (size_t i = 0; i < p.size(); ++i) o += (i ? "." : "") + Show(p[i], 60);
  return o;
}
inline std::string ShowB(const std::vector<ref::Binding>& b) {
  std::string o = "[";
  size_t n = 0;
  for (auto& x : b) {
    if (++n > 40) { o += " ...(" + std::to_string(b.size()) + ")"; break; }
    o += " " + ShowPath(x.path) + "=" + Show(x.value, 120);
  }
  return o + " ]";
}

struct Options {
  int spec = -1;  // -1: leave the default; else index into kSpecs
  int plus = -1, any_verb = -1, fail_dup = -1;
  ref::Spec RefSpec() const { return spec == 1 ? ref::KEEP_SLASH : spec == 2 ? ref::ALL : ref::KEEP_RESERVED; }
  bool Plus() const { return plus == 1; }
  bool AnyVerb() const { return any_verb == 1; }
  bool FailDup() const { return fail_dup == 1; }
  // Every option of lookups with its value, whether default or not.
  void ApplyAll(Builder& b) const {
    b.SetUrlUnescapeSpec(spec == 1 ? gt::UrlUnescapeSpec::kAllCharactersExceptSlash : spec == 2 ? gt::UrlUnescapeSpec::kAllCharacters : gt::UrlUnescapeSpec::kAllCharactersExceptReserved);
    b.SetQueryParamUnescapePlus(plus == 1);
    b.SetMatchUnregisteredCustomVerb(any_verb == 1);
  }
  // 0: set once before the registrations; otherwise other values first, and
  // these after late - 1 registrations (or all of them).
  uint32_t late = 0;
  void Apply(Builder& b) const {
    if (spec == 0) b.SetUrlUnescapeSpec(gt::UrlUnescapeSpec::kAllCharactersExceptReserved);
    if (spec == 1) b.SetUrlUnescapeSpec(gt::UrlUnescapeSpec::kAllCharactersExceptSlash);
    if (spec == 2) b.SetUrlUnescapeSpec(gt::UrlUnescapeSpec::kAllCharacters);
    if (plus >= 0) b.SetQueryParamUnescapePlus(plus == 1);
    if (any_verb >= 0) b.SetMatchUnregisteredCustomVerb(any_verb == 1);
    if (fail_dup >= 0) b.SetFailRegistrationOnDuplicate(fail_dup == 1);
  }
  std::string Text() const {
    return "spec=" + std::to_string(spec) + " plus=" + std::to_string(plus) + " any_verb=" + std::to_string(any_verb) + " fail_dup=" + std::to_string(fail_dup) + (late ? " set_after=" + std::to_string(late - 1) : "");
  }
};
inline Options GenOptions(Choices& c) {
  Options o;
  o.spec = int(c.U(5)) - 1;
  if (o.spec > 2) o.spec = -1;
  o.plus = int(c.U(3)) - 1;
  if (c.P(1, 4)) o.late = 1 + uint32_t(c.U(6));
  return o;
}

struct RouteSpec {
  std::string method, tmpl, body;
  std::unordered_set<std::string> sys;
  std::string Text() const {
    std::string o = Show(method, 40) + " " + Show(tmpl, 400);
    if (!body.empty()) o += " body=" + Show(body, 60);
    if (!sys.empty()) { o += " sys={"; for (auto& s : sys) o += Show(s, 40) + ","; o += "}"; }
    return o;
  }
};

// ---------------------------------------------------------------- generators
inline std::string SanitizeLiteral(std::string s) {
  for (auto& ch : s) if (ch == '/' || ch == ':' || ch == '}') ch = '_';
  if (s.empty()) s = "e";
  if (s[0] == '*' || s[0] == '{') s[0] = 'x';
  return s;
}
inline std::string GenEscape(Choices& c) {
  static const std::vector<std::string> k = {"%2F", "%2f", "%20", "%41", "%", "%4", "%zz", "%4g", "%g4", "%25", "%2541", "%25%34%31", "%00", "%ff", "%FF", "%80", "%C3%A9", "%2B", "%2b", "+",
      "%3A", "%3a", "%3F", "%23", "%21", "%24", "%26", "%27", "%28", "%29", "%2A", "%2a", "%2C", "%3B", "%3D", "%40", "%5B", "%5D", "%5b", "%7E", "%2E", "%2e", "%2D", "%5F", "%5C", "%22", "%3C", "%7B", "%7F", "%%", "%%41", "%%%", "%4%41", "%-1", "% 1", "%+1", "%0x", "%u0041", "%2", "%7"};
  static const char h[] = "0123456789abcdefABCDEF";
  if (c.P(1, 12)) {  // escaped more than once
    std::string s = "%";
    for (size_t n = 1 + c.U(3); n--;) s += "25";
    return s + (c.P(1, 3) ? std::string() : std::string(1, h[c.U(22)]) + h[c.U(22)]);
  }
  switch (c.U(4)) {
    case 0: return std::string("%") + h[c.U(22)] + h[c.U(22)];
    case 1: return std::string("%") + c.From("0123456789abcdefABCDEFgG@`:/ZzXx%", 2);
    default: return c.Pick(k);
  }
}
inline std::string GenText(Choices& c, size_t max) {  // odd text, no structure
  std::string s;
  switch (c.U(8)) {
    case 0: return c.Bytes(c.Size(std::min<size_t>(max, 40)));
    case 1: case 2: {
      size_t n = 1 + c.U(5);
      for (size_t i = 0; i < n; ++i) s += c.P(1, 2) ? GenEscape(c) : c.From("ab+ .-_~", c.U(3));
      return s;
    }
    case 3: { auto& d = Dict::Get().strs; return d[c.U(d.size())]; }
    case 4: { auto& d = Dict::Get().strs; return c.From("ab", c.U(3)) + d[c.U(d.size())] + c.From("ab", c.U(3)); }
    case 5: return std::string(c.Size(max), "abxyz019._-~"[c.U(12)]);
    case 6: return c.From("!#$&'()*+,;=@[]._-~%\xc3\xa9\x80\xff", c.Size(std::min<size_t>(max, 30)));
    default: return c.From("abcABC012._-", c.Size(std::min<size_t>(max, 300)));
  }
}
inline std::string NoSlash(std::string s, std::string_view bad = "/?") {
  for (auto& ch : s) if (bad.find(ch) != bad.npos) ch = '-';
  return s;
}
struct Pool {
  std::vector<std::string> lits;
  size_t max_len = 2000;
};
inline std::string GenLiteral(Choices& c, size_t max) {
  switch (c.U(10)) {
    case 0: return SanitizeLiteral(c.From("abc", 1 + c.U(3)));
    case 1: return SanitizeLiteral(GenText(c, max));
    case 2: { static const std::vector<std::string> k = {".", "..", "%41", "%2F", "a%20b", "a*", "a**", "a{", "a{b", "a=b", "a.b", "*a"[0] == '*' ? "x*a" : "", "-", "~", "%", "A", "aa", "a%41"}; return c.Pick(k); }
    default: { static const std::vector<std::string> k = {"a", "b", "c", "v1", "foo"}; return c.Pick(k); }
  }
}
inline Pool GenPool(Choices& c) {
  Pool p;
  size_t n = 1 + c.U(4);
  for (size_t i = 0; i < n; ++i) p.lits.push_back(GenLiteral(c, p.max_len));
  return p;
}
inline std::string GenIdent(Choices& c) {
  switch (c.U(12)) {
    case 0: { std::string s = GenText(c, 200); for (auto& ch : s) if (ch == '.' || ch == '}' || ch == '=') ch = '_'; return s.empty() ? "i" : s; }
    case 1: { static const std::vector<std::string> k = {"a/b", "a:b", "*", "{", "a b", "x%2Ey", "\xc3\xa9"}; return c.Pick(k); }
    default: { static const std::vector<std::string> k = {"x", "y", "z", "shelf", "book_id", "a"}; return c.Pick(k); }
  }
}
inline std::string GenVerb(Choices& c) {
  switch (c.U(10)) {
    case 0: { std::string s = SanitizeLiteral(GenText(c, 200)); return NoSlash(s, "/?:}"); }
    case 1: return NoSlash(SanitizeLiteral(c.From("abv", 1 + c.U(3))));
    default: { static const std::vector<std::string> k = {"verb", "v", "cancel", "a", "verb2", "GET"}; return c.Pick(k); }
  }
}
inline std::string GenMethod(Choices& c, bool star = true) {
  static const std::vector<std::string> k = {"GET", "GET", "GET", "GET", "POST", "POST", "PUT", "DELETE", "PATCH", "HEAD", "get", "X", "GETverb", "G"};
  if (star && c.P(1, 6)) return "*";
  if (c.P(1, 8)) {
    static const std::vector<std::string> rare = {"OPTIONS", "TRACE", "CONNECT", "PROPFIND", "QUERY", "post", "Get", "GETT", "**", "GET ", "P", "PO", "OPTIONSX"};
    if (c.P(2, 3)) return c.Pick(rare);
    std::string m = c.P(1, 2) ? Dict::Get().strs[c.U(Dict::Get().strs.size())] : std::string(1 + c.Size(300), "AGx"[c.U(3)]);
    for (auto& ch : m) if (ch == ':') ch = '_';
    return m.empty() ? "E" : m;
  }
  return c.Pick(k);
}

// A template over the pool. Segments are chosen so that templates of one pool
// overlap a lot.
struct GenTemplateCfg {
  unsigned star = 30, dstar = 20, var = 60;  // percent
  unsigned verb = 10;
  size_t max_segs = 6;
  size_t big = 1100;  // segments of the occasional long template
};
inline std::string RenderTemplate(Choices& c, const std::vector<ref::Seg>& segs, const std::string& verb, unsigned var_pct) {
  if (segs.empty()) return "/";
  std::string o;
  size_t i = 0;
  while (i < segs.size()) {
    o += '/';
    bool wild = segs[i].k != ref::LIT;
    if (c.U(100) < (wild ? var_pct : var_pct / 4)) {
      size_t e = i + 1;
      while (e < segs.size() && c.P(1, 3)) ++e;
      o += '{' + GenIdent(c);
      size_t extra = c.P(1, 4) ? 1 + c.U(3) : 0;
      if (c.P(1, 250)) extra = c.P(1, 3) ? c.Big(2000) : 4 + c.Size(100);
      for (size_t k = 0; k < extra; ++k) o += '.' + GenIdent(c);
      if (!(e == i + 1 && segs[i].k == ref::STAR && c.P(1, 2))) {
        o += '=';
        for (size_t k = i; k < e; ++k) o += (k > i ? "/" : "") + segs[k].t;
      }
      o += '}';
      i = e;
    } else {
      o += segs[i].t;
      ++i;
    }
  }
  if (!verb.empty()) o += ':' + verb;
  return o;
}
inline std::vector<ref::Seg> GenSegs(Choices& c, const Pool& p, const GenTemplateCfg& g) {
  size_t n = c.P(1, 60) ? c.Size(200) : c.U(g.max_segs + 1);
  std::vector<ref::Seg> s;
  bool d = false;
  if (c.P(1, 150)) {
    // Long: wildcards at a few places only, so that the counts at which the
    // positions of the variables are crossed are the interesting sizes.
    n = c.Big(g.big);
    size_t at = c.P(1, 3) ? c.U(n) : n, star = 1 + c.U(40);
    if (c.P(1, 3)) at = c.U(3);
    for (size_t i = 0; i < n; ++i) {
      if (i == at) s.push_back({ref::DSTAR, "**"});
      else if (i < at && (c.P(1, unsigned(star)) || i + 3 > std::min(n, at))) s.push_back({ref::STAR, "*"});
      else s.push_back({ref::LIT, c.Pick(p.lits)});
    }
    return s;
  }
  for (size_t i = 0; i < n; ++i) {
    unsigned k = unsigned(c.U(100));
    if (!d && k < g.star) s.push_back({ref::STAR, "*"});
    else if (!d && k < g.star + g.dstar / (n > 8 ? n / 2 : 2)) { s.push_back({ref::DSTAR, "**"}); d = true; }
    else s.push_back({ref::LIT, c.Pick(p.lits)});
  }
  if (!d && c.U(100) < g.dstar) s.push_back({ref::DSTAR, "**"});
  return s;
}
inline std::string GenTemplate(Choices& c, const Pool& p, const GenTemplateCfg& g) {
  auto s = GenSegs(c, p, g);
  std::string v = c.U(100) < g.verb && !s.empty() ? GenVerb(c) : "";
  return RenderTemplate(c, s, v, g.var);
}

inline std::string GenSegment(Choices& c, const Pool& p) {  // request segment
  switch (c.U(16)) {
    case 0: return "*";
    case 1: return "**";
    case 2: return "";
    case 3: case 4: case 5: {
      if (c.P(1, 600)) return std::string(c.Big(400000), "ab%"[c.U(3)]) + NoSlash(GenText(c, 20));
      return NoSlash(GenText(c, 3000));
    }
    case 6: return c.From("ab", c.U(2)) + ":" + c.From("abv", c.U(3));
    case 7: { static const std::vector<std::string> k = {".", "..", "a.", "{x}", "{x=*}", "{", "}", "=", "/.", "verb", "a:verb", "GET"}; return NoSlash(c.Pick(k)); }
    case 8: case 9: return c.P(1, 2) ? GenEscape(c) : GenEscape(c) + GenEscape(c);
    default: return NoSlash(c.Pick(p.lits));
  }
}
// A request path that is likely to match t (or nearly so).
inline std::string GenPathFor(Choices& c, const Pool& p, const ref::Tmpl* t, bool mutate) {
  std::vector<std::string> parts;
  std::string verb;
  if (t) {
    for (auto& s : t->segs) {
      if (s.k == ref::LIT) parts.push_back(mutate && c.P(1, 20) ? GenSegment(c, p) : s.t);
      else if (s.k == ref::STAR) parts.push_back(GenSegment(c, p));
      else {
        size_t n = c.P(1, 80) ? c.P(1, 2) ? c.Big(1500) : c.Size(1500) : c.U(4);
        if (n > 1000 && !t->segs.empty() && t->segs.size() < 4 && c.P(1, 6)) n = c.Big(150000);
        for (size_t i = 0; i < n; ++i) parts.push_back(n > 50 ? c.Pick(p.lits) : GenSegment(c, p));
      }
    }
    verb = t->verb;
  } else {
    size_t n = c.U(6);
    for (size_t i = 0; i < n; ++i) parts.push_back(GenSegment(c, p));
  }
  if (mutate) {
    if (c.P(1, 10) && !parts.empty()) parts.pop_back();
    if (c.P(1, 10)) parts.push_back(GenSegment(c, p));
    if (c.P(1, 20) && !parts.empty()) parts.insert(parts.begin() + c.U(parts.size()), GenSegment(c, p));
    if (c.P(1, 12)) verb = c.P(1, 2) ? "" : GenVerb(c);
  }
  std::string o = "/";
  for (size_t i = 0; i < parts.size(); ++i) o += (i ? "/" : "") + parts[i];
  if (!verb.empty()) o += ":" + verb;
  if (mutate && c.P(1, 12)) o += std::string(c.P(1, 30) ? c.Size(300) : 1 + c.U(3), '/');
  if (mutate && c.P(1, 12)) { static const std::vector<std::string> k = {"?", "?a=b", "?/x:verb", "?x/**", "??", "?a:verb", "?/"}; o += c.Pick(k); }
  if (mutate && c.P(1, 40)) o = "/" + o;
  return o;
}

// ------------------------------------------------------------------- World
struct Expect {
  int route = -1;        // index of the route that must be returned, -1: none
  bool dup = false;      // none because of duplicates
  std::string cls;       // alignment of the best route
  size_t candidates = 0; // routes (of this method and verb) that match
  bool unspecified = false;
  ref::Request req;
};

class World {
 public:
  Options opt;
  std::vector<RouteSpec> specs;
  std::vector<std::optional<ref::Tmpl>> parsed;
  std::vector<bool> register_result;
  std::set<std::string> verbs;
  std::deque<int> ids;
  std::unique_ptr<Matcher> m;

  void Add(RouteSpec r) {
    parsed.push_back(ref::Parse(r.tmpl));
    if (parsed.back() && !parsed.back()->verb.empty()) verbs.insert(parsed.back()->verb);
    specs.push_back(std::move(r));
  }
  Method Token(size_t i) const { return &ids[i]; }
  int IndexOf(Method p) const {
    if (!p) return -1;
    for (size_t i = 0; i < ids.size(); ++i) if (&ids[i] == p) return int(i);
    return -2;
  }
  // Registers copies that die before any lookup.
  void Build() {
    ids.resize(specs.size());
    auto b = std::make_unique<Builder>();
    if (opt.late) {
      Options other = opt;
      other.spec = opt.spec == 2 ? 0 : 2;
      other.plus = !opt.Plus();
      other.any_verb = !opt.AnyVerb();
      other.Apply(*b);
    } else {
      opt.Apply(*b);
    }
    register_result.clear();
    size_t at = opt.late ? std::min<size_t>(opt.late - 1, specs.size()) : specs.size() + 1;
    for (size_t i = 0; i <= specs.size(); ++i) {
      if (i == at) opt.ApplyAll(*b);
      if (i == specs.size()) break;
      auto copy = std::make_unique<RouteSpec>(specs[i]);
      bool ok = copy->sys.empty() && (i & 1) ? b->Register(copy->method, copy->tmpl, copy->body, Token(i))
                                            : b->Register(copy->method, copy->tmpl, copy->body, copy->sys, Token(i));
      register_result.push_back(ok);
    }
    m = b->Build();
  }
  Expect Lookup(const std::string& method, const std::string& path) const {
    Expect x;
    x.req = ref::Split(path, verbs, opt.AnyVerb());
    if (x.req.empty_verb) { x.unspecified = true; return x; }
    std::string best;
    int best_i = -1, n_best = 0;
    bool best_exact = false;
    for (size_t i = 0; i < specs.size(); ++i) {
      if (!parsed[i] || parsed[i]->verb != x.req.verb) continue;
      bool exact = specs[i].method == method;
      if (!exact && specs[i].method != "*") continue;
      auto a = ref::Align(*parsed[i], x.req.parts);
      if (!a) continue;
      ++x.candidates;
      int cmp = best_i < 0 ? -1 : a->compare(best);
      if (cmp == 0) cmp = exact == best_exact ? 0 : exact ? -1 : 1;
      if (cmp < 0) { best = *a; best_i = int(i); best_exact = exact; n_best = 1; }
      else if (cmp == 0) ++n_best;
    }
    x.cls = best;
    if (n_best > 1) x.dup = true;
    else x.route = best_i;
    return x;
  }
  std::string Text() const {
    std::string o = opt.Text();
    for (size_t i = 0; i < specs.size() && i < 60; ++i) o += "\n  #" + std::to_string(i) + " " + specs[i].Text();
    if (specs.size() > 60) o += "\n  ... " + std::to_string(specs.size()) + " routes";
    return o;
  }
};
}  // namespace vp
