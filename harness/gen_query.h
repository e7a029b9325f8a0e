// Generators shared by the monitors that look up requests.
#pragma once
#include "url_world.h"

namespace vp {
inline std::string KeyOf(const RouteSpec& s, const ref::Tmpl& t) {
  std::string k = s.method + "\n" + t.verb + "\n";
  for (auto& g : t.segs) k += char(g.k) + g.t + "/";
  return k;
}

inline void FillWorld(Choices& c, World& w, const Pool& pool, const GenTemplateCfg& g, bool allow_dups, size_t max_routes = 9) {
  size_t n = 1 + c.U(max_routes);
  Pool wide = pool;  // with many literals, methods and verbs
  std::vector<std::string> ms, vs;
  if (c.P(1, 150)) {
    n = c.P(1, 2) ? c.Big(1200) : c.Size(1200);
    if (n > 30 && c.P(2, 3)) {
      for (size_t i = 0; i < n; ++i) wide.lits.push_back("l" + std::to_string(i));
      if (c.P(1, 3)) for (size_t i = 0; i < n; ++i) ms.push_back("M" + std::to_string(i));
      if (c.P(1, 3)) for (size_t i = 0; i < n; ++i) vs.push_back("v" + std::to_string(i));
    }
  }
  GenTemplateCfg few = g;
  bool no_root = c.P(1, 2);
  if (n > 30 && c.P(1, 2)) { few.star = 3; few.dstar = 2; few.max_segs = 2; }  // many children of few nodes
  std::set<std::string> keys;
  for (size_t i = 0; i < n; ++i) {
    RouteSpec r;
    r.method = GenMethod(c);
    r.tmpl = GenTemplate(c, wide, few);
    if (!ms.empty() && c.P(4, 5)) r.method = c.Pick(ms);
    if (!vs.empty() && r.tmpl != "/" && r.tmpl.find(':') == r.tmpl.npos) r.tmpl += ":" + c.Pick(vs);
    if (n > 30 && no_root && r.tmpl == "/") continue;
    auto t = ref::Parse(r.tmpl);
    if (!t) continue;
    if (!keys.insert(KeyOf(r, *t)).second && !allow_dups) continue;
    if (c.P(n > 60 ? 4 : 1, 6)) r.body = c.P(1, 3) ? "*" : n > 60 ? "b" + std::to_string(i) : GenText(c, 40);
    w.Add(std::move(r));
  }
}
inline const ref::Tmpl* PickTmpl(Choices& c, const World& w) {
  if (w.specs.empty() || c.P(1, 25)) return nullptr;
  return &*w.parsed[c.U(w.parsed.size())];
}
inline std::string PickMethod(Choices& c, const World& w) {
  if (w.specs.empty() || c.P(1, 8)) return GenMethod(c);
  std::string m = w.specs[c.U(w.specs.size())].method;
  if (m == "*" && c.P(5, 6)) return GenMethod(c, false);
  return m;
}
inline std::string ReqText(const std::string& m, const std::string& p, const std::string& q = "") {
  return "request " + Show(m, 60) + " " + Show(p, 600) + (q.empty() ? "" : " query " + Show(q, 600));
}
inline std::string RouteText(const World& w, int r) {
  if (r == -1) return "none";
  if (r == -2) return "a pointer never registered";
  return "#" + std::to_string(r) + " " + w.specs[r].Text();
}

// The path, in a string that lives exactly as long as the call.
inline Method CallLookup(const World& w, const std::string& m, const std::string& p) {
  auto a = std::make_unique<std::string>(m), b = std::make_unique<std::string>(p);
  return w.m->Lookup(*a, *b);
}
inline Method CallLookup(const World& w, const std::string& m, const std::string& p, const std::string& q, Bindings* b, std::string* body) {
  auto x = std::make_unique<std::string>(m), y = std::make_unique<std::string>(p), z = std::make_unique<std::string>(q);
  return w.m->Lookup(*x, *y, *z, b, body);
}

inline std::string GenQueryName(Choices& c) {
  switch (c.U(10)) {
    case 0: { std::string s = NoSlash(GenText(c, 300), "&"); return s; }
    case 1: return "";
    case 2: { static const std::vector<std::string> k = {"api_key", "key", "$alt", "alt", "api%5Fkey", "API_KEY", "api_key.x", "x.api_key", "ap", "api_keyy"}; return c.Pick(k); }
    case 3: { static const std::vector<std::string> k = {".", "..", "a.", ".a", "a..b", "a.b.c.d", "%2E", "a%2Eb", "a%3Db", "a+b", "[0]", "a[b]", "?a", "/", "a/b", "#"}; return c.Pick(k); }
    default: {
      static const std::vector<std::string> k = {"x", "y", "book", "id", "a"};
      std::string s = c.Pick(k);
      size_t n = c.P(1, 3) ? 1 + c.U(3) : 0;
      if (c.P(1, 100)) n = c.Size(500);
      while (n--) s += "." + c.Pick(k);
      return s;
    }
  }
}
inline std::string GenQuery(Choices& c) {
  std::string q;
  size_t n = c.U(7);
  if (c.P(1, 60)) n = c.Size(3000);
  if (n > 1500 && c.P(1, 6)) n = c.Big(140000);
  for (size_t i = 0; i < n; ++i) {
    if (i || c.P(1, 12)) q += '&';
    if (n > 200) { q += "k=" + c.From("ab%", 2); continue; }
    switch (c.U(12)) {
      case 0: q += GenQueryName(c); break;                 // no '='
      case 1: q += "=" + NoSlash(GenText(c, 60), "&"); break;
      case 2: break;                                       // empty item
      case 3: q += GenQueryName(c) + "==" + NoSlash(GenText(c, 60), "&"); break;
      case 4: q += GenQueryName(c) + "="; break;
      case 5: q += GenQueryName(c) + "=" + GenEscape(c); break;
      default: q += GenQueryName(c) + "=" + NoSlash(GenText(c, 3000), "&"); break;
    }
  }
  if (c.P(1, 12)) q += '&';
  if (c.P(1, 30)) q = "?" + q;
  return q;
}
}  // namespace vp
