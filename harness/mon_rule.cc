// HttpRule registration monitor: C09. The twin registers the bindings by hand.
#include "google/api/http.pb.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "gen_query.h"
#include "url_world.h"

namespace vp {
namespace {
using google::api::HttpRule;

struct Gen {
  Choices& c;
  Pool pool;
  GenTemplateCfg cfg;
  int chain = 0;
  std::vector<std::pair<std::string, std::string>> seen;  // method, template
  std::string Tmpl() {
    if (!seen.empty() && c.P(1, 7)) return seen[c.U(seen.size())].second;
    if (c.P(1, 14)) {
      static const std::vector<std::string> bad = {"", "a", "/a/", "/{x", "/**/*", "/a:", "/{=a}", "//", "/a//b", "/{x}}"};
      return c.Pick(bad);
    }
    return GenTemplate(c, pool, cfg);
  }
  void Fill(HttpRule* r, int depth) {
    std::string t = Tmpl(), m;
    switch (c.U(9)) {
      case 0: case 1: r->set_get(t); m = "GET"; break;
      case 2: r->set_put(t); m = "PUT"; break;
      case 3: r->set_post(t); m = "POST"; break;
      case 4: r->set_delete_(t); m = "DELETE"; break;
      case 5: r->set_patch(t); m = "PATCH"; break;
      case 6: case 7: {
        static const std::vector<std::string> k = {"HEAD", "*", "*", "OPTIONS", "GET", "get", "", "X-Y", "custom", "POST"};
        m = c.Pick(k);
        if (m == "*" && c.P(1, 3)) m = "HEAD";
        r->mutable_custom()->set_kind(m);
        r->mutable_custom()->set_path(t);
        break;
      }
      default: if (c.P(1, 2)) { r->set_get(t); m = "GET"; } break;  // no pattern
    }
    if (!m.empty()) seen.emplace_back(m, t);
    switch (c.U(5)) {
      case 0: r->set_body("*"); break;
      case 1: { static const std::vector<std::string> k = {"body", "a.b", "x", "shelf.name"}; r->set_body(c.Pick(k)); break; }
      case 2: if (c.P(1, 4)) r->set_body(GenText(c, 100)); break;
      default: break;
    }
    if (c.P(1, 6)) r->set_response_body("resp");
    if (c.P(1, 6)) r->set_selector("svc.Method" + std::to_string(c.U(3)));
    if (chain && depth < chain) return Fill(r->add_additional_bindings(), depth + 1);
    if (!depth && c.P(1, 150)) {  // a long chain of nested bindings
      chain = 4 + int(c.U(60));
      Fill(r->add_additional_bindings(), 1);
      chain = 0;
      return;
    }
    if (depth < 3 && c.P(1, depth ? 5 : 2)) {
      size_t n = c.P(1, 60) ? c.P(1, 4) ? c.Big(400) : c.Size(120) : 1 + c.U(4);
      for (size_t i = 0; i < n; ++i) Fill(r->add_additional_bindings(), depth + 1);
    }
  }
};
// The documented meaning, through the manual interface.
bool Manual(Builder& b, const HttpRule& r, const std::unordered_set<std::string>& sys, Method token, Ctx& x, size_t* calls) {
  bool ok = true;
  auto reg = [&](const std::string& m, const std::string& p) {
    ++*calls;
    ok = b.Register(m, p, r.body(), sys, token);
    x.Count(ok ? "bindings_registered" : "bindings_refused")++;
  };
  switch (r.pattern_case()) {
    case HttpRule::kGet: reg("GET", r.get()); break;
    case HttpRule::kPut: reg("PUT", r.put()); break;
    case HttpRule::kPost: reg("POST", r.post()); break;
    case HttpRule::kDelete: reg("DELETE", r.delete_()); break;
    case HttpRule::kPatch: reg("PATCH", r.patch()); break;
    case HttpRule::kCustom: reg(r.custom().kind(), r.custom().path()); break;
    default: x.Count("rules_without_pattern")++; break;
  }
  for (int i = 0; ok && i < r.additional_bindings_size(); ++i) ok = Manual(b, r.additional_bindings(i), sys, token, x, calls);
  return ok;
}

void RunC09(Choices& c, Ctx& x) {
  Gen g{c, GenPool(c), {}, {}};
  g.cfg.max_segs = 1 + c.U(4);
  Options opt = GenOptions(c);
  opt.fail_dup = int(c.U(3)) - 1;
  size_t n = 1 + c.U(5);
  std::vector<HttpRule> rules(n);
  std::vector<std::unordered_set<std::string>> sys(n);
  std::deque<int> ids(n);
  auto a = std::make_unique<Builder>(), b = std::make_unique<Builder>();
  opt.Apply(*a);
  opt.Apply(*b);
  std::string text = opt.Text();
  for (size_t i = 0; i < n; ++i) {
    g.Fill(&rules[i], 0);
    if (c.P(1, 2)) { sys[i] = {"key"}; if (c.P(1, 2)) sys[i].insert("$alt"); if (c.P(1, 3)) sys[i].insert("a.b"); }
    text += "\n rule #" + std::to_string(i) + " {" + rules[i].ShortDebugString() + "} sys=" + std::to_string(sys[i].size());
  }
  SetNote(text);
  for (size_t i = 0; i < n; ++i) {
    auto copy = std::make_unique<HttpRule>(rules[i]);
    bool short_form = sys[i].empty() && c.P(1, 2);
    bool got = short_form ? gt::PathMatcherUtility::RegisterByHttpRule<Method>(*a, *copy, &ids[i])
                          : gt::PathMatcherUtility::RegisterByHttpRule<Method>(*a, *copy, sys[i], &ids[i]);
    copy.reset();
    size_t calls = 0;
    bool want = Manual(*b, rules[i], sys[i], &ids[i], x, &calls);
    x.Count("rules")++;
    if (calls > 1) x.Count("rules_with_several_bindings")++;
    if (!want) x.Count("rules_refused")++;
    if (got != want)
      x.Fail("wrong-result", "RegisterByHttpRule of rule #" + std::to_string(i) + " returned " + (got ? "true" : "false") + ", registering its bindings one by one " + (want ? "true" : "false") + "\n" + text);
  }
  auto ma = a->Build(), mb = b->Build();
  a.reset();
  b.reset();
  auto idx = [&](Method q) { if (!q) return std::string("none"); for (size_t k = 0; k < ids.size(); ++k) if (&ids[k] == q) return "rule #" + std::to_string(k); return std::string("unknown pointer"); };
  size_t lookups = 4 + c.U(12) + std::min<size_t>(g.seen.size(), 30);
  for (size_t i = 0; i < lookups; ++i) {
    std::string m = GenMethod(c, false), p;
    if (!g.seen.empty()) {
      auto& s = i < g.seen.size() ? g.seen[i] : g.seen[c.U(g.seen.size())];
      auto t = ref::Parse(s.second);
      if (s.first != "*" && !c.P(1, 6)) m = s.first;
      p = GenPathFor(c, g.pool, t ? &*t : nullptr, c.P(1, 3));
    } else {
      p = GenPathFor(c, g.pool, nullptr, true);
    }
    static const std::vector<std::string> qs = {"", "key=1&k=2", "$alt=x&a.b=c", "k=a+b%20c"};
    std::string q = c.Pick(qs);
    Bindings b1, b2;
    std::string y1 = "-", y2 = "-";
    Method r1 = ma->Lookup(m, p, q, &b1, &y1), r2 = mb->Lookup(m, p, q, &b2, &y2);
    x.Count("lookups")++;
    if (r2) x.Count("matched")++;
    if (r1 != r2 || y1 != y2 || !(ToRef(b1) == ToRef(b2)))
      x.Fail("wrong-effect", "request " + Show(m) + " " + Show(p, 400) + " query " + Show(q) + ": rule registration gives " + idx(r1) + " body " + Show(y1) + " " + ShowB(ToRef(b1)) + "\nmanual registration gives " + idx(r2) + " body " + Show(y2) + " " + ShowB(ToRef(b2)) + "\n" + text);
  }
  if (g.seen.size() > 2) {
    x.Distinct(HashBytes(text));
    if (x.WantSample()) x.Sample(text);
  }
}
Register r09("C09", RunC09);
}  // namespace
}  // namespace vp
