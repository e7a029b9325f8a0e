// Route matching monitors: C03 C04 C06 C07 C08 C11 C13.
#include "gen_query.h"
#include "url_world.h"

namespace vp {
namespace {

// ------------------------------------------------------------------ C03
void RunC03(Choices& c, Ctx& x) {
  World w;
  Pool pool = GenPool(c);
  GenTemplateCfg g;
  g.star = unsigned(10 + c.U(40));
  g.dstar = unsigned(c.U(45));
  g.var = 20;
  g.verb = c.P(1, 12) ? 30 : 0;
  g.max_segs = 2 + c.U(6);
  FillWorld(c, w, pool, g, false, 14);
  SetNote(w.Text());
  w.Build();
  size_t lookups = 1 + c.U(w.specs.size() > 60 ? 6 : 14);
  if (w.specs.size() > 60 && c.P(1, 3)) lookups = std::min<size_t>(w.specs.size(), 60000 / w.specs.size());
  std::vector<std::pair<std::string, std::string>> past;
  for (size_t i = 0; i < lookups; ++i) {
    std::string m, p;
    if (!past.empty() && c.P(1, 6)) { std::tie(m, p) = c.Pick(past); if (c.P(1, 2)) m = GenMethod(c); }
    else { m = PickMethod(c, w); p = GenPathFor(c, pool, PickTmpl(c, w), true); }
    past.emplace_back(m, p);
    Expect e = w.Lookup(m, p);
    if (e.unspecified || e.dup) continue;
    Method got;
    Bindings b;
    std::string body;
    switch (c.U(3)) {
      case 0: got = CallLookup(w, m, p); break;
      case 1: got = CallLookup(w, m, p, "", &b, &body); break;
      default: got = CallLookup(w, m, p, "", nullptr, nullptr); break;
    }
    int r = w.IndexOf(got);
    x.Count("lookups")++;
    if (e.route >= 0) x.Count("matched")++;
    else x.Count("unmatched")++;
    if (e.candidates > 1) { x.Count("ambiguous_by_template")++; x.Distinct(Mix(HashBytes(e.cls), Mix(e.candidates, HashBytes(w.specs[e.route].tmpl)))); }
    if (r != e.route)
      x.Fail("wrong-route", ReqText(m, p) + "\nexpected route: " + RouteText(w, e.route) + "\nreturned: " + RouteText(w, r) + "\nroutes: " + w.Text());
    if (e.candidates > 2 && x.WantSample()) x.Sample(ReqText(m, p) + " -> " + RouteText(w, r) + " out of " + std::to_string(e.candidates) + " matching of " + std::to_string(w.specs.size()) + " routes");
  }
}

// Exhaustive: all route sets of up to 3 templates over a tiny alphabet, all
// requests up to 4 segments.
void EnumC03(Ctx& x, unsigned shard, unsigned shards) {
  std::vector<std::string> tm = {"/"};
  const std::vector<std::string> segs = {"a", "b", "*", "**"};
  for (auto& s : segs) tm.push_back("/" + s);
  for (auto& s : segs) for (auto& t : segs) if (ref::Parse("/" + s + "/" + t)) tm.push_back("/" + s + "/" + t);
  for (const char* t : {"/a/*/b", "/*/*/*", "/*/a/*", "/a/**/b", "/**/a/b", "/*/**/b", "/*/*/**", "/a/*/**", "/a/a/a"}) tm.push_back(t);
  std::vector<std::string> paths = {"/"};
  const std::vector<std::string> rs = {"a", "b", "**"};
  std::vector<std::string> cur = {""};
  for (int d = 0; d < 4; ++d) {
    std::vector<std::string> nx;
    for (auto& p : cur) for (auto& s : rs) nx.push_back(p + "/" + s);
    for (auto& p : nx) paths.push_back(p);
    cur = nx;
  }
  size_t n = tm.size(), k = 0;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j)
      for (size_t l = 0; l < n; ++l) {
        if (i == j || j == l || i == l) continue;
        if (i > j && l == 0 && x.tier == 0) continue;
        if (k++ % shards != shard) continue;
        if (x.tier == 0 && (i > l || j > l)) continue;  // order matters little: thorough tries all
        World w;
        w.Add({"GET", tm[i], "", {}});
        w.Add({(j & 1) ? "*" : "GET", tm[j], "", {}});
        w.Add({"GET", tm[l], "", {}});
        SetNote(w.Text());
        w.Build();
        x.evals_++;
        x.Count("enumerated_tables")++;
        for (auto& p : paths) {
          Expect e = w.Lookup("GET", p);
          if (e.dup) continue;
          int r = w.IndexOf(w.m->Lookup("GET", p));
          x.Count("enumerated_lookups")++;
          if (r != e.route)
            x.Fail("wrong-route", ReqText("GET", p) + "\nexpected route: " + RouteText(w, e.route) + "\nreturned: " + RouteText(w, r) + "\nroutes: " + w.Text());
        }
      }
}

// ------------------------------------------------------------------ C04
void RunC04(Choices& c, Ctx& x) {
  World w;
  Pool pool = GenPool(c);
  w.opt = GenOptions(c);
  GenTemplateCfg g;
  g.star = unsigned(25 + c.U(40));
  g.dstar = unsigned(c.U(60));
  g.var = unsigned(70 + c.U(30));
  g.verb = c.P(1, 10) ? 25 : 0;
  g.max_segs = 2 + c.U(6);
  FillWorld(c, w, pool, g, false, 4);
  SetNote(w.Text());
  w.Build();
  Bindings b;
  std::string body = "junk";
  size_t lookups = 1 + c.U(10);
  if (w.specs.size() > 60 && c.P(1, 3)) lookups = std::min<size_t>(w.specs.size(), 60000 / w.specs.size());
  for (size_t i = 0; i < lookups; ++i) {
    std::string m = PickMethod(c, w), p = GenPathFor(c, pool, PickTmpl(c, w), c.P(1, 2));
    std::string q = c.P(1, 5) ? "k=v" : "";
    if (c.P(1, 2)) { b.clear(); }  // otherwise stale content of the last call
    Expect e = w.Lookup(m, p);
    if (e.unspecified || e.dup) continue;
    Method got = CallLookup(w, m, p, q, &b, &body);
    int r = w.IndexOf(got);
    x.Count("lookups")++;
    if (r != e.route || r < 0) { if (r != e.route) x.Count("skipped_other_route")++; continue; }
    const ref::Tmpl& t = *w.parsed[r];
    std::vector<ref::Binding> want, have = ToRef(b);
    for (auto& v : t.vars) {
      want.push_back({v.path, ref::Capture(t, v, e.req.parts, w.opt.RefSpec())});
      x.Count(v.dstar ? "captures_wildcard" : v.e - v.b > 1 ? "captures_multi" : "captures_single")++;
    }
    size_t extra = q.empty() ? 0 : 1;
    if (have.size() != want.size() + extra)
      x.Fail("binding-count", ReqText(m, p, q) + "\nexpected path bindings: " + ShowB(want) + "\nreturned bindings: " + ShowB(have) + "\nroute " + RouteText(w, r) + "\n" + w.opt.Text());
    have.resize(want.size());
    if (!(have == want))
      x.Fail("wrong-capture", ReqText(m, p, q) + "\nexpected path bindings: " + ShowB(want) + "\nreturned: " + ShowB(have) + "\nroute " + RouteText(w, r) + "\n" + w.opt.Text());
    if (body != w.specs[r].body)
      x.Fail("wrong-body-path", ReqText(m, p) + "\nexpected body path " + Show(w.specs[r].body) + " returned " + Show(body) + "\nroute " + RouteText(w, r));
    x.Count("matched")++;
    if (!t.vars.empty()) {
      uint64_t h = HashBytes(w.specs[r].tmpl, w.opt.spec + 7);
      for (auto& s : e.req.parts) h = HashBytes(s, h);
      x.Distinct(h);
      if (t.vars.size() > 1 && x.WantSample()) x.Sample(ReqText(m, p) + " on " + RouteText(w, r) + " -> " + ShowB(want));
    }
  }
}

// ------------------------------------------------------------------ C06
void RunC06(Choices& c, Ctx& x) {
  World w;
  w.opt = GenOptions(c);
  static const std::vector<std::string> tm = {"/", "/a", "/a/{x}", "/{x}/{y=**}", "/b/*", "/c/{z=d/*}", "/**"};
  static const std::vector<std::string> pm = {"/", "/a", "/a/1", "/p/q/r", "/b/x", "/c/d/e", "/n/o"};
  size_t n = 1 + c.U(3);
  std::vector<std::string> paths;
  for (size_t i = 0; i < n; ++i) {
    size_t k = c.U(tm.size());
    RouteSpec r{"GET", tm[k], "", {}};
    bool dup = false;
    for (auto& s : w.specs) dup |= s.tmpl == r.tmpl;
    if (dup) continue;
    size_t ns = c.U(4);
    for (size_t j = 0; j < ns; ++j) r.sys.insert(c.P(1, 2) ? std::vector<std::string>{"api_key", "key", "$alt", "x", "book.id"}[c.U(5)] : GenQueryName(c));
    if (c.P(1, 200)) for (size_t j = c.Size(300); j-- > 0;) r.sys.insert("s" + std::to_string(j));
    w.Add(r);
    paths.push_back(pm[k]);
  }
  w.Build();
  Bindings b;
  for (size_t i = 1 + c.U(6); i-- > 0;) {
    std::string p = c.Pick(paths), q = GenQuery(c);
    // sometimes use the names of the system parameters as they are
    if (c.P(1, 5)) for (auto& s : w.specs) for (auto& n2 : s.sys) if (n2.find('&') == n2.npos && c.P(1, 2)) q += "&" + n2 + "=sysval";
    if (c.P(1, 8)) p += "?" + GenQuery(c);  // a query inside the path is not a query
    SetNote(w.Text() + "\n" + ReqText("GET", p, q));
    Expect e = w.Lookup("GET", p);
    if (e.route < 0 || e.unspecified) continue;
    int r = w.IndexOf(CallLookup(w, "GET", p, q, &b, nullptr));
    x.Count("lookups")++;
    if (r != e.route) { x.Count("skipped_other_route")++; continue; }
    size_t nv = w.parsed[r]->vars.size();
    auto want = ref::Query(q, w.specs[r].sys, w.opt.Plus());
    auto have = ToRef(b);
    size_t items = ref::SplitAll(q, '&').size();
    x.Count("query_items") += items;
    x.Count("query_bindings") += want.size();
    if (have.size() < nv || !(std::vector<ref::Binding>(have.begin() + nv, have.end()) == want))
      x.Fail("wrong-query-bindings", ReqText("GET", p, q) + "\nexpected query bindings: " + ShowB(want) + "\nreturned (after " + std::to_string(nv) + " path bindings): " + ShowB(have) + "\nroute " + RouteText(w, r) + "\n" + w.opt.Text());
    if (want.size() > 0) {
      x.Count("matched")++;
      x.Distinct(HashBytes(q, HashBytes(w.specs[r].Text(), w.opt.plus + 3)));
      if (items > want.size() && x.WantSample()) x.Sample(ReqText("GET", p, q) + " sys=" + std::to_string(w.specs[r].sys.size()) + " -> " + ShowB(want));
    }
  }
}

// ------------------------------------------------------------------ C07
// Verb semantics by comparison with verb-free twins of the table: the routes
// of each verb, registered without it, must answer the request without it.
void RunC07(Choices& c, Ctx& x) {
  World w;
  Pool pool = GenPool(c);
  w.opt = GenOptions(c);
  w.opt.any_verb = int(c.U(3)) - 1;
  std::vector<std::string> vp = {GenVerb(c), GenVerb(c), "v"};
  struct Bare { std::vector<ref::Seg> segs; std::string text; };
  std::set<std::string> keys;
  size_t n = 1 + c.U(10);
  GenTemplateCfg g;
  g.dstar = unsigned(c.U(50));
  g.max_segs = 1 + c.U(4);
  std::vector<std::string> bare_text;
  std::vector<std::string> bares;
  for (size_t i = 0; i < 1 + n / 2; ++i) {
    auto s = GenSegs(c, pool, g);
    bares.push_back(RenderTemplate(c, s, "", 60));
  }
  for (size_t i = 0; i < n; ++i) {
    std::string t = c.Pick(bares);
    RouteSpec r{GenMethod(c), t, "", {}};
    std::string v = t == "/" || c.P(1, 3) ? "" : c.Pick(vp);
    auto bare = ref::Parse(t);
    if (!bare) continue;
    ref::Tmpl k = *bare;
    k.verb = v;
    if (!keys.insert(KeyOf(r, k)).second) continue;
    if (!v.empty()) r.tmpl += ":" + v;
    if (!ref::Parse(r.tmpl)) continue;
    w.Add(r);
    bare_text.push_back(t);
  }
  if (w.specs.empty()) return;
  SetNote(w.Text());
  w.Build();
  // the twins
  std::map<std::string, std::unique_ptr<Matcher>> twins;
  for (auto& s : w.verbs) twins[s];
  twins[""];
  for (auto& tw : twins) {
    Builder b;
    Options o = w.opt;
    o.any_verb = -1;
    o.Apply(b);
    for (size_t i = 0; i < w.specs.size(); ++i)
      if (w.parsed[i]->verb == tw.first) b.Register(w.specs[i].method, bare_text[i], w.specs[i].body, w.specs[i].sys, w.Token(i));
    tw.second = b.Build();
  }
  for (size_t i = 1 + c.U(12); i-- > 0;) {
    std::string m = PickMethod(c, w), p = GenPathFor(c, pool, PickTmpl(c, w), c.P(1, 3));
    if (c.P(1, 8)) p = p.substr(0, p.find('?')) + ":" + c.Pick(vp);
    if (c.P(1, 12)) p = p.substr(0, p.find('?')) + ":" + c.Pick(vp) + c.From("/:x", 1 + c.U(2));
    ref::Request rq = ref::Split(p, w.verbs, w.opt.AnyVerb());
    if (rq.empty_verb) continue;
    // The request without its verb. A twin has no verbs, so colons are text.
    std::string q = p.substr(0, p.find('?'));
    if (!rq.verb.empty()) q = q.substr(0, q.rfind(':'));
    if (q.empty()) continue;
    x.Count("lookups")++;
    Bindings b1, b2;
    std::string y1, y2;
    int got = w.IndexOf(CallLookup(w, m, p, "", &b1, &y1));
    int got2 = w.IndexOf(CallLookup(w, m, p));
    int want = -1;
    auto tw = twins.find(rq.verb);
    if (tw != twins.end()) want = w.IndexOf(tw->second->Lookup(m, q, "", &b2, &y2));
    if (got != want || got2 != want)
      x.Fail("wrong-verb-route", ReqText(m, p) + "\nverb " + Show(rq.verb) + " rest " + Show(q) + "\nroutes of that verb alone give: " + RouteText(w, want) + "\nreturned: " + RouteText(w, got) + " / short form " + RouteText(w, got2) + "\nroutes: " + w.Text());
    if (want >= 0 && !(ToRef(b1) == ToRef(b2)))
      x.Fail("wrong-verb-capture", ReqText(m, p) + "\nexpected " + ShowB(ToRef(b2)) + " returned " + ShowB(ToRef(b1)) + "\nroute " + RouteText(w, want) + "\nroutes: " + w.Text());
    if (!rq.verb.empty()) x.Count(want >= 0 ? "verb_matched" : "verb_unmatched")++;
    else if (p.find(':') != p.npos) x.Count(want >= 0 ? "colon_as_text_matched" : "colon_as_text_unmatched")++;
    if (want >= 0 && p.find(':') != p.npos) {
      x.Distinct(HashBytes(p, HashBytes(w.specs[want].tmpl)));
      if (x.WantSample()) x.Sample(ReqText(m, p) + " verb " + Show(rq.verb) + " -> " + RouteText(w, want));
    }
  }
}

// ------------------------------------------------------------------ C08
// Differential against a table that holds each distinct route once.
void RunC08(Choices& c, Ctx& x) {
  Pool pool = GenPool(c);
  GenTemplateCfg g;
  g.max_segs = 1 + c.U(4);
  g.verb = c.P(1, 4) ? 30 : 0;
  struct Step { RouteSpec r; std::optional<ref::Tmpl> t; int opt; };
  std::vector<Step> steps;
  size_t n = 2 + c.U(10);
  if (c.P(1, 200)) n = 2 + (c.P(1, 3) ? c.Big(2000) : c.Size(300));
  std::vector<std::pair<std::vector<ref::Seg>, std::string>> shapes;
  for (size_t i = 0; i < n; ++i) {
    Step s;
    s.opt = c.P(1, 6) ? int(c.U(2)) : -1;
    s.r.method = GenMethod(c);
    if (!shapes.empty() && c.P(2, 5)) {   // same shape as before: other variables, maybe other method
      auto& sh = shapes[c.U(shapes.size())];
      s.r.tmpl = RenderTemplate(c, sh.first, sh.second, 60);
      if (c.P(2, 3)) s.r.method = steps[c.U(steps.size())].r.method;
    } else if (c.P(1, 6)) {
      static const std::vector<std::string> bad = {"", "a", "/a/", "//", "/{x", "/{x}}", "/**/*", "/**/**", "/a:", "/{=a}", "/{x={y}}", "/a//b", "/{x}b", "/***", "/*a", "/{x=**}/*", "/a:b:c", "/a:b/c", "{x}", "/{x.}", "/}"};
      s.r.tmpl = c.P(1, 2) ? c.Pick(bad) : "/" + c.From("ab/{}=*:.", 1 + c.U(8));
    } else {
      auto sg = GenSegs(c, pool, g);
      std::string v = c.U(100) < g.verb && !sg.empty() ? GenVerb(c) : "";
      shapes.emplace_back(sg, v);
      s.r.tmpl = RenderTemplate(c, sg, v, 60);
    }
    s.t = ref::Parse(s.r.tmpl);
    steps.push_back(std::move(s));
  }
  std::string text;
  for (size_t i = 0; i < steps.size() && i < 60; ++i) text += "\n  #" + std::to_string(i) + (steps[i].opt >= 0 ? " [fail_on_duplicate=" + std::to_string(steps[i].opt) + "] " : " ") + steps[i].r.Text();
  SetNote(text);
  std::deque<int> ids(steps.size());
  auto b = std::make_unique<Builder>();
  auto once = std::make_unique<Builder>();
  bool fail_dup = false;
  Options lo = GenOptions(c);
  lo.any_verb = int(c.U(2));
  lo.ApplyAll(*once);
  text += "\noptions " + lo.Text();
  size_t lo_at = c.U(steps.size() + 1);
  std::map<std::string, int> count;
  std::map<std::string, size_t> first;
  std::vector<std::string> key(steps.size());
  std::vector<bool> accepted(steps.size());
  for (size_t i = 0; i < steps.size(); ++i) {
    auto& s = steps[i];
    if (i == lo_at) lo.ApplyAll(*b);
    else if (i < lo_at && c.P(1, 8)) { Options o = GenOptions(c); o.any_verb = int(c.U(2)); o.ApplyAll(*b); }
    if (s.opt >= 0) { fail_dup = s.opt == 1; b->SetFailRegistrationOnDuplicate(fail_dup); }
    bool want = s.t.has_value();
    if (s.t) {
      key[i] = KeyOf(s.r, *s.t);
      if (count[key[i]]++) { if (fail_dup) want = false; x.Count("duplicates")++; }
      else { first[key[i]] = i; once->Register(s.r.method, s.r.tmpl, s.r.body, s.r.sys, &ids[i]); }
    } else {
      x.Count("invalid")++;
    }
    auto copy = std::make_unique<RouteSpec>(s.r);
    bool got = b->Register(copy->method, copy->tmpl, copy->body, copy->sys, &ids[i]);
    copy.reset();
    x.Count("registrations")++;
    if (got != want)
      x.Fail(want ? "registration-refused" : "registration-accepted", "Register #" + std::to_string(i) + " returned " + (got ? "true" : "false") + "; fail_on_duplicate=" + std::to_string(fail_dup) + "\ncalls:" + text);
    accepted[i] = got;
  }
  if (lo_at >= steps.size()) lo.ApplyAll(*b);
  auto m = b->Build();
  auto mo = once->Build();
  b.reset();
  once.reset();
  World w;  // only for GenPathFor
  for (size_t i = 1 + c.U(steps.size() > 100 ? steps.size() : 14); i-- > 0;) {
    auto& s = steps[c.U(steps.size())];
    std::string method = s.r.method == "*" && c.P(1, 2) ? GenMethod(c) : s.r.method;
    std::string p = GenPathFor(c, pool, s.t ? &*s.t : nullptr, c.P(1, 2));
    Bindings b1, b2;
    std::string y1, y2;
    Method want = mo->Lookup(method, p, "q=1+%2b%252b", &b2, &y2);
    bool dup = false;
    if (want) {
      size_t k = 0;
      while (&ids[k] != want) ++k;
      dup = count[key[k]] > 1;
    }
    Method got = m->Lookup(method, p, "q=1+%2b%252b", &b1, &y1);
    Method got2 = m->Lookup(method, p);
    x.Count("lookups")++;
    if (dup) x.Count("lookups_of_duplicates")++;
    else if (want) x.Count("lookups_of_others")++;
    auto idx = [&](Method q) { if (!q) return std::string("none"); for (size_t k = 0; k < ids.size(); ++k) if (&ids[k] == q) return "#" + std::to_string(k); return std::string("unknown pointer"); };
    if (got != got2) x.Fail("short-form-differs", ReqText(method, p) + " full " + idx(got) + " short " + idx(got2) + "\ncalls:" + text);
    if (dup && got) x.Fail("duplicate-served", ReqText(method, p) + " returned " + idx(got) + " although registered more than once\ncalls:" + text);
    if (!dup && got != want) x.Fail("other-route-affected", ReqText(method, p) + " returned " + idx(got) + ", without the invalid and duplicate registrations it is " + idx(want) + "\ncalls:" + text);
    if (got && (!(ToRef(b1) == ToRef(b2)) || y1 != y2)) x.Fail("other-route-affected", ReqText(method, p) + " bindings " + ShowB(ToRef(b1)) + " expected " + ShowB(ToRef(b2)) + "\ncalls:" + text);
    if (dup || want) {
      x.Distinct(HashBytes(p, HashBytes(text)));
      if (dup && x.WantSample()) x.Sample(ReqText(method, p) + " -> none (duplicate) with calls" + text);
    }
  }
}

// ------------------------------------------------------------------ C11
void RunC11(Choices& c, Ctx& x) {
  World w, v;
  Pool pool = GenPool(c);
  w.opt = v.opt = GenOptions(c);
  if (c.P(1, 6)) w.opt.any_verb = v.opt.any_verb = 1;
  GenTemplateCfg g;
  g.dstar = unsigned(c.U(50));
  g.verb = c.P(1, 4) ? 30 : 0;
  g.max_segs = 1 + c.U(5);
  FillWorld(c, w, pool, g, false, 10);
  if (w.specs.empty()) return;
  // a permutation
  std::vector<size_t> perm(w.specs.size());
  for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
  for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[c.U(i)]);
  for (size_t i : perm) v.Add(w.specs[i]);
  // routes that cannot match: a first segment no request below has
  size_t extra = c.U(4), base = v.specs.size();
  std::set<std::string> used;
  for (size_t i = 0; i < extra; ++i) {
    std::string t = "/zz-unrelated" + std::to_string(i) + GenTemplate(c, pool, {});
    auto pt = ref::Parse(t);
    if (!pt || !pt->verb.empty()) continue;
    v.Add({GenMethod(c), t, "junk", {"k"}});
  }
  SetNote(w.Text());
  w.Build();
  v.Build();
  for (size_t i = 1 + c.U(10); i-- > 0;) {
    std::string m = PickMethod(c, w), p = GenPathFor(c, pool, PickTmpl(c, w), true);
    std::string q = c.P(1, 3) ? GenQuery(c) : "";
    if (p.compare(0, 4, "/zz-") == 0) continue;
    Bindings b1, b2, b3;
    std::string y1, y2, y3;
    int r1 = w.IndexOf(CallLookup(w, m, p, q, &b1, &y1));
    int r2 = v.IndexOf(CallLookup(v, m, p, q, &b2, &y2));
    if (r2 >= 0) r2 = size_t(r2) < base ? int(perm[r2]) : -3;
    x.Count("lookups")++;
    if (r1 != r2 || y1 != y2 || !(ToRef(b1) == ToRef(b2)))
      x.Fail("order-dependent", ReqText(m, p, q) + "\nwith the routes as listed: " + RouteText(w, r1) + " " + ShowB(ToRef(b1)) + "\nin another order with unrelated routes: " + (r2 == -3 ? "an unrelated route" : RouteText(w, r2)) + " " + ShowB(ToRef(b2)) + "\nroutes: " + w.Text() + "\nother: " + v.Text());
    // short form and null outputs
    if (w.IndexOf(CallLookup(w, m, p)) != r1) x.Fail("short-form-differs", ReqText(m, p) + "\nfull: " + RouteText(w, r1) + "\nroutes: " + w.Text());
    if (w.IndexOf(CallLookup(w, m, p, q, nullptr, nullptr)) != r1) x.Fail("null-outputs-differ", ReqText(m, p) + "\nroutes: " + w.Text());
    Bindings only = {gt::VariableBinding{{"stale"}, "stale"}};
    std::string ybody = "stale";
    CallLookup(w, m, p, q, &only, nullptr);
    CallLookup(w, m, p, q, nullptr, &ybody);
    if (r1 >= 0) {
      if (!(ToRef(only) == ToRef(b1)) || ybody != y1) x.Fail("outputs-differ", ReqText(m, p, q) + " bindings alone " + ShowB(ToRef(only)) + " body alone " + Show(ybody) + " both: " + ShowB(ToRef(b1)) + " " + Show(y1) + "\nroutes: " + w.Text());
    } else if (only.size() != 1 || only[0].value != "stale" || ybody != "stale") {
      x.Fail("outputs-touched-without-match", ReqText(m, p, q) + " bindings " + ShowB(ToRef(only)) + " body " + Show(ybody) + "\nroutes: " + w.Text());
    }
    x.Count(r1 >= 0 ? "matched" : "unmatched")++;
    // equivalent spellings
    size_t qp = p.find('?');
    std::string bare = p.substr(0, qp);
    if (bare.find(':', bare.rfind('/')) != bare.npos) continue;  // may have a verb
    std::string stripped = bare;
    while (stripped.size() > 1 && stripped.back() == '/') stripped.pop_back();
    bool colon_seg = stripped.find(':', stripped.rfind('/')) != stripped.npos;
    if (colon_seg) continue;  // "/a:verb/" is text, "/a:verb" is a verb
    std::vector<std::string> alt = {bare, stripped, bare + "?", bare + "?" + GenText(c, 30), stripped + std::string(1 + c.U(5), '/'), stripped + "/?x=/y:z"};
    for (auto& a : alt) {
      b3.clear();
      int r3 = w.IndexOf(CallLookup(w, m, a, q, &b3, &y3));
      x.Count("respellings")++;
      if (r3 != r1 || !(ToRef(b3) == ToRef(b1)))
        x.Fail("spelling-dependent", ReqText(m, p, q) + " -> " + RouteText(w, r1) + " " + ShowB(ToRef(b1)) + "\nbut " + ReqText(m, a, q) + " -> " + RouteText(w, r3) + " " + ShowB(ToRef(b3)) + "\nroutes: " + w.Text());
    }
    if (r1 >= 0) {
      x.Distinct(HashBytes(p, HashBytes(w.specs[r1].Text(), w.specs.size())));
      if (x.WantSample()) x.Sample(ReqText(m, p, q) + " = respelled " + Show(alt[4]) + ", permuted table of " + std::to_string(w.specs.size()) + "+" + std::to_string(v.specs.size() - base) + " -> " + RouteText(w, r1));
    }
  }
}

// ------------------------------------------------------------------ C13
void HostileOps(Choices& c, Ctx& x, bool count) {
  Pool pool;
  pool.max_len = 20000;
  pool.lits = {"a", GenLiteral(c, 300)};
  World w;  // keeps strings only
  size_t rounds = 1 + c.U(3);
  std::vector<std::unique_ptr<Matcher>> matchers;
  std::deque<int> ids(64);
  std::vector<std::string> tmpls;
  auto any_string = [&](size_t max) -> std::string {
    switch (c.U(7)) {
      case 0: return c.Bytes(c.Size(std::min<size_t>(max, 64)));
      case 1: return GenText(c, max);
      case 2: return GenPathFor(c, pool, nullptr, true);
      case 3: return "/" + c.From("ab/{}=*:.%?\0\xff", c.U(14));
      case 4: return c.From("/:*?", c.U(6));
      case 5: return std::string(c.Size(max), "/a%:*{&=."[c.U(9)]);
      default: {
        if (!tmpls.empty()) { auto t = ref::Parse(tmpls[c.U(tmpls.size())]); if (t) return GenPathFor(c, pool, &*t, true); }
        return "/a";
      }
    }
  };
  for (size_t r = 0; r < rounds; ++r) {
    auto b = std::make_unique<Builder>();
    Options o = GenOptions(c);
    o.any_verb = int(c.U(3)) - 1;
    o.fail_dup = int(c.U(3)) - 1;
    o.Apply(*b);
    for (size_t i = c.U(10); i-- > 0;) {
      std::string t = c.P(2, 3) ? GenTemplate(c, pool, {}) : any_string(5000);
      if (c.P(1, 3) && !t.empty()) {  // mutate
        size_t at = c.U(t.size());
        switch (c.U(3)) { case 0: t.erase(at, 1 + c.U(3)); break; case 1: t.insert(at, c.From("/{}*:=.%", 1 + c.U(2))); break; default: t[at] = char(c.U(256)); }
      }
      if (tmpls.size() > 1 && c.P(1, 5)) t = tmpls[c.U(tmpls.size())];
      tmpls.push_back(t);
      auto ht = gt::HttpTemplate::Parse(t);
      if (count) x.Count(ht ? "templates_accepted" : "templates_rejected")++;
      std::unordered_set<std::string> sys;
      for (size_t k = c.U(3); k-- > 0;) sys.insert(any_string(100));
      std::string me = c.P(1, 4) ? any_string(300) : GenMethod(c);
      std::string body = any_string(100);
      auto ts = std::make_unique<std::string>(t);
      b->Register(me, *ts, body, sys, &ids[c.U(64)]);
      if (c.P(1, 10)) o.fail_dup = int(c.U(2)), o.Apply(*b);
    }
    if (c.P(1, 8)) { b.reset(); continue; }  // builder dropped without Build
    matchers.push_back(b->Build());
    b.reset();
    if (c.P(1, 8)) matchers.erase(matchers.begin() + c.U(matchers.size()));
  }
  for (size_t i = c.U(12); i-- > 0 && !matchers.empty();) {
    auto& m = matchers[c.U(matchers.size())];
    auto me = std::make_unique<std::string>(c.P(1, 4) ? any_string(300) : GenMethod(c));
    auto p = std::make_unique<std::string>(any_string(60000));
    auto q = std::make_unique<std::string>(c.P(1, 2) ? GenQuery(c) : any_string(20000));
    auto bind = std::make_unique<Bindings>();
    auto body = std::make_unique<std::string>();
    Method r;
    switch (c.U(4)) {
      case 0: r = m->Lookup(*me, *p); break;
      case 1: r = m->Lookup(*me, *p, *q, bind.get(), body.get()); break;
      case 2: r = m->Lookup(*me, *p, *q, bind.get(), nullptr); break;
      default: r = m->Lookup(*me, *p, *q, nullptr, body.get()); break;
    }
    if (count) x.Count(r ? "lookups_matched" : "lookups_unmatched")++;
    me.reset(); p.reset(); q.reset();
    size_t sum = 0;  // touch every byte of the outputs after the inputs died
    for (auto& v : *bind) { for (auto& s : v.field_path) for (char ch : s) sum += size_t(ch); for (char ch : v.value) sum += size_t(ch); }
    for (char ch : *body) sum += size_t(ch);
    if (sum == 0x7fffffffffff) abort();
  }
  for (size_t i = c.U(4); i-- > 0;) {
    ExactBuf e(any_string(70000));
    auto s = gt::UrlUnescapeString(AV(e.view()), gt::UrlUnescapeSpec(c.U(3)), c.P(1, 2));
    bool esc = gt::IsUrlEscapedString(AV(e.view()), gt::UrlUnescapeSpec(c.U(3)), c.P(1, 2));
    if (s.size() > e.n) x.Fail("unescape-grew", Show(e.view()));
    if (count) x.Count(esc ? "unescaped" : "unescape_noop")++;
  }
}
void RunC13(Choices& c, Ctx& x) {
  bool fuzz = c.fuzz();
  Choices again = c;
  size_t before = AllocatedBytes();
  HostileOps(c, x, true);
  if (AllocatedBytes() != before) {
    // The first run may have filled static tables: decide on repetitions.
    size_t grown[3];
    for (auto& gr : grown) {
      Choices k = again;
      size_t b = AllocatedBytes();
      HostileOps(k, x, false);
      gr = AllocatedBytes() - b;
    }
    if (grown[0] && grown[1] && grown[2])
      x.Fail("leak", "allocated bytes grow by " + std::to_string(grown[2]) + " per repetition of the case although everything was destroyed");
  }
  x.Count("cases_balanced")++;
  (void)fuzz;
  Choices k = again;
  uint64_t h = 0;
  for (int i = 0; i < 8; ++i) h = Mix(h, k.Raw(8));
  x.Distinct(h);
  if (x.WantSample()) x.Sample("hostile call sequence " + std::to_string(h) + ": register/unescape/lookup with arbitrary bytes, allocations balanced");
}

Register r03("C03", RunC03, EnumC03), r04("C04", RunC04), r06("C06", RunC06), r07("C07", RunC07), r08("C08", RunC08), r11("C11", RunC11), r13("C13", RunC13);
}  // namespace
}  // namespace vp
