// Lookup purity and thread safety monitor: C10. Built twice: with
// ASan/UBSan (histories in one thread) and with TSan (threads).
#include <sched.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "gen_query.h"
#include "url_world.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif

namespace vp {
namespace {

struct Req { std::string m, p, q; };
struct Ans {
  int route;
  std::vector<ref::Binding> b;
  std::string body;
  bool operator==(const Ans& o) const { return route == o.route && b == o.b && body == o.body; }
};
// form 0: full, 1: short (route only), 2: null outputs
Ans Ask(const World& w, const Req& r, int form) {
  Bindings b;
  Ans a;
  Method m;
  if (form == 0) m = w.m->Lookup(r.m, r.p, r.q, &b, &a.body);
  else if (form == 1) m = w.m->Lookup(r.m, r.p);
  else m = w.m->Lookup(r.m, r.p, r.q, nullptr, nullptr);
  a.route = w.IndexOf(m);
  a.b = ToRef(b);
  return a;
}
std::string ShowAns(const World& w, const Ans& a) { return RouteText(w, a.route) + " " + ShowB(a.b) + " body " + Show(a.body); }

void GenTable(Choices& c, World& w, const Pool& pool) {
  w.opt = GenOptions(c);
  w.opt.any_verb = c.P(1, 6) ? 1 : -1;
  GenTemplateCfg g;
  g.dstar = unsigned(c.U(50));
  g.verb = c.P(1, 3) ? 30 : 0;
  g.max_segs = 2 + c.U(5);
  FillWorld(c, w, pool, g, c.P(1, 4), 10);
  for (auto& s : w.specs) if (c.P(1, 3)) s.sys = {"key", "x"};
}
std::vector<Req> GenReqs(Choices& c, const World& w, const Pool& pool) {
  std::vector<Req> r;
  size_t n = 2 + c.U(14);
  for (size_t i = 0; i < n; ++i) {
    if (i && c.P(1, 3)) {  // close relatives: the same with another method, query, verb
      Req q = r[c.U(r.size())];
      switch (c.U(5)) {
        case 0: q.m = GenMethod(c); break;
        case 1: q.q = GenQuery(c); break;
        case 2: q.p += c.P(1, 2) ? "/" : ":" + GenVerb(c); break;
        case 3: q.p += "?" + GenText(c, 10); break;
        default: q.p = q.p + "/" + GenSegment(c, pool); break;
      }
      r.push_back(q);
      continue;
    }
    r.push_back({PickMethod(c, w), GenPathFor(c, pool, PickTmpl(c, w), true), c.P(1, 2) ? GenQuery(c) : ""});
  }
  return r;
}
// The answers of matchers that never saw another request.
std::vector<Ans> Fresh(const World& w, const std::vector<Req>& rs) {
  std::vector<Ans> out;
  for (auto& r : rs) {
    World f;
    f.opt = w.opt;
    for (auto& s : w.specs) f.Add(s);
    f.Build();
    out.push_back(Ask(f, r, 0));
  }
  return out;
}

#ifndef VP_TSAN
// A matcher that may be taken down and put up again, with one route of its
// table missing or not (so that what held for the one before does not hold).
struct Slot {
  std::unique_ptr<World> full[2];
  std::vector<Ans> want[2];
  std::unique_ptr<World> live;
  int which = 0;
  void Up(int v) {
    live = nullptr;
    auto f = std::make_unique<World>();
    f->opt = full[v]->opt;
    for (auto& s : full[v]->specs) f->Add(s);
    f->Build();
    live = std::move(f);
    which = v;
  }
};
void RunC10(Choices& c, Ctx& x) {
  Pool pool = GenPool(c);
  size_t k = c.P(1, 3) ? 2 + c.U(2) : 1;
  std::vector<Slot> ws(k);
  std::vector<std::vector<Req>> rs;
  for (size_t i = 0; i < k; ++i) {
    auto& w = *(ws[i].full[0] = std::make_unique<World>());
    if (i && c.P(1, 3)) { w.opt = ws[0].full[0]->opt; for (auto& s : ws[0].full[0]->specs) if (!c.P(1, 4)) w.Add(s); }
    else GenTable(c, w, pool);
    if (w.specs.size() > 60) return;
    SetNote(w.Text());
    auto& v = *(ws[i].full[1] = std::make_unique<World>());
    v.opt = w.opt;
    size_t out = c.U(w.specs.size() + 1);
    for (size_t j = 0; j < w.specs.size(); ++j) if (j != out) v.Add(w.specs[j]);
    rs.push_back(GenReqs(c, w, pool));
    if (i && c.P(1, 2)) rs[i] = rs[0];  // the same requests to another table
    for (int j = 0; j < 2; ++j) ws[i].want[j] = Fresh(*ws[i].full[j], rs[i]);
    ws[i].Up(int(c.U(2)));
  }
  size_t n = 10 + c.U(60);
  if (c.P(1, 100)) n = 500 + c.U(2000);
  if (!c.fuzz() && c.P(1, 4000)) n = 70000;
  uint64_t h = 0;
  size_t t = 0, j = 0;
  for (size_t i = 0; i < n; ++i) {
    bool again = i && c.P(1, 4);
    if (!again) { t = c.U(k); j = c.U(rs[t].size()); }
    if (c.P(1, again ? 4 : 40)) {
      ws[t].Up(c.P(3, 4) ? 1 - ws[t].which : ws[t].which);
      x.Count("matchers_replaced")++;
    }
    auto& w = ws[t];
    const Ans& want = w.want[w.which][j];
    int form = int(c.U(4));
    if (form == 3) form = 0;
    Ans a = Ask(*w.live, rs[t][j], form);
    h = Mix(h, t * 100 + j * 4 + size_t(form) + 10000 * size_t(w.which));
    x.Count("lookups")++;
    bool same = form == 0 ? a == want : a.route == want.route;
    if (a.route >= 0) x.Count("matched")++;
    if (!same)
      x.Fail("history-dependent", "lookup number " + std::to_string(i + 1) + " of the history (form " + std::to_string(form) + "): " + ReqText(rs[t][j].m, rs[t][j].p, rs[t][j].q) + "\nthe answer of a fresh matcher is " + ShowAns(*w.live, want) + "\nreturned " + ShowAns(*w.live, a) + "\nroutes: " + w.live->Text());
  }
  // A crowd of different requests, each of them a relative of a known one;
  // then the known ones and some of the crowd again.
  if (c.P(1, c.fuzz() ? 2000 : 220)) {
    size_t crowd = !c.fuzz() && c.P(1, 25) ? 66000 : 300 + c.U(c.P(1, 4) ? 6000 : 1500);
    auto ask = [&](const Req& r, size_t known, bool judge) {
      Ans a = Ask(*ws[t].live, r, 0);
      x.Count("lookups")++;
      if (a.route >= 0) x.Count("matched")++;
      if (!judge) return;
      Ans want;
      if (known < rs[t].size()) want = ws[t].want[ws[t].which][known];
      else want = Fresh(*ws[t].full[ws[t].which], {r})[0];
      if (!(a == want))
        x.Fail("history-dependent", "behind a crowd of up to " + std::to_string(crowd) + " different requests: " + ReqText(r.m, r.p, r.q) + "\nthe answer of a fresh matcher is " + ShowAns(*ws[t].live, want) + "\nreturned " + ShowAns(*ws[t].live, a) + "\nroutes: " + ws[t].live->Text());
    };
    t = c.U(k);
    std::vector<Req> kept;
    unsigned kind = unsigned(c.U(5));
    for (size_t i = 0; i < crowd; ++i) {
      Req r = rs[t][c.U(rs[t].size())];
      std::string no = std::to_string(i);
      unsigned how = kind < 4 ? kind : unsigned(c.U(4));
      if (how == 0) r.p += no;
      else if (how == 1) r.p += "/" + no;
      else if (how == 2) { size_t at = r.p.find('/', 1); if (at == r.p.npos) r.p += no; else r.p.insert(at, no); }
      else r.q += "&n=" + no;
      bool keep = c.P(1, 1 + crowd / 60);
      ask(r, size_t(-1), keep && c.P(1, 3));
      if (keep) kept.push_back(r);
      if (c.P(1, 1 + crowd / 60)) { size_t q = c.U(rs[t].size()); ask(rs[t][q], q, true); }
    }
    for (size_t q = 0; q < rs[t].size(); ++q) ask(rs[t][q], q, true);
    for (auto& r : kept) ask(r, size_t(-1), true);
    x.Count("crowds")++;
    h = Mix(h, crowd);
  }
  x.Distinct(h);
  if (k > 1 && x.WantSample()) x.Sample("history of " + std::to_string(n) + " lookups over " + std::to_string(k) + " matchers, " + std::to_string(rs[0].size()) + " requests on the first");
}
#else
void RunC10(Choices& c, Ctx& x) {
  Pool pool = GenPool(c);
  size_t k = 1 + c.U(2);
  std::vector<std::unique_ptr<World>> ws;
  std::vector<std::vector<Req>> rs;
  std::vector<std::vector<Ans>> want;
  for (size_t i = 0; i < k; ++i) {
    ws.push_back(std::make_unique<World>());
    GenTable(c, *ws[i], pool);
    if (ws[i]->specs.size() > 60) return;
    rs.push_back(GenReqs(c, *ws[i], pool));
    want.push_back(Fresh(*ws[i], rs[i]));
    ws[i]->Build();
  }
  SetNote(ws[0]->Text());
  size_t threads = 2 + c.U(6);
  bool build_too = c.P(1, 2);
  std::atomic<size_t> ready{0}, started{0};
  std::atomic<bool> bad{false};
  std::mutex mu;
  std::string msg;
  std::atomic<uint64_t> total{0}, overlapped{0}, active{0};
  std::vector<std::thread> pool_t;
  uint64_t base = c.Raw(8);
  size_t per = 12 + c.U(30);
  for (size_t t = 0; t < threads; ++t)
    pool_t.emplace_back([&, t] {
      Choices r(Mix(base, t));
      std::unique_ptr<World> own;
      ready++;
      while (ready.load(std::memory_order_relaxed) < threads) {}
      for (size_t i = 0; i < per; ++i) {
        size_t w = r.U(k), j = r.U(rs[w].size());
        const World* use = ws[w].get();
        if (build_too && t == 0 && i % 8 == 0) {  // build another matcher meanwhile
          own = std::make_unique<World>();
          own->opt = ws[w]->opt;
          for (auto& s : ws[w]->specs) own->Add(s);
          own->Build();
          use = own.get();
        }
        if (r.P(1, 4)) sched_yield();
        int form = int(r.U(4));
        if (form == 3) form = 0;
        // relaxed: must not order the lookups of different threads
        uint64_t others = active.fetch_add(1, std::memory_order_relaxed);
        Ans a = Ask(*use, rs[w][j], form);
        active.fetch_sub(1, std::memory_order_relaxed);
        if (others) overlapped.fetch_add(1, std::memory_order_relaxed);
        total.fetch_add(1, std::memory_order_relaxed);
        bool same = form == 0 ? a == want[w][j] : a.route == want[w][j].route;
        if (!same && !bad.exchange(true)) {
          std::lock_guard<std::mutex> l(mu);
          msg = ReqText(rs[w][j].m, rs[w][j].p, rs[w][j].q) + " form " + std::to_string(form) + "\nsingle-threaded " + ShowAns(*use, want[w][j]) + "\nconcurrently " + ShowAns(*use, a) + "\nroutes: " + use->Text();
        }
      }
    });
  for (auto& t : pool_t) t.join();
  x.Count("concurrent_lookups") += total;
  x.Count("overlapping_lookups") += overlapped;
  x.Count("threads") += threads;
  if (bad) x.Fail("wrong-answer-under-concurrency", msg);
  x.Distinct(Mix(base, overlapped));
  if (x.WantSample()) x.Sample(std::to_string(threads) + " threads, " + std::to_string(total) + " lookups (" + std::to_string(overlapped) + " overlapping) on " + std::to_string(k) + " shared matchers" + (build_too ? " while others are built" : ""));
}
#endif
Register r10("C10", RunC10);
}  // namespace
}  // namespace vp
