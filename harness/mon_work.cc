// Cost monitor: C12. Counts the work of each call with the meter and measures
// its stack, on a thread with a painted stack.
#include <pthread.h>
#include <unistd.h>

#include "gen_query.h"
#include "grpc_transcoding/http_template.h"
#include "meter.h"
#include "url_world.h"

namespace vp {
namespace {

constexpr size_t kStack = 1 << 20;

// Runs f on a fresh painted stack; returns the bytes of stack it used.
struct Job { std::function<void()> f; };
void* Tramp(void* p) { static_cast<Job*>(p)->f(); return nullptr; }
char* StackMem() {
  static char* m = [] {
    char* p = static_cast<char*>(mmap(nullptr, kStack + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(p, 65536, PROT_NONE);
    return p + 65536;
  }();
  return m;
}
size_t OnThread(std::function<void()> f) {
  char* st = StackMem();
  for (size_t i = 0; i < kStack; i += 8) *reinterpret_cast<uint64_t*>(st + i) = 0xa5a5a5a5a5a5a5a5ULL;
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, st, kStack);
  Job j{std::move(f)};
  pthread_t t;
  if (pthread_create(&t, &a, Tramp, &j)) { perror("pthread_create"); _exit(3); }
  pthread_join(t, nullptr);
  pthread_attr_destroy(&a);
  size_t i = 0;
  while (i < kStack && *reinterpret_cast<uint64_t*>(st + i) == 0xa5a5a5a5a5a5a5a5ULL) i += 8;
  return kStack - i;
}

std::string g_what;
uint64_t g_bound;
void Over() {
  // Far beyond the bound: stop here, the call may never return.
  HardViolation("work-bound-exceeded", "more than " + std::to_string(meter.work) + " units of work, bound " + std::to_string(g_bound) + ": " + g_what);
}
uint64_t Measure(uint64_t bound, const std::string& what, std::function<void()> f) {
  g_what = what;
  g_bound = bound;
  meter.work = meter.allocs = meter.alloc_bytes = 0;
  meter.limit = bound * 4 + 100000;
  meter.over = Over;
  meter.on = true;
  f();
  meter.on = false;
  return meter.work;
}

// The search space of a lookup: every (template prefix, request position) that
// the segments read so far allow, each weighted with the length of the segment
// that has to be compared next.
struct Trie {
  std::map<std::string, std::unique_ptr<Trie>> lit;
  std::unique_ptr<Trie> star, dstar;
};
std::unique_ptr<Trie> MakeTrie(const World& w) {
  auto root = std::make_unique<Trie>();
  for (auto& t : w.parsed) {
    if (!t) continue;
    Trie* n = root.get();
    for (auto& s : t->segs) {
      auto& c = s.k == ref::LIT ? n->lit[s.t] : s.k == ref::STAR ? n->star : n->dstar;
      if (!c) c = std::make_unique<Trie>();
      n = c.get();
    }
  }
  return root;
}
uint64_t SearchSpace(const Trie& root, const std::vector<std::string>& parts) {
  uint64_t cost = 0;
  auto one = [&](size_t i) { return 1 + (i < parts.size() ? parts[i].size() / 16 : 0); };
  // Every node is reached at one position only, except below "**".
  std::vector<std::pair<const Trie*, size_t>> todo = {{&root, 0}};
  while (!todo.empty()) {
    auto [n, i] = todo.back();
    todo.pop_back();
    cost += one(i);
    if (i == parts.size()) continue;
    auto it = n->lit.find(parts[i]);
    if (it != n->lit.end()) todo.emplace_back(it->second.get(), i + 1);
    if (n->star) todo.emplace_back(n->star.get(), i + 1);
    if (n->dstar)
      for (size_t k = i + 1; k <= parts.size(); ++k) {
        cost += one(k);
        if (k == parts.size()) break;
        auto jt = n->dstar->lit.find(parts[k]);
        if (jt != n->dstar->lit.end()) todo.emplace_back(jt->second.get(), k + 1);
      }
  }
  return cost;
}

// Work units allowed per unit of size. The unchanged code stays below a
// fourth of them on every workload here (see the counters max_*).
constexpr uint64_t kPerByte = 100, kPerState = 1500, kFix = 10000;

void CheckLookup(const World& w, const Trie& trie, const std::string& m, const std::string& p, const std::string& q, Ctx& x) {
  ref::Request rq = ref::Split(p, w.verbs, w.opt.AnyVerb());
  uint64_t len = m.size() + p.size() + q.size();
  uint64_t out = 0;
  for (size_t i = 0; i < w.specs.size(); ++i) if (w.parsed[i]) for (auto& v : w.parsed[i]->vars) { uint64_t o = 4; for (auto& s : v.path) o += 2 + s.size() / 8; out = std::max(out, o * w.parsed[i]->vars.size()); }
  uint64_t align = SearchSpace(trie, rq.parts);
  uint64_t bound = kFix + kPerByte * len + kPerState * align + 100 * out;
  Bindings b;
  std::string body;
  std::string what = ReqText(m, p.size() > 300 ? p.substr(0, 300) : p) + " of " + std::to_string(p.size()) + " bytes in " + std::to_string(rq.parts.size()) + " segments, query of " + std::to_string(q.size()) + " bytes, against routes " + w.Text().substr(0, 3000);
  SetNote(what);
  size_t stack = 0;
  uint64_t work = 0, work2 = 0;
  stack = OnThread([&] {
    work = Measure(bound, what, [&] { w.m->Lookup(m, p, q, &b, &body); });
    work2 = Measure(bound, what, [&] { w.m->Lookup(m, p); });
  });
  x.Count("lookups")++;
  x.Count("request_bytes") += len;
  x.Count("work_units") += work + work2;
  if (work * 100 / bound > x.Count("max_percent_of_bound")) x.Count("max_percent_of_bound") = work * 100 / bound;
  size_t deepest = 0;
  for (auto& t : w.parsed) if (t) deepest = std::max(deepest, t->segs.size());
  size_t stack_bound = 48 * 1024 + 1200 * deepest;
  if (stack > x.Count("max_stack_bytes")) x.Count("max_stack_bytes") = stack;
  if (getenv("VP_DEBUG_WORK") && work * 100 / bound > 30) fprintf(stderr, "work %lu bound %lu len %lu align %lu allocs %lu stack %zu %s\n", work, bound, len, align, meter.allocs, stack, what.substr(0, 600).c_str());
  if (work > bound || work2 > bound) x.Fail("work-bound-exceeded", std::to_string(std::max(work, work2)) + " units of work, bound " + std::to_string(bound) + ": " + what);
  if (stack > stack_bound) x.Fail("stack-bound-exceeded", std::to_string(stack) + " bytes of stack, bound " + std::to_string(stack_bound) + ": " + what);
  x.Distinct(Mix(HashBytes(p), work));
  if (x.WantSample()) x.Sample(std::to_string(work) + " units, bound " + std::to_string(bound) + ", stack " + std::to_string(stack) + ": " + what.substr(0, 500));
}

std::string Repeat(const std::string& s, size_t n) { std::string o; o.reserve(s.size() * n); while (n--) o += s; return o; }


void RunC12(Choices& c, Ctx& x) {
  World w;
  Pool pool = GenPool(c);
  pool.max_len = 300;
  struct R { std::string m, p, q; };
  std::vector<R> reqs;
  size_t big = c.P(1, 8) ? 60000 : 8000;
  switch (c.U(9)) {
    case 0: {  // all literal/star combinations: backtracking
      size_t d = 2 + c.U(8);
      size_t keep = 1 + c.U(4);
      std::string lit = "a";
      for (size_t v = 0; v < (size_t(1) << d); ++v) {
        if (keep < 3 && c.P(1, 3)) continue;
        std::string t;
        for (size_t i = 0; i < d; ++i) t += (v >> i) & 1 ? "/*" : "/" + lit;
        if (c.P(1, 3)) t += "/zz";
        w.Add({"GET", t, "", {}});
      }
      w.Add({"GET", "/b/**/" + lit, "", {}});
      for (size_t n : {d, d + 1, size_t(200), big}) reqs.push_back({c.P(1, 2) ? "GET" : "POST", Repeat("/" + lit, n), ""});
      break;
    }
    case 1: {  // '**' with long suffixes of equal literals
      for (size_t i = 1 + c.U(12); i-- > 0;) w.Add({"GET", "/" + Repeat("x/", c.U(2)) + "**" + Repeat("/a", 1 + c.U(40)) + "/b", "", {}});
      w.Add({"GET", "/**/" + Repeat("a/", 1 + c.U(30)) + "a", "", {}});
      reqs.push_back({"GET", Repeat("/a", big / 4) + (c.P(1, 2) ? "/b" : ""), ""});
      reqs.push_back({"GET", "/x" + Repeat("/a", 100) + "/c", ""});
      break;
    }
    case 2: {  // nothing but stars and double stars
      for (size_t i = 1; i < 2 + c.U(25); ++i) { w.Add({"GET", Repeat("/*", i), "", {}}); w.Add({"GET", Repeat("/*", i) + "/**", "", {}}); w.Add({"GET", Repeat("/*", i) + "/**/z", "", {}}); }
      reqs.push_back({"GET", Repeat("/" + GenText(c, 4), 3), ""});
      reqs.push_back({"GET", Repeat("/q", big / 10), ""});
      reqs.push_back({"POST", Repeat("/q", 40), ""});
      break;
    }
    case 3: {  // long captures, percent escapes
      w.opt = GenOptions(c);
      w.Add({"GET", "/{x=**}", "", {}});
      w.Add({"GET", "/a/{x=**}/b", "", {}});
      w.Add({"GET", "/a/{y}/{z=*/*}/{x=**}", "", {}});
      std::string e = GenEscape(c);
      for (auto& ch : e) if (ch == '?') ch = '%';
      reqs.push_back({"GET", "/" + Repeat(e, big), ""});
      reqs.push_back({"GET", Repeat("/" + NoSlash(e), big / 2), ""});
      reqs.push_back({"GET", "/a/b/" + Repeat("%2F/", big / 2) + "b", ""});
      reqs.push_back({"GET", Repeat("/", big), ""});
      reqs.push_back({"GET", "/a" + Repeat("/", big), ""});
      break;
    }
    case 4: {  // queries
      w.opt = GenOptions(c);
      RouteSpec r{"GET", "/a", "*", {}};
      for (size_t i = c.U(200); i-- > 0;) r.sys.insert("p" + std::to_string(i));
      w.Add(r);
      static const std::vector<std::string> unit = {"a=b&", "&", "=", "a.b=c&", ".", "a.", "p1=v&", "%41", "x=%41+&", "+", "a", "&=", "a&", "%", "x="};
      for (int i = 0; i < 4; ++i) reqs.push_back({"GET", "/a", c.P(1, 3) ? "k=" + Repeat(c.Pick(unit), big) : Repeat(c.Pick(unit), big) + (c.P(1, 2) ? "=v" : "")});
      break;
    }
    case 5: {  // verbs and colons
      for (size_t i = 0; i < 1 + c.U(150); ++i) w.Add({c.P(1, 3) ? "*" : "GET", (c.P(1, 2) ? "/**:v" : "/*/a:v") + std::to_string(i), "", {}});
      w.opt.any_verb = int(c.U(2));
      reqs.push_back({"GET", Repeat("/a:b", big / 4), ""});
      reqs.push_back({"GET", "/" + Repeat(":", big), ""});
      reqs.push_back({"GET", "/" + Repeat("a:v1", big / 4), ""});
      reqs.push_back({"GET", Repeat("/a", 500) + ":v1", ""});
      reqs.push_back({"GET", "/a?" + Repeat("/a:v1", big / 4), ""});
      break;
    }
    case 6: {  // many routes
      size_t n = 200 + c.U(1500);
      for (size_t i = 0; i < n; ++i) w.Add({GenMethod(c), "/v1/s" + std::to_string(i % 97) + "/{id}/" + (c.P(1, 2) ? "k" : "*") + "/m" + std::to_string(i), "", {}});
      for (int i = 0; i < 3; ++i) reqs.push_back({"GET", "/v1/s" + std::to_string(c.U(99)) + "/x/k/m" + std::to_string(c.U(n)), ""});
      break;
    }
    case 7: {  // deep templates
      size_t d = 50 + c.U(300);
      w.Add({"GET", Repeat("/a", d), "", {}});
      w.Add({"GET", Repeat("/*", d), "", {}});
      w.Add({"GET", Repeat("/a", d / 2) + "/**", "", {}});
      w.Add({"GET", Repeat("/a", d / 3) + "/**" + Repeat("/a", d / 3), "", {}});
      reqs.push_back({"GET", Repeat("/a", d), ""});
      reqs.push_back({"GET", Repeat("/a", d - 1) + "/b", ""});
      reqs.push_back({"GET", Repeat("/a", std::min<size_t>(big / 10, 4000)), ""});
      break;
    }
    default: {
      GenTemplateCfg g;
      g.dstar = unsigned(c.U(60));
      g.max_segs = 1 + c.U(7);
      FillWorld(c, w, pool, g, true, 30);
      w.opt = GenOptions(c);
      for (int i = 0; i < 4; ++i) reqs.push_back({PickMethod(c, w), GenPathFor(c, pool, PickTmpl(c, w), true), GenQuery(c)});
      break;
    }
  }
  w.Build();
  auto trie = MakeTrie(w);
  for (auto& r : reqs) CheckLookup(w, *trie, r.m, r.p, r.q, x);
  // template parsing and unescaping: linear
  if (c.P(1, 2)) {
    static const std::vector<std::string> unit = {"/a", "/*", "/{x}", "/{x=a/b}", "/{a.b.c=*}", "a", "{", "}", "/{x=", ".", "=", ":", "/", "**", "/a:", "{a.", "%41", "/{x=**}"};
    std::string t = (c.P(1, 3) ? "" : c.P(1, 2) ? "/{x=" : "/a") + Repeat(c.Pick(unit), 1 + c.U(big / 4)) + (c.P(1, 3) ? "/**" : c.P(1, 2) ? "}" : ":v");
    std::string what = "parsing a template of " + std::to_string(t.size()) + " bytes: " + Show(t, 60);
    SetNote(what);
    uint64_t bound = kFix + kPerByte * t.size(), work = 0;
    std::unique_ptr<gt::HttpTemplate> h;
    size_t stack = OnThread([&] { work = Measure(bound, what, [&] { h = gt::HttpTemplate::Parse(t); }); });
    x.Count("templates")++;
    if (work * 100 / bound > x.Count("max_percent_of_bound_template")) x.Count("max_percent_of_bound_template") = work * 100 / bound;
    if (work > bound) x.Fail("work-bound-exceeded", std::to_string(work) + " units of work, bound " + std::to_string(bound) + ": " + what);
    if (stack > 64 * 1024) x.Fail("stack-bound-exceeded", std::to_string(stack) + " bytes of stack: " + what);
    std::string e;
    for (size_t i = 0; i < 6; ++i) e += GenEscape(c);
    e = Repeat(e, 1 + c.U(big / 8));
    what = "unescaping " + std::to_string(e.size()) + " bytes: " + Show(e, 60);
    bound = kFix + kPerByte * e.size();
    auto sp = gt::UrlUnescapeSpec(c.U(3));
    bool plus = c.P(1, 2);
    stack = OnThread([&] { work = Measure(bound, what, [&] { gt::UrlUnescapeString(AV(e), sp, plus); }); });
    x.Count("unescapes")++;
    if (work * 100 / bound > x.Count("max_percent_of_bound_unescape")) x.Count("max_percent_of_bound_unescape") = work * 100 / bound;
    if (work > bound) x.Fail("work-bound-exceeded", std::to_string(work) + " units of work, bound " + std::to_string(bound) + ": " + what);
    if (stack > 64 * 1024) x.Fail("stack-bound-exceeded", std::to_string(stack) + " bytes of stack: " + what);
  }
}
Register r12("C12", RunC12);
}  // namespace
}  // namespace vp
