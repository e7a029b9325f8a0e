// Many at once: C36. Readers, adapters, translators, matchers and templates
// are run one after the other, then interleaved step by step in one thread
// (ASan build) or spread over threads (TSan build); what each of them answers
// must be the same every time. All share the type helpers and one matcher.
#include <atomic>
#include <thread>

#include "doc_gen.h"
#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/percent_encoding.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "pieces.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif

namespace vp {
namespace {
using Matcher = gt::PathMatcher<const int*>;
using Builder = gt::PathMatcherBuilder<const int*>;

struct Route { std::string method, tmpl, body; };
struct Spec {
  int kind = 0;
  std::vector<std::string> data;  // pieces, messages, requests, paths, strings
  std::vector<uint8_t> plan;      // what each step does
  Req q;
  std::vector<Route> routes;
  int opt = 0;
  bool shared = false;
  bool close = true;
  size_t limit = 0;  // steps after which it is dropped
};
const int kIds[64] = {};

void Put(std::string& log, const absl::Status& s) { log += s.ok() ? "ok;" : std::to_string(int(s.code())) + ":" + std::string(s.message()) + ";"; }

class Job {
 public:
  explicit Job(const Spec& s) : s_(s) {}
  virtual ~Job() {}
  // Step i; false at the end.
  bool Step(std::string& log) {
    if (i_ >= s_.plan.size() || i_ >= s_.limit) return false;
    Do(s_.plan[i_], log);
    ++i_;
    return true;
  }

 protected:
  virtual void Do(uint8_t op, std::string& log) = 0;
  const std::string* Take() { return at_ < s_.data.size() ? &s_.data[at_++] : nullptr; }
  const Spec& s_;
  size_t i_ = 0, at_ = 0;
};

class ReadJob : public Job {
 public:
  explicit ReadJob(const Spec& s) : Job(s), r_(&in_) {}
  void Do(uint8_t op, std::string& log) override {
    switch (op % 4) {
      case 0: {
        auto* p = Take();
        if (p) in_.Give(*p); else if (s_.close) in_.closed = true;
        break;
      }
      case 1: case 2: {
        if (m_) {  // the message is read first, in parts
          const void* d; int n;
          if (!m_->Next(&d, &n)) { m_.reset(); log += "end;"; break; }
          if (n > 3 && op & 64) { m_->BackUp(n / 2); n -= n / 2; }
          log.append(static_cast<const char*>(d), size_t(n));
          break;
        }
        if (op & 32) {
          auto f = r_.NextMessageAndGrpcFrame();
          m_ = std::move(f.message);
          if (m_) { log.append(reinterpret_cast<const char*>(f.grpc_frame), 5); log += std::to_string(f.message_size); }
        } else {
          m_ = r_.NextMessage();
        }
        log += m_ ? "M;" : "-;";
        break;
      }
      default:
        if (!m_) { log += r_.Finished() ? "F" : "f"; Put(log, r_.Status()); }
    }
  }
  Pieces in_;
  gt::MessageReader r_;
  std::unique_ptr<pb::io::ZeroCopyInputStream> m_;
};
class StreamJob : public Job {
 public:
  struct Src : gt::MessageStream {
    std::deque<std::string> q;
    bool closed = false;
    bool NextMessage(std::string* m) override { if (q.empty()) return false; *m = q.front(); q.pop_front(); return true; }
    bool Finished() const override { return closed && q.empty(); }
    absl::Status Status() const override { return absl::OkStatus(); }
  } src_;
  explicit StreamJob(const Spec& s) : Job(s), in_(src_.CreateInputStream()) {}
  void Do(uint8_t op, std::string& log) override {
    switch (op % 4) {
      case 0: { auto* p = Take(); if (p) src_.q.push_back(*p); else if (s_.close) src_.closed = true; break; }
      case 1: case 2: {
        const void* d = nullptr; int n = 0;
        bool ok = in_->Next(&d, &n);
        log += ok ? "n" : "N";
        if (ok && n > 0) {
          log.append(static_cast<const char*>(d), size_t(n));
          if (op & 64) in_->BackUp(1 + n / 3);
        }
        break;
      }
      default: log += std::to_string(in_->BytesAvailable()) + (in_->Finished() ? "F" : "f");
    }
  }
  std::unique_ptr<gt::TranscoderInputStream> in_;
};
class RequestJob : public Job {
 public:
  explicit RequestJob(const Spec& s) : Job(s) {
    auto& q = s.q;
    auto& h = *TheWorld().h[q.helper];
    gt::RequestInfo info;
    info.message_type = h.Info()->GetTypeByTypeUrl(Url(q.type));
    info.body_field_path = q.body;
    info.reject_binding_body_field_collisions = q.reject;
    info.case_insensitive_enum_parsing = q.ci;
    for (auto& b : q.binds) info.variable_bindings.push_back({Fields(h, q.type, b.path), b.text});
    t_ = std::make_unique<gt::JsonRequestTranslator>(h.Resolver(), &in_, std::move(info), q.streaming, q.delim);
    if (s.opt & 1) bytes_ = t_->Output().CreateInputStream();
  }
  void Do(uint8_t op, std::string& log) override {
    switch (op % 4) {
      case 0: { auto* p = Take(); if (p) in_.Give(*p); else if (s_.close) in_.closed = true; break; }
      case 1: case 2: {
        if (bytes_) {
          const void* d = nullptr; int n = 0;
          bool ok = bytes_->Next(&d, &n);
          log += ok ? "n" : "N";
          if (ok && n > 0) log.append(static_cast<const char*>(d), size_t(n));
          break;
        }
        std::string m = "old";
        if (t_->Output().NextMessage(&m)) log += "M" + m + ";"; else log += "-";
        break;
      }
      default:
        log += t_->Output().Finished() ? "F" : "f";
        Put(log, t_->Output().Status());
    }
  }
  Pieces in_;
  std::unique_ptr<gt::JsonRequestTranslator> t_;
  std::unique_ptr<gt::TranscoderInputStream> bytes_;
};
class ResponseJob : public Job {
 public:
  explicit ResponseJob(const Spec& s) : Job(s) {
    gt::JsonResponseTranslateOptions o;
    o.stream_newline_delimited = s.opt & 1;
    o.json_print_options.add_whitespace = s.opt & 2;
    o.json_print_options.preserve_proto_field_names = s.opt & 4;
    o.json_print_options.always_print_primitive_fields = s.opt & 8;
    o.json_print_options.always_print_enums_as_ints = s.opt & 16;
    t_ = std::make_unique<gt::ResponseToJsonTranslator>(TheWorld().h[s.q.helper]->Resolver(), Url(s.q.type), s.q.streaming, &in_, o);
  }
  void Do(uint8_t op, std::string& log) override {
    switch (op % 4) {
      case 0: { auto* p = Take(); if (p) in_.Give(*p); else if (s_.close) in_.closed = true; break; }
      case 1: case 2: {
        std::string m = "old";
        if (t_->NextMessage(&m)) log += "M" + m + ";"; else log += "-";
        break;
      }
      default:
        log += t_->Finished() ? "F" : "f";
        Put(log, t_->Status());
    }
  }
  Pieces in_;
  std::unique_ptr<gt::ResponseToJsonTranslator> t_;
};
std::unique_ptr<Matcher> MakeMatcher(const Spec& s, std::string* log) {
  Builder b;
  b.SetMatchUnregisteredCustomVerb(s.opt & 1);
  b.SetQueryParamUnescapePlus(s.opt & 2);
  b.SetFailRegistrationOnDuplicate(s.opt & 4);
  b.SetUrlUnescapeSpec(s.opt & 8 ? gt::UrlUnescapeSpec::kAllCharacters : s.opt & 16 ? gt::UrlUnescapeSpec::kAllCharactersExceptSlash : gt::UrlUnescapeSpec::kAllCharactersExceptReserved);
  size_t i = 0;
  for (auto& r : s.routes) {
    bool ok = b.Register(r.method, r.tmpl, r.body, {"key"}, &kIds[i++ % 64]);
    if (log) *log += ok ? "R" : "r";
  }
  return b.Build();
}
class MatchJob : public Job {
 public:
  MatchJob(const Spec& s, const Matcher* m) : Job(s), m_(m) {}
  void Do(uint8_t op, std::string& log) override {
    if (!m_) { own_ = MakeMatcher(s_, &log); m_ = own_.get(); }
    auto& p = s_.data[op % s_.data.size()];
    size_t k = p.find('?');
    const char* method = op & 32 ? "GET" : "POST";
    if (op & 64) { auto* r = m_->Lookup(method, p); log += r ? std::to_string(r - kIds) : "x"; return; }
    std::vector<gt::VariableBinding> v;
    std::string body = "old";
    auto* r = m_->Lookup(method, p.substr(0, k), k == p.npos ? "" : p.substr(k + 1), &v, &body);
    log += r ? std::to_string(r - kIds) : "x";
    if (!r) return;
    log += body;
    for (auto& b : v) { for (auto& f : b.field_path) log += "." + f; log += "=" + b.value + ";"; }
  }
  const Matcher* m_;
  std::unique_ptr<Matcher> own_;
};
class FieldJob : public Job {
 public:
  explicit FieldJob(const Spec& s) : Job(s) {
    if (s.opt & 1) own_ = std::make_unique<gt::TypeHelper>(TheWorld().types, TheWorld().enums);
  }
  void Do(uint8_t op, std::string& log) override {
    auto& h = own_ ? *own_ : *TheWorld().h[s_.q.helper];
    auto* t = h.Info()->GetTypeByTypeUrl(Url(s_.q.type));
    auto& p = s_.data[op % s_.data.size()];
    std::vector<const pb::Field*> out;
    auto st = h.ResolveFieldPath(*t, p, &out);
    log += st.ok() ? "ok" : "no";
    for (auto* f : out) log += "." + f->name() + std::to_string(f->number());
    auto* f = h.Info()->FindField(t, p);
    log += f ? f->name() : "-";
  }
  std::unique_ptr<gt::TypeHelper> own_;
};
class TextJob : public Job {
 public:
  using Job::Job;
  void Do(uint8_t op, std::string& log) override {
    auto& p = s_.data[op % s_.data.size()];
    if (op & 32) {
      auto spec = op & 64 ? gt::UrlUnescapeSpec::kAllCharacters : gt::UrlUnescapeSpec::kAllCharactersExceptReserved;
      log += gt::UrlUnescapeString(p, spec, op & 128) + (gt::IsUrlEscapedString(p, spec, op & 128) ? "E" : "e");
      return;
    }
    auto t = gt::HttpTemplate::Parse(p);
    if (!t) { log += "bad;"; return; }
    for (auto& g : t->segments()) log += g + "/";
    log += ":" + t->verb();
    for (auto& v : t->Variables()) {
      for (auto& f : v.field_path) log += "." + f;
      log += std::to_string(v.start_segment) + "," + std::to_string(v.end_segment) + (v.has_wildcard_path ? "w" : "") + ";";
    }
  }
};

std::unique_ptr<Job> Start(const Spec& s, const Matcher* shared) {
  switch (s.kind) {
    case 0: return std::make_unique<ReadJob>(s);
    case 1: return std::make_unique<StreamJob>(s);
    case 2: return std::make_unique<RequestJob>(s);
    case 3: return std::make_unique<ResponseJob>(s);
    case 4: return std::make_unique<MatchJob>(s, s.shared ? shared : nullptr);
    case 5: return std::make_unique<FieldJob>(s);
    default: return std::make_unique<TextJob>(s);
  }
}
const char* const kName[] = {"frame reader", "stream adapter", "request translator", "response translator", "matcher", "type helper", "template and unescaping"};

std::string FrameOf(const std::string& p) {
  std::string h(5, '\0');
  for (int i = 0; i < 4; ++i) h[size_t(4 - i)] = char(p.size() >> (8 * i) & 255);
  return h + p;
}
void Cut(Choices& c, const std::string& s, std::vector<std::string>* out) {
  size_t step = c.P(1, 4) ? s.size() : 1 + c.U(s.size() / (1 + c.U(5)) + 2);
  for (size_t i = 0; i < s.size();) {
    size_t n = std::min(s.size() - i, step <= 1 ? 1 : 1 + c.U(2 * step));
    out->push_back(s.substr(i, n));
    i += n;
  }
}
// A plan that feeds all data and polls in between and afterwards.
void Plan(Choices& c, Spec* s, size_t polls) {
  unsigned eager = 1 + unsigned(c.U(4));
  size_t feeds = s->data.size() + (s->close ? 1 : 0);
  for (size_t k = 0; k < feeds; ++k) {
    s->plan.push_back(uint8_t(c.Raw(1) & ~3u));
    for (size_t n = c.U(eager); n--;) s->plan.push_back(uint8_t(c.Raw(1) | 1));
  }
  for (size_t n = polls; n--;) s->plan.push_back(uint8_t(c.Raw(1) | 1));
}
std::string RandomPath(Choices& c) {
  static const char* const kSeg[] = {"a", "b", "c", "x%2Fy", "a%20b", "%41", "v:go", "d:stop", "", "long-segment-beyond-the-small-string", "%2525", "+"};
  std::string p;
  for (size_t n = 1 + c.U(5); n--;) p += std::string("/") + kSeg[c.U(12)];
  if (c.P(1, 3)) p += std::string("?k=") + kSeg[c.U(12)] + "&key=1&m.n=" + kSeg[c.U(12)];
  return p;
}
void GenRoutes(Choices& c, std::vector<Route>* out) {
  static const char* const kT[] = {"/a/{x}", "/a/{x.y=b/*}/c", "/{all=**}", "/a/*/b", "/**/c", "/b/{p=a/**}/c", "/{q}:go", "/a/{x}:go", "/b/{r}/{s}", "/c/{t=**}:stop", "/a/b", "/{u}/{v}/{w}", "/a/{broken", "/long-segment-beyond-the-small-string/{z}"};
  static const char* const kM[] = {"GET", "GET", "POST", "*"};
  static const char* const kB[] = {"", "*", "body", "body.part"};
  for (size_t n = 1 + c.U(20); n--;) out->push_back({kM[c.U(4)], kT[c.U(14)], kB[c.U(4)]});
}
Spec GenSpec(Choices& c) {
  Spec s;
  static const uint8_t kKind[] = {0, 1, 2, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6};
  s.kind = kKind[c.U(13)];
  s.close = c.P(5, 6);
  s.opt = int(c.U(32));
  s.q.type = c.P(1, 2) ? Leaf::descriptor() : Node::descriptor();
  s.q.helper = int(c.U(2));
  MsgOpt mo;
  mo.den = 8;
  switch (s.kind) {
    case 0: case 3: {
      std::string all;
      s.q.streaming = c.P(4, 5);
      for (size_t n = c.U(5) + (s.q.streaming ? 0 : 1); n--;) {
        std::string p;
        if (!c.P(1, 6)) { auto m = New(s.q.type); FillMessage(m.get(), c, mo, 1); m->SerializeToString(&p); }
        if (s.kind == 0 && c.P(1, 4)) p = c.Bytes(c.U(300));
        all += FrameOf(p);
        if (!s.q.streaming) break;
      }
      if (!all.empty() && c.P(1, 5)) {
        if (c.P(1, 2)) all.resize(c.U(all.size())); else all[s.kind == 0 ? c.U(5) : 0] ^= char(1 << c.U(3));
      }
      Cut(c, all, &s.data);
      Plan(c, &s, 3 + c.U(20));
      break;
    }
    case 1:
      for (size_t n = c.U(12); n--;) s.data.push_back(c.P(1, 4) ? "" : c.Bytes(1 + c.U(60)));
      Plan(c, &s, 3 + c.U(20));
      break;
    case 2: {
      DocGen g;
      g.Choose(c, c.P(1, 2));
      g.mo.den = 8;
      g.mo.text = 12;
      JsonOut j(c);
      std::string all;
      if (g.q.streaming) {
        all = "[";
        for (size_t n = c.U(5), k = 0; k < n; ++k) {
          Doc d = g.Make(c, j, 1);
          if (k == 0) g.AddBinds(c, d.want.get(), 3);
          all += (k ? "," : "") + d.json;
        }
        all += "]";
      } else {
        Doc d = g.Make(c, j, 2);
        g.AddBinds(c, d.want.get(), 3);
        all = d.json;
      }
      if (!all.empty() && c.P(1, 4)) {
        if (c.P(1, 2)) all.resize(c.U(all.size())); else all[c.U(all.size())] = "\"{}[],:x0\xff"[c.U(10)];
      }
      g.q.reject = c.P(1, 3);
      s.q = g.q;
      Cut(c, all, &s.data);
      Plan(c, &s, 3 + c.U(12));
      break;
    }
    case 4:
      s.shared = c.P(1, 2);
      GenRoutes(c, &s.routes);
      for (size_t n = 1 + c.U(8); n--;) s.data.push_back(RandomPath(c));
      for (size_t n = 1 + c.U(20); n--;) s.plan.push_back(uint8_t(c.Raw(1)));
      break;
    case 5: {
      static const char* const kF[] = {"leafName", "leaf_name", "nums", "leafOne.leafName", "leaf_one.nope", "childNode.child_node.leafTwo.nextLeaf.raw", "strVal.x", "", "leafTags", "str%56al", "i64", "next_leaf.next_leaf.nextLeaf.small"};
      for (size_t n = 1 + c.U(8); n--;) s.data.push_back(kF[c.U(12)]);
      for (size_t n = 1 + c.U(20); n--;) s.plan.push_back(uint8_t(c.Raw(1)));
      break;
    }
    default: {
      static const char* const kS[] = {"/a/{x=b/*}/**:go", "/{a.b.c=**}", "%41%42", "a+b%2f%2F", "/a/{x", "/", "%%41", "/x/{y}/{z=w/**}/q", "plain", "/a:b:c", "%2525"};
      for (size_t n = 1 + c.U(8); n--;) s.data.push_back(kS[c.U(11)] + std::string(c.P(1, 4) ? c.U(40) : 0, 'm'));
      for (size_t n = 1 + c.U(30); n--;) s.plan.push_back(uint8_t(c.Raw(1)));
    }
  }
  s.limit = c.P(1, 5) ? c.U(s.plan.size() + 1) : s.plan.size();  // some are dropped half way
  return s;
}
// Nearly the same once more: what is remembered under too small a key shows.
Spec Twin(Choices& c, Spec s) {
  switch (c.U(6)) {
    case 0: if (!s.data.empty() && s.kind != 3) {  // (the library does not end on every damaged payload)
      auto& d = s.data[c.U(s.data.size())]; if (!d.empty()) d[c.U(d.size())] ^= 1; } break;
    case 1: s.opt ^= 1 << c.U(5); break;
    case 2: s.q.reject = !s.q.reject; s.q.ci = !s.q.ci; break;
    case 3: for (auto& b : s.q.binds) if (!b.text.empty()) b.text[0] ^= 1; break;
    case 4: s.q.delim = !s.q.delim; break;
    default: s.q.helper ^= 1;
  }
  if (s.kind == 2 && c.P(1, 4)) s.q.binds.clear();
  return s;
}

void RunC36(Choices& c, Ctx& x) {
  TheWorld();
  size_t n = 2 + c.U(c.P(1, 5) ? 14 : 5);
  std::vector<Spec> specs;
  for (size_t i = 0; i < n; ++i) specs.push_back(i && c.P(1, 3) ? Twin(c, specs[c.U(i)]) : GenSpec(c));
  Spec base;
  base.opt = int(c.U(16));
  GenRoutes(c, &base.routes);
  auto shared = MakeMatcher(base, nullptr);
  std::string note = std::to_string(n) + " at once:";
  for (auto& s : specs) note += std::string(" ") + kName[s.kind] + (s.kind == 2 ? " (" + Text(s.q).substr(0, 120) + ")" : "") + ";";
  SetNote(note);
  std::vector<std::string> alone(n);
  size_t steps = 0;
  for (size_t i = 0; i < n; ++i) {
    auto j = Start(specs[i], shared.get());
    while (j->Step(alone[i])) ++steps;
  }
  auto judge = [&](size_t i, const std::string& got, const char* how) {
    if (got == alone[i]) return;
    size_t k = 0;
    while (k < got.size() && k < alone[i].size() && got[k] == alone[i][k]) ++k;
    std::string in;
    for (auto& d : specs[i].data) in += Show(d, 300) + " ";
    x.Fail("depends-on-others", std::string(kName[specs[i].kind]) + " (number " + std::to_string(i) + " of " + std::to_string(n) + "), " + how + ": answers differ from those alone from byte " + std::to_string(k) + "\n  alone  " + Show(alone[i].substr(k > 20 ? k - 20 : 0), 300) + "\n  now    " + Show(got.substr(k > 20 ? k - 20 : 0), 300) + "\n  input  " + in.substr(0, 2000) + "\n" + note);
  };
#ifndef VP_TSAN
  {  // interleaved
    std::vector<std::unique_ptr<Job>> jobs(n);
    std::vector<std::string> log(n);
    std::vector<size_t> live(n);
    for (size_t i = 0; i < n; ++i) live[i] = i;
    size_t switches = 0, last = n;
    unsigned stay = 1 + unsigned(c.U(4));
    while (!live.empty()) {
      size_t k = c.U(live.size()), i = live[k];
      if (i != last) ++switches;
      last = i;
      if (!jobs[i]) jobs[i] = Start(specs[i], shared.get());
      for (unsigned r = 1 + unsigned(c.U(stay)); r--;)
        if (!jobs[i]->Step(log[i])) { jobs[i].reset(); live.erase(live.begin() + long(k)); break; }
    }
    x.Count("switches") += switches;
    for (size_t i = 0; i < n; ++i) judge(i, log[i], "interleaved with the others");
  }
  for (size_t i = n; i--;) {  // in the other order
    auto j = Start(specs[i], shared.get());
    std::string log;
    while (j->Step(log)) {}
    judge(i, log, "after the others");
  }
#else
  {
    size_t threads = 2 + c.U(5);
    uint64_t seed = c.Raw(8);
    std::vector<std::vector<std::string>> log(threads, std::vector<std::string>(n));
    std::vector<std::vector<size_t>> mine(threads);
    for (size_t t = 0; t < threads; ++t)
      for (size_t i = 0; i < n; ++i) if (i % threads == t || c.P(1, 2)) mine[t].push_back(i);
    std::atomic<size_t> ready{0};
    std::atomic<uint64_t> active{0}, met{0};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        Choices r(Mix(seed, t));
        std::vector<std::unique_ptr<Job>> jobs(n);
        std::vector<size_t> live = mine[t];
        ready++;
        while (ready.load(std::memory_order_relaxed) < threads) sched_yield();
        while (!live.empty()) {
          size_t k = r.U(live.size()), i = live[k];
          if (active.fetch_add(1, std::memory_order_relaxed)) met.fetch_add(1, std::memory_order_relaxed);
          if (!jobs[i]) jobs[i] = Start(specs[i], shared.get());
          for (unsigned m = 4; m--;)
            if (!jobs[i]->Step(log[t][i])) { jobs[i].reset(); live.erase(live.begin() + long(k)); break; }
          active.fetch_sub(1, std::memory_order_relaxed);
          if (r.P(1, 8)) sched_yield();
        }
      });
    for (auto& t : ts) t.join();
    x.Count("threads") += threads;
    x.Count("overlapping_steps") += met;
    for (size_t t = 0; t < threads; ++t)
      for (size_t i : mine[t]) judge(i, log[t][i], "beside other threads");
  }
#endif
  x.Count("steps") += steps;
  x.Count("at_once") += n;
  static const char* const kCount[] = {"readers", "adapters", "requests", "responses", "matchers", "helpers", "templates"};
  uint64_t h = 0;
  for (size_t i = 0; i < n; ++i) {
    x.Count(kCount[specs[i].kind])++;
    x.Count("bytes_of_answers") += alone[i].size();
    h = Mix(h, HashBytes(alone[i]));
  }
  x.Distinct(h);
  if (x.WantSample()) x.Sample(note.substr(0, 600));
}
Register r36("C36", RunC36);
}  // namespace
}  // namespace vp
