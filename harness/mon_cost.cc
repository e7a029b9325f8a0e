// Cost of long streams: C35. Equal steps (one message, one piece, one poll,
// one lookup) are repeated many times; the work of the late ones is compared
// with that of the early ones, and so is the memory held after them.
#include <deque>

#include "doc_gen.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "meter.h"

namespace vp {
namespace {

// Pieces that arrive one after the other and are dropped once read.
class Feed : public gt::TranscoderInputStream {
 public:
  bool closed = false;
  void Give(std::string s) { if (!s.empty()) { avail_ += s.size(); q_.push_back(std::move(s)); } }
  bool Next(const void** d, int* n) override {
    while (!q_.empty() && at_ == q_.front().size()) { q_.pop_front(); at_ = 0; }
    if (q_.empty()) { *d = nullptr; *n = 0; return !closed; }
    *d = q_.front().data() + at_;
    *n = int(q_.front().size() - at_);
    at_ = q_.front().size();
    avail_ -= size_t(*n);
    return true;
  }
  void BackUp(int n) override { if (n > 0 && size_t(n) <= at_) { at_ -= size_t(n); avail_ += size_t(n); } }
  bool Skip(int n) override {
    while (n > 0) {
      const void* d; int m;
      if (!Next(&d, &m) || m == 0) return false;
      if (m > n) { BackUp(m - n); m = n; }
      n -= m;
    }
    return true;
  }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { return int64_t(avail_); }
  bool Finished() const override { return closed; }

 private:
  std::deque<std::string> q_;
  size_t at_ = 0, avail_ = 0;
};

struct Abandoned {};  // the case is not what it was meant to be: no verdict
[[noreturn]] void Abandon() { throw Abandoned(); }
std::string g_what;
void Over() { HardViolation("work-grows", "one step took more than " + std::to_string(meter.limit) + " units of work: " + g_what); }

// Runs equal steps and judges them. unit: bytes moved per step that may also
// be copied when a growing buffer moves.
struct Steps {
  Ctx& x;
  std::string what;
  bool memory;         // whether the memory held is judged
  uint64_t per_step;   // bytes per step
  bool shrinks = false;  // a backlog is taken: early steps must not cost more either
  std::vector<uint64_t> work, live;
  template <class F>
  void Run(size_t n, F f) {
    g_what = what;
    SetNote(what);
    work.reserve(n);
    live.reserve(n);
    uint64_t base = meter.live;
    for (size_t i = 0; i < n; ++i) {
      meter.work = 0;
      meter.limit = uint64_t(4000000000);
      meter.over = Over;
      meter.on = true;
      f(i);
      meter.on = false;
      work.push_back(meter.work);
      live.push_back(meter.live - base);
    }
    Judge();
  }
  uint64_t Sum(size_t a, size_t b) { uint64_t s = 0; for (; a < b; ++a) s += work[a]; return s; }
  void Judge() {
    size_t n = work.size(), w = n / 8;
    uint64_t early = Sum(w, 2 * w), late = Sum(n - w, n);
    if (shrinks) std::swap(early, late);
    uint64_t bound = early + early / 4 + 8000 + per_step * n / 8;  // the last: a buffer that moves once
    x.Count("steps") += n;
    x.Count("work_units") += Sum(0, n);
    uint64_t pc = late * 100 / bound;
    if (pc > x.Count("max_percent_of_work_bound")) x.Count("max_percent_of_work_bound") = pc;
    std::string fig = what + "; steps " + std::to_string(n) + ", work of steps " + std::to_string(w) + ".. " + std::to_string(early) + ", of the last " + std::to_string(w) + " " + std::to_string(late);
    if (late > bound) x.Fail("work-grows", fig);
    if (memory) {
      // the least held in a window: peaks between two steps do not count
      auto least = [&](size_t a, size_t b) { return *std::min_element(live.begin() + long(a), live.begin() + long(b)); };
      int64_t m1 = int64_t(least(n / 2 - w, n / 2)), m2 = int64_t(least(n - w, n));
      x.Count("memory_checks")++;
      if (m2 - m1 > 16384 && getenv("VP_DEBUG_WORK")) fprintf(stderr, "memory %ld %ld %s\n", long(m1), long(m2), what.c_str());
      if (m2 - m1 > 16384) x.Fail("memory-grows", fig + ", memory held " + std::to_string(m1) + " -> " + std::to_string(m2) + " bytes");
    }
    if (getenv("VP_DEBUG_WORK")) fprintf(stderr, "%lu%% %s\n", (unsigned long)pc, fig.substr(0, 300).c_str());
    x.Distinct(Mix(HashBytes(what), early));
    if (x.WantSample()) x.Sample(fig);
  }
};

std::string FrameOf(const std::string& p) {
  std::string h(5, '\0');
  for (int i = 0; i < 4; ++i) h[size_t(4 - i)] = char(p.size() >> (8 * i) & 255);
  return h + p;
}
void Drain(pb::io::ZeroCopyInputStream* s) { const void* d; int n; while (s->Next(&d, &n)) {} }

void Reader(Choices& c, Ctx& x) {
  size_t n = 2000 + c.U(4000), size = c.P(1, 4) ? 0 : c.Size(3000), pieces = 1 + c.U(6), polls = c.U(4);
  Feed in;
  auto r = std::make_unique<gt::MessageReader>(&in);
  std::string f = FrameOf(std::string(size, 'p'));
  Steps s{x, "reader: frames of " + std::to_string(size) + " bytes in " + std::to_string(pieces) + " pieces, " + std::to_string(polls) + " polls more", true, size};
  bool framed = c.P(1, 2), ahead = c.P(1, 3);
  for (size_t k = ahead ? 1 + c.U(4) : 0; k--;) in.Give(f);  // some wait all the time
  s.Run(n, [&](size_t) {
    size_t got = 0;
    for (size_t k = 0; k < pieces; ++k) {
      in.Give(f.substr(f.size() * k / pieces, f.size() * (k + 1) / pieces - f.size() * k / pieces));
      for (size_t p = 0; p <= polls && !(ahead && got); ++p) {
        auto m = framed ? std::move(r->NextMessageAndGrpcFrame().message) : r->NextMessage();
        if (m) { ++got; Drain(m.get()); }
      }
    }
    if (got != 1) Abandon();
  });
  x.Count("readers")++;
}
void ReaderPartial(Choices& c, Ctx& x) {  // a frame that takes long to arrive
  size_t n = 2000 + c.U(4000), piece = 1 + c.U(600);
  Feed in;
  gt::MessageReader r(&in);
  std::string h = FrameOf("");
  uint32_t total = uint32_t(n * piece + 100);
  for (int i = 0; i < 4; ++i) h[size_t(4 - i)] = char(total >> (8 * i) & 255);
  in.Give(h);
  Steps s{x, "reader: a frame in pieces of " + std::to_string(piece) + " bytes, polled after each", false, piece};
  s.Run(n, [&](size_t) {
    in.Give(std::string(piece, 'x'));
    if (r.NextMessage()) Abandon();
  });
  x.Count("readers")++;
}

class Src : public gt::MessageStream {
 public:
  std::deque<std::string> q;
  bool closed = false;
  bool NextMessage(std::string* m) override {
    if (q.empty()) return false;
    *m = std::move(q.front());
    q.pop_front();
    return true;
  }
  bool Finished() const override { return closed && q.empty(); }
  absl::Status Status() const override { return absl::OkStatus(); }
};
void Stream(Choices& c, Ctx& x) {
  size_t n = 2000 + c.U(4000), size = 1 + c.Size(3000), empties = c.P(1, 3) ? c.U(6) : 0;
  bool one = c.P(1, 3), queries = c.P(1, 2);
  Src src;
  auto in = src.CreateInputStream();
  if (one) {  // a single large message read in small parts
    size = 1 + c.U(200);
    src.q.push_back(std::string(n * size + 10, 'x'));
    Steps s{x, "stream: one message of " + std::to_string(n * size) + " bytes read in parts of " + std::to_string(size), true, size};
    s.Run(n, [&](size_t) {
      const void* d; int m;
      if (queries && in->BytesAvailable() < int64_t(size)) Abandon();
      if (!in->Next(&d, &m) || size_t(m) <= size) Abandon();
      in->BackUp(m - int(size));
    });
  } else {
    Steps s{x, "stream: messages of " + std::to_string(size) + " bytes with " + std::to_string(empties) + " empty ones between", true, size};
    bool drain = c.P(1, 2);
    if (!drain) for (size_t k = c.U(5); k--;) src.q.push_back(std::string(size, 'x'));  // some wait all the time
    s.Run(n, [&](size_t) {
      for (size_t k = 0; k < empties; ++k) src.q.emplace_back();
      src.q.push_back(std::string(size, 'x'));
      const void* d; int m;
      if (queries && !in->BytesAvailable()) Abandon();
      if (!in->Next(&d, &m) || size_t(m) != size) Abandon();
      if (drain) { if (queries) in->BytesAvailable(); in->Next(&d, &m); }
    });
  }
  x.Count("streams")++;
}

void Response(Choices& c, Ctx& x) {
  auto* type = c.P(1, 2) ? Leaf::descriptor() : Node::descriptor();
  auto& h = *TheWorld().h[c.U(2)];
  MsgOpt o;
  o.den = 6;
  std::string p, j;
  if (!c.P(1, 4)) { auto m = New(type); FillMessage(m.get(), c, o, 1); m->SerializeToString(&p); }
  gt::JsonResponseTranslateOptions ro;
  ro.stream_newline_delimited = c.P(1, 2);
  ro.json_print_options.add_whitespace = c.P(1, 6);
  if (!pbutil::BinaryToJsonString(PoolResolver(), Url(type), p, &j, ro.json_print_options).ok()) return;
  size_t n = 600 + c.U(c.P(1, 6) ? 8000 : 1200), pieces = 1 + c.U(4);
  Feed in;
  auto t = std::make_unique<gt::ResponseToJsonTranslator>(h.Resolver(), Url(type), true, &in, ro);
  std::string f = FrameOf(p);
  std::string out;
  Steps s{x, "response: " + std::string(ro.stream_newline_delimited ? "lines" : "array") + " of messages of " + std::to_string(p.size()) + " bytes in " + std::to_string(pieces) + " pieces", true, p.size()};
  bool ahead = c.P(1, 3);
  for (size_t k = ahead ? 1 + c.U(4) : 0; k--;) in.Give(f);  // some wait all the time
  s.Run(n, [&](size_t) {
    size_t got = 0;
    for (size_t k = 0; k < pieces; ++k) {
      in.Give(f.substr(f.size() * k / pieces, f.size() * (k + 1) / pieces - f.size() * k / pieces));
      while (!(ahead && got) && t->NextMessage(&out)) ++got;
    }
    if (got != 1) Abandon();
  });
  x.Count("responses")++;
}
void ResponsePartial(Choices& c, Ctx& x) {
  size_t n = 2000 + c.U(3000), piece = 1 + c.U(600);
  Feed in;
  gt::ResponseToJsonTranslator t(PoolResolver(), Url(Leaf::descriptor()), c.P(1, 2), &in, {});
  std::string h = FrameOf("");
  uint32_t total = uint32_t(n * piece + 100);
  for (int i = 0; i < 4; ++i) h[size_t(4 - i)] = char(total >> (8 * i) & 255);
  in.Give(h);
  std::string out;
  Steps s{x, "response: a message in pieces of " + std::to_string(piece) + " bytes, polled after each", false, piece};
  s.Run(n, [&](size_t) {
    in.Give(std::string(piece, 'x'));
    if (t.NextMessage(&out)) Abandon();
  });
  x.Count("responses")++;
}

gt::RequestInfo InfoOf(gt::TypeHelper& h, const pb::Descriptor* type, std::string body) {
  gt::RequestInfo i;
  i.message_type = h.Info()->GetTypeByTypeUrl(Url(type));
  i.body_field_path = std::move(body);
  return i;
}
void Bind1(gt::TypeHelper& h, gt::RequestInfo& i, const std::string& path, std::string value) {
  gt::RequestWeaver::BindingInfo b;
  if (!h.ResolveFieldPath(*i.message_type, path, &b.field_path).ok()) return;
  b.value = std::move(value);
  i.variable_bindings.push_back(std::move(b));
}
// A stream of equal elements, taken as they come or left in the queue a while.
void Request(Choices& c, Ctx& x) {
  DocGen g;
  g.Choose(c, true);
  g.q.body = c.P(1, 2) ? "*" : "leaf_one";
  g.q.type = Node::descriptor();
  g.q.binds.clear();
  auto& h = *TheWorld().h[c.U(2)];
  std::string e = "{";
  size_t fields = c.U(12);
  static const char* const kTop[] = {"\"strVal\":\"some text\"", "\"i64\":\"12345\"", "\"rep_i32\":[1,2,3]", "\"leafTwo\":{\"leafName\":\"x\"}", "\"dbl\":1.5", "\"unknownOne\":[{},{}]", "\"modeVal\":\"ACTIVE\"", "\"boolVal\":true"};
  static const char* const kLeaf[] = {"\"leafName\":\"some text\"", "\"bigCount\":\"12345\"", "\"nums\":[1,2,3]", "\"nextLeaf\":{\"leafName\":\"x\"}", "\"ratio\":1.5", "\"unknownOne\":[{},{}]", "\"leafMode\":\"ACTIVE\"", "\"flagOn\":true"};
  size_t from = c.U(8);
  for (size_t k = 0; k < std::min<size_t>(fields, 8); ++k) e += std::string(k ? "," : "") + (g.q.body == "*" ? kTop : kLeaf)[(from + k) % 8];
  e += "}";
  size_t n = 600 + c.U(c.P(1, 6) ? 8000 : 1200), pieces = 1 + c.U(4), batch = c.P(1, 3) ? 2 + c.U(30) : 1;
  gt::RequestInfo info = InfoOf(h, g.q.type, g.q.body);
  for (size_t k = c.U(4); k--;) Bind1(h, info, c.P(1, 2) ? "child_node.str_val" : "rep_str", "bound");
  bool delim = c.P(1, 2);
  Feed in;
  auto t = std::make_unique<gt::JsonRequestTranslator>(h.Resolver(), &in, std::move(info), true, delim);
  in.Give("[");
  std::string out;
  size_t got = 0, sent = 0, ahead = c.P(1, 3) ? 1 + c.U(4) : 0;
  Steps s{x, "request: elements " + e + " for body \"" + g.q.body + "\", " + std::to_string(batch) + " per step, in " + std::to_string(pieces) + " pieces", true, batch * e.size()};
  s.Run(n, [&](size_t i) {
    std::string b;
    for (size_t k = 0; k < batch; ++k) { b += (i || k ? "," : "") + e; ++sent; }
    for (size_t k = 0; k < pieces; ++k) {
      in.Give(b.substr(b.size() * k / pieces, b.size() * (k + 1) / pieces - b.size() * k / pieces));
      while (got + ahead < sent && t->Output().NextMessage(&out)) ++got;
      if (!ahead && t->Output().NextMessage(&out)) ++got;
    }
    if (got + std::min(sent, ahead) != sent) Abandon();
  });
  x.Count("requests")++;
}
// All elements at once, taken one by one.
void RequestQueue(Choices& c, Ctx& x) {
  auto& h = *TheWorld().h[c.U(2)];
  size_t n = 800 + c.U(3000);
  Feed in;
  gt::JsonRequestTranslator t(h.Resolver(), &in, InfoOf(h, Leaf::descriptor(), "*"), true, c.P(1, 2));
  std::string all = "[{\"small\":1}", out;
  for (size_t i = 0; i < n; ++i) all += ",{\"small\":1}";
  in.Give(all);
  if (!t.Output().NextMessage(&out)) return;
  Steps s{x, "request: taking the messages of one chunk", true, 16, true};
  s.Run(n, [&](size_t) { if (!t.Output().NextMessage(&out)) Abandon(); });
  x.Count("requests")++;
}
// The same for frames: all of them wait in the input, in pieces of some size.
void Backlog(Choices& c, Ctx& x) {
  size_t n = 800 + c.U(3000), size = c.P(1, 3) ? 0 : c.U(200), cut = c.P(1, 3) ? 1 : 1 + c.Size(100000);
  Feed in;
  Leaf m;
  m.set_leaf_name(std::string(size, 'x'));
  std::string f = FrameOf(size ? m.SerializeAsString() : ""), all, out;
  for (size_t i = 0; i <= n; ++i) all += f;
  for (size_t i = 0; i < all.size(); i += cut) in.Give(all.substr(i, cut));
  bool read = c.P(1, 2), framed = c.P(1, 2);
  gt::MessageReader r(&in);
  gt::ResponseToJsonTranslator t(PoolResolver(), Url(Leaf::descriptor()), true, &in, {});
  Steps s{x, std::string(read ? "reader" : "response") + ": taking frames of " + std::to_string(f.size()) + " bytes that wait in pieces of " + std::to_string(cut), true, 0, true};
  s.Run(n, [&](size_t) {
    if (!read) { if (!t.NextMessage(&out)) Abandon(); return; }
    auto m = framed ? std::move(r.NextMessageAndGrpcFrame().message) : r.NextMessage();
    if (!m) Abandon();
    Drain(m.get());
  });
  x.Count(read ? "readers" : "responses")++;
}
// One message that arrives in many small members.
void RequestLarge(Choices& c, Ctx& x) {
  auto& h = *TheWorld().h[c.U(2)];
  bool streaming = c.P(1, 2), in_list = c.P(1, 2);
  size_t n = 800 + c.U(2000);
  gt::RequestInfo info = InfoOf(h, Leaf::descriptor(), "*");
  for (size_t k = c.U(3); k--;) Bind1(h, info, c.P(1, 2) ? "raw" : "next_leaf.leaf_name", "YWJj");
  Feed in;
  auto t = std::make_unique<gt::JsonRequestTranslator>(h.Resolver(), &in, std::move(info), streaming, c.P(1, 2));
  in.Give(std::string(streaming ? "[" : "") + "{\"leafTags\":[");
  if (!in_list) in.Give("],");
  std::string out;
  Steps s{x, std::string("request: one message in many pieces, ") + (in_list ? "elements of a list" : "members") + (streaming ? " of a stream" : ""), false, 40};
  s.Run(n, [&](size_t i) {
    in.Give(in_list ? std::string(i ? "," : "") + "\"some text\"" : std::string(i ? "," : "") + "\"unknown\":{\"a\":[1,2]}");
    if (t->Output().NextMessage(&out) || !t->Output().Status().ok()) Abandon();
  });
  x.Count("requests")++;
}
// Polling a translator that has nothing new.
void Idle(Choices& c, Ctx& x) {
  auto& h = *TheWorld().h[c.U(2)];
  size_t n = 5000 + c.U(5000);
  Feed in, rin;
  gt::JsonRequestTranslator t(h.Resolver(), &in, InfoOf(h, Leaf::descriptor(), "*"), c.P(1, 2), false);
  gt::ResponseToJsonTranslator r(h.Resolver(), Url(Leaf::descriptor()), c.P(1, 2), &rin, {});
  if (c.P(1, 2)) { in.Give("[{\"small\":"); rin.Give(FrameOf(std::string(500, 'x')).substr(0, c.U(400))); }
  std::string out;
  if (c.P(1, 3)) {  // ended or broken
    if (c.P(1, 2)) { in.Give("]}"); rin.Give(std::string(20, '\x01')); }
    in.closed = rin.closed = true;
    for (int k = 0; k < 5; ++k) { t.Output().NextMessage(&out); r.NextMessage(&out); }
  }
  Steps s{x, "polls without input", true, 0};
  s.Run(n, [&](size_t) { t.Output().NextMessage(&out); r.NextMessage(&out); });
  x.Count("idle_polls") += n;
}
void Lookups(Choices& c, Ctx& x) {
  using B = gt::PathMatcherBuilder<const int*>;
  B b;
  static const int id = 0;
  b.SetMatchUnregisteredCustomVerb(c.P(1, 2));
  size_t routes = 1 + c.U(60);
  for (size_t i = 0; i < routes; ++i) {
    std::string k = std::to_string(i);
    b.Register("GET", "/a" + k + "/{x}/b/{y.z=**}" + (i % 3 ? "" : ":go"), i % 2 ? "body" : "", &id);
    if (i % 4 == 0) b.Register("POST", "/**/q" + k, "*", &id);
  }
  auto m = b.Build();
  size_t n = 60000 + c.U(20000);
  int style = int(c.U(5));
  size_t found = 0;
  auto& h = *TheWorld().h[0];
  auto* type = h.Info()->GetTypeByTypeUrl(Url(Node::descriptor()));
  std::vector<const pb::Field*> path;
  std::vector<gt::VariableBinding> v;
  std::string body;
  Steps s{x, "lookups of different requests, style " + std::to_string(style) + ", " + std::to_string(routes) + " routes", true, 0};
  s.Run(n, [&](size_t i) {
    std::string k = std::to_string(1000000 + i);
    switch (style) {
      case 0: found += m->Lookup("GET", "/a0/" + k + "/b/c/d:go", "q=" + k, &v, &body) != nullptr; break;
      case 1: found += m->Lookup("GET", "/none/" + k, "", &v, &body) != nullptr; break;
      case 2: found += m->Lookup("M" + k, "/a0/x/b/c", "", &v, &body) != nullptr; break;
      case 3: found += m->Lookup("GET", "/a0/x/b/c:v" + k) != nullptr; break;
      default:
        found += h.ResolveFieldPath(*type, "leaf_one.n" + k, &path).ok() + h.ResolveFieldPath(*type, "child%5fnode.%69" + k.substr(0, 2), &path).ok();
    }
  });
  x.Count("distinct_lookups") += n;
}

void RunCase(Choices& c, Ctx& x) {
  switch (c.U(11)) {
    case 0: return Reader(c, x);
    case 1: return ReaderPartial(c, x);
    case 2: return Stream(c, x);
    case 3: return Response(c, x);
    case 4: return ResponsePartial(c, x);
    case 5: return Request(c, x);
    case 6: return RequestQueue(c, x);
    case 7: return RequestLarge(c, x);
    case 8: return Idle(c, x);
    case 9: return Backlog(c, x);
    default: return Lookups(c, x);
  }
}
void RunC35(Choices& c, Ctx& x) {
  TheWorld();
  try {
    RunCase(c, x);
  } catch (const Abandoned&) {
    meter.on = false;
    x.Count("abandoned")++;
    if (getenv("VP_DEBUG_WORK")) fprintf(stderr, "abandoned: %s\n", g_what.c_str());
  }
}
Register r35("C35", RunC35);
}  // namespace
}  // namespace vp
