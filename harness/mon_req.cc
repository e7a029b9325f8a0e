// Request translation monitors: C20 C21 C22 C23 C24 C25.
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/util/converter/error_listener.h"
#include "google/protobuf/util/converter/json_stream_parser.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "doc_gen.h"

namespace vp {
namespace {
uint64_t HashReq(const Req& q, const std::string& json) {
  uint64_t h = HashBytes(json, HashBytes(q.body));
  for (auto& b : q.binds) h = HashBytes(b.text, HashBytes(PathText(b.path), h));
  return h;
}

// ------------------------------------------------------------------- C20
// Messages of up to some MB, their text in the body or in a bound value; the
// size of the frame is often next to a boundary.
void BigMessages(Choices& c, Ctx& x) {
  Req q;
  q.type = Leaf::descriptor();
  q.streaming = c.P(1, 2);
  q.delim = c.P(5, 6);
  size_t n = 1 + (q.streaming ? c.U(3) : 0), top = c.P(1, 8) ? size_t(36) << 20 : size_t(5) << 20;
  std::vector<std::unique_ptr<pb::Message>> want;
  std::string json = q.streaming ? "[" : "";
  std::string bound;
  auto size = [&] {
    size_t v = c.P(1, 3) ? c.U(top) : (size_t(1) << (c.P(1, 8) ? 16 + c.U(10) : 16 + c.U(7))) + c.U(80) - 60;
    if (v > top) v %= top;
    return c.P(1, 4) ? v | 0xff00 : v;
  };
  if (c.P(1, 2)) {
    bound.assign(size(), 'b');
    q.binds.push_back({{Leaf::descriptor()->FindFieldByName("leaf_tags")}, bound});
  }
  for (size_t i = 0; i < n; ++i) {
    auto m = std::make_unique<Leaf>();
    m->set_small(int32_t(i));
    if (i || bound.empty() || c.P(1, 2)) m->set_leaf_name(std::string(size(), char('a' + i)));
    json += (i ? "," : "") + ("{\"leafName\":\"" + m->leaf_name() + "\",\"small\":" + std::to_string(i) + "}");
    if (!i && !bound.empty()) m->add_leaf_tags(bound);
    x.Count("max_message_bytes") = std::max<uint64_t>(x.Count("max_message_bytes"), m->ByteSizeLong());
    want.push_back(std::move(m));
  }
  if (q.streaming) json += "]";
  std::string ctx = Text(q).substr(0, 300) + " bound value of " + std::to_string(bound.size()) + " bytes, " + std::to_string(n) + " messages, json of " + std::to_string(json.size()) + " bytes";
  SetNote(ctx);
  Run r(q, json, c.P(1, 2) ? 0 : 60000 + c.U(1000000), c.Raw(4));
  r.Drive(c, c.P(1, 2) ? 0 : 200000 + c.U(1000000), 0);
  if (!r.out().Status().ok()) x.Fail("valid-request-rejected", r.out().Status().ToString().substr(0, 1000) + "\n" + ctx);
  if (r.msgs.size() != n) x.Fail("not-one-message", std::to_string(r.msgs.size()) + " messages\n" + ctx);
  for (size_t i = 0; i < n; ++i) {
    std::string c1 = ctx + "\nmessage " + std::to_string(i);
    std::string m = Unframe(x, q, r.msgs[i], c1);
    Leaf got;
    if (!got.ParseFromString(m)) x.Fail("unparsable-message", c1);
    if (got.SerializeAsString() != want[i]->SerializeAsString()) x.Fail("wrong-message", std::to_string(got.ByteSizeLong()) + " bytes instead of " + std::to_string(want[i]->ByteSizeLong()) + "\n" + c1);
    x.Count("big_messages")++;
    x.Distinct(HashBytes(c1));
  }
}

void RunC20(Choices& c, Ctx& x) {
  if (c.U(1200) == 7) return BigMessages(c, x);
  DocGen g;
  g.Choose(c, false);
  bool with_binds = c.P(2, 3);
  JsonOut j(c, !with_binds);
  if (g.q.ci) j.AnyEnumCase();
  Doc d = g.Make(c, j, int(c.U(4)));
  bool empty = false;
  if (g.path.empty() && c.P(1, 20)) { d.json.clear(); d.want->Clear(); empty = true; }
  if (with_binds) g.AddBinds(c, d.want.get(), 4);
  for (auto& b : g.q.binds) ApplyBind(d.want.get(), b);
  if (!empty) d.json = j.Ws() + d.json + j.Ws();
  Run r(g.q, d.json, c.P(1, 2) ? 0 : c.Size(200), c.Raw(4));
  std::string ctx = Text(g.q) + "\njson " + Show(d.json, 4000);
  SetNote(ctx);
  r.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(60), c.P(1, 2) ? 0 : 3);
  x.Count("requests")++;
  if (empty) x.Count("empty_inputs")++;
  if (!g.q.binds.empty()) x.Count("requests_with_bindings")++;
  if (!g.path.empty()) x.Count("requests_with_body_path")++;
  if (!r.out().Status().ok()) x.Fail("valid-request-rejected", r.out().Status().ToString() + "\n" + ctx);
  if (r.msgs.size() != 1) x.Fail("not-one-message", std::to_string(r.msgs.size()) + " messages\n" + ctx);
  if (!r.out().Finished()) x.Fail("not-finished", ctx);
  std::string m = Unframe(x, g.q, r.msgs[0], ctx);
  Same(x, "wrong-message", *d.want, m, ctx);
  x.Count("messages_compared")++;
  if (g.q.delim) x.Count("frame_headers_checked")++;
  x.Distinct(HashReq(g.q, d.json));
  if (x.WantSample()) x.Sample(ctx);
}

// --------------------------------------------------- what the library says
namespace conv = ::google::protobuf::util::converter;
class Listener : public conv::ErrorListener {
 public:
  void InvalidName(const conv::LocationTrackerInterface&, absl::string_view, absl::string_view) override { bad = true; }
  void InvalidValue(const conv::LocationTrackerInterface&, absl::string_view, absl::string_view) override { bad = true; }
  void MissingField(const conv::LocationTrackerInterface&, absl::string_view) override { bad = true; }
  bool bad = false;
};
const pb::Type& TypeOf(const pb::Descriptor* d) {
  static auto* cache = new std::map<const pb::Descriptor*, pb::Type>;
  auto it = cache->find(d);
  if (it == cache->end()) {
    pb::Type t;
    if (!PoolResolver()->ResolveMessageType(Url(d), &t).ok()) abort();
    it = cache->emplace(d, t).first;
  }
  return it->second;
}
struct Lib {
  bool syntax = false, fits = false, done = false;
  std::string bytes;
  bool ok() const { return syntax && fits; }
};
// The whole text through the protobuf library alone.
Lib LibParse(const pb::Descriptor* d, const std::string& text, bool ci) {
  Lib r;
  pb::strings::StringByteSink sink(&r.bytes);
  Listener l;
  auto o = conv::ProtoStreamObjectWriter::Options::Defaults();
  o.ignore_unknown_fields = true;
  o.case_insensitive_enum_parsing = ci;
  conv::ProtoStreamObjectWriter w(PoolResolver(), TypeOf(d), &sink, &l, o);
  w.set_use_strict_base64_decoding(false);
  conv::JsonStreamParser p(&w);
  r.syntax = p.Parse(text).ok() && p.FinishParse().ok();
  r.fits = !l.bad;
  r.done = w.done();
  return r;
}

// ------------------------------------------------------------ broken JSON
std::string Nest(Choices& c, size_t n) {
  std::string a, b;
  for (size_t i = 0; i < n; ++i) {
    if (c.P(1, 2)) { a += "["; b = "]" + b; } else { a += "{\"k\":"; b = "}" + b; }
  }
  return a + "1" + b;
}
std::string Token(Choices& c) {
  static const std::vector<std::string> k = {",", ":", "]", "[", "{", "}", "\"", "'", "null", "true", "false", "1", "-", "-1", "1e5", "1.5", "1e999", "01", "0x1", "+1", "\\", "\\u12", "\\ud800", "\\ud834\\udd1e", "\xff", "\xc3", "\xe2\x82",
      "\xf0\x9f\x98\x80", "\xc0\x80", "nul", "tru", "NaN", "Infinity", "/", "//x\n", "/*x*/", " ", "\n", std::string(1, '\0'), "abc", "\"abc\"", "\"\"", "{}", "[]", "123456789012345678901234567890", "-0", ".5", "5.", "1e", "1e+", "18446744073709551616", "9223372036854775808", "-9223372036854775809"};
  return c.P(1, 20) ? c.Pick(Dict::Get().strs) : c.Pick(k);
}
void Mutate(std::string& s, Choices& c) {
  for (uint64_t n = 1 + c.U(3); n--;) {
    size_t i = c.U(s.size() + 1);
    switch (c.U(8)) {
      case 0: s.resize(i); break;
      case 1: if (i < s.size()) s.erase(i, 1 + c.U(3)); break;
      case 2: if (i < s.size()) s[i] = "{}[]\",:\\ 0-et"[c.U(13)]; break;
      case 3: if (i < s.size()) s[i] = char(c.Raw(1)); break;
      case 4: case 5: s.insert(i, Token(c)); break;
      case 6: { size_t k = c.U(s.size() + 1); s.insert(k, s.substr(i, c.U(12))); break; }
      default: s.insert(i, "\"kk\":" + Nest(c, c.P(1, 2) ? c.U(20) : 90 + c.U(20)) + ","); break;
    }
  }
}
// A member that may or may not fit its field.
std::string OddMember(const pb::Descriptor* d, Choices& c) {
  static const std::vector<std::string> k = {"\"abc\"", "\"\"", "null", "true", "\"true\"", "\"maybe\"", "0", "-1", "1.5", "\"1.5\"", "2147483648", "-2147483649", "4294967296", "9223372036854775808", "18446744073709551616", "-9223372036854775809",
      "\"2147483648\"", "\"18446744073709551615\"", "\" 1\"", "1e3", "1e-3", "1e400", "\"1e400\"", "{}", "[]", "[1]", "{\"a\":1}", "[null]", "[\"x\"]", "[[1]]", "\"NOPE\"", "\"active\"", "\"VERY_SLOW\"", "\"very-slow\"", "70000", "\"AA==\"", "\"A\"", "\"****\"",
      "\"2020-01-01T00:00:00Z\"", "\"2020-13-01T00:00:00Z\"", "\"1.5s\"", "\"1.5\"", "\"a,b.c\"", "{\"@type\":\"type.googleapis.com/vp.Leaf\",\"small\":3}", "{\"@type\":\"type.googleapis.com/nope\"}", "{\"x\":{\"smAll\":1,\"small\":\"q\"}}", "{\"1\":{\"small\":\"z\"}}", "3.5e38", "\"3.5e38\"", "1.0", "\"NaN\"", "\"Infinity\""};
  auto* f = d->field(int(c.U(d->field_count())));
  return "\"" + (c.P(1, 2) ? f->name() : f->json_name()) + "\":" + (c.P(1, 8) ? Token(c) : c.Pick(k));
}
void PutMember(std::string& obj, const std::string& m, Choices& c) {  // obj: text of an object
  size_t b = obj.find('{'), e = obj.rfind('}');
  if (b == std::string::npos || e == std::string::npos || e < b) return;
  bool empty = obj.find_first_not_of(" \t\r\n", b + 1) == e;
  if (c.P(1, 2)) obj.insert(b + 1, empty ? m : m + ",");
  else obj.insert(e, empty ? m : "," + m);
}

// -------------------------------------------------------- whole documents
// A body with what is known about it.
struct Body {
  std::string text;
  std::vector<size_t> end, sure;              // of each element: offset behind it; by which its end is recognizable
  std::vector<std::shared_ptr<pb::Message>> want;
  size_t close = 0;                           // offset behind the document
};
bool Open(const std::string& s) { char e = s.empty() ? 0 : s.back(); return e != '}' && e != ']' && e != '"'; }
// JSON of the elements (one if not streaming); bindings are chosen for the first.
Body MakeBody(DocGen& g, Choices& c, bool binds, size_t max_elems, int depth, bool defaults = true) {
  Body b;
  JsonOut j(c, defaults && !binds);
  if (g.q.ci) j.AnyEnumCase();
  if (!g.q.streaming) {
    Doc d = g.Make(c, j, depth);
    b.text = j.Ws() + d.json;
    b.want.push_back(d.want);
    b.end.push_back(b.text.size());
    b.sure.push_back(b.text.size() + Open(d.json));
    b.close = b.text.size();
    b.text += j.Ws();
  } else {
    b.text = j.Ws() + "[" + j.Ws();
    size_t n = c.P(1, 800) ? c.U(2000) : c.P(1, 40) ? c.U(40) : c.U(max_elems + 1);
    if (n > 40) depth = 0;
    for (size_t i = 0; i < n && b.text.size() < 300000; ++i) {
      Doc d = g.Make(c, j, depth);
      if (i) b.text += "," + j.Ws();
      b.text += d.json;
      b.want.push_back(d.want);
      b.end.push_back(b.text.size());
      b.sure.push_back(b.text.size() + Open(d.json));
      b.text += j.Ws();
    }
    b.text += "]";
    b.close = b.text.size();
    b.text += j.Ws();
  }
  if (binds && !b.want.empty()) {
    g.AddBinds(c, b.want[0].get(), 4);
    for (auto& k : g.q.binds) ApplyBind(b.want[0].get(), k);
  }
  return b;
}
bool Blank(const std::string& s, size_t from) { return s.find_first_not_of(" \t\r\n", from) == std::string::npos; }
std::string Verdict(Run& r) {
  return std::string(r.out().Status().ok() ? "ok" : "error " + std::to_string(int(r.out().Status().code()))) + (r.out().Finished() ? ", finished" : ", not finished");
}

// ------------------------------------------------------------------- C21
void RunC21(Choices& c, Ctx& x) {
  DocGen g;
  g.Choose(c, c.P(1, 2));
  g.mo.text = c.P(1, 10) ? 300 : 12;
  g.q.reject = c.P(1, 4);
  Body b = MakeBody(g, c, c.P(1, 2), 4, int(c.U(3)));
  std::string s = b.text;
  bool broken = s.size() < 20000 && c.P(1, 2);
  // The library looks at an unfinished token again with every piece: no byte
  // by byte reading of long white space or of an open string.
  size_t least = 1;
  if (c.P(1, 150)) {  // a round size
    size_t n = size_t(1) << (10 + c.U(8));
    if (s.size() < n) s.insert(0, n - s.size(), ' ');
    if (s.size() > 4096) { least = s.size() / 64; broken = false; }
    x.Count("documents_of_round_size")++;
  }
  if (broken) {
    if (c.P(1, 3)) PutMember(s, OddMember(g.q.type, c), c);
    if (c.P(2, 3)) Mutate(s, c);
    if (c.P(1, 20)) s = c.Bytes(c.U(12));
  }
  if (c.P(1, 30)) s = c.P(1, 2) ? "" : c.From(" \n\t", c.U(3));
  std::string ctx = Text(g.q) + "\njson " + Show(s, 4000);
  SetNote(ctx);
  // byte by byte, with the earliest possible delivery
  Run one(g.q, s, least, 1);
  one.Drive(c, 0, 0);
  bool trailing = one.out().Status().ok() && one.out().Finished() && !Blank(s, one.in.pos);
  if (trailing) { x.Count("not_judged_trailing_text")++; return; }
  x.Count(one.out().Status().ok() ? "accepted_documents" : "rejected_documents")++;
  int runs = 3;
  for (int i = 0; i < runs; ++i) {
    size_t chunk = i == 0 ? 0 : c.P(1, 4) ? 0 : c.Size(200), step = i == 0 ? 0 : c.P(1, 4) ? 0 : 1 + c.U(c.P(1, 2) ? 3 : 60);
    if (chunk && chunk < least) chunk = least + c.U(least);
    if (step && step < least) step = least + c.U(least);
    Run r(g.q, s, chunk, c.Raw(4));
    r.Drive(c, step, i && c.P(2, 3) ? 2 : 0);
    std::string how = i == 0 ? "in one piece" : "in pieces of about " + std::to_string(chunk) + ", arriving by about " + std::to_string(step);
    std::string cuts;
    for (size_t k = 0; k < r.in.read_ends.size() && k < 60; ++k) cuts += (k ? "," : "") + std::to_string(r.in.read_ends[k]);
    std::string all = how + " [" + cuts + "]\n" + ctx;
    x.Count("partitions_compared")++;
    x.Count("chunks_read") += r.in.read_ends.size();
    x.Count("empty_polls") += r.in.empties;
    if (Verdict(r) != Verdict(one)) x.Fail("verdict-differs", "byte by byte: " + Verdict(one) + " " + one.out().Status().ToString() + "\n" + Verdict(r) + " " + r.out().Status().ToString() + " " + all);
    bool ok = one.out().Status().ok();
    if (ok ? r.msgs.size() != one.msgs.size() : r.msgs.size() > one.msgs.size()) x.Fail("message-count-differs", "byte by byte: " + std::to_string(one.msgs.size()) + "\n" + std::to_string(r.msgs.size()) + " " + all);
    for (size_t k = 0; k < r.msgs.size(); ++k)
      if (r.msgs[k] != one.msgs[k]) x.Fail("message-differs", "message " + std::to_string(k) + " byte by byte: " + Hex(one.msgs[k].substr(0, 300)) + "\n" + Hex(r.msgs[k].substr(0, 300)) + " " + all);
    uint64_t h = HashReq(g.q, s);
    for (size_t k : r.in.read_ends) h = Mix(h, k);
    if (r.in.read_ends.size() > 1) x.Distinct(h);
  }
  x.Count("messages") += one.msgs.size();
  if (x.WantSample()) x.Sample(Verdict(one) + ", " + std::to_string(one.msgs.size()) + " messages: " + ctx);
}

// ------------------------------------------------------------------- C22
void CheckNotArray(Choices& c, Ctx& x) {
  DocGen g;
  g.Choose(c, true);
  static const std::vector<std::string> k = {"{}", "", "5", "-1.5e3", "\"abc\"", "true", "false", "null", "{\"i32\":5}", "{\"a\":[]}", " {\"leafOne\":{}} ", "{\"a\":[{}]}", "\"[]\"", "0"};
  std::string s = c.Pick(k);
  JsonOut j(c);
  if (!s.empty()) s = j.Ws() + s + j.Ws();
  Run r(g.q, s, c.P(1, 2) ? 0 : c.U(4), c.Raw(4));
  std::string ctx = Text(g.q) + "\njson " + Show(s, 4000);
  SetNote(ctx);
  r.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(4), c.P(1, 2) ? 0 : 2);
  x.Count("bodies_that_are_no_array")++;
  if (!r.msgs.empty()) x.Fail("message-of-no-array", ctx);
  if (r.out().Status().ok() || !r.out().Finished()) x.Fail("no-array-accepted", Verdict(r) + "\n" + ctx);
  if (r.out().Status().code() != absl::StatusCode::kInvalidArgument) x.Fail("wrong-error-code", r.out().Status().ToString() + "\n" + ctx);
}
void RunC22(Choices& c, Ctx& x) {
  if (c.P(1, 20)) return CheckNotArray(c, x);
  DocGen g;
  g.Choose(c, true);
  g.q.ci = c.P(1, 2);
  g.q.reject = c.P(1, 4);
  g.mo.text = c.P(1, 300) ? 70000 : c.P(1, 60) ? 3000 : 12;
  Body b = MakeBody(g, c, c.P(1, 2), 6, int(c.U(3)));
  size_t chunk = c.P(1, 2) ? 0 : c.Size(200), step = c.P(1, 4) ? 0 : c.P(1, 2) ? 1 + c.U(4) : 1 + c.U(100);
  if (g.mo.text > 3000) {  // see C21
    if (chunk) chunk += b.text.size() / 500;
    if (step) step += b.text.size() / 500;
  }
  Run r(g.q, b.text, chunk, c.Raw(4));
  std::string ctx = Text(g.q) + "\njson " + Show(b.text, 4000);
  SetNote(ctx);
  for (;;) {
    r.in.Arrive(step ? 1 + c.U(step) : r.in.total());
    if (r.in.arrived == r.in.total() && c.P(1, 2)) r.in.closed = true;
    for (;;) {
      size_t want = r.msgs.size();
      bool got = r.Poll();
      if (!r.out().Status().ok()) x.Fail("valid-stream-rejected", r.out().Status().ToString() + "\nafter " + std::to_string(r.in.pos) + " bytes\n" + ctx);
      if (got) {
        if (want >= b.end.size()) x.Fail("too-many-messages", ctx);
        if (r.in.pos < b.end[want]) x.Fail("message-before-its-element", "message " + std::to_string(want) + " after " + std::to_string(r.in.pos) + " bytes\n" + ctx);
      }
      bool all = r.msgs.size() == b.end.size();
      if (r.out().Finished() && !(all && r.in.pos >= b.close)) x.Fail("finished-too-early", std::to_string(r.msgs.size()) + " of " + std::to_string(b.end.size()) + " messages after " + std::to_string(r.in.pos) + " bytes\n" + ctx);
      if (!got) break;
      x.Count("messages")++;
    }
    size_t due = 0;
    while (due < b.sure.size() && b.sure[due] <= r.in.arrived) ++due;
    if (r.msgs.size() < due) x.Fail("message-late", std::to_string(r.msgs.size()) + " messages after " + std::to_string(r.in.arrived) + " bytes, " + std::to_string(due) + " elements are complete\n" + ctx);
    bool end = r.in.arrived >= b.close;
    if (end != r.out().Finished()) x.Fail("finished-wrong", std::string(end ? "not finished after the bracket" : "finished") + ", " + std::to_string(r.in.arrived) + " bytes\n" + ctx);
    if (end) break;
    x.Count("checks_inside_stream")++;
  }
  for (int i = 0; i < 2; ++i) if (r.Poll()) x.Fail("message-after-end", ctx);
  for (size_t i = 0; i < b.want.size(); ++i) {
    Same(x, "wrong-message", *b.want[i], Unframe(x, g.q, r.msgs[i], ctx), "message " + std::to_string(i) + "\n" + ctx);
    if (i) x.Count("later_messages")++;
  }
  x.Count("streams")++;
  if (!g.q.binds.empty()) x.Count("streams_with_bindings")++;
  uint64_t h = HashReq(g.q, b.text);
  for (size_t k : r.in.read_ends) h = Mix(h, k);
  if (b.want.size() > 1) x.Distinct(h);
  if (x.WantSample()) x.Sample(ctx);
}

// ------------------------------------------------------------------- C23
void CheckRejected(Run& r, Ctx& x, const std::string& ctx) {
  if (r.out().Status().ok()) x.Fail("accepted", Verdict(r) + ", " + std::to_string(r.msgs.size()) + " messages\n" + ctx);
  if (!r.out().Finished()) x.Fail("error-but-not-finished", ctx);
  if (r.out().Status().code() != absl::StatusCode::kInvalidArgument) x.Fail("wrong-error-code", r.out().Status().ToString() + "\n" + ctx);
  size_t n = r.msgs.size();
  auto code = r.out().Status().code();
  for (int i = 0; i < 3; ++i) {
    r.Poll();
    if (r.msgs.size() != n) x.Fail("message-after-error", "{" + Hex(r.msgs.back().substr(0, 300)) + "}\n" + ctx);
    if (r.out().Status().code() != code || !r.out().Finished()) x.Fail("error-forgotten", Verdict(r) + "\n" + ctx);
  }
  x.Count("rejected")++;
}
void RunC23(Choices& c, Ctx& x) {
  DocGen g;
  int kind = int(c.U(4));
  bool streaming = c.P(1, 2);
  g.Choose(c, streaming);
  g.mo.text = c.P(1, 20) ? 200 : 12;
  size_t chunk = c.P(1, 3) ? 1 : c.P(1, 2) ? 0 : c.Size(60);
  if (kind == 0) {
    // a proper prefix
    Body b = MakeBody(g, c, c.P(1, 2), 4, int(c.U(3)));
    size_t root = b.text.find_first_not_of(" \t\r\n");
    if (!streaming && Open(b.text.substr(root, b.end[0] - root))) return;  // a prefix of a number is a number
    size_t cut = root + 1 + c.U(b.close - root - 1);
    if (cut >= b.close) return;
    std::string s = b.text.substr(0, cut);
    std::string ctx = Text(g.q) + "\njson " + Show(s, 4000) + " (cut)";
    SetNote(ctx);
    Run r(g.q, s, chunk, c.Raw(4));
    r.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(30), c.P(1, 2) ? 0 : 2);
    size_t whole = 0, sure = 0;
    while (whole < b.end.size() && b.end[whole] <= cut) ++whole;
    while (sure < b.sure.size() && b.sure[sure] <= cut) ++sure;
    if (!streaming) whole = sure = 0;
    if (r.msgs.size() > whole) {
      // "12" of 123 is a number, but no element yet
      x.Fail("message-of-incomplete-element", std::to_string(r.msgs.size()) + " messages, " + std::to_string(whole) + " complete elements\n" + ctx);
    }
    if (r.msgs.size() < sure) x.Fail("earlier-element-lost", std::to_string(r.msgs.size()) + " messages of " + std::to_string(sure) + " complete elements before the end of input\n" + ctx);
    for (size_t i = 0; i < r.msgs.size(); ++i) Same(x, "wrong-earlier-message", *b.want[i], Unframe(x, g.q, r.msgs[i], ctx), ctx);
    CheckRejected(r, x, ctx);
    x.Count("truncated")++;
    x.Count("earlier_elements_delivered") += r.msgs.size();
    x.Distinct(HashReq(g.q, s));
    if (x.WantSample()) x.Sample("rejected: " + ctx);
    return;
  }
  if (kind == 1) {
    // a bound value that does not fit
    Body b = MakeBody(g, c, false, 3, int(c.U(2)), false);
    if (b.want.empty()) return;
    auto p = RandomBindPath(g.q.type, c, true);
    if (p.empty() || g.Prefixed(p)) return;
    auto* f = p.back();
    std::string v;
    switch (c.U(6)) { case 0: v = "abc"; break; case 1: v = "-1"; break; case 2: v = "5000000000"; break; case 3: v = "1.5"; break; case 4: v = "99999999999999999999"; break; default: v = Text(c, 4); }
    pb::Message* m = b.want[0].get();
    for (size_t i = 0; i + 1 < p.size(); ++i) { if (!m->GetReflection()->HasField(*m, p[i])) { m = nullptr; break; } m = m->GetReflection()->MutableMessage(m, p[i]); }
    if (m && !f->is_repeated() && m->GetReflection()->HasField(*m, f)) return;  // dropped, C25
    JsonOut j(c);
    bool fits = LibParse(f->containing_type(), "{\"" + f->name() + "\":" + j.Quote(v) + "}", g.q.ci).ok();
    Bind bd;
    bd.path = p;
    bd.text = v;
    g.q.binds.push_back(bd);
    std::string ctx = Text(g.q) + "\njson " + Show(b.text, 4000);
    SetNote(ctx);
    Run r(g.q, b.text, chunk, c.Raw(4));
    r.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(30), c.P(1, 2) ? 0 : 2);
    if (fits) {
      if (!r.out().Status().ok()) x.Fail("fitting-binding-rejected", r.out().Status().ToString() + "\n" + ctx);
      x.Count("bindings_that_fit")++;
    } else {
      if (!r.msgs.empty()) x.Fail("message-with-bad-binding", ctx);
      CheckRejected(r, x, ctx);
      x.Count("bindings_that_do_not_fit")++;
    }
    x.Distinct(HashReq(g.q, b.text));
    return;
  }
  // one document or element that may be faulty; the library decides
  g.path.clear();
  g.q.body = c.P(1, 2) ? "*" : "";
  Body b = MakeBody(g, c, c.P(1, 3), 4, int(c.U(3)));
  JsonOut j(c);
  std::string s, before;
  size_t at = 0;
  std::vector<std::string> el;
  if (!streaming) {
    s = b.text;
    if (c.P(2, 3)) PutMember(s, OddMember(g.q.type, c), c);
    if (kind == 3) Mutate(s, c);
    el.push_back(s);
  } else {
    if (b.want.empty()) return;
    at = c.U(b.want.size());
    std::string e = b.text.substr(at ? b.end[at - 1] : b.text.find('[') + 1, b.end[at] - (at ? b.end[at - 1] : b.text.find('[') + 1));
    size_t sep = at ? e.find(',') + 1 : 0;
    std::string head = b.text.substr(0, b.end[at] - e.size() + sep), tail = b.text.substr(b.end[at]);
    e = e.substr(sep);
    PutMember(e, OddMember(g.q.type, c), c);
    el.push_back(e);
    s = head + e + tail;
  }
  bool first = at == 0;
  Lib l = LibParse(g.q.type, el[0], g.q.ci);
  if (streaming && !l.syntax) {
    // not an element any more: only the earlier ones are judged, the rest must not be clean
    l.fits = false;
  }
  std::string ctx = Text(g.q) + "\njson " + Show(s, 4000) + "\nfault (if any) in " + Show(el[0], 1000);
  SetNote(ctx);
  Run r(g.q, s, chunk, c.Raw(4));
  r.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(30), c.P(1, 2) ? 0 : 2);
  bool ok = r.out().Status().ok();
  if (!streaming && s.empty()) return;
  if (!l.ok()) {
    if (ok && r.out().Finished()) {
      // a complete document, then something else (perhaps read as part of an unfinished character)
      bool trailing = !Blank(s, r.in.pos);
      for (size_t k = 1; !streaming && k < 4 && k <= r.in.pos; ++k) trailing |= LibParse(g.q.type, s.substr(0, r.in.pos - k), g.q.ci).ok();
      if (trailing) { x.Count("not_judged_trailing_text")++; return; }
    }
    size_t limit = streaming ? at : 0;
    if (streaming && !l.syntax) {
      // a member with its own brackets may have split the element
      if (r.msgs.size() < limit && chunk == 1) x.Fail("earlier-element-lost", std::to_string(r.msgs.size()) + " messages of " + std::to_string(limit) + "\n" + ctx);
      for (size_t i = 0; i < r.msgs.size() && i < limit; ++i) Same(x, "wrong-earlier-message", *b.want[i], Unframe(x, g.q, r.msgs[i], ctx), ctx);
      CheckRejected(r, x, ctx);
      x.Distinct(HashReq(g.q, s));
      return;
    }
    if (r.msgs.size() > limit) x.Fail("message-of-faulty-body", "{" + Hex(r.msgs.back().substr(0, 300)) + "}\n" + ctx);
    if (r.msgs.size() < limit && chunk == 1) x.Fail("earlier-element-lost", std::to_string(r.msgs.size()) + " messages of " + std::to_string(limit) + "\n" + ctx);
    for (size_t i = 0; i < r.msgs.size(); ++i) Same(x, "wrong-earlier-message", *b.want[i], Unframe(x, g.q, r.msgs[i], ctx), ctx);
    CheckRejected(r, x, ctx);
    x.Count(l.syntax ? "values_that_do_not_fit" : "syntax_errors")++;
    x.Count("earlier_elements_delivered") += r.msgs.size();
  } else {
    if (!ok) x.Fail("valid-body-rejected", r.out().Status().ToString() + "\n" + ctx);
    size_t n = streaming ? b.want.size() : 1;
    if (!l.done) { x.Count("not_judged_no_message_root")++; return; }
    if (r.msgs.size() != n || !r.out().Finished()) x.Fail("valid-body-not-translated", std::to_string(r.msgs.size()) + " messages, " + Verdict(r) + "\n" + ctx);
    if (!first || g.q.binds.empty()) {
      auto w = New(g.q.type);
      if (!w->ParseFromString(l.bytes)) { x.Count("not_judged_library_output")++; return; }
      Same(x, "wrong-message", *w, Unframe(x, g.q, r.msgs[at], ctx), ctx);
    }
    x.Count("accepted")++;
  }
  x.Distinct(HashReq(g.q, s));
  if (x.WantSample()) x.Sample((l.ok() ? "accepted: " : "rejected: ") + ctx);
}

// ------------------------------------------------------------------- C24
void RunC24(Choices& c, Ctx& x) {
  DocGen g;
  g.Choose(c, c.P(2, 3));
  g.mo.text = c.P(1, 40) ? 3000 : 12;
  Body b = MakeBody(g, c, c.P(1, 3), 6, int(c.U(2)));
  Run r(g.q, b.text, c.P(1, 4) ? 0 : 1 + c.Size(60), c.Raw(4));
  std::string ctx = Text(g.q) + "\njson " + Show(b.text, 4000);
  SetNote(ctx);
  size_t step = c.P(1, 4) ? 0 : 1 + c.U(c.P(1, 2) ? 5 : 100);
  size_t n = b.end.size();
  if (step && step < b.text.size() / 800) step = b.text.size() / 800;
  for (uint64_t polls = 0; polls < 20000; ++polls) {
    if (c.P(1, 2)) {
      r.in.Arrive(step ? c.U(2 * step) : r.in.total());
      if (r.in.arrived == r.in.total() && c.P(1, 2)) r.in.closed = true;
    }
    size_t pos = r.in.pos, have = r.msgs.size(), reads = r.in.read_ends.size();
    uint64_t nexts = r.in.nexts, empties = r.in.empties, ends = r.in.ends;
    bool fin = r.out().Finished();
    bool got = r.Poll();
    if (!r.out().Status().ok()) x.Fail("valid-input-rejected", r.out().Status().ToString() + "\nafter " + std::to_string(r.in.pos) + " bytes\n" + ctx);
    uint64_t asked = r.in.nexts - nexts, dry = r.in.empties - empties + r.in.ends - ends;
    size_t before = r.in.read_ends.size() > reads ? (r.in.read_ends.size() > reads + 1 ? r.in.read_ends[r.in.read_ends.size() - 2] : pos) : pos;
    std::string at = "request " + std::to_string(polls) + ": position " + std::to_string(pos) + " -> " + std::to_string(r.in.pos) + " of " + std::to_string(r.in.arrived) + " arrived, " + std::to_string(asked) + " reads (" + std::to_string(dry) + " empty), message " + (got ? "yes" : "no") + ", " + std::to_string(have) + " before\n" + ctx;
    x.Count("requests_for_messages")++;
    bool ready = have < n && b.sure[have] <= pos;
    if (ready && (!got || asked)) x.Fail("read-while-message-waits", at);
    if (fin && (got || asked)) x.Fail("read-after-end", at);
    if (ready) x.Count("waiting_messages_served")++;
    if (got && asked && have < n && before >= b.sure[have]) x.Fail("read-too-far", at);
    // only the end of input can complete a message without bytes
    if (got && dry && !(r.in.ends > ends)) x.Fail("message-after-empty-read", at);
    if (dry > 1) x.Fail("several-empty-reads", at);
    if (!got && !r.out().Finished()) {
      if (dry != 1) x.Fail("gave-up-before-input-ran-out", at);
      if (r.in.closed && r.msgs.size() < n) x.Fail("message-withheld-at-end", at);
      x.Count("empty_answers")++;
    }
    if (got) x.Count("messages")++;
    if (r.out().Finished() && r.msgs.size() != n) x.Fail("finished-too-early", at);
    if (r.out().Finished()) {
      if (fin) break;
    } else if (r.in.closed && r.in.pos == r.in.total() && !got) {
      x.Fail("not-finished-at-end", at);
    }
  }
  if (!r.out().Finished()) x.Fail("not-finished", ctx);
  if (b.want.size() != r.msgs.size()) x.Fail("wrong-number-of-messages", ctx);
  uint64_t h = HashReq(g.q, b.text);
  for (size_t k : r.in.read_ends) h = Mix(h, k);
  if (r.in.read_ends.size() > 1) x.Distinct(h);
  if (x.WantSample()) x.Sample(ctx);
}

// ------------------------------------------------------------------- C25
struct Pair {
  std::string body, url;  // JSON text of the body value, bound text
  bool equal;
};
template <class T>
T Near(Choices& c, T v) {
  using U = std::make_unsigned_t<T>;
  switch (c.U(6)) {
    case 0: return T(U(v) + 1);
    case 1: return T(U(v) - 1);
    case 2: return T(U(v) ^ (U(1) << c.U(sizeof(T) * 8)));
    case 3: return T(U(0) - U(v));
    case 4: return sizeof(T) == 8 ? T(uint32_t(v)) : T(U(v) + 2);
    default: return Num<T>(c);
  }
}
template <class T>
Pair IntPair(Choices& c) {
  T v = Num<T>(c), w = c.P(1, 2) ? v : Near(c, v);
  std::string s = std::to_string(v);
  Pair p{c.P(1, 4) ? "\"" + s + "\"" : s, std::to_string(w), v == w};
  if (c.P(1, 12)) { p.url = c.P(1, 2) ? "abc" : s + "x"; p.equal = false; }
  return p;
}
template <class T>
Pair FloatPair(Choices& c, bool fl) {
  T v, w;
  auto num = [&]() -> T { return fl ? T(Flt(c, false)) : T(Dbl(c, false)); };
  if (c.P(1, 6)) v = T(int64_t(c.U(1ULL << 40))); else v = num();
  w = v;
  bool equal = c.P(1, 2);
  if (!equal) {
    switch (c.U(5)) {
      case 0: w = num(); break;
      case 1: w = v + 1; break;
      case 2: w = -v; break;
      case 3: w = v * 2; break;
      default: w = v * T(1 + 1e-5); break;
    }
    double big = std::max({1.0, fabs(double(v)), fabs(double(w))});
    if (!isfinite(double(w)) || fabs(double(v) - double(w)) < big * (fl ? 1e-5 : 1e-9)) { w = v; equal = true; }
  }
  std::string s = FloatText(v, fl);
  // an integral body number counts as integer: the bound text must be one too
  std::string t = FloatText(w, fl);
  bool integral = s.find_first_of(".e") == std::string::npos;
  if (integral && t.find_first_of(".e") != std::string::npos) equal = false;
  if (integral && s[0] != '-' && s.size() > 19) return Pair{s + ".0", t, equal};
  if (integral && s[0] == '-' && (s.size() > 19 || s == "-0")) return Pair{s + ".0", t, equal};
  if (integral && c.P(1, 2)) return Pair{s + ".0", t, double(v) == double(w)};
  return Pair{s, t, equal};
}
Pair MakePair(const FD* f, Choices& c) {
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return IntPair<int32_t>(c);
    case FD::CPPTYPE_INT64: return IntPair<int64_t>(c);
    case FD::CPPTYPE_UINT32: return IntPair<uint32_t>(c);
    case FD::CPPTYPE_UINT64: return IntPair<uint64_t>(c);
    case FD::CPPTYPE_DOUBLE: return FloatPair<double>(c, false);
    case FD::CPPTYPE_FLOAT: return FloatPair<float>(c, true);
    case FD::CPPTYPE_BOOL: {
      bool b = c.P(1, 2), u = c.P(1, 2);
      if (c.P(1, 8)) return Pair{b ? "true" : "false", "maybe", false};
      return Pair{b ? "true" : "false", u ? "true" : "false", b == u};
    }
    case FD::CPPTYPE_ENUM: {
      auto* e = f->enum_type()->value(int(c.U(f->enum_type()->value_count())));
      auto* u = c.P(1, 2) ? e : f->enum_type()->value(int(c.U(f->enum_type()->value_count())));
      if (c.P(1, 2)) return Pair{"\"" + e->name() + "\"", u->name(), e == u};
      return Pair{std::to_string(e->number()), std::to_string(u->number()), e == u};
    }
    default: {
      JsonOut j(c);
      if (f->type() == FD::TYPE_BYTES) {
        std::string v = c.Bytes(c.U(8)), w = c.P(1, 2) ? v : c.Bytes(c.U(8));
        return Pair{"\"" + Base64(v, false, true) + "\"", Base64(w, false, true), v == w};
      }
      std::string v = Text(c, 12), w = v;
      if (c.P(1, 2)) switch (c.U(4)) { case 0: w = Text(c, 12); break; case 1: w += 'x'; break; case 2: if (!w.empty() && (unsigned char)w[0] < 128) w[0] ^= 1; break; default: if (!w.empty() && (unsigned char)w.back() < 128) w.pop_back(); break; }
      return Pair{j.Quote(v), w, v == w};
    }
  }
}
Pair WktPair(const FD* f, Choices& c, bool* structured) {
  auto* d = f->message_type();
  if (IsWrapper(d)) return MakePair(d->field(0), c);
  if (d->name() == "Value") {
    auto* n = Node::descriptor();
    JsonOut j(c);
    switch (c.U(5)) {
      case 0: return MakePair(n->FindFieldByName("str_val"), c);
      case 1: { Pair p = MakePair(n->FindFieldByName("i32"), c); if (p.body[0] == '"') p = Pair{"1", "1", true}; return p; }
      case 2: return MakePair(n->FindFieldByName("bool_val"), c);
      default: {
        *structured = true;
        std::string in;
        for (uint64_t i = c.U(3); i--;) in += std::string(in.empty() ? "" : ",") + "\"k" + std::to_string(i) + "\":" + std::to_string(i);
        std::string l = c.P(1, 2) ? "1,[2],{\"a\":\"b\"}" : "";
        return Pair{c.P(1, 2) ? "{" + in + "}" : "[" + l + "]", Text(c, 8), false};
      }
    }
  }
  auto m = std::unique_ptr<pb::Message>(New(d)), m2 = std::unique_ptr<pb::Message>(New(d));
  MsgOpt o;
  FillWkt(m.get(), c, o, 1);
  FillWkt(m2.get(), c, o, 1);
  auto text = [&](const pb::Message& a) {
    std::string s;
    if (!pbutil::BinaryToJsonString(PoolResolver(), Url(d), a.SerializeAsString(), &s).ok()) return std::string();
    return s.size() > 2 ? s.substr(1, s.size() - 2) : std::string();
  };
  std::string a = text(*m), b = c.P(1, 2) ? a : text(*m2);
  if (a.empty() || b.empty()) a = b = "1s";
  return Pair{"\"" + a + "\"", b, a == b};
}
void RunC25(Choices& c, Ctx& x) {
  Req q;
  q.type = c.P(1, 3) ? Leaf::descriptor() : Node::descriptor();
  q.helper = int(c.U(2));
  q.streaming = c.P(1, 3);
  q.delim = c.P(1, 4);
  q.reject = c.P(3, 4);
  std::vector<const FD*> p;
  for (int i = 0; i < 50 && (p.empty() || p.back()->is_repeated() || p.back()->cpp_type() == FD::CPPTYPE_MESSAGE); ++i) p = RandomBindPath(q.type, c, false);
  if (p.empty() || p.back()->is_repeated() || p.back()->cpp_type() == FD::CPPTYPE_MESSAGE) return;
  auto* f = p.back();
  bool structured = false;
  Pair pr;
  if (c.P(1, 6)) {  // a well-known type instead of a scalar
    q.type = Node::descriptor();
    p.clear();
    for (uint64_t i = c.U(3); i--;) p.push_back(q.type->FindFieldByName("child_node"));
    f = q.type->FindFieldByName(c.Pick(std::vector<std::string>{"val", "val", "ts", "dur", "wrap_str", "wrap_i64", "wrap_bool", "wrap_dbl"}));
    p.push_back(f);
    pr = WktPair(f, c, &structured);
    x.Count("well_known_types")++;
  } else {
    pr = MakePair(f, c);
  }
  bool null = c.P(1, 12) && f->name() != "val";
  // the body sits at some proper prefix of the path
  size_t k = c.P(1, 2) ? 0 : c.U(p.size());
  std::vector<const FD*> bp(p.begin(), p.begin() + long(k));
  q.body = k ? PathText(bp) : c.P(1, 2) ? "*" : "";
  JsonOut j(c);
  auto name = [&](const FD* a) { return "\"" + (c.P(1, 2) ? a->name() : a->json_name()) + "\""; };
  std::string json = "{" + name(f) + ":" + j.Ws() + (null ? "null" : pr.body) + "}";
  for (size_t i = p.size() - 1; i-- > k;) {
    std::string extra = c.P(1, 4) ? ",\"zzOther\":" + j.Unknown() : "";
    json = "{" + (c.P(1, 4) ? "\"zzMore\":1," : std::string()) + name(p[i]) + ":" + json + extra + "}";
  }
  std::string body = json;
  Bind b;
  b.path = p;
  b.text = pr.url;
  q.binds.push_back(b);
  if (!null && c.P(1, 8)) q.binds.push_back(b);
  // something else bound next to it
  std::vector<Bind> other;
  if (c.P(1, 2)) {
    MsgOpt mo;
    auto op = RandomBindPath(q.type, c, false);
    if (!op.empty() && op != p && !(op.back()->is_repeated() && op.size() <= k)) {
      other.push_back(MakeBind(op, c, mo));
      q.binds.insert(q.binds.begin() + long(c.U(q.binds.size() + 1)), other[0]);
    }
  }
  // later elements of a stream may repeat the body value freely
  size_t n = 1;
  if (q.streaming) {
    n = 1 + c.U(3);
    std::string s = "[" + json;
    for (size_t i = 1; i < n; ++i) s += "," + json;
    json = s + "]";
  }
  // expected message
  std::string wrapped = body;
  for (size_t i = k; i-- > 0;) wrapped = "{\"" + p[i]->name() + "\":" + wrapped + "}";
  Lib l = LibParse(q.type, wrapped, false);
  if (!l.ok()) return;
  auto want0 = New(q.type), want = New(q.type);
  if (!want->ParseFromString(l.bytes)) abort();
  want0->CopyFrom(*want);
  bool reject = q.reject && !pr.equal && !null;
  std::string ctx = Text(q) + "\njson " + Show(json, 3000) + "\nbody value " + (null ? "null" : pr.body) + ", bound value " + Show(pr.url) + (pr.equal ? " (equal)" : " (different)");
  SetNote(ctx);
  if (null) {
    // nothing in the body: the bound value counts, if it fits
    std::string w = "{\"" + f->name() + "\":" + j.Quote(pr.url) + "}";
    for (size_t i = p.size() - 1; i-- > 0;) w = "{\"" + p[i]->name() + "\":" + w + "}";
    Lib bl = LibParse(q.type, w, false);
    if (!bl.ok()) return;
    auto bm = New(q.type);
    if (!bm->ParseFromString(bl.bytes)) abort();
    want0->MergeFrom(*bm);
  }
  for (auto& o : other) ApplyBind(want0.get(), o);
  Run r(q, json, c.P(1, 2) ? 0 : c.Size(60), c.Raw(4));
  r.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(20), c.P(1, 2) ? 0 : 2);
  x.Count("requests")++;
  if (k) x.Count("body_below_a_path")++;
  if (reject) {
    if (r.out().Status().ok()) x.Fail("conflict-accepted", ctx);
    CheckRejected(r, x, ctx);
    if (!r.msgs.empty()) x.Fail("message-despite-conflict", ctx);
    x.Count("conflicts_rejected")++;
    if (structured) x.Count("structured_conflicts_rejected")++;
  } else {
    if (!r.out().Status().ok()) x.Fail(q.reject ? "equal-values-rejected" : "rejected-though-not-asked", r.out().Status().ToString() + "\n" + ctx);
    if (r.msgs.size() != n) x.Fail("wrong-number-of-messages", ctx);
    Same(x, "wrong-message", *want0, Unframe(x, q, r.msgs[0], ctx), ctx);
    for (size_t i = 1; i < n; ++i) Same(x, "wrong-later-message", *want, Unframe(x, q, r.msgs[i], ctx), ctx);
    x.Count(null ? "body_null" : !q.reject ? "rejection_off" : "equal_values_accepted")++;
  }
  uint64_t h = HashBytes(pr.body, HashBytes(pr.url, HashBytes(f->full_name())));
  x.Distinct(h);
  if (x.WantSample()) x.Sample((reject ? "rejected: " : "accepted: ") + ctx);
}
Register r20("C20", RunC20), r21("C21", RunC21), r22("C22", RunC22), r23("C23", RunC23), r24("C24", RunC24), r25("C25", RunC25);
}  // namespace
}  // namespace vp
