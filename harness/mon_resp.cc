// Response translation monitors: C18 C19 C29, and C31 (hostile input to all
// translators).
#include "grpc_transcoding/response_to_json_translator.h"
#include "req_run.h"

namespace vp {
namespace {

std::string Frame(const std::string& p) {
  uint32_t n = uint32_t(p.size());
  std::string h(5, '\0');
  for (int i = 0; i < 4; ++i) h[1 + i] = char(n >> (24 - 8 * i));
  return h + p;
}
struct Resp {
  const pb::Descriptor* type = Node::descriptor();
  bool streaming = false;
  int helper = 0;
  gt::JsonResponseTranslateOptions o{};
};
std::string Text(const Resp& q) {
  auto& p = q.o.json_print_options;
  return "type " + q.type->full_name() + (q.streaming ? " streaming" : "") + (q.o.stream_newline_delimited ? " newlines" : "") + (p.add_whitespace ? " whitespace" : "") + (p.always_print_primitive_fields ? " primitives" : "") +
         (p.always_print_enums_as_ints ? " enum-ints" : "") + (p.preserve_proto_field_names ? " proto-names" : "") + (q.helper ? " type lists" : "");
}
Resp ChooseResp(Choices& c) {
  Resp q;
  q.type = c.P(1, 3) ? Leaf::descriptor() : Node::descriptor();
  q.streaming = c.P(2, 3);
  q.helper = int(c.U(2));
  q.o.stream_newline_delimited = c.P(1, 3);
  auto& p = q.o.json_print_options;
  p.add_whitespace = c.P(1, 6);
  p.always_print_primitive_fields = c.P(1, 6);
  p.always_print_enums_as_ints = c.P(1, 6);
  p.preserve_proto_field_names = c.P(1, 6);
  return q;
}
class RespRun {
 public:
  RespRun(const Resp& q, std::string bytes, size_t chunk, uint64_t seed)
      : in(std::move(bytes), chunk, seed), t(std::make_unique<gt::ResponseToJsonTranslator>(TheWorld().h[q.helper]->Resolver(), Url(q.type), q.streaming, &in, q.o)) {}
  bool Poll() {
    std::string m = Stale(polls_++, out);
    if (!t->NextMessage(&m)) return false;
    out.push_back(std::move(m));
    return true;
  }
  JsonInput in;
  std::unique_ptr<gt::ResponseToJsonTranslator> t;
  std::vector<std::string> out;

 private:
  unsigned polls_ = 0;
};
// The whole payload through the library alone.
bool LibJson(const Resp& q, const std::string& payload, std::string* json) {
  return pbutil::BinaryToJsonString(PoolResolver(), Url(q.type), payload, json, q.o.json_print_options).ok();
}
// The converter of protobuf 3.21 does not terminate on a packed list whose
// length leads behind the end of the payload or that holds an endless varint.
// That is the library's: such payloads are not given to it.
bool Terminates(const pb::Descriptor* d, const uint8_t* p, size_t n, int depth) {
  if (depth > 60) return false;
  size_t i = 0;
  auto varint = [&](uint64_t* v) {  // 0: runs into the end, -1: too long, 1: fine
    *v = 0;
    for (int k = 0; k < 10; ++k) {
      if (i >= n) return 0;
      *v |= uint64_t(p[i] & 127) << (7 * k);
      if (!(p[i++] & 128)) return 1;
    }
    return -1;
  };
  while (i < n) {
    uint64_t tag, v;
    int r = varint(&tag);
    if (r == 0 || tag == 0) return depth == 0;  // the outer message goes on inside otherwise
    if (r < 0 || tag < 8 || tag > 0xffffffff) return false;
    auto* f = d ? d->FindFieldByNumber(int(tag >> 3)) : nullptr;
    switch (tag & 7) {
      case 0: r = varint(&v); if (r <= 0) return r == 0 && depth == 0; break;
      case 1: i += 8; break;
      case 5: i += 4; break;
      case 2: {
        r = varint(&v);
        if (r < 0 || v > 0x7fffffff) return false;
        if (r == 0) return depth == 0;
        bool over = v > n - i;
        size_t m = over ? n - i : size_t(v);
        if (f && f->cpp_type() == FD::CPPTYPE_MESSAGE) {
          if (!Terminates(f->message_type(), p + i, m, depth + 1)) return false;
        } else if (f && f->is_repeated() && f->cpp_type() != FD::CPPTYPE_STRING) {
          if (over) return false;
          size_t end = i + m, save = n;
          n = end;
          int w = f->type() == FD::TYPE_DOUBLE || f->type() == FD::TYPE_FIXED64 || f->type() == FD::TYPE_SFIXED64 ? 8 : f->type() == FD::TYPE_FLOAT || f->type() == FD::TYPE_FIXED32 || f->type() == FD::TYPE_SFIXED32 ? 4 : 0;
          if (w && m % size_t(w)) return false;
          while (i < end) { if (w) i += size_t(w); else if (varint(&v) <= 0) return false; }
          n = save;
          continue;
        } else if (d == pb::Any::descriptor()) {
          if (!Terminates(Leaf::descriptor(), p + i, m, depth + 1)) return false;
        }
        if (over) return depth == 0;
        i += m;
        break;
      }
      default: return false;  // groups and unknown wire types are not skipped
    }
  }
  return i == n || depth == 0;
}
bool Terminates(const Resp& q, const std::string& p) { return Terminates(q.type, reinterpret_cast<const uint8_t*>(p.data()), p.size(), 0); }
std::string Payload(const Resp& q, Choices& c, const MsgOpt& o, int depth) {
  auto m = New(q.type);
  FillMessage(m.get(), c, o, depth);
  std::string s;
  m->SerializeToString(&s);
  if (c.P(1, 8)) {  // unknown fields
    auto u = New(Leaf::descriptor());
    auto* set = u->GetReflection()->MutableUnknownFields(u.get());
    for (uint64_t n = 1 + c.U(2); n--;) {
      int no = 900 + int(c.U(50));
      switch (c.U(4)) {
        case 0: set->AddVarint(no, c.Raw(8)); break;
        case 1: set->AddFixed32(no, uint32_t(c.Raw(4))); break;
        case 2: set->AddFixed64(no, c.Raw(8)); break;
        default: set->AddLengthDelimited(no, c.Bytes(c.U(20))); break;
      }
    }
    std::string e = u->SerializeAsString();
    s = c.P(1, 2) ? s + e : e + s;
  }
  return s;
}
// What must come out: pieces with the input offset at which each is complete.
struct Expect {
  std::vector<std::string> out;
  std::vector<size_t> at;
  bool ends = false;  // whether the last piece needs the end of input
};
Expect Pieces(const Resp& q, const std::vector<std::string>& json, const std::vector<size_t>& at) {
  Expect e;
  bool array = q.streaming && !q.o.stream_newline_delimited;
  for (size_t i = 0; i < json.size(); ++i) {
    e.out.push_back(!q.streaming ? json[i] : array ? (i ? "," : "[") + json[i] : json[i] + "\n");
    e.at.push_back(at[i]);
    if (!q.streaming) return e;
  }
  if (q.streaming) {
    e.out.push_back(array ? (json.empty() ? "[]" : "]") : "");
    e.at.push_back(at.empty() ? 0 : at.back());
    e.ends = true;
  }
  return e;
}

// ------------------------------------------------------------------- C18
void RunC18(Choices& c, Ctx& x) {
  Resp q = ChooseResp(c);
  MsgOpt o;
  o.special = true;
  o.den = 3 + unsigned(c.U(20));
  o.text = c.P(1, 60) ? 70000 : 12;
  size_t n = q.streaming ? (c.P(1, 300) ? c.Big(1300) : c.P(1, 40) ? c.U(60) : c.U(6)) : 1 + c.U(2);
  if (n > 60) { o.den = 40; o.text = 8; }
  bool deep = c.P(1, 60);
  std::string bytes, note;
  std::vector<std::string> json;
  std::vector<size_t> at;
  for (size_t i = 0; i < n; ++i) {
    std::string p = c.P(1, 8) ? "" : Payload(q, c, o, n > 60 ? 0 : int(c.U(3))), j;
    if (deep && q.type == Node::descriptor()) {  // many messages inside each other
      Node top;
      auto* m = &top;
      for (size_t k = c.U(60); k--;) { m = m->mutable_child_node(); if (c.P(1, 8)) FillField(m, m->GetDescriptor()->FindFieldByName("str_val"), c, o, 0); }
      p += top.SerializeAsString();
    }
    if (!LibJson(q, p, &j)) return;
    bytes += Frame(p);
    at.push_back(bytes.size());
    json.push_back(j);
    note += " " + Hex(p.substr(0, 200));
  }
  Expect e = Pieces(q, json, at);
  std::string ctx = Text(q) + "\npayloads" + note.substr(0, 3000);
  SetNote(ctx);
  RespRun r(q, bytes, c.P(1, 3) ? 0 : c.Size(300), c.Raw(4));
  size_t step = c.P(1, 4) ? 0 : c.P(1, 2) ? 1 + c.U(8) : 1 + c.U(200);
  if (step && step < bytes.size() / 500) step = bytes.size() / 500;
  for (int closed = 0; closed < 3;) {
    if (r.in.arrived == r.in.total() && c.P(2, 3)) r.in.closed = true;
    else r.in.Arrive(step ? 1 + c.U(2 * step) : r.in.total());
    if (r.in.closed) ++closed;
    for (uint64_t polls = c.P(1, 2) ? 1000 : 1 + c.U(3); polls--;) {
      size_t have = r.out.size(), due = 0;
      while (due < e.out.size() && e.at[due] <= r.in.arrived && (!e.ends || due + 1 < e.out.size() || r.in.closed)) ++due;
      bool got = r.Poll();
      std::string now = "poll at " + std::to_string(r.in.arrived) + " of " + std::to_string(r.in.total()) + " bytes" + (r.in.closed ? " (ended)" : "") + ", " + std::to_string(have) + " pieces before, " + std::to_string(due) + " due\n" + ctx;
      if (!r.t->Status().ok()) x.Fail("valid-response-rejected", r.t->Status().ToString() + "\n" + now);
      if (got != (have < due)) x.Fail(got ? "unexpected-output" : "output-missing", (got ? Show(r.out.back(), 300) + "\n" : "") + now);
      if (got && r.out.back() != e.out[have]) x.Fail("wrong-output", "expected " + Show(e.out[have], 2000) + "\n     got " + Show(r.out.back(), 2000) + "\n" + now);
      bool fin = r.out.size() == e.out.size();
      if (r.t->Finished() != fin) x.Fail("wrong-finished", std::string(fin ? "not " : "") + "finished\n" + now);
      x.Count(got ? "pieces" : "empty_polls")++;
      if (!got) break;
    }
  }
  if (r.out.size() != e.out.size()) {
    while (r.Poll()) {}
    if (r.out != e.out) x.Fail("wrong-output", "after the end\n" + ctx);
  }
  x.Count(q.streaming ? q.o.stream_newline_delimited ? "newline_streams" : "array_streams" : "unary")++;
  uint64_t h = HashBytes(bytes, HashBytes(Text(q)));
  for (size_t k : r.in.read_ends) h = Mix(h, k);
  x.Distinct(h);
  if (x.WantSample()) x.Sample(ctx);
}

// ------------------------------------------------------------------- C19
// Whether the library stops (at a zero tag) before the end of the payload.
bool StopsEarly(const Resp& q, const std::string& p) {
  pb::io::ArrayInputStream in(p.data(), int(p.size()));
  std::string s;
  pb::io::StringOutputStream out(&s);
  return pbutil::BinaryToJsonStream(PoolResolver(), Url(q.type), &in, &out, q.o.json_print_options).ok() && size_t(in.ByteCount()) < p.size();
}
// Payloads that are good protobuf but have no JSON form: dates out of range,
// unknown types in an Any, too deep nesting.
std::string Refused(const Resp& q, Choices& c) {
  if (q.type == Leaf::descriptor() || c.P(1, 6)) {
    std::string s;
    for (size_t n = 66 + c.U(40); n--;) {
      std::string len;
      for (size_t v = s.size(); ; v >>= 7) { len += char((v & 127) | (v > 127 ? 128 : 0)); if (v <= 127) break; }
      s = (q.type == Leaf::descriptor() ? "\x2a" : "\xda\x02") + len + s;
    }
    return s;
  }
  Node top, *m = &top;
  for (uint64_t n = c.U(4); n--;) m = m->mutable_child_node();
  switch (c.U(5)) {
    case 0: m->mutable_ts()->set_seconds(c.P(1, 2) ? 253402300800 + int64_t(c.U(100000)) : -62135596801 - int64_t(c.U(100000))); break;
    case 1: m->mutable_dur()->set_seconds(c.P(1, 2) ? 315576000001 : -315576000001); break;
    case 2: m->mutable_any_val()->set_type_url(c.P(1, 2) ? "type.googleapis.com/no.Such" : "vp.Leaf"); m->mutable_any_val()->set_value("\x58\x01"); break;
    case 3: m->mutable_ts()->set_nanos(c.P(1, 2) ? -1 : 1000000000); break;
    default: m->mutable_dur()->set_nanos(c.P(1, 2) ? -1000000000 : 1000000000); break;
  }
  if (c.P(1, 2)) m->set_str_val("x");
  return top.SerializeAsString();
}
void RunC19(Choices& c, Ctx& x) {
  Resp q = ChooseResp(c);
  MsgOpt o;
  o.special = true;
  o.den = 3 + unsigned(c.U(12));
  size_t n = q.streaming ? c.U(5) : 0;
  std::string bytes, note;
  std::vector<std::string> json;
  std::vector<size_t> at;
  for (size_t i = 0; i < n; ++i) {
    std::string p = c.P(1, 5) ? "" : Payload(q, c, o, int(c.U(2))), j;
    if (!LibJson(q, p, &j)) return;
    bytes += Frame(p);
    at.push_back(bytes.size());
    json.push_back(j);
    note += " " + Hex(p.substr(0, 200));
  }
  size_t good = bytes.size(), by;  // the fault starts at good; must be known at by (end of input: npos)
  const char* kind;
  bool bad = true;
  note += " | ";
  std::string fault;
  switch (c.U(5)) {
    case 0: {  // frame flag
      fault = Frame(c.P(1, 2) ? "" : Payload(q, c, o, 1));
      fault[0] = char(1 + c.U(255));
      kind = "bad_frame_flags";
      by = good + 5;
      break;
    }
    case 1: {  // cut
      fault = Frame(Payload(q, c, o, 1) + "\x18\x01");
      fault.resize(1 + c.U(fault.size() - 1));
      kind = "cut_frames";
      by = std::string::npos;
      break;
    }
    default: {
      std::string p = Payload(q, c, o, int(c.U(2))), j;
      bool known = false;
      switch (c.U(8)) {
        case 6: case 7: p = c.P(1, 2) ? Refused(q, c) : p + Refused(q, c); known = true; break;
        case 0: p.resize(c.U(p.size() + 1)); break;
        case 1: p.insert(c.U(p.size() + 1), 1, '\0'); break;
        case 2: p += "\x0a\x7f"; break;
        case 3: if (!p.empty()) p[c.U(p.size())] = char(c.Raw(1)); break;
        case 4: p = c.Bytes(c.U(30)); break;
        default: p += std::string("\0", 1) + c.Bytes(c.U(4)); break;
      }
      if (!known && !Terminates(q, p)) { x.Count("not_judged_payloads")++; return; }
      auto m = New(q.type);
      bool lib = LibJson(q, p, &j), parses = m->ParseFromString(p);
      if (!lib) kind = "payloads_refused_by_the_library";
      else if (StopsEarly(q, p)) kind = "zero_tags";
      else if (parses) { bad = false; kind = "odd_but_valid_payloads"; }
      else { x.Count("not_judged_payloads")++; return; }
      fault = Frame(p);
      by = good + fault.size();
      if (!bad) { json.push_back(j); at.push_back(by); }
    }
  }
  bytes += fault;
  note += Hex(fault.substr(0, 300));
  if (by != std::string::npos && (q.streaming || bad)) {  // more frames behind it
    for (uint64_t k = c.U(3); k--;) {
      std::string p = Payload(q, c, o, 1), j;
      if (!bad) {
        if (!LibJson(q, p, &j)) continue;
        json.push_back(j);
        at.push_back(bytes.size() + p.size() + 5);
      }
      bytes += Frame(p);
    }
  }
  Expect e = Pieces(q, json, at);
  if (bad && q.streaming) { e.out.pop_back(); e.at.pop_back(); e.ends = false; }
  std::string ctx = Text(q) + "\npayloads" + note.substr(0, 3000) + " (" + kind + ")";
  SetNote(ctx);
  RespRun r(q, bytes, c.P(1, 3) ? 0 : c.Size(300), c.Raw(4));
  size_t step = c.P(1, 4) ? 0 : 1 + c.U(c.P(1, 2) ? 6 : 80);
  bool failed = false;
  absl::Status st;
  for (int closed = 0; closed < 4;) {
    if (r.in.arrived == r.in.total() && c.P(2, 3)) r.in.closed = true;
    else r.in.Arrive(step ? 1 + c.U(2 * step) : r.in.total());
    if (r.in.closed) ++closed;
    for (int polls = c.P(1, 2) ? 1000 : 1 + int(c.U(3)); polls--;) {
      size_t have = r.out.size(), due = 0;
      while (due < e.out.size() && e.at[due] <= r.in.arrived && (!e.ends || due + 1 < e.out.size() || r.in.closed)) ++due;
      bool got = r.Poll();
      std::string now = "poll at " + std::to_string(r.in.arrived) + " of " + std::to_string(r.in.total()) + " bytes" + (r.in.closed ? " (ended)" : "") + ", " + std::to_string(have) + " pieces before, fault at " + std::to_string(good) + "\n" + ctx;
      bool ok = r.t->Status().ok();
      if (failed) {
        if (got) x.Fail("output-after-error", Show(r.out.back(), 300) + "\n" + now);
        if (ok || r.t->Status().code() != st.code() || r.t->Status().message() != st.message()) x.Fail("error-changed", st.ToString() + " -> " + r.t->Status().ToString() + "\n" + now);
        x.Count("polls_after_error")++;
      }
      if (got && (have >= due || r.out.back() != e.out[have])) x.Fail("wrong-output", (have < e.out.size() ? "expected " + Show(e.out[have], 800) : std::string("nothing expected")) + "\n     got " + Show(r.out.back(), 800) + "\n" + now);
      if (!got && have < due) x.Fail("earlier-message-lost", now);
      if (!ok) {
        if (!bad) x.Fail("valid-response-rejected", r.t->Status().ToString() + "\n" + now);
        if (r.out.size() < e.out.size()) x.Fail("error-before-earlier-messages", r.t->Status().ToString() + "\n" + now);
        if (r.in.arrived <= good) x.Fail("error-too-early", r.t->Status().ToString() + "\n" + now);
        if (!r.t->Finished()) x.Fail("error-but-not-finished", now);
        if (!failed) x.Count("errors")++;
        failed = true;
        st = r.t->Status();
      } else if (r.t->Finished() && bad) {
        x.Fail("finished-without-error", now);
      } else if (bad && !got && have == e.out.size() && (by == std::string::npos ? r.in.closed : r.in.arrived >= by)) {
        x.Fail("fault-not-reported", now);
      }
      if (!got) break;
    }
  }
  if (!bad && !r.t->Finished()) { while (r.Poll()) {} if (!r.t->Finished() || r.out != e.out) x.Fail("wrong-output", ctx); }
  if (bad && !failed) { while (r.Poll()) {} if (r.t->Status().ok()) x.Fail("fault-not-reported", ctx); }
  x.Count(kind)++;
  x.Count("pieces_before_the_fault") += e.out.size();
  uint64_t h = HashBytes(bytes, HashBytes(Text(q)));
  for (size_t k : r.in.read_ends) h = Mix(h, k);
  x.Distinct(h);
  if (x.WantSample()) x.Sample(ctx);
}

// ------------------------------------------------------------------- C29
std::string RespondAll(RespRun& r, Choices& c, Ctx& x, const std::string& ctx) {
  size_t step = c.P(1, 3) ? 0 : 1 + c.Size(200);
  for (int left = 6; left;) {
    if (r.in.arrived < r.in.total()) r.in.Arrive(step ? 1 + c.U(2 * step) : r.in.total());
    else { r.in.closed = true; --left; }
    while (r.Poll()) {}
    if (r.t->Finished()) break;
  }
  if (!r.t->Status().ok() || !r.t->Finished()) x.Fail("response-failed", r.t->Status().ToString() + "\n" + ctx);
  std::string s;
  for (auto& p : r.out) s += p;
  return s;
}
void RunC29(Choices& c, Ctx& x) {
  Resp q = ChooseResp(c);
  q.o.json_print_options.always_print_primitive_fields = false;
  MsgOpt o;
  o.special = true;
  o.den = 2 + unsigned(c.U(20));
  o.text = c.P(1, 60) ? 70000 : 12;
  size_t n = q.streaming ? c.U(5) : 1;
  std::vector<std::unique_ptr<pb::Message>> ms;
  std::string bytes, note;
  for (size_t i = 0; i < n; ++i) {
    ms.push_back(New(q.type));
    FillMessage(ms.back().get(), c, o, int(c.U(4)));
    bytes += Frame(ms.back()->SerializeAsString());
    note += " {" + ms.back()->ShortDebugString().substr(0, 1500) + "}";
  }
  std::string ctx = Text(q) + "\nmessages" + note.substr(0, 3000);
  SetNote(ctx);
  RespRun r(q, bytes, c.P(1, 3) ? 0 : c.Size(300), c.Raw(4));
  std::string json = RespondAll(r, c, x, ctx);
  ctx += "\njson " + Show(json, 3000);
  SetNote(ctx);
  std::vector<std::string> back;
  Req rq;
  rq.type = q.type;
  rq.body = c.P(1, 2) ? "*" : "";
  rq.delim = c.P(1, 2);
  rq.helper = int(c.U(2));
  auto take = [&](const std::string& text, bool streaming) {
    rq.streaming = streaming;
    Run k(rq, text, c.P(1, 3) ? 0 : c.Size(100), c.Raw(4));
    k.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(60), c.P(1, 2) ? 0 : 3);
    if (!k.out().Status().ok() || !k.out().Finished()) x.Fail("own-json-refused", k.out().Status().ToString() + "\n" + ctx);
    for (auto& m : k.msgs) back.push_back(m);
  };
  if (q.streaming && q.o.stream_newline_delimited) {
    // one request per piece
    if (r.out.size() != n + 1) x.Fail("wrong-number-of-lines", std::to_string(r.out.size()) + "\n" + ctx);
    for (size_t i = 0; i < n; ++i) take(r.out[i], false);
  } else {
    take(json, q.streaming);
  }
  if (back.size() != n) x.Fail("wrong-number-of-messages", std::to_string(back.size()) + " of " + std::to_string(n) + "\n" + ctx);
  for (size_t i = 0; i < n; ++i) Same(x, "message-changed", *ms[i], Unframe(x, rq, back[i], ctx), "message " + std::to_string(i) + "\n" + ctx);
  x.Count("round_trips") += n;
  x.Count(q.streaming ? q.o.stream_newline_delimited ? "newline_streams" : "array_streams" : "unary")++;
  x.Distinct(HashBytes(bytes, HashBytes(Text(q))));
  if (x.WantSample()) x.Sample(ctx);
}

// ------------------------------------------------------------------- C31
std::string Hostile(Choices& c, const std::string& from) {
  std::string s = from;
  for (uint64_t n = c.U(5); n--;) {
    size_t i = c.U(s.size() + 1);
    switch (c.U(6)) {
      case 0: s.resize(i); break;
      case 1: s.insert(i, c.Bytes(c.U(6))); break;
      case 2: if (i < s.size()) s[i] = char(c.Raw(1)); break;
      case 3: s.insert(i, c.From("{}[]\",:\\u0d8f-+.eE 1ntf", 1 + c.U(8))); break;
      case 4: s.insert(i, s.substr(c.U(s.size() + 1), c.U(60))); break;
      default: s.insert(i, std::string(1 + c.U(c.P(1, 8) ? 3000 : 130), "{[\"9\\\xf0"[c.U(6)])); break;
    }
  }
  return s;
}
void HostileTranslators(Choices& c, Ctx& x, bool count) {
  MsgOpt mo;
  mo.special = true;
  if (c.P(1, 2)) {
    // request
    Req q;
    q.type = c.P(1, 2) ? Leaf::descriptor() : Node::descriptor();
    q.streaming = c.P(1, 2);
    q.delim = c.P(1, 2);
    q.reject = c.P(1, 2);
    q.ci = c.P(1, 2);
    q.helper = int(c.U(2));
    switch (c.U(4)) { case 0: q.body = "*"; break; case 1: q.body = ""; break; case 2: q.body = c.From(".abl_f", c.U(8)); break; default: { auto p = RandomBindPath(q.type, c, true); q.body = PathText(p); if (c.P(1, 3)) q.body += c.From(".x", c.U(3)); } }
    for (uint64_t n = c.U(5); n--;) {
      auto p = RandomBindPath(q.type, c, true);
      if (p.empty() || c.P(1, 30)) { Bind e; e.text = "nowhere"; q.binds.push_back(e); continue; }
      Bind b = MakeBind(p, c, mo);
      if (c.P(1, 2)) b.text = Hostile(c, b.text);
      q.binds.push_back(b);
      if (c.P(1, 6)) q.binds.push_back(b);
    }
    std::string text;
    {
      JsonOut j(c);
      auto m = New(q.type);
      FillMessage(m.get(), c, mo, int(c.U(3)));
      text = j.Of(*m);
      if (q.streaming) text = "[" + text + (c.P(1, 2) ? "," + text : "") + "]";
    }
    text = c.P(1, 8) ? c.Bytes(c.U(60)) : c.P(1, 4) ? text : Hostile(c, text);
    SetNote(Text(q) + "\njson " + Show(text, 3500));
    Run r(q, text, c.P(1, 3) ? 0 : c.Size(100), c.Raw(4));
    for (uint64_t n = c.U(40); n--;) {
      if (c.P(1, 2)) r.in.Arrive(c.P(1, 3) ? r.in.total() : c.U(60));
      if (c.P(1, 8)) r.in.closed = true;
      r.Poll();
      (void)r.out().Finished();
      (void)r.out().Status().ToString();
      if (count) x.Count("request_polls")++;
    }
    if (c.P(1, 2)) {
      r.in.All();
      for (int i = 0; i < 30; ++i) r.Poll();
    }
    if (c.P(1, 4)) {
      // the rest as a byte stream
      auto s = r.out().CreateInputStream();
      for (int i = 0; i < 6; ++i) { const void* d; int n; if (!s->Next(&d, &n)) break; if (n > 0 && c.P(1, 2)) s->BackUp(int(c.U(uint64_t(n) + 1))); }
    }
    if (count) { x.Count("messages") += r.msgs.size(); x.Count(r.out().Status().ok() ? "requests_without_error" : "requests_with_error")++; }
  } else {
    Resp q = ChooseResp(c);
    std::string bytes;
    for (uint64_t n = c.U(4); n--;) {
      std::string p = Payload(q, c, mo, int(c.U(3)));
      if (c.P(1, 2)) { std::string h = Hostile(c, p); if (Terminates(q, h)) p = h; }
      bytes += Frame(p);
    }
    if (c.P(1, 3)) bytes = Hostile(c, bytes);
    // every payload the reader would find
    for (size_t i = 0; i + 5 <= bytes.size();) {
      size_t n = 0;
      for (int k = 1; k < 5; ++k) n = n << 8 | (unsigned char)bytes[i + size_t(k)];
      if (bytes[i] || n > bytes.size() - i - 5) break;
      if (!Terminates(q, bytes.substr(i + 5, n))) bytes.resize(i);
      i += 5 + n;
    }
    SetNote(Text(q) + "\nbytes " + Hex(bytes.substr(0, 1700)));
    RespRun r(q, bytes, c.P(1, 3) ? 0 : c.Size(100), c.Raw(4));
    for (uint64_t n = c.U(30); n--;) {
      if (c.P(1, 2)) r.in.Arrive(c.P(1, 3) ? r.in.total() : c.U(60));
      if (c.P(1, 8)) r.in.closed = true;
      r.Poll();
      (void)r.t->Finished();
      (void)r.t->Status().ToString();
      if (count) x.Count("response_polls")++;
    }
    if (count) { x.Count("pieces") += r.out.size(); x.Count(r.t->Status().ok() ? "responses_without_error" : "responses_with_error")++; }
  }
}
void RunC31(Choices& c, Ctx& x) {
  Choices again = c;
  size_t before = AllocatedBytes();
  HostileTranslators(c, x, true);
  if (AllocatedBytes() != before) {
    size_t grown[3];
    for (auto& g : grown) {
      Choices k = again;
      size_t b = AllocatedBytes();
      HostileTranslators(k, x, false);
      g = AllocatedBytes() - b;
    }
    if (grown[0] && grown[1] && grown[2]) x.Fail("leak", "allocated bytes grow by " + std::to_string(grown[2]) + " per repetition of the case although everything was destroyed");
  }
  x.Count("cases_balanced")++;
  Choices k = again;
  uint64_t h = 0;
  for (int i = 0; i < 8; ++i) h = Mix(h, k.Raw(8));
  x.Distinct(h);
  if (x.WantSample()) x.Sample("hostile translation " + std::to_string(h) + ": no error, allocations balanced");
}
Register r18("C18", RunC18), r19("C19", RunC19), r29("C29", RunC29), r31("C31", RunC31);
}  // namespace
}  // namespace vp
