// Components put together by their own interfaces: C37. The byte stream over
// a translator against the messages of a twin, and translators in a chain.
#include "doc_gen.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "pieces.h"

namespace vp {
namespace {
std::string FrameOf(const std::string& p) {
  std::string h(5, '\0');
  for (int i = 0; i < 4; ++i) h[size_t(4 - i)] = char(p.size() >> (8 * i) & 255);
  return h + p;
}
std::vector<std::string> Cut(Choices& c, const std::string& s) {
  std::vector<std::string> out;
  size_t step = c.P(1, 4) ? s.size() : 1 + c.U(s.size() / (1 + c.U(5)) + 2);
  for (size_t i = 0; i < s.size();) {
    size_t n = std::min(s.size() - i, step <= 1 ? 1 : 1 + c.U(2 * step));
    out.push_back(s.substr(i, n));
    i += n;
  }
  return out;
}
std::string StatusText(const absl::Status& s) { return s.ok() ? "OK" : std::to_string(int(s.code())) + ": " + std::string(s.message()); }

// A translator and its input.
struct Side {
  Pieces in;
  std::unique_ptr<gt::JsonRequestTranslator> req;
  std::unique_ptr<gt::ResponseToJsonTranslator> resp;
  gt::MessageStream& out() { return req ? req->Output() : *resp; }
  void Give(const std::string& s) { in.Give(s); }
};
void Open(Side& s, const Req& q) {
  auto& h = *TheWorld().h[q.helper];
  gt::RequestInfo info;
  info.message_type = h.Info()->GetTypeByTypeUrl(Url(q.type));
  info.body_field_path = q.body;
  info.reject_binding_body_field_collisions = q.reject;
  info.case_insensitive_enum_parsing = q.ci;
  for (auto& b : q.binds) info.variable_bindings.push_back({Fields(h, q.type, b.path), b.text});
  s.req = std::make_unique<gt::JsonRequestTranslator>(h.Resolver(), &s.in, std::move(info), q.streaming, q.delim);
}
struct RespOpt { const pb::Descriptor* type; int helper; bool streaming; gt::JsonResponseTranslateOptions o; };
void Open(Side& s, const RespOpt& r, gt::TranscoderInputStream* from) {
  s.resp = std::make_unique<gt::ResponseToJsonTranslator>(TheWorld().h[r.helper]->Resolver(), Url(r.type), r.streaming, from, r.o);
}

// Reads a byte stream by a random mix of calls and compares with the messages
// a twin gave. what/ctx: for reports.
class Reader {
 public:
  Reader(Ctx& x, Side& s, bool request) : x_(x), s_(s), request_(request), in_(s.out().CreateInputStream()) {}
  // Messages that may be read, and whether nothing follows them.
  std::vector<std::string> msgs;
  bool ended = false;
  std::string ctx;
  bool AllRead() { Skip(); return i_ == msgs.size(); }
  void Call(Choices& c, bool take) {
    Skip();
    bool there = i_ < msgs.size();
    bool quiet = there && (off_ > 0 || (request_ && !s_.in.closed && s_.in.BytesAvailable() == 0));
    uint64_t before = s_.in.nexts;
    std::string want = there ? msgs[i_].substr(off_) : "";
    if (!take && c.P(1, 3)) {
      int64_t n = in_->BytesAvailable();
      if (n != int64_t(want.size())) Bad("wrong-available", "available " + std::to_string(n) + ", expected " + std::to_string(want.size()));
      x_.Count("queries")++;
    } else {
      const void* d = nullptr; int n = -1;
      bool ok = in_->Next(&d, &n);
      if (there) {
        if (!ok || n <= 0) Bad("missing-bytes", std::string("a read gave ") + (ok ? "nothing" : "false") + " where " + std::to_string(want.size()) + " bytes are due");
        if (std::string_view(static_cast<const char*>(d), size_t(n)) != want) Bad("wrong-bytes", "read " + Show(std::string(static_cast<const char*>(d), size_t(n)), 300) + "\n  expected " + Show(want, 300));
        off_ += size_t(n);
        x_.Count("reads")++;
        if (!take && c.P(1, 3)) {
          int k = 1 + int(c.U(uint64_t(n)));
          in_->BackUp(k);
          off_ -= size_t(k);
          x_.Count("backups")++;
        }
      } else {
        if (ok && n != 0) Bad("unexpected-bytes", "read " + Show(std::string(static_cast<const char*>(d), size_t(std::max(n, 0))), 300));
        if (ok == ended) Bad(ok ? "end-not-seen" : "ended-early", std::string("a read without bytes gave ") + (ok ? "true" : "false"));
        if (!ok) { ++falses_; x_.Count("ends")++; }
        else x_.Count("empty_reads")++;
      }
    }
    if (quiet && s_.in.nexts != before) Bad("input-read-too-early", "translated bytes were left");
  }
  void Drain(Choices& c) { while (!AllRead()) Call(c, true); Call(c, true); }
  int falses() const { return falses_; }

 private:
  void Skip() { while (i_ < msgs.size() && off_ == msgs[i_].size()) { ++i_; off_ = 0; } }
  [[noreturn]] void Bad(const char* kind, const std::string& m) { x_.Fail(kind, m + " (message " + std::to_string(i_) + " of " + std::to_string(msgs.size()) + (ended ? ", ended" : "") + ", offset " + std::to_string(off_) + ")\n" + ctx); }
  Ctx& x_;
  Side& s_;
  bool request_;
  std::unique_ptr<gt::TranscoderInputStream> in_;
  size_t i_ = 0, off_ = 0;
  int falses_ = 0;
};
void Take(Side& s, std::vector<std::string>* to) {
  std::string m;
  while (s.out().NextMessage(&m)) to->push_back(std::move(m));
}

struct Body { Req q; std::string text; };
Body GenBody(Choices& c, bool faults) {
  DocGen g;
  g.Choose(c, c.P(2, 3));
  g.mo.den = 8;
  g.mo.text = c.P(1, 30) ? 20000 : 12;
  JsonOut j(c);
  Body b;
  if (g.q.streaming) {
    b.text = "[";
    for (size_t n = c.U(c.P(1, 8) ? 40 : 6), k = 0; k < n; ++k) {
      Doc d = g.Make(c, j, 1);
      if (k == 0) g.AddBinds(c, d.want.get(), 3);
      b.text += (k ? "," : "") + (c.P(1, 10) && g.path.empty() ? std::string("{}") : d.json);
    }
    b.text += "]";
  } else {
    Doc d = g.Make(c, j, 2);
    g.AddBinds(c, d.want.get(), 3);
    b.text = d.json;
  }
  if (faults && !b.text.empty() && c.P(1, 4)) {
    if (c.P(1, 2)) b.text.resize(c.U(b.text.size())); else b.text[c.U(b.text.size())] = "\"{}[],:x0\xff"[c.U(10)];
  }
  g.q.reject = faults && c.P(1, 4);
  b.q = g.q;
  return b;
}
RespOpt GenResp(Choices& c, const pb::Descriptor* t, bool streaming) {
  RespOpt r{t, int(c.U(2)), streaming, {}};
  r.o.stream_newline_delimited = c.P(1, 3);
  r.o.json_print_options.add_whitespace = c.P(1, 6);
  r.o.json_print_options.preserve_proto_field_names = c.P(1, 3);
  r.o.json_print_options.always_print_enums_as_ints = c.P(1, 6);
  return r;
}
struct Frames { std::string bytes; std::vector<std::string> payloads; std::vector<std::unique_ptr<pb::Message>> ms; std::vector<size_t> ends; bool broken = false; };
Frames GenFrames(Choices& c, const pb::Descriptor* t, size_t n, bool faults) {
  Frames f;
  MsgOpt mo;
  mo.den = 8;
  mo.text = c.P(1, 30) ? 20000 : 12;
  for (size_t i = 0; i < n; ++i) {
    auto m = New(t);
    if (!c.P(1, 8)) FillMessage(m.get(), c, mo, int(c.U(3)));
    f.payloads.push_back(m->SerializeAsString());
    f.bytes += FrameOf(f.payloads.back());
    f.ends.push_back(f.bytes.size());
    f.ms.push_back(std::move(m));
  }
  if (faults && c.P(1, 4)) {
    f.broken = true;
    f.bytes += c.P(1, 2) ? std::string("\x01\0\0\0\0", 5) : FrameOf("abc").substr(0, 1 + c.U(7));
  }
  return f;
}

// Twin: messages on one side, bytes on the other.
void Loop(Choices& c, Ctx& x) {
  Side a, b;
  bool request = c.P(3, 5);
  std::string text, ctx;
  if (request) {
    Body body = GenBody(c, true);
    text = body.text;
    ctx = "request " + Text(body.q) + "\nbody " + Show(text, 3000);
    Open(a, body.q);
    Open(b, body.q);
  } else {
    auto* t = c.P(1, 2) ? Leaf::descriptor() : Node::descriptor();
    bool streaming = c.P(4, 5);
    RespOpt r = GenResp(c, t, streaming);
    Frames f = GenFrames(c, t, streaming ? c.U(c.P(1, 8) ? 40 : 6) : 1, true);
    text = f.bytes;
    ctx = std::string("response ") + t->full_name() + (streaming ? " streaming" : "") + (r.o.stream_newline_delimited ? " lines" : "") + "\nframes " + Hex(text.substr(0, 1500));
    Open(a, r, &a.in);
    Open(b, r, &b.in);
  }
  auto pieces = Cut(c, text);
  ctx += "\npieces";
  for (auto& p : pieces) ctx += " " + std::to_string(p.size());
  SetNote(ctx);
  Reader r(x, b, request);
  r.ctx = ctx;
  unsigned eager = 1 + unsigned(c.U(5));
  for (size_t k = 0; k <= pieces.size(); ++k) {
    if (k < pieces.size()) { a.Give(pieces[k]); b.Give(pieces[k]); }
    if (k == pieces.size() || (k + 1 == pieces.size() && c.P(1, 2))) a.in.closed = b.in.closed = true;
    Take(a, &r.msgs);
    r.ended = a.out().Finished();
    for (size_t n = c.U(eager); n--;) r.Call(c, false);
    if (c.P(1, 3)) r.Drain(c);
  }
  for (int k = 0; k < 3; ++k) { Take(a, &r.msgs); r.ended = a.out().Finished(); r.Drain(c); }
  if (r.ended) {
    auto want = StatusText(a.out().Status()), got = StatusText(b.out().Status());
    if (want != got) x.Fail("wrong-status", "by messages " + want + ", by bytes " + got + "\n" + ctx);
    if (!b.out().Finished() || r.falses() < 1) x.Fail("end-not-seen", ctx);
    x.Count(a.out().Status().ok() ? "ended_well" : "ended_with_error")++;
  }
  x.Count(request ? "request_streams" : "response_streams")++;
  x.Count("messages") += r.msgs.size();
  uint64_t h = HashBytes(ctx);
  for (auto& m : r.msgs) h = Mix(h, m.size());
  x.Distinct(h);
  if (x.WantSample()) x.Sample(ctx);
}

// A request translator with frame headers feeds a frame reader or a response
// translator.
void Forward(Choices& c, Ctx& x) {
  Body body = GenBody(c, true);
  body.q.delim = true;
  bool read = c.P(1, 2);
  Side a, b, far;
  Open(a, body.q);
  Open(b, body.q);
  auto pipe = b.out().CreateInputStream();
  RespOpt ro = GenResp(c, body.q.type, body.q.streaming);
  std::unique_ptr<gt::MessageReader> reader;
  if (read) reader = std::make_unique<gt::MessageReader>(pipe.get()); else Open(far, ro, pipe.get());
  std::string ctx = std::string(read ? "request -> reader " : "request -> response ") + (ro.o.stream_newline_delimited ? "lines " : "") + Text(body.q) + "\nbody " + Show(body.text, 3000);
  auto pieces = Cut(c, body.text);
  ctx += "\npieces";
  for (auto& p : pieces) ctx += " " + std::to_string(p.size());
  SetNote(ctx);
  std::vector<std::string> want, got;
  auto judge = [&] {  // all that is complete came out
    if (got.size() < want.size()) x.Fail("not-forwarded", std::to_string(got.size()) + " of " + std::to_string(want.size()) + " messages came out\n" + ctx);
    if (got.size() > want.size()) x.Fail("too-many", std::to_string(got.size()) + " pieces came out for " + std::to_string(want.size()) + " messages\n" + ctx);
    for (size_t i = 0; i < want.size(); ++i) if (want[i] != got[i]) x.Fail("changed", "number " + std::to_string(i) + ": " + Show(got[i], 400) + "\n  expected " + Show(want[i], 400) + "\n" + ctx);
  };
  bool last = false;
  std::vector<std::string> framed;
  auto pull = [&] {
    framed.clear();
    Take(a, &framed);
    for (auto& m : framed) {
      std::string p = Unframe(x, body.q, m, ctx);
      if (!read) {
        std::string j;
        auto st = pbutil::BinaryToJsonString(PoolResolver(), Url(ro.type), p, &j, ro.o.json_print_options);
        if (!st.ok()) return false;  // the library's own limits
        p = !ro.streaming ? j : ro.o.stream_newline_delimited ? j + "\n" : (want.empty() ? "[" : ",") + j;
      }
      want.push_back(p);
    }
    if (!last && a.out().Finished() && !read && ro.streaming) {
      want.push_back(ro.o.stream_newline_delimited ? "" : want.empty() ? "[]" : "]");
      last = true;
    }
    if (read) {
      for (;;) {
        auto m = reader->NextMessage();
        if (!m) break;
        std::string p;
        const void* d; int n;
        while (m->Next(&d, &n)) p.append(static_cast<const char*>(d), size_t(n));
        got.push_back(p);
      }
    } else {
      Take(far, &got);
    }
    return true;
  };
  for (size_t k = 0; k <= pieces.size(); ++k) {
    if (k < pieces.size()) { a.Give(pieces[k]); b.Give(pieces[k]); } else a.in.closed = b.in.closed = true;
    if (k == pieces.size() || c.P(2, 3)) {
      // both sides take every piece as soon as the other one does
      if (!pull()) { x.Count("left_out")++; return; }
      judge();
    }
  }
  if (!pull()) { x.Count("left_out")++; return; }
  judge();
  if (a.out().Finished()) {
    bool open = !read && !ro.streaming && !a.out().Status().ok();
    bool fin = read ? reader->Finished() : far.out().Finished();
    auto st = read ? reader->Status() : far.out().Status();
    if (!open && (!fin || !st.ok())) x.Fail("end-not-forwarded", std::string(fin ? "finished, " : "not finished, ") + StatusText(st) + "\n" + ctx);
    if (StatusText(a.out().Status()) != StatusText(b.out().Status())) x.Fail("wrong-status", ctx);
  }
  x.Count(read ? "chains_to_reader" : "chains_to_response")++;
  x.Count("messages") += want.size();
  x.Distinct(HashBytes(ctx));
  if (x.WantSample()) x.Sample(ctx);
}

// A response translator feeds a request translator.
void Back(Choices& c, Ctx& x) {
  auto* t = c.P(1, 2) ? Leaf::descriptor() : Node::descriptor();
  bool streaming = c.P(4, 5);
  RespOpt ro = GenResp(c, t, streaming);
  ro.o.stream_newline_delimited = false;
  Frames f = GenFrames(c, t, streaming ? c.U(c.P(1, 8) ? 40 : 6) : 1, streaming);
  Side b, far;
  Open(b, ro, &b.in);
  auto pipe = b.out().CreateInputStream();
  Req q;
  q.type = t;
  q.body = c.P(1, 2) ? "*" : "";
  q.streaming = streaming;
  q.delim = c.P(1, 2);
  q.helper = int(c.U(2));
  auto& h = *TheWorld().h[q.helper];
  gt::RequestInfo info;
  info.message_type = h.Info()->GetTypeByTypeUrl(Url(t));
  info.body_field_path = q.body;
  far.req = std::make_unique<gt::JsonRequestTranslator>(h.Resolver(), pipe.get(), std::move(info), streaming, q.delim);
  std::string ctx = std::string("response -> request ") + t->full_name() + (streaming ? " streaming" : "") + (f.broken ? ", broken at the end" : "") + "\nframes " + Hex(f.bytes.substr(0, 1500));
  auto pieces = Cut(c, f.bytes);
  ctx += "\npieces";
  for (auto& p : pieces) ctx += " " + std::to_string(p.size());
  SetNote(ctx);
  std::vector<std::string> got;
  size_t at = 0;
  for (size_t k = 0; k <= pieces.size(); ++k) {
    if (k < pieces.size()) { b.Give(pieces[k]); at += pieces[k].size(); } else b.in.closed = true;
    if (k < pieces.size() && c.P(1, 3)) continue;
    Take(far, &got);
    size_t due = size_t(std::upper_bound(f.ends.begin(), f.ends.end(), at) - f.ends.begin());
    if (got.size() != due) x.Fail("not-forwarded", std::to_string(got.size()) + " messages came out of " + std::to_string(due) + " complete frames\n" + ctx);
  }
  Take(far, &got);
  if (got.size() != f.ms.size()) x.Fail("wrong-number-of-messages", std::to_string(got.size()) + " of " + std::to_string(f.ms.size()) + "\n" + ctx);
  for (size_t i = 0; i < got.size(); ++i) Same(x, "changed", *f.ms[i], Unframe(x, q, got[i], ctx), "message " + std::to_string(i) + "\n" + ctx);
  auto st = far.out().Status();
  if (!far.out().Finished() || st.ok() == f.broken) x.Fail("end-not-forwarded", std::string(far.out().Finished() ? "finished, " : "not finished, ") + StatusText(st) + "\n" + ctx);
  if (f.broken && b.out().Status().ok()) x.Fail("error-lost", ctx);
  x.Count("chains_to_request")++;
  x.Count("messages") += got.size();
  x.Distinct(HashBytes(ctx));
  if (x.WantSample()) x.Sample(ctx);
}

void RunC37(Choices& c, Ctx& x) {
  TheWorld();
  switch (c.U(5)) {
    case 0: case 1: return Loop(c, x);
    case 2: case 3: return Forward(c, x);
    default: return Back(c, x);
  }
}
Register r37("C37", RunC37);
}  // namespace
}  // namespace vp
