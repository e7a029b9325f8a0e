// A request translation run by hand, and comparisons of its messages.
#pragma once
#include "grpc_transcoding/json_request_translator.h"
#include "json_world.h"

namespace vp {
struct Req {
  const pb::Descriptor* type = Node::descriptor();
  std::string body = "*";
  std::vector<Bind> binds;
  bool streaming = false, delim = false, reject = false, ci = false;
  int helper = 0;
};
inline std::string Text(const Req& q) {
  std::string o = "type " + q.type->full_name() + " body \"" + q.body + "\"" + (q.streaming ? " streaming" : "") + (q.delim ? " delimiters" : "") + (q.reject ? " reject-collisions" : "") + (q.ci ? " case-insensitive-enums" : "") + " bindings";
  for (auto& b : q.binds) o += " " + PathText(b.path) + "=" + Show(b.text, 60);
  return o;
}

// One translator run by hand.
class Run {
 public:
  Run(const Req& q, std::string json, size_t chunk, uint64_t seed) : in(std::move(json), chunk, seed) {
    auto& h = *TheWorld().h[q.helper];
    gt::RequestInfo info;
    info.message_type = h.Info()->GetTypeByTypeUrl(Url(q.type));
    info.body_field_path = q.body;
    info.reject_binding_body_field_collisions = q.reject;
    info.case_insensitive_enum_parsing = q.ci;
    for (auto& b : q.binds) info.variable_bindings.push_back({Fields(h, q.type, b.path), b.text});
    t = std::make_unique<gt::JsonRequestTranslator>(h.Resolver(), &in, std::move(info), q.streaming, q.delim);
  }
  Run(gt::TypeHelper& h, gt::RequestInfo info, bool streaming, bool delim, std::string json, size_t chunk, uint64_t seed) : in(std::move(json), chunk, seed) {
    t = std::make_unique<gt::JsonRequestTranslator>(h.Resolver(), &in, std::move(info), streaming, delim);
  }
  gt::MessageStream& out() { return t->Output(); }
  // One request for a message; true if there was one.
  bool Poll() {
    std::string m = Stale(polls_++, msgs);
    bool ok = out().NextMessage(&m);
    if (ok) msgs.push_back(std::move(m));
    return ok;
  }
  // Gives bytes in pieces and polls until the end or until nothing moves.
  void Drive(Choices& c, size_t step, unsigned idle) {
    for (int still = 0; still < 4;) {
      if (idle && c.P(1, idle)) Poll();
      if (in.arrived < in.total()) in.Arrive(step ? 1 + c.U(2 * step) : in.total());
      if (in.arrived == in.total() && (step == 0 || c.P(1, 2))) in.closed = true;
      size_t before = msgs.size();
      uint64_t reads = in.nexts;
      while (Poll()) {}
      if (out().Finished()) break;
      still = in.closed && msgs.size() == before && in.nexts == reads ? still + 1 : 0;
      if (in.nexts > 4000000) break;
      if (in.closed && still == 0 && ++closed_polls_ > 60) break;
    }
  }
  JsonInput in;
  std::unique_ptr<gt::JsonRequestTranslator> t;
  std::vector<std::string> msgs;

 private:
  int closed_polls_ = 0;
  unsigned polls_ = 0;
};

// Removes and checks the frame header.
inline std::string Unframe(Ctx& x, const Req& q, const std::string& m, const std::string& ctx) {
  if (!q.delim) return m;
  size_t n = m.size() - 5;
  if (m.size() < 5 || m[0] != 0 || (unsigned char)m[1] != (n >> 24 & 255) || (unsigned char)m[2] != (n >> 16 & 255) || (unsigned char)m[3] != (n >> 8 & 255) || (unsigned char)m[4] != (n & 255))
    x.Fail("wrong-frame-header", "message of " + std::to_string(m.size()) + " bytes begins with " + Hex(m.substr(0, 8)) + "\n" + ctx);
  return m.substr(5);
}
inline std::unique_ptr<pb::Message> New(const pb::Descriptor* d) {
  return std::unique_ptr<pb::Message>(pb::MessageFactory::generated_factory()->GetPrototype(d)->New());
}
inline void Same(Ctx& x, const char* kind, const pb::Message& want, const std::string& bytes, const std::string& ctx) {
  auto got = New(want.GetDescriptor());
  if (!got->ParseFromString(bytes)) x.Fail("unparsable-message", Hex(bytes.substr(0, 400)) + "\n" + ctx);
  if (Canon(*got) != Canon(want)) x.Fail(kind, "expected {" + want.ShortDebugString().substr(0, 3000) + "}\n     got {" + got->ShortDebugString().substr(0, 3000) + "}\n" + ctx);
}

}  // namespace vp
