// Random messages, their JSON spellings (a printer of its own, through
// reflection), bindings and the arrival-controlled JSON input.
#pragma once
#include <math.h>

#include "absl/status/status.h"
#include "core.h"
#include "google/protobuf/descriptor.h"
#include "google/protobuf/message.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/type_resolver_util.h"
#include "grpc_transcoding/request_message_translator.h"
#include "grpc_transcoding/transcoder_input_stream.h"
#include "grpc_transcoding/type_helper.h"
#include "vp_msg.pb.h"

namespace vp {
// What the caller's string holds before a message is asked for.
inline std::string Stale(unsigned n, const std::vector<std::string>& before) {
  switch (n % 5) {
    case 0: return "stale";
    case 1: return std::string();
    case 2: return before.empty() ? "x" : before.back();
    case 3: return std::string(n % 40 == 3 ? 70000 : 6000, '[');
    default: return "]";
  }
}
namespace gt = ::google::grpc::transcoding;
namespace pb = ::google::protobuf;
namespace pbutil = ::google::protobuf::util;
using FD = pb::FieldDescriptor;

inline std::string Url(const pb::Descriptor* d) { return "type.googleapis.com/" + d->full_name(); }

// ------------------------------------------------------------ type helpers
struct World {
  std::vector<pb::Type> types;
  std::vector<pb::Enum> enums;
  std::unique_ptr<gt::TypeHelper> h[2];
};
inline void AddReachable(const pb::Descriptor* d, pbutil::TypeResolver* r, World& w, std::vector<std::string>& seen) {
  if (std::find(seen.begin(), seen.end(), d->full_name()) != seen.end()) return;
  seen.push_back(d->full_name());
  pb::Type t;
  if (!r->ResolveMessageType(Url(d), &t).ok()) return;
  w.types.push_back(t);
  for (int i = 0; i < d->field_count(); ++i) {
    auto* f = d->field(i);
    if (f->message_type()) AddReachable(f->message_type(), r, w, seen);
    if (f->enum_type() && std::find(seen.begin(), seen.end(), f->enum_type()->full_name()) == seen.end()) {
      seen.push_back(f->enum_type()->full_name());
      pb::Enum e;
      if (r->ResolveEnumType("type.googleapis.com/" + f->enum_type()->full_name(), &e).ok()) w.enums.push_back(e);
    }
  }
}
inline World& TheWorld() {
  static World* w = [] {
    auto* w = new World;
    auto* r = pbutil::NewTypeResolverForDescriptorPool("type.googleapis.com", pb::DescriptorPool::generated_pool());
    w->h[0] = std::make_unique<gt::TypeHelper>(r);
    std::vector<std::string> seen;
    w->types.reserve(64);
    AddReachable(Node::descriptor(), r, *w, seen);
    w->h[1] = std::make_unique<gt::TypeHelper>(w->types, w->enums);
    return w;
  }();
  return *w;
}
inline pbutil::TypeResolver* PoolResolver() { return TheWorld().h[0]->Resolver(); }

// Field of a type, found without the code under test.
inline const pb::Field* FieldOf(const pb::Type* t, const std::string& name) {
  for (auto& f : t->fields()) if (f.name() == name) return &f;
  return nullptr;
}
inline std::vector<const pb::Field*> Fields(const gt::TypeHelper& h, const pb::Descriptor* root, const std::vector<const FD*>& path) {
  std::vector<const pb::Field*> out;
  const pb::Type* t = h.Info()->GetTypeByTypeUrl(Url(root));
  for (auto* f : path) {
    const pb::Field* x = t ? FieldOf(t, f->name()) : nullptr;
    if (!x) { fprintf(stderr, "monitor: field %s not in type information\n", f->full_name().c_str()); abort(); }
    out.push_back(x);
    t = f->message_type() ? h.Info()->GetTypeByTypeUrl(Url(f->message_type())) : nullptr;
  }
  return out;
}

// --------------------------------------------------------------- messages
inline void PutUtf8(std::string& s, uint32_t cp) {
  if (cp < 0x80) s += char(cp);
  else if (cp < 0x800) { s += char(0xc0 | cp >> 6); s += char(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { s += char(0xe0 | cp >> 12); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
  else { s += char(0xf0 | cp >> 18); s += char(0x80 | (cp >> 12 & 63)); s += char(0x80 | (cp >> 6 & 63)); s += char(0x80 | (cp & 63)); }
}
inline uint32_t CodePoint(Choices& c) {
  switch (c.U(10)) {
    case 0: return uint32_t(c.U(32));
    case 1: return uint32_t("\"\\/<>'&,:{}[]%+= \x7f"[c.U(18)]);
    case 2: return 0x80 + uint32_t(c.U(0x780));
    case 3: { uint32_t v = 0x800 + uint32_t(c.U(0xf800)); return v >= 0xd800 && v < 0xe000 ? 0x2028 + (v & 1) : v; }
    case 4: return 0x10000 + uint32_t(c.U(0x100000));
    default: return 'a' + uint32_t(c.U(26));
  }
}
inline std::string Text(Choices& c, size_t max) {
  size_t n = c.Size(max);
  std::string s;
  if (c.P(1, 12)) s = c.Pick(Dict::Get().strs);
  for (unsigned char ch : s) if (ch >= 0x80) { s.clear(); break; }
  if (n > 400) { s.append(n, char('a' + c.U(26))); return s; }
  for (size_t i = 0; i < n; ++i) PutUtf8(s, CodePoint(c));
  return s;
}
template <class T>
T Num(Choices& c) {
  using U = std::make_unsigned_t<T>;
  switch (c.U(6)) {
    case 0: return T(c.U(4));
    case 1: return T(U(0) - U(c.U(4)));
    case 2: { unsigned k = unsigned(c.U(sizeof(T) * 8)); return T((U(1) << k) + U(c.U(3)) - U(1)); }
    case 3: { unsigned k = unsigned(c.U(sizeof(T) * 8)); return T(U(0) - ((U(1) << k) + U(c.U(3)) - U(1))); }
    case 4: return T(c.U(100000));
    default: return T(c.Raw(sizeof(T)));
  }
}
inline double Dbl(Choices& c, bool special) {
  switch (c.U(special ? 9 : 7)) {
    case 0: return double(int(c.U(2001)) - 1000);
    case 1: return (double(c.U(2000001)) - 1000000) / 1024;
    case 2: return 1e300 * (1 + double(c.U(1000)) / 1024);
    case 3: return 1e-300 * (1 + double(c.U(1000)) / 1024);
    case 4: return 9007199254740993.0 * double(1 + c.U(1000));
    case 7: return c.P(1, 2) ? HUGE_VAL : -HUGE_VAL;
    case 8: return __builtin_nan("");
    default: {
      uint64_t v = c.Raw(8);
      double d;
      memcpy(&d, &v, 8);
      return isfinite(d) && d != 0 ? d : 0.1;
    }
  }
}
inline float Flt(Choices& c, bool special) {
  if (special && c.P(1, 10)) return c.P(1, 3) ? __builtin_nanf("") : c.P(1, 2) ? HUGE_VALF : -HUGE_VALF;
  if (c.P(1, 2)) return float(int(c.U(2001)) - 1000) / 8;
  uint32_t v = uint32_t(c.Raw(4));
  float f;
  memcpy(&f, &v, 4);
  return isfinite(f) && f != 0 ? f : 0.1f;
}

struct MsgOpt {
  bool wkt = true;       // well-known types
  bool special = false;  // NaN and infinities
  bool oneof = true;
  bool odd_enums = true;
  size_t text = 12;
  unsigned num = 1, den = 8;  // chance of a field
};
inline bool IsWkt(const pb::Descriptor* d) { return d->file()->package() == "google.protobuf"; }
inline bool IsWrapper(const pb::Descriptor* d) { return d->file()->name() == "google/protobuf/wrappers.proto"; }
inline void FillMessage(pb::Message* m, Choices& c, const MsgOpt& o, int depth);

inline void FillStructValue(pb::Value* v, Choices& c, int depth) {
  switch (c.U(depth > 0 ? 6 : 4)) {
    case 0: v->set_null_value(pb::NULL_VALUE); break;
    case 1: v->set_number_value(Dbl(c, false)); break;
    case 2: v->set_string_value(Text(c, 6)); break;
    case 3: v->set_bool_value(c.P(1, 2)); break;
    case 4: { auto* s = v->mutable_struct_value(); for (uint64_t i = c.U(3); i--;) FillStructValue(&(*s->mutable_fields())[Text(c, 5)], c, depth - 1); break; }
    default: { auto* s = v->mutable_list_value(); for (uint64_t i = c.U(3); i--;) FillStructValue(s->add_values(), c, depth - 1); break; }
  }
}
inline void FillWkt(pb::Message* m, Choices& c, const MsgOpt& o, int depth) {
  const std::string& n = m->GetDescriptor()->name();
  if (auto* t = dynamic_cast<pb::Timestamp*>(m)) {
    t->set_seconds(int64_t(c.U(315537897599ULL)) - 62135596800LL);
    if (c.P(1, 2)) t->set_nanos(int(c.U(1000) * (c.P(1, 2) ? 1000000 : c.P(1, 2) ? 1000 : 1)));
  } else if (auto* t = dynamic_cast<pb::Duration*>(m)) {
    int64_t s = int64_t(c.U(c.P(1, 2) ? 100 : 315576000000ULL));
    int n = int(c.U(1000) * (c.P(1, 2) ? 1000000 : 1));
    bool neg = c.P(1, 3);
    t->set_seconds(neg ? -s : s);
    t->set_nanos(neg ? -n : n);
  } else if (auto* t = dynamic_cast<pb::FieldMask*>(m)) {
    for (uint64_t i = c.U(4); i--;) t->add_paths(std::string("abc_def\0.gh", 7).substr(0, 3 + (c.P(1, 2) ? 4 : 0)) + (c.P(1, 3) ? ".x" : ""));
  } else if (auto* t = dynamic_cast<pb::Struct*>(m)) {
    for (uint64_t i = c.U(4); i--;) FillStructValue(&(*t->mutable_fields())[Text(c, 5)], c, 2);
  } else if (auto* t = dynamic_cast<pb::Value*>(m)) {
    FillStructValue(t, c, 2);
  } else if (auto* t = dynamic_cast<pb::ListValue*>(m)) {
    for (uint64_t i = c.U(4); i--;) FillStructValue(t->add_values(), c, 2);
  } else if (auto* t = dynamic_cast<pb::Any*>(m)) {
    Leaf l;
    FillMessage(&l, c, o, depth - 1);
    t->set_type_url("type.googleapis.com/vp.Leaf");
    t->set_value(l.SerializeAsString());
  } else if (IsWrapper(m->GetDescriptor())) {
    MsgOpt q = o;
    q.num = 3;
    q.den = 4;
    FillMessage(m, c, q, 0);
  } else {
    fprintf(stderr, "monitor: no generator for %s\n", n.c_str());
    abort();
  }
}

// One random scalar into a singular or onto a repeated field.
inline void PutScalar(pb::Message* m, const FD* f, Choices& c, const MsgOpt& o) {
  auto* r = m->GetReflection();
  bool rep = f->is_repeated();
#define VP_PUT(T, v) { auto x = v; rep ? r->Add##T(m, f, x) : r->Set##T(m, f, x); break; }
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: VP_PUT(Int32, Num<int32_t>(c))
    case FD::CPPTYPE_INT64: VP_PUT(Int64, Num<int64_t>(c))
    case FD::CPPTYPE_UINT32: VP_PUT(UInt32, Num<uint32_t>(c))
    case FD::CPPTYPE_UINT64: VP_PUT(UInt64, Num<uint64_t>(c))
    case FD::CPPTYPE_DOUBLE: VP_PUT(Double, Dbl(c, o.special))
    case FD::CPPTYPE_FLOAT: VP_PUT(Float, Flt(c, o.special))
    case FD::CPPTYPE_BOOL: VP_PUT(Bool, c.P(1, 2))
    case FD::CPPTYPE_ENUM: {
      int v = o.odd_enums && c.P(1, 8) ? int(c.U(200)) : f->enum_type()->value(int(c.U(f->enum_type()->value_count())))->number();
      rep ? r->AddEnumValue(m, f, v) : r->SetEnumValue(m, f, v);
      break;
    }
    case FD::CPPTYPE_STRING: {
      std::string s = f->type() == FD::TYPE_BYTES ? c.Bytes(c.Size(o.text)) : Text(c, o.text);
      rep ? r->AddString(m, f, s) : r->SetString(m, f, s);
      break;
    }
    default: abort();
  }
#undef VP_PUT
}
inline std::string KeyText(const pb::Message& e, const FD* f) {
  auto* r = e.GetReflection();
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return std::to_string(r->GetInt32(e, f));
    case FD::CPPTYPE_UINT64: return std::to_string(r->GetUInt64(e, f));
    case FD::CPPTYPE_BOOL: return r->GetBool(e, f) ? "true" : "false";
    default: return r->GetString(e, f);
  }
}
inline void FillField(pb::Message* m, const FD* f, Choices& c, const MsgOpt& o, int depth) {
  auto* r = m->GetReflection();
  bool msg = f->cpp_type() == FD::CPPTYPE_MESSAGE;
  if (msg && !f->is_map() && IsWkt(f->message_type())) {
    if (!o.wkt) return;
    for (uint64_t n = f->is_repeated() ? c.U(4) : 1; n--;) FillWkt(f->is_repeated() ? r->AddMessage(m, f) : r->MutableMessage(m, f), c, o, depth);
    return;
  }
  if (f->is_map()) {
    // distinct keys
    auto* kf = f->message_type()->map_key();
    auto* vf = f->message_type()->map_value();
    std::vector<std::string> keys;
    for (uint64_t n = c.U(4); n--;) {
      std::unique_ptr<pb::Message> e(r->GetMessageFactory()->GetPrototype(f->message_type())->New());
      PutScalar(e.get(), kf, c, o);
      std::string k = KeyText(*e, kf);
      if (std::find(keys.begin(), keys.end(), k) != keys.end()) continue;
      keys.push_back(k);
      if (vf->cpp_type() == FD::CPPTYPE_MESSAGE) FillMessage(e->GetReflection()->MutableMessage(e.get(), vf), c, o, depth - 1);
      else PutScalar(e.get(), vf, c, o);
      r->AddMessage(m, f)->CopyFrom(*e);
    }
    return;
  }
  uint64_t n = f->is_repeated() ? (c.P(1, 30) ? c.U(40) : c.U(4)) : 1;
  while (n--) {
    if (!msg) PutScalar(m, f, c, o);
    else if (depth > 0) FillMessage(f->is_repeated() ? r->AddMessage(m, f) : r->MutableMessage(m, f), c, o, depth - 1);
  }
}
inline void FillMessage(pb::Message* m, Choices& c, const MsgOpt& o, int depth) {
  auto* d = m->GetDescriptor();
  for (int i = 0; i < d->field_count(); ++i) {
    auto* f = d->field(i);
    if (!c.P(o.num, o.den)) continue;
    if (f->real_containing_oneof() && !o.oneof) continue;
    FillField(m, f, c, o, depth);
  }
}
inline void NormAny(pb::Message* m) {  // an Any holds bytes: give them one form
  if (auto* a = dynamic_cast<pb::Any*>(m)) {
    Leaf l;
    if (a->type_url() == "type.googleapis.com/vp.Leaf" && l.ParseFromString(a->value())) a->set_value(l.SerializeAsString());
    return;
  }
  auto* r = m->GetReflection();
  std::vector<const FD*> fs;
  r->ListFields(*m, &fs);
  for (auto* f : fs) {
    if (f->cpp_type() != FD::CPPTYPE_MESSAGE || f->is_map()) continue;
    if (!f->is_repeated()) NormAny(r->MutableMessage(m, f));
    else for (int i = 0; i < r->FieldSize(*m, f); ++i) NormAny(r->MutableRepeatedMessage(m, f, i));
  }
}
inline std::string Canon(const pb::Message& orig) {  // comparable form (also with NaN)
  std::unique_ptr<pb::Message> copy(orig.New());
  copy->CopyFrom(orig);
  NormAny(copy.get());
  const pb::Message& m = *copy;
  std::string s;
  pb::io::StringOutputStream z(&s);
  pb::io::CodedOutputStream o(&z);
  o.SetSerializationDeterministic(true);
  m.SerializePartialToCodedStream(&o);
  o.Trim();
  return s;
}

// ------------------------------------------------------------------- JSON
inline std::string Base64(std::string_view s, bool url, bool pad) {
  const char* a = url ? "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_" : "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    uint32_t v = 0;
    size_t n = std::min<size_t>(3, s.size() - i);
    for (size_t j = 0; j < 3; ++j) v = v << 8 | (j < n ? (unsigned char)s[i + j] : 0);
    for (size_t j = 0; j <= n; ++j) o += a[v >> (18 - 6 * j) & 63];
    if (pad) o.append(3 - n, '=');
  }
  return o;
}
inline std::string FloatText(double v, bool is_float) {
  if (isnan(v)) return "NaN";
  if (isinf(v)) return v > 0 ? "Infinity" : "-Infinity";
  char b[40];
  snprintf(b, sizeof b, is_float ? "%.9g" : "%.17g", v);
  return b;
}

class JsonOut {
 public:
  explicit JsonOut(Choices& c, bool defaults = true) : c_(c), defaults_(defaults), spaces_(unsigned(c.U(3)) ? 0 : 1 + unsigned(c.U(6))), names_(unsigned(c.U(3))), ascii_(c.P(1, 3)), plain_(c.P(1, 4)) {}
  void NoUnknown() { no_unknown_ = true; }
  void AnyEnumCase() { any_case_ = true; }
  void JsonNamesOnly() { names_ = 0; }
  void ProtoNamesOnly() { names_ = 1; }
  std::string Of(const pb::Message& m) { std::string o; Value(m, o); return o; }
  // The value of one field (list, map object or single value).
  std::string OfField(const pb::Message& m, const FD* f) { std::string o; FieldValue(m, f, o); return o; }
  std::string Ws() {
    if (!spaces_ || !c_.P(1, spaces_)) return "";
    return c_.From(" \t\r\n", c_.U(4));
  }
  std::string Quote(std::string_view s) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size();) {
      unsigned char b = s[i];
      size_t n = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4;
      uint32_t cp = b < 0x80 ? b : b & (0xff >> (n + 1));
      for (size_t j = 1; j < n && i + j < s.size(); ++j) cp = cp << 6 | (s[i + j] & 63);
      bool must = cp < 0x20 || cp == '"' || cp == '\\';
      bool esc = must || (ascii_ && cp >= 0x80) || (!plain_ && s.size() < 200 && c_.P(1, 12));
      if (!esc) {
        o.append(s.substr(i, n));
      } else {
        char e = 0;
        switch (cp) { case '"': e = '"'; break; case '\\': e = '\\'; break; case '/': e = '/'; break; case 8: e = 'b'; break; case 12: e = 'f'; break; case 10: e = 'n'; break; case 13: e = 'r'; break; case 9: e = 't'; break; }
        char b[16];
        if (e && c_.P(2, 3)) { o += '\\'; o += e; }
        else if (cp < 0x10000) { snprintf(b, sizeof b, c_.P(1, 2) ? "\\u%04x" : "\\u%04X", cp); o += b; }
        else { uint32_t v = cp - 0x10000; snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)); o += b; }
      }
      i += n;
    }
    return o + "\"";
  }
  std::string Unknown(int depth = 2) {
    switch (c_.U(depth > 0 ? 7 : 5)) {
      case 0: return "null";
      case 1: return c_.P(1, 2) ? "true" : "false";
      case 2: return std::to_string(int64_t(c_.U(2000)) - 1000);
      case 3: return "1.5e3";
      case 4: return Quote(Text(c_, 6));
      case 5: { std::string o = "["; for (uint64_t n = c_.U(3), i = 0; i < n; ++i) o += (i ? "," : "") + Unknown(depth - 1); return o + "]"; }
      default: { std::string o = "{"; for (uint64_t n = c_.U(3), i = 0; i < n; ++i) o += (i ? "," : "") + std::string("\"k") + char('a' + i) + "\":" + Unknown(depth - 1); return o + "}"; }
    }
  }

 private:
  std::string Name(const FD* f) {
    bool proto = names_ == 1 || (names_ == 2 && c_.P(1, 2));
    return Quote(proto ? f->name() : f->json_name());
  }
  void Value(const pb::Message& m, std::string& o) {
    auto* d = m.GetDescriptor();
    if (IsWkt(d)) {
      std::string s;
      auto st = pbutil::BinaryToJsonString(PoolResolver(), Url(d), m.SerializeAsString(), &s);
      if (!st.ok()) { fprintf(stderr, "monitor: cannot print %s: %s\n", d->full_name().c_str(), st.ToString().c_str()); abort(); }
      o += s;
      return;
    }
    auto* r = m.GetReflection();
    std::vector<const FD*> fs;
    for (int i = 0; i < d->field_count(); ++i) fs.push_back(d->field(i));
    if (c_.P(1, 2)) for (size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[c_.U(i)]);
    o += "{" + Ws();
    bool any = false;
    auto sep = [&] { if (any) o += "," + Ws(); any = true; };
    for (auto* f : fs) {
      if (!no_unknown_ && c_.P(1, 60)) { sep(); o += std::string("\"zzUnknown") + char('A' + c_.U(26)) + char('a' + c_.U(26)) + char('a' + unk_++ % 26) + std::to_string(unk_) + "\"" + Ws() + ":" + Ws() + Unknown(); }
      bool set = f->is_repeated() ? r->FieldSize(m, f) > 0 : r->HasField(m, f);
      if (!set) {
        bool msg = f->cpp_type() == FD::CPPTYPE_MESSAGE;
        if (f->containing_oneof() || (msg && f->message_type()->name() == "Value") || !c_.P(1, 25)) continue;  // null is a value of Value
        sep();
        o += Name(f) + Ws() + ":" + Ws();
        if (f->is_map()) o += c_.P(1, 2) ? "{}" : "null";
        else if (f->is_repeated()) o += c_.P(1, 2) ? "[" + Ws() + "]" : "null";
        else if (msg) o += "null";
        else if (defaults_ && c_.P(1, 2)) FieldValue(m, f, o);  // the default, spelled out
        else o += "null";
        continue;
      }
      sep();
      o += Name(f) + Ws() + ":" + Ws();
      FieldValue(m, f, o);
      o += Ws();
    }
    o += "}";
  }
  void FieldValue(const pb::Message& m, const FD* f, std::string& o) {
    auto* r = m.GetReflection();
    if (f->is_map()) {
      o += "{" + Ws();
      int n = r->FieldSize(m, f);
      for (int i = 0; i < n; ++i) {
        auto& e = r->GetRepeatedMessage(m, f, i);
        auto* kf = f->message_type()->map_key();
        if (i) o += "," + Ws();
        std::string k;
        Scalar(e, kf, -1, k, true);
        if (k[0] != '"') k = "\"" + k + "\"";
        o += k + Ws() + ":" + Ws();
        FieldValue(e, f->message_type()->map_value(), o);
      }
      o += Ws() + "}";
    } else if (f->is_repeated()) {
      o += "[" + Ws();
      int n = r->FieldSize(m, f);
      for (int i = 0; i < n; ++i) {
        if (i) o += "," + Ws();
        if (f->cpp_type() == FD::CPPTYPE_MESSAGE) Value(r->GetRepeatedMessage(m, f, i), o);
        else Scalar(m, f, i, o, false);
        o += Ws();
      }
      o += "]";
    } else if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
      Value(r->GetMessage(m, f), o);
    } else {
      Scalar(m, f, -1, o, false);
    }
  }
  void Scalar(const pb::Message& m, const FD* f, int i, std::string& o, bool key) {
    auto* r = m.GetReflection();
#define VP_GET(T) (i >= 0 ? r->GetRepeated##T(m, f, i) : r->Get##T(m, f))
    std::string s;
    switch (f->cpp_type()) {
      case FD::CPPTYPE_INT32: s = std::to_string(VP_GET(Int32)); break;
      case FD::CPPTYPE_INT64: s = std::to_string(VP_GET(Int64)); break;
      case FD::CPPTYPE_UINT32: s = std::to_string(VP_GET(UInt32)); break;
      case FD::CPPTYPE_UINT64: s = std::to_string(VP_GET(UInt64)); break;
      case FD::CPPTYPE_DOUBLE:
      case FD::CPPTYPE_FLOAT: {
        bool fl = f->cpp_type() == FD::CPPTYPE_FLOAT;
        double v = fl ? double(VP_GET(Float)) : VP_GET(Double);
        s = FloatText(v, fl);
        o += !isfinite(v) || c_.P(1, 6) ? "\"" + s + "\"" : s;
        return;
      }
      case FD::CPPTYPE_BOOL: o += VP_GET(Bool) ? "true" : "false"; return;
      case FD::CPPTYPE_ENUM: {
        int v = VP_GET(EnumValue);
        auto* e = f->enum_type()->FindValueByNumber(v);
        if (!e || !c_.P(2, 3)) { o += std::to_string(v); return; }
        std::string n = e->name();
        if (any_case_ && c_.P(1, 2)) for (auto& ch : n) if (c_.P(1, 2)) ch = ch == '_' ? '-' : char(tolower(ch));
        o += "\"" + n + "\"";
        return;
      }
      default: {
        std::string t = VP_GET(String);
        if (f->type() != FD::TYPE_BYTES) o += Quote(t);
        else if (c_.P(1, 3)) o += "\"" + Base64(t, true, c_.P(1, 2)) + "\"";
        else o += "\"" + Base64(t, false, true) + "\"";
        return;
      }
    }
#undef VP_GET
    o += !key && c_.P(1, 4) ? "\"" + s + "\"" : s;
  }
  Choices& c_;
  bool defaults_;
  unsigned spaces_, names_;
  bool ascii_, plain_, no_unknown_ = false, any_case_ = false;
  int unk_ = 0;
};

// --------------------------------------------------------------- bindings
struct Bind {
  std::vector<const FD*> path;
  std::string text;
  std::shared_ptr<pb::Message> holder;  // message that has the value in path.back()
};
inline std::string ScalarText(const pb::Message& m, const FD* f, Choices& c) {
  auto* r = m.GetReflection();
  int i = f->is_repeated() ? 0 : -1;
#define VP_GET(T) (i >= 0 ? r->GetRepeated##T(m, f, i) : r->Get##T(m, f))
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: return std::to_string(VP_GET(Int32));
    case FD::CPPTYPE_INT64: return std::to_string(VP_GET(Int64));
    case FD::CPPTYPE_UINT32: return std::to_string(VP_GET(UInt32));
    case FD::CPPTYPE_UINT64: return std::to_string(VP_GET(UInt64));
    case FD::CPPTYPE_DOUBLE: return FloatText(VP_GET(Double), false);
    case FD::CPPTYPE_FLOAT: return FloatText(VP_GET(Float), true);
    case FD::CPPTYPE_BOOL: return VP_GET(Bool) ? "true" : "false";
    case FD::CPPTYPE_ENUM: {
      auto* e = f->enum_type()->FindValueByNumber(VP_GET(EnumValue));
      return e && c.P(2, 3) ? e->name() : std::to_string(VP_GET(EnumValue));
    }
    default: return f->type() == FD::TYPE_BYTES ? Base64(VP_GET(String), false, true) : VP_GET(String);
  }
#undef VP_GET
}
inline void ApplyBind(pb::Message* root, const Bind& b) {
  pb::Message* m = root;
  for (size_t i = 0; i + 1 < b.path.size(); ++i) m = m->GetReflection()->MutableMessage(m, b.path[i]);
  auto* f = b.path.back();
  auto* r = m->GetReflection();
  auto& h = *b.holder;
  auto* hr = h.GetReflection();
#define VP_CP(T) if (f->is_repeated()) r->Add##T(m, f, hr->GetRepeated##T(h, f, 0)); else r->Set##T(m, f, hr->Get##T(h, f)); break;
  switch (f->cpp_type()) {
    case FD::CPPTYPE_INT32: VP_CP(Int32)
    case FD::CPPTYPE_INT64: VP_CP(Int64)
    case FD::CPPTYPE_UINT32: VP_CP(UInt32)
    case FD::CPPTYPE_UINT64: VP_CP(UInt64)
    case FD::CPPTYPE_DOUBLE: VP_CP(Double)
    case FD::CPPTYPE_FLOAT: VP_CP(Float)
    case FD::CPPTYPE_BOOL: VP_CP(Bool)
    case FD::CPPTYPE_ENUM: VP_CP(EnumValue)
    case FD::CPPTYPE_STRING: VP_CP(String)
    default: r->MutableMessage(m, f)->CopyFrom(hr->GetMessage(h, f)); break;
  }
#undef VP_CP
}
inline std::string PathText(const std::vector<const FD*>& p) {
  std::string o;
  for (auto* f : p) o += (o.empty() ? "" : ".") + f->name();
  return o;
}
// A path from d through singular messages to a bindable field.
inline std::vector<const FD*> RandomBindPath(const pb::Descriptor* d, Choices& c, bool wkt) {
  std::vector<const FD*> p;
  size_t most = 6;
  if (c.P(1, 60)) {  // far down
    auto* child = d->FindFieldByName("child_node");
    for (size_t n = c.U(50); child && n--;) p.push_back(child);
    if (!p.empty()) d = child->message_type();
    most = p.size() + 3;
  }
  for (int depth = 0;; ++depth) {
    auto* f = d->field(int(c.U(d->field_count())));
    if (f->is_map() || f->real_containing_oneof()) { if (depth > 40) return {}; continue; }
    if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
      if (IsWkt(f->message_type())) {
        static const std::vector<std::string> kOk = {"Timestamp", "Duration", "StringValue", "Int64Value", "BoolValue", "DoubleValue"};
        if (!wkt || f->is_repeated() || std::find(kOk.begin(), kOk.end(), f->message_type()->name()) == kOk.end()) { if (depth > 40) return {}; continue; }
        p.push_back(f);
        return p;
      }
      if (f->is_repeated()) { if (depth > 40) return {}; continue; }
      if (p.size() > most) { if (depth > 40) return {}; continue; }
      p.push_back(f);
      d = f->message_type();
      continue;
    }
    p.push_back(f);
    return p;
  }
}
inline Bind MakeBind(std::vector<const FD*> path, Choices& c, MsgOpt o) {
  o.odd_enums = false;
  Bind b;
  b.path = std::move(path);
  auto* f = b.path.back();
  auto* fac = pb::MessageFactory::generated_factory();
  b.holder.reset(fac->GetPrototype(f->containing_type())->New());
  if (f->cpp_type() == FD::CPPTYPE_MESSAGE) {
    auto* v = b.holder->GetReflection()->MutableMessage(b.holder.get(), f);
    FillWkt(v, c, o, 0);
    if (IsWrapper(f->message_type())) {
      b.text = ScalarText(*v, v->GetDescriptor()->field(0), c);
    } else {
      std::string s;
      if (!pbutil::BinaryToJsonString(PoolResolver(), Url(f->message_type()), v->SerializeAsString(), &s).ok()) abort();
      b.text = s.substr(1, s.size() - 2);
    }
  } else {
    PutScalar(b.holder.get(), f, c, o);
    b.text = ScalarText(*b.holder, f, c);
  }
  return b;
}

// ------------------------------------------------------------------ input
// JSON or frames under control of the monitor: bytes arrive when told, chunks
// are heap blocks of exactly their size that die with the next read.
class JsonInput : public gt::TranscoderInputStream {
 public:
  JsonInput(std::string data, size_t chunk, uint64_t seed) : data_(std::move(data)), chunk_(chunk), r_(seed) {}
  ~JsonInput() override { free(buf_); }
  size_t pos = 0, arrived = 0;
  bool closed = false;
  uint64_t nexts = 0, empties = 0, ends = 0;
  std::vector<size_t> read_ends;  // offset after each read with data
  bool Next(const void** data, int* size) override {
    ++nexts;
    last_ = 0;
    if (pos == arrived) {
      *data = nullptr;
      *size = 0;
      if (closed) ++ends; else ++empties;
      return !closed;
    }
    size_t n = arrived - pos;
    if (chunk_ == 1) n = 1;
    else if (chunk_) n = std::min<size_t>(n, 1 + r_.U(2 * chunk_));
    free(buf_);
    buf_ = static_cast<char*>(malloc(n));
    memcpy(buf_, data_.data() + pos, n);
    pos += n;
    last_ = n;
    read_ends.push_back(pos);
    *data = buf_;
    *size = int(n);
    return true;
  }
  void BackUp(int n) override { if (n > 0 && size_t(n) <= last_) { pos -= size_t(n); last_ -= size_t(n); } }
  bool Skip(int n) override {
    last_ = 0;
    size_t m = std::min<size_t>(size_t(n), arrived - pos);
    pos += m;
    return m == size_t(n);
  }
  int64_t ByteCount() const override { return int64_t(pos); }
  int64_t BytesAvailable() const override { return int64_t(arrived - pos); }
  bool Finished() const override { return closed; }
  void All() { arrived = data_.size(); closed = true; }
  void Arrive(size_t n) { arrived = std::min(data_.size(), arrived + n); }
  size_t total() const { return data_.size(); }
  const std::string& data() const { return data_; }

 private:
  std::string data_;
  size_t chunk_;
  Choices r_;
  char* buf_ = nullptr;
  size_t last_ = 0;
};
}  // namespace vp
