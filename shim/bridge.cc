// The other side of vp_conv.h: the classes of libprotobuf 3.21.12, declared
// here because its internal headers are not installed, and forwarders.
#define VP_BRIDGE
#include <new>

#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/stubs/status.h"
#include "google/protobuf/stubs/stringpiece.h"
#include "google/protobuf/type.pb.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/type_resolver.h"
#include "google/protobuf/util/type_resolver_util.h"
#include "vp_conv.h"

void (*vp_type_info_hook)(const void*, bool) = nullptr;

// ------------------------------------------------- declarations of 3.21.12
namespace google {
namespace protobuf {
namespace util {
template <class T>
struct StatusOrLayout {  // layout of util::StatusOr<T>: status, then the value
  Status status;
  union { char dummy; T value; };
  StatusOrLayout() : dummy(0) {}
  ~StatusOrLayout();
};
// Only reached for objects made by the library; T is destroyed if OK.
template <class T>
StatusOrLayout<T>::~StatusOrLayout() { if (status.ok()) value.~T(); }

namespace converter {
class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;
};
class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, StringPiece unknown_name, StringPiece message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, StringPiece type_name, StringPiece value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, StringPiece missing_name) = 0;
};
class DataPiece {
 public:
  virtual ~DataPiece() {}
  StatusOrLayout<int32_t> ToInt32() const;
  StatusOrLayout<uint32_t> ToUint32() const;
  StatusOrLayout<int64_t> ToInt64() const;
  StatusOrLayout<uint64_t> ToUint64() const;
  StatusOrLayout<double> ToDouble() const;
  StatusOrLayout<float> ToFloat() const;
  StatusOrLayout<bool> ToBool() const;
  StatusOrLayout<std::string> ToString() const;
  StatusOrLayout<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(StringPiece default_string) const;
  int type_ = 0;
  union { int32_t i32; int64_t i64; uint32_t u32; uint64_t u64; double d; float f; bool b; StringPiece str; };
  bool use_strict_base64_decoding_ = false;
  DataPiece() : i64(0) {}
};
static_assert(sizeof(DataPiece) == 40 && sizeof(Status) == 40, "layout");

class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(StringPiece name) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(StringPiece name) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(StringPiece name, bool value) = 0;
  virtual ObjectWriter* RenderInt32(StringPiece name, int32_t value) = 0;
  virtual ObjectWriter* RenderUint32(StringPiece name, uint32_t value) = 0;
  virtual ObjectWriter* RenderInt64(StringPiece name, int64_t value) = 0;
  virtual ObjectWriter* RenderUint64(StringPiece name, uint64_t value) = 0;
  virtual ObjectWriter* RenderDouble(StringPiece name, double value) = 0;
  virtual ObjectWriter* RenderFloat(StringPiece name, float value) = 0;
  virtual ObjectWriter* RenderString(StringPiece name, StringPiece value) = 0;
  virtual ObjectWriter* RenderBytes(StringPiece name, StringPiece value) = 0;
  virtual ObjectWriter* RenderNull(StringPiece name) = 0;
  static void RenderDataPieceTo(const DataPiece& data, StringPiece name, ObjectWriter* ow);
  virtual bool done() { return false; }
  bool use_strict_base64_decoding_ = true;
};
class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options { bool o[13]; };
  ProtoStreamObjectWriter(TypeResolver*, const google::protobuf::Type&, strings::ByteSink*, ErrorListener*, const Options&);
  ~ProtoStreamObjectWriter() override;
  ObjectWriter* StartObject(StringPiece name) override;
  ObjectWriter* EndObject() override;
  ObjectWriter* StartList(StringPiece name) override;
  ObjectWriter* EndList() override;
  ObjectWriter* RenderBool(StringPiece name, bool value) override;
  ObjectWriter* RenderInt32(StringPiece name, int32_t value) override;
  ObjectWriter* RenderUint32(StringPiece name, uint32_t value) override;
  ObjectWriter* RenderInt64(StringPiece name, int64_t value) override;
  ObjectWriter* RenderUint64(StringPiece name, uint64_t value) override;
  ObjectWriter* RenderDouble(StringPiece name, double value) override;
  ObjectWriter* RenderFloat(StringPiece name, float value) override;
  ObjectWriter* RenderString(StringPiece name, StringPiece value) override;
  ObjectWriter* RenderBytes(StringPiece name, StringPiece value) override;
  ObjectWriter* RenderNull(StringPiece name) override;
  bool done() override;
  char storage_[2048];
};
class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  virtual ~JsonStreamParser();
  Status Parse(StringPiece json);
  Status FinishParse();
  char storage_[2048];
};
class TypeInfo {
 public:
  TypeInfo() {}
  virtual ~TypeInfo() {}
  virtual StatusOrLayout<const google::protobuf::Type*> ResolveTypeUrl(StringPiece type_url) const = 0;
  virtual const google::protobuf::Type* GetTypeByTypeUrl(StringPiece type_url) const = 0;
  virtual const google::protobuf::Enum* GetEnumByTypeUrl(StringPiece type_url) const = 0;
  virtual const google::protobuf::Field* FindField(const google::protobuf::Type* type, StringPiece camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(TypeResolver* type_resolver);
};
}  // namespace converter

// -------------------------------------------------------------- forwarders
namespace {
StringPiece P(absl::string_view s) { return StringPiece(s.data(), s.size()); }
absl::string_view V(StringPiece s) { return absl::string_view(s.data(), s.size()); }
absl::Status A(const Status& s) { return s.ok() ? absl::OkStatus() : absl::Status(absl::StatusCode(int(s.code())), V(s.message())); }
Status R(const absl::Status& s) { return s.ok() ? Status() : Status(util::status_internal::StatusCode(int(s.code())), P(s.message())); }

class RealResolver : public TypeResolver {
 public:
  explicit RealResolver(vputil::TypeResolver* t) : t_(t) {}
  Status ResolveMessageType(const std::string& url, google::protobuf::Type* type) override { return R(t_->ResolveMessageType(url, type)); }
  Status ResolveEnumType(const std::string& url, google::protobuf::Enum* type) override { return R(t_->ResolveEnumType(url, type)); }

 private:
  vputil::TypeResolver* t_;
};
class ShimResolver : public vputil::TypeResolver {
 public:
  explicit ShimResolver(util::TypeResolver* t) : t_(t) {}
  absl::Status ResolveMessageType(const std::string& url, google::protobuf::Type* type) override { return A(t_->ResolveMessageType(url, type)); }
  absl::Status ResolveEnumType(const std::string& url, google::protobuf::Enum* type) override { return A(t_->ResolveEnumType(url, type)); }

 private:
  std::unique_ptr<util::TypeResolver> t_;
};

// Real events into a writer of the code under test.
class RealWriter : public converter::ObjectWriter {
 public:
  explicit RealWriter(converter::vpshim::ObjectWriter* w) : w_(w) {}
  ObjectWriter* StartObject(StringPiece n) override { w_->StartObject(V(n)); return this; }
  ObjectWriter* EndObject() override { w_->EndObject(); return this; }
  ObjectWriter* StartList(StringPiece n) override { w_->StartList(V(n)); return this; }
  ObjectWriter* EndList() override { w_->EndList(); return this; }
  ObjectWriter* RenderBool(StringPiece n, bool v) override { w_->RenderBool(V(n), v); return this; }
  ObjectWriter* RenderInt32(StringPiece n, int32_t v) override { w_->RenderInt32(V(n), v); return this; }
  ObjectWriter* RenderUint32(StringPiece n, uint32_t v) override { w_->RenderUint32(V(n), v); return this; }
  ObjectWriter* RenderInt64(StringPiece n, int64_t v) override { w_->RenderInt64(V(n), v); return this; }
  ObjectWriter* RenderUint64(StringPiece n, uint64_t v) override { w_->RenderUint64(V(n), v); return this; }
  ObjectWriter* RenderDouble(StringPiece n, double v) override { w_->RenderDouble(V(n), v); return this; }
  ObjectWriter* RenderFloat(StringPiece n, float v) override { w_->RenderFloat(V(n), v); return this; }
  ObjectWriter* RenderString(StringPiece n, StringPiece v) override { w_->RenderString(V(n), V(v)); return this; }
  ObjectWriter* RenderBytes(StringPiece n, StringPiece v) override { w_->RenderBytes(V(n), V(v)); return this; }
  ObjectWriter* RenderNull(StringPiece n) override { w_->RenderNull(V(n)); return this; }
  bool done() override { return w_->done(); }

 private:
  converter::vpshim::ObjectWriter* w_;
};
class ShimLocation : public converter::vpshim::LocationTrackerInterface {
 public:
  explicit ShimLocation(const converter::LocationTrackerInterface& l) : l_(l) {}
  std::string ToString() const override { return l_.ToString(); }

 private:
  const converter::LocationTrackerInterface& l_;
};
class RealListener : public converter::ErrorListener {
 public:
  explicit RealListener(converter::vpshim::ErrorListener* l) : l_(l) {}
  void InvalidName(const converter::LocationTrackerInterface& loc, StringPiece a, StringPiece b) override { l_->InvalidName(ShimLocation(loc), V(a), V(b)); }
  void InvalidValue(const converter::LocationTrackerInterface& loc, StringPiece a, StringPiece b) override { l_->InvalidValue(ShimLocation(loc), V(a), V(b)); }
  void MissingField(const converter::LocationTrackerInterface& loc, StringPiece a) override { l_->MissingField(ShimLocation(loc), V(a)); }

 private:
  converter::vpshim::ErrorListener* l_;
};
converter::DataPiece Real(const converter::vpshim::DataPiece& p) {
  converter::DataPiece r;
  r.type_ = p.type();
  r.use_strict_base64_decoding_ = p.use_strict_base64_decoding();
  if (p.type() == converter::vpshim::DataPiece::TYPE_STRING || p.type() == converter::vpshim::DataPiece::TYPE_BYTES) new (&r.str) StringPiece(p.str().data(), p.str().size());
  else r.u64 = p.value().u64;
  return r;
}
template <class T>
absl::StatusOr<T> S(const StatusOrLayout<T>& s) {
  if (s.status.ok()) return s.value;
  return A(s.status);
}
util::JsonPrintOptions Real(const vputil::JsonPrintOptions& o) {
  util::JsonPrintOptions r;
  r.add_whitespace = o.add_whitespace;
  r.always_print_primitive_fields = o.always_print_primitive_fields;
  r.always_print_enums_as_ints = o.always_print_enums_as_ints;
  r.preserve_proto_field_names = o.preserve_proto_field_names;
  return r;
}
}  // namespace

namespace vputil {
TypeResolver* NewTypeResolverForDescriptorPool(const std::string& url_prefix, const DescriptorPool* pool) {
  return new ShimResolver(util::NewTypeResolverForDescriptorPool(url_prefix, pool));
}
absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& url, io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out, const JsonPrintOptions& o) {
  RealResolver r(resolver);
  return A(util::BinaryToJsonStream(&r, url, in, out, Real(o)));
}
absl::Status BinaryToJsonString(TypeResolver* resolver, const std::string& url, const std::string& in, std::string* out, const JsonPrintOptions& o) {
  RealResolver r(resolver);
  return A(util::BinaryToJsonString(&r, url, in, out, Real(o)));
}
absl::Status JsonToBinaryString(TypeResolver* resolver, const std::string& url, absl::string_view in, std::string* out, const JsonParseOptions& o) {
  RealResolver r(resolver);
  util::JsonParseOptions po;
  po.ignore_unknown_fields = o.ignore_unknown_fields;
  po.case_insensitive_enum_parsing = o.case_insensitive_enum_parsing;
  return A(util::JsonToBinaryString(&r, url, P(in), out, po));
}
}  // namespace vputil

namespace converter {
namespace vpshim {
absl::StatusOr<int32_t> DataPiece::ToInt32() const { return S(Real(*this).ToInt32()); }
absl::StatusOr<uint32_t> DataPiece::ToUint32() const { return S(Real(*this).ToUint32()); }
absl::StatusOr<int64_t> DataPiece::ToInt64() const { return S(Real(*this).ToInt64()); }
absl::StatusOr<uint64_t> DataPiece::ToUint64() const { return S(Real(*this).ToUint64()); }
absl::StatusOr<double> DataPiece::ToDouble() const { return S(Real(*this).ToDouble()); }
absl::StatusOr<float> DataPiece::ToFloat() const { return S(Real(*this).ToFloat()); }
absl::StatusOr<bool> DataPiece::ToBool() const { return S(Real(*this).ToBool()); }
absl::StatusOr<std::string> DataPiece::ToString() const { return S(Real(*this).ToString()); }
absl::StatusOr<std::string> DataPiece::ToBytes() const { return S(Real(*this).ToBytes()); }
std::string DataPiece::ValueAsStringOrDefault(absl::string_view d) const { return Real(*this).ValueAsStringOrDefault(P(d)); }

void ObjectWriter::RenderDataPieceTo(const DataPiece& data, absl::string_view name, ObjectWriter* ow) {
  RealWriter w(ow);
  converter::ObjectWriter::RenderDataPieceTo(Real(data), P(name), &w);
}

struct JsonStreamParser::Impl {
  explicit Impl(ObjectWriter* ow) : w(ow) { p = new (buf) converter::JsonStreamParser(&w); }
  ~Impl() { p->converter::JsonStreamParser::~JsonStreamParser(); }
  RealWriter w;
  converter::JsonStreamParser* p;
  alignas(16) char buf[sizeof(converter::JsonStreamParser)];
};
JsonStreamParser::JsonStreamParser(ObjectWriter* ow) : impl_(new Impl(ow)) {}
JsonStreamParser::~JsonStreamParser() {}
absl::Status JsonStreamParser::Parse(absl::string_view json) { return A(impl_->p->Parse(P(json))); }
absl::Status JsonStreamParser::FinishParse() { return A(impl_->p->FinishParse()); }

struct ProtoStreamObjectWriter::Impl {
  Impl(vputil::TypeResolver* t, const google::protobuf::Type& type, strings::ByteSink* out, ErrorListener* el, const Options& o) : r(t), l(el) {
    converter::ProtoStreamObjectWriter::Options ro = {{o.struct_integers_as_strings, o.ignore_unknown_fields, o.ignore_unknown_enum_values, o.use_lower_camel_for_enums,
        o.case_insensitive_enum_parsing, o.ignore_null_value_map_entry, o.use_legacy_json_map_format, o.disable_implicit_message_list,
        o.suppress_implicit_message_list_error, o.disable_implicit_scalar_list, o.suppress_implicit_scalar_list_error, o.suppress_object_to_scalar_error,
        o.use_json_name_in_missing_fields}};
    p = new (buf) converter::ProtoStreamObjectWriter(&r, type, out, &l, ro);
  }
  ~Impl() { p->converter::ProtoStreamObjectWriter::~ProtoStreamObjectWriter(); }
  RealResolver r;
  RealListener l;
  converter::ProtoStreamObjectWriter* p;
  alignas(16) char buf[sizeof(converter::ProtoStreamObjectWriter)];
};
ProtoStreamObjectWriter::ProtoStreamObjectWriter(vputil::TypeResolver* t, const google::protobuf::Type& type, strings::ByteSink* out, ErrorListener* l, const Options& o)
    : impl_(new Impl(t, type, out, l, o)) {}
ProtoStreamObjectWriter::~ProtoStreamObjectWriter() {}
#define VP_W (impl_->p->use_strict_base64_decoding_ = use_strict_base64_decoding(), static_cast<converter::ObjectWriter*>(impl_->p))
ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartObject(absl::string_view n) { VP_W->StartObject(P(n)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndObject() { VP_W->EndObject(); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::StartList(absl::string_view n) { VP_W->StartList(P(n)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::EndList() { VP_W->EndList(); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBool(absl::string_view n, bool v) { VP_W->RenderBool(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt32(absl::string_view n, int32_t v) { VP_W->RenderInt32(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint32(absl::string_view n, uint32_t v) { VP_W->RenderUint32(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderInt64(absl::string_view n, int64_t v) { VP_W->RenderInt64(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderUint64(absl::string_view n, uint64_t v) { VP_W->RenderUint64(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderDouble(absl::string_view n, double v) { VP_W->RenderDouble(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderFloat(absl::string_view n, float v) { VP_W->RenderFloat(P(n), v); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderString(absl::string_view n, absl::string_view v) { VP_W->RenderString(P(n), P(v)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderBytes(absl::string_view n, absl::string_view v) { VP_W->RenderBytes(P(n), P(v)); return this; }
ProtoStreamObjectWriter* ProtoStreamObjectWriter::RenderNull(absl::string_view n) { VP_W->RenderNull(P(n)); return this; }
bool ProtoStreamObjectWriter::done() { return VP_W->done(); }

namespace {
class ShimTypeInfo : public TypeInfo {
 public:
  explicit ShimTypeInfo(vputil::TypeResolver* t) : r_(t), i_(converter::TypeInfo::NewTypeInfo(&r_)) {}
  struct In {
    explicit In(const void* p) : p_(p) { if (vp_type_info_hook) vp_type_info_hook(p_, true); }
    ~In() { if (vp_type_info_hook) vp_type_info_hook(p_, false); }
    const void* p_;
  };
  absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view u) const override { In in(this); return S(i_->ResolveTypeUrl(P(u))); }
  const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view u) const override { In in(this); return i_->GetTypeByTypeUrl(P(u)); }
  const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view u) const override { In in(this); return i_->GetEnumByTypeUrl(P(u)); }
  const google::protobuf::Field* FindField(const google::protobuf::Type* t, absl::string_view n) const override { In in(this); return i_->FindField(t, P(n)); }

 private:
  RealResolver r_;
  std::unique_ptr<converter::TypeInfo> i_;
};
}  // namespace
TypeInfo* TypeInfo::NewTypeInfo(vputil::TypeResolver* t) { return new ShimTypeInfo(t); }
}  // namespace vpshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google
