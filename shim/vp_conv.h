// The converter interface of protobuf 4.23-25 (absl types), which the
// translators are written against, over the converter library of the protobuf
// 3.21.12 that is installed here. The classes live in an inline namespace, so
// the sources under test see the names they expect and the symbols do not meet
// those of libprotobuf; bridge.cc forwards every call to the real classes.
#pragma once
#include <cstdint>
#include <memory>
#include <string>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "google/protobuf/descriptor.h"
#include "google/protobuf/io/zero_copy_stream.h"
#include "google/protobuf/stubs/bytestream.h"
#include "google/protobuf/type.pb.h"

#ifdef VP_BRIDGE
#define VP_INLINE
#else
#define VP_INLINE inline
#endif

namespace google {
namespace protobuf {
namespace util {
VP_INLINE namespace vputil {

class TypeResolver {
 public:
  TypeResolver() {}
  TypeResolver(const TypeResolver&) = delete;
  TypeResolver& operator=(const TypeResolver&) = delete;
  virtual ~TypeResolver() {}
  virtual absl::Status ResolveMessageType(const std::string& type_url, google::protobuf::Type* message_type) = 0;
  virtual absl::Status ResolveEnumType(const std::string& type_url, google::protobuf::Enum* enum_type) = 0;
};
TypeResolver* NewTypeResolverForDescriptorPool(const std::string& url_prefix, const DescriptorPool* pool);

struct JsonParseOptions {
  bool ignore_unknown_fields = false;
  bool case_insensitive_enum_parsing = false;
};
struct JsonPrintOptions {
  bool add_whitespace = false;
  bool always_print_primitive_fields = false;
  bool always_print_enums_as_ints = false;
  bool preserve_proto_field_names = false;
  JsonPrintOptions() {}
};
absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& type_url, io::ZeroCopyInputStream* binary_input,
                                io::ZeroCopyOutputStream* json_output, const JsonPrintOptions& options);
inline absl::Status BinaryToJsonStream(TypeResolver* resolver, const std::string& type_url, io::ZeroCopyInputStream* binary_input,
                                       io::ZeroCopyOutputStream* json_output) {
  return BinaryToJsonStream(resolver, type_url, binary_input, json_output, JsonPrintOptions());
}
absl::Status BinaryToJsonString(TypeResolver* resolver, const std::string& type_url, const std::string& binary_input,
                                std::string* json_output, const JsonPrintOptions& options = JsonPrintOptions());
absl::Status JsonToBinaryString(TypeResolver* resolver, const std::string& type_url, absl::string_view json_input,
                                std::string* binary_output, const JsonParseOptions& options = JsonParseOptions());
}  // namespace vputil

namespace converter {
VP_INLINE namespace vpshim {

class LocationTrackerInterface {
 public:
  virtual ~LocationTrackerInterface() {}
  virtual std::string ToString() const = 0;
  LocationTrackerInterface(const LocationTrackerInterface&) = delete;
  LocationTrackerInterface& operator=(const LocationTrackerInterface&) = delete;

 protected:
  LocationTrackerInterface() {}
};
class ObjectLocationTracker : public LocationTrackerInterface {
 public:
  ObjectLocationTracker() {}
  std::string ToString() const override { return ""; }
};

class ErrorListener {
 public:
  virtual ~ErrorListener() {}
  virtual void InvalidName(const LocationTrackerInterface& loc, absl::string_view unknown_name, absl::string_view message) = 0;
  virtual void InvalidValue(const LocationTrackerInterface& loc, absl::string_view type_name, absl::string_view value) = 0;
  virtual void MissingField(const LocationTrackerInterface& loc, absl::string_view missing_name) = 0;
  ErrorListener(const ErrorListener&) = delete;
  ErrorListener& operator=(const ErrorListener&) = delete;

 protected:
  ErrorListener() {}
};
class NoopErrorListener : public ErrorListener {
 public:
  NoopErrorListener() {}
  void InvalidName(const LocationTrackerInterface&, absl::string_view, absl::string_view) override {}
  void InvalidValue(const LocationTrackerInterface&, absl::string_view, absl::string_view) override {}
  void MissingField(const LocationTrackerInterface&, absl::string_view) override {}
};

class DataPiece {
 public:
  enum Type {
    TYPE_INT32 = 1, TYPE_INT64 = 2, TYPE_UINT32 = 3, TYPE_UINT64 = 4, TYPE_DOUBLE = 5, TYPE_FLOAT = 6,
    TYPE_BOOL = 7, TYPE_ENUM = 8, TYPE_STRING = 9, TYPE_BYTES = 10, TYPE_NULL = 11,
  };
  explicit DataPiece(int32_t v) : type_(TYPE_INT32), use_strict_(false) { v_.i32 = v; }
  explicit DataPiece(int64_t v) : type_(TYPE_INT64), use_strict_(false) { v_.i64 = v; }
  explicit DataPiece(uint32_t v) : type_(TYPE_UINT32), use_strict_(false) { v_.u32 = v; }
  explicit DataPiece(uint64_t v) : type_(TYPE_UINT64), use_strict_(false) { v_.u64 = v; }
  explicit DataPiece(double v) : type_(TYPE_DOUBLE), use_strict_(false) { v_.d = v; }
  explicit DataPiece(float v) : type_(TYPE_FLOAT), use_strict_(false) { v_.f = v; }
  explicit DataPiece(bool v) : type_(TYPE_BOOL), use_strict_(false) { v_.b = v; }
  DataPiece(absl::string_view v, bool use_strict_base64_decoding) : type_(TYPE_STRING), str_(v), use_strict_(use_strict_base64_decoding) {}
  DataPiece(absl::string_view v, bool /*bytes*/, bool use_strict_base64_decoding) : type_(TYPE_BYTES), str_(v), use_strict_(use_strict_base64_decoding) {}
  DataPiece(const DataPiece&) = default;
  DataPiece& operator=(const DataPiece&) = default;
  static DataPiece NullData() { DataPiece p(int32_t(0)); p.type_ = TYPE_NULL; return p; }
  virtual ~DataPiece() {}

  Type type() const { return type_; }
  bool use_strict_base64_decoding() const { return use_strict_; }
  absl::string_view str() const { return str_; }
  absl::StatusOr<int32_t> ToInt32() const;
  absl::StatusOr<uint32_t> ToUint32() const;
  absl::StatusOr<int64_t> ToInt64() const;
  absl::StatusOr<uint64_t> ToUint64() const;
  absl::StatusOr<double> ToDouble() const;
  absl::StatusOr<float> ToFloat() const;
  absl::StatusOr<bool> ToBool() const;
  absl::StatusOr<std::string> ToString() const;
  absl::StatusOr<std::string> ToBytes() const;
  std::string ValueAsStringOrDefault(absl::string_view default_string) const;

  union Value { int32_t i32; int64_t i64; uint32_t u32; uint64_t u64; double d; float f; bool b; };
  const Value& value() const { return v_; }

 private:
  Type type_;
  Value v_ = {};
  absl::string_view str_;
  bool use_strict_;
};

class ObjectWriter {
 public:
  virtual ~ObjectWriter() {}
  virtual ObjectWriter* StartObject(absl::string_view name) = 0;
  virtual ObjectWriter* EndObject() = 0;
  virtual ObjectWriter* StartList(absl::string_view name) = 0;
  virtual ObjectWriter* EndList() = 0;
  virtual ObjectWriter* RenderBool(absl::string_view name, bool value) = 0;
  virtual ObjectWriter* RenderInt32(absl::string_view name, int32_t value) = 0;
  virtual ObjectWriter* RenderUint32(absl::string_view name, uint32_t value) = 0;
  virtual ObjectWriter* RenderInt64(absl::string_view name, int64_t value) = 0;
  virtual ObjectWriter* RenderUint64(absl::string_view name, uint64_t value) = 0;
  virtual ObjectWriter* RenderDouble(absl::string_view name, double value) = 0;
  virtual ObjectWriter* RenderFloat(absl::string_view name, float value) = 0;
  virtual ObjectWriter* RenderString(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) = 0;
  virtual ObjectWriter* RenderNull(absl::string_view name) = 0;
  static void RenderDataPieceTo(const DataPiece& data, absl::string_view name, ObjectWriter* ow);
  virtual bool done() { return false; }
  void set_use_strict_base64_decoding(bool value) { use_strict_base64_decoding_ = value; }
  bool use_strict_base64_decoding() const { return use_strict_base64_decoding_; }
  ObjectWriter(const ObjectWriter&) = delete;
  ObjectWriter& operator=(const ObjectWriter&) = delete;

 protected:
  ObjectWriter() : use_strict_base64_decoding_(true) {}

 private:
  bool use_strict_base64_decoding_;
};
using StructuredObjectWriter = ObjectWriter;

class JsonStreamParser {
 public:
  explicit JsonStreamParser(ObjectWriter* ow);
  JsonStreamParser(const JsonStreamParser&) = delete;
  JsonStreamParser& operator=(const JsonStreamParser&) = delete;
  virtual ~JsonStreamParser();
  absl::Status Parse(absl::string_view json);
  absl::Status FinishParse();

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};

class TypeInfo {
 public:
  TypeInfo() {}
  TypeInfo(const TypeInfo&) = delete;
  TypeInfo& operator=(const TypeInfo&) = delete;
  virtual ~TypeInfo() {}
  virtual absl::StatusOr<const google::protobuf::Type*> ResolveTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Type* GetTypeByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Enum* GetEnumByTypeUrl(absl::string_view type_url) const = 0;
  virtual const google::protobuf::Field* FindField(const google::protobuf::Type* type, absl::string_view camel_case_name) const = 0;
  static TypeInfo* NewTypeInfo(vputil::TypeResolver* type_resolver);
};

class ProtoStreamObjectWriter : public ObjectWriter {
 public:
  struct Options {
    bool struct_integers_as_strings = false;
    bool ignore_unknown_fields = false;
    bool ignore_unknown_enum_values = false;
    bool use_lower_camel_for_enums = false;
    bool case_insensitive_enum_parsing = false;
    bool ignore_null_value_map_entry = false;
    bool use_legacy_json_map_format = false;
    bool disable_implicit_message_list = false;
    bool suppress_implicit_message_list_error = false;
    bool disable_implicit_scalar_list = false;
    bool suppress_implicit_scalar_list_error = false;
    bool suppress_object_to_scalar_error = false;
    bool use_json_name_in_missing_fields = false;
    Options() {}
    static const Options& Defaults() { static Options* o = new Options(); return *o; }
  };
  ProtoStreamObjectWriter(vputil::TypeResolver* type_resolver, const google::protobuf::Type& type, strings::ByteSink* output,
                          ErrorListener* listener, const Options& options = Options::Defaults());
  ~ProtoStreamObjectWriter() override;
  ProtoStreamObjectWriter* StartObject(absl::string_view name) override;
  ProtoStreamObjectWriter* EndObject() override;
  ProtoStreamObjectWriter* StartList(absl::string_view name) override;
  ProtoStreamObjectWriter* EndList() override;
  ProtoStreamObjectWriter* RenderBool(absl::string_view name, bool value) override;
  ProtoStreamObjectWriter* RenderInt32(absl::string_view name, int32_t value) override;
  ProtoStreamObjectWriter* RenderUint32(absl::string_view name, uint32_t value) override;
  ProtoStreamObjectWriter* RenderInt64(absl::string_view name, int64_t value) override;
  ProtoStreamObjectWriter* RenderUint64(absl::string_view name, uint64_t value) override;
  ProtoStreamObjectWriter* RenderDouble(absl::string_view name, double value) override;
  ProtoStreamObjectWriter* RenderFloat(absl::string_view name, float value) override;
  ProtoStreamObjectWriter* RenderString(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderBytes(absl::string_view name, absl::string_view value) override;
  ProtoStreamObjectWriter* RenderNull(absl::string_view name) override;
  bool done() override;

 private:
  struct Impl;
  std::unique_ptr<Impl> impl_;
};
}  // namespace vpshim
}  // namespace converter
}  // namespace util
}  // namespace protobuf
}  // namespace google

// Called around every use of the (not thread-safe) type cache of the library.
extern void (*vp_type_info_hook)(const void* cache, bool enter);
