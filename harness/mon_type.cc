// Type helper monitors: C26 (field paths), C27 (threads), C32 (what it serves).
// Built with ASan/UBSan, and for C27 also with TSan.
#include <sched.h>

#include <atomic>
#include <mutex>
#include <thread>

#include "grpc_transcoding/json_request_translator.h"
#include "grpc_transcoding/response_to_json_translator.h"
#include "json_world.h"
#include "ref.h"
#include "vp_conv.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VP_TSAN 1
#endif
#endif

namespace vp {
namespace {
using Path = std::vector<const pb::Field*>;
const std::string kUrl = "type.googleapis.com/";

// ------------------------------------------------------------- type sets
struct Set {
  std::vector<pb::Type> types;
  std::vector<pb::Enum> enums;
  std::unique_ptr<gt::TypeHelper> h;
};
std::string Camel(const std::string& s) {
  std::string r;
  bool up = false;
  for (char c : s) {
    if (c == '_') { up = true; continue; }
    r += up ? char(toupper(c)) : c;
    up = false;
  }
  return r;
}
std::string FieldName(Choices& c) {
  switch (c.U(10)) {
    case 0: return c.Pick(Dict::Get().strs);
    case 1: return c.Bytes(1 + c.U(4));
    case 2: return std::string(1 + c.Size(40), char('a' + c.U(26)));
    case 3: return "f%41" + std::to_string(c.U(9));  // looks escaped itself
    case 4: return "x.y" + std::to_string(c.U(3));   // only in vector or escaped form
    default: {
      static const std::vector<std::string> k = {"a", "b_c", "shelf", "theme_name", "x_y_z", "id", "long_field_name", "A", "b__c", "q_2", "_u", "name", "shelf_id", "1st"};
      return c.Pick(k);
    }
  }
}
// With values of its own: types of several sets differ.
void GenSet(Choices& c, Set& s) {
  bool many = c.P(1, 400);
  size_t n = many ? c.Big(700) : 1 + c.U(6);
  std::vector<std::string> names;
  for (size_t i = 0; i < n; ++i) names.push_back((c.P(1, 8) ? c.Pick(std::vector<std::string>{"", "a/b", "google.protobuf.Foo"}) : "pkg.T") + std::to_string(i));
  for (size_t i = 0, ne = many ? c.U(300) : c.U(3); i < ne; ++i) {
    pb::Enum e;
    e.set_name("pkg.E" + std::to_string(i));
    for (size_t k = c.U(4); k--;) { auto* v = e.add_enumvalue(); v->set_name("V" + std::to_string(k)); v->set_number(int(c.U(100))); }
    s.enums.push_back(e);
  }
  for (size_t i = 0; i < n; ++i) {
    pb::Type t;
    t.set_name(names[i]);
    std::vector<std::string> used;
    for (size_t k = many ? c.U(3) : c.P(1, 20) ? 60 : c.U(9); k--;) {
      auto nm = FieldName(c);
      auto js = c.P(1, 6) ? nm : c.P(1, 6) ? "js" + std::to_string(c.U(20)) : Camel(nm);
      if (nm.empty() || js.empty()) continue;
      if (std::find(used.begin(), used.end(), nm) != used.end() || std::find(used.begin(), used.end(), js) != used.end()) continue;
      used.push_back(nm);
      used.push_back(js);
      auto* f = t.add_fields();
      f->set_name(nm);
      f->set_json_name(js);
      f->set_number(int(k) + 1);
      f->set_cardinality(c.P(1, 4) ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
      static const std::vector<pb::Field::Kind> kinds = {pb::Field::TYPE_STRING, pb::Field::TYPE_INT32, pb::Field::TYPE_ENUM, pb::Field::TYPE_GROUP, pb::Field::TYPE_BYTES, pb::Field::TYPE_DOUBLE, pb::Field::TYPE_UNKNOWN};
      if (c.P(3, 5)) {
        f->set_kind(pb::Field::TYPE_MESSAGE);
        f->set_type_url(c.P(1, 10) ? c.Pick(std::vector<std::string>{"", kUrl + "no.Such", "pkg.T0", "type.googleapis.com", kUrl}) : kUrl + c.Pick(names));
      } else {
        f->set_kind(c.Pick(kinds));
        if (f->kind() == pb::Field::TYPE_ENUM) f->set_type_url(kUrl + "pkg.E0");
        if (f->kind() == pb::Field::TYPE_GROUP) f->set_type_url(kUrl + c.Pick(names));
      }
    }
    for (size_t n = c.P(1, 3) ? 1 + c.U(4) : 0; n--;) {
      auto* o = t.add_options();
      o->set_name(c.Pick(std::vector<std::string>{"proto2.MessageOptions.map_entry", "proto2.MessageOptions.message_set_wire_format", "google.protobuf.MessageOptions.map_entry", "proto2.MessageOptions.deprecated", "x"}));
      o->mutable_value()->set_type_url("u" + std::to_string(c.U(4)));
    }
    s.types.push_back(t);
  }
}
// Answers from a pool of types, as the other constructor takes it.
class OwnResolver : public pbutil::TypeResolver {
 public:
  OwnResolver(const Set& s) : s_(s) {}
  absl::Status ResolveMessageType(const std::string& u, pb::Type* t) override {
    for (auto& x : s_.types) if (kUrl + x.name() == u) { *t = x; return absl::OkStatus(); }
    return absl::NotFoundError("no " + u);
  }
  absl::Status ResolveEnumType(const std::string& u, pb::Enum* e) override {
    for (auto& x : s_.enums) if (kUrl + x.name() == u) { *e = x; return absl::OkStatus(); }
    return absl::NotFoundError("no " + u);
  }
 private:
  const Set& s_;
};
std::string TypeText(const Set& s) {
  std::string r;
  for (auto& t : s.types) {
    r += " " + Show(t.name(), 40) + "{";
    for (auto& f : t.fields()) r += Show(f.name(), 40) + "/" + Show(f.json_name(), 40) + (f.kind() == pb::Field::TYPE_MESSAGE ? ":" + Show(f.type_url().substr(0, 60)) : "#" + std::to_string(f.kind())) + " ";
    r += "}";
  }
  return r;
}

// ------------------------------------------------- reference for paths
std::string DecodeAll(const std::string& s, bool* any) {
  std::string r;
  *any = false;
  auto hex = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size() && hex(s[i + 1]) >= 0 && hex(s[i + 2]) >= 0) {
      r += char(hex(s[i + 1]) * 16 + hex(s[i + 2]));
      i += 2;
      *any = true;
    } else {
      r += s[i];
    }
  }
  return r;
}
const pb::Type* TypeOf(const Set& s, const std::string& url) {
  for (auto& t : s.types) if (kUrl + t.name() == url) return &t;
  return nullptr;
}
const pb::Field* Named(const pb::Type& t, const std::string& n) {
  for (auto& f : t.fields()) if (f.name() == n || f.json_name() == n) return &f;
  return nullptr;
}
// The chain, or nothing.
bool Resolve(const Set& s, const pb::Type* t, const std::vector<std::string>& names, Path* out, const char** why) {
  for (size_t i = 0; i < names.size(); ++i) {
    auto* f = Named(*t, names[i]);
    bool any = false;
    std::string d = DecodeAll(names[i], &any);
    if (!f && any) f = Named(*t, d);
    if (!f) { *why = "no such field"; return false; }
    out->push_back(f);
    if (i + 1 == names.size()) break;
    if (f->kind() != pb::Field::TYPE_MESSAGE) { *why = "not a message"; return false; }
    t = TypeOf(s, f->type_url());
    if (!t) { *why = "unknown type"; return false; }
  }
  return true;
}
std::string Spell(Choices& c, const pb::Field& f, bool dotted) {
  std::string n = c.P(1, 2) ? f.name() : f.json_name();
  auto enc = [&](bool all) {
    std::string r;
    char buf[8];
    for (unsigned char ch : n) {
      if (all || c.P(1, 3) || (dotted && ch == '.')) { snprintf(buf, sizeof buf, c.P(1, 2) ? "%%%02x" : "%%%02X", ch); r += buf; }
      else r += char(ch);
    }
    return r;
  };
  bool dot = dotted && n.find('.') != n.npos;
  if (dot || c.P(1, 4)) n = enc(c.P(1, 3));
  if (c.P(1, 30)) n = enc(true);  // escaped twice
  if (c.P(1, 30)) n += c.Pick(std::vector<std::string>{"x", "%", "%4", "%zz", " ", "%20"});
  if (c.P(1, 60) && !n.empty()) n[0] = char(toupper(n[0]));
  return n;
}
void Make(Choices& c, Set& s, const Set** by_value) {
  if (c.P(1, 3)) s.h = std::make_unique<gt::TypeHelper>(new OwnResolver(s));
  else s.h = std::make_unique<gt::TypeHelper>(s.types, s.enums);
  (void)by_value;
}

void RunC26(Choices& c, Ctx& x) {
  Set s;
  GenSet(c, s);
  Make(c, s, nullptr);
  std::string st = TypeText(s).substr(0, 3000);
  size_t n = 1 + c.U(12);
  for (size_t i = 0; i < n; ++i) {
    auto& start = s.types[c.U(s.types.size())];
    auto* t0 = s.h->Info()->GetTypeByTypeUrl(kUrl + start.name());
    if (!t0) x.Fail("type-not-served", start.name() + "\n" + st);
    bool dotted = c.P(1, 2);
    std::vector<std::string> names;
    size_t len = c.P(1, 40) ? c.U(60) : c.U(6);
    const pb::Type* t = &start;
    for (size_t k = 0; k < len; ++k) {
      if (!t || t->fields_size() == 0 || c.P(1, 25)) {
        auto nm = FieldName(c);
        if (dotted) nm.erase(std::remove(nm.begin(), nm.end(), '.'), nm.end());
        if (nm.empty()) nm = "nope";
        names.push_back(nm);
        if (!t || c.P(1, 2)) break;
        continue;
      }
      // mostly fields that lead on
      const pb::Field* f = &t->fields(int(c.U(t->fields_size())));
      for (int tries = 0; tries < 4 && k + 1 < len && f->kind() != pb::Field::TYPE_MESSAGE; ++tries) f = &t->fields(int(c.U(t->fields_size())));
      auto nm = Spell(c, *f, dotted);
      if (nm.empty() || (dotted && nm.find('.') != nm.npos)) continue;
      names.push_back(nm);
      t = f->kind() == pb::Field::TYPE_MESSAGE ? TypeOf(s, f->type_url()) : nullptr;
      if (!t && c.P(2, 3)) break;
    }
    Path want;
    const char* why = "";
    bool ok = Resolve(s, &start, names, &want, &why);
    std::string str;
    for (auto& m : names) str += (&m == &names[0] ? "" : ".") + m;
    std::string ctx = std::string(dotted ? "path " : "names ") + Show(str, 400) + " in " + start.name() + "\ntypes" + st;
    SetNote(ctx);
    static const pb::Field junk;
    Path got(c.U(4), &junk);
    Path before = got;
    absl::Status status;
    if (dotted) { ExactBuf b(str); status = s.h->ResolveFieldPath(*t0, std::string(b.view()), &got); }
    else status = s.h->ResolveFieldPath(*t0, names, &got);
    x.Count("paths")++;
    if (!ok) {
      x.Count("refused")++;
      x.Count(why[0] == 'n' && why[3] == 's' ? "refused_no_such_field" : why[0] == 'n' ? "refused_not_a_message" : "refused_unknown_type")++;
      if (status.ok()) x.Fail("bad-path-resolved", why + std::string(", ") + ctx);
      if (status.code() != absl::StatusCode::kInvalidArgument) x.Fail("wrong-error-code", status.ToString() + "\n" + ctx);
      if (got != before) x.Fail("output-changed-on-failure", ctx);
      continue;
    }
    if (!status.ok()) x.Fail("good-path-refused", status.ToString() + "\n" + ctx);
    if (names.empty()) x.Count("empty_paths")++;
    bool same = got.size() == want.size();
    for (size_t k = 0; same && k < got.size(); ++k) same = got[k] && got[k]->SerializeAsString() == want[k]->SerializeAsString();
    if (!same) {
      std::string g;
      for (auto* f : got) g += f ? Show(f->name()) + "#" + std::to_string(f->number()) + " " : "null ";
      x.Fail("wrong-chain", "got " + g + "\n" + ctx);
    }
    // fields of the served types, not copies that go away
    const pb::Type* cur = t0;
    for (size_t k = 0; k < got.size(); ++k) {
      bool in = false;
      for (auto& f : cur->fields()) if (&f == got[k]) in = true;
      if (!in) x.Fail("foreign-field", "field " + std::to_string(k) + "\n" + ctx);
      if (k + 1 < got.size()) cur = s.h->Info()->GetTypeByTypeUrl(got[k]->type_url());
    }
    x.Count("resolved")++;
    x.Count("max_path_length") = std::max<uint64_t>(x.Count("max_path_length"), names.size());
    if (names.size() > 1) x.Distinct(HashBytes(ctx));
    for (size_t k = 0; k < names.size(); ++k)
      if (names[k] != want[k]->name()) x.Count(names[k] == want[k]->json_name() ? "json_spellings" : "escaped_spellings")++;
    if (names.size() > 2 && x.WantSample()) x.Sample(ctx);
  }
}

// ------------------------------------------------------------------- C32
std::string Renamed(pb::Type t) {
  for (auto& o : *t.mutable_options()) {
    if (o.name() == "proto2.MessageOptions.map_entry") o.set_name("google.protobuf.MessageOptions.map_entry");
    else if (o.name() == "proto2.MessageOptions.message_set_wire_format") o.set_name("google.protobuf.MessageOptions.message_set_wire_format");
  }
  return t.SerializeAsString();
}
void RunC32(Choices& c, Ctx& x) {
  Set s;
  GenSet(c, s);
  std::vector<std::string> want;
  for (auto& t : s.types) want.push_back(Renamed(t));
  std::string st = TypeText(s).substr(0, 3000);
  int how = int(c.U(3));
  pb::RepeatedPtrField<pb::Type> rt;
  pb::RepeatedPtrField<pb::Enum> re;
  pbutil::TypeResolver* own = nullptr;
  if (how == 0) {
    s.h = std::make_unique<gt::TypeHelper>(s.types, s.enums);
  } else if (how == 1) {  // as in a service configuration
    for (auto& t : s.types) *rt.Add() = t;
    for (auto& e : s.enums) *re.Add() = e;
    s.h = std::make_unique<gt::TypeHelper>(rt, re);
  } else {
    own = new OwnResolver(s);
    s.h = std::make_unique<gt::TypeHelper>(own);
    if (s.h->Resolver() != own) x.Fail("other-resolver", st);
    want.clear();
    for (auto& t : s.types) want.push_back(t.SerializeAsString());
  }
  SetNote("types" + st);
  auto* r = s.h->Resolver();
  auto* info = s.h->Info();
  std::map<std::string, const pb::Type*> first;
  size_t n = 4 + c.U(20);
  for (size_t i = 0; i < n; ++i) {
    bool known = c.P(3, 4);
    size_t k = c.U(s.types.size());
    std::string nm = s.types[k].name();
    std::string url = kUrl + nm;
    if (!known) {
      switch (c.U(6)) {
        case 0: url = nm; break;
        case 1: url = kUrl; break;
        case 2: url = "type.googleapis.com" + nm; break;
        case 3: url += "x"; break;
        case 4: url = "other.com/" + nm; break;
        default: url.clear(); break;
      }
      for (auto& t : s.types) if (kUrl + t.name() == url) known = true;
      if (known) continue;
    }
    std::string ctx = "url " + Show(url, 200) + "\ntypes" + st;
    switch (c.U(5)) {
      case 0: {
        pb::Type t;
        t.set_name("old");
        auto status = r->ResolveMessageType(url, &t);
        if (status.ok() != known) x.Fail(known ? "type-not-found" : "unknown-type-found", status.ToString() + " " + ctx);
        if (known && t.SerializeAsString() != want[k]) x.Fail("wrong-type", t.ShortDebugString() + "\n" + ctx);
        if (!known && status.code() != absl::StatusCode::kNotFound) x.Fail("wrong-error-code", status.ToString() + "\n" + ctx);
        break;
      }
      case 1: {
        auto* t = info->GetTypeByTypeUrl(url);
        if ((t != nullptr) != known) x.Fail(known ? "type-not-found" : "unknown-type-found", ctx);
        if (t && t->SerializeAsString() != want[k]) x.Fail("wrong-type", t->ShortDebugString() + "\n" + ctx);
        if (t && !first.emplace(url, t).second && first[url] != t) x.Fail("type-moved", ctx);
        break;
      }
      case 2: {
        auto t = info->ResolveTypeUrl(url);
        if (t.ok() != known) x.Fail(known ? "type-not-found" : "unknown-type-found", ctx);
        if (known && t.value()->SerializeAsString() != want[k]) x.Fail("wrong-type", ctx);
        if (known && !first.emplace(url, t.value()).second && first[url] != t.value()) x.Fail("type-moved", ctx);
        break;
      }
      case 3: {  // enums
        bool ek = !s.enums.empty() && known;
        size_t e = s.enums.empty() ? 0 : c.U(s.enums.size());
        std::string eu = ek ? kUrl + s.enums[e].name() : url;
        pb::Enum en;
        auto status = r->ResolveEnumType(eu, &en);
        auto* ep = info->GetEnumByTypeUrl(eu);
        if (status.ok() != ek || (ep != nullptr) != ek) x.Fail(ek ? "enum-not-found" : "unknown-enum-found", "enum url " + Show(eu) + "\n" + ctx);
        if (ek && (en.SerializeAsString() != s.enums[e].SerializeAsString() || ep->SerializeAsString() != en.SerializeAsString())) x.Fail("wrong-enum", en.ShortDebugString() + "\n" + ctx);
        if (!ek && status.code() != absl::StatusCode::kNotFound) x.Fail("wrong-error-code", status.ToString() + "\n" + ctx);
        if (ek) x.Count("enums_served")++;
        break;
      }
      default: {  // fields by either name
        if (!known) continue;
        auto* t = info->GetTypeByTypeUrl(url);
        if (!t) x.Fail("type-not-found", ctx);
        auto* w = s.types[k].fields_size() && c.P(3, 4) ? &s.types[k].fields(int(c.U(s.types[k].fields_size()))) : nullptr;
        std::string fn = w ? (c.P(1, 2) ? w->name() : w->json_name()) : "no" + FieldName(c);
        if (!w) w = Named(s.types[k], fn);
        auto* f = info->FindField(t, fn);
        if ((f != nullptr) != (w != nullptr)) x.Fail(w ? "field-not-found" : "unknown-field-found", Show(fn) + " " + ctx);
        if (f && f->SerializeAsString() != w->SerializeAsString()) x.Fail("wrong-field", Show(fn) + " " + ctx);
        if (f) x.Count("fields_served")++;
        break;
      }
    }
    x.Count("questions")++;
    if (known) x.Count("types_served")++;
    else x.Count("unknown_names")++;
  }
  for (auto& t : s.types) for (auto& o : t.options()) if (how != 2 && o.name().find("map_entry") != std::string::npos) { x.Count("map_entry_options")++; break; }
  x.Distinct(HashBytes(st));
}

// ------------------------------------------------------------------- C27
struct Slot { std::atomic<const void*> key{nullptr}; std::atomic<int> in{0}; };
Slot g_slot[256];
std::atomic<uint64_t> g_enters{0}, g_overlaps{0};
thread_local uint64_t g_rng = 1;
thread_local int g_depth = 0;
void Hook(const void* cache, bool enter) {
  if (enter ? g_depth++ : --g_depth) return;
  Slot* s = nullptr;
  for (size_t i = reinterpret_cast<uintptr_t>(cache) / 16 % 256, n = 0; n < 256; ++n, i = (i + 1) % 256) {
    const void* k = g_slot[i].key.load(std::memory_order_relaxed);
    if (k == nullptr && g_slot[i].key.compare_exchange_strong(k, cache, std::memory_order_relaxed)) k = cache;
    if (k == cache) { s = &g_slot[i]; break; }
  }
  if (!s) return;
  if (enter) {
    g_enters.fetch_add(1, std::memory_order_relaxed);
    if (s->in.fetch_add(1, std::memory_order_relaxed) != 0) g_overlaps.fetch_add(1, std::memory_order_relaxed);
    switch (SplitMix(g_rng) % 8) {  // others get a chance to come in
      case 0: sched_yield(); break;
      case 1: for (volatile int i = 0; i < 200; ++i) {} break;
      case 2: usleep(1); break;
      default: break;
    }
  } else {
    s->in.fetch_sub(1, std::memory_order_relaxed);
  }
}
struct Op { int kind; std::string a; std::vector<std::string> names; std::string want; };
const char kNone[] = "(none)";
std::string Do(const Set& s, const Op& o) {
  auto* info = s.h->Info();
  switch (o.kind) {
    case 0: { auto* t = info->GetTypeByTypeUrl(o.a); return t ? t->name() + "/" + std::to_string(t->fields_size()) : kNone; }
    case 1: { auto t = info->ResolveTypeUrl(o.a); return t.ok() ? t.value()->name() : kNone; }
    case 2: { auto* e = info->GetEnumByTypeUrl(o.a); return e ? e->name() + "/" + std::to_string(e->enumvalue_size()) : kNone; }
    case 3: {
      auto* t = info->GetTypeByTypeUrl(o.a);
      if (!t) return kNone;
      auto* f = info->FindField(t, o.names[0]);
      return f ? f->name() + "/" + std::to_string(f->number()) : kNone;
    }
    case 4: case 5: {
      auto* t = info->GetTypeByTypeUrl(o.a);
      if (!t) return kNone;
      Path p;
      std::string str;
      for (auto& n : o.names) str += (str.empty() ? "" : ".") + n;
      auto st = o.kind == 4 ? s.h->ResolveFieldPath(*t, o.names, &p) : s.h->ResolveFieldPath(*t, str, &p);
      if (!st.ok()) return "error " + std::to_string(int(st.code()));
      std::string r;
      for (auto* f : p) r += f->name() + "/" + std::to_string(f->number()) + " ";
      return r;
    }
    case 6: { pb::Type t; return s.h->Resolver()->ResolveMessageType(o.a, &t).ok() ? t.name() : kNone; }
    default: {  // a whole request, sharing the helper
      gt::RequestInfo ri;
      ri.message_type = info->GetTypeByTypeUrl(o.a);
      if (!ri.message_type) return kNone;
      ri.body_field_path = "";
      JsonInput in(o.names[0], 7, 1);
      in.Arrive(in.total());
      in.closed = true;
      gt::JsonRequestTranslator t(s.h->Resolver(), &in, std::move(ri), false, false);
      std::string m;
      bool got = t.Output().NextMessage(&m);
      return got ? "message " + Hex(m) : "error " + std::to_string(int(t.Output().Status().code()));
    }
  }
}
// The types of the monitor's messages or random ones, always the same content.
void FillSet(Set& s, const Set& from) { s.types = from.types; s.enums = from.enums; }
void RunC27(Choices& c, Ctx& x) {
  Set base;
  bool real = c.P(1, 2);
  if (real) FillSet(base, [] { static Set w; static bool once = [] { w.types = TheWorld().types; w.enums = TheWorld().enums; return true; }(); (void)once; return std::ref(w); }());
  else GenSet(c, base);
  bool own = c.P(1, 3);
  auto build = [&](Set& s) {
    FillSet(s, base);
    if (own) s.h = std::make_unique<gt::TypeHelper>(new OwnResolver(s));
    else s.h = std::make_unique<gt::TypeHelper>(s.types, s.enums);
  };
  size_t helpers = 1 + c.U(2);
  std::vector<Set> sets(helpers);
  for (auto& s : sets) build(s);
  // questions and their answers from a helper nobody shares
  std::vector<Op> ops;
  std::string text;
  for (size_t i = 4 + c.U(16); i--;) {
    Op o;
    auto& t = base.types[c.U(base.types.size())];
    o.kind = int(c.U(real ? 8 : 7));
    o.a = kUrl + t.name();
    if (c.P(1, 10)) o.a += "x";
    if (o.kind == 2 && !base.enums.empty()) o.a = kUrl + base.enums[c.U(base.enums.size())].name();
    if (o.kind == 3) o.names.push_back(t.fields_size() && c.P(5, 6) ? (c.P(1, 2) ? t.fields(int(c.U(t.fields_size()))).name() : t.fields(int(c.U(t.fields_size()))).json_name()) : "nope");
    if (o.kind == 4 || o.kind == 5) {
      const pb::Type* cur = &t;
      for (size_t k = c.U(5); k-- && cur && cur->fields_size();) {
        auto& f = cur->fields(int(c.U(cur->fields_size())));
        std::string n = c.P(1, 2) ? f.name() : f.json_name();
        if (n.find('.') != n.npos || n.empty()) continue;
        o.names.push_back(n);
        cur = f.kind() == pb::Field::TYPE_MESSAGE ? TypeOf(base, f.type_url()) : nullptr;
      }
    }
    if (o.kind == 7) {
      o.a = Url(Leaf::descriptor());
      o.names.push_back("{\"leafName\":\"n" + std::to_string(c.U(100)) + "\",\"nextLeaf\":{\"leafMode\":\"" + (c.P(3, 4) ? "ACTIVE" : "NOPE") + "\",\"nums\":[1,2]},\"zz\":[{}]}");
    }
    ops.push_back(o);
    text += std::to_string(o.kind) + Show(o.a.substr(std::min(o.a.size(), kUrl.size())), 30) + " ";
  }
  SetNote("type helper questions " + text);
  {
    Set alone;
    build(alone);
    for (auto& o : ops) o.want = Do(alone, o);
  }
  size_t threads = 2 + c.U(5), per = 10 + c.U(40);
  uint64_t seed = c.Raw(8);
  for (auto& s : g_slot) { s.key = nullptr; s.in = 0; }
  g_enters = g_overlaps = 0;
  vp_type_info_hook = Hook;
  std::atomic<size_t> ready{0};
  std::atomic<bool> bad{false};
  std::mutex mu;
  std::string msg;
  std::atomic<uint64_t> active{0}, met{0}, total{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      Choices r(Mix(seed, t));
      g_rng = Mix(seed, t + 100);
      ready++;
      while (ready.load(std::memory_order_relaxed) < threads) sched_yield();
      for (size_t i = 0; i < per; ++i) {
        auto& o = ops[r.U(ops.size())];
        auto& s = sets[r.U(sets.size())];
        if (active.fetch_add(1, std::memory_order_relaxed)) met.fetch_add(1, std::memory_order_relaxed);
        std::string got = Do(s, o);
        active.fetch_sub(1, std::memory_order_relaxed);
        total.fetch_add(1, std::memory_order_relaxed);
        if (got != o.want && !bad.exchange(true)) {
          std::lock_guard<std::mutex> l(mu);
          msg = "question kind " + std::to_string(o.kind) + " " + Show(o.a) + ": alone " + Show(o.want) + ", concurrently " + Show(got);
        }
      }
    });
  for (auto& t : ts) t.join();
  vp_type_info_hook = nullptr;
  x.Count("threads") += threads;
  x.Count("questions") += total;
  x.Count("overlapping_questions") += met;
  x.Count("cache_uses") += g_enters;
  if (g_overlaps) x.Fail("unordered-cache-use", std::to_string(g_overlaps) + " of " + std::to_string(g_enters) + " uses of the type cache began while another thread was inside it; " + std::to_string(threads) + " threads, questions " + text);
  if (bad) x.Fail("wrong-answer-under-concurrency", msg + "\ntypes" + (real ? " of the monitor" : TypeText(base).substr(0, 2000)));
  x.Distinct(Mix(HashBytes(text), met));
  if (x.WantSample()) x.Sample(std::to_string(threads) + " threads, " + std::to_string(total) + " questions (" + std::to_string(met) + " overlapping), " + std::to_string(helpers) + " helpers: " + text);
}

#ifndef VP_TSAN
Register r26("C26", RunC26), r32("C32", RunC32);
#endif
Register r27("C27", RunC27);
}  // namespace
}  // namespace vp
