// Whole requests through matcher, type helper, translators and reader: C34.
#include "doc_gen.h"
#include "google/api/http.pb.h"
#include "grpc_transcoding/path_matcher.h"
#include "grpc_transcoding/path_matcher_utility.h"
#include "grpc_transcoding/response_to_json_translator.h"

namespace vp {
namespace {
using google::api::HttpRule;
using Builder = gt::PathMatcherBuilder<const int*>;

void Escape(std::string& o, unsigned char ch, Choices& c) {
  char b[8];
  snprintf(b, sizeof b, c.P(1, 2) ? "%%%02x" : "%%%02X", ch);
  o += b;
}
bool Reserved(char ch) { return strchr("!#$&'()*+,/:;=?@[]", ch) && ch; }
// One value as a path segment that decodes to it.
std::string Segment(const std::string& v, Choices& c, unsigned raw) {
  std::string o;
  for (unsigned char ch : v) {
    bool must = ch == '/' || ch == '?' || ch == '%' || ch == ':';
    bool odd = !isalnum(ch) && !strchr("-_.~", ch);
    if (must || (odd && !c.P(raw, 3)) || c.P(1, 25)) Escape(o, ch, c);
    else o += char(ch);
  }
  return o;
}
// A value over several segments; false if it cannot be spelled.
bool Segments(const std::string& v, gt::UrlUnescapeSpec spec, Choices& c, std::string* o) {
  o->clear();
  if (v.empty() || v.back() == '/') return false;
  for (unsigned char ch : v) {
    if (ch == '/') {
      if (spec == gt::UrlUnescapeSpec::kAllCharacters && c.P(1, 4)) Escape(*o, ch, c); else *o += '/';
    } else if (spec == gt::UrlUnescapeSpec::kAllCharactersExceptReserved && Reserved(char(ch))) {
      if (ch == '?' || ch == ':') return false;
      *o += char(ch);
    } else if (ch == '?' || ch == '%' || ch == ':' || (!isalnum(ch) && c.P(1, 2)) || c.P(1, 25)) {
      Escape(*o, ch, c);
    } else {
      *o += char(ch);
    }
  }
  return true;
}
std::string QueryValue(const std::string& v, bool plus, Choices& c, unsigned raw) {
  std::string o;
  for (unsigned char ch : v) {
    if (ch == ' ' && plus && c.P(1, 2)) { o += '+'; continue; }
    bool must = ch == '&' || ch == '%' || (ch == '+' && plus);
    bool odd = !isalnum(ch) && !strchr("-_.~", ch);
    if (must || (odd && !c.P(raw, 3)) || c.P(1, 25)) Escape(o, ch, c);
    else o += char(ch);
  }
  return o;
}
std::string FieldPath(const std::vector<const FD*>& p, Choices& c, bool escapes) {
  std::string o;
  for (auto* f : p) {
    if (!o.empty()) o += '.';
    std::string n = c.P(1, 2) ? f->name() : f->json_name();
    for (unsigned char ch : n) if (escapes && c.P(1, 12)) Escape(o, ch, c); else o += char(ch);
  }
  return o;
}

void RunC34(Choices& c, Ctx& x) {
  // what is to arrive
  DocGen g;
  bool streaming = c.P(1, 3);
  g.Choose(c, streaming);
  if (!g.path.empty() && g.q.body != PathText(g.path)) g.q.body = PathText(g.path);
  if (g.mo.text > 100) g.mo.text = 3000;
  bool with_binds = c.P(9, 10);
  JsonOut j(c, !with_binds);
  if (g.q.ci) j.AnyEnumCase();
  std::vector<Doc> docs;
  for (size_t n = streaming ? 1 + c.U(4) : 1; n-- > 0;) docs.push_back(g.Make(c, j, int(c.U(3))));
  if (with_binds) g.AddBinds(c, docs[0].want.get(), c.P(1, 20) ? 30 : 7);
  // resource names
  for (auto& b : g.q.binds)
    if (b.path.back()->type() == FD::TYPE_STRING && c.P(1, 4)) {
      auto* f = b.path.back();
      b.text = std::string(c.P(1, 2) ? "shelves/" : "a/") + vp::Text(c, 8);
      if (c.P(1, 2)) b.text += "/books/" + vp::Text(c, 8);
      if (f->is_repeated()) b.holder->GetReflection()->SetRepeatedString(b.holder.get(), f, 0, b.text);
      else b.holder->GetReflection()->SetString(b.holder.get(), f, b.text);
    }
  // how it is spelled
  static const std::vector<std::string> kLit = {"shelves", "books", "a", "v2", "x-y", "_"};
  int spec_no = int(c.U(4));
  auto spec = spec_no == 1 ? gt::UrlUnescapeSpec::kAllCharacters : spec_no == 2 ? gt::UrlUnescapeSpec::kAllCharactersExceptSlash : gt::UrlUnescapeSpec::kAllCharactersExceptReserved;
  bool plus = c.P(1, 3);
  unsigned raw = unsigned(c.U(4));
  std::string tmpl = "/v1", path = "/v1";
  auto literal = [&] { std::string l = "/" + c.Pick(kLit); tmpl += l; path += l; };
  auto field = [&](const Bind& b) { return FieldPath(b.path, c, true); };
  std::vector<const Bind*> order, rest;
  size_t vars = 0;
  for (auto& b : g.q.binds) if (!b.text.empty() && b.text.size() < 4000 && vars < 4 && c.P(1, 2)) { order.push_back(&b); ++vars; } else rest.push_back(&b);
  bool wild = false;
  for (size_t i = 0; i < order.size(); ++i) {
    auto& b = *order[i];
    while (c.P(1, 2)) literal();
    std::string spelled;
    size_t slash = b.text.find('/');
    bool two = slash != b.text.npos && slash > 0 && b.text.find('/', slash + 1) == b.text.npos && slash + 1 < b.text.size();
    if (two) for (char ch : b.text.substr(0, slash)) two &= isalnum((unsigned char)ch) != 0;
    if (two && c.P(2, 3)) {
      // {name=shelves/*}: several segments
      if (Segments(b.text.substr(slash + 1), spec, c, &spelled) && spelled.find('/') == spelled.npos) {
        tmpl += "/{" + field(b) + "=" + b.text.substr(0, slash) + "/*}";
        path += "/" + b.text.substr(0, slash) + "/" + spelled;
        x.Count("resource_names")++;
        continue;
      }
    }
    if (i + 1 == order.size() && c.P(1, 2) && Segments(b.text, spec, c, &spelled)) {
      tmpl += "/{" + field(b) + "=**}";
      path += "/" + spelled;
      wild = true;
      x.Count("wildcard_variables")++;
      if (c.P(1, 3)) literal();
      break;
    }
    tmpl += "/{" + field(b) + (c.P(1, 2) ? "=*}" : "}");
    path += "/" + Segment(b.text, c, raw);
    x.Count("path_variables")++;
  }
  if (!wild) while (c.P(1, 3)) literal();
  bool verb = c.P(1, 4);
  if (verb) { tmpl += ":doIt"; path += ":doIt"; }
  else if (c.P(1, 6)) path += c.P(1, 2) ? "/" : "//";
  if (c.P(1, 10)) path += "?junk=1&i32=5";
  std::string query;
  std::vector<std::string> sys = {"key", "$alt", "prettyPrint"};
  auto noise = [&] {
    switch (c.U(4)) {
      case 0: return c.Pick(sys) + "=" + QueryValue(vp::Text(c, 5), plus, c, 1);
      case 1: return std::string("flag");
      case 2: return std::string("=nothing");
      default: return std::string();
    }
  };
  for (auto* b : rest) {
    while (c.P(1, 6)) query += noise() + "&";
    query += FieldPath(b->path, c, true) + "=" + QueryValue(b->text, plus, c, raw) + "&";
    order.push_back(b);
    x.Count("query_parameters")++;
  }
  if (c.P(1, 3)) query += noise(); else if (!query.empty()) query.pop_back();
  // values arrive in the order of the URL
  for (auto* b : order) ApplyBind(docs[0].want.get(), *b);
  std::string json;
  if (streaming) {
    json = "[";
    for (size_t i = 0; i < docs.size(); ++i) json += (i ? "," : "") + j.Ws() + docs[i].json + j.Ws();
    json += "]";
  } else {
    json = j.Ws() + docs[0].json + j.Ws();
  }

  // the gateway: rules
  static int tokens[8];
  auto b = std::make_unique<Builder>();
  if (spec_no) b->SetUrlUnescapeSpec(spec);
  if (plus || c.P(1, 2)) b->SetQueryParamUnescapePlus(plus);
  unsigned kind = unsigned(c.U(7));
  std::string method = std::vector<std::string>{"GET", "PUT", "POST", "DELETE", "PATCH", "REPORT", "LOCK"}[kind];
  auto set = [&](HttpRule* r, unsigned k, const std::string& t, const std::string& custom) {
    switch (k) {
      case 0: r->set_get(t); break;
      case 1: r->set_put(t); break;
      case 2: r->set_post(t); break;
      case 3: r->set_delete_(t); break;
      case 4: r->set_patch(t); break;
      default: r->mutable_custom()->set_kind(custom); r->mutable_custom()->set_path(t);
    }
  };
  HttpRule rule;
  if (c.P(1, 3)) {
    set(&rule, unsigned(c.U(5)), "/first/{i32=*}", "");
    rule.set_body("leaf_two");
    auto* a = rule.add_additional_bindings();
    set(a, kind, tmpl, kind == 6 ? "*" : method);
    a->set_body(g.q.body);
    x.Count("additional_bindings")++;
  } else {
    set(&rule, kind, tmpl, kind == 6 ? "*" : method);
    rule.set_body(g.q.body);
  }
  std::vector<HttpRule> others;
  std::string text = "rule {" + rule.ShortDebugString() + "}";
  for (size_t n = c.U(5); n-- > 0;) {
    HttpRule o;
    switch (c.U(4)) {
      case 0: set(&o, kind == 6 ? unsigned(c.U(6)) : kind, "/**", method); break;
      case 1: set(&o, kind == 6 ? 0 : unsigned(c.U(5)), "/v9/{x=shelves/*}/" + std::to_string(n) + ":doIt", method); break;
      case 2: if (kind == 6) continue; set(&o, 6, tmpl, "*"); break;
      default: set(&o, kind == 6 ? 5 : kind, "/v1/a/b/c/d/e/f/g/h/i/j/k" + std::to_string(n) + "/{x=**}", method); break;
    }
    o.set_body("nothing.of.this");
    others.push_back(o);
    text += "\nother {" + o.ShortDebugString() + "}";
  }
  size_t at = c.U(others.size() + 1);
  std::unordered_set<std::string> sys_set(sys.begin(), sys.end());
  for (size_t i = 0; i <= others.size(); ++i) {
    if (i == at && !gt::PathMatcherUtility::RegisterByHttpRule<const int*>(*b, rule, sys_set, &tokens[0])) x.Fail("rule-refused", text);
    if (i < others.size()) gt::PathMatcherUtility::RegisterByHttpRule<const int*>(*b, others[i], &tokens[1 + i]);
  }
  auto matcher = b->Build();
  b.reset();
  std::string ctx = text + "\nrequest " + method + " " + Show(path, 1500) + " query " + Show(query, 1500) + "\ntype " + g.q.type->full_name() + (streaming ? " streaming" : "") + " body " + Show(json, 2500);
  SetNote(ctx);

  // the gateway: one request
  std::vector<gt::VariableBinding> found;
  std::string body = "stale";
  auto* token = matcher->Lookup(method, path, query, &found, &body);
  if (token != &tokens[0]) x.Fail(token ? "wrong-route" : "no-route", ctx);
  auto& h = *TheWorld().h[g.q.helper];
  gt::RequestInfo info;
  info.message_type = h.Info()->GetTypeByTypeUrl(Url(g.q.type));
  if (!info.message_type) x.Fail("type-not-found", ctx);
  info.body_field_path = body;
  info.reject_binding_body_field_collisions = c.P(1, 3);
  info.case_insensitive_enum_parsing = g.q.ci;
  for (auto& v : found) {
    gt::RequestWeaver::BindingInfo bi;
    auto st = h.ResolveFieldPath(*info.message_type, v.field_path, &bi.field_path);
    if (!st.ok()) {
      std::string p;
      for (auto& n : v.field_path) p += n + ".";
      x.Fail("field-path-refused", Show(p) + " " + st.ToString() + "\n" + ctx);
    }
    bi.value = v.value;
    info.variable_bindings.push_back(bi);
  }
  matcher.reset();
  Run r(h, std::move(info), streaming, true, json, c.P(1, 2) ? 0 : c.Size(200), c.Raw(4));
  r.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(60), c.P(1, 2) ? 0 : 3);
  if (!r.out().Status().ok()) x.Fail("request-refused", r.out().Status().ToString() + "\n" + ctx);
  if (!r.out().Finished()) x.Fail("request-not-finished", ctx);
  std::string wire;
  for (auto& m : r.msgs) wire += m;

  // the backend
  {
    JsonInput in(wire, c.P(1, 2) ? 0 : c.Size(100), c.Raw(4));
    gt::MessageReader rd(&in);
    size_t got = 0;
    for (int still = 0; still < 3 && !rd.Finished();) {
      if (in.arrived < in.total()) in.Arrive(c.P(1, 2) ? in.total() : 1 + c.U(40)); else in.closed = true;
      bool moved = false;
      while (auto m = rd.NextMessage()) {
        moved = true;
        std::string bytes;
        const void* d;
        int n;
        while (m->Next(&d, &n)) bytes.append(static_cast<const char*>(d), size_t(n));
        if (got == docs.size()) x.Fail("too-many-messages", ctx);
        Same(x, "wrong-message", *docs[got].want, bytes, "message " + std::to_string(got) + "\n" + ctx);
        ++got;
      }
      still = in.closed && !moved ? still + 1 : 0;
    }
    if (!rd.Status().ok() || !rd.Finished()) x.Fail("frames-refused", rd.Status().ToString() + "\n" + ctx);
    if (got != docs.size()) x.Fail("messages-missing", std::to_string(got) + " of " + std::to_string(docs.size()) + "\n" + ctx);
    x.Count("messages") += got;
  }

  // and back: the backend echoes
  {
    gt::JsonResponseTranslateOptions o{};
    o.json_print_options.preserve_proto_field_names = c.P(1, 4);
    o.json_print_options.always_print_enums_as_ints = c.P(1, 4);
    JsonInput in(wire, c.P(1, 2) ? 0 : c.Size(100), c.Raw(4));
    gt::ResponseToJsonTranslator t(h.Resolver(), Url(g.q.type), streaming, &in, o);
    std::string back, piece;
    for (int still = 0; still < 3 && !t.Finished();) {
      if (in.arrived < in.total()) in.Arrive(c.P(1, 2) ? in.total() : 1 + c.U(40)); else in.closed = true;
      bool moved = false;
      while (t.NextMessage(&piece)) { back += piece; piece = "stale"; moved = true; }
      still = in.closed && !moved ? still + 1 : 0;
    }
    if (!t.Status().ok()) x.Fail("response-refused", t.Status().ToString() + "\n" + ctx);
    gt::RequestInfo all;
    all.message_type = h.Info()->GetTypeByTypeUrl(Url(g.q.type));
    all.body_field_path = "*";
    all.reject_binding_body_field_collisions = all.case_insensitive_enum_parsing = false;
    Run k(h, std::move(all), streaming, false, back, c.P(1, 3) ? 0 : c.Size(100), c.Raw(4));
    k.Drive(c, c.P(1, 2) ? 0 : 1 + c.U(60), 0);
    std::string c2 = "response " + Show(back, 2500) + "\n" + ctx;
    if (!k.out().Status().ok()) x.Fail("response-is-no-json-of-the-message", k.out().Status().ToString() + "\n" + c2);
    if (k.msgs.size() != docs.size()) x.Fail("response-messages-missing", c2);
    for (size_t i = 0; i < docs.size(); ++i) Same(x, "wrong-response", *docs[i].want, k.msgs[i], "message " + std::to_string(i) + "\n" + c2);
    x.Count("echoes")++;
  }
  x.Count(streaming ? "streams" : "unary")++;
  if (!g.path.empty()) x.Count("body_paths")++;
  x.Distinct(HashBytes(path, HashBytes(query, HashBytes(json, HashBytes(tmpl)))));
  if (x.WantSample()) x.Sample(ctx);
}
Register r34("C34", RunC34);
}  // namespace
}  // namespace vp
