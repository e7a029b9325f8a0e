// Template parser and percent decoding monitors: C01 C02 C05.
#include "grpc_transcoding/http_template.h"
#include "url_world.h"

namespace vp {
namespace {

std::string Describe(const ref::Tmpl& t) {
  std::string o = "segments [";
  for (auto& s : t.segs) o += " " + Show(s.t, 40);
  o += " ] verb " + Show(t.verb, 60) + " vars [";
  for (auto& v : t.vars) o += " " + ShowPath(v.path) + "=[" + std::to_string(v.b) + "," + std::to_string(v.e) + ")" + (v.dstar ? "**" : "");
  return o + " ]";
}

void CheckAccept(const std::string& s, Ctx& x) {
  auto want = ref::Parse(s);
  auto copy = std::make_unique<std::string>(s);
  auto got = gt::HttpTemplate::Parse(*copy);
  x.Count(want ? "accepted" : "rejected")++;
  if (bool(got) != bool(want))
    x.Fail(want ? "valid-template-rejected" : "invalid-template-accepted", "template " + Show(s, 2000));
}

std::string GenTemplateText(Choices& c) {
  Pool pool = GenPool(c);
  pool.max_len = 70000;
  GenTemplateCfg g;
  g.var = unsigned(c.U(100));
  g.dstar = unsigned(c.U(60));
  g.verb = unsigned(c.U(60));
  g.max_segs = 1 + c.U(8);
  g.big = c.P(1, 8) ? 66000 : 2100;
  switch (c.U(6)) {
    case 0: return "/" + c.From("ab/{}=*:.", c.U(12));
    case 1: {  // syntax tokens, sometimes very many
      static const std::vector<std::string> tok = {"/", "/", "a", "*", "**", "{", "}", "=", ".", ":", "x", "{x}", "{x=", "/*", "/**", "{x=**}", "{a.b=c/*}", ":verb", "\xff", "%2F", "?", " ", "***"};
      std::string s = "/";
      size_t n = c.P(1, 40) ? c.Size(3000) : c.U(8);
      while (n--) s += c.Pick(tok);
      return s;
    }
    case 2: return c.P(1, 4) ? GenText(c, 300) : "/" + GenText(c, 300);
    default: return GenTemplate(c, pool, g);
  }
}
std::string MutateText(Choices& c, std::string s) {
  for (size_t n = c.U(3); n-- > 0 && !s.empty();) {
    size_t at = c.U(s.size());
    switch (c.U(5)) {
      case 0: s.erase(at, 1 + c.U(2)); break;
      case 1: s.insert(at, c.From("/{}*:=.a", 1 + c.U(2))); break;
      case 2: s[at] = char(c.U(256)); break;
      case 3: s.resize(at); break;
      default: s.insert(at, s.substr(c.U(s.size()), 1 + c.U(4))); break;
    }
  }
  return s;
}

// ------------------------------------------------------------------ C01
void RunC01(Choices& c, Ctx& x) {
  for (int i = 0; i < 8; ++i) {
    std::string s = GenTemplateText(c);
    if (c.P(1, 2)) s = MutateText(c, s);
    SetNote(Show(s, 1000));
    CheckAccept(s, x);
    x.Distinct(HashBytes(s));
    if (x.WantSample()) x.Sample(Show(s, 300) + (ref::Parse(s) ? " accepted" : " rejected"));
  }
}
void EnumC01(Ctx& x, unsigned shard, unsigned shards) {
  static const std::string al = "/a*{}=:.";
  size_t max = x.tier ? 8 : 7;  // characters behind the leading '/'
  if (shard == 0)
    for (const char* s : {"", "a", "*", "**", "{x}", ":", ":v", ".", "a/b", "{", "}"}) { CheckAccept(s, x); x.evals_++; }
  if (shard == 1 % shards)
    for (int a = 0; a < 256; ++a)
      for (int b = 0; b < 256; ++b) {
        std::string s = "/";
        s += char(a); s += char(b);
        CheckAccept(s, x);
        CheckAccept("/{" + s.substr(1) + "}", x);
        CheckAccept("/a:" + s.substr(1), x);
        x.evals_ += 3;
      }
  for (size_t n = 0; n <= max; ++n) {
    uint64_t total = 1;
    for (size_t i = 0; i < n; ++i) total *= al.size();
    for (uint64_t v = shard; v < total; v += shards) {
      std::string s(n + 1, '/');
      uint64_t k = v;
      for (size_t i = 0; i < n; ++i) { s[i + 1] = al[k % al.size()]; k /= al.size(); }
      SetNote(s);
      CheckAccept(s, x);
      x.evals_++;
      x.Count("enumerated")++;
    }
  }
}

// ------------------------------------------------------------------ C02
void CheckStructure(const std::string& s, Ctx& x) {
  SetNote(s);
  auto want = ref::Parse(s);
  if (!want) return;
  auto copy = std::make_unique<std::string>(s);
  auto got = gt::HttpTemplate::Parse(*copy);
  copy.reset();
  if (!got) { x.Count("skipped_rejected")++; return; }  // C01's business
  x.Count("structures")++;
  auto fail = [&](const char* kind, std::string what) { x.Fail(kind, "template " + Show(s, 2000) + "\n" + what + "\nexpected " + Describe(*want)); };
  std::vector<std::string> ws;
  for (auto& g : want->segs) ws.push_back(g.t);
  if (got->segments() != ws) fail("wrong-segments", "segments " + ShowPath(got->segments()));
  if (got->verb() != want->verb) fail("wrong-verb", "verb " + Show(got->verb()));
  auto& vars = got->Variables();
  if (vars.size() != want->vars.size()) fail("wrong-variables", std::to_string(vars.size()) + " variables");
  int d = want->dstar();
  for (size_t i = 0; i < vars.size(); ++i) {
    auto& g = vars[i];
    auto& v = want->vars[i];
    if (g.field_path != v.path) fail("wrong-field-path", "variable " + std::to_string(i) + " path " + ShowPath(g.field_path));
    if (g.has_wildcard_path != v.dstar) fail("wrong-wildcard-flag", "variable " + std::to_string(i));
    x.Count(v.dstar ? "wildcard_variables" : d >= 0 && v.b > size_t(d) ? "variables_behind_wildcard" : "plain_variables")++;
    // The range, resolved for requests of several lengths.
    size_t n = want->segs.size();
    for (size_t extra : {size_t(0), size_t(1), size_t(5)}) {
      if (extra && d < 0) continue;
      size_t parts = n + extra, b, e;
      ref::Cover(*want, v, parts, &b, &e);
      auto res = [&](int pos) { return pos >= 0 ? long(pos) : long(parts) + pos + 1; };
      if (res(g.start_segment) != long(b) || res(g.end_segment) != long(e))
        fail("wrong-range", "variable " + std::to_string(i) + " range [" + std::to_string(g.start_segment) + "," + std::to_string(g.end_segment) + ") for a path of " + std::to_string(parts) + " segments, expected [" + std::to_string(b) + "," + std::to_string(e) + ")");
    }
  }
  if (!want->vars.empty() || !want->verb.empty()) {
    x.Distinct(HashBytes(s));
    if (want->vars.size() > 1 && x.WantSample()) x.Sample(Show(s, 300) + " -> " + Describe(*want));
  }
}
void RunC02(Choices& c, Ctx& x) {
  for (int i = 0; i < 8; ++i) {
    std::string s = GenTemplateText(c);
    if (c.P(1, 5)) s = MutateText(c, s);
    SetNote(Show(s, 1000));
    CheckStructure(s, x);
  }
}
void EnumC02(Ctx& x, unsigned shard, unsigned shards) {
  // every sequence of up to N tokens
  static const std::vector<std::string> tok = {"/", "a", "*", "**", "{x}", "{y=", "}", "b", "{x.z=", ":v"};
  size_t max = x.tier ? 7 : 6;
  for (size_t n = 1; n <= max; ++n) {
    uint64_t total = 1;
    for (size_t i = 0; i < n; ++i) total *= tok.size();
    for (uint64_t v = shard; v < total; v += shards) {
      std::string s = "/";
      uint64_t k = v;
      for (size_t i = 0; i < n; ++i) { s += tok[k % tok.size()]; k /= tok.size(); }
      x.evals_++;
      x.Count("enumerated")++;
      CheckStructure(s, x);
    }
  }
}

// ------------------------------------------------------------------ C05
gt::UrlUnescapeSpec Real(ref::Spec s) {
  return s == ref::ALL ? gt::UrlUnescapeSpec::kAllCharacters : s == ref::KEEP_RESERVED ? gt::UrlUnescapeSpec::kAllCharactersExceptReserved : gt::UrlUnescapeSpec::kAllCharactersExceptSlash;
}
void CheckDecode(std::string_view s, Ctx& x) {
  SetNote(s);
  ExactBuf e(s);
  for (ref::Spec sp : {ref::ALL, ref::KEEP_RESERVED, ref::KEEP_SLASH})
    for (bool plus : {false, true}) {
      bool any = false;
      std::string want = ref::Decode(s, sp, plus, &any);
      std::string got = gt::UrlUnescapeString(AV(e.view()), Real(sp), plus);
      bool esc = gt::IsUrlEscapedString(AV(e.view()), Real(sp), plus);
      x.Count(any ? "decoded" : "unchanged")++;
      if (got != want) x.Fail("wrong-decoding", "input " + Show(s, 2000) + " option " + std::to_string(int(sp)) + " plus " + std::to_string(plus) + "\nexpected " + Show(want, 2000) + "\nreturned " + Show(got, 2000));
      if (esc != any) x.Fail("wrong-is-escaped", "input " + Show(s, 2000) + " option " + std::to_string(int(sp)) + " plus " + std::to_string(plus) + " returned " + std::to_string(esc));
    }
  if (gt::UrlUnescapeString(AV(e.view())) != ref::Decode(s, ref::ALL, false)) x.Fail("wrong-default-decoding", "input " + Show(s, 2000));
  bool any = false;
  ref::Decode(s, ref::ALL, false, &any);
  if (gt::IsUrlEscapedString(AV(e.view())) != any) x.Fail("wrong-default-is-escaped", "input " + Show(s, 2000));
}
void RunC05(Choices& c, Ctx& x) {
  std::string s;
  size_t n = c.U(6);
  if (c.P(1, 40)) n = c.Size(2000);
  for (size_t i = 0; i < n; ++i) s += c.P(2, 3) ? GenEscape(c) : GenText(c, n > 20 ? 8 : 3000);
  if (c.P(1, 400)) {  // long texts, escaped here and there
    std::string big, part = s + GenEscape(c);
    for (size_t k = c.Size(1 << 18); big.size() < k;) big += c.P(1, 40) ? GenEscape(c) : part;
    s = big;
    x.Count("long_texts")++;
  }
  SetNote(Show(s, 1000));
  CheckDecode(s, x);
  if (s.find('%') != s.npos) { x.Distinct(HashBytes(s)); if (x.WantSample()) x.Sample(Show(s, 200) + " -> " + Show(ref::Decode(s, ref::ALL, false), 200)); }
}
void EnumC05(Ctx& x, unsigned shard, unsigned shards) {
  // every "%" followed by any two bytes, alone, embedded, doubled, truncated
  for (unsigned v = shard; v < 65536; v += shards) {
    std::string esc = "%";
    esc += char(v >> 8); esc += char(v & 255);
    CheckDecode(esc, x);
    CheckDecode("a" + esc + "b", x);
    CheckDecode("%" + esc + "%2", x);
    x.evals_ += 3;
    x.Count("enumerated") += 3;
    if (x.tier) { CheckDecode(esc + esc, x); CheckDecode("%25" + esc.substr(1) + "+" + esc, x); x.evals_ += 2; x.Count("enumerated") += 2; }
  }
  // every string up to 6 over a small alphabet
  static const std::string al = "%2fF+gA";
  size_t max = x.tier ? 7 : 6;
  for (size_t n = 0; n <= max; ++n) {
    uint64_t total = 1;
    for (size_t i = 0; i < n; ++i) total *= al.size();
    for (uint64_t v = shard; v < total; v += shards) {
      std::string s(n, ' ');
      uint64_t k = v;
      for (size_t i = 0; i < n; ++i) { s[i] = al[k % al.size()]; k /= al.size(); }
      CheckDecode(s, x);
      x.evals_++;
      x.Count("enumerated")++;
    }
  }
}
Register r1("C01", RunC01, EnumC01), r2("C02", RunC02, EnumC02), r5("C05", RunC05, EnumC05);
}  // namespace
}  // namespace vp
