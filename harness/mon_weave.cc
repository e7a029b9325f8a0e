// Event monitors of the prefix writer and the request weaver: C28. Both get
// the events of a random tree; a recording writer stands behind them.
#include <string.h>

#include <set>

#include "absl/strings/str_join.h"
#include "core.h"
#include "google/protobuf/type.pb.h"
#include "grpc_transcoding/prefix_writer.h"
#include "grpc_transcoding/request_weaver.h"
#include "grpc_transcoding/status_error_listener.h"

namespace vp {
namespace {
namespace gt = ::google::grpc::transcoding;
namespace pb = ::google::protobuf;
namespace conv = ::google::protobuf::util::converter;

// One event: kind, name, value (bits of a number, bytes of a text).
struct Ev {
  char k;  // { } [ ] b i u I U d f s y n
  std::string name, val;
  bool operator==(const Ev& o) const { return k == o.k && name == o.name && val == o.val; }
};
std::string ShowEv(const Ev& e) {
  std::string r(1, e.k);
  if (!strchr("}]", e.k)) r += Show(e.name, 40);
  if (!strchr("{}[]n", e.k)) r += strchr("sy", e.k) ? "=" + Show(e.val, 40) : "=" + Hex(e.val);
  return r;
}
std::string ShowEvs(const std::vector<Ev>& v) {
  std::string r;
  for (auto& e : v) r += ShowEv(e) + " ";
  return r;
}
template <class T>
std::string Bits(T v) { return std::string(reinterpret_cast<const char*>(&v), sizeof v); }
template <class T>
T FromBits(const std::string& s) { T v; memcpy(&v, s.data(), sizeof v); return v; }

class Recorder : public conv::ObjectWriter {
 public:
  std::vector<Ev> evs;
  conv::ObjectWriter* Put(char k, absl::string_view n, std::string v = "") { evs.push_back({k, std::string(n), std::move(v)}); return this; }
  conv::ObjectWriter* StartObject(absl::string_view n) override { return Put('{', n); }
  conv::ObjectWriter* EndObject() override { return Put('}', ""); }
  conv::ObjectWriter* StartList(absl::string_view n) override { return Put('[', n); }
  conv::ObjectWriter* EndList() override { return Put(']', ""); }
  conv::ObjectWriter* RenderBool(absl::string_view n, bool v) override { return Put('b', n, Bits(v)); }
  conv::ObjectWriter* RenderInt32(absl::string_view n, int32_t v) override { return Put('i', n, Bits(v)); }
  conv::ObjectWriter* RenderUint32(absl::string_view n, uint32_t v) override { return Put('u', n, Bits(v)); }
  conv::ObjectWriter* RenderInt64(absl::string_view n, int64_t v) override { return Put('I', n, Bits(v)); }
  conv::ObjectWriter* RenderUint64(absl::string_view n, uint64_t v) override { return Put('U', n, Bits(v)); }
  conv::ObjectWriter* RenderDouble(absl::string_view n, double v) override { return Put('d', n, Bits(v)); }
  conv::ObjectWriter* RenderFloat(absl::string_view n, float v) override { return Put('f', n, Bits(v)); }
  conv::ObjectWriter* RenderString(absl::string_view n, absl::string_view v) override { return Put('s', n, std::string(v)); }
  conv::ObjectWriter* RenderBytes(absl::string_view n, absl::string_view v) override { return Put('y', n, std::string(v)); }
  conv::ObjectWriter* RenderNull(absl::string_view n) override { return Put('n', n); }
};

// The texts given to the writer are gone right after the call.
conv::ObjectWriter* Send(conv::ObjectWriter& w, const Ev& e) {
  ExactBuf n(e.name), v(e.val);
  absl::string_view nv(n.p, n.n), vv(v.p, v.n);
  switch (e.k) {
    case '{': return w.StartObject(nv);
    case '}': return w.EndObject();
    case '[': return w.StartList(nv);
    case ']': return w.EndList();
    case 'b': return w.RenderBool(nv, FromBits<bool>(e.val));
    case 'i': return w.RenderInt32(nv, FromBits<int32_t>(e.val));
    case 'u': return w.RenderUint32(nv, FromBits<uint32_t>(e.val));
    case 'I': return w.RenderInt64(nv, FromBits<int64_t>(e.val));
    case 'U': return w.RenderUint64(nv, FromBits<uint64_t>(e.val));
    case 'd': return w.RenderDouble(nv, FromBits<double>(e.val));
    case 'f': return w.RenderFloat(nv, FromBits<float>(e.val));
    case 's': return w.RenderString(nv, vv);
    case 'y': return w.RenderBytes(nv, vv);
    default: return w.RenderNull(nv);
  }
}

// A tree of events.
struct Tree {
  Ev head;
  std::vector<Tree> kids;  // of objects and lists
};
void Flatten(const Tree& t, std::vector<Ev>& out) {
  out.push_back(t.head);
  for (auto& k : t.kids) Flatten(k, out);
  if (t.head.k == '{') out.push_back({'}', "", ""});
  if (t.head.k == '[') out.push_back({']', "", ""});
}
// Well-formedness is part of the property: no tree, no parse.
bool Parse(const std::vector<Ev>& v, size_t& i, Tree& t) {
  if (i >= v.size() || v[i].k == '}' || v[i].k == ']') return false;
  t.head = v[i++];
  if (t.head.k != '{' && t.head.k != '[') return true;
  char end = t.head.k == '{' ? '}' : ']';
  for (;;) {
    if (i >= v.size()) return false;
    if (v[i].k == end) { ++i; return true; }
    t.kids.emplace_back();
    if (!Parse(v, i, t.kids.back())) return false;
  }
}
Ev Scalar(Choices& c, std::string name) {
  Ev e{"biuIUdfsyn"[c.U(10)], std::move(name), ""};
  switch (e.k) {
    case 'b': e.val = Bits(c.P(1, 2)); break;
    case 'i': case 'u': case 'f': e.val = c.P(1, 3) ? Bits(uint32_t(c.U(5)) - 2) : c.Bytes(4); break;
    case 'I': case 'U': case 'd': e.val = c.P(1, 3) ? Bits(uint64_t(c.U(5)) - 2) : c.Bytes(8); break;
    case 's': case 'y': e.val = c.Bytes(c.Size(60)); break;
    default: break;
  }
  return e;
}
Tree GenTree(Choices& c, const std::vector<std::string>& names, std::string name, int depth, int kind) {
  Tree t;
  if (kind == 0) { t.head = Scalar(c, std::move(name)); return t; }
  t.head = {kind == 1 ? '{' : '[', std::move(name), ""};
  if (depth > 0 && c.P(1, 150)) {  // a long chain of objects and lists
    Tree in;
    in.head = Scalar(c, c.Pick(names));
    for (size_t d = c.U(700); d--;) {
      Tree out;
      out.head = {c.P(1, 3) ? '[' : '{', c.Pick(names), ""};
      std::string nm = in.head.name;
      out.kids.push_back(std::move(in));
      if (c.P(1, 4)) out.kids.push_back({Scalar(c, nm + "2"), {}});
      in = std::move(out);
    }
    t.kids.push_back(std::move(in));
  }
  size_t n = c.P(1, 30) ? c.U(40) : c.U(5);
  std::set<std::string> used;
  for (auto& k : t.kids) used.insert(k.head.name);
  for (size_t i = 0; i < n; ++i) {
    std::string nm;
    if (kind == 1) {
      nm = c.P(1, 8) ? c.Bytes(c.U(4)) : c.Pick(names);
      if (!used.insert(nm).second) continue;
    }
    t.kids.push_back(GenTree(c, names, nm, depth - 1, depth > 0 ? int(std::min<uint64_t>(c.U(4), 3) % 3) : 0));
  }
  return t;
}

// ------------------------------------------------------------ prefix writer
void RunPrefix(Choices& c, Ctx& x) {
  std::vector<std::string> names = {"a", "b", "abc", "", "x.y", "b_c"};
  std::string prefix;
  std::vector<std::string> parts;
  size_t n = c.P(1, 20) ? c.Size(300) : c.U(5);
  for (size_t i = 0; i < n; ++i) {
    std::string s = c.P(1, 6) ? c.Pick(Dict::Get().strs) : c.P(1, 2) ? c.Pick(std::vector<std::string>{"a", "b", "shelf", "theme_x"}) : c.Bytes(1 + (c.P(1, 10) ? c.Size(400) : c.U(3)));
    std::string q;
    for (char ch : s) if (ch != '.') q += ch;
    if (q.empty()) q = "p";
    parts.push_back(q);
    prefix += (i ? "." : "") + q;
  }
  Recorder rec;
  std::vector<Ev> in, want;
  size_t roots = c.P(1, 3) ? 2 + c.U(4) : 1;
  for (size_t r = 0; r < roots; ++r) {
    Tree t = GenTree(c, names, c.P(1, 3) ? c.Pick(names) : "", c.P(1, 40) ? 30 : 4, int(c.U(3)));
    if (t.head.k == '{') x.Count("prefix_objects")++;
    else if (t.head.k == '[') x.Count("prefix_lists")++;
    else x.Count("prefix_scalars")++;
    std::vector<Ev> v;
    Flatten(t, v);
    in.insert(in.end(), v.begin(), v.end());
    // the prefix: the root's name goes outermost, the last part takes its place
    std::string nm = v[0].name;
    for (auto& p : parts) { want.push_back({'{', nm, ""}); nm = p; }
    v[0].name = nm;
    want.insert(want.end(), v.begin(), v.end());
    for (size_t i = 0; i < parts.size(); ++i) want.push_back({'}', "", ""});
  }
  SetNote("prefix " + Show(prefix, 400) + " events " + ShowEvs(in).substr(0, 1500));
  auto pw = std::make_unique<gt::PrefixWriter>(prefix, &rec);
  for (auto& e : in) {
    if (Send(*pw, e) != pw.get()) x.Fail("wrong-return", "the prefix writer did not return itself for " + ShowEv(e));
  }
  pw = nullptr;
  x.Count("events") += in.size();
  if (rec.evs != want) {
    size_t i = 0;
    while (i < want.size() && i < rec.evs.size() && want[i] == rec.evs[i]) ++i;
    x.Fail("prefix-events", "prefix " + Show(prefix, 400) + " events " + ShowEvs(in).substr(0, 3000) + "\nforwarded " + ShowEvs(rec.evs).substr(0, 3000) + "\nexpected  " + ShowEvs(want).substr(0, 3000) + "\ndifferent at event " + std::to_string(i));
  }
  if (!parts.empty()) x.Distinct(HashBytes(prefix, HashBytes(ShowEvs(in))));
}

// ------------------------------------------------------------ weaver
// A message type of the monitor: fields with proto and JSON names.
struct Ty;
struct Fl { pb::Field f; Ty* ty = nullptr; };
struct Ty { std::vector<std::unique_ptr<Fl>> fs; };
struct Types {
  std::vector<std::unique_ptr<Ty>> ts;
  std::vector<std::string> names;  // every name, and some of nothing
};
void GenTypes(Choices& c, Types& t) {
  static const std::vector<std::string> kNames = {"a", "b_c", "shelf", "theme_name", "x_y_z", "id", "long_field_name", "n1", "q_2", "zz"};
  static const std::vector<std::string> kJson = {"a", "bC", "shelf", "themeName", "xYZ", "id", "longFieldName", "n1", "q2", "zz"};
  size_t n = 1 + c.U(4);
  for (size_t i = 0; i < n; ++i) t.ts.push_back(std::make_unique<Ty>());
  for (size_t i = 0; i < n; ++i)
    for (size_t k = 0; k < kNames.size(); ++k) {
      if (c.P(1, 3)) continue;
      auto f = std::make_unique<Fl>();
      f->f.set_name(kNames[k]);
      if (!c.P(1, 6)) f->f.set_json_name(c.P(1, 12) ? "custom" + std::to_string(k) : kJson[k]);
      f->f.set_number(int(k) + 1);
      f->f.set_cardinality(c.P(1, 3) ? pb::Field::CARDINALITY_REPEATED : pb::Field::CARDINALITY_OPTIONAL);
      if (c.P(2, 5)) { f->ty = t.ts[c.U(n)].get(); f->f.set_kind(pb::Field::TYPE_MESSAGE); }
      else f->f.set_kind(pb::Field::TYPE_STRING);
      t.names.push_back(f->f.name());
      if (!f->f.json_name().empty()) t.names.push_back(f->f.json_name());
      t.ts[i]->fs.push_back(std::move(f));
    }
  t.names.push_back("unknown");
  t.names.push_back("");
}
bool Names(const pb::Field& f, const std::string& n) { return n == f.name() || (!f.json_name().empty() && n == f.json_name()); }

struct Sub;
struct Need {  // what must come into one message
  std::vector<std::pair<const pb::Field*, std::string>> vals;
  std::vector<Sub> subs;
  size_t Total() const;
};
struct Sub { const pb::Field* first; Need second; };
size_t Need::Total() const { size_t n = vals.size(); for (auto& s : subs) n += s.second.Total(); return n; }
Need* SubFor(Need& n, const pb::Field* f) {
  for (auto& s : n.subs) if (s.first == f) return &s.second;
  n.subs.push_back({f, Need()});
  return &n.subs.back().second;
}
struct Judge {
  Ctx& x;
  std::string ctx;
  [[noreturn]] void Bad(const char* kind, const std::string& where, const std::string& m) { x.Fail(kind, "in {" + where + "}: " + m + "\n" + ctx); }
  // got: an object of the output. in: the object of the input, or null if
  // the writer added it. need: what is bound below it.
  void Object(const Tree* in, const Tree& got, const Need* need, const std::string& where) {
    std::vector<std::pair<const pb::Field*, std::string>> due;
    std::vector<std::pair<const pb::Field*, const Need*>> subs;
    if (need) {
      for (auto& v : need->vals) {
        bool set = false;
        if (in && v.first->cardinality() != pb::Field::CARDINALITY_REPEATED)
          for (auto& k : in->kids) if (Names(*v.first, k.head.name) && k.head.k != 'n') set = true;
        if (!set) due.push_back(v);
        else x.Count("bound_values_of_fields_set_by_the_body")++;
      }
      for (auto& s : need->subs) subs.emplace_back(s.first, &s.second);
    }
    static const std::vector<Tree> kNone;
    const std::vector<Tree>& want = in ? in->kids : kNone;
    size_t at = 0;
    for (auto& g : got.kids) {
      if (at < want.size() && want[at].head == g.head) {  // forwarded?
        // A bound value could look like an event of the input; bound values
        // are unique and none of the input looks like them, messages are told
        // apart by their turn: a message of the input comes where it is due.
        const Tree& w = want[at++];
        if (g.head.k == '{') {
          const Need* sub = nullptr;
          for (auto it = subs.begin(); it != subs.end(); ++it)
            if (Names(*it->first, g.head.name)) { sub = it->second; subs.erase(it); break; }
          if (sub) x.Count("messages_woven_into")++;
          Object(&w, g, sub, where + "/" + g.head.name);
        } else {
          std::vector<Ev> a, b;
          Flatten(w, a);
          Flatten(g, b);
          if (!(a == b)) Bad("event-changed", where, "input " + ShowEvs(a) + " output " + ShowEvs(b));
        }
        continue;
      }
      if (g.head.k == 's') {  // a bound value
        auto it = std::find_if(due.begin(), due.end(), [&](auto& d) { return d.second == g.head.val && Names(*d.first, g.head.name); });
        if (it == due.end()) Bad("extra-event", where, ShowEv(g.head) + (at < want.size() ? ", expected " + ShowEv(want[at].head) : std::string("")));
        // the values of one field in the order they were bound
        for (auto i2 = due.begin(); i2 != it; ++i2) if (i2->first == it->first) Bad("order-of-bound-values", where, ShowEv(g.head) + " before " + Show(i2->second));
        due.erase(it);
        x.Count("bound_values_written")++;
        continue;
      }
      if (g.head.k == '{') {  // a message made for bound values
        bool found = false;
        for (auto it = subs.begin(); it != subs.end(); ++it)
          if (Names(*it->first, g.head.name)) {
            const Need* sub = it->second;
            subs.erase(it);
            found = true;
            if (!sub->Total()) Bad("needless-message", where, ShowEv(g.head));
            x.Count("messages_added")++;
            Object(nullptr, g, sub, where + "/" + g.head.name);
            break;
          }
        if (found) continue;
      }
      Bad("extra-event", where, ShowEv(g.head) + (at < want.size() ? ", expected " + ShowEv(want[at].head) : std::string("")));
    }
    if (at < want.size()) Bad("event-lost", where, ShowEv(want[at].head));
    if (!due.empty()) Bad("bound-value-lost", where, due[0].first->name() + "=" + Show(due[0].second));
    for (auto& s : subs) if (s.second->Total()) Bad("bound-value-lost", where, "message " + s.first->name() + " for bound values");
  }
};

Tree GenBody(Choices& c, const Types& ts, const Ty* ty, std::string name, int depth) {
  Tree t;
  t.head = {'{', std::move(name), ""};
  std::set<const pb::Field*> used;
  std::set<std::string> other;
  size_t n = c.U(7);
  for (size_t i = 0; i < n; ++i) {
    if (c.P(1, 6) || !ty || ty->fs.empty()) {  // something the type does not know
      std::string nm = c.P(1, 2) ? "unknown" + std::to_string(c.U(5)) : c.P(1, 3) ? "" : "?" + c.Bytes(c.U(3));
      if (other.insert(nm).second) t.kids.push_back(GenTree(c, ts.names, nm, depth - 1, depth > 0 ? int(c.U(3)) : 0));
      continue;
    }
    auto& f = *ty->fs[c.U(ty->fs.size())];
    if (!used.insert(&f.f).second) continue;
    std::string nm = f.f.json_name().empty() || c.P(1, 2) ? f.f.name() : f.f.json_name();
    if (f.ty && depth > 0 && c.P(5, 6)) {
      if (f.f.cardinality() == pb::Field::CARDINALITY_REPEATED && c.P(3, 4)) {
        Tree l;
        l.head = {'[', nm, ""};
        for (size_t k = c.U(4); k--;) l.kids.push_back(GenBody(c, ts, f.ty, "", depth - 1));
        t.kids.push_back(std::move(l));
      } else {
        t.kids.push_back(GenBody(c, ts, f.ty, nm, depth - 1));
      }
    } else {
      t.kids.push_back(GenTree(c, ts.names, nm, depth - 1, f.f.cardinality() == pb::Field::CARDINALITY_REPEATED ? (c.P(1, 2) ? 2 : 0) : depth > 0 && c.P(1, 6) ? int(c.U(3)) : 0));
    }
  }
  return t;
}

void RunWeave(Choices& c, Ctx& x) {
  Types ts;
  GenTypes(c, ts);
  std::vector<gt::RequestWeaver::BindingInfo> binds;
  Need need;
  size_t n = c.P(1, 30) ? c.U(60) : c.U(6);
  std::string text;
  std::vector<const Fl*> last;
  for (size_t i = 0; i < n; ++i) {
    gt::RequestWeaver::BindingInfo b;
    const Ty* ty = ts.ts[0].get();
    std::vector<const Fl*> path;
    if (!last.empty() && c.P(1, 3)) {  // near the one before: same field, sibling, below
      path = last;
      if (c.P(1, 2)) path.pop_back();
      if (!path.empty()) ty = path.back()->ty;
    }
    size_t len = path.size() + (path.size() && !ty ? 0 : 1) + (c.P(1, 40) ? c.U(60) : c.U(3));
    while (path.size() < len && ty && !ty->fs.empty()) {
      const Fl* f = ty->fs[c.U(ty->fs.size())].get();
      for (int t = 0; t < 6 && !f->ty && path.size() + 1 < len; ++t) f = ty->fs[c.U(ty->fs.size())].get();
      path.push_back(f);
      ty = f->ty;
    }
    if (path.size() > 8) x.Count("deep_bindings")++;
    if (path.empty() || c.P(1, 40)) {  // a path of no fields names nothing: not written
      b.value = "nowhere";
      text += " (empty path)";
      binds.push_back(std::move(b));
      x.Count("bound_values_of_empty_paths")++;
      continue;
    }
    // a field is either bound itself or holds bound ones; the message weaver
    // has no use for both
    b.value = "bound#" + std::to_string(i);
    Need* nd = &need;
    bool clash = false;
    for (size_t k = 0; k < path.size(); ++k) {
      bool leaf = k + 1 == path.size();
      if (leaf) { for (auto& s : nd->subs) if (s.first == &path[k]->f) clash = true; }
      else { for (auto& v : nd->vals) if (v.first == &path[k]->f) clash = true; }
      if (clash) break;
      if (!leaf) { bool have = false; for (auto& s : nd->subs) if (s.first == &path[k]->f) { nd = &s.second; have = true; break; } if (!have) { static Need none; none = Need(); nd = &none; } }
    }
    if (clash) continue;
    nd = &need;
    for (size_t k = 0; k + 1 < path.size(); ++k) nd = SubFor(*nd, &path[k]->f);
    nd->vals.emplace_back(&path.back()->f, b.value);
    for (auto* f : path) { b.field_path.push_back(&f->f); text += (f == path[0] ? " " : ".") + f->f.name(); }
    text += "=" + b.value;
    binds.push_back(std::move(b));
    last = path;
  }
  size_t nb = 0;
  for (auto& b : binds) nb += !b.field_path.empty();
  Tree root = GenBody(c, ts, ts.ts[0].get(), "", c.P(1, 40) ? 12 : 4);
  // what the input holds must not look like a bound value
  std::vector<Ev> in;
  Flatten(root, in);
  std::string body = ShowEvs(in);
  bool report = c.P(1, 2);
  Judge j{x, "bindings" + text.substr(0, 2000) + "\nevents " + body.substr(0, 4000)};
  SetNote(j.ctx.substr(0, 1500));
  Recorder rec;
  gt::StatusErrorListener el;
  {
    gt::RequestWeaver w(std::move(binds), &rec, &el, report);
    for (auto& e : in)
      if (Send(w, e) != &w) x.Fail("wrong-return", "the weaver did not return itself for " + ShowEv(e));
  }
  x.Count("events") += in.size();
  x.Count("bound_values") += nb;
  j.ctx += "\nwritten " + ShowEvs(rec.evs).substr(0, 4000);
  Tree out;
  size_t at = 0;
  if (!Parse(rec.evs, at, out) || at != rec.evs.size()) j.Bad("ill-formed-output", "", "event " + std::to_string(at));
  if (!(out.head == root.head)) j.Bad("event-changed", "", "root " + ShowEv(out.head));
  j.Object(&root, out, &need, "");
  if (!report && !el.status().ok()) j.Bad("error-without-option", "", std::string(el.status().message()));
  if (nb) x.Distinct(HashBytes(j.ctx));
  if (nb > 2 && x.WantSample()) x.Sample(j.ctx);
}

void RunC28(Choices& c, Ctx& x) {
  if (c.P(1, 4)) RunPrefix(c, x);
  else RunWeave(c, x);
}
Register r28("C28", RunC28);
}  // namespace
}  // namespace vp
