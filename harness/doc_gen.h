// Requests whose result is known: body, place of the body and bindings.
#pragma once
#include "req_run.h"

namespace vp {
// A random place for the body: path of fields ("" or "*": the whole message).
inline std::vector<const FD*> BodyPath(const pb::Descriptor* d, Choices& c) {
  std::vector<const FD*> p;
  for (int i = 0; i < 60 && p.size() < 5; ++i) {
    auto* f = d->field(int(c.U(d->field_count())));
    if (f->real_containing_oneof() && c.P(2, 3)) continue;
    if (f->is_map() || f->is_repeated() || f->cpp_type() != FD::CPPTYPE_MESSAGE || IsWkt(f->message_type())) {
      if (f->cpp_type() == FD::CPPTYPE_MESSAGE && !f->is_map() && !f->is_repeated() && f->message_type()->name() == "Value") continue;
      if (c.P(1, 6)) { p.push_back(f); return p; }
      continue;
    }
    p.push_back(f);
    d = f->message_type();
    if (c.P(1, 2)) return p;
  }
  return p;
}
inline pb::Message* Holder(pb::Message* m, const std::vector<const FD*>& path) {
  for (size_t i = 0; i + 1 < path.size(); ++i) m = m->GetReflection()->MutableMessage(m, path[i]);
  return m;
}

// A request whose result is known: body value(s) at a path and bindings.
struct Doc {
  std::string json;
  std::shared_ptr<pb::Message> want;
};
struct DocGen {
  Req q;
  std::vector<const FD*> path;  // of the body
  MsgOpt mo;
  bool set_holder = true, deep = false;

  void Choose(Choices& c, bool streaming) {
    q.type = c.P(1, 3) ? Leaf::descriptor() : Node::descriptor();
    q.helper = int(c.U(2));
    q.streaming = streaming;
    q.delim = c.P(1, 2);
    q.ci = c.P(1, 4);
    mo.den = 3 + unsigned(c.U(20));
    mo.text = c.P(1, 60) ? 70000 : 12;
    deep = c.P(1, 80);
    if (c.P(2, 3)) path = BodyPath(q.type, c);
    q.body = path.empty() ? (c.P(1, 2) ? "*" : "") : PathText(path);
    if (!path.empty() && c.P(1, 10)) q.body = "." + q.body + (c.P(1, 2) ? "." : "");
  }
  // Messages inside each other, many times.
  void Nest(Choices& c, pb::Message* m) {
    if (!deep) return;
    auto* f = m->GetDescriptor()->FindFieldByName("child_node");
    for (size_t n = c.U(60); f && n--;) {
      m = m->GetReflection()->MutableMessage(m, f);
      if (c.P(1, 4)) FillField(m, m->GetDescriptor()->FindFieldByName(c.P(1, 2) ? "rep_leaf" : "str_val"), c, mo, 0);
    }
  }
  // Body text and the message with the body at its place.
  Doc Make(Choices& c, JsonOut& j, int depth) {
    Doc d;
    d.want = New(q.type);
    if (path.empty()) {
      FillMessage(d.want.get(), c, mo, depth);
      Nest(c, d.want.get());
      d.json = j.Of(*d.want);
      return d;
    }
    auto* h = Holder(d.want.get(), path);
    auto* f = path.back();
    auto* r = h->GetReflection();
    if (f->cpp_type() == FD::CPPTYPE_MESSAGE && !f->is_repeated()) {
      auto* m = r->MutableMessage(h, f);
      if (IsWkt(f->message_type())) FillWkt(m, c, mo, 2); else { FillMessage(m, c, mo, depth); Nest(c, m); }
      d.json = j.Of(*m);
    } else {
      auto tmp = New(h->GetDescriptor());
      FillField(tmp.get(), f, c, mo, 2);
      d.json = j.OfField(*tmp, f);
      h->MergeFrom(*tmp);
    }
    return d;
  }
  // Bindings that do not collide with `want` (repeated fields may) or each other.
  void AddBinds(Choices& c, pb::Message* want, size_t max) {
    if (c.P(1, 60)) max = 60;
    for (size_t n = c.U(max + 1); n--;) {
      auto p = RandomBindPath(q.type, c, true);
      if (p.empty()) continue;
      // not into what the body spells as one value, nor under a WKT
      if (Prefixed(p)) continue;
      auto* f = p.back();
      pb::Message* m = want;
      bool there = true;
      for (size_t i = 0; i + 1 < p.size() && there; ++i) {
        if (!m->GetReflection()->HasField(*m, p[i])) there = false;
        else m = m->GetReflection()->MutableMessage(m, p[i]);
      }
      if (there && !f->is_repeated() && m->GetReflection()->HasField(*m, f)) continue;
      if (!f->is_repeated()) {
        bool dup = false;
        for (auto& b : q.binds) dup |= b.path == p;
        if (dup) continue;
      }
      q.binds.push_back(MakeBind(p, c, mo));
    }
  }
  // The bound path is the body path or leads through its last field when that is no message.
  bool Prefixed(const std::vector<const FD*>& p) const {
    if (path.empty()) return false;
    auto* f = path.back();
    bool msg = f->cpp_type() == FD::CPPTYPE_MESSAGE && !f->is_repeated() && !IsWkt(f->message_type());
    if (msg) return false;
    return p.size() >= path.size() && std::equal(path.begin(), path.end(), p.begin()) && !(f->is_repeated() && p.size() == path.size() && f->cpp_type() != FD::CPPTYPE_MESSAGE);
  }
};
}  // namespace vp
