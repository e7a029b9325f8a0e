// Reference models for the URL side, written from the documented semantics
// (grammar comment, http.proto, header comments), not from the code.
#pragma once
#include <algorithm>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace ref {

enum Kind : char { LIT = 'L', STAR = 'S', DSTAR = 'Z' };
struct Seg {
  Kind k;
  std::string t;
  bool operator==(const Seg& o) const { return k == o.k && t == o.t; }
};
struct Var {
  std::vector<std::string> path;
  size_t b, e;   // template segments [b, e)
  bool dstar;
};
struct Tmpl {
  std::vector<Seg> segs;
  std::vector<Var> vars;
  std::string verb;
  int d = -1;  // the first "**", set by the parser
  int dstar() const { return d; }
};

class TParser {
 public:
  TParser(std::string_view s, Tmpl* t) : s_(s), t_(t) {}
  bool Run() {
    if (s_ == "/") return true;
    if (!Eat('/')) return false;
    if (!Segments(false)) return false;
    for (size_t i = t_->segs.size(); i-- > 0;) if (t_->segs[i].k == DSTAR) t_->d = int(i);
    if (Eat(':') && !Literal(&t_->verb)) return false;
    if (i_ != s_.size()) return false;
    int d = t_->dstar();
    if (d >= 0)
      for (size_t j = d + 1; j < t_->segs.size(); ++j)
        if (t_->segs[j].k != LIT) return false;
    return true;
  }

 private:
  bool At(char c) const { return i_ < s_.size() && s_[i_] == c; }
  bool Eat(char c) { if (!At(c)) return false; ++i_; return true; }
  bool Run(std::string_view stop, std::string* out) {
    size_t b = i_;
    while (i_ < s_.size() && stop.find(s_[i_]) == stop.npos) ++i_;
    *out = std::string(s_.substr(b, i_ - b));
    return i_ > b;
  }
  bool Literal(std::string* out) { return Run("/:}", out); }
  bool Segments(bool in_var) {
    do {
      if (!Segment(in_var)) return false;
    } while (Eat('/'));
    return true;
  }
  bool Segment(bool in_var) {
    if (Eat('*')) {
      if (Eat('*')) t_->segs.push_back({DSTAR, "**"});
      else t_->segs.push_back({STAR, "*"});
      return true;
    }
    if (At('{')) {
      if (in_var) return false;
      ++i_;
      Var v;
      do {
        std::string id;
        if (!Run(".}=", &id)) return false;
        v.path.push_back(id);
      } while (Eat('.'));
      v.b = t_->segs.size();
      if (Eat('=')) {
        if (!Segments(true)) return false;
      } else {
        t_->segs.push_back({STAR, "*"});
      }
      v.e = t_->segs.size();
      v.dstar = false;
      for (size_t j = v.b; j < v.e; ++j) if (t_->segs[j].k == DSTAR) v.dstar = true;
      if (!Eat('}')) return false;
      t_->vars.push_back(v);
      return true;
    }
    std::string l;
    if (!Literal(&l)) return false;
    t_->segs.push_back({LIT, l});
    return true;
  }
  std::string_view s_;
  Tmpl* t_;
  size_t i_ = 0;
};
inline std::optional<Tmpl> Parse(std::string_view s) {
  Tmpl t;
  if (!TParser(s, &t).Run()) return std::nullopt;
  return t;
}

// ---- percent decoding ----
enum Spec { ALL, KEEP_RESERVED, KEEP_SLASH };
inline int HexVal(unsigned char c) {
  static const std::string_view d = "0123456789abcdef", u = "0123456789ABCDEF";
  size_t p = d.find(char(c));
  if (p == d.npos) p = u.find(char(c));
  return p == d.npos ? -1 : int(p);
}
inline std::string Decode(std::string_view s, Spec spec, bool plus, bool* any = nullptr) {
  static const std::string_view reserved = "!#$&'()*+,/:;=?@[]";
  std::string o;
  bool hit = false;
  size_t i = 0;
  while (i < s.size()) {
    if (s[i] == '+' && plus) { o += ' '; hit = true; ++i; continue; }
    if (s[i] == '%' && s.size() - i >= 3) {
      int h = HexVal(s[i + 1]), l = HexVal(s[i + 2]);
      if (h >= 0 && l >= 0) {
        char c = char(h * 16 + l);
        bool keep = (spec == KEEP_RESERVED && reserved.find(c) != reserved.npos) || (spec == KEEP_SLASH && c == '/');
        if (!keep) { o += c; hit = true; i += 3; continue; }
      }
    }
    o += s[i++];
  }
  if (any) *any = hit;
  return o;
}

// ---- request path ----
struct Request {
  std::vector<std::string> parts;
  std::string verb;
  bool empty_verb = false;  // "/a:" with unregistered verbs on: left unspecified
};
inline Request Split(std::string_view path, const std::set<std::string>& verbs, bool any_verb) {
  Request r;
  size_t q = path.find('?');
  if (q != path.npos) path = path.substr(0, q);
  size_t slash = path.rfind('/'), colon = path.rfind(':');
  if (colon != path.npos && slash != path.npos && colon > slash) {
    std::string v(path.substr(colon + 1));
    if (any_verb || verbs.count(v)) {
      r.empty_verb = v.empty();
      r.verb = v;
      path = path.substr(0, colon);
    }
  }
  // Leading '/' is a precondition of the generators.
  std::vector<std::string> p;
  size_t b = path.empty() ? 0 : 1;
  while (b <= path.size() && !path.empty()) {
    size_t e = path.find('/', b);
    if (e == path.npos) e = path.size();
    p.emplace_back(path.substr(b, e - b));
    b = e + 1;
  }
  while (!p.empty() && p.back().empty()) p.pop_back();
  r.parts = std::move(p);
  return r;
}

// Class of each request segment in the alignment of t with parts ("LLSZZ"), or
// nullopt. The zero-length match of a trailing "**" is marked by a final '~'.
inline std::optional<std::string> Align(const Tmpl& t, const std::vector<std::string>& p) {
  int d = t.dstar();
  size_t n = t.segs.size();
  std::string c;
  auto one = [&](size_t ti, size_t pi) {
    if (t.segs[ti].k == LIT && t.segs[ti].t != p[pi]) return false;
    c += char(t.segs[ti].k);
    return true;
  };
  if (d < 0) {
    if (p.size() != n) return std::nullopt;
    for (size_t i = 0; i < n; ++i) if (!one(i, i)) return std::nullopt;
    return c;
  }
  size_t suf = n - d - 1;
  if (p.size() < d + suf + (suf ? 1 : 0)) return std::nullopt;
  for (size_t i = 0; i < size_t(d); ++i) if (!one(i, i)) return std::nullopt;
  size_t mid = p.size() - d - suf;
  c.append(mid, char(DSTAR));
  for (size_t i = 0; i < suf; ++i) if (!one(d + 1 + i, d + mid + i)) return std::nullopt;
  if (mid == 0) c += '~';
  return c;
}
// Request segments [*b, *e) covered by v.
inline void Cover(const Tmpl& t, const Var& v, size_t parts, size_t* b, size_t* e) {
  size_t n = t.segs.size();
  int d = t.dstar();
  auto map = [&](size_t i, bool end) {
    bool behind = d >= 0 && (end ? i > size_t(d) : i > size_t(d));
    return behind ? parts - (n - i) : i;
  };
  *b = map(v.b, false);
  *e = map(v.e, true);
}
inline std::string Capture(const Tmpl& t, const Var& v, const std::vector<std::string>& p, Spec spec) {
  size_t b, e;
  Cover(t, v, p.size(), &b, &e);
  bool single = v.e - v.b == 1 && !v.dstar;
  std::string o;
  for (size_t i = b; i < e; ++i) {
    if (i > b) o += '/';
    o += Decode(p[i], single ? ALL : spec, false);
  }
  return o;
}

struct Binding {
  std::vector<std::string> path;
  std::string value;
  bool operator==(const Binding& o) const { return path == o.path && value == o.value; }
};
inline std::vector<std::string> SplitAll(std::string_view s, char d) {
  std::vector<std::string> o(1);
  for (char c : s) {
    if (c == d) o.emplace_back();
    else o.back() += c;
  }
  return o;
}
inline std::vector<Binding> Query(std::string_view q, const std::unordered_set<std::string>& sys, bool plus) {
  std::vector<Binding> o;
  for (auto& item : SplitAll(q, '&')) {
    size_t eq = item.find('=');
    if (eq == item.npos || eq == 0) continue;
    std::string name = item.substr(0, eq);
    if (sys.count(name)) continue;
    o.push_back({SplitAll(name, '.'), Decode(std::string_view(item).substr(eq + 1), ALL, plus)});
  }
  return o;
}
}  // namespace ref
