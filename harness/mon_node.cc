// The path trie used on its own: C33.
#include <set>

#include "grpc_transcoding/http_template.h"
#include "grpc_transcoding/path_matcher_node.h"
#include "core.h"

namespace vp {
namespace {
namespace gt = google::grpc::transcoding;
using Node = gt::PathMatcherNode;

// What is known about one trie: every (path, method) inserted so far.
struct Part {
  char kind;  // 'L' literal, 'P' any single part, 'S' '*', 'Z' '**'
  std::string text;
  bool operator<(const Part& o) const { return std::tie(kind, text) < std::tie(o.kind, o.text); }
};
using Path = std::vector<Part>;
struct Entry { void* data; bool multiple; };
struct Model {
  std::map<Path, std::map<std::string, Entry>> m;
  bool Insert(const Path& p, const std::string& method, void* d, bool mark) {
    auto [it, fresh] = m[p].emplace(method, Entry{d, false});
    if (!fresh) { it->second.data = d; it->second.multiple |= mark; }
    return fresh;
  }
};
// The class of every part of the request ("LLPZZ"), or false.
bool Aligned(const Path& t, const std::vector<std::string>& p, std::string* cls) {
  cls->clear();
  size_t star = t.size();
  for (size_t i = 0; i < t.size(); ++i) if (t[i].kind == 'Z') star = i;
  auto fits = [&](const Part& s, const std::string& v) { *cls += s.kind; return s.kind != 'L' || s.text == v; };
  if (star == t.size()) {
    if (p.size() != t.size()) return false;
    for (size_t i = 0; i < t.size(); ++i) if (!fits(t[i], p[i])) return false;
    return true;
  }
  size_t behind = t.size() - star - 1;
  if (p.size() < star + behind + (behind ? 1 : 0)) return false;
  for (size_t i = 0; i < star; ++i) if (!fits(t[i], p[i])) return false;
  size_t mid = p.size() - star - behind;
  cls->append(mid, 'Z');
  for (size_t i = 0; i < behind; ++i) if (!fits(t[star + 1 + i], p[star + mid + i])) return false;
  if (!mid) *cls += '~';
  return true;
}
struct Found { const Entry* e = nullptr; std::string cls; int matching = 0; };
Found Want(const Model& m, const std::vector<std::string>& p, const std::string& method) {
  Found f;
  std::string any = "*", c;
  size_t colon = method.find(':');
  if (colon != method.npos) any += method.substr(colon);
  for (auto& [path, ms] : m.m) {
    auto it = ms.find(method);
    if (it == ms.end()) it = ms.find(any);
    if (it == ms.end() || !Aligned(path, p, &c)) continue;
    ++f.matching;
    if (!f.e || c < f.cls) { f.e = &it->second; f.cls = c; }
  }
  return f;
}
std::string Text(const Path& p) {
  std::string o;
  for (auto& s : p) o += "/" + (s.kind == 'L' ? Show(s.text, 40) : s.kind == 'P' ? "<any>" : s.kind == 'S' ? "*" : "**");
  return o.empty() ? "(root)" : o;
}

struct Trie {
  std::unique_ptr<Node> n;
  Model m;
};

void RunC33(Choices& c, Ctx& x) {
  static char tokens[64];
  std::vector<std::string> lits;
  for (size_t i = 2 + c.U(4); i-- > 0;) {
    switch (c.U(8)) {
      case 0: lits.push_back(""); break;
      case 1: lits.push_back(c.From("ab:.%", 1 + c.U(4))); break;
      case 2: { std::string s = c.Bytes(1 + c.U(5)); for (auto& ch : s) if (ch == '/' || ch == '*') ch = 'x'; lits.push_back(s); break; }
      case 3: lits.push_back(std::string(c.Size(3000) + 1, 'l')); break;
      default: lits.push_back(std::string(1, char('a' + c.U(4))));
    }
  }
  bool wide = c.P(1, 250);  // one node with very many children
  if (wide) for (size_t i = 100 + c.U(500); i-- > 0;) lits.push_back("l" + std::to_string(i));
  std::vector<std::string> methods = {"GET", "*", "POST", "GET:v", "*:v", "", "get", "*:", "PUT:v:w"};
  size_t n_methods = 1 + c.U(methods.size());
  if (wide && c.P(1, 3)) { for (size_t i = c.U(300); i-- > 0;) methods.push_back("M" + std::to_string(i)); n_methods = methods.size(); }
  auto method = [&] { return methods[c.U(n_methods)]; };
  size_t depth = wide ? 1 + c.U(2) : c.P(1, 20) ? 40 : 1 + c.U(6);
  size_t least = wide && c.P(1, 2) ? 1 : 0;  // no path ends at the root
  auto gen = [&] {
    Path p;
    bool star = false;
    unsigned wild = unsigned(c.U(wide ? 10 : depth > 10 ? 20 : 80));
    for (size_t i = least + c.U(depth + 1 - least); i-- > 0;) {
      if (star || !c.P(wild, 100)) { p.push_back({'L', c.Pick(lits)}); continue; }
      unsigned k = unsigned(c.U(5));
      if (k < 2) p.push_back({'P', ""});
      else if (k < 4) p.push_back({'S', ""});
      else { p.push_back({'Z', ""}); star = true; }
    }
    return p;
  };
  std::vector<Trie> tries(1);
  tries[0].n = std::make_unique<Node>();
  std::string log;
  auto note = [&](const std::string& s) { if (log.size() < 6000) log += s + "\n"; };
  std::vector<Path> used;
  uint64_t h = 7;
  for (size_t ops = wide ? 300 + c.U(900) : 2 + c.U(c.P(1, 10) ? 120 : 30); ops-- > 0;) {
    size_t ti = c.U(tries.size());
    Trie& t = tries[ti];
    unsigned op = unsigned(c.U(20));
    if (op < 10) {
      Path p = !used.empty() && c.P(1, 3) ? c.Pick(used) : gen();
      used.push_back(p);
      auto b = std::make_unique<Node::PathInfo::Builder>();
      for (auto& s : p) {
        auto& r = s.kind == 'P' ? b->AppendSingleParameterNode() : b->AppendLiteralNode(s.kind == 'L' ? s.text : s.kind == 'S' ? "*" : "**");
        if (&r != b.get()) x.Fail("builder-not-chained", Text(p));
      }
      auto info = std::make_unique<Node::PathInfo>(b->Build());
      // a finished path is not changed by what the builder does next
      if (c.P(1, 3)) { b->AppendLiteralNode("later"); x.Count("builders_used_again")++; }
      b.reset();
      std::string me = method();
      void* d = &tokens[c.U(64)];
      bool mark = c.P(1, 2);
      bool want = t.m.Insert(p, me, d, mark);
      bool got = t.n->InsertPath(*info, me, d, mark);
      info.reset();
      note("trie" + std::to_string(ti) + " insert " + Text(p) + " " + me + (mark ? " mark" : ""));
      SetNote(log);
      x.Count(want ? "paths_inserted" : "paths_repeated")++;
      if (want != got) x.Fail("insert-result", "InsertPath returned " + std::to_string(got) + " for a path that was " + (want ? "new" : "known") + "\n" + log);
      h = Mix(h, HashBytes(Text(p) + me));
    } else if (op < 11 && tries.size() < 4) {
      Trie k;
      k.n = static_cast<const Node&>(*t.n).Clone();
      k.m = t.m;
      if (!k.n) x.Fail("clone-null", log);
      note("trie" + std::to_string(tries.size()) + " = clone of trie" + std::to_string(ti));
      x.Count("clones")++;
      tries.push_back(std::move(k));
    } else if (op < 12 && tries.size() > 1) {
      // the rest must not miss it
      note("drop trie" + std::to_string(ti));
      tries.erase(tries.begin() + ti);
    } else {
      std::vector<std::string> req;
      if (!used.empty() && c.P(5, 6)) {
        for (auto& s : c.Pick(used)) {
          if (s.kind == 'L') req.push_back(s.text);
          else for (size_t n = s.kind == 'Z' ? c.U(4) : 1; n-- > 0;) req.push_back(c.P(3, 4) ? c.Pick(lits) : c.P(1, 2) ? "*" : c.P(1, 3) ? "**" : "zz");
        }
        if (!req.empty() && c.P(1, 6)) req[c.U(req.size())] = c.P(1, 2) ? c.Pick(lits) : "q";
        if (c.P(1, 12)) req.push_back(c.Pick(lits));
        if (!req.empty() && c.P(1, 12)) req.pop_back();
      } else {
        for (size_t n = c.U(depth + 2); n-- > 0;) req.push_back(c.Pick(lits));
      }
      std::string me = c.P(1, 10) ? "DELETE:v" : method();
      Found w = Want(t.m, req, me);
      gt::PathMatcherLookupResult r;
      bool preset = c.P(1, 2);
      r.is_multiple = preset;
      static_cast<const Node&>(*t.n).LookupPath(req.begin(), req.end(), me, &r);
      std::string q;
      for (auto& s : req) q += "/" + Show(s, 40);
      auto ctx = [&] { return "trie" + std::to_string(ti) + " lookup " + q + " method " + me + " (best class " + w.cls + ")\n" + log; };
      x.Count(w.e ? w.matching > 1 ? "lookups_with_choice" : "lookups_found" : "lookups_not_found")++;
      if (!w.e) {
        if (r.data) x.Fail("found-unexpectedly", ctx());
        if (r.is_multiple != preset) x.Fail("result-touched", ctx());
      } else {
        if (!r.data) x.Fail("not-found", ctx());
        if (r.data != w.e->data) x.Fail("wrong-data", ctx());
        if (r.is_multiple != w.e->multiple) x.Fail("wrong-multiple", std::to_string(r.is_multiple) + " " + ctx());
        if (w.e->multiple) x.Count("multiples_reported")++;
        if (w.cls.find('P') != w.cls.npos) x.Count("single_parameters_matched")++;
        if (tries.size() > 1) x.Count("lookups_beside_clones")++;
        x.Distinct(Mix(h, HashBytes(q + "|" + me)));
        if (x.WantSample()) x.Sample(ctx());
      }
    }
  }
}
Register r33("C33", RunC33);
}  // namespace
}  // namespace vp
