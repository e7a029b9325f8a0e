// Driver of the monitor programs.
//   mon --prop ID --mode random --seed S --shard I --shards N --cases K --out DIR [--tier 0|1]
//   mon --prop ID --mode fuzz   --out DIR [--tier 0|1] -- libFuzzer options
//   mon --prop ID --mode replay --what SPEC  (SPEC: seed:<n>, bytes:<file>, enum:<shard>:<shards>)
#include <fcntl.h>
#include <unistd.h>

#include <fstream>
#include <sstream>

#include "core.h"

#if defined(VP_FUZZ)
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VP_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif

namespace vp {
Dict& Dict::Get() {
  static Dict* d = [] {
    auto* d = new Dict;
    if (const char* f = getenv("VP_DICT")) {
      std::ifstream in(f);
      std::string l;
      while (std::getline(in, l)) {
        if (l.size() > 2 && l[0] == 'i') d->ints.push_back(strtoull(l.c_str() + 2, nullptr, 10));
        if (l.size() > 2 && l[0] == 's') {
          std::string s;
          for (size_t i = 2; i + 1 < l.size(); i += 2) s += char(strtol(l.substr(i, 2).c_str(), nullptr, 16));
          d->strs.push_back(s);
        }
      }
    }
    if (d->strs.empty()) d->strs.push_back("a");
    if (d->ints.empty()) d->ints.push_back(4096);
    return d;
  }();
  return *d;
}
std::vector<Prop>& Props() { static std::vector<Prop> v; return v; }
std::string Show(std::string_view s, size_t max) {
  std::string o = "\"";
  char b[8];
  for (size_t i = 0; i < s.size() && i < max; ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += char(c);
  }
  o += '"';
  if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}
std::string Hex(std::string_view s) {
  std::string o; char b[4];
  for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); o += b; }
  return o;
}
size_t AllocatedBytes() {
#ifdef VP_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

static size_t max_alloc;
void ResetMaxAlloc() {
#ifdef VP_ASAN
  static bool once = [] {
    __sanitizer_install_malloc_and_free_hooks([](const volatile void*, size_t n) { if (n > max_alloc) max_alloc = n; }, [](const volatile void*) {});
    return true;
  }();
  (void)once;
#endif
  max_alloc = 0;
}
size_t MaxAlloc() { return max_alloc; }

struct Progress {
  volatile uint64_t case_no, seed, shard, shards, done;
  volatile uint32_t phase;  // 0 enumerate, 1 random
  volatile uint32_t note_len;
  char note[3800];
};
static Progress dummy;
static Progress* prog = &dummy;
void SetNote(std::string_view s) {
  uint32_t n = s.size() < sizeof prog->note ? s.size() : sizeof prog->note;
  memcpy(prog->note, s.data(), n);
  prog->note_len = n;
}

static std::string JsonStr(std::string_view s) {
  std::string o = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o + "\"";
}

static std::string out_dir, prop_id;
static const Prop* prop;
static Ctx* ctx;
static std::vector<std::string> known;  // kinds listed as known findings
static std::map<std::string, uint64_t> known_seen;

static bool IsKnown(const Violation& v) {
  for (auto& k : known) if (v.kind == k) { known_seen[k]++; return true; }
  return false;
}
static void WriteViolation(const Violation& v, const std::string& what) {
  std::string m = v.msg;
  if (m.size() > 20000) m.resize(20000);
  std::ofstream f(out_dir + "/violation.json");
  f << "{\"kind\":" << JsonStr(v.kind) << ",\"what\":" << JsonStr(what) << ",\"msg\":" << JsonStr(m) << "}\n";
  f.flush();
}
static void WriteStats() {
  std::ofstream f(out_dir + "/stats.json");
  f << "{\"evals\":" << ctx->evals_ << ",\"counters\":{";
  bool c = false;
  for (auto& k : ctx->counters_) { f << (c ? "," : "") << JsonStr(k.first) << ":" << k.second; c = true; }
  f << "},\"known\":{";
  c = false;
  for (auto& k : known_seen) { f << (c ? "," : "") << JsonStr(k.first) << ":" << k.second; c = true; }
  f << "},\"samples\":[";
  c = false;
  for (auto& s : ctx->samples_) { f << (c ? "," : "") << JsonStr(s); c = true; }
  f << "]}\n";
  std::ofstream d(out_dir + "/distinct.bin", std::ios::binary);
  for (uint64_t h : ctx->distinct_) d.write(reinterpret_cast<const char*>(&h), 8);
}
[[noreturn]] static void Finish(int rc) { WriteStats(); fflush(stdout); _exit(rc); }

[[noreturn]] void HardViolation(std::string kind, std::string msg) {
  Violation v{std::move(kind), std::move(msg)};
  WriteViolation(v, std::string("seed:") + std::to_string(prog->seed));
  Finish(77);
}
#if defined(VP_FUZZ)
static int FuzzOne(const uint8_t* data, size_t size) {
  Choices c(data, size);
  ctx->evals_++;
  try {
    prop->run(c, *ctx);
    ctx->Check();
  } catch (const Violation& v) {
    ctx->ClearDeferred();
    if (IsKnown(v)) return 0;
    std::ofstream f(out_dir + "/violation.bin", std::ios::binary);
    f.write(reinterpret_cast<const char*>(data), size);
    f.close();
    WriteViolation(v, "bytes:" + out_dir + "/violation.bin");
    Finish(77);
  }
  return 0;
}
#endif

static int RunSeed(uint64_t seed, std::string what) {
  Choices c(seed);
  ctx->evals_++;
  try {
    prop->run(c, *ctx);
    ctx->Check();
  } catch (const Violation& v) {
    ctx->ClearDeferred();
    if (IsKnown(v)) return 0;
    WriteViolation(v, what);
    return 77;
  }
  return 0;
}
}  // namespace vp

int main(int argc, char** argv) {
  using namespace vp;
  std::string mode = "random", what;
  uint64_t seed = 1, shard = 0, shards = 1, cases = 1000;
  static Ctx the_ctx;
  ctx = &the_ctx;
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--") break;
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--prop") prop_id = val();
    else if (a == "--mode") mode = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shard") shard = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--shards") shards = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") ctx->tier = atoi(val().c_str());
    else if (a == "--out") out_dir = val();
    else if (a == "--what") what = val();
    else if (a == "--known") known.push_back(val());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
  }
  for (auto& p : Props()) if (prop_id == p.id) prop = &p;
  if (!prop) { fprintf(stderr, "unknown property %s\n", prop_id.c_str()); return 3; }
  Dict::Get();
  int fd = open((out_dir + "/progress").c_str(), O_RDWR | O_CREAT, 0644);
  if (fd >= 0 && ftruncate(fd, 4096) == 0) {
    void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) prog = static_cast<Progress*>(m);
  }
  if (mode == "random") {
    prog->shard = shard; prog->shards = shards; prog->phase = 0; prog->seed = seed;
    if (prop->enumerate) {
      try {
        prop->enumerate(*ctx, shard, shards);
        ctx->Check();
      } catch (const Violation& v) {
        ctx->ClearDeferred();
        if (!IsKnown(v)) { WriteViolation(v, "enum:" + std::to_string(shard) + ":" + std::to_string(shards)); Finish(77); }
      }
    }
    prog->phase = 1;
    for (uint64_t k = 0; k < cases; ++k) {
      uint64_t s = Mix(Mix(seed, HashBytes(prop_id)), k * shards + shard);
      prog->seed = s; prog->case_no = k; prog->note_len = 0;
      int rc = RunSeed(s, "seed:" + std::to_string(s));
      if (rc) Finish(rc);
    }
    prog->done = 1;
    Finish(0);
  }
  if (mode == "replay") {
    prog->phase = 1;
    if (what.rfind("seed:", 0) == 0) {
      prog->seed = strtoull(what.c_str() + 5, nullptr, 10);
      int rc = RunSeed(strtoull(what.c_str() + 5, nullptr, 10), what);
      Finish(rc);
    }
    if (what.rfind("enum:", 0) == 0) {
      unsigned a, b;
      if (sscanf(what.c_str(), "enum:%u:%u", &a, &b) != 2) return 3;
      try { prop->enumerate(*ctx, a, b); ctx->Check(); }
      catch (const Violation& v) { if (!IsKnown(v)) { WriteViolation(v, what); Finish(77); } }
      Finish(0);
    }
    if (what.rfind("bytes:", 0) == 0) {
      std::ifstream f(what.substr(6), std::ios::binary);
      std::stringstream b; b << f.rdbuf();
      std::string s = b.str();
      Choices c(reinterpret_cast<const uint8_t*>(s.data()), s.size());
      try { prop->run(c, *ctx); ctx->Check(); }
      catch (const Violation& v) { if (!IsKnown(v)) { WriteViolation(v, what); Finish(77); } }
      Finish(0);
    }
    return 3;
  }
#if defined(VP_FUZZ)
  if (mode == "fuzz") {
    argv[i] = argv[0];
    int n = argc - i;
    char** av = argv + i;
    if (i >= argc) { n = 1; av = argv; }
    atexit(WriteStats);  // the driver leaves with exit()
    int rc = LLVMFuzzerRunDriver(&n, &av, FuzzOne);
    WriteStats();
    _exit(rc);
  }
#endif
  fprintf(stderr, "unknown mode\n");
  return 3;
}
