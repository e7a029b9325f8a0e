// Shared pieces of the monitor programs: choice source, dictionary, context
// (violations, counters, distinct states, samples) and property registration.
#pragma once
#include <sys/mman.h>

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vp {

inline uint64_t SplitMix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t s = a * 0x9e3779b97f4a7c15ULL + b + 0x1234567;
  return SplitMix(s);
}
inline uint64_t HashBytes(std::string_view s, uint64_t h = 1469598103934665603ULL) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return Mix(h, s.size());
}

// Strings and integers found in the sources of the tree under test (workload
// diversity: any constant the code compares with is tried as an input).
struct Dict {
  std::vector<std::string> strs;
  std::vector<uint64_t> ints;
  static Dict& Get();
};

// Where every random decision of a case comes from: a PRNG (random mode), or
// the bytes of a libFuzzer input.
class Choices {
 public:
  explicit Choices(uint64_t seed) : fuzz_(false), s_(seed) {}
  // Behind the last byte of the input a PRNG seeded with its bytes goes on.
  Choices(const uint8_t* d, size_t n) : fuzz_(true), s_(14695981039346656037ULL ^ n), p_(d), e_(d + n) {
    for (size_t i = 0; i < n; ++i) s_ = (s_ ^ d[i]) * 1099511628211ULL;
  }
  bool fuzz() const { return fuzz_; }
  bool exhausted() const { return fuzz_ && p_ >= e_; }
  uint64_t Raw(int bytes) {
    if (!fuzz_) return bytes >= 8 ? SplitMix(s_) : SplitMix(s_) & ((1ULL << (8 * bytes)) - 1);
    uint64_t v = 0;
    if (p_ >= e_) return bytes >= 8 ? SplitMix(s_) : SplitMix(s_) & ((1ULL << (8 * bytes)) - 1);
    for (int i = 0; i < bytes; ++i) v |= uint64_t(Byte()) << (8 * i);
    return v;
  }
  // Uniform in [0, n).
  uint64_t U(uint64_t n) {
    if (n <= 1) return 0;
    if (!fuzz_ || p_ >= e_) return SplitMix(s_) % n;
    return Raw(n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ULL << 32) ? 4 : 8) % n;
  }
  uint64_t Range(uint64_t lo, uint64_t hi) { return lo + U(hi - lo + 1); }
  // True with probability num/den.
  bool P(unsigned num, unsigned den) { return U(den) < num; }
  template <class T>
  const T& Pick(const std::vector<T>& v) { return v[U(v.size())]; }
  std::string Bytes(size_t n) {
    std::string s(n, '\0');
    if (!fuzz_) { for (auto& c : s) c = char(SplitMix(s_)); return s; }
    for (auto& c : s) c = char(Byte());
    return s;
  }
  std::string From(std::string_view alphabet, size_t n) {
    std::string s(n, '\0');
    for (auto& c : s) c = alphabet[U(alphabet.size())];
    return s;
  }
  // Heavy-tailed size up to max: mostly small, sometimes around powers of two
  // or around an integer constant of the sources.
  size_t Size(size_t max) {
    static const std::vector<size_t> kB = {15, 16, 17, 22, 23, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129,
        255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193,
        16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 100000, 131071, 131072, 131073, 262144, 1048575, 1048576, 1048577};
    uint64_t k = U(100);
    size_t v;
    if (k < 62) v = U(6);
    else if (k < 82) v = U(24);
    else if (k < 90) v = U(80);
    else if (k < 95) v = DictSize();
    else v = kB[U(kB.size())];
    return v > max ? U(max + 1) : v;
  }
  // A size at or next to a power of two (or a constant of the sources) in
  // [100, max], small ones preferred.
  size_t Big(size_t max) {
    size_t v;
    if (P(1, 5)) { v = DictSize(); if (v <= max && v >= 100) return v; }
    unsigned top = 7;
    while (top < 24 && (size_t(1) << (top + 1)) <= max) ++top;
    unsigned k = 7 + unsigned(std::min(U(top - 6), U(top - 6)));
    v = (size_t(1) << k) + U(5) - 2;
    if (P(1, 6)) v += (v >> 1);
    return v > max ? max - U(3) : v;
  }
  size_t DictSize() {
    auto& d = Dict::Get().ints;
    if (d.empty()) return U(300);
    uint64_t v = d[U(d.size())] + U(5);
    v = v >= 2 ? v - 2 : 0;
    return v < (1ULL << 40) ? v : U(300);
  }

 private:
  uint8_t Byte() { return p_ < e_ ? *p_++ : uint8_t(SplitMix(s_)); }
  bool fuzz_;
  uint64_t s_;
  const uint8_t* p_ = nullptr;
  const uint8_t* e_ = nullptr;
};

struct Violation {
  std::string kind, msg;
};

std::string Show(std::string_view s, size_t max = 200);  // printable, quoted
std::string Hex(std::string_view s);

class Ctx {
 public:
  // Throws: only to be used outside of callbacks from the code under test.
  [[noreturn]] void Fail(std::string kind, std::string msg) { throw Violation{std::move(kind), std::move(msg)}; }
  // For callbacks: recorded, thrown at the next Check().
  void Defer(std::string kind, std::string msg) {
    if (deferred_.kind.empty()) deferred_ = Violation{std::move(kind), std::move(msg)};
  }
  void Check() {
    if (!deferred_.kind.empty()) { Violation v; std::swap(v, deferred_); throw v; }
  }
  void ClearDeferred() { deferred_ = Violation{}; }
  uint64_t& Count(const char* name) { return counters_[name]; }
  void Distinct(uint64_t h) { if (distinct_.size() < 4000000) distinct_.insert(h); }
  bool WantSample() { ++sample_seen_; return samples_.size() < 4 && (sample_seen_ & (sample_seen_ - 1)) == 0; }
  void Sample(std::string s) { if (s.size() > 1500) { s.resize(1500); s += "..."; } samples_.push_back(std::move(s)); }

  std::map<std::string, uint64_t> counters_;
  std::unordered_set<uint64_t> distinct_;
  std::vector<std::string> samples_;
  uint64_t sample_seen_ = 0, evals_ = 0;
  int tier = 0;  // 0 quick, 1 thorough

 private:
  Violation deferred_;
};

// Text of the case being run, kept in a file mapped by the driver so that it
// survives a crash.
void SetNote(std::string_view s);

// From anywhere: record the violation and leave the process at once.
[[noreturn]] void HardViolation(std::string kind, std::string msg);

struct Prop {
  const char* id;
  void (*run)(Choices&, Ctx&);
  // Optional exhaustive part; must split the work by shard.
  void (*enumerate)(Ctx&, unsigned shard, unsigned shards) = nullptr;
};
std::vector<Prop>& Props();
struct Register {
  Register(const char* id, void (*run)(Choices&, Ctx&), void (*en)(Ctx&, unsigned, unsigned) = nullptr) {
    Props().push_back(Prop{id, run, en});
  }
};

// Bytes currently allocated (0 if the build does not know).
size_t AllocatedBytes();
// Largest single allocation since the last reset (0 if the build does not know).
void ResetMaxAlloc();
size_t MaxAlloc();

// A heap copy of exactly the given size: reads past the end are caught.
struct ExactBuf {
  char* p; size_t n;
  explicit ExactBuf(std::string_view s) : p(static_cast<char*>(malloc(s.size() ? s.size() : 1))), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  ~ExactBuf() { free(p); }
  std::string_view view() const { return {p, n}; }
};
}  // namespace vp
