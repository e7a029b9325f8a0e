// gRPC frame reader and message stream adapter monitors: C14 C15 C16 C17 and
// the frame part of C30.
#include <limits.h>

#include "absl/status/status.h"
#include <algorithm>

#include "core.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"

namespace vp {
namespace {
namespace gt = ::google::grpc::transcoding;
namespace pbio = ::google::protobuf::io;

// 2 GiB of read-only zero pages: payloads of any size cost no memory.
const char* ZeroPages() {
  static const char* p = static_cast<const char*>(mmap(nullptr, size_t(1) << 31, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  return p;
}

// The bytes of a whole stream; a piece without data is a run of zeros.
struct Piece {
  uint64_t len;
  std::string data;
  bool zeros;
};
struct Content {
  std::vector<Piece> pieces;
  std::vector<uint64_t> start;
  uint64_t total = 0;
  void Add(std::string s) { start.push_back(total); total += s.size(); uint64_t n = s.size(); pieces.push_back({n, std::move(s), false}); }
  void AddZeros(uint64_t n) { start.push_back(total); total += n; pieces.push_back({n, "", true}); }
  // Piece that holds offset (offset < total).
  size_t Find(uint64_t off) const {
    size_t i = size_t(std::upper_bound(start.begin(), start.end(), off) - start.begin()) - 1;
    while (pieces[i].len == 0 || off >= start[i] + pieces[i].len) ++i;
    return i;
  }
};

struct Plan {  // how reads are cut
  int style = 0;
  size_t k = 1;
  unsigned empty = 0;  // 1 in `empty` reads yields nothing first
};

// The input under control of the monitor. Every chunk handed out is a heap
// block of exactly its size that dies with the next read.
class SimInput : public gt::TranscoderInputStream {
 public:
  SimInput(const Content& c, Plan plan, uint64_t seed, Ctx& x, const std::vector<uint64_t>* bounds)
      : c_(c), plan_(plan), r_(seed), x_(x), bounds_(bounds) {}
  ~SimInput() override { free(buf_); }
  uint64_t pos = 0, arrived = 0;
  bool closed = false;
  bool in_poll = false, judge = false, allow_any_backup = false;
  uint64_t nexts = 0, poll_nexts = 0, max_pull = 0;

  bool Next(const void** data, int* size) override {
    ++nexts;
    if (in_poll) {
      ++poll_nexts;
      if (judge && arrived == pos) x_.Defer("pull-without-data", "the reader called Next() on an input that has no bytes available, at offset " + std::to_string(pos));
    }
    last_ = 0;
    if (pos == arrived) {
      *size = 0;
      *data = nullptr;
      return !closed;
    }
    if (plan_.empty && r_.P(1, plan_.empty)) {
      *size = 0;
      *data = "";
      return true;
    }
    size_t i = c_.Find(pos);
    uint64_t off = pos - c_.start[i], n = arrived - pos;
    const Piece& p = c_.pieces[i];
    if (p.zeros) {
      n = std::min<uint64_t>({n, p.len - off, uint64_t(INT_MAX)});
      n = Cut(n);
      *data = ZeroPages() + (off & 4095);
      if (n > (uint64_t(1) << 31) - 4096) n = (uint64_t(1) << 31) - 4096;
    } else {
      n = Cut(n);
      // Several real pieces may be joined in one chunk.
      std::string s;
      if (off + n <= p.len) {
        Fill(p.data.data() + off, n);
      } else {
        s = p.data.substr(off);
        for (size_t j = i + 1; j < c_.pieces.size() && s.size() < n && !c_.pieces[j].zeros; ++j) s.append(c_.pieces[j].data, 0, n - s.size());
        n = s.size();
        Fill(s.data(), n);
      }
      *data = buf_;
    }
    *size = int(n);
    last_ = n;
    pos += n;
    return true;
  }
  void BackUp(int n) override {
    if (n < 0 || uint64_t(n) > last_) {
      if (!allow_any_backup) x_.Defer("illegal-backup", "BackUp(" + std::to_string(n) + ") after a read of " + std::to_string(last_) + " bytes");
      return;
    }
    pos -= uint64_t(n);
    last_ -= uint64_t(n);
  }
  bool Skip(int n) override {
    if (n < 0) return false;
    last_ = 0;
    uint64_t m = std::min<uint64_t>(uint64_t(n), arrived - pos);
    pos += m;
    return m == uint64_t(n);
  }
  int64_t ByteCount() const override { return int64_t(pos); }
  int64_t BytesAvailable() const override { return int64_t(arrived - pos); }
  bool Finished() const override { return closed; }

 private:
  uint64_t Cut(uint64_t n) {
    uint64_t m = n;
    switch (plan_.style) {
      case 0: break;                                    // everything there is
      case 1: m = plan_.k; break;                       // fixed size
      case 2: m = 1 + r_.U(2 * plan_.k + 1); break;     // random around k
      case 3: {                                         // up to a boundary
        if (bounds_) {
          auto it = std::upper_bound(bounds_->begin(), bounds_->end(), pos);
          if (it != bounds_->end()) m = *it - pos;
        }
        break;
      }
      default: m = r_.P(1, 2) ? n : 1 + r_.U(std::min<uint64_t>(n, 20)); break;
    }
    if (n > 200000 && m < n / 64) m = n / 64;           // keep huge payloads affordable
    return std::max<uint64_t>(1, std::min(n, m));
  }
  void Fill(const char* d, size_t n) {
    free(buf_);
    buf_ = static_cast<char*>(malloc(n));
    memcpy(buf_, d, n);
  }
  const Content& c_;
  Plan plan_;
  Choices r_;
  Ctx& x_;
  const std::vector<uint64_t>* bounds_;
  char* buf_ = nullptr;
  uint64_t last_ = 0;
};

struct Frame {
  unsigned char flag = 0;
  uint32_t size = 0;
  std::string payload;  // empty if zeros
  bool zeros = false;
};
std::string Header(unsigned char flag, uint32_t n) {
  std::string s;
  s += char(flag);
  for (int sh = 24; sh >= 0; sh -= 8) s += char(n >> sh);
  return s;
}
enum Facet { F14, F15, F16 };

// A stream of frames, cut off after `cut` bytes, run against the reader with a
// schedule of arrivals and polls; a model says what each poll must do.
class Sim {
 public:
  Sim(Facet f, std::vector<Frame> fr, uint64_t cut, Plan plan, Choices& c, Ctx& x)
      : f_(f), fr_(std::move(fr)), c_(c), x_(x) {
    for (auto& g : fr_) {
      begin_.push_back(content_.total);
      content_.Add(Header(g.flag, g.size));
      if (g.zeros) content_.AddZeros(g.size);
      else content_.Add(g.payload);
      for (uint64_t d : {0, 1, 4, 5}) bounds_.push_back(begin_.back() + d);
      if (g.size) bounds_.push_back(content_.total - 1);
      bounds_.push_back(content_.total);
    }
    std::sort(bounds_.begin(), bounds_.end());
    begin_.push_back(content_.total);
    cut_ = std::min(cut, content_.total);
    in_ = std::make_unique<SimInput>(content_, plan, c.Raw(8), x, &bounds_);
    in_->judge = f == F15;
    reader_ = std::make_unique<gt::MessageReader>(in_.get());
    plan_ = plan;
  }
  std::string Text() const {
    std::string o = "frames";
    for (size_t i = 0; i < fr_.size() && i < 30; ++i) o += " " + std::to_string(fr_[i].flag) + ":" + std::to_string(fr_[i].size);
    o += " cut at " + std::to_string(cut_) + "/" + std::to_string(content_.total) + " chunks " + std::to_string(plan_.style) + "/" + std::to_string(plan_.k) + " history:" + (hist_.size() > 1500 ? "..." + hist_.substr(hist_.size() - 1500) : hist_);
    return o;
  }
  uint64_t cut() const { return cut_; }
  const std::vector<uint64_t>& bounds() const { return bounds_; }
  void Arrive(uint64_t to) {
    to = std::min(to, cut_);
    if (to <= in_->arrived) return;
    in_->arrived = to;
    hist_ += " +" + std::to_string(to);
    sched_ = Mix(sched_, to);
  }
  void Close() {
    if (in_->arrived == cut_ && !in_->closed) { in_->closed = true; hist_ += " close"; sched_ = Mix(sched_, 7777777); }
  }
  uint64_t arrived() const { return in_->arrived; }
  bool closed() const { return in_->closed; }
  bool model_finished() const { return fin_; }
  uint64_t schedule_hash() const { return sched_; }
  size_t delivered() const { return next_; }

  // One call of the reader. Returns false when the case has to end.
  bool Poll() {
    uint64_t fs = begin_[next_];
    // ---- what must happen
    bool want_msg = false;
    if (!fin_) {
      uint64_t have = in_->arrived - fs;
      if (have < 5) {
        if (in_->closed) { fin_ = true; if (have) want_error_ = "Incomplete gRPC frame header received"; }
      } else if (fr_[next_].flag) {
        fin_ = true;
        want_error_ = "Unsupported gRPC frame flag: " + std::to_string(fr_[next_].flag);
      } else if (have - 5 < fr_[next_].size) {
        if (in_->closed) { fin_ = true; want_error_ = "Incomplete gRPC frame expected size: " + std::to_string(fr_[next_].size) + " actual size: " + std::to_string(have - 5); }
      } else {
        want_msg = true;
      }
    }
    // ---- the call
    if (npoll_++ % 32 == 0) SetNote(Text());
    bool with_frame = c_.P(1, 2);
    uint64_t pos0 = in_->pos;
    in_->in_poll = true;
    in_->poll_nexts = 0;
    ResetMaxAlloc();
    gt::MessageAndGrpcFrame mf;
    if (with_frame) mf = reader_->NextMessageAndGrpcFrame();
    else mf.message = reader_->NextMessage();
    size_t peak = MaxAlloc();
    in_->in_poll = false;
    hist_ += mf.message ? " M" : " p";
    x_.Count("polls")++;
    x_.Check();
    // ---- C16
    if (f_ == F16) {
      absl::Status st = reader_->Status();
      if (reader_->Finished() != fin_)
        x_.Fail(fin_ ? "not-finished" : "finished-early", "Finished() is " + std::to_string(reader_->Finished()) + " status " + Show(st.ToString()) + ", expected error " + Show(want_error_) + "\n" + Text());
      if (st.ok() != want_error_.empty())
        x_.Fail(st.ok() ? "error-not-reported" : "spurious-error", "status " + Show(st.ToString()) + " expected " + Show(want_error_) + "\n" + Text());
      if (!st.ok() && std::string(st.message()) != want_error_)
        x_.Fail("wrong-error", "status " + Show(st.ToString()) + " expected " + Show(want_error_) + "\n" + Text());
      if (!st.ok() && st.code() != absl::StatusCode::kInternal) x_.Fail("wrong-error-code", Show(st.ToString()) + "\n" + Text());
      if (fin_ && mf.message) x_.Fail("message-after-end", Text());
      if (!want_error_.empty()) x_.Count("error_states_observed")++;
      else if (fin_) x_.Count("clean_ends_observed")++;
    }
    if (f_ == F14) {
      if (bool(mf.message) != want_msg)
        x_.Fail(want_msg ? "message-missing" : "message-too-early", "frame #" + std::to_string(next_) + " of size " + (next_ < fr_.size() ? std::to_string(fr_[next_].size) : "-") + ", " + std::to_string(in_->arrived - fs) + " bytes there, status " + Show(reader_->Status().ToString()) + "\n" + Text());
      if (want_msg && with_frame) {
        if (memcmp(mf.grpc_frame, Header(0, fr_[next_].size).data(), 5) != 0) x_.Fail("wrong-frame-header", "frame #" + std::to_string(next_) + " header " + Hex({reinterpret_cast<char*>(mf.grpc_frame), 5}) + "\n" + Text());
        if (mf.message_size != fr_[next_].size) x_.Fail("wrong-message-size", "frame #" + std::to_string(next_) + " size " + std::to_string(mf.message_size) + "\n" + Text());
      }
    }
    if (f_ == F15) {
      if (!mf.message && !want_msg) {
        uint64_t have = in_->arrived - fs;
        uint64_t hi = have >= 5 ? fs + 5 : fs;
        if (in_->pos > hi || in_->pos < pos0)
          x_.Fail("consumed-too-much", "input is at " + std::to_string(in_->pos) + ", the frame begins at " + std::to_string(fs) + " and only " + std::to_string(have) + " of its bytes are there\n" + Text());
        if (have >= 5 && pos0 >= fs + 5 && in_->poll_nexts) x_.Fail("read-while-waiting", "the reader called Next() while the payload is incomplete\n" + Text());
        if (have >= 5 && fr_[next_].size >= 65536 && peak > fr_[next_].size / 16 && peak > 16384 && peak > 4 * (in_->arrived - pos0))
          x_.Fail("allocation-by-announced-size", "one allocation of " + std::to_string(peak) + " bytes while " + std::to_string(have) + " bytes of a frame announced with " + std::to_string(fr_[next_].size) + " are there\n" + Text());
        x_.Count("incomplete_polls")++;
      }
    }
    if (bool(mf.message) != want_msg) { x_.Count("skipped_other_facet")++; return false; }
    if (!want_msg) return true;
    bool ok = Consume(mf.message.get());
    mf.message.reset();
    x_.Check();
    if (!ok) { x_.Count("skipped_other_facet")++; return false; }
    uint64_t end = begin_[next_ + 1];
    if (f_ == F15) {
      if (in_->pos != end)
        x_.Fail("wrong-position-after-message", "after reading message #" + std::to_string(next_) + " the input is at " + std::to_string(in_->pos) + " instead of " + std::to_string(end) + "\n" + Text());
      x_.Count("positions_checked")++;
    } else if (in_->pos != end) {
      x_.Count("skipped_other_facet")++;
      return false;
    }
    ++next_;
    x_.Count("messages")++;
    return true;
  }

 private:
  // Reads the message to its end in a random manner.
  bool Consume(pbio::ZeroCopyInputStream* s) {
    const Frame& g = fr_[next_];
    uint64_t at = 0;
    int mode = int(c_.U(4));
    bool judge = f_ == F14;
    auto bad = [&](const char* kind, std::string what) {
      if (judge) x_.Fail(kind, "message #" + std::to_string(next_) + " of size " + std::to_string(g.size) + " at byte " + std::to_string(at) + ": " + what + "\n" + Text());
      if (f_ == F15 && std::string(kind) == "payload-exceeded") x_.Fail(kind, "message #" + std::to_string(next_) + " of size " + std::to_string(g.size) + " at byte " + std::to_string(at) + ": " + what + "\n" + Text());
      return false;
    };
    uint64_t budget = 3000000, empties = 0;
    size_t backups = 0;
    for (;;) {
      if (!budget--) return bad("endless", "no end of message");
      if (mode == 3 && at < g.size && c_.P(1, 3)) {
        uint64_t n = std::min<uint64_t>(1 + c_.U(c_.P(1, 2) ? 8 : g.size), g.size - at);
        if (n > INT_MAX) n = INT_MAX;
        bool ok = s->Skip(int(n));
        if (!ok) return bad("skip-failed", "Skip(" + std::to_string(n) + ") returned false");
        at += n;
        x_.Count("skips")++;
        if (uint64_t(s->ByteCount()) != at) return bad("wrong-byte-count", "ByteCount() is " + std::to_string(s->ByteCount()));
        continue;
      }
      if (c_.P(1, 12) && in_->arrived < cut_) Arrive(in_->arrived + 1 + c_.U(30));  // data keeps arriving
      const void* d = nullptr;
      int n = -1;
      if (!s->Next(&d, &n)) break;
      if (n < 0) return bad("negative-size", std::to_string(n));
      if (n == 0) { if (++empties > 10000) return bad("endless", "only empty reads"); continue; }
      empties = 0;
      if (at + uint64_t(n) > g.size) return bad("payload-exceeded", "a read returned " + std::to_string(n) + " bytes");
      if (g.zeros) {
        const char* q = static_cast<const char*>(d);
        size_t k = std::min(n, 64);
        static const char z[64] = {};
        if (memcmp(q, z, k) || memcmp(q + n - k, z, k)) return bad("wrong-bytes", "zeros expected");
      } else if (memcmp(d, g.payload.data() + at, size_t(n)) != 0) {
        return bad("wrong-bytes", "got " + Show({static_cast<const char*>(d), size_t(n)}, 60) + " expected " + Show(g.payload.substr(at, size_t(n)), 60));
      }
      at += uint64_t(n);
      if (mode >= 1 && backups < 200 && c_.P(1, 3)) {
        int k = int(c_.P(1, 2) ? std::min<uint64_t>(uint64_t(n), c_.U(6)) : c_.U(uint64_t(n) + 1));
        s->BackUp(k);
        at -= uint64_t(k);
        ++backups;
        x_.Count("backups")++;
      }
      if (uint64_t(s->ByteCount()) != at) return bad("wrong-byte-count", "ByteCount() is " + std::to_string(s->ByteCount()));
    }
    if (at != g.size) return bad("payload-short", "the stream ended");
    if (c_.P(1, 4)) {  // the end is permanent
      const void* d;
      int n;
      if (s->Next(&d, &n)) return bad("payload-exceeded", "a read after the end returned " + std::to_string(n) + " bytes");
    }
    x_.Count("payload_bytes") += g.size;
    return true;
  }

  Facet f_;
  std::vector<Frame> fr_;
  Choices& c_;
  Ctx& x_;
  Content content_;
  std::vector<uint64_t> begin_, bounds_;
  uint64_t cut_;
  std::unique_ptr<SimInput> in_;
  std::unique_ptr<gt::MessageReader> reader_;
  Plan plan_;
  size_t next_ = 0;
  bool fin_ = false;
  std::string want_error_;
  std::string hist_;
  uint64_t sched_ = 0, npoll_ = 0;
};

Frame GenFrame(Choices& c, bool small) {
  Frame f;
  switch (c.U(small ? 8 : 12)) {
    case 0: f.size = 0; break;
    case 1: case 2: f.size = uint32_t(c.U(12)); break;
    case 8: {
      static const std::vector<uint32_t> k = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0x7ffffffeu, 0x80000001u, 0x01000000u, 0x00ffffffu, 0x00010000u, 0x01020304u, 0x04030201u, 0xff000000u, 0x00ff00ffu, 0x80ff7f01u, 0xf0000000u, 0x40000000u};
      f.size = c.P(1, 4) ? uint32_t(c.Raw(4)) : c.Pick(k);
      f.zeros = true;
      break;
    }
    case 9: f.size = uint32_t(c.Raw(1 + int(c.U(3)))); f.zeros = true; break;
    default: f.size = uint32_t(c.Size(small ? 3000 : 1100000)); break;
  }
  if (!f.zeros) {
    // payloads that look like headers, text, random
    switch (c.U(4)) {
      case 0: f.payload = std::string(f.size, char(c.U(256))); break;
      case 1: while (f.payload.size() < f.size) f.payload += Header(0, uint32_t(c.U(9))); f.payload.resize(f.size); break;
      default: f.payload = f.size > 4096 ? std::string(f.size, char(c.U(256))) : c.Bytes(f.size); break;
    }
    for (size_t k = 0; k < 16 && f.size; ++k) f.payload[c.U(f.size)] = char(c.U(256));
  }
  return f;
}
Plan GenPlan(Choices& c) {
  Plan p;
  p.style = int(c.U(5));
  p.k = c.P(1, 4) ? 1 + c.Size(20000) : 1 + c.U(9);
  if (c.P(1, 5)) p.empty = 2 + unsigned(c.U(6));
  return p;
}

void RunSim(Facet f, Choices& c, Ctx& x) {
  std::vector<Frame> fr;
  bool small = !c.P(1, 30);
  size_t n = c.P(1, 25) ? c.Size(400) : c.U(6);
  uint64_t real = 0;
  for (size_t i = 0; i < n; ++i) {
    fr.push_back(GenFrame(c, small || n > 40));
    if (!fr.back().zeros) real += fr.back().size;
    if (real > 3000000) break;
  }
  bool broken = f != F14 && c.P(2, 3);
  if (broken && !fr.empty() && c.P(1, 3)) {
    static const std::vector<int> flags = {1, 1, 1, 2, 3, 4, 5, 7, 8, 16, 32, 64, 127, 128, 129, 254, 255};
    fr[c.U(fr.size())].flag = (unsigned char)(c.P(1, 3) ? 1 + c.U(255) : c.Pick(flags));
  }
  uint64_t total = 0, cut = UINT64_MAX;
  std::vector<uint64_t> starts;
  for (auto& g : fr) { starts.push_back(total); total += 5 + uint64_t(g.size); }
  if (broken && total && c.P(2, 3)) {
    uint64_t s = c.Pick(starts);
    switch (c.U(4)) {
      case 0: cut = s + c.U(6); break;
      case 1: cut = total - std::min<uint64_t>(total, c.U(8)); break;
      case 2: cut = c.U(total + 1); break;
      default: cut = s + 5 + c.U(20); break;
    }
  }
  if (c.P(1, 12)) for (size_t i = c.U(3) + 1; i-- > 0;) { fr.push_back(GenFrame(c, true)); }
  if (cut == UINT64_MAX) { cut = 0; for (auto& g : fr) cut += 5 + uint64_t(g.size); }
  Sim s(f, fr, cut, GenPlan(c), c, x);
  int style = int(c.U(5));
  size_t polls_after = c.U(4), idle = 0;
  bool late_close = c.P(1, 2);
  for (size_t step = 0; step < 200000; ++step) {
    uint64_t a = s.arrived();
    if (a < s.cut()) {
      switch (style) {
        case 0: s.Arrive(s.cut()); break;
        case 1: s.Arrive(a + 1 + (s.cut() > 20000 ? c.U(s.cut() / 500) : 0)); break;
        case 2: s.Arrive(a + c.U(s.cut() > 20000 ? s.cut() / 100 : 12)); break;
        default: {
          auto it = std::upper_bound(s.bounds().begin(), s.bounds().end(), a);
          if (it == s.bounds().end()) s.Arrive(s.cut());
          else {
            if (c.P(1, 3) && it + 1 != s.bounds().end()) ++it;
            s.Arrive(*it);
          }
          break;
        }
      }
    } else if (!s.closed() && (!late_close || ++idle > 2)) {
      s.Close();
    }
    if (s.arrived() == s.cut() && !late_close && c.P(1, 2)) s.Close();
    for (size_t k = c.U(3); k-- > 0;) if (!s.Poll()) return;
    if (s.closed() && s.model_finished()) { if (polls_after-- == 0) break; if (!s.Poll()) return; }
    else if (s.model_finished()) { if (polls_after-- == 0) break; }
  }
  // Whatever is left must now come out.
  if (!s.model_finished()) {
    s.Arrive(s.cut());
    s.Close();
    for (size_t k = 0; k < fr.size() + 2 && !s.model_finished(); ++k) if (!s.Poll()) return;
  }
  if (fr.size() > 1 || cut) {
    x.Distinct(s.schedule_hash());
    if (fr.size() > 1 && x.WantSample()) x.Sample(s.Text());
  }
}
void RunC14(Choices& c, Ctx& x) { RunSim(F14, c, x); }
void RunC15(Choices& c, Ctx& x) { RunSim(F15, c, x); }
// An input that announces bytes and then fails to give them inside a header:
// the reader is finished, delivers nothing more and reads nothing more.
class FailingInput : public gt::TranscoderInputStream {
 public:
  FailingInput(std::string s, size_t chunk) : s_(std::move(s)), chunk_(chunk) {}
  size_t pos = 0, nexts = 0, failures = 0;
  bool Next(const void** d, int* n) override {
    ++nexts;
    if (pos == s_.size()) { ++failures; *n = 0; return false; }
    last_ = std::min(chunk_, s_.size() - pos);
    *d = s_.data() + pos;
    *n = int(last_);
    pos += last_;
    return true;
  }
  void BackUp(int n) override { if (n >= 0 && size_t(n) <= last_) { pos -= size_t(n); last_ -= size_t(n); } }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return int64_t(pos); }
  int64_t BytesAvailable() const override { return int64_t(s_.size() - pos) + 100; }
  bool Finished() const override { return false; }

 private:
  std::string s_;
  size_t chunk_, last_ = 0;
};
void FailInsideHeader(Choices& c, Ctx& x) {
  size_t n = c.U(4), part = c.U(5);
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    size_t k = c.U(30);
    s += std::string("\0\0\0\0", 4) + char(k) + std::string(k, char('a' + i));
  }
  s += std::string("\0\0\0\0", part);
  std::string ctx = Hex(s) + ", then the input fails";
  SetNote(ctx);
  FailingInput in(s, 1 + c.U(12));
  gt::MessageReader r(&in);
  for (size_t i = 0; i < n; ++i) {
    auto m = r.NextMessage();
    if (!m || r.Finished()) x.Fail("frame-lost", "frame " + std::to_string(i) + " of " + ctx);
    const void* d;
    int k;
    while (m->Next(&d, &k)) {}
  }
  size_t before = in.failures;
  for (int i = 0; i < 4; ++i) {
    if (r.NextMessage()) x.Fail("message-from-failed-input", ctx);
    if (!r.Finished()) x.Fail("not-finished-after-failed-input", ctx);
    if (in.failures > before + 1) x.Fail("read-after-end", ctx);
  }
  x.Count("failed_inputs")++;
  x.Distinct(HashBytes(ctx));
}
void RunC16(Choices& c, Ctx& x) {
  if (c.U(40) == 7) return FailInsideHeader(c, x);
  RunSim(F16, c, x);
}

// Every cut of small streams, every fixed chunk size, every arrival step and
// every pair of arrival points.
void EnumSim(Facet f, Ctx& x, unsigned shard, unsigned shards) {
  std::vector<std::vector<Frame>> streams;
  auto fr = [](std::initializer_list<std::pair<int, int>> l) {
    std::vector<Frame> o;
    for (auto& p : l) { Frame g; g.flag = (unsigned char)p.first; g.size = uint32_t(p.second); for (int i = 0; i < p.second; ++i) g.payload += char('A' + i + 3 * o.size()); o.push_back(g); }
    return o;
  };
  streams = {fr({}), fr({{0, 0}}), fr({{0, 1}}), fr({{0, 3}}), fr({{0, 0}, {0, 0}}), fr({{0, 2}, {0, 0}}), fr({{0, 0}, {0, 2}}), fr({{0, 2}, {0, 1}}), fr({{0, 1}, {0, 0}, {0, 1}}), fr({{0, 6}, {0, 5}})};
  if (f != F14) for (auto& s : {fr({{1, 0}}), fr({{0, 1}, {1, 1}}), fr({{255, 2}}), fr({{0, 0}, {128, 0}, {0, 1}}), fr({{0, 2}, {2, 300}})}) streams.push_back(s);
  size_t k = 0;
  for (auto& st : streams) {
    uint64_t total = 0;
    for (auto& g : st) total += 5 + g.size;
    for (uint64_t cut = f == F14 ? total : 0; cut <= total; ++cut)
      for (size_t chunk = 0; chunk <= 7; ++chunk)
        for (uint64_t a = 0; a <= std::min<uint64_t>(cut, 26); ++a)
          for (uint64_t b = a; b <= std::min<uint64_t>(cut, 26); ++b)
            for (int early = 0; early < 2; ++early) {
              if (k++ % shards != shard) continue;
              if (x.tier == 0 && total > 300) continue;
              Choices c(k);
              Plan p;
              p.style = chunk ? 1 : 0;
              p.k = chunk;
              Sim s(f, st, cut, p, c, x);
              x.evals_++;
              x.Count("enumerated")++;
              bool go = true;
              for (uint64_t to : {a, b, cut}) {
                if (!go) break;
                s.Arrive(to);
                if (to == cut && early) s.Close();
                for (size_t i = 0; go && i < st.size() + 2; ++i) go = s.Poll();
              }
              s.Close();
              for (size_t i = 0; go && i < st.size() + 3; ++i) go = s.Poll();
            }
  }
  // Every header byte on its own, every flag.
  if (shard == 0) {
    for (int byte = 0; byte < 5; ++byte)
      for (int v = 0; v < 256; ++v) {
        Frame g;
        uint32_t n = 0;
        if (byte == 0) g.flag = (unsigned char)v;
        else n = uint32_t(v) << (8 * (4 - byte));
        if (f == F14 && g.flag) continue;
        g.size = n;
        g.zeros = true;
        Frame g2;
        g2.size = 2; g2.payload = "ok";
        for (int trunc = 0; trunc < (f == F14 ? 1 : 3); ++trunc) {
          if (trunc && n == 0) continue;
          Choices c(uint64_t(v + 1));
          uint64_t cut = trunc == 0 ? uint64_t(n) + 12 : trunc == 1 ? 5 : 5 + uint64_t(n) - 1;
          Sim s(f, {g, g2}, cut, Plan{}, c, x);
          x.evals_++;
          x.Count("enumerated_headers")++;
          bool go = true;
          for (uint64_t to : {uint64_t(4), uint64_t(5), cut}) { s.Arrive(to); go = go && s.Poll(); }
          s.Close();
          for (int i = 0; go && i < 4; ++i) go = s.Poll();
        }
      }
  }
}
void EnumC14(Ctx& x, unsigned a, unsigned b) { EnumSim(F14, x, a, b); }
void EnumC15(Ctx& x, unsigned a, unsigned b) { EnumSim(F15, x, a, b); }
void EnumC16(Ctx& x, unsigned a, unsigned b) { EnumSim(F16, x, a, b); }

// ------------------------------------------------------------------ C17
class SimSource : public gt::MessageStream {
 public:
  std::vector<std::string> msgs;
  size_t next = 0, arrived = 0;
  bool closed = false, late_finish = false;
  uint64_t calls = 0;
  int fill = 0;
  bool NextMessage(std::string* m) override {
    ++calls;
    if (next >= arrived) return false;
    const std::string& s = msgs[next++];
    if (fill == 0) *m = s;
    else if (fill == 1) { std::string t = s; m->swap(t); }
    else { std::string t = s; *m = std::move(t); }
    return true;
  }
  bool Finished() const override { return closed && next >= msgs.size(); }
  absl::Status Status() const override { return absl::OkStatus(); }
};

void CheckStream(std::vector<std::string> msgs, Choices& c, Ctx& x) {
  SimSource src;
  src.msgs = std::move(msgs);
  src.fill = int(c.U(3));
  std::string all, hist;
  std::vector<size_t> ends;
  for (auto& m : src.msgs) { all += m; ends.push_back(all.size()); }
  auto in = src.CreateInputStream();
  auto text = [&] {
    std::string o = "messages";
    for (size_t i = 0; i < src.msgs.size() && i < 40; ++i) o += " " + std::to_string(src.msgs[i].size());
    return o + " history:" + (hist.size() > 1500 ? "..." + hist.substr(hist.size() - 1500) : hist);
  };
  size_t pos = 0;         // bytes handed out and not backed up
  // The message that pos lies in (skipping empty ones) and how much is left of it.
  auto remaining = [&]() -> size_t {
    size_t end_arrived = src.arrived ? ends[src.arrived - 1] : 0;
    if (pos >= end_arrived) return 0;
    size_t i = size_t(std::upper_bound(ends.begin(), ends.end(), pos) - ends.begin());
    return ends[i] - pos;
  };
  bool can_backup = false;
  int64_t consumed = 0;      // of the current message; -1: not judged
  bool read_any = false;
  size_t last = 0, cur_len = 0;
  uint64_t h = 0;
  int after_end = 0;
  for (size_t step = 0; step < 500 + 4 * src.msgs.size(); ++step) {
    if (step % 64 == 0) SetNote(text());
    unsigned op = unsigned(c.U(12));
    if (src.closed && src.next >= src.msgs.size() && pos == all.size() && ++after_end > 6) break;
    if (step > 100 + 2 * src.msgs.size() && src.arrived < src.msgs.size()) src.arrived = src.msgs.size();
    if (src.arrived == src.msgs.size() && step > 150) src.closed = true;
    h = Mix(h, op * 1000003 + pos);
    if (op < 3) {
      if (src.arrived < src.msgs.size()) { src.arrived += c.P(1, 3) ? std::min<size_t>(src.msgs.size() - src.arrived, c.U(4)) : 1; hist += " +" + std::to_string(src.arrived); }
      else if (!src.closed && c.P(1, 2)) { src.closed = true; hist += " close"; }
    } else if (op < 5) {
      size_t want = remaining();
      int64_t got = in->BytesAvailable();
      hist += " a" + std::to_string(got);
      if (read_any && consumed == int64_t(cur_len)) consumed = -1;
      can_backup = false;
      x.Count("availability_queries")++;
      if (got != int64_t(want)) x.Fail("wrong-availability", "BytesAvailable() is " + std::to_string(got) + ", the next read can return " + std::to_string(want) + " bytes\n" + text());
    } else if (op == 5) {
      bool f = in->Finished();
      hist += " f";
      if (f && !src.Finished()) x.Fail("finished-early", text());
      if (!f && src.Finished() && remaining() == 0) x.Fail("not-finished", text());
    } else if (op < 10) {
      size_t want = remaining();
      const void* d = nullptr;
      int n = -1;
      bool ok = in->Next(&d, &n);
      hist += " r" + std::to_string(n);
      x.Count("reads")++;
      if (want == 0) {
        x.Count("empty_reads")++;
        if (n != 0) x.Fail("wrong-read", "a read returned " + std::to_string(n) + " bytes where none are there\n" + text());
        if (!ok && !src.Finished()) x.Fail("ended-early", "Next() returned false although the source is not finished\n" + text());
        if (ok && src.Finished()) x.Fail("end-not-reported", "Next() returned true without data although the source is finished\n" + text());
        if (!ok) x.Count("ends")++;
        if (read_any) consumed = -1;
        can_backup = false;
      } else {
        if (!ok || n != int(want)) x.Fail("wrong-read", "a read returned " + std::to_string(ok) + " with " + std::to_string(n) + " bytes, " + std::to_string(want) + " remain of the message\n" + text());
        if (memcmp(d, all.data() + pos, want) != 0) x.Fail("wrong-bytes", "at byte " + std::to_string(pos) + " got " + Show({static_cast<const char*>(d), want}, 80) + " expected " + Show(all.substr(pos, want), 80) + "\n" + text());
        pos += want;
        last = want;
        size_t i = size_t(std::lower_bound(ends.begin(), ends.end(), pos) - ends.begin());
        cur_len = src.msgs[i].size();
        consumed = int64_t(cur_len);
        read_any = true;
        can_backup = true;
      }
    } else if (consumed > 0 && !can_backup && c.P(1, 2)) {
      // further back in the same message
      int64_t n = c.P(1, 2) ? consumed : 1 + int64_t(c.U(uint64_t(consumed)));
      in->BackUp(int(n));
      pos -= size_t(n);
      consumed -= n;
      hist += " bb" + std::to_string(n);
      x.Count("further_backups")++;
    } else if (consumed >= 0 && (!can_backup || c.P(1, 12))) {
      // right after a legal back-up or an empty read: more than what is left
      // of what was read of the current message has no effect
      int64_t n = consumed + 1 + int64_t(c.P(1, 4) ? c.U(1000000) : c.P(1, 2) ? last : c.U(4));
      in->BackUp(int(n));
      hist += " B!" + std::to_string(n);
      x.Count("ignored_backups")++;
      x.Count("repeated_backups")++;
      can_backup = false;
    } else if (can_backup) {
      if (c.P(1, 6)) {
        // more than the whole message, or nothing: ignored
        size_t i = size_t(std::lower_bound(ends.begin(), ends.end(), pos) - ends.begin());
        size_t mlen = src.msgs[i].size();
        int64_t n = c.P(1, 3) ? 0 : c.P(1, 2) ? -int64_t(1 + c.U(5)) : int64_t(mlen + 1 + c.U(c.P(1, 4) ? 1000000 : 4));
        in->BackUp(int(n));
        hist += " b!" + std::to_string(n);
        x.Count("ignored_backups")++;
      } else {
        size_t n = c.P(1, 3) ? last : 1 + c.U(last);
        in->BackUp(int(n));
        pos -= n;
        consumed -= int64_t(n);
        hist += " b" + std::to_string(n);
        x.Count("backups")++;
      }
      can_backup = false;
    }
  }
  if (src.msgs.size() > 1) { x.Distinct(h); if (x.WantSample()) x.Sample(text()); }
}
void RunC17(Choices& c, Ctx& x) {
  std::vector<std::string> m;
  size_t n = c.P(1, 30) ? c.Size(300) : c.U(6);
  if (c.P(1, 250)) n = 1000 + c.U(3000);
  for (size_t i = 0; i < n; ++i) {
    std::string s;
    if (!c.P(1, 4)) {
      size_t k = c.Size(n > 50 ? 40 : 200000);
      s = k > 2000 ? std::string(k, char('a' + i % 26)) : c.Bytes(k);
    } else if (n > 900) {
      for (size_t k = c.U(1500); k-- > 0 && m.size() < 5000;) m.emplace_back();
    }
    m.push_back(std::move(s));
  }
  CheckStream(std::move(m), c, x);
}

// ------------------------------------------------------------------ C30 (frames)
void HostileFrames(Choices& c, Ctx& x, bool count) {
  Content content;
  for (size_t i = c.U(6); i-- > 0;) {
    switch (c.U(5)) {
      case 0: content.Add(c.Bytes(c.Size(300))); break;
      case 1: content.Add(Header((unsigned char)(c.P(1, 4) ? c.U(256) : 0), uint32_t(c.P(1, 3) ? c.Raw(4) : c.U(30)))); break;
      case 2: content.AddZeros(c.Size(100000)); break;
      default: { std::string p = c.Bytes(c.U(40)); content.Add(Header(0, uint32_t(p.size())) + p); break; }
    }
  }
  Ctx quiet;
  SimInput in(content, GenPlan(c), c.Raw(8), quiet, nullptr);
  in.allow_any_backup = true;
  auto r = std::make_unique<gt::MessageReader>(&in);
  std::vector<std::unique_ptr<pbio::ZeroCopyInputStream>> kept;
  size_t got = 0;
  for (size_t i = c.U(30); i-- > 0;) {
    switch (c.U(6)) {
      case 0: in.arrived = std::min(content.total, in.arrived + c.U(c.P(1, 2) ? 8 : content.total + 1)); break;
      case 1: if (c.P(1, 4)) { in.arrived = content.total; in.closed = true; } break;
      default: {
        std::unique_ptr<pbio::ZeroCopyInputStream> s;
        if (c.P(1, 2)) { auto mf = r->NextMessageAndGrpcFrame(); s = std::move(mf.message); }
        else s = r->NextMessage();
        if (!s) break;
        ++got;
        if (c.P(1, 6)) break;  // dropped unread
        for (size_t k = c.U(8); k-- > 0;) {
          const void* d;
          int n = 0;
          if (!s->Next(&d, &n)) break;
          unsigned sum = 0;
          for (int b = 0; b < n && b < 4096; ++b) sum += static_cast<const unsigned char*>(d)[b];
          if (sum == 0xffffffffu) abort();
          if (n > 0 && c.P(1, 3)) s->BackUp(int(c.U(uint64_t(n) + 1)));
        }
        if (c.P(1, 2)) while (s->Skip(1000)) {}
      }
    }
    (void)r->Finished();
    (void)r->Status().ToString();
    if (c.P(1, 20)) r = std::make_unique<gt::MessageReader>(&in);
  }
  if (count) x.Count("messages") += got;
  // the message stream adapter, under any order of calls
  SimSource src;
  for (size_t i = c.U(6); i-- > 0;) src.msgs.push_back(c.P(1, 3) ? "" : c.Bytes(c.Size(5000)));
  src.fill = int(c.U(3));
  auto ms = src.CreateInputStream();
  for (size_t i = c.U(30); i-- > 0;) {
    const void* d;
    int n = 0;
    switch (c.U(7)) {
      case 0: src.arrived = std::min(src.msgs.size(), src.arrived + 1 + c.U(2)); break;
      case 1: src.closed = c.P(1, 2); break;
      case 2: ms->BackUp(c.P(1, 3) ? int(c.Raw(4)) : int(c.U(2000)) - 20); break;
      case 3: { int64_t a = ms->BytesAvailable(); if (a < 0 || a > 200000) x.Fail("bogus-availability", std::to_string(a)); break; }
      case 4: ms->Skip(int(c.U(10))); (void)ms->ByteCount(); (void)ms->Finished(); break;
      default: {
        bool ok = ms->Next(&d, &n);
        unsigned sum = 0;
        if (n < 0) x.Fail("negative-size", std::to_string(n));
        if (ok) for (int b = 0; b < n; ++b) sum += static_cast<const unsigned char*>(d)[b];
        if (sum == 0xffffffffu) abort();
        if (count) x.Count("adapter_reads")++;
      }
    }
  }
  if (c.P(1, 3)) {  // the adapter under the reader
    gt::MessageReader mr(ms.get());
    for (size_t i = c.U(12); i-- > 0;) {
      if (auto s = mr.NextMessage()) { const void* d; int n; while (s->Next(&d, &n) && n > 0) {} }
      src.arrived = std::min(src.msgs.size(), src.arrived + 1);
    }
  }
}
void RunC30(Choices& c, Ctx& x) {
  Choices again = c;
  size_t before = AllocatedBytes();
  HostileFrames(c, x, true);
  if (AllocatedBytes() != before) {
    size_t grown[3];
    for (auto& g : grown) {
      Choices k = again;
      size_t b = AllocatedBytes();
      HostileFrames(k, x, false);
      g = AllocatedBytes() - b;
    }
    if (grown[0] && grown[1] && grown[2]) x.Fail("leak", "allocated bytes grow by " + std::to_string(grown[2]) + " per repetition of the case although everything was destroyed");
  }
  x.Count("cases_balanced")++;
  Choices k = again;
  uint64_t h = 0;
  for (int i = 0; i < 8; ++i) h = Mix(h, k.Raw(8));
  x.Distinct(h);
  if (x.WantSample()) x.Sample("hostile frame/adapter sequence " + std::to_string(h) + ": no error, allocations balanced");
}
Register r14("C14", RunC14, EnumC14), r15("C15", RunC15, EnumC15), r16("C16", RunC16, EnumC16), r17("C17", RunC17), r30("C30", RunC30);
}  // namespace
}  // namespace vp
