// An input stream that is given its bytes in pieces.
#pragma once
#include <deque>
#include <string>

#include "grpc_transcoding/transcoder_input_stream.h"

namespace vp {
class Pieces : public google::grpc::transcoding::TranscoderInputStream {
 public:
  bool closed = false;
  uint64_t nexts = 0;
  void Give(const std::string& s) { if (!s.empty()) { avail_ += s.size(); q_.push_back(s); } }
  bool Next(const void** d, int* n) override {
    ++nexts;
    while (!q_.empty() && at_ == q_.front().size()) { q_.pop_front(); at_ = 0; }
    if (q_.empty()) { *d = nullptr; *n = 0; return !closed; }
    *d = q_.front().data() + at_;
    *n = int(q_.front().size() - at_);
    at_ = q_.front().size();
    avail_ -= size_t(*n);
    return true;
  }
  void BackUp(int n) override { at_ -= size_t(n); avail_ += size_t(n); }
  bool Skip(int n) override {
    while (n > 0) {
      const void* d; int m;
      if (!Next(&d, &m) || m == 0) return false;
      if (m > n) { BackUp(m - n); m = n; }
      n -= m;
    }
    return true;
  }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { return int64_t(avail_); }
  bool Finished() const override { return closed; }

 private:
  std::deque<std::string> q_;
  size_t at_ = 0, avail_ = 0;
};
}  // namespace vp
