#pragma once
#include <stdint.h>
namespace vp {
struct Meter {
  bool on = false;
  uint64_t work = 0, limit = ~0ull, allocs = 0, alloc_bytes = 0;
  void (*over)() = nullptr;
  uint64_t live = 0;  // bytes held by operator new, whether on or not
};
extern Meter meter;
}  // namespace vp
