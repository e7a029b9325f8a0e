// absl::Mutex is not instrumented: tell ThreadSanitizer what its calls order.
// (Linked with --wrap for these symbols.)
#include "absl/synchronization/mutex.h"

// Its deadlock detector has a lock of its own that TSan cannot see.
namespace {
[[maybe_unused]] const bool g_no_detector = (absl::SetMutexDeadlockDetectionMode(absl::OnDeadlockCycle::kIgnore), true);
}
extern "C" {
void __tsan_acquire(void*);
void __tsan_release(void*);
#define P _ZN4absl7debian35Mutex
#define CAT2(a, b, c) a##b##c
#define CAT(a, b, c) CAT2(a, b, c)
#define LOCK(f) \
  void CAT(__real_, _ZN4absl7debian35Mutex, f)(void*); \
  void CAT(__wrap_, _ZN4absl7debian35Mutex, f)(void* m) { CAT(__real_, _ZN4absl7debian35Mutex, f)(m); __tsan_acquire(m); }
#define TRY(f) \
  bool CAT(__real_, _ZN4absl7debian35Mutex, f)(void*); \
  bool CAT(__wrap_, _ZN4absl7debian35Mutex, f)(void* m) { bool r = CAT(__real_, _ZN4absl7debian35Mutex, f)(m); if (r) __tsan_acquire(m); return r; }
#define UNLOCK(f) \
  void CAT(__real_, _ZN4absl7debian35Mutex, f)(void*); \
  void CAT(__wrap_, _ZN4absl7debian35Mutex, f)(void* m) { __tsan_release(m); CAT(__real_, _ZN4absl7debian35Mutex, f)(m); }
LOCK(4LockEv)
LOCK(10ReaderLockEv)
TRY(7TryLockEv)
TRY(13ReaderTryLockEv)
UNLOCK(6UnlockEv)
UNLOCK(12ReaderUnlockEv)
}
