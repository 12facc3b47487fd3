// Shim: a spin lock as its sequential contract.  Acquiring needs the lock to
// be free (otherwise: self-deadlock), releasing needs it held.
#ifndef VERIF_SHIM_SPINLOCK_H_
#define VERIF_SHIM_SPINLOCK_H_
#include <atomic>
#include <stdint.h>
#include <sys/types.h>
#include "absl/base/attributes.h"
#include "absl/base/const_init.h"
#include "absl/base/dynamic_annotations.h"
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/internal/low_level_scheduling.h"
#include "absl/base/internal/raw_logging.h"
#include "absl/base/internal/tsan_mutex_interface.h"
#include "absl/base/macros.h"
#include "absl/base/port.h"
#include "absl/base/thread_annotations.h"
extern "C" void __v_lock_error(const char* what);
namespace absl {
namespace base_internal {
class ABSL_LOCKABLE SpinLock {
 public:
  constexpr SpinLock() : held_(false) {}
  explicit constexpr SpinLock(SchedulingMode) : held_(false) {}
  constexpr SpinLock(absl::ConstInitType, SchedulingMode) : held_(false) {}
  SpinLock(const SpinLock&) = delete;
  SpinLock& operator=(const SpinLock&) = delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() {
    if (held_) __v_lock_error("spin lock acquired while already held");
    held_ = true;
  }
  bool TryLock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) {
    if (held_) return false;
    held_ = true;
    return true;
  }
  void Unlock() ABSL_UNLOCK_FUNCTION() {
    if (!held_) __v_lock_error("spin lock released while not held");
    held_ = false;
  }
  void lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { Lock(); }
  bool try_lock() ABSL_EXCLUSIVE_TRYLOCK_FUNCTION(true) { return TryLock(); }
  void unlock() ABSL_UNLOCK_FUNCTION() { Unlock(); }
  bool IsCooperative() const { return false; }
  bool IsHeld() const { return held_; }
  void AssertHeld() const ABSL_ASSERT_EXCLUSIVE_LOCK() {
    if (!held_) __v_lock_error("spin lock required but not held");
  }
 private:
  bool held_;
};
class ABSL_SCOPED_LOCKABLE SpinLockHolder {
 public:
  explicit SpinLockHolder(SpinLock* l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : l_(l) { l_->Lock(); }
  explicit SpinLockHolder(SpinLock& l) ABSL_EXCLUSIVE_LOCK_FUNCTION(l) : l_(&l) { l_->Lock(); }
  ~SpinLockHolder() ABSL_UNLOCK_FUNCTION() { l_->Unlock(); }
  SpinLockHolder(const SpinLockHolder&) = delete;
  SpinLockHolder& operator=(const SpinLockHolder&) = delete;
 private:
  SpinLock* l_;
};
}  // namespace base_internal
}  // namespace absl
#endif
