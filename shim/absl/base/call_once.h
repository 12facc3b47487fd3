// Shim: once_flag as its sequential contract (the callable runs exactly once).
#ifndef VERIF_SHIM_CALL_ONCE_H_
#define VERIF_SHIM_CALL_ONCE_H_
#include <functional>
#include <utility>
#include "absl/base/internal/scheduling_mode.h"
#include "absl/base/port.h"
namespace absl {
class once_flag {
 public:
  constexpr once_flag() : done(0) {}
  unsigned char done;  // any value is valid
};
template <typename F, typename... A>
void call_once(absl::once_flag& f, F&& fn, A&&... a) {
  if (!f.done) { f.done = 1; std::invoke(std::forward<F>(fn), std::forward<A>(a)...); }
}
namespace base_internal {
template <typename F, typename... A>
void LowLevelCallOnce(absl::once_flag* f, F&& fn, A&&... a) {
  if (!f->done) { f->done = 1; std::invoke(std::forward<F>(fn), std::forward<A>(a)...); }
}
}
}
#endif
