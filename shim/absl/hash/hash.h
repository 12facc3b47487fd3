// Contract of absl::HashOf: a deterministic function of the hashed value.  The
// function itself is chosen by the harness (__v_hash).
#ifndef VERIF_SHIM_HASH_H_
#define VERIF_SHIM_HASH_H_
#include <stddef.h>
#include <stdint.h>
#include <type_traits>
#include "absl/types/span.h"
size_t __v_hash(const uint64_t* words, size_t n);
namespace absl {
template <typename T>
inline size_t HashOf(Span<T* const> s) {
  uint64_t w[4] = {1, 0, 0, 0};
  w[0] += s.size();
  for (size_t i = 0; i < s.size() && i < 3; i++) w[i + 1] = reinterpret_cast<uintptr_t>(s[i]);
  return __v_hash(w, 4);
}
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
inline size_t HashOf(T v) {
  uint64_t w[4] = {0, static_cast<uint64_t>(v), 0, 0};
  return __v_hash(w, 4);
}
}  // namespace absl
#endif
