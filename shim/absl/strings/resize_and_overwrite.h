#ifndef VERIF_SHIM_RESIZE_H_
#define VERIF_SHIM_RESIZE_H_
#include <string>
namespace absl {
template <typename T, typename Op>
void StringResizeAndOverwrite(T& s, typename T::size_type n, Op op) {
  s.resize(n);
  auto m = std::move(op)(&s[0], n);
  s.erase(static_cast<typename T::size_type>(m));
}
}
#endif
