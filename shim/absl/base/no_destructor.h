#ifndef VERIF_SHIM_NO_DESTRUCTOR_H_
#define VERIF_SHIM_NO_DESTRUCTOR_H_
#include <new>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... A>
  explicit NoDestructor(A&&... a) { new (b_) T(std::forward<A>(a)...); }
  T& operator*() { return *reinterpret_cast<T*>(b_); }
  T* operator->() { return reinterpret_cast<T*>(b_); }
  T* get() { return reinterpret_cast<T*>(b_); }
 private:
  alignas(T) unsigned char b_[sizeof(T)];
};
}
#endif
