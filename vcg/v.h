// Contract harness interface.  Under the verifier every __v_* function is an
// intrinsic; natively (replay, randomised fallback) replay.cc implements them.
#ifndef VERIF_V_H_
#define VERIF_V_H_
#include <stddef.h>
#include <stdint.h>
#include <new>
#include <type_traits>

extern "C" {
bool __v_any1(const char* name);
uint8_t __v_any8(const char* name);
uint16_t __v_any16(const char* name);
uint32_t __v_any32(const char* name);
uint64_t __v_any64(const char* name);
// Arbitrary value in [lo, hi].
uint64_t __v_range(const char* name, uint64_t lo, uint64_t hi);
// An arbitrary function of its arguments (the same one at every call).
uint64_t __v_uf(const char* name, uint64_t a, uint64_t b, uint64_t c, uint64_t d);
void __v_assume(bool c);
void __v_assert(bool c, const char* name);
// The condition must be satisfiable here (guards against vacuity).
void __v_cover(bool c, const char* name);
// Arbitrary bytes.
void __v_havoc(void* p, size_t n, const char* name);
// Fresh array of n elements with arbitrary contents.
void* __v_arr(size_t elem, size_t n, const char* name);
// Memory at a given address, arbitrary contents.
void* __v_region(uintptr_t addr, size_t bytes, size_t elem, const char* name);
bool __v_symbolic();
bool __v_possible(bool c);
void __v_stop();
// x; in an iteration whose invariant is assumed, one with x == k (case split:
// the other cases are other harnesses).
bool __v_assuming();  // an invariant is being assumed
uint64_t __v_split(uint64_t x, uint64_t k);
void* __v_malloc(size_t n);
// Loop invariant; see TCMALLOC_LOOP_INVARIANT.
void __v_inv(bool c) __attribute__((noduplicate));
}

#define V_HARNESS(n) extern "C" __attribute__((noinline, used)) void h_##n()
#define V_ASSUME(c) __v_assume(static_cast<bool>(c))
#define V_ASSERT(c, n) __v_assert(static_cast<bool>(c), n)
#define V_COVER(c, n) __v_cover(static_cast<bool>(c), n)
// A stand-in body used for callee `target` (mangled name) inside this file:
// "the callee's contract instead of its body".
#define V_STUB_FOR(mangled) __attribute__((noinline, used, annotate("stub:" mangled)))

namespace v {
inline bool any_bool(const char* n) { return __v_any1(n); }
template <typename T>
inline T any(const char* n) {
  if constexpr (std::is_same_v<T, bool>) return __v_any1(n);
  else if constexpr (sizeof(T) == 1) return static_cast<T>(__v_any8(n));
  else if constexpr (sizeof(T) == 2) return static_cast<T>(__v_any16(n));
  else if constexpr (sizeof(T) == 4) return static_cast<T>(__v_any32(n));
  else return static_cast<T>(__v_any64(n));
}
inline uint64_t range(const char* n, uint64_t lo, uint64_t hi) { return __v_range(n, lo, hi); }
// Uninitialised storage for a T holding arbitrary bytes (no constructor runs).
template <typename T>
struct Raw {
  alignas(T) unsigned char b[sizeof(T)];
  T* get() { return reinterpret_cast<T*>(b); }
  T* operator->() { return get(); }
  T& operator*() { return *get(); }
};
}  // namespace v
// Typed storage whose fields the verifier can see (a union member is not
// constructed, so the object starts out uninitialised = arbitrary).
template <typename T>
union VObj {
  char c_;
  T v;
  VObj() {}
  ~VObj() {}
  T* operator->() { return &v; }
  T& operator*() { return v; }
  void havoc(const char* n) { __v_havoc(static_cast<void*>(&v), sizeof(T), n); }
};
#endif
