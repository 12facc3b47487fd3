//@ property: C21
//@ level: other
//@ repo: tcmalloc/internal/environment.cc
//@ assume: environments of at most 6 entries of at most 12 bytes, names of at most 6 bytes, and one name of 300 bytes (bounded; every content)
// C21: thread_safe_getenv against the definition over the environment.
#include "v.h"
#include "tcmalloc/internal/environment.h"
extern "C" char** environ;

#if V_THOROUGH
static constexpr int E = 10, L = 24, M = 12;
#else
static constexpr int E = 6, L = 12, M = 6;
#endif
namespace {
struct Str {
  char* s;
  int len;
};
// A string of length len (<= max) in an object that ends with its terminator.
inline Str any_string(int max, const char* nm, int exact = -1) {
  Str r;
  int len = exact >= 0 ? exact : static_cast<int>(v::range("len", 0, max));
  r.len = len;
  r.s = static_cast<char*>(__v_malloc(max + 1));
  for (int i = 0; i <= max; i++) {
    char c = static_cast<char>(v::range(nm, 1, 255));
    r.s[i] = i < len ? c : '\0';
  }
  return r;
}
}  // namespace
template <int NE, int NL> static inline void lookup() {
  Str e[E];
  char* env[E + 1];
  char** saved = environ;
  for (int i = 0; i <= E; i++) env[i] = nullptr;
  for (int i = 0; i < NE; i++) {
    e[i] = any_string(L, "entry");
    env[i] = e[i].s;
  }
  Str n = any_string(NL, "name", NL);
  environ = env;
  const char* got = tcmalloc::tcmalloc_internal::thread_safe_getenv(n.s);
  environ = saved;
  const char* want = nullptr;
  for (int i = NE - 1; i >= 0; i--) {
    bool m = e[i].len > NL;
    for (int j = 0; j < NL; j++) m = m & (e[i].s[j] == n.s[j]);
    if (NL <= L) m = m & (e[i].s[NL] == '=');
    else m = false;
    want = m ? e[i].s + NL + 1 : want;
  }
  V_ASSERT(got == want, "the value of the first entry whose name equals it entirely, or nothing");
  for (int i = 0; i <= E; i++) V_ASSERT(env[i] == (i < NE ? e[i].s : nullptr), "the environment is not modified");
  if (NL <= L - 1 && NE > 0) V_COVER(want != nullptr, "found");
}
V_HARNESS(none) {
  Str n = any_string(M, "name");
  char** saved = environ;
  environ = nullptr;
  const char* got = tcmalloc::tcmalloc_internal::thread_safe_getenv(n.s);
  environ = saved;
  V_ASSERT(got == nullptr, "no environment: nothing");
}
V_HARNESS(empty) { lookup<0, 1>(); }
V_HARNESS(one_0) { lookup<1, 0>(); }
V_HARNESS(one_3) { lookup<1, 3>(); }
V_HARNESS(two_1) { lookup<2, 1>(); }
V_HARNESS(two_2) { lookup<2, 2>(); }
V_HARNESS(max_1) { lookup<E, 1>(); }
V_HARNESS(max_2) { lookup<E, 2>(); }
V_HARNESS(max_3) { lookup<E, 3>(); }
V_HARNESS(max_6) { lookup<E, 6>(); }
V_HARNESS(longer) { lookup<2, L + 1>(); }
// Names and entries of the same content: an entry shorter than the name, equal
// to it without '=', or extending it never matches; only bytes inside the
// objects (which end with the terminator) are read.
V_HARNESS(exact_end) {
  int max = 4;
  Str n = any_string(max, "name");
  char* s = static_cast<char*>(__v_malloc(1));
  s[0] = 0;
  char* env[2] = {s, nullptr};
  char** saved = environ;
  environ = env;
  const char* got = tcmalloc::tcmalloc_internal::thread_safe_getenv(n.s);
  environ = saved;
  V_ASSERT(got == nullptr, "an empty entry matches nothing");
}
V_HARNESS(tight_entry) {
  // An entry of exactly k bytes in an object of k + 1 bytes.
  Str n = any_string(3, "name");
  char* s = static_cast<char*>(__v_malloc(3));
  s[0] = static_cast<char>(v::range("c", 1, 255)), s[1] = static_cast<char>(v::range("c", 1, 255)), s[2] = 0;
  char* env[2] = {s, nullptr};
  char** saved = environ;
  environ = env;
  const char* got = tcmalloc::tcmalloc_internal::thread_safe_getenv(n.s);
  environ = saved;
  bool want = (n.len == 1 && s[0] == n.s[0] && s[1] == '=') || (n.len == 0 && s[0] == '=');
  V_ASSERT(got == (want ? s + n.len + 1 : nullptr), "matches only by the whole name");
}
// A long name: the length is not truncated.
V_HARNESS(long_name) {
  constexpr int K = 300;
  char* n = static_cast<char*>(__v_malloc(K + 1));
  char* s = static_cast<char*>(__v_malloc(K + 3));
  for (int i = 0; i < K; i++) n[i] = s[i] = 'a' + i % 26;
  n[K] = 0;
  unsigned at = v::range("at", 0, K - 1);
  bool differ = v::any_bool("differ");
  for (unsigned i = 0; i < K; i++) s[i] = i == at && differ ? '#' : s[i];
  s[K] = static_cast<char>(v::range("eq", 1, 255)), s[K + 1] = 'v', s[K + 2] = 0;
  char* env[2] = {s, nullptr};
  char** saved = environ;
  environ = env;
  const char* got = tcmalloc::tcmalloc_internal::thread_safe_getenv(n);
  environ = saved;
  V_ASSERT(got == (!differ && s[K] == '=' ? s + K + 1 : nullptr), "long names are compared entirely");
}
