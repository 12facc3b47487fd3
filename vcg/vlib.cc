// C library stand-ins executed by the verifier (plain loops over bytes).
#include <stddef.h>
#include <stdint.h>
extern "C" {
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    if (!a[i]) return 0;
  }
  return 0;
}
const char* strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; }
}
void* memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
int __cxa_guard_acquire(uint64_t* g) { return *(char*)g == 0; }
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; }
}
