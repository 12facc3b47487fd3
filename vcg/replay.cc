// Native implementation of the harness interface.
//   replay HARNESS values-file     : replays one counterexample
//   replay HARNESS --random SEED N : randomised bounded exploration
// Exit: 0 held, 42 contract assertion failed, 77 an assumption failed (replay).
#include <dlfcn.h>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>
#include <string>
#include <vector>
#include "v.h"
struct Item { char k; std::string name; std::string data; };
static std::vector<Item> items;
static size_t pos;
static bool random_mode;
static uint64_t rs;
static jmp_buf restart;
static std::vector<std::pair<void*, size_t>> maps;
static std::vector<void*> allocs;
static FILE* trace;
static std::map<std::string, uint64_t> ufs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static void fail(int code, const char* what) {
  fprintf(stderr, "%s\n", what);
  fflush(stderr);
  _exit(code);
}
static uint64_t rnd_val(int bits) {
  uint64_t v;
  switch (rnd() % 6) {
    case 0: v = rnd() % 4; break;
    case 1: v = rnd() % 600; break;
    case 2: v = 1ULL << (rnd() % 64); v += (rnd() % 3) - 1; break;
    case 3: v = ~0ULL - rnd() % 4; break;
    default: v = rnd() >> (rnd() % 64); break;
  }
  if (bits < 64) v &= (1ULL << bits) - 1;
  return v;
}
static void rec(const char* n, uint64_t v) { if (trace) { fprintf(trace, "i %s %llx\n", n, (unsigned long long)v); } }
static uint64_t nextint(const char* name, int bits) {
  if (random_mode) { uint64_t v = rnd_val(bits); rec(name, v); return v; }
  while (pos < items.size() && items[pos].k != 'i') pos++;
  if (pos >= items.size()) return 0;
  Item& it = items[pos++];
  if (it.name != name) fprintf(stderr, "note: replay order: wanted %s got %s\n", name, it.name.c_str());
  return strtoull(it.data.c_str(), nullptr, 16);
}
static void fill(void* p, size_t n, const char* name) {
  if (random_mode) {
    unsigned char* b = (unsigned char*)p;
    switch (rnd() % 4) {
      case 0: memset(p, 0, n); break;
      case 1: memset(p, 0xff, n); break;
      case 2: for (size_t i = 0; i < n; i++) b[i] = rnd(); break;
      default: for (size_t i = 0; i < n; i++) b[i] = rnd() % 5 ? 0 : rnd(); break;
    }
    if (trace) {
      fprintf(trace, "m %s ", name);
      for (size_t i = 0; i < n; i++) fprintf(trace, "%02x", b[i]);
      fprintf(trace, "\n");
    }
    return;
  }
  while (pos < items.size() && items[pos].k != 'm') pos++;
  if (pos >= items.size()) { memset(p, 0, n); return; }
  Item& it = items[pos++];
  if (it.name != name) fprintf(stderr, "note: replay order: wanted mem %s got %s\n", name, it.name.c_str());
  unsigned char* b = (unsigned char*)p;
  for (size_t i = 0; i < n; i++) {
    if (2 * i + 1 < it.data.size()) {
      auto hx = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
      b[i] = hx(it.data[2 * i]) * 16 + hx(it.data[2 * i + 1]);
    } else {
      b[i] = 0;
    }
  }
}
extern "C" {
bool __v_any1(const char* n) { return nextint(n, 1) & 1; }
uint8_t __v_any8(const char* n) { return nextint(n, 8); }
uint16_t __v_any16(const char* n) { return nextint(n, 16); }
uint32_t __v_any32(const char* n) { return nextint(n, 32); }
uint64_t __v_any64(const char* n) { return nextint(n, 64); }
uint64_t __v_range(const char* n, uint64_t lo, uint64_t hi) {
  if (random_mode) {
    uint64_t w = hi - lo + 1;
    uint64_t v = w == 0 ? rnd_val(64) : lo + (rnd() % 5 == 0 ? (rnd() % 2 ? 0 : w - 1) : rnd() % w);
    rec(n, v);
    return v;
  }
  return nextint(n, 64);
}
uint64_t __v_uf(const char* n, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  char key[256];
  snprintf(key, sizeof(key), "%s %llx %llx %llx %llx", n, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c, (unsigned long long)d);
  auto it = ufs.find(key);
  if (it != ufs.end()) return it->second;
  uint64_t v = 0;
  if (random_mode) {
    v = rnd_val(64);
    if (trace) fprintf(trace, "u %s %llx\n", key, (unsigned long long)v);
  }
  return ufs[key] = v;
}
void __v_assume(bool c) {
  if (c) return;
  if (random_mode) longjmp(restart, 1);
  fail(77, "ASSUMPTION-FAILED");
}
void __v_assert(bool c, const char* n) {
  if (c) return;
  if (trace) fflush(trace);
  std::string s = std::string("CONTRACT-FAILED ") + n;
  fail(42, s.c_str());
}
void __v_cover(bool, const char*) {}
void __v_inv(bool) {}
void __v_havoc(void* p, size_t n, const char* name) { fill(p, n, name); }
void* __v_arr(size_t es, size_t n, const char* name) {
  size_t bytes = es * n;
  void* p = aligned_alloc(64, (bytes + 127) / 64 * 64);
  allocs.push_back(p);
  fill(p, bytes, name);
  return p;
}
void* __v_region(uintptr_t a, size_t bytes, size_t, const char* name) {
  uintptr_t lo = a & ~4095UL, hi = (a + bytes + 4095) & ~4095UL;
  void* p = mmap((void*)lo, hi - lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)lo) {
    if (random_mode) longjmp(restart, 1);
    fail(78, "REGION-UNAVAILABLE");
  }
  maps.push_back({p, hi - lo});
  fill((void*)a, bytes, name);
  return (void*)a;
}
bool __v_symbolic() { return false; }
bool __v_assuming() { return true; }
uint64_t __v_split(uint64_t x, uint64_t) { return x; }
bool __v_possible(bool c) { return c; }
void __v_stop() { if (random_mode) longjmp(restart, 1); _exit(0); }
void* __v_malloc(size_t n) { void* p = aligned_alloc(64, (n + 127) / 64 * 64); allocs.push_back(p); return p; }
}
int main(int argc, char** argv) {
  std::string fn = std::string("h_") + argv[1];
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, fn.c_str());
  if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  if (!strcmp(argv[2], "--random")) {
    random_mode = true;
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    long n = atol(argv[4]);
    const char* tf = argc > 5 ? argv[5] : nullptr;
    volatile long ran = 0;
    volatile long tries = 0;
    for (volatile long i = 0; i < n; i++) {
      rs = (seed + 1) * 0x9E3779B97F4A7C15ULL + i * 0xD1342543DE82EF95ULL + 1;
      if (!rs) rs = 1;
      for (int k = 0; k < 4; k++) rnd();
      if (tf) { if (trace) fclose(trace); trace = fopen(tf, "w"); }
      tries = tries + 1;
      if (!setjmp(restart)) { h(); ran = ran + 1; }
      for (auto& m : maps) munmap(m.first, m.second);
      maps.clear();
      ufs.clear();
      for (void* p : allocs) free(p);
      allocs.clear();
    }
    printf("random tries=%ld ran=%ld\n", (long)tries, (long)ran);
    return 0;
  }
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  char* line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    if (line[0] == 'u' && line[1] == ' ') {
      std::string s(line + 2);
      while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
      size_t sp = s.rfind(' ');
      ufs[s.substr(0, sp)] = strtoull(s.c_str() + sp + 1, nullptr, 16);
      continue;
    }
    if ((line[0] != 'i' && line[0] != 'm') || line[1] != ' ') continue;
    std::string s(line + 2);
    while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
    size_t sp = s.rfind(' ');
    Item it;
    it.k = line[0];
    it.name = s.substr(0, sp == std::string::npos ? s.size() : sp);
    it.data = sp == std::string::npos ? "" : s.substr(sp + 1);
    items.push_back(it);
  }
  h();
  return 0;
}
