//@ property: C22
//@ variant: inv:-DV_INV
//@ opt: parse.* inv=1 solve_budget=400 inc_timeout=20
//@ opt: possible unroll=2100
//@ opt: random native=20000
//@ stub: _ZN4absl7debian316numbers_internal17safe_strto32_baseENS0_11string_viewEPii stub_atoi
//@ stub: _ZNK4absl7debian311string_view4findEcm stub_find
//@ keep: stub_atoi stub_find
//@ assume: absl::SimpleAtoi is an arbitrary function of the text given to it (dependency contract; natively the real one runs)
//@ assume: read() stores at most the bytes asked for and returns 0 only at the end of the text (or when asked for none)
// C22: ParseCpulist, for texts of any length.
#include "v.h"
#include "tcmalloc/internal/sysinfo.h"
#include "tcmalloc/internal/sysinfo.cc"
#include "tcmalloc_invariants.h"
using namespace tcmalloc::tcmalloc_internal;
using namespace vinv;

extern "C" __attribute__((noinline, used)) bool stub_atoi(absl::string_view text, int* value, int base) {
  V_ASSERT(base == 10, "numbers are decimal");
  V_ASSERT(text.size() < kClWindow && text.size() <= cl_len - cl_start, "an entry is parsed");
  for (size_t i = 0; i < kClWindow; i++)
    if (i < text.size()) V_ASSERT(text[i] == cl_text(cl_start + i), "the text of the entry is parsed");
  return cl_atoi(cl_start, text.size(), value);
}
// The first position of c.
extern "C" __attribute__((noinline, used)) size_t stub_find(const absl::string_view* s, char c, size_t pos) {
  V_ASSERT(pos == 0 && s->size() <= kClWindow, "the text read is searched");
  size_t r = absl::string_view::npos;
  for (size_t i = kClWindow; i-- > 0;)
    if (i < s->size() && (*s)[i] == c) r = i;
  return r;
}
static ssize_t contract_read(char* buf, size_t count) {
  V_ASSERT(count <= kClWindow, "the buffer is this large");
  V_ASSUME(count == kClWindow - cl_carry);
  if (v::any_bool("fail")) {
    cl_failed = 1;
    return -1;
  }
  size_t n = 0;
  if (count != 0 && cl_pos != cl_len) {
    n = v::range("read", 1, kClWindow);
    V_ASSUME(n <= count && n <= cl_len - cl_pos);
  }
  for (size_t i = 0; i < kClWindow - cl_carry; i++)
    if (i < n) buf[i] = cl_text(cl_pos + i);
  cl_pos += n;
  return n;
}
#ifndef V_NATIVE
static void parse(size_t carry) {
  cl_carry = carry;
  cl_len = v::range("length", 0, uint64_t{1} << 62);
  cl_cpu = v::range("cpu", 0, kMaxCpus - 1);
  cl_pos = 0;
  cl_failed = 0;
  cl_result = v::range("denotes", 0, 2);
  V_ASSUME(cl_result == cl_den(-1, 0) && cl_den(-1, cl_len) == 0);
  std::optional<CpuSet> r = ParseCpulist(contract_read);
  if (cl_failed) {
    V_ASSERT(!r.has_value(), "failing to read fails");
  } else {
    V_ASSERT(r.has_value() == (cl_result != 2), "malformed lists are rejected, others are not");
    if (r.has_value()) V_ASSERT(r->IsSet(cl_cpu) == (cl_result == 1), "the CPUs listed are in the set");
  }
}
#define PARSE(c) V_HARNESS(parse_##c) { parse(c); }
PARSE(0)
PARSE(1)
PARSE(2)
PARSE(3)
PARSE(4)
PARSE(5)
PARSE(6)
PARSE(7)
PARSE(8)
PARSE(9)
PARSE(10)
PARSE(11)
PARSE(12)
PARSE(13)
PARSE(14)
PARSE(15)
PARSE(16)
#endif
// Bounded: random lists, split at random, against an oracle of its own.
V_HARNESS(random) {
#ifdef V_NATIVE
  std::string text;
  size_t entries = v::range("entries", 0, 6);
  for (size_t i = 0; i < entries; i++) {
    if (i) text += ',';
    int a = v::range("a", 0, 40) == 0 ? v::range("big", 2040, 2060) : v::range("small", 0, 70), b = a + static_cast<int>(v::range("b", 0, 20)) - 1;
    text += std::to_string(a);
    if (v::any_bool("range")) text += "-" + std::to_string(b);
  }
  if (v::any_bool("newline")) text += "\n";
  for (size_t i = v::range("mutations", 0, 8) / 6; i > 0 && !text.empty(); i--) text[v::range("at", 0, text.size() - 1)] = ",-\n 0159x"[v::range("char", 0, 8)];
  // The oracle.
  bool ok = true, in[kMaxCpus] = {};
  std::string rest = text;
  if (!rest.empty() && rest.back() == '\n') rest.pop_back();
  std::string list = rest + ",";
  for (size_t p = 0; !rest.empty() && p < list.size();) {
    size_t e = list.find(',', p), d = list.find('-', p);
    std::string one = list.substr(p, e - p);
    bool last = e + 1 >= list.size();
    p = e + 1;
    if (last && one.empty()) break;
    int a, b;
    if (d < e) {
      size_t k = one.find('-');
      ok = ok && absl::SimpleAtoi(one.substr(0, k), &a) && absl::SimpleAtoi(one.substr(k + 1), &b) && one.find('-', k + 1) == one.npos;
    } else {
      ok = ok && absl::SimpleAtoi(one, &a);
      b = a;
    }
    ok = ok && 0 <= a && a <= b && b < kMaxCpus;
    for (int c = a; ok && c <= b; c++) in[c] = true;
  }
  size_t at = 0, fail = v::range("fail", 0, 60);
  bool failed = false;
  std::optional<CpuSet> r = ParseCpulist([&](char* buf, size_t count) -> ssize_t {
    if (fail-- == 0) {
      failed = true;
      return -1;
    }
    size_t n = std::min<size_t>({count, text.size() - at, static_cast<size_t>(v::range("read", 1, 16))});
    memcpy(buf, text.data() + at, n);
    at += n;
    return n;
  });
  if (failed) {
    V_ASSERT(!r.has_value(), "failing to read fails");
    return;
  }
  V_ASSERT(r.has_value() == ok, "malformed lists are rejected, others are not");
  for (int c = 0; ok && c < kMaxCpus; c++) V_ASSERT(r->IsSet(c) == in[c], "the CPUs listed are in the set");
#endif
}
