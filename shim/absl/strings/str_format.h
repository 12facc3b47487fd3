// Shim: formatting is an interface without behaviour of interest.  SNPrintF's
// contract (used by Printer) is: writes at most n bytes, NUL-terminated,
// returns the would-be length.  Everything else discards its arguments.
#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
#include <stddef.h>
#include <stdio.h>
#include <string>
#include "absl/strings/string_view.h"
extern "C" int __v_snprintf(char* buf, size_t n);
namespace absl {
template <typename... Args>
struct FormatSpecT {
  const char* f;
  constexpr FormatSpecT(const char* s) : f(s) {}  // NOLINT
};
namespace vshim { template <typename... A> struct Id { using type = FormatSpecT<A...>; }; }
template <typename... Args>
using FormatSpec = typename vshim::Id<Args...>::type;
using UntypedFormatSpec = FormatSpecT<>;
template <typename... A>
inline int SNPrintF(char* b, size_t n, const char*, const A&...) { return __v_snprintf(b, n); }
template <typename S, typename... A>
inline int SNPrintF(char* b, size_t n, const S&, const A&...) { return __v_snprintf(b, n); }
template <typename Sink, typename... A>
inline bool Format(Sink*, const char*, const A&...) { return true; }
template <typename... A>
inline std::string StrFormat(const char*, const A&...) { return std::string(); }
template <typename... A>
inline std::string& StrAppendFormat(std::string* s, const char*, const A&...) { return *s; }
template <typename... A>
inline int FPrintF(FILE*, const char*, const A&...) { return 0; }
template <typename... A>
inline int PrintF(const char*, const A&...) { return 0; }
}
#endif
