#ifndef VERIF_SHIM_CHECK_H_
#define VERIF_SHIM_CHECK_H_
#include <stdlib.h>
struct VShimNullStream { template <typename T> VShimNullStream& operator<<(const T&) { return *this; } };
#define VSHIM_CHECK(c) while (!(c)) abort(), VShimNullStream()
#define CHECK(c) VSHIM_CHECK(c)
#define CHECK_EQ(a, b) VSHIM_CHECK((a) == (b))
#define CHECK_NE(a, b) VSHIM_CHECK((a) != (b))
#define CHECK_LT(a, b) VSHIM_CHECK((a) < (b))
#define CHECK_LE(a, b) VSHIM_CHECK((a) <= (b))
#define CHECK_GT(a, b) VSHIM_CHECK((a) > (b))
#define CHECK_GE(a, b) VSHIM_CHECK((a) >= (b))
#define ABSL_CHECK CHECK
#define ABSL_CHECK_EQ CHECK_EQ
#define ABSL_CHECK_GE CHECK_GE
#endif
