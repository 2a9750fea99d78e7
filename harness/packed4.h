#ifndef TVC_PACKED4_H_
#define TVC_PACKED4_H_
#include "packed.h"
// elements of the packed quartic extension: coefficient-major arrays of lanes
namespace tvc {
template <class P4, class P> P4 ld4(const void* p) { P4 r; for (int j = 0; j < 4; ++j) r[j] = ld<P>((const char*)p + j * sizeof(P)); return r; }
template <class P4, class P> void st4(void* p, const P4& v) { for (int j = 0; j < 4; ++j) st<P>((char*)p + j * sizeof(P), v[j]); }
}
#define PK4_(NAME, P4, P, EXPR) TVCF x_##NAME(const void* pa, const void* pb, void* r) { P4 a = tvc::ld4<P4, P>(pa), b = tvc::ld4<P4, P>(pb); tvc::st4<P4, P>(r, EXPR); return 0; }
#define PK4(P4, P, F4, F)                                                                                         \
  PK4_(add, P4, P, a + b) PK4_(addi, P4, P, a += b) PK4_(sub, P4, P, a - b) PK4_(subi, P4, P, a -= b)             \
  PK4_(mul, P4, P, a * b) PK4_(muli, P4, P, a *= b) PK4_(mula, P4, P, (a *= a)) PK4_(neg, P4, P, -a) PK4_(negi, P4, P, a.NegateInPlace()) \
  PK4_(dbl, P4, P, a.Double()) PK4_(dbli, P4, P, a.DoubleInPlace()) PK4_(sq, P4, P, a.Square()) PK4_(sqi, P4, P, a.SquareInPlace()) \
  TVCF x_scale(const void* pa, const void* pb, void* r) { P4 a = tvc::ld4<P4, P>(pa); P b = tvc::ld<P>(pb); tvc::st4<P4, P>(r, a * b); return 0; } \
  TVCF x_scalei(const void* pa, const void* pb, void* r) { P4 a = tvc::ld4<P4, P>(pa); P b = tvc::ld<P>(pb); a *= b; tvc::st4<P4, P>(r, a); return 0; } \
  TVCF x_const(void* z, void* o) { tvc::st4<P4, P>(z, P4::Zero()); tvc::st4<P4, P>(o, P4::One()); return P4::Zero().IsZero() | P4::One().IsOne() << 1; } \
  TVCF x_pow(const F* b, const u64* n, void* r) { auto v = F4::GetExtendedPackedPowers(F4(b[0], b[1], b[2], b[3]), *n); for (u64 i = 0; i < v.size(); ++i) tvc::st4<P4, P>((char*)r + i * 4 * sizeof(P), v[i]); return v.size(); } \
  TVCF tvc_init() { F4::Init(); P::Init(); P4::Init(); return 0; }
#endif
