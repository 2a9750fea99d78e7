#ifndef TVC_PACKED_H_
#define TVC_PACKED_H_
#include "tvc_common.h"
#include <optional>
#include <vector>
#include "tachyon/base/compiler_specific.h"
#ifdef TVC_IR
// keep the calls between the vector functions, so that each is verified against the others' contracts
#undef ALWAYS_INLINE
#define ALWAYS_INLINE inline __attribute__((noinline))
#endif
namespace tvc {
template <class P> P ld(const void* p) { P r; memcpy(r.values().data(), p, sizeof(r.values())); return r; }
template <class P> void st(void* p, const P& v) { memcpy(p, v.values().data(), sizeof(v.values())); }
}
#define PK(P)                                                                                                       \
  TVCF k_add(const void* a, const void* b, void* r) { tvc::st<P>(r, tvc::ld<P>(a) + tvc::ld<P>(b)); return 0; }     \
  TVCF k_addi(const void* a, const void* b, void* r) { P x = tvc::ld<P>(a); x += tvc::ld<P>(b); tvc::st<P>(r, x); return 0; } \
  TVCF k_adda(const void* a, void* r) { P x = tvc::ld<P>(a); x += x; tvc::st<P>(r, x); return 0; }                  \
  TVCF k_sub(const void* a, const void* b, void* r) { tvc::st<P>(r, tvc::ld<P>(a) - tvc::ld<P>(b)); return 0; }     \
  TVCF k_subi(const void* a, const void* b, void* r) { P x = tvc::ld<P>(a); x -= tvc::ld<P>(b); tvc::st<P>(r, x); return 0; } \
  TVCF k_suba(const void* a, void* r) { P x = tvc::ld<P>(a); x -= x; tvc::st<P>(r, x); return 0; }                  \
  TVCF k_mul(const void* a, const void* b, void* r) { tvc::st<P>(r, tvc::ld<P>(a) * tvc::ld<P>(b)); return 0; }     \
  TVCF k_muli(const void* a, const void* b, void* r) { P x = tvc::ld<P>(a); x *= tvc::ld<P>(b); tvc::st<P>(r, x); return 0; } \
  TVCF k_mula(const void* a, void* r) { P x = tvc::ld<P>(a); x *= x; tvc::st<P>(r, x); return 0; }                  \
  TVCF k_neg(const void* a, void* r) { tvc::st<P>(r, -tvc::ld<P>(a)); return 0; }                                   \
  TVCF k_negi(const void* a, void* r) { P x = tvc::ld<P>(a); x.NegateInPlace(); tvc::st<P>(r, x); return 0; }       \
  TVCF k_dbl(const void* a, void* r) { tvc::st<P>(r, tvc::ld<P>(a).Double()); return 0; }                           \
  TVCF k_dbli(const void* a, void* r) { P x = tvc::ld<P>(a); x.DoubleInPlace(); tvc::st<P>(r, x); return 0; }       \
  TVCF k_sq(const void* a, void* r) { tvc::st<P>(r, tvc::ld<P>(a).Square()); return 0; }                            \
  TVCF k_sqi(const void* a, void* r) { P x = tvc::ld<P>(a); x.SquareInPlace(); tvc::st<P>(r, x); return 0; }        \
  TVCF k_rel(const void* pa, const void* pb) { P a = tvc::ld<P>(pa), b = tvc::ld<P>(pb);                            \
    return (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | (a <= b) << 4 | (a >= b) << 5; }                \
  TVCF k_is(const void* pa) { P a = tvc::ld<P>(pa); return a.IsZero() | a.IsOne() << 1 | a.IsMinusOne() << 2; }     \
  TVCF k_const(void* z, void* o, void* m, void* h) { tvc::st<P>(z, P::Zero()); tvc::st<P>(o, P::One()); tvc::st<P>(m, P::MinusOne()); tvc::st<P>(h, P::TwoInv()); \
    return P::Zero().IsZero() | P::One().IsOne() << 1 | P::MinusOne().IsMinusOne() << 2; }                          \
  TVCF k_bc(const void* a, void* r) { tvc::st<P>(r, P::Broadcast(*(const typename P::PrimeField*)a)); return 0; }   \
  TVCF k_ctor(const u64* v, void* r) { tvc::st<P>(r, P(uint32_t(*v))); return 0; }                                          \
  TVCF k_lane(const void* a, const void* v, const u64* i, void* r, void* o) { P x = tvc::ld<P>(a); const P& c = x; *(typename P::PrimeField*)o = c[*i]; \
    x[*i] = *(const typename P::PrimeField*)v; tvc::st<P>(r, x); return 0; }                                         \
  TVCF k_pow(const void* a, const u64* e, void* r) { tvc::st<P>(r, tvc::ld<P>(a).Pow(*e)); return 0; }                      \
  TVCF k_inv(const void* a, void* r, void* q) { P x = tvc::ld<P>(a); auto o = x.Inverse(); tvc::st<P>(r, *o); auto o2 = x.InverseInPlace(); tvc::st<P>(q, x); return o.has_value() & o2.has_value(); } \
  TVCF k_frob(const void* a, const u64* e, void* r) { P x = tvc::ld<P>(a); x.FrobeniusMapInPlace(*e); tvc::st<P>(r, x); return 0; }
#define PK_RAW(P) TVCF k_rawone(void* r) { tvc::st<P>(r, P::RawOne()); return 0; }
#define PK_EXP(P)                                                                            \
  TVCF k_e3(const void* a, void* r) { tvc::st<P>(r, tvc::ld<P>(a).Exp3()); return 0; }       \
  TVCF k_e5(const void* a, void* r) { tvc::st<P>(r, tvc::ld<P>(a).Exp5()); return 0; }       \
  TVCF k_e7(const void* a, void* r) { tvc::st<P>(r, tvc::ld<P>(a).Exp7()); return 0; }
// the compile-time powers used by the hash functions
#define PK_CP1(P, E) TVCF k_cp##E(const void* a, void* r) { tvc::st<P>(r, tvc::ld<P>(a).template ConstPow<E>()); return 0; }
#define PK_CP(P) PK_CP1(P, 1) PK_CP1(P, 2) PK_CP1(P, 3) PK_CP1(P, 5) PK_CP1(P, 7) PK_CP1(P, 11)
// the signed reduction the powers are made of: each 64-bit input is c or -1-c, the output the upper half plus p
// (returns 0 if the headers no longer have a reduction of this name)
int PartialMontyRedSignedToSigned(...);
#define PK_RED(P, V, SET, N)                                                                                       \
  template <class W, bool Neg> int red_(const u64* c, u64* r) {                                                         \
    constexpr u64 p = P::PrimeField::Config::kModulus; u64 t[N];                                                   \
    for (int i = 0; i < N; ++i) t[i] = Neg ? ~c[i] : c[i];                                                         \
    W v; memcpy(&v, t, sizeof(v));                                                                                 \
    if constexpr (sizeof(PartialMontyRedSignedToSigned(v, v, v)) == sizeof(v)) {                                   \
      v = PartialMontyRedSignedToSigned(v, SET(P::PrimeField::Config::kModulus), SET(P::PrimeField::Config::kInverse32)); \
      memcpy(t, &v, sizeof(v));                                                                                    \
      for (int i = 0; i < N; ++i) r[i] = u32(u32(t[i] >> 32) + u32(p));                                            \
      return 1;                                                                                                    \
    } else return 0; }                                                                                             \
  TVCF k_redp(const u64* c, u64* r) { return red_<V, false>(c, r); }                                               \
  TVCF k_redn(const u64* c, u64* r) { return red_<V, true>(c, r); }
#endif
