#ifndef TVC_PF_H_
#define TVC_PF_H_
#include "tvc_common.h"
#include <optional>
#include <vector>
#include "tachyon/math/finite_fields/finite_field_forwards.h"
#define PF(N, F)                                                                     \
  TVCF N##_add(const F* a, const F* b, F* r) { *r = *a + *b; return 0; }                     \
  TVCF N##_addi(const F* a, const F* b, F* r) { F x = *a; x += *b; *r = x; return 0; }       \
  TVCF N##_adda(const F* a, F* r) { F x = *a; x += x; *r = x; return 0; }                    \
  TVCF N##_sub(const F* a, const F* b, F* r) { *r = *a - *b; return 0; }                     \
  TVCF N##_subi(const F* a, const F* b, F* r) { F x = *a; x -= *b; *r = x; return 0; }       \
  TVCF N##_suba(const F* a, F* r) { F x = *a; x -= x; *r = x; return 0; }                    \
  TVCF N##_neg(const F* a, F* r) { *r = -*a; return 0; }                                     \
  TVCF N##_negi(const F* a, F* r) { F x = *a; x.NegateInPlace(); *r = x; return 0; }         \
  TVCF N##_dbl(const F* a, F* r) { *r = a->Double(); return 0; }                             \
  TVCF N##_dbli(const F* a, F* r) { F x = *a; x.DoubleInPlace(); *r = x; return 0; }         \
  TVCF N##_mul(const F* a, const F* b, F* r) { *r = *a * *b; return 0; }                     \
  TVCF N##_muli(const F* a, const F* b, F* r) { F x = *a; x *= *b; *r = x; return 0; }       \
  TVCF N##_mula(const F* a, F* r) { F x = *a; x *= x; *r = x; return 0; }                    \
  TVCF N##_sq(const F* a, F* r) { *r = a->Square(); return 0; }                              \
  TVCF N##_sqi(const F* a, F* r) { F x = *a; x.SquareInPlace(); *r = x; return 0; }          \
  TVCF N##_eqs(const F* a, const F* b) { return *a == *b; }                          \
  TVCF N##_nes(const F* a, const F* b) { return *a != *b; }                          \
  TVCF N##_isz(const F* a) { return a->IsZero(); }                                   \
  TVCF N##_iso(const F* a) { return a->IsOne(); }                                    \
  TVCF N##_ism(const F* a) { return a->IsMinusOne(); }                               \
  TVCF N##_lt(const F* a, const F* b) { return *a < *b; }  \
  TVCF N##_gt(const F* a, const F* b) { return *a > *b; }  \
  TVCF N##_le(const F* a, const F* b) { return *a <= *b; }  \
  TVCF N##_ge(const F* a, const F* b) { return *a >= *b; }  \
  TVCF N##_const(F* z, F* o, F* m, F* h) { *z = F::Zero(); *o = F::One(); *m = F::MinusOne(); *h = F::TwoInv(); return F::MinusOne().IsMinusOne() | F::Zero().IsZero() << 1 | F::One().IsOne() << 2; } \
  TVCF N##_inv(const F* a, F* r) { auto o = a->Inverse(); if (o) *r = *o; return o.has_value(); } \
  TVCF N##_invi(const F* a, F* r) { F x = *a; auto o = x.InverseInPlace(); *r = x; return o.has_value(); } \
  TVCF N##_div(const F* a, const F* b, F* r) { auto o = *a / *b; if (o) *r = *o; return o.has_value(); } \
  TVCF N##_divi(const F* a, const F* b, F* r) { F x = *a; auto o = (x /= *b); *r = x; return o.has_value(); } \
  TVCF N##_tobig(const F* a, u64* r) { auto b = a->ToBigInt(); memcpy(r, &b, sizeof(b)); return 0; } \
  TVCF N##_frombig(const u64* a, F* r) { F::BigIntTy b; memcpy(&b, a, sizeof(b)); *r = F::FromBigInt(b); return 0; } \
  TVCF N##_smul(const F* a, const u64* k, F* r) { *r = a->ScalarMul(*k); return 0; }
#define PF_MONT(N, F) TVCF N##_rt(const F* a, F* r) { *r = F::FromMontgomery(a->value()); return 0; }
#endif
