#include "tvc_common.h"
#include <vector>
#include "tachyon/math/finite_fields/finite_field_forwards.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr_config.cc"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr_config.cc"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.cc"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31_config.cc"
#endif
using namespace tachyon::math;
template <typename F> static std::vector<F> V(const F* a, u64 n) { return std::vector<F>(a, a + n); }
template <typename F> static void put(const std::vector<F>& v, F* r) { for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; }
template <typename F> static std::vector<F> to_std(std::vector<F> v) { return v; }
#define ALG(N, F)                                                                              \
  TVCF N##_pow(const F* a, const u64* e, F* r) { *r = a->Pow(*e); return 0; }                  \
  TVCF N##_powbig(const F* a, const u64* e, F* r) { BigInt<4> b; memcpy(&b, e, 32); *r = a->Pow(b); return 0; } \
  TVCF N##_cpow(const F* a, F* r) { r[0] = a->ConstPow<0>(); r[1] = a->ConstPow<1>(); r[2] = a->ConstPow<2>(); r[3] = a->ConstPow<3>(); r[4] = a->ConstPow<4>(); r[5] = a->ConstPow<5>(); r[6] = a->ConstPow<6>(); r[7] = a->ConstPow<7>(); r[8] = a->ConstPow<8>(); r[9] = a->ConstPow<9>(); r[10] = a->ConstPow<13>(); return 0; } \
  TVCF N##_cmul(const F* a, F* r) { r[0] = a->ConstScalarMul<0>(); r[1] = a->ConstScalarMul<1>(); r[2] = a->ConstScalarMul<2>(); r[3] = a->ConstScalarMul<3>(); r[4] = a->ConstScalarMul<4>(); r[5] = a->ConstScalarMul<5>(); r[6] = a->ConstScalarMul<6>(); r[7] = a->ConstScalarMul<7>(); r[8] = a->ConstScalarMul<8>(); r[9] = a->ConstScalarMul<9>(); r[10] = a->ConstScalarMul<13>(); return 0; } \
  TVCF N##_smul(const F* a, const u64* e, F* r) { *r = a->ScalarMul(*e); return 0; }           \
  TVCF N##_smulbig(const F* a, const u64* e, F* r) { BigInt<4> b; memcpy(&b, e, 32); *r = a->ScalarMul(b); return 0; } \
  TVCF N##_powtab(const F* a, const u64* e, F* r) { BigInt<1> b(*e); *r = F::PowWithTable(absl::MakeConstSpan(a, 8), b); return 0; } \
  TVCF N##_exp2k(const F* a, const u32* k, F* r) { *r = a->ExpPowOfTwo(*k); return 0; }        \
  TVCF N##_succ(const u64* n, const F* g, const F* c, F* r) { put(F::GetSuccessivePowers(*n, *g, *c), r); return 0; } \
  TVCF N##_succbr(const u64* n, const F* g, const F* c, F* r) { put(F::GetBitRevIndexSuccessivePowers(*n, *g, *c), r); return 0; } \
  TVCF N##_succbrs(const u64* n, const F* g, const F* c, F* r) { put(F::GetBitRevIndexSuccessivePowersSerial(*n, *g, *c), r); return 0; } \
  TVCF N##_binv(const u64* n, const F* a, const F* c, F* r) { auto v = V(a, *n); std::vector<F> o(*n, F::One()); bool ok = F::BatchInverse(v, &o, *c); put(o, r); return ok; } \
  TVCF N##_binvi(const u64* n, const F* a, const F* c, F* r) { auto v = V(a, *n); bool ok = F::BatchInverseInPlace(v, *c); put(v, r); return ok; } \
  TVCF N##_binvs(const u64* n, const F* a, const F* c, F* r) { auto v = V(a, *n); std::vector<F> o(*n, F::One()); bool ok = F::BatchInverseSerial(v, &o, *c); put(o, r); return ok; } \
  TVCF N##_binvsi(const u64* n, const F* a, const F* c, F* r) { auto v = V(a, *n); bool ok = F::BatchInverseInPlaceSerial(v, *c); put(v, r); return ok; } \
  TVCF N##_binvbad(const F* a) { auto v = V(a, 3); std::vector<F> o(2, F::One()); return F::BatchInverse(v, &o) | F::BatchInverseSerial(v, &o) << 1; } \
  TVCF N##_sop(const u64* n, const F* a, const F* b, F* r) { r[0] = F::SumOfProducts(V(a, *n), V(b, *n)); r[1] = F::SumOfProductsSerial(V(a, *n), V(b, *n)); return 0; } \
  TVCF N##_leg(const F* a) { return (u64)(int64_t)(int)a->Legendre(); }                        \
  TVCF N##_inv(const F* a, F* r) { auto o = a->Inverse(); if (o) *r = *o; return o.has_value(); }
#define ROOT(N, F) TVCF N##_root(const u64* n, F* r) { return F::GetRootOfUnity(*n, r); }
#define SQRT(N, F) TVCF N##_sqrt(const F* a, F* r) { return a->SquareRoot(r); }
TVCF tvc_init() {
  bn254::Fq::Init(); bn254::Fr::Init(); bls12_381::Fr::Init(); secp256k1::Fq::Init(); bn384_small_two_adicity::Fr::Init();
  BabyBear::Init(); KoalaBear::Init(); Mersenne31::Init(); return 0;
}
ALG(bnq, bn254::Fq) ALG(bnr, bn254::Fr) ALG(blr, bls12_381::Fr) ALG(seq, secp256k1::Fq) ALG(b3r, bn384_small_two_adicity::Fr)
ALG(bb, BabyBear) ALG(kb, KoalaBear) ALG(m31, Mersenne31)
ROOT(bnr, bn254::Fr) ROOT(blr, bls12_381::Fr) ROOT(b3r, bn384_small_two_adicity::Fr) ROOT(bb, BabyBear) ROOT(kb, KoalaBear)
SQRT(bnq, bn254::Fq) SQRT(bnr, bn254::Fr) SQRT(blr, bls12_381::Fr) SQRT(seq, secp256k1::Fq) SQRT(b3r, bn384_small_two_adicity::Fr) SQRT(bb, BabyBear) SQRT(kb, KoalaBear)
