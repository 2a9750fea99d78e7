#ifndef TVC_MSM_EC_H_
#define TVC_MSM_EC_H_
#include "ec.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/glv.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
using namespace tachyon::math;
namespace tvc {
template <class P> std::vector<P> lps(u64 n, const void* p) { std::vector<P> v; for (u64 i = 0; i < n; ++i) v.push_back(tvc::lp<P>((const char*)p + i * sizeof(P))); return v; }
template <class S> std::vector<S> lss(u64 n, const void* p) { std::vector<S> v; for (u64 i = 0; i < n; ++i) v.push_back(tvc::ld<S>((const char*)p + i * sizeof(S))); return v; }
inline void sbig(u64* r, const mpz_class& m) { for (int i = 0; i < 6; ++i) r[i] = 0; size_t c; mpz_class t = abs(m); mpz_export(r, &c, -1, 8, 0, 0, t.get_mpz_t()); }
template <class P> u64 mulall(const void* p, const void* k, void* r) {
  using R = typename internal::AdditiveSemigroupTraits<P>::ReturnTy; using S = typename P::ScalarField;
  P a = tvc::lp<P>(p); S s = tvc::ld<S>(k); auto o = (char*)r;
  sp<R>(o, a * s); sp<R>(o + sizeof(R), a.ScalarMul(s.ToBigInt()));
  if constexpr (std::is_same_v<P, R>) { P b = a; b *= s; sp<R>(o + 2 * sizeof(R), b); } else sp<R>(o + 2 * sizeof(R), a.ScalarMul(s));
  return 0;
}
template <class P> u64 msm(u64 how, u64 n, const void* p, const void* k, void* r) {
  using S = typename P::ScalarField; using B = typename Pippenger<P>::Bucket;
  auto b = lps<P>(n, p); auto s = lss<S>(n, k); B o = n ? B::Generator() : B::Zero(); bool ok;
  if (how == 0) { VariableBaseMSM<P> v; ok = v.Run(b, s, &o); }
  else if (how == 1) { Pippenger<P> v; v.SetUseMSMWindowNAForTesting(false); ok = v.Run(b.begin(), b.end(), s.begin(), s.end(), &o); }
  else { PippengerAdapter<P> v; ok = v.RunWithStrategy(b.begin(), b.end(), s.begin(), s.end(), static_cast<PippengerParallelStrategy>(how - 2), &o); }
  sp<B>(r, o); return ok;
}
template <class P> u64 fixed(u64 n, const void* p, const void* k, void* r) {
  using R = typename internal::AdditiveSemigroupTraits<P>::ReturnTy; using S = typename P::ScalarField;
  FixedBaseMSM<P> f; f.Reset(n, tvc::lp<P>(p)); auto s = lss<S>(n, k); std::vector<R> o(n); bool ok = f.Run(s, &o);
  for (u64 i = 0; i < n; ++i) sp<R>((char*)r + i * sizeof(R), o[i]);
  return ok;
}
template <class P> u64 glv(const void* p, const void* k, void* r, void* e) {
  using R = typename internal::AdditiveSemigroupTraits<P>::ReturnTy;
  P a = tvc::lp<P>(p); sp<R>(r, GLV<P>::Mul(a, tvc::ld<typename P::ScalarField>(k))); sp<P>(e, GLV<P>::Endomorphism(a));
  return 0;
}
template <class P> u64 glvdec(const void* k, u64* r) {
  auto d = GLV<P>::Decompose(tvc::ld<typename P::ScalarField>(k));
  r[0] = d.k1.sign == Sign::kNegative; sbig(r + 1, d.k1.abs_value); r[7] = d.k2.sign == Sign::kNegative; sbig(r + 8, d.k2.abs_value);
  typename P::ScalarField::BigIntTy l = P::Curve::Config::kLambda.ToBigInt(); for (int i = 0; i < 4; ++i) r[14 + i] = l[i];
  return u64(d.k1.sign == Sign::kZero) | u64(d.k2.sign == Sign::kZero) << 1;
}
}  // namespace tvc
#define MSM_K(N, K, P)                                                                                                                  \
  TVCF N##_##K##_mul(const void* p, const void* k, void* r) { return tvc::mulall<P>(p, k, r); }                                         \
  TVCF N##_##K##_msm(const u64* how, const u64* n, const void* p, const void* k, void* r) { return tvc::msm<P>(*how, *n, p, k, r); }    \
  TVCF N##_##K##_fixed(const u64* n, const void* p, const void* k, void* r) { return tvc::fixed<P>(*n, p, k, r); }
#define MSM_G(N, K, P) TVCF N##_##K##_glv(const void* p, const void* k, void* r, void* e) { return tvc::glv<P>(p, k, r, e); } TVCF N##_##K##_glvdec(const void* k, u64* r) { return tvc::glvdec<P>(k, r); }
#define MSM_ALL(N, C) MSM_K(N, a, C::AffinePoint) MSM_K(N, j, C::JacobianPoint) MSM_K(N, p, C::ProjectivePoint) MSM_K(N, x, C::PointXYZZ)
#define GLV_ALL(N, C) MSM_G(N, a, C::AffinePoint) MSM_G(N, j, C::JacobianPoint) MSM_G(N, p, C::ProjectivePoint) MSM_G(N, x, C::PointXYZZ)
#endif
