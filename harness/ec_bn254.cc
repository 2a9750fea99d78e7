#include "ec.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#endif
// a short Weierstrass curve with a symbolic |a| (and |b|) coefficient
namespace tvc {
template <class F, class S> struct AnyACfg {
  using BaseField = F; using BasePrimeField = F; using ScalarField = S;
  using CpuBaseField = typename F::CpuField; using CpuScalarField = typename S::CpuField;
  using GpuBaseField = typename F::GpuField; using GpuScalarField = typename S::GpuField;
  using CpuCurveConfig = AnyACfg<CpuBaseField, CpuScalarField>;
  using GpuCurveConfig = AnyACfg<GpuBaseField, GpuScalarField>;
  constexpr static bool kAIsZero = false;
  static F kA, kB; static Point2<F> kGenerator;
  static void Init() {}
  constexpr static F MulByA(const F& v) { return v * kA; }
};
template <class F, class S> F AnyACfg<F, S>::kA;
template <class F, class S> F AnyACfg<F, S>::kB;
template <class F, class S> Point2<F> AnyACfg<F, S>::kGenerator;
}  // namespace tvc
using namespace tachyon::math;
using AC = SWCurve<tvc::AnyACfg<bn254::Fq, bn254::Fr>>;
TVCF tvc_init() { bn254::G1Curve::Init(); bn254::G2Curve::Init(); return 0; }
TVCF seta(const void* a, const void* b) { AC::Config::kA = tvc::ld<bn254::Fq>(a); AC::Config::kB = tvc::ld<bn254::Fq>(b); return 0; }
EC_ALL(g1, bn254::G1Curve) EC_ALL(g2, bn254::G2Curve)
EC_FROMX(g1, bn254::G1Curve)
#define A_(K, P, Q) \
  TVCF ga_##K##_add(const void* ca, const void* a, const void* b, void* r) { seta(ca, ca); sp<P>(r, lp<P>(a) + lp<P>(b)); return 0; } \
  TVCF ga_##K##_madd(const void* ca, const void* a, const void* b, void* r) { seta(ca, ca); sp<P>(r, lp<P>(a) + lp<AC::AffinePoint>(b)); return 0; } \
  TVCF ga_##K##_dbl(const void* ca, const void* a, void* r) { seta(ca, ca); sp<P>(r, lp<P>(a).Double()); return 0; } \
  TVCF ga_##K##_dbli(const void* ca, const void* a, void* r) { seta(ca, ca); P x = lp<P>(a); x.DoubleInPlace(); sp<P>(r, x); return 0; } \
  TVCF ga_##K##_on(const void* ca, const void* cb, const void* a) { seta(ca, cb); return lp<P>(a).IsOnCurve(); }
A_(j, AC::JacobianPoint, 0) A_(p, AC::ProjectivePoint, 0) A_(x, AC::PointXYZZ, 0)
TVCF ga_a_dblp(const void* ca, const void* a, void* r) { seta(ca, ca); sp<AC::ProjectivePoint>(r, lp<AC::AffinePoint>(a).DoubleProjective()); return 0; }
TVCF ga_a_dblx(const void* ca, const void* a, void* r) { seta(ca, ca); sp<AC::PointXYZZ>(r, lp<AC::AffinePoint>(a).DoubleXYZZ()); return 0; }
TVCF ga_a_on(const void* ca, const void* cb, const void* a) { seta(ca, cb); return lp<AC::AffinePoint>(a).IsOnCurve(); }
