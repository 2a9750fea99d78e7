#ifndef TVC_EC_H_
#define TVC_EC_H_
#include "ext.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/affine_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/jacobian_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/projective_point.h"
#include "tachyon/math/elliptic_curves/short_weierstrass/sw_curve.h"
#include "tachyon/math/geometry/point_conversions.h"
namespace tvc {
template <class P> struct Pt;
template <class C> struct Pt<AffinePoint<C>> {
  using F = typename C::BaseField; using P = AffinePoint<C>;
  static P ld(const void* p) { auto c = (const char*)p; return P(tvc::ld<F>(c), tvc::ld<F>(c + sizeof(F))); }
  static void st(void* p, const P& a) { auto c = (char*)p; tvc::st<F>(c, a.x()); tvc::st<F>(c + sizeof(F), a.y()); }
};
template <class P_> struct Pt3 {
  using F = typename P_::BaseField; using P = P_;
  static P ld(const void* p) { auto c = (const char*)p; return P(tvc::ld<F>(c), tvc::ld<F>(c + sizeof(F)), tvc::ld<F>(c + 2 * sizeof(F))); }
  static void st(void* p, const P& a) { auto c = (char*)p; tvc::st<F>(c, a.x()); tvc::st<F>(c + sizeof(F), a.y()); tvc::st<F>(c + 2 * sizeof(F), a.z()); }
};
template <class C> struct Pt<JacobianPoint<C>> : Pt3<JacobianPoint<C>> {};
template <class C> struct Pt<ProjectivePoint<C>> : Pt3<ProjectivePoint<C>> {};
template <class C> struct Pt<PointXYZZ<C>> {
  using F = typename C::BaseField; using P = PointXYZZ<C>;
  static P ld(const void* p) { auto c = (const char*)p; return P(tvc::ld<F>(c), tvc::ld<F>(c + sizeof(F)), tvc::ld<F>(c + 2 * sizeof(F)), tvc::ld<F>(c + 3 * sizeof(F))); }
  static void st(void* p, const P& a) { auto c = (char*)p; tvc::st<F>(c, a.x()); tvc::st<F>(c + sizeof(F), a.y()); tvc::st<F>(c + 2 * sizeof(F), a.zz()); tvc::st<F>(c + 3 * sizeof(F), a.zzz()); }
};
template <class P> P lp(const void* p) { return Pt<P>::ld(p); }
template <class P> void sp(void* p, const P& a) { Pt<P>::st(p, a); }
}  // namespace tvc
using tvc::lp;
using tvc::sp;
#define EC_NA(N, K, P, A)                                                                              \
  TVCF N##_##K##_add(const void* a, const void* b, void* r) { sp<P>(r, lp<P>(a) + lp<P>(b)); return 0; } \
  TVCF N##_##K##_addi(const void* a, const void* b, void* r) { P x = lp<P>(a); x += lp<P>(b); sp<P>(r, x); return 0; } \
  TVCF N##_##K##_adda(const void* a, void* r) { P x = lp<P>(a); x += x; sp<P>(r, x); return 0; } \
  TVCF N##_##K##_madd(const void* a, const void* b, void* r) { sp<P>(r, lp<P>(a) + lp<A>(b)); return 0; } \
  TVCF N##_##K##_maddr(const void* a, const void* b, void* r) { sp<P>(r, lp<A>(b) + lp<P>(a)); return 0; } \
  TVCF N##_##K##_maddi(const void* a, const void* b, void* r) { P x = lp<P>(a); x += lp<A>(b); sp<P>(r, x); return 0; } \
  TVCF N##_##K##_sub(const void* a, const void* b, void* r) { sp<P>(r, lp<P>(a) - lp<P>(b)); return 0; } \
  TVCF N##_##K##_subi(const void* a, const void* b, void* r) { P x = lp<P>(a); x -= lp<P>(b); sp<P>(r, x); return 0; } \
  TVCF N##_##K##_msub(const void* a, const void* b, void* r) { sp<P>(r, lp<P>(a) - lp<A>(b)); return 0; } \
  TVCF N##_##K##_msubi(const void* a, const void* b, void* r) { P x = lp<P>(a); x -= lp<A>(b); sp<P>(r, x); return 0; } \
  TVCF N##_##K##_neg(const void* a, void* r) { sp<P>(r, -lp<P>(a)); return 0; } \
  TVCF N##_##K##_negi(const void* a, void* r) { P x = lp<P>(a); x.NegateInPlace(); sp<P>(r, x); return 0; } \
  TVCF N##_##K##_dbl(const void* a, void* r) { sp<P>(r, lp<P>(a).Double()); return 0; } \
  TVCF N##_##K##_dbli(const void* a, void* r) { P x = lp<P>(a); x.DoubleInPlace(); sp<P>(r, x); return 0; } \
  TVCF N##_##K##_self(const void* a, void* r) { P x = lp<P>(a), y = x; x += x; y -= y; sp<P>(r, x); sp<P>((char*)r + sizeof(P), y); return 0; } \
  TVCF N##_##K##_cmp(const void* a, const void* b) { P x = lp<P>(a), y = lp<P>(b); return (x == y) | (x != y) << 1 | x.IsZero() << 2; } \
  TVCF N##_##K##_on(const void* a) { return lp<P>(a).IsOnCurve(); } \
  TVCF N##_##K##_const(void* z, void* g) { sp<P>(z, P::Zero()); sp<P>(g, P::Generator()); return P::Zero().IsZero() | P::One().IsOnCurve() << 1; } \
  TVCF N##_##K##_bn(const void* a, void* r) { /* three points */ \
    P v[] = {lp<P>(a), lp<P>((const char*)a + sizeof(P)), lp<P>((const char*)a + 2 * sizeof(P))}; \
    std::vector<A> o(3, A(A::BaseField::One(), A::BaseField::One())); bool ok = P::BatchNormalizeSerial(v, &o); \
    for (int i = 0; i < 3; ++i) sp<A>((char*)r + i * sizeof(A), o[i]); return ok; } \
  TVCF N##_##K##_bnx(const void* a, void* r) { /* library entry point, two points; size mismatch rejected */ \
    std::vector<P> v = {lp<P>(a), lp<P>((const char*)a + sizeof(P))}; \
    std::vector<A> o(2, A(A::BaseField::One(), A::BaseField::One())), o3(3); bool ok = P::BatchNormalize(v, &o); bool bad = P::BatchNormalize(v, &o3); \
    for (int i = 0; i < 2; ++i) sp<A>((char*)r + i * sizeof(A), o[i]); return ok | bad << 1; }
#define CONV(N, K, P, L, Q, M) \
  TVCF N##_##K##_to_##L(const void* a, void* r) { sp<Q>(r, lp<P>(a).To##M()); return 0; } \
  TVCF N##_##K##_from_##L(const void* a, void* r) { sp<P>(r, ConvertPoint<P>(lp<Q>(a))); return 0; }
#define EC_ALL_(N, A, J, P, X) \
  EC_NA(N, j, J, A) EC_NA(N, p, P, A) EC_NA(N, x, X, A) \
  CONV(N, j, J, a, A, Affine) CONV(N, j, J, p, P, Projective) CONV(N, j, J, x, X, XYZZ) \
  CONV(N, p, P, a, A, Affine) CONV(N, p, P, j, J, Jacobian) CONV(N, p, P, x, X, XYZZ) \
  CONV(N, x, X, a, A, Affine) CONV(N, x, X, j, J, Jacobian) CONV(N, x, X, p, P, Projective) \
  CONV(N, a, A, j, J, Jacobian) CONV(N, a, A, p, P, Projective) CONV(N, a, A, x, X, XYZZ) \
  TVCF N##_a_add(const void* a, const void* b, void* r) { sp<J>(r, lp<A>(a) + lp<A>(b)); return 0; } \
  TVCF N##_a_sub(const void* a, const void* b, void* r) { sp<J>(r, lp<A>(a) - lp<A>(b)); return 0; } \
  TVCF N##_a_dbl(const void* a, void* r) { sp<J>(r, lp<A>(a).Double()); return 0; } \
  TVCF N##_a_dblp(const void* a, void* r) { sp<P>(r, lp<A>(a).DoubleProjective()); return 0; } \
  TVCF N##_a_dblx(const void* a, void* r) { sp<X>(r, lp<A>(a).DoubleXYZZ()); return 0; } \
  TVCF N##_a_neg(const void* a, void* r) { sp<A>(r, -lp<A>(a)); return 0; } \
  TVCF N##_a_negi(const void* a, void* r) { A x = lp<A>(a); x.NegateInPlace(); sp<A>(r, x); return 0; } \
  TVCF N##_a_cmp(const void* a, const void* b) { A x = lp<A>(a), y = lp<A>(b); return (x == y) | (x != y) << 1 | x.IsZero() << 2; } \
  TVCF N##_a_on(const void* a) { return lp<A>(a).IsOnCurve(); } \
  TVCF N##_a_const(void* z, void* g) { sp<A>(z, A::Zero()); sp<A>(g, A::Generator()); return A::Zero().IsZero() | A::One().IsOnCurve() << 1; }
#define EC_ALL(N, C) EC_ALL_(N, C::AffinePoint, C::JacobianPoint, C::ProjectivePoint, C::PointXYZZ)
#define EC_FROMX(N, C) \
  TVCF N##_fromx(const void* x, const u32* odd, void* r) { auto o = C::AffinePoint::CreateFromX(tvc::ld<C::BaseField>(x), *odd & 1); if (o) sp<C::AffinePoint>(r, *o); return o.has_value(); }
#endif
