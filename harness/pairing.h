#ifndef TVC_PAIRING_H_
#define TVC_PAIRING_H_
#include "ec.h"
#include <array>
#include <optional>
#include "tachyon/math/elliptic_curves/bls12/bls12_381/bls12_381.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/pairing/pairing.h"
using namespace tachyon::math;
namespace tvc {
// a stand-in for Fp12 in which an element is the exponent it denotes: sum c[i] q^i (q^12 = 1). Multiplication adds exponents, the
// q^i-Frobenius rotates, inversion negates, "cyclotomic" inversion is the q^6-Frobenius and cyclotomic squaring doubles (contracts of check C03).
template <class F> struct EX {
  F c[12];
  EX() { for (F& f : c) f = F::Zero(); }
  static EX One() { return EX(); }
  EX operator*(const EX& o) const { EX r; for (int i = 0; i < 12; ++i) r.c[i] = c[i] + o.c[i]; return r; }
  EX& operator*=(const EX& o) { return *this = *this * o; }
  std::optional<EX> Inverse() const { EX r; for (int i = 0; i < 12; ++i) r.c[i] = -c[i]; return r; }
  EX Rot(int k) const { EX r; for (int i = 0; i < 12; ++i) r.c[(i + k) % 12] = c[i]; return r; }
  std::optional<EX> CyclotomicInverse() const { return Rot(6); }
  std::optional<EX*> CyclotomicInverseInPlace() { *this = Rot(6); return this; }
  EX& FrobeniusMapInPlace(int k) { return *this = Rot(k % 12); }
  EX FrobeniusMap(int k) const { return Rot(k % 12); }
  EX CyclotomicSquare() const { return *this * *this; }
  EX& CyclotomicSquareInPlace() { return *this *= *this; }
  EX Square() const { return *this * *this; }
  EX& SquareInPlace() { return *this *= *this; }
  template <size_t N> EX CyclotomicPow(const BigInt<N>& e) const {
    F s = F::Zero(); F w = F(2).Pow(64);
    for (size_t i = N; i-- > 0;) { F hi = F(uint32_t(e[i] >> 32)), lo = F(uint32_t(e[i])); s = s * w + hi * F(2).Pow(32) + lo; }
    EX r; for (int i = 0; i < 12; ++i) r.c[i] = c[i] * s; return r;
  }
};
template <class C, class E> struct ExpCfg : C { using Fp12 = E; };
template <class C, class F> u64 finexp(F* r) {
  using K = typename C::Config;
  EX<F> x; x.c[0] = F::One();
  EX<F> y;
  if constexpr (K::kTwistType == TwistType::kD) y = BNCurve<ExpCfg<K, EX<F>>>::FinalExponentiation(x);
  else y = BLS12Curve<ExpCfg<K, EX<F>>>::FinalExponentiation(x);
  for (int i = 0; i < 12; ++i) r[i] = y.c[i];
  return 0;
}
template <class K> u64 dbl(const void* p, const void* ti, void* r, void* l) {
  using F = typename K::G2Curve::BaseField; constexpr size_t s = sizeof(F); auto c = (const char*)p;
  G2Projective<K> g(tvc::ld<F>(c), tvc::ld<F>(c + s), tvc::ld<F>(c + 2 * s));
  auto e = g.DoubleInPlace(*(const typename F::BaseField*)ti); auto o = (char*)r, m = (char*)l;
  tvc::st<F>(o, g.x()); tvc::st<F>(o + s, g.y()); tvc::st<F>(o + 2 * s, g.z()); tvc::st<F>(m, e.c0()); tvc::st<F>(m + s, e.c1()); tvc::st<F>(m + 2 * s, e.c2());
  return 0;
}
template <class K> u64 addl(const void* p, const void* q, void* r, void* l) {
  using F = typename K::G2Curve::BaseField; constexpr size_t s = sizeof(F); auto c = (const char*)p;
  G2Projective<K> g(tvc::ld<F>(c), tvc::ld<F>(c + s), tvc::ld<F>(c + 2 * s));
  auto e = g.AddInPlace(tvc::lp<typename K::G2Curve::AffinePoint>(q)); auto o = (char*)r, m = (char*)l;
  tvc::st<F>(o, g.x()); tvc::st<F>(o + s, g.y()); tvc::st<F>(o + 2 * s, g.z()); tvc::st<F>(m, e.c0()); tvc::st<F>(m + s, e.c1()); tvc::st<F>(m + 2 * s, e.c2());
  return 0;
}
template <class K> u64 negl(const void* p, void* r) {
  using F = typename K::G2Curve::BaseField; constexpr size_t s = sizeof(F); auto c = (const char*)p; auto o = (char*)r;
  G2Projective<K> g(tvc::ld<F>(c), tvc::ld<F>(c + s), tvc::ld<F>(c + 2 * s)); g.NegateInPlace();
  tvc::st<F>(o, g.x()); tvc::st<F>(o + s, g.y()); tvc::st<F>(o + 2 * s, g.z()); return 0;
}
template <class C> u64 pair(u64 n, u64 how, const void* p, const void* q, void* r) {
  using A1 = typename C::G1Curve::AffinePoint; using A2 = typename C::G2Curve::AffinePoint; using P = typename C::G2Prepared; using F12 = typename C::Fp12;
  std::vector<A1> a; std::vector<A2> b; std::vector<P> pb;
  for (u64 i = 0; i < n; ++i) { a.push_back(tvc::lp<A1>((const char*)p + i * sizeof(A1))); b.push_back(tvc::lp<A2>((const char*)q + i * sizeof(A2))); pb.push_back(P::From(b.back())); }
  F12 f;
  if (how == 0) f = Pairing<C>(a, b); else if (how == 1) f = Pairing<C>(a, pb); else f = C::FinalExponentiation(C::MultiMillerLoop(a, pb));
  tvc::st<F12>(r, f);
  u64 inf = 0; for (u64 i = 0; i < n; ++i) inf |= u64(pb[i].infinity()) << i;
  return inf;
}
template <class C> u64 fe(const void* f, void* r) { using F12 = typename C::Fp12; tvc::st<F12>(r, C::FinalExponentiation(tvc::ld<F12>(f))); return 0; }
}  // namespace tvc
#define PAIRING(C)                                                                                                                       \
  TVCF p_dbl(const void* p, const void* ti, void* r, void* l) { return tvc::dbl<typename C::Config>(p, ti, r, l); }                                            \
  TVCF p_add(const void* p, const void* q, void* r, void* l) { return tvc::addl<typename C::Config>(p, q, r, l); }                                \
  TVCF p_neg(const void* p, void* r) { return tvc::negl<typename C::Config>(p, r); }                                                              \
  TVCF p_finexp(bls12_381::Fq* r) { return tvc::finexp<C>(r); }                                                                          \
  TVCF p_pair(const u64* n, const u64* how, const void* p, const void* q, void* r) { return tvc::pair<C>(*n, *how, p, q, r); }            \
  TVCF p_fe(const void* f, void* r) { return tvc::fe<C>(f, r); }
#endif
