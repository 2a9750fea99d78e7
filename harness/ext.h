#ifndef TVC_EXT_H_
#define TVC_EXT_H_
#include "tvc_common.h"
#include <optional>
#include <vector>
#include "tachyon/math/finite_fields/extension_field_traits_forward.h"
namespace tvc {
using namespace tachyon::math;
template <class E, class = void> struct IsExt { static constexpr bool v = false; };
template <class E> struct IsExt<E, std::void_t<typename E::FrobeniusCoefficient>> { static constexpr bool v = true; };
template <class E> struct Flat {
  static E ld(const void* p) {
    if constexpr (!IsExt<E>::v) return *reinterpret_cast<const E*>(p);
    else {
      using B = typename E::BaseField;
      constexpr int d = sizeof(E) / sizeof(B);
      auto g = [p](int i) { return Flat<B>::ld(reinterpret_cast<const char*>(p) + i * sizeof(B)); };
      if constexpr (d == 2) return E(g(0), g(1));
      else if constexpr (d == 3) return E(g(0), g(1), g(2));
      else return E(g(0), g(1), g(2), g(3));
    }
  }
  static void st(void* p, const E& e) {
    if constexpr (!IsExt<E>::v) *reinterpret_cast<E*>(p) = e;
    else {
      using B = typename E::BaseField;
      constexpr int d = sizeof(E) / sizeof(B);
      for (int i = 0; i < d; ++i) Flat<B>::st(reinterpret_cast<char*>(p) + i * sizeof(B), e[i]);
    }
  }
};
template <class E> E ld(const void* p) { return Flat<E>::ld(p); }
template <class E> void st(void* p, const E& e) { Flat<E>::st(p, e); }
}  // namespace tvc
#define EXT_COMMON(N, E)                                                                        \
  TVCF N##_add(const void* a, const void* b, void* r) { st<E>(r, ld<E>(a) + ld<E>(b)); return 0; }  \
  TVCF N##_addi(const void* a, const void* b, void* r) { E x = ld<E>(a); x += ld<E>(b); st<E>(r, x); return 0; } \
  TVCF N##_adda(const void* a, void* r) { E x = ld<E>(a); x += x; st<E>(r, x); return 0; } \
  TVCF N##_sub(const void* a, const void* b, void* r) { st<E>(r, ld<E>(a) - ld<E>(b)); return 0; }  \
  TVCF N##_subi(const void* a, const void* b, void* r) { E x = ld<E>(a); x -= ld<E>(b); st<E>(r, x); return 0; } \
  TVCF N##_suba(const void* a, void* r) { E x = ld<E>(a); x -= x; st<E>(r, x); return 0; } \
  TVCF N##_neg(const void* a, void* r) { st<E>(r, -ld<E>(a)); return 0; }                          \
  TVCF N##_negi(const void* a, void* r) { E x = ld<E>(a); x.NegateInPlace(); st<E>(r, x); return 0; } \
  TVCF N##_dbl(const void* a, void* r) { st<E>(r, ld<E>(a).Double()); return 0; }                  \
  TVCF N##_dbli(const void* a, void* r) { E x = ld<E>(a); x.DoubleInPlace(); st<E>(r, x); return 0; } \
  TVCF N##_mul(const void* a, const void* b, void* r) { st<E>(r, ld<E>(a) * ld<E>(b)); return 0; }  \
  TVCF N##_muli(const void* a, const void* b, void* r) { E x = ld<E>(a); x *= ld<E>(b); st<E>(r, x); return 0; } \
  TVCF N##_mula(const void* a, void* r) { E x = ld<E>(a); x *= x; st<E>(r, x); return 0; } \
  TVCF N##_sq(const void* a, void* r) { st<E>(r, ld<E>(a).Square()); return 0; }                   \
  TVCF N##_sqi(const void* a, void* r) { E x = ld<E>(a); x.SquareInPlace(); st<E>(r, x); return 0; } \
  TVCF N##_inv(const void* a, void* r) { auto o = ld<E>(a).Inverse(); if (o) st<E>(r, *o); return o.has_value(); } \
  TVCF N##_invi(const void* a, void* r) { E x = ld<E>(a); auto o = x.InverseInPlace(); st<E>(r, x); return o.has_value(); } \
  TVCF N##_div(const void* a, const void* b, void* r) { auto o = ld<E>(a) / ld<E>(b); if (o) st<E>(r, *o); return o.has_value(); } \
  TVCF N##_cmp(const void* a, const void* b) { E x = ld<E>(a), y = ld<E>(b); return (x == y) | (x != y) << 1 | x.IsZero() << 2 | x.IsOne() << 3; } \
  TVCF N##_lt(const void* a, const void* b) { E x = ld<E>(a), y = ld<E>(b); return (x < y) | (x > y) << 1 | (x <= y) << 2 | (x >= y) << 3; } \
  TVCF N##_const(void* z, void* o, void* m) { st<E>(z, E::Zero()); st<E>(o, E::One()); st<E>(m, E::MinusOne()); return E::MinusOne().IsMinusOne() | E::Zero().IsZero() << 1 | E::One().IsOne() << 2; } \
  TVCF N##_pow(const void* a, const u64* e, void* r) { st<E>(r, ld<E>(a).Pow(*e)); return 0; }
#define EXT_ONLY(N, E)                                                                          \
  TVCF N##_mulb(const void* a, const void* b, void* r) { st<E>(r, ld<E>(a) * ld<E::BaseField>(b)); return 0; } \
  TVCF N##_mulbi(const void* a, const void* b, void* r) { E x = ld<E>(a); x *= ld<E::BaseField>(b); st<E>(r, x); return 0; } \
  TVCF N##_frob(const void* a, const u32* e, void* r) { E x = ld<E>(a); x.FrobeniusMapInPlace(*e); st<E>(r, x); return 0; } \
  TVCF N##_norm(const void* a, void* r) { st<E::BaseField>(r, ld<E>(a).Norm()); return 0; }        \
  TVCF N##_nr(const void* a, void* r) { st<E::BaseField>(r, E::Config::MulByNonResidue(ld<E::BaseField>(a))); return 0; } \
  TVCF N##_from(const E::BasePrimeField* a, void* r) { \
    st<E>(r, E::FromBasePrimeFields(absl::Span<const E::BasePrimeField>(a, E::ExtensionDegree()))); return E::ExtensionDegree(); } \
  TVCF N##_tobase(const void* a, void* r) { auto v = ld<E>(a).ToBaseFields(); for (size_t i = 0; i < v.size(); ++i) st<E::BaseField>((char*)r + i * sizeof(E::BaseField), v[i]); return v.size(); } \
  TVCF N##_iter(const void* a, void* r) { E x = ld<E>(a); size_t i = 0; for (auto it = x.begin(); it != x.end(); ++it) { st<E::BaseField>((char*)r + i * sizeof(E::BaseField), *it); ++i; } return i; }
#define EXT_QUAD(N, E)                                                                          \
  TVCF N##_conj(const void* a, void* r) { st<E>(r, ld<E>(a).Conjugate()); return 0; }              \
  TVCF N##_conji(const void* a, void* r) { E x = ld<E>(a); x.ConjugateInPlace(); st<E>(r, x); return 0; }
#define EXT_CYC(N, E)                                                                          \
  TVCF N##_cinv(const void* a, void* r) { auto o = ld<E>(a).CyclotomicInverse(); if (o) st<E>(r, *o); return o.has_value(); } \
  TVCF N##_cinvi(const void* a, void* r) { E x = ld<E>(a); auto o = x.CyclotomicInverseInPlace(); st<E>(r, x); return o.has_value(); } \
  TVCF N##_csq(const void* a, void* r) { st<E>(r, ld<E>(a).CyclotomicSquare()); return 0; } \
  TVCF N##_csqi(const void* a, void* r) { E x = ld<E>(a); x.CyclotomicSquareInPlace(); st<E>(r, x); return 0; } \
  TVCF N##_cpow(const void* a, const u64* e, void* r) { BigInt<1> k(*e); st<E>(r, ld<E>(a).CyclotomicPow(k)); return 0; }
#define EXT6(N, E)                                                                             \
  TVCF N##_by1(const void* a, const void* b, void* r) { E x = ld<E>(a); x.MulInPlaceBy1(ld<E::BaseField>(b)); st<E>(r, x); return 0; } \
  TVCF N##_by01(const void* a, const void* b, const void* c, void* r) { E x = ld<E>(a); x.MulInPlaceBy01(ld<E::BaseField>(b), ld<E::BaseField>(c)); st<E>(r, x); return 0; }
#define EXT12(N, E)                                                                             \
  TVCF N##_by034(const void* a, const void* b, const void* c, const void* d, void* r) { E x = ld<E>(a); using B = E::BaseField::BaseField; x.MulInPlaceBy034(ld<B>(b), ld<B>(c), ld<B>(d)); st<E>(r, x); return 0; } \
  TVCF N##_by014(const void* a, const void* b, const void* c, const void* d, void* r) { E x = ld<E>(a); using B = E::BaseField::BaseField; x.MulInPlaceBy014(ld<B>(b), ld<B>(c), ld<B>(d)); st<E>(r, x); return 0; }
#endif
