#include "tvc_common.h"
#include "tachyon/math/finite_fields/binary_fields/binary_fields.h"
#include "tachyon/math/finite_fields/binary_fields/binary_tower_operations.h"
using namespace tachyon;
using namespace tachyon::math;
template <typename F, typename U> static F ld(const U* a) {
  if constexpr (F::kBits == 128) return F(BigInt<2>{a[0], a[1]});
  else return F(static_cast<typename F::value_type>(a[0]));
}
template <typename F, typename U> static void st(U* r, F v) {
  if constexpr (F::kBits == 128) { BigInt<2> b = v.value(); r[0] = b[0]; r[1] = b[1]; }
  else r[0] = v.value();
}
template <typename F> using Ops = BinaryTowerOperations<F>;
#define BF(P, F, U)                                                                                       \
  TVCF P##_mul(const U* a, const U* b, U* r) { st<F>(r, ld<F>(a).Mul(ld<F>(b))); return 0; }              \
  TVCF P##_mulop(const U* a, const U* b, U* r) { st<F>(r, ld<F>(a) * ld<F>(b)); return 0; }               \
  TVCF P##_muli(const U* a, const U* b, U* r) { F x = ld<F>(a); x *= ld<F>(b); st<F>(r, x); return 0; }   \
  TVCF P##_mulself(const U* a, U* r) { F x = ld<F>(a); x *= x; st<F>(r, x); return 0; }                   \
  TVCF P##_add(const U* a, const U* b, U* r) { st<F>(r, ld<F>(a) + ld<F>(b)); return 0; }                 \
  TVCF P##_addi(const U* a, const U* b, U* r) { F x = ld<F>(a); x += ld<F>(b); st<F>(r, x); return 0; }   \
  TVCF P##_sub(const U* a, const U* b, U* r) { st<F>(r, ld<F>(a) - ld<F>(b)); return 0; }                 \
  TVCF P##_subi(const U* a, const U* b, U* r) { F x = ld<F>(a); x -= ld<F>(b); st<F>(r, x); return 0; }   \
  TVCF P##_neg(const U* a, U* r) { st<F>(r, -ld<F>(a)); return 0; }                                       \
  TVCF P##_negi(const U* a, U* r) { F x = ld<F>(a); x.NegateInPlace(); st<F>(r, x); return 0; }           \
  TVCF P##_dbl(const U* a, U* r) { st<F>(r, ld<F>(a).Double()); return 0; }                               \
  TVCF P##_dbli(const U* a, U* r) { F x = ld<F>(a); x.DoubleInPlace(); st<F>(r, x); return 0; }           \
  TVCF P##_sq(const U* a, U* r) { st<F>(r, ld<F>(a).Square()); return 0; }                                \
  TVCF P##_sqi(const U* a, U* r) { F x = ld<F>(a); x.SquareInPlace(); st<F>(r, x); return 0; }            \
  TVCF P##_alpha(const U* a, U* r) { st<F>(r, Ops<F>::MulByAlpha(ld<F>(a))); return 0; }                  \
  TVCF P##_inv(const U* a, U* r) { auto v = ld<F>(a).Inverse(); if (!v) return 0; st<F>(r, *v); return 1; } \
  TVCF P##_invi(const U* a, U* r) { F x = ld<F>(a); auto v = x.InverseInPlace(); st<F>(r, x); return v.has_value(); } \
  TVCF P##_div(const U* a, const U* b, U* r) { auto v = ld<F>(a) / ld<F>(b); if (!v) return 0; st<F>(r, *v); return 1; } \
  TVCF P##_pow(const U* a, const u64* e, U* r) { st<F>(r, ld<F>(a).Pow(BigInt<2>{e[0], e[1]})); return 0; } \
  TVCF P##_cmp(const U* a, const U* b) { F x = ld<F>(a), y = ld<F>(b); return (x == y) | (x != y) << 1 | (x < y) << 2 | (x > y) << 3 | (x <= y) << 4 | (x >= y) << 5; } \
  TVCF P##_pred(const U* a) { F x = ld<F>(a); return x.IsZero() | x.IsOne() << 1 | x.IsMinusOne() << 2; } \
  TVCF P##_const(U* r) { st<F>(r, F::Zero()); st<F>(r + 2, F::One()); st<F>(r + 4, F::MinusOne()); return 0; } \
  TVCF P##_big(const U* a, u64* r, U* s) { auto b = ld<F>(a).ToBigInt(); r[1] = 0; for (size_t i = 0; i < F::N; ++i) r[i] = b[i]; st<F>(s, F::FromBigInt(b)); return 0; } \
  TVCF P##_str(const U* a, const u64* pad, u8* r, u8* h, U* s) { F x = ld<F>(a); std::string d = x.ToString(), t = x.ToHexString(*pad); \
    for (u64 i = 0; i < 48; ++i) { r[i] = i < d.size() ? d[i] : 0; h[i] = i < t.size() ? t[i] : 0; } \
    auto y = F::FromDecString(d); auto z = F::FromHexString(t); if (!y || !z) return 0; st<F>(s, *y); st<F>(s + 2, *z); return 1; } \
  TVCF P##_parse(const u8* t, const u64* n, const u64* hex, U* r) { std::string_view s(reinterpret_cast<const char*>(t), *n); auto y = *hex ? F::FromHexString(s) : F::FromDecString(s); if (!y) return 0; st<F>(r, *y); return 1; } \
  TVCF P##_batch(const U* a, const u64* n, const U* c, U* r) { constexpr u64 k = F::kBits == 128 ? 2 : 1; std::vector<F> v, w; for (u64 i = 0; i < *n; ++i) v.push_back(ld<F>(a + k * i)); \
    w.resize(*n); bool ok = F::BatchInverse(v, &w, ld<F>(c)); if (!ok) return 0; for (u64 i = 0; i < *n; ++i) st<F>(r + k * i, w[i]); return 1; }
#define COMP(P, F, U, V)                                                                                  \
  TVCF P##_dec(const U* a, V* r, U* s) { auto [x, y] = ld<F>(a).Decompose(); using S = F::SubField; st<S>(r, x); st<S>(r + 1, y); st<F>(s, F::Compose(x, y)); return 0; }
#define ROW(P, F)                                                                                         \
  TVCF P##_row(const u8* a, u8* r) { for (u64 i = 0; i < (u64{1} << F::kBits); ++i) r[i] = (F(*a) * F(static_cast<u8>(i))).value(); return 0; } \
  TVCF P##_col(u8* s, u8* al, u8* iv) { for (u64 i = 0; i < (u64{1} << F::kBits); ++i) { F x(static_cast<u8>(i)); s[i] = x.Square().value(); al[i] = Ops<F>::MulByAlpha(x).value(); auto v = x.Inverse(); iv[i] = v ? v->value() : 0; } return 0; }
BF(f1, BinaryField1, u8) BF(f2, BinaryField2, u8) BF(f4, BinaryField4, u8) BF(f8, BinaryField8, u8)
BF(f16, BinaryField16, u16) BF(f32, BinaryField32, u32) BF(f64, BinaryField64, u64) BF(f128, BinaryField128, u64)
COMP(f16, BinaryField16, u16, u8) COMP(f32, BinaryField32, u32, u16) COMP(f64, BinaryField64, u64, u32) COMP(f128, BinaryField128, u64, u64)
ROW(f1, BinaryField1) ROW(f2, BinaryField2) ROW(f4, BinaryField4) ROW(f8, BinaryField8)
