#include "tvc_common.h"
#include <bitset>
#include <string>
#include <vector>
#include "tachyon/math/base/arithmetics.h"
#include "tachyon/math/base/big_int.h"
#include "tachyon/math/base/bit_iterator.h"
#include "tachyon/math/base/egcd.h"
#include "tachyon/base/bits.h"
using namespace tachyon;
using namespace tachyon::math;
template <size_t N> static BigInt<N> ld(const u64* a) { BigInt<N> r; memcpy(&r, a, 8 * N); return r; }
template <size_t N> static void st(u64* r, const BigInt<N>& b) { memcpy(r, &b, 8 * N); }
static u64 put(const std::string& s, u8* r, size_t cap) { memset(r, 0, cap); memcpy(r, s.data(), s.size() < cap ? s.size() : cap); return s.size(); }
#define BI(N)                                                                                        \
  TVCF b##N##_add(const u64* a, const u64* b, u64* r) { st<N>(r, ld<N>(a) + ld<N>(b)); return 0; }   \
  TVCF b##N##_addc(const u64* a, const u64* b, u64* r) { u64 c = 0; st<N>(r, ld<N>(a).Add(ld<N>(b), c)); return c; } \
  TVCF b##N##_addi(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a); x += ld<N>(b); st<N>(r, x); return 0; } \
  TVCF b##N##_addic(const u64* a, const u64* b, u64* r) { u64 c = 0; auto x = ld<N>(a); x.AddInPlace(ld<N>(b), c); st<N>(r, x); return c; } \
  TVCF b##N##_adda(const u64* a, u64* r) { u64 c = 0; auto x = ld<N>(a); x.AddInPlace(x, c); st<N>(r, x); return c; } \
  TVCF b##N##_sub(const u64* a, const u64* b, u64* r) { st<N>(r, ld<N>(a) - ld<N>(b)); return 0; }   \
  TVCF b##N##_subc(const u64* a, const u64* b, u64* r) { u64 c = 0; st<N>(r, ld<N>(a).Sub(ld<N>(b), c)); return c; } \
  TVCF b##N##_subi(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a); x -= ld<N>(b); st<N>(r, x); return 0; } \
  TVCF b##N##_subic(const u64* a, const u64* b, u64* r) { u64 c = 0; auto x = ld<N>(a); x.SubInPlace(ld<N>(b), c); st<N>(r, x); return c; } \
  TVCF b##N##_dbl(const u64* a, u64* r) { st<N>(r, ld<N>(a).MulBy2()); return 0; }                   \
  TVCF b##N##_dblc(const u64* a, u64* r) { u64 c = 0; st<N>(r, ld<N>(a).MulBy2(c)); return c; }      \
  TVCF b##N##_dbli(const u64* a, u64* r) { auto x = ld<N>(a); x.MulBy2InPlace(); st<N>(r, x); return 0; } \
  TVCF b##N##_dblic(const u64* a, u64* r) { u64 c = 0; auto x = ld<N>(a); x.MulBy2InPlace(c); st<N>(r, x); return c; } \
  TVCF b##N##_half(const u64* a, u64* r) { auto x = ld<N>(a); x.DivBy2InPlace(); st<N>(r, x); return 0; } \
  TVCF b##N##_shl(const u64* a, const u32* n, u64* r) { st<N>(r, ld<N>(a) << *n); return 0; }        \
  TVCF b##N##_shr(const u64* a, const u32* n, u64* r) { st<N>(r, ld<N>(a) >> *n); return 0; }        \
  TVCF b##N##_shli(const u64* a, const u32* n, u64* r) { auto x = ld<N>(a); x <<= *n; st<N>(r, x); return 0; } \
  TVCF b##N##_shri(const u64* a, const u32* n, u64* r) { auto x = ld<N>(a); x >>= *n; st<N>(r, x); return 0; } \
  TVCF b##N##_and(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a); x &= ld<N>(b); st<N>(r, ld<N>(a) & ld<N>(b)); st<N>(r + N, x); return 0; } \
  TVCF b##N##_or(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a); x |= ld<N>(b); st<N>(r, ld<N>(a) | ld<N>(b)); st<N>(r + N, x); return 0; } \
  TVCF b##N##_xor(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a); x ^= ld<N>(b); st<N>(r, ld<N>(a) ^ ld<N>(b)); st<N>(r + N, x); return 0; } \
  TVCF b##N##_eq(const u64* a, const u64* b) { return ld<N>(a) == ld<N>(b); }                        \
  TVCF b##N##_ne(const u64* a, const u64* b) { return ld<N>(a) != ld<N>(b); }                        \
  TVCF b##N##_lt(const u64* a, const u64* b) { return ld<N>(a) < ld<N>(b); }                         \
  TVCF b##N##_gt(const u64* a, const u64* b) { return ld<N>(a) > ld<N>(b); }                         \
  TVCF b##N##_le(const u64* a, const u64* b) { return ld<N>(a) <= ld<N>(b); }                        \
  TVCF b##N##_ge(const u64* a, const u64* b) { return ld<N>(a) >= ld<N>(b); }                        \
  TVCF b##N##_isz(const u64* a) { return ld<N>(a).IsZero(); }                                        \
  TVCF b##N##_iso(const u64* a) { return ld<N>(a).IsOne(); }                                         \
  TVCF b##N##_par(const u64* a) { auto x = ld<N>(a); return x.IsEven() | x.IsOdd() << 1; }           \
  TVCF b##N##_ends(const u64* a, u64* r) { auto x = ld<N>(a); const auto y = x; r[0] = x.smallest_limb(); r[1] = y.smallest_limb(); r[2] = x.biggest_limb(); r[3] = y.biggest_limb(); return 0; } \
  TVCF b##N##_const(u64* r) { st<N>(r, BigInt<N>::Zero()); st<N>(r + N, BigInt<N>::One()); st<N>(r + 2 * N, BigInt<N>::Max()); return 0; } \
  TVCF b##N##_mul(const u64* a, const u64* b, u64* r) { st<N>(r, ld<N>(a) * ld<N>(b)); return 0; }   \
  TVCF b##N##_muli(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a); x *= ld<N>(b); st<N>(r, x); return 0; } \
  TVCF b##N##_mulx(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a).MulExtend(ld<N>(b)); st<2 * N>(r, x); return 0; } \
  TVCF b##N##_mulw(const u64* a, const u64* b, u64* r) { auto x = ld<N>(a).Multiply(ld<N>(b)); st<N>(r, x.lo); st<N>(r + N, x.hi); return 0; } \
  TVCF b##N##_div(const u64* a, const u64* b, u64* q) { auto o = ld<N>(a) / ld<N>(b); if (o) st<N>(q, *o); return o.has_value(); } \
  TVCF b##N##_divi(const u64* a, const u64* b, u64* q) { auto x = ld<N>(a); auto o = (x /= ld<N>(b)); if (o) st<N>(q, x); return o.has_value(); } \
  TVCF b##N##_mod(const u64* a, const u64* b, u64* q) { auto x = ld<N>(a); x %= ld<N>(b); st<N>(q, ld<N>(a) % ld<N>(b)); st<N>(q + N, x); return 0; } \
  TVCF b##N##_divide(const u64* a, const u64* b, u64* q) { DivResult<BigInt<N>> o; bool ok = ld<N>(a).Divide(ld<N>(b), o); st<N>(q, o.quotient); st<N>(q + N, o.remainder); return ok; } \
  TVCF b##N##_ext64(const u64* a, const u32* o, const u32* n) { return ld<N>(a).ExtractBits64(*o, *n); } \
  TVCF b##N##_ext32(const u64* a, const u32* o, const u32* n) { return ld<N>(a).ExtractBits32(*o, *n); } \
  TVCF b##N##_extend(const u64* a, u64* r) { st<N + 2>(r, ld<N>(a).template Extend<N + 2>()); return 0; } \
  TVCF b##N##_shrink(const u64* a, u64* r) { st<N>(r, ld<N + 1>(a).template Shrink<N>()); return 0; } \
  TVCF b##N##_bytes(const u64* a, u8* l, u8* b) { auto x = ld<N>(a).ToBytesLE(); auto y = ld<N>(a).ToBytesBE(); memcpy(l, &x, 8 * N); memcpy(b, &y, 8 * N); return 0; } \
  TVCF b##N##_frombytes(const u8* a, u64* r) { std::array<u8, 8 * N> x; memcpy(&x, a, 8 * N); st<N>(r, BigInt<N>::FromBytesLE(x)); st<N>(r + N, BigInt<N>::FromBytesBE(x)); return 0; } \
  TVCF b##N##_frombytesv(const u64* n, const u8* a, u64* r) { std::vector<u8> x(a, a + *n); st<N>(r, BigInt<N>::FromBytesLE(x)); st<N>(r + N, BigInt<N>::FromBytesBE(x)); return 0; } \
  TVCF b##N##_bits(const u64* a, u8* l, u8* b) { auto x = ld<N>(a).ToBitsLE(); auto y = ld<N>(a).ToBitsBE(); for (size_t i = 0; i < 64 * N; ++i) { l[i] = x[i]; b[i] = y[i]; } return 0; } \
  TVCF b##N##_bits70(const u64* a, u8* l, u8* b) { constexpr size_t M = 64 * N - 7; auto x = ld<N>(a).template ToBitsLE<M>(); auto y = ld<N>(a).template ToBitsBE<M>(); for (size_t i = 0; i < M; ++i) { l[i] = x[i]; b[i] = y[i]; } return 0; } \
  TVCF b##N##_frombits(const u64* a, u64* r) { constexpr size_t M = 64 * N; std::bitset<M> x, y; for (size_t i = 0; i < M; ++i) { bool v = a[i / 64] >> (i % 64) & 1; x[i] = v; y[M - 1 - i] = v; } st<N>(r, BigInt<N>::FromBitsLE(x)); st<N>(r + N, BigInt<N>::FromBitsBE(y)); return 0; } \
  TVCF b##N##_frombits70(const u64* a, u64* r) { constexpr size_t M = 64 * N - 7; std::bitset<M> x, y; for (size_t i = 0; i < M; ++i) { bool v = a[i / 64] >> (i % 64) & 1; x[i] = v; y[M - 1 - i] = v; } st<N>(r, BigInt<N>::FromBitsLE(x)); st<N>(r + N, BigInt<N>::FromBitsBE(y)); return 0; } \
  TVCF b##N##_naf(const u64* a, u8* r) { auto v = ld<N>(a).ToNAF(); memset(r, 0, 64 * N + 1); for (size_t i = 0; i < v.size() && i < 64 * N + 1; ++i) r[i] = (u8)v[i]; return v.size(); } \
  TVCF b##N##_itbe(const u64* a, u8* r) { auto x = ld<N>(a); u64 k = 0; for (auto it = BitIteratorBE<BigInt<N>>::begin(&x); it != BitIteratorBE<BigInt<N>>::end(&x); ++it) r[k++] = *it; return k; } \
  TVCF b##N##_itle(const u64* a, u8* r) { auto x = ld<N>(a); u64 k = 0; for (auto it = BitIteratorLE<BigInt<N>>::begin(&x); it != BitIteratorLE<BigInt<N>>::end(&x); ++it) r[k++] = *it; return k; } \
  TVCF b##N##_itbez(const u64* a, u8* r) { auto x = ld<N>(a); memset(r, 0, 64 * N); u64 k = 0; for (auto it = BitIteratorBE<BigInt<N>>::begin(&x, true); it != BitIteratorBE<BigInt<N>>::end(&x); ++it) r[k++] = *it; return k; } \
  TVCF b##N##_itlez(const u64* a, u8* r) { auto x = ld<N>(a); memset(r, 0, 64 * N); u64 k = 0; for (auto it = BitIteratorLE<BigInt<N>>::begin(&x); it != BitIteratorLE<BigInt<N>>::end(&x, true); ++it) r[k++] = *it; return k; } \
  TVCF b##N##_dec(const u64* a, u8* r) { return put(ld<N>(a).ToString(), r, 160); }                  \
  TVCF b##N##_hex(const u64* a, u8* r) { return put(ld<N>(a).ToHexString(), r, 160); }               \
  TVCF b##N##_hexp(const u64* a, u8* r) { return put(ld<N>(a).ToHexString(true), r, 160); }          \
  TVCF b##N##_pdec(const u64* n, const u8* s, u64* r) { std::string t((const char*)s, *n); auto o = BigInt<N>::FromDecString(t); if (o) st<N>(r, *o); return o.has_value(); } \
  TVCF b##N##_phex(const u64* n, const u8* s, u64* r) { std::string t((const char*)s, *n); auto o = BigInt<N>::FromHexString(t); if (o) st<N>(r, *o); return o.has_value(); } \
  TVCF b##N##_pdecv(const u64* n, const u8* s, u64* r) { std::string t = std::string((const char*)s, *n) + "77"; auto o = BigInt<N>::FromDecString(std::string_view(t.data(), *n)); if (o) st<N>(r, *o); return o.has_value(); } \
  TVCF b##N##_phexv(const u64* n, const u8* s, u64* r) { std::string t = std::string((const char*)s, *n) + "77"; auto o = BigInt<N>::FromHexString(std::string_view(t.data(), *n)); if (o) st<N>(r, *o); return o.has_value(); } \
  TVCF b##N##_minv(const u64* a, const u64* p, const u64* r2, u64* r) { BigInt<N> o; bool ok = ld<N>(a).template MontgomeryInverse<false>(ld<N>(p), ld<N>(r2), o); if (ok) st<N>(r, o); return ok; } \
  TVCF b##N##_bit(const u64* a, const u32* i, u64* r) { auto x = ld<N>(a); bool t = BitTraits<BigInt<N>>::TestBit(x, *i); BitTraits<BigInt<N>>::SetBit(x, *i, !t); st<N>(r, x); return t; }
BI(1) BI(2) BI(3) BI(4) BI(6)
TVCF w_addc(const u64* a, const u64* b, const u64* c, u64* r) { auto x = internal::u64::AddWithCarry(*a, *b, *c); r[0] = x.result; r[1] = x.carry; return 0; }
TVCF w_subb(const u64* a, const u64* b, const u64* c, u64* r) { auto x = internal::u64::SubWithBorrow(*a, *b, *c); r[0] = x.result; r[1] = x.borrow; return 0; }
TVCF w_mac(const u64* a, const u64* b, const u64* c, const u64* d, u64* r) { auto x = internal::u64::MulAddWithCarry(*a, *b, *c, *d); r[0] = x.lo; r[1] = x.hi; return 0; }
TVCF w32_addc(const u32* a, const u32* b, const u32* c, u32* r) { auto x = internal::u32::AddWithCarry(*a, *b, *c); r[0] = x.result; r[1] = x.carry; return 0; }
TVCF w32_subb(const u32* a, const u32* b, const u32* c, u32* r) { auto x = internal::u32::SubWithBorrow(*a, *b, *c); r[0] = x.result; r[1] = x.borrow; return 0; }
TVCF w32_mac(const u32* a, const u32* b, const u32* c, const u32* d, u32* r) { auto x = internal::u32::MulAddWithCarry(*a, *b, *c, *d); r[0] = x.lo; r[1] = x.hi; return 0; }
TVCF egcd(const u64* a, const u64* b, u64* r) { auto x = EGCD<int64_t>::Compute((int64_t)*a, (int64_t)*b); r[0] = x.r; r[1] = x.s; r[2] = x.t; return 0; }
TVCF bits_pow2(const u64* a) { return base::bits::IsPowerOfTwo(*a); }
TVCF bits_ceil(const u64* a) { return (u64)(int64_t)base::bits::Log2Ceiling(*a); }
TVCF bits_floor(const u64* a) { return (u64)(int64_t)base::bits::Log2Floor(*a); }
TVCF bits_safeceil(const u64* a) { return base::bits::SafeLog2Ceiling(*a); }
TVCF bits_checked(const u64* a) { return base::bits::CheckedLog2(*a); }
TVCF bits_rev(const u64* a, u64* r) { r[0] = base::bits::BitRev((uint64_t)*a); r[1] = base::bits::BitRev((uint32_t)*a); return 0; }
TVCF bits_revlen(const u64* a, const u32* n) { return base::bits::ReverseBitsLen(*a, *n); }
TVCF bits_alignup(const u64* a, const u64* n) { return base::bits::AlignUp((size_t)*a, (size_t)*n); }
TVCF bits_aligndn(const u64* a, const u64* n) { return base::bits::AlignDown((size_t)*a, (size_t)*n); }
TVCF bits_nextpow(const u64* a) { return absl::bit_ceil(*a); }
TVCF tvc_init() { return 0; }
