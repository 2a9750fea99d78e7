#include "tvc_common.h"
#include <algorithm>
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/lagrange_interpolation.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
constexpr size_t kMax = 255;
template <typename F> using DP = UnivariateDensePolynomial<F, kMax>;
template <typename F> using SP = UnivariateSparsePolynomial<F, kMax>;
template <typename F> using EV = UnivariateEvaluations<F, kMax>;
template <typename F> static DP<F> D(u64 n, const F* a) { return DP<F>(UnivariateDenseCoefficients<F, kMax>(std::vector<F>(a, a + n), true)); }
template <typename F> static SP<F> S(u64 n, const u64* d, const F* a) {
  std::vector<UnivariateTerm<F>> t;
  for (u64 i = 0; i < n; ++i) t.push_back({d[i], a[i]});
  return SP<F>(UnivariateSparseCoefficients<F, kMax>(std::move(t), true));
}
template <typename F> static EV<F> E(u64 n, const F* a) { return EV<F>(std::vector<F>(a, a + n)); }
// writes the coefficients (zero padded); returns clean | (number of coefficients << 1)
template <typename F> static u64 put(const DP<F>& p, F* r, u64 cap) {
  const auto& c = p.coefficients().coefficients();
  if (c.size() > cap) return ~u64{0};
  for (u64 i = 0; i < cap; ++i) r[i] = i < c.size() ? c[i] : F::Zero();
  if (!p.coefficients().IsClean()) return c.size() << 1;
  return 1 | c.size() << 1;
}
// sparse: degrees must be strictly increasing and every coefficient non-zero
template <typename F> static u64 put(const SP<F>& p, F* r, u64 cap) {
  const auto& t = p.coefficients().terms();
  for (u64 i = 0; i < cap; ++i) r[i] = F::Zero();
  u64 ok = 1;
  if (!p.coefficients().IsClean()) ok = 0;
  for (size_t k = 0; k < t.size(); ++k) {
    if (t[k].degree >= cap) return ~u64{0};
    if (k && t[k - 1].degree >= t[k].degree) ok = 0;
    r[t[k].degree] = t[k].coefficient;
  }
  return ok | (t.empty() ? 0 : t.back().degree + 1) << 1;
}
template <typename F> static u64 put(const EV<F>& p, F* r, u64 cap) {
  const auto& c = p.evaluations();
  if (c.size() > cap) return ~u64{0};
  for (u64 i = 0; i < cap; ++i) r[i] = i < c.size() ? c[i] : F::Zero();
  return c.size();
}
#define BIN(N, F, A, B, X, Y, XA, YA)                                                          \
  TVCF N##_add##A##B(XA, YA, const u64* cap, F* r) { return put(X + Y, r, *cap); }             \
  TVCF N##_sub##A##B(XA, YA, const u64* cap, F* r) { return put(X - Y, r, *cap); }             \
  TVCF N##_mul##A##B(XA, YA, const u64* cap, F* r) { return put(X * Y, r, *cap); }             \
  TVCF N##_div##A##B(XA, YA, const u64* cap, F* r) { auto o = X / Y; return o ? put(*o, r, *cap) : ~u64{1}; } \
  TVCF N##_mod##A##B(XA, YA, const u64* cap, F* r) { auto o = X % Y; return o ? put(*o, r, *cap) : ~u64{1}; } \
  TVCF N##_dm##A##B(XA, YA, const u64* cap, F* r, F* s) { auto o = X.DivMod(Y); if (!o) return ~u64{1}; u64 q = put(o->quotient, r, *cap); return q | put(o->remainder, s, *cap) << 32; }
#define BINI(N, F, A, B, X, Y, XA, YA)                                                         \
  TVCF N##_addi##A##B(XA, YA, const u64* cap, F* r) { auto x = X; x += Y; return put(x, r, *cap); } \
  TVCF N##_subi##A##B(XA, YA, const u64* cap, F* r) { auto x = X; x -= Y; return put(x, r, *cap); } \
  TVCF N##_muli##A##B(XA, YA, const u64* cap, F* r) { auto x = X; x *= Y; return put(x, r, *cap); }
#define BIND(N, F, A, B, X, Y, XA, YA)                                                         \
  TVCF N##_divi##A##B(XA, YA, const u64* cap, F* r) { auto x = X; auto o = (x /= Y); return o ? put(x, r, *cap) : ~u64{1}; } \
  TVCF N##_modi##A##B(XA, YA, const u64* cap, F* r) { auto x = X; auto o = x.ModInPlace(Y); return o ? put(x, r, *cap) : ~u64{1}; }
#define UN(N, F, A, X, XA)                                                                     \
  TVCF N##_ali##A(XA, const u64* cap, F* r) { auto x = X; x += x; u64 k = put(x, r, *cap); auto y = X; y -= y; auto z = X; z *= z; u64 m = put(z, r + *cap, 2 * *cap); return k | u64{y.IsZero()} << 31 | m << 32; } \
  TVCF N##_neg##A(XA, const u64* cap, F* r) { auto x = X; u64 k = put(-x, r, *cap); x.NegateInPlace(); return k | put(x, r + *cap, *cap) << 32; } \
  TVCF N##_smul##A(XA, const F* k, const u64* cap, F* r) { auto x = X; u64 m = put(x * *k, r, *cap); x *= *k; return m | put(x, r + *cap, *cap) << 32; } \
  TVCF N##_sdiv##A(XA, const F* k, const u64* cap, F* r) { auto x = X; auto o = x / *k; if (!o) return u64{(x /= *k).has_value()} | ~u64{1}; u64 m = put(*o, r, *cap); if (!(x /= *k)) return 0; return m | put(x, r + *cap, *cap) << 32; } \
  TVCF N##_eval##A(XA, const F* k, F* r) { *r = (X).Evaluate(*k); return 0; }                  \
  TVCF N##_fold##A(XA, const F* k, const u64* cap, F* r) { return put((X).Fold(*k), r, *cap); } \
  TVCF N##_info##A(XA, const u64* cap, F* r) { auto x = X; const auto& y = x; *r = x.GetLeadingCoefficient(); for (u64 i = 0; i < *cap; ++i) r[i + 1] = y[i]; return x.Degree() << 8 | x.IsZero() << 1 | x.IsOne(); } \
  TVCF N##_dns##A(XA, const u64* cap, F* r) { return put((X).ToDense(), r, *cap); }            \
  TVCF N##_sps##A(XA, const u64* cap, F* r) { return put((X).ToSparse(), r, *cap); }
#define DA(n, a, F) const u64* n, const F* a
#define SA(n, d, a, F) const u64* n, const u64* d, const F* a
#define CM ,
#define UPOLY(N, F)                                                                            \
  BIN(N, F, d, d, D(*n, a), D(*m, b), const u64* n CM const F* a, const u64* m CM const F* b)  \
  BIN(N, F, d, s, D(*n, a), S(*m, e, b), const u64* n CM const F* a, const u64* m CM const u64* e CM const F* b) \
  BIN(N, F, s, d, S(*n, d, a), D(*m, b), const u64* n CM const u64* d CM const F* a, const u64* m CM const F* b) \
  BIN(N, F, s, s, S(*n, d, a), S(*m, e, b), const u64* n CM const u64* d CM const F* a, const u64* m CM const u64* e CM const F* b) \
  BINI(N, F, d, d, D(*n, a), D(*m, b), const u64* n CM const F* a, const u64* m CM const F* b) \
  BINI(N, F, d, s, D(*n, a), S(*m, e, b), const u64* n CM const F* a, const u64* m CM const u64* e CM const F* b) \
  BINI(N, F, s, s, S(*n, d, a), S(*m, e, b), const u64* n CM const u64* d CM const F* a, const u64* m CM const u64* e CM const F* b) \
  BIND(N, F, d, d, D(*n, a), D(*m, b), const u64* n CM const F* a, const u64* m CM const F* b) \
  BIND(N, F, d, s, D(*n, a), S(*m, e, b), const u64* n CM const F* a, const u64* m CM const u64* e CM const F* b) \
  UN(N, F, d, D(*n, a), const u64* n CM const F* a)                                            \
  UN(N, F, s, S(*n, d, a), const u64* n CM const u64* d CM const F* a)                         \
  TVCF N##_eqdd(const u64* n, const F* a, const F* b) { auto x = D(*n, a), y = D(*n, b); return (x == y) | (x != y) << 1; } \
  TVCF N##_eqss(const u64* n, const u64* d, const F* a, const F* b) { auto x = S(*n, d, a), y = S(*n, d, b); return (x == y) | (x != y) << 1; } \
  TVCF N##_roots(const u64* n, const F* a, const u64* cap, F* r) { return put(DP<F>::FromRoots(std::vector<F>(a, a + *n)), r, *cap); } \
  TVCF N##_rootss(const u64* n, const F* a, const u64* cap, F* r) { return put(SP<F>::FromRoots(std::vector<F>(a, a + *n)), r, *cap); } \
  TVCF N##_vanr(const u64* n, const F* a, const F* x, F* r) { std::vector<F> v(a, a + *n); r[0] = DP<F>::EvaluateVanishingPolyByRoots(v, *x); r[1] = DP<F>::EvaluateVanishingPolyByRootsSerial(v, *x); return 0; } \
  TVCF N##_lagr(const u64* n, const F* x, const F* y, const u64* cap, F* r) { DP<F> p; if (!LagrangeInterpolate(std::vector<F>(x, x + *n), std::vector<F>(y, y + *n), &p)) return 0; return put(p, r, *cap); } \
  TVCF N##_lagrbad(const F* x) { DP<F> p; return LagrangeInterpolate(std::vector<F>(x, x + 3), std::vector<F>(x, x + 2), &p); } \
  TVCF N##_ev(const u64* n, const F* a, const u64* m, const F* b, const u64* cap, F* r) {      \
    auto x = E(*n, a), y = E(*m, b); u64 c = *cap, k = put(x + y, r, c);                       \
    k |= put(x - y, r + c, c) << 8; k |= put(x * y, r + 2 * c, c) << 16; k |= put(-x, r + 3 * c, c) << 24; \
    auto z = x; z += y; k |= put(z, r + 4 * c, c) << 32; z = x; z -= y; k |= put(z, r + 5 * c, c) << 40; \
    z = x; z *= y; k |= put(z, r + 6 * c, c) << 48; z = x; z.NegateInPlace(); k |= put(z, r + 7 * c, c) << 56; return k; } \
  TVCF N##_evs(const u64* n, const F* a, const F* s, const u64* cap, F* r) { auto x = E(*n, a); u64 c = *cap, k = put(x * *s, r, c); auto z = x; z *= *s; return k | put(z, r + c, c) << 8; } \
  TVCF N##_evds(const u64* n, const F* a, const F* s, const u64* cap, F* r) { auto x = E(*n, a); u64 c = *cap; auto o = x / *s; auto z = x; auto oi = (z /= *s); if (!o || !oi) return ~u64{0} ^ (o.has_value() || oi.has_value()); u64 k = put(*o, r, c); return k | put(z, r + c, c) << 8; } \
  TVCF N##_evd(const u64* n, const F* a, const u64* m, const F* b, const u64* cap, F* r) { auto x = E(*n, a), y = E(*m, b); u64 c = *cap; auto o = x / y; auto z = x; auto oi = (z /= y); if (!o || !oi) return ~u64{0} ^ (o.has_value() || oi.has_value()); u64 k = put(*o, r, c); return k | put(z, r + c, c) << 8; } \
  TVCF N##_eve(const u64* n, const F* a, const u64* m, const F* b) { auto x = E(*n, a), y = E(*m, b); return (x == y) | (x != y) << 1 | x.IsZero() << 2 | x.IsOne() << 3 | x.Degree() << 8; }
UPOLY(f, bn254::Fr)
UPOLY(b, BabyBear)
TVCF tvc_init() { bn254::Fr::Init(); BabyBear::Init(); return 0; }
