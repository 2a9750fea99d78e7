// batched transforms over small packed fields
#include "tvc_common.h"
#include <vector>
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/polynomials/univariate/radix2_evaluation_domain.h"
#include "tachyon/math/polynomials/univariate/naive_batch_fft.h"
using namespace tachyon;
using namespace tachyon::math;
template <typename F> using M = RowMajorMatrix<F>;
template <typename F> static F gen(u64 n) { F g; CHECK(F::GetRootOfUnity(n, &g)); return g; }
template <typename F> static M<F> in(u64 r, u64 c, const F* a) { M<F> m(r, c); for (u64 i = 0; i < r; ++i) for (u64 j = 0; j < c; ++j) m(i, j) = a[i * c + j]; return m; }
template <typename F> static void out(const M<F>& m, F* r) { for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) r[i * m.cols() + j] = m(i, j); }
#define BATCH(N, F)                                                                                           \
  TVCF N##_fft(const u64* n, const u64* c, const F* a, F* r, F* g) { *g = gen<F>(*n); auto d = Radix2EvaluationDomain<F>::Create(*n); auto m = in(*n, *c, a); d->FFTBatch(m); out<F>(m, r); return 0; } \
  TVCF N##_ifft(const u64* n, const u64* c, const F* a, F* r, F* g) { *g = gen<F>(*n); auto d = Radix2EvaluationDomain<F>::Create(*n); auto m = in(*n, *c, a); d->IFFTBatch(m); out<F>(m, r); return 0; } \
  TVCF N##_nfft(const u64* n, const u64* c, const F* a, F* r, F* g) { *g = gen<F>(*n); NaiveBatchFFT<F> d; auto m = in(*n, *c, a); d.FFTBatch(m); out<F>(m, r); return 0; } \
  TVCF N##_nifft(const u64* n, const u64* c, const F* a, F* r, F* g) { *g = gen<F>(*n); NaiveBatchFFT<F> d; auto m = in(*n, *c, a); d.IFFTBatch(m); out<F>(m, r); return 0; } \
  TVCF N##_nlde(const u64* n, const u64* c, const u64* k, const F* sh, const F* a, F* r, F* g, F* g2) { *g = gen<F>(*n); *g2 = gen<F>(*n << *k); NaiveBatchFFT<F> d; const auto m = in(*n, *c, a); M<F> o(*n << *k, *c); d.CosetLDEBatch(m, *k, *sh, o); out<F>(o, r); return m == in(*n, *c, a); } \
  TVCF N##_lde(const u64* n, const u64* c, const u64* k, const u64* rev, const F* sh, const F* a, F* r, F* g, F* g2) { *g = gen<F>(*n); *g2 = gen<F>(*n << *k); auto d = Radix2EvaluationDomain<F>::Create(*n); auto m = in(*n, *c, a); M<F> o(*n << *k, *c); d->CosetLDEBatch(std::move(m), *k, *sh, o, *rev); out<F>(o, r); return 1; } \
  TVCF N##_ldec(const u64* n, const u64* c, const u64* k, const u64* rev, const F* sh, const F* a, F* r, F* g, F* g2) { *g = gen<F>(*n); *g2 = gen<F>(*n << *k); auto d = Radix2EvaluationDomain<F>::Create(*n); const auto m = in(*n, *c, a); M<F> o(*n << *k, *c); d->CosetLDEBatch(m, *k, *sh, o, *rev); out<F>(o, r); return m == in(*n, *c, a); } \
  /* a plain domain of the extended size after the extension */                                              \
  TVCF N##_after(const u64* n, const u64* k, const F* sh, const F* a, F* r, F* g) { *g = gen<F>(*n << *k); auto d = Radix2EvaluationDomain<F>::Create(*n); auto m = in(*n, 1, a); M<F> o(*n << *k, 1); d->CosetLDEBatch(std::move(m), *k, *sh, o, true); \
    auto e = Radix2EvaluationDomain<F>::Create(*n << *k); std::vector<F> v; for (u64 i = 0; i < (*n << *k); ++i) v.push_back(a[i % *n]); \
    UnivariateDensePolynomial<F, Radix2EvaluationDomain<F>::kMaxDegree> p(UnivariateDenseCoefficients<F, Radix2EvaluationDomain<F>::kMaxDegree>(v, true)); auto ev = e->FFT(p); for (u64 i = 0; i < v.size(); ++i) r[i] = ev[i]; return 0; }
BATCH(b, BabyBear)
BATCH(k, KoalaBear)
TVCF tvc_init() { PackedBabyBear::Init(); PackedKoalaBear::Init(); return 0; }
