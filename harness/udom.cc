#include "tvc_common.h"
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr_config.cc"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
constexpr size_t kM = (size_t{1} << 20) - 1;
template <typename F> using Dom = UnivariateEvaluationDomain<F, kM>;
// offset one is the domain itself
template <typename F> static std::unique_ptr<Dom<F>> mk(u64 n, const F* off, u64 coset) {
  std::unique_ptr<Dom<F>> d;
  // the factory does not instantiate for fields without a small subgroup
  if constexpr (std::is_same_v<F, BabyBear>) d = Radix2EvaluationDomain<F, kM>::Create(n);
  else if constexpr (std::is_same_v<F, bn384_small_two_adicity::Fr>) d = MixedRadixEvaluationDomain<F, kM>::Create(n);
  else d = UnivariateEvaluationDomainFactory<F, kM>::Create(n);
  if (coset) return d->GetCoset(*off);
  return d;
}
template <typename F> static u64 put(const std::vector<F>& c, F* r, u64 cap) {
  if (c.size() > cap) return ~u64{0};
  for (u64 i = 0; i < cap; ++i) r[i] = i < c.size() ? c[i] : F::Zero();
  return c.size();
}
#define UDOM(N, F)                                                                                            \
  TVCF N##_info(const u64* n, const u64* cs, const F* off, F* r) { auto d = mk<F>(*n, off, *cs); r[0] = d->group_gen(); r[1] = d->group_gen_inv(); r[2] = d->size_inv(); r[3] = d->size_as_field_element(); r[4] = d->offset(); r[5] = d->offset_inv(); r[6] = d->offset_pow_size(); return d->size() | u64{d->log_size_of_group()} << 32; } \
  TVCF N##_fft(const u64* n, const u64* cs, const F* off, const u64* m, const F* a, const u64* cap, F* r, F* s, F* g) { auto d = mk<F>(*n, off, *cs); *g = d->group_gen(); \
    UnivariateDensePolynomial<F, kM> p(UnivariateDenseCoefficients<F, kM>(std::vector<F>(a, a + *m), true)); auto e = d->FFT(p); u64 k = put(e.evaluations(), r, *cap); \
    auto e2 = d->FFT(std::move(p)); return k | put(e2.evaluations(), s, *cap) << 32; } \
  TVCF N##_ifft(const u64* n, const u64* cs, const F* off, const u64* m, const F* a, const u64* cap, F* r, F* s, F* g) { auto d = mk<F>(*n, off, *cs); *g = d->group_gen(); \
    UnivariateEvaluations<F, kM> e(std::vector<F>(a, a + *m)); auto p = d->IFFT(e); u64 k = put(p.coefficients().coefficients(), r, *cap); if (!p.coefficients().IsClean()) return ~u64{0}; \
    auto p2 = d->IFFT(std::move(e)); return k | put(p2.coefficients().coefficients(), s, *cap) << 32; } \
  TVCF N##_rt(const u64* n, const u64* cs, const F* off, const u64* m, const F* a, const u64* cap, F* r) { auto d = mk<F>(*n, off, *cs); \
    UnivariateDensePolynomial<F, kM> p(UnivariateDenseCoefficients<F, kM>(std::vector<F>(a, a + *m), true)); auto q = d->IFFT(d->FFT(p)); put(q.coefficients().coefficients(), r, *cap); return p == q; } \
  TVCF N##_lag(const u64* n, const u64* cs, const F* off, const F* tau, F* r, F* g) { auto d = mk<F>(*n, off, *cs); *g = d->group_gen(); return put(d->EvaluateAllLagrangeCoefficients(*tau), r, d->size()); } \
  TVCF N##_lagp(const u64* n, const u64* cs, const F* off, const F* tau, const u64* from, const u64* to, const u64* cap, F* r, F* g) { auto d = mk<F>(*n, off, *cs); *g = d->group_gen(); return put(d->EvaluatePartialLagrangeCoefficients(*tau, base::Range<size_t>(*from, *to)), r, *cap); } \
  TVCF N##_van(const u64* n, const u64* cs, const F* off, const F* tau, F* r) { auto d = mk<F>(*n, off, *cs); r[0] = d->EvaluateVanishingPolynomial(*tau); auto v = d->GetVanishingPolynomial(); r[1] = v.Evaluate(*tau); r[2] = v[0]; r[3] = v[d->size()]; return v.Degree() << 8 | v.NumElements(); } \
  TVCF N##_filt(const u64* n, const u64* cs, const F* off, const u64* m, const u64* cs2, const F* off2, const F* tau, F* r, F* s, F* g) { auto d = mk<F>(*n, off, *cs); *g = d->group_gen(); auto d2 = mk<F>(*m, off2, *cs2); auto p = d->GetFilterPolynomial(*d2); r[0] = p.Evaluate(*tau); auto o = d->EvaluateFilterPolynomial(*d2, *tau); if (o) *s = *o; return o.has_value(); } \
  TVCF N##_elem(const u64* n, const u64* cs, const F* off, const u64* i, F* r, F* g) { auto d = mk<F>(*n, off, *cs); *g = d->group_gen(); *r = d->GetElement(static_cast<int64_t>(*i)); return 0; } \
  TVCF N##_elems(const u64* n, const u64* cs, const F* off, const u64* cap, F* r, F* g) { auto d = mk<F>(*n, off, *cs); *g = d->group_gen(); return put(d->GetElements(), r, *cap); } \
  TVCF N##_dist(const u64* m, const F* a, const F* g, F* r) { UnivariateEvaluations<F, kM> e(std::vector<F>(a, a + *m)); Dom<F>::DistributePowers(e, *g); return put(e.evaluations(), r, *m); } \
  TVCF N##_swap(const u64* m, const F* a, F* r) { return put(SwapBitRevElements(std::vector<F>(a, a + *m)), r, *m); }
UDOM(f, bn254::Fr)
UDOM(b, BabyBear)
UDOM(m, bn384_small_two_adicity::Fr)
TVCF m_default(const u64* n) { return UnivariateEvaluationDomainFactory<bn384_small_two_adicity::Fr>::Create(*n)->size(); }
TVCF m_mixed(const u64* n) { return MixedRadixEvaluationDomain<bn384_small_two_adicity::Fr>::Create(*n)->size(); }
TVCF tvc_init() { bn254::Fr::Init(); BabyBear::Init(); bn384_small_two_adicity::Fr::Init(); return 0; }
