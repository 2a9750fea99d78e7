#include "tvc_common.h"
#include <algorithm>
#include <memory>
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/multivariate/linear_combination.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h"
#include "tachyon/math/polynomials/multivariate/multivariate_polynomial.h"
#include "tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier.h"
#include "tachyon/crypto/sumcheck/multilinear/multilinear_sumcheck.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/finite_fields/test/gf7_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
constexpr size_t kMax = 10;
template <typename F> using EV = MultilinearDenseEvaluations<F, kMax>;
template <typename F> using ML = MultilinearExtension<EV<F>>;
template <typename F> static ML<F> M(u64 n, const F* a) { return ML<F>(EV<F>(std::vector<F>(a, a + n))); }
template <typename F> static u64 put(const ML<F>& p, F* r, u64 cap) {
  const auto& c = p.evaluations().evaluations();
  if (c.size() > cap) return ~u64{0};
  for (u64 i = 0; i < cap; ++i) r[i] = i < c.size() ? c[i] : F::Zero();
  return c.size();
}
// linear combination: k tables of 2^v values; t terms of l table indices each (length per term in len)
template <typename F> static void lc(u64 v, u64 k, const F* tab, u64 t, const F* co, const u64* len, const u64* ix, LinearCombination<EV<F>>* out) {
  std::vector<std::shared_ptr<EV<F>>> ts;
  u64 n = u64{1} << v;
  for (u64 i = 0; i < k; ++i) ts.push_back(std::make_shared<EV<F>>(std::vector<F>(tab + i * n, tab + (i + 1) * n)));
  for (u64 i = 0, p = 0; i < t; ++i) {
    std::vector<std::shared_ptr<EV<F>>> e;
    for (u64 j = 0; j < len[i]; ++j) e.push_back(ts[ix[p++]]);
    out->AddTerm(co[i], e);
  }
}
template <typename F> static std::vector<F> V(u64 n, const F* a) { return std::vector<F>(a, a + n); }
#define BINOP(N, F, nm, e1, e2)                                                                                   \
  TVCF N##_##nm(const u64* n, const F* a, const u64* m, const F* b, const u64* cap, F* r) { e1 }                   \
  TVCF N##_##nm##i(const u64* n, const F* a, const u64* m, const F* b, const u64* cap, F* r) { auto x = M(*n, a); auto y = M(*m, b); e2 }
#define MLE(N, F)                                                                                                 \
  BINOP(N, F, add, return put(M(*n, a) + M(*m, b), r, *cap);, x += y; return put(x, r, *cap);)                    \
  BINOP(N, F, sub, return put(M(*n, a) - M(*m, b), r, *cap);, x -= y; return put(x, r, *cap);)                    \
  BINOP(N, F, mul, return put(M(*n, a) * M(*m, b), r, *cap);, x *= y; return put(x, r, *cap);)                    \
  BINOP(N, F, div, auto o = M(*n, a) / M(*m, b); if (!o) return ~u64{1}; return put(*o, r, *cap);, auto o = (x /= y); if (!o) return ~u64{1}; return put(x, r, *cap);) \
  TVCF N##_muls(const u64* n, const F* a, const u64* cap, F* r) { auto x = M(*n, a); x *= x; return put(x, r, *cap); } \
  TVCF N##_adds(const u64* n, const F* a, const u64* cap, F* r) { auto x = M(*n, a); x += x; return put(x, r, *cap); } \
  TVCF N##_subs(const u64* n, const F* a, const u64* cap, F* r) { auto x = M(*n, a); x -= x; return put(x, r, *cap); } \
  TVCF N##_neg(const u64* n, const F* a, const u64* cap, F* r) { return put(-M(*n, a), r, *cap); }                \
  TVCF N##_negi(const u64* n, const F* a, const u64* cap, F* r) { auto x = M(*n, a); x.NegateInPlace(); return put(x, r, *cap); } \
  TVCF N##_pred(const u64* n, const F* a) { auto x = M(*n, a); u64 f = 0; if (x.IsZero()) f |= 1; if (x.IsOne()) f |= 2; return f | x.Degree() << 8; } \
  TVCF N##_eq(const u64* n, const F* a, const u64* m, const F* b) { auto x = M(*n, a); auto y = M(*m, b); u64 f = 0; if (x == y) f |= 1; if (x != y) f |= 2; return f; } \
  TVCF N##_at(const u64* n, const F* a, const u64* i, F* r) { auto x = M(*n, a); r[0] = x[*i]; r[1] = *i < *n ? x.at(*i) : x[*i]; return 0; } \
  TVCF N##_one(const u64* d, const u64* cap, F* r) { return put(ML<F>::One(*d), r, *cap); }                       \
  TVCF N##_eval(const u64* n, const F* a, const u64* k, const F* p, F* r) { *r = M(*n, a).Evaluate(V(*k, p)); return 0; } \
  TVCF N##_fix(const u64* n, const F* a, const u64* k, const F* p, const u64* cap, F* r, F* s) { EV<F> e(V(*n, a)); auto o = e.FixVariables(V(*k, p)); u64 c = put(ML<F>(o), r, *cap); \
    if (e.evaluations() != V(*n, a)) return ~u64{0}; auto q = e.FixVariablesInPlace(V(*k, p)); if (q.evaluations() != e.evaluations()) return ~u64{0}; put(ML<F>(e), s, *cap); return c; } \
  TVCF N##_comb(const u64* v, const u64* k, const F* tab, const u64* t, const F* co, const u64* len, const u64* ix, F* r) { LinearCombination<EV<F>> l(*v); lc(*v, *k, tab, *t, co, len, ix, &l); *r = l.Combine(); return l.max_evaluations() | l.flattened_ml_evaluations().size() << 8 | l.terms().size() << 16; } \
  TVCF N##_lceval(const u64* v, const u64* k, const F* tab, const u64* t, const F* co, const u64* len, const u64* ix, const F* p, F* r) { LinearCombination<EV<F>> l(*v); lc(*v, *k, tab, *t, co, len, ix, &l); *r = l.Evaluate(V(*v, p)); return 0; } \
  TVCF N##_prove(const u64* v, const u64* k, const F* tab, const u64* t, const F* co, const u64* len, const u64* ix, const F* p, F* r) { LinearCombination<EV<F>> l(*v); lc(*v, *k, tab, *t, co, len, ix, &l); \
    auto key = crypto::SumcheckProvingKey<EV<F>>::Build(l); crypto::SumcheckProver<EV<F>, kMax> pr(std::move(key)); u64 o = 0; \
    for (u64 i = 0; i < *v; ++i) { auto m = i ? pr.Round(crypto::SumcheckVerifierMsg<F>{p[i - 1]}) : pr.Round(); for (const F& f : m.evaluations.evaluations()) r[o++] = f; } return o; } \
  TVCF N##_verify(const u64* v, const u64* d, const F* g, const F* sum, F* pt, F* ex) { crypto::SumcheckVerifyingKey key; key.num_variables = *v; key.max_evaluations = *d; crypto::SumcheckVerifier<EV<F>> ve(key); std::vector<F> ch; \
    for (u64 i = 0; i < *v; ++i) { crypto::SumcheckProverMsg<F, kMax> m{UnivariateEvaluations<F, kMax>(V(*d + 1, g + i * (*d + 1)))}; auto c = ve.Round(std::move(m)); pt[i] = c.random_value; ch.push_back(c.random_value); } \
    crypto::Subclaim<F> s; if (!ve.CheckAndGenerateSubclaim(*sum, &s)) return 0; if (s.point != ch) return 2; *ex = s.expected_evaluation; return 1; } \
  TVCF N##_full(const u64* v, const u64* k, const F* tab, const u64* t, const F* co, const u64* len, const u64* ix) { LinearCombination<EV<F>> l(*v); lc(*v, *k, tab, *t, co, len, ix, &l); return crypto::MultilinearSumcheck<EV<F>>::template RunInteractiveProtocol<kMax>(l, *v); } \
  TVCF N##_interp(const u64* n, const F* a, const F* x, F* r) { *r = crypto::InterpolateUniPoly(V(*n, a), *x); return 0; }
// multivariate sparse polynomials: 3 variables, exponents < 4; a term is (e0, e1, e2, coefficient)
template <typename F> using MC = MultivariateSparseCoefficients<F, 32>;
template <typename F> using MP = MultivariatePolynomial<MC<F>>;
template <typename F> static MP<F> P(u64 nv, u64 n, const u64* e, const F* c) {
  using L = typename MC<F>::Literal; using El = typename MC<F>::Element;
  if (!n) return MP<F>::Zero();
  std::vector<typename MC<F>::Term> t;
  for (u64 i = 0; i < n; ++i) {
    std::vector<El> l;
    for (u64 j = 0; j < 3; ++j) if (e[3 * i + j]) l.push_back(El{j, e[3 * i + j]});
    if (l.empty()) l.push_back(El{0, 0});
    t.push_back({L(l), c[i]});
  }
  std::sort(t.begin(), t.end(), [](const auto& a, const auto& b) { return a.literal < b.literal; });
  return MP<F>(MC<F>(nv, std::move(t)));
}
template <typename F> static u64 putm(const MP<F>& p, F* r) {
  for (u64 i = 0; i < 64; ++i) r[i] = F::Zero();
  u64 ok = 1; std::vector<u64> seen;
  for (const auto& t : p.coefficients().terms()) {
    u64 e[3] = {0, 0, 0};
    for (const auto& el : t.literal.elements) { if (el.variable > 2) return 0; e[el.variable] += el.exponent; }
    if (e[0] > 3 || e[1] > 3 || e[2] > 3) return 0;
    u64 k = e[0] + 4 * e[1] + 16 * e[2];
    for (u64 s : seen) if (s == k) ok = 0;
    seen.push_back(k);
    r[k] += t.coefficient;
    if (t.coefficient.IsZero()) ok = 0;
  }
  const auto& ts = p.coefficients().terms();
  for (size_t i = 1; i < ts.size(); ++i) if (!(ts[i - 1].literal < ts[i].literal)) ok = 0;
  return ok;
}
#define MV(N, F)                                                                                                  \
  TVCF N##_vadd(const u64* n, const u64* d, const F* a, const u64* m, const u64* e, const F* b, F* r) { return putm(P(3, *n, d, a) + P(3, *m, e, b), r); } \
  TVCF N##_vaddi(const u64* n, const u64* d, const F* a, const u64* m, const u64* e, const F* b, F* r) { auto x = P(3, *n, d, a); x += P(3, *m, e, b); return putm(x, r); } \
  TVCF N##_vsub(const u64* n, const u64* d, const F* a, const u64* m, const u64* e, const F* b, F* r) { return putm(P(3, *n, d, a) - P(3, *m, e, b), r); } \
  TVCF N##_vsubi(const u64* n, const u64* d, const F* a, const u64* m, const u64* e, const F* b, F* r) { auto x = P(3, *n, d, a); x -= P(3, *m, e, b); return putm(x, r); } \
  TVCF N##_vneg(const u64* n, const u64* d, const F* a, F* r) { return putm(-P(3, *n, d, a), r); }                \
  TVCF N##_vnegi(const u64* n, const u64* d, const F* a, F* r) { auto x = P(3, *n, d, a); x.NegateInPlace(); return putm(x, r); } \
  TVCF N##_veval(const u64* n, const u64* d, const F* a, const F* p, F* r) { *r = P(3, *n, d, a).Evaluate(V(3, p)); return 0; } \
  TVCF N##_vaddeval(const u64* n, const u64* d, const F* a, const u64* m, const u64* e, const F* b, const F* p, F* r, F* s) { *r = (P(3, *n, d, a) + P(3, *m, e, b)).Evaluate(V(3, p)); *s = (P(3, *n, d, a) - P(3, *m, e, b)).Evaluate(V(3, p)); return 0; } \
  TVCF N##_vpred(const u64* n, const u64* d, const F* a) { auto x = P(3, *n, d, a); u64 f = 0; if (x.IsZero()) f |= 1; if (x.IsOne()) f |= 2; return f | (x.IsZero() ? 0 : x.Degree()) << 8; } \
  TVCF N##_veq(const u64* n, const u64* d, const F* a, const u64* m, const u64* e, const F* b) { auto x = P(3, *n, d, a); auto y = P(3, *m, e, b); u64 f = 0; if (x == y) f |= 1; if (x != y) f |= 2; return f; } \
  TVCF N##_vget(const u64* n, const u64* d, const F* a, const u64* q, F* r) { const auto x = P(3, *n, d, a); using El = typename MC<F>::Element; std::vector<El> l; for (u64 j = 0; j < 3; ++j) if (q[j]) l.push_back(El{j, q[j]}); if (l.empty()) l.push_back(El{0, 0}); r[0] = x[typename MC<F>::Literal(l)]; r[1] = x.at(typename MC<F>::Literal(l)); return 0; }
TVCF tvc_init() { bn254::Fr::Init(); GF7::Init(); return 0; }
MLE(fr, bn254::Fr) MLE(g7, GF7)
MV(fr, bn254::Fr) MV(g7, GF7)
