// PLONK verifier: the identities it evaluates and the openings it asks for
#include "tvc_common.h"
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#ifdef TVC_IR
#include "absl/strings/substitute.h"
#include "tachyon/base/logging.h"
#include "irstub/tvc_sstream.h"
#define stringstream tvc_sstream
#define ostringstream tvc_sstream
#endif
#include "tachyon/zk/lookup/halo2/verifier.h"
#include "tachyon/zk/lookup/log_derivative_halo2/verifier.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/halo2/proof.h"
#include "tachyon/zk/plonk/permutation/permutation_verifier.h"
#include "tachyon/zk/plonk/vanishing/vanishing_verifier.h"
#include "tachyon/zk/shuffle/verifier.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/zk/expressions/expression_type.cc"
#include "tachyon/zk/plonk/base/column_type.cc"
#endif
typedef int32_t i32;
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
using F = bn254::Fr;
using Ex = std::unique_ptr<Expression<F>>;
using CS = ConstraintSystem<F>;
using Poly = UnivariateDensePolynomial<F, 64>;
#include "plonk_sys.h"
TVCF tvc_init() { F::Init(); return 0; }
static std::vector<F> vec(const F* p, u64 n) { return std::vector<F>(p, p + n); }
// ev: fixed, advice, instance values by query (32 each), challenges (4); l: first, blind, last; s: theta, beta, gamma, x, x_next, x_prev, x_last
template <typename P> static P base_proof(const F* ev, const F* s) {
  P p; p.fixed_evals = vec(ev, 32); p.challenges = vec(ev + 96, 4); p.theta = s[0]; p.beta = s[1]; p.gamma = s[2];
  // the circuit under verification is the second of two
  p.advice_evals_vec = {std::vector<F>(32), vec(ev + 32, 32)}; p.instance_evals_vec = {std::vector<F>(32), vec(ev + 64, 32)}; p.advices_commitments_vec = {std::vector<F>(8), std::vector<F>(8)};
  return p;
}
static u64 put(const std::vector<F>& v, F* r) { for (u64 j = 0; j < v.size(); ++j) r[j] = v[j]; return v.size(); }
static u64 put(const std::vector<crypto::PolynomialOpening<Poly, F>>& v, F* r) { for (u64 j = 0; j < v.size(); ++j) { r[3 * j] = *v[j].poly_oracle; r[3 * j + 1] = v[j].point; r[3 * j + 2] = v[j].opening; } return v.size(); }
TVCF ver_perm(const u64* prog, const F* co, const F* ev, const F* l, const F* s, const u64* np, const u64* ns, const F* z, const F* zn, const F* zl, const F* zc, const F* sub, const F* sc, F* r, F* o, F* pk, u64* cnt) {
  CS cs; World w; build(cs, w, prog, co); auto p = base_proof<halo2::Halo2Proof<F, F>>(ev, s);
  p.permutation_product_commitments_vec = {{}, vec(zc, *np)}; p.permutation_product_evals_vec = {{}, vec(z, *np)}; p.permutation_product_next_evals_vec = {{}, vec(zn, *np)};
  std::vector<std::optional<F>> last; for (u64 j = 0; j < *np; ++j) { if (j + 1 < *np) last.push_back(zl[j]); else last.push_back(std::nullopt); } p.permutation_product_last_evals_vec = {{}, last};
  p.common_permutation_evals = vec(sub, *ns); std::vector<F> scv = vec(sc, *ns);
  auto data = p.ToPermutationVerifierData(1, absl::MakeConstSpan(scv)); PermutationVerifier<F, F> v(data); std::vector<F> e; LValues<F> lv(l[0], l[1], l[2]); v.Evaluate(cs, s[3], lv, e);
  std::vector<crypto::PolynomialOpening<Poly, F>> op, ok; PermutationOpeningPointSet<F> pts(s[3], s[4], s[6]); v.Open(pts, op); v.OpenPermutationProvingKey(s[3], ok);
  cnt[0] = put(op, o); cnt[1] = put(ok, pk); return put(e, r);
}
TVCF ver_lookup(const u64* prog, const F* co, const F* ev, const F* l, const F* s, const u64* n, const F* z, const F* zn, const F* a, const F* ap, const F* t, const F* zc, const F* ac, const F* tc, F* r, F* o, u64* cnt) {
  CS cs; World w; build(cs, w, prog, co); auto p = base_proof<halo2::Halo2Proof<F, F>>(ev, s); std::vector<lookup::Pair<F>> pc; for (u64 j = 0; j < *n; ++j) pc.push_back(lookup::Pair<F>(ac[j], tc[j]));
  p.lookup_permuted_commitments_vec = {{}, pc}; p.lookup_product_commitments_vec = {{}, vec(zc, *n)}; p.lookup_product_evals_vec = {{}, vec(z, *n)}; p.lookup_product_next_evals_vec = {{}, vec(zn, *n)};
  p.lookup_permuted_input_evals_vec = {{}, vec(a, *n)}; p.lookup_permuted_input_prev_evals_vec = {{}, vec(ap, *n)}; p.lookup_permuted_table_evals_vec = {{}, vec(t, *n)};
  LValues<F> lv(l[0], l[1], l[2]); lookup::halo2::Verifier<F, F> v(p, 1, lv); std::vector<F> e; v.Evaluate(cs.lookups(), e);
  std::vector<crypto::PolynomialOpening<Poly, F>> op; lookup::halo2::OpeningPointSet<F> pts(s[3], s[5], s[4]); v.Open(pts, op); cnt[0] = put(op, o); return put(e, r);
}
TVCF ver_logd(const u64* prog, const F* co, const F* ev, const F* l, const F* s, const u64* n, const F* z, const F* zn, const F* m, const F* zc, const F* mc, F* r, F* o, u64* cnt) {
  CS cs; World w; build(cs, w, prog, co); auto p = base_proof<halo2::LogDerivativeHalo2Proof<F, F>>(ev, s);
  p.lookup_m_poly_commitments_vec = {{}, vec(mc, *n)}; p.lookup_sum_commitments_vec = {{}, vec(zc, *n)}; p.lookup_sum_evals_vec = {{}, vec(z, *n)}; p.lookup_sum_next_evals_vec = {{}, vec(zn, *n)}; p.lookup_m_evals_vec = {{}, vec(m, *n)};
  LValues<F> lv(l[0], l[1], l[2]); lookup::log_derivative_halo2::Verifier<F, F> v(p, 1, lv); std::vector<F> e; v.Evaluate(cs.lookups(), e);
  std::vector<crypto::PolynomialOpening<Poly, F>> op; lookup::halo2::OpeningPointSet<F> pts(s[3], s[5], s[4]); v.Open(pts, op); cnt[0] = put(op, o); return put(e, r);
}
TVCF ver_shuffle(const u64* prog, const F* co, const F* ev, const F* l, const F* s, const u64* n, const F* z, const F* zn, const F* zc, F* r, F* o, u64* cnt) {
  CS cs; World w; build(cs, w, prog, co); auto p = base_proof<halo2::Halo2Proof<F, F>>(ev, s);
  p.shuffle_product_commitments_vec = {{}, vec(zc, *n)}; p.shuffle_product_evals_vec = {{}, vec(z, *n)}; p.shuffle_product_next_evals_vec = {{}, vec(zn, *n)};
  LValues<F> lv(l[0], l[1], l[2]); auto data = p.ToShuffleVerifierData(1); zk::shuffle::Verifier<F, F> v(data, lv); std::vector<F> e; v.Evaluate(cs.shuffles(), e);
  std::vector<crypto::PolynomialOpening<Poly, F>> op; zk::shuffle::OpeningPointSet<F> pts(s[3], s[4]); v.Open(pts, op); cnt[0] = put(op, o); return put(e, r);
}
struct Pcs { constexpr static bool kQueryInstance = true; };
TVCF ver_gates(const u64* prog, const F* co, const F* ev, const F* s, const u64* rows, const F* fc, const F* ac, const F* ic, F* r, F* o, F* of, u64* cnt) {
  CS cs; World w; build(cs, w, prog, co); auto p = base_proof<halo2::Halo2Proof<F, F>>(ev, s); p.advices_commitments_vec[1] = vec(ac, 8); p.vanishing_h_poly_commitments = {F::Zero()};
  std::vector<F> fcv = vec(fc, 8), icv = vec(ic, 8); auto data = p.ToVanishingVerifierData(1, absl::MakeConstSpan(fcv), absl::MakeConstSpan(icv)); VanishingVerifier<F, F> v(data); std::vector<F> e; v.Evaluate(cs, e);
  std::vector<crypto::PolynomialOpening<Poly, F>> op, ok; auto d = UnivariateEvaluationDomainFactory<F, 63>::Create(*rows);
  v.OpenAdviceInstanceColumns<Pcs>(d.get(), s[3], cs, op); v.OpenFixedColumns(d.get(), s[3], cs, ok); cnt[0] = put(op, o); cnt[1] = put(ok, of); return put(e, r);
}
