// the arguments the PLONK prover builds: blinding, grand products, permutation, shuffle and lookup arguments
#include "tvc_common.h"
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#ifdef TVC_IR
#include "absl/strings/substitute.h"
#include "tachyon/base/logging.h"
#include "irstub/tvc_sstream.h"
#define stringstream tvc_sstream
#define ostringstream tvc_sstream
#endif
#include "tachyon/crypto/commitments/polynomial_openings.h"
#include "tachyon/crypto/transcripts/transcript.h"
#include "tachyon/zk/base/entities/prover_base.h"
#include "tachyon/zk/lookup/halo2/permute_expression_pair.h"
#include "tachyon/zk/lookup/halo2/prover.h"
#include "tachyon/zk/lookup/log_derivative_halo2/prover.h"
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/permutation/grand_product_argument.h"
#include "tachyon/zk/plonk/permutation/permutation_prover.h"
#include "tachyon/zk/shuffle/prover.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/zk/expressions/expression_type.cc"
#include "tachyon/zk/plonk/base/column_type.cc"
#endif
typedef int32_t i32;
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
using F = bn254::Fr;
using Ex = std::unique_ptr<Expression<F>>;
using CS = ConstraintSystem<F>;
#include "plonk_sys.h"
TVCF tvc_init() { F::Init(); return 0; }
// a commitment scheme without commitments: its size and its types
struct Pcs {
  using Field = F; using Commitment = F; static constexpr size_t kMaxDegree = 63; static constexpr size_t kMaxExtendedDegree = 255; static constexpr bool kSupportsBatchMode = false;
  using Domain = UnivariateEvaluationDomain<F, kMaxDegree>; using ExtendedDomain = UnivariateEvaluationDomain<F, kMaxExtendedDegree>;
  using Evals = Domain::Evals; using Poly = Domain::DensePoly; using RationalEvals = Evals; using ExtendedEvals = ExtendedDomain::Evals; using ExtendedPoly = ExtendedDomain::DensePoly;
  size_t n; size_t N() const { return n; }
  template <typename C> bool Commit(const C&, F*) const { return true; }
};
using Ev = Pcs::Evals; using Po = Pcs::Poly;
struct Gen : public RandomFieldGeneratorBase<F> { const F* p; u64 at = 0; explicit Gen(const F* q) : p(q) {} F Generate() override { return p[at++]; } };
struct Pr { Gen g; ProverBase<Pcs> p; Pr(u64 n, u64 b, const F* rnd) : g(rnd), p(Pcs{n}, nullptr, Blinder<F>(&g, RowIndex(b))) { p.set_domain(UnivariateEvaluationDomainFactory<F, 63>::Create(n)); } };
static u64 put(const Ev& e, F* r) { u64 k = 0; for (auto& x : e.evaluations()) r[k++] = x; return k; }
static std::vector<Ev> cols(u64 n, u64 rows, const F* v) { std::vector<Ev> r; for (u64 j = 0; j < n; ++j) r.push_back(Ev(std::vector<F>(v + j * rows, v + (j + 1) * rows))); return r; }
// two circuits share the fixed columns
struct Tabs { std::vector<Ev> f, a[2], i[2]; std::vector<MultiPhaseRefTable<Ev>> t;
  Tabs(const u64* prog, u64 nc, u64 rows, const F* fx, const F* ad, const F* in, const F* ch) {
    f = cols(prog[1], rows, fx); for (u64 c = 0; c < nc; ++c) { a[c] = cols(prog[2], rows, ad + c * prog[2] * rows); i[c] = cols(prog[3], rows, in + c * prog[3] * rows); }
    for (u64 c = 0; c < nc; ++c) t.emplace_back(absl::MakeConstSpan(f), absl::MakeConstSpan(a[c]), absl::MakeConstSpan(i[c]), absl::Span<const F>(ch, prog[6])); } };
TVCF blind(const u64* n, const u64* b, const u64* last, const F* rnd, const F* v, F* r, u64* used) {
  Gen g(rnd); Blinder<F> bl(&g, RowIndex(*b)); Ev e(std::vector<F>(v, v + *n)); bool ok = bl.Blind(e, *last != 0); put(e, r); *used = g.at; return ok;
}
// mode: 0 CreatePolySerial, 1 CreatePoly, 2 CreateExcessivePoly (several columns, continued from a previous value)
TVCF grand(const u64* mode, const u64* n, const u64* b, const u64* nc, const F* rnd, const F* num, const F* den, const F* start, F* z, F* last) {
  Pr w(*n, *b, rnd); u64 N = *n; Ev e; *last = *start;
  using F1 = std::function<F(RowIndex)>; using F2 = std::function<void(absl::Span<F>, size_t, size_t)>; using F3 = std::function<F(size_t, RowIndex)>;
  if (*mode == 0) e = GrandProductArgument::CreatePolySerial(&w.p, F1([num](RowIndex i) { return num[i]; }), F1([den](RowIndex i) { return den[i]; }));
  else if (*mode == 1) e = GrandProductArgument::CreatePoly(&w.p, F2([num](absl::Span<F> c, size_t o, size_t s) { for (size_t i = 0; i < c.size(); ++i) c[i] *= num[o * s + i]; }), F2([den](absl::Span<F> c, size_t o, size_t s) { for (size_t i = 0; i < c.size(); ++i) c[i] = den[o * s + i]; }));
  else e = GrandProductArgument::CreateExcessivePoly(&w.p, F3([num, N](size_t c, RowIndex i) { return num[c * N + i]; }), F3([den, N](size_t c, RowIndex i) { return den[c * N + i]; }), size_t(*nc), *last);
  return put(e, z);
}
TVCF shuffles(const u64* prog, const F* co, const u64* nc, const u64* n, const u64* b, const F* rnd, const F* fx, const F* ad, const F* in, const F* ch, const F* theta, const F* gamma, F* z) {
  CS cs; World w; build(cs, w, prog, co); Pr p(*n, *b, rnd); Tabs t(prog, *nc, *n, fx, ad, in, ch); std::vector<shuffle::Prover<Po, Ev>> v(*nc);
  shuffle::Prover<Po, Ev>::BatchCompressPairs(v, p.p.domain(), cs.shuffles(), *theta, t.t);
  shuffle::Prover<Po, Ev>::BatchCreateGrandProductPolys(v, &p.p, *gamma);
  u64 k = 0; for (auto& x : v) for (auto& y : x.grand_product_polys()) k += put(y.evals(), z + k);
  return k;
}
TVCF permutation(const u64* prog, const F* co, const u64* nc, const u64* n, const u64* b, const F* rnd, const F* fx, const F* ad, const F* in, const F* ch, const u64* np, const F* perm, const F* beta, const F* gamma, F* z) {
  CS cs; World w; build(cs, w, prog, co); Pr p(*n, *b, rnd); Tabs t(prog, *nc, *n, fx, ad, in, ch); std::vector<PermutationProver<Po, Ev>> v(*nc);
  PermutationProvingKey<Po, Ev, Pcs::ExtendedEvals> pk(cols(*np, *n, perm), std::vector<Po>(), std::vector<Pcs::ExtendedEvals>());
  PermutationProver<Po, Ev>::BatchCreateGrandProductPolys(v, &p.p, cs.permutation(), t.t, cs.ComputeDegree(), pk, *beta, *gamma);
  u64 k = 0; for (auto& x : v) for (auto& y : x.grand_product_polys()) k += put(y.evals(), z + k);
  return k;
}
TVCF permute_pair(const u64* n, const u64* b, const F* rnd, const F* a, const F* s, F* ra, F* rs) {
  Pr p(*n, *b, rnd); lookup::Pair<Ev> in(Ev(std::vector<F>(a, a + *n)), Ev(std::vector<F>(s, s + *n))), out;
  if (!lookup::halo2::PermuteExpressionPair(&p.p, in, &out)) return 0;
  put(out.input(), ra); put(out.table(), rs); return 1;
}
TVCF lookups2(const u64* prog, const F* co, const u64* nc, const u64* n, const u64* b, const F* rnd, const F* fx, const F* ad, const F* in, const F* ch, const F* theta, const F* beta, const F* gamma, F* z, F* pa, F* pt) {
  using L = lookup::halo2::Prover<Po, Ev>; CS cs; World w; build(cs, w, prog, co); Pr p(*n, *b, rnd); Tabs t(prog, *nc, *n, fx, ad, in, ch); std::vector<L> v(*nc);
  L::BatchCompressPairs(v, p.p.domain(), cs.lookups(), *theta, t.t); L::BatchPermutePairs(v, &p.p); L::BatchCreateGrandProductPolys(v, &p.p, *beta, *gamma);
  u64 k = 0, m = 0; for (auto& x : v) { for (auto& y : x.grand_product_polys()) k += put(y.evals(), z + k); for (auto& y : x.permuted_pairs()) { put(y.input().evals(), pa + m); m += put(y.table().evals(), pt + m); } }
  return k;
}
TVCF lookups1(const u64* prog, const F* co, const u64* nc, const u64* n, const u64* b, const F* rnd, const F* fx, const F* ad, const F* in, const F* ch, const F* theta, const F* beta, F* z, F* pm) {
  using L = lookup::log_derivative_halo2::Prover<Po, Ev>; CS cs; World w; build(cs, w, prog, co); Pr p(*n, *b, rnd); Tabs t(prog, *nc, *n, fx, ad, in, ch); std::vector<L> v(*nc);
  L::BatchCompressPairs(v, p.p.domain(), cs.lookups(), *theta, t.t); L::BatchComputeMPolys(v, &p.p); L::BatchCreateGrandSumPolys(v, &p.p, *beta);
  u64 k = 0, m = 0; for (auto& x : v) { for (auto& y : x.grand_sum_polys()) k += put(y.evals(), z + k); for (auto& y : x.m_polys()) m += put(y.evals(), pm + m); }
  return k;
}
