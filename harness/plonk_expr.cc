// PLONK expressions: construction, degree, evaluation by prover and verifier, compression, graph evaluation, selector substitution
#include "tvc_common.h"
#include <memory>
#include <string>
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/expressions/compress_expression.h"
#include "tachyon/zk/plonk/expressions/evaluator/identifier.h"
#include "tachyon/zk/plonk/expressions/evaluator/selector_replacer.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_extractor.h"
#include "tachyon/zk/plonk/expressions/evaluator/simple_selector_finder.h"
#include "tachyon/zk/plonk/expressions/expression_factory.h"
#include "tachyon/zk/plonk/expressions/proving_evaluator.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/constraint_system/selector_compressor.h"
#include "tachyon/zk/plonk/vanishing/evaluation_input.h"
#include "tachyon/zk/plonk/vanishing/graph_evaluator.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/zk/expressions/expression_type.cc"
#include "tachyon/zk/plonk/vanishing/calculation.cc"
#include "tachyon/zk/plonk/vanishing/value_source.cc"
#include "tachyon/zk/plonk/base/column_type.cc"
#endif
typedef int32_t i32; typedef int64_t i64;
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
using F = bn254::Fr;
using Ex = std::unique_ptr<Expression<F>>;
using Ev = UnivariateEvaluations<F, 64>;
using EF0 = tachyon::zk::ExpressionFactory<F>;
using PF0 = tachyon::zk::plonk::ExpressionFactory<F>;
// postfix program; word: op, a << 8, (rotation + 2^15) << 24, query index << 40
static Ex parse(u64 n, const u64* p, const F* co) {
  std::vector<Ex> st;
  auto pop = [&] { Ex e = std::move(st.back()); st.pop_back(); return e; };
  for (u64 j = 0; j < n; ++j) {
    u64 w = p[j], a = (w >> 8) & 0xffff, q = (w >> 40) & 0xffff; Rotation rot(i32((w >> 24) & 0xffff) - 0x8000);
    switch (w & 0xff) {
      case 0: st.push_back(EF0::Constant(co[a])); break;
      case 1: st.push_back(PF0::Selector(Selector::Simple(a))); break;
      case 2: st.push_back(PF0::Selector(Selector::Complex(a))); break;
      case 3: st.push_back(PF0::Fixed(FixedQuery(q, rot, FixedColumnKey(a)))); break;
      case 4: st.push_back(PF0::Advice(AdviceQuery(q, rot, AdviceColumnKey(a)))); break;
      case 5: st.push_back(PF0::Instance(InstanceQuery(q, rot, InstanceColumnKey(a)))); break;
      case 6: st.push_back(PF0::Challenge(Challenge(a, Phase(0)))); break;
      case 7: st.push_back(EF0::Negated(pop())); break;
      case 8: { Ex r = pop(), l = pop(); st.push_back(EF0::Sum(std::move(l), std::move(r))); break; }
      case 9: { Ex r = pop(), l = pop(); st.push_back(EF0::Product(std::move(l), std::move(r))); break; }
      case 10: st.push_back(EF0::Scaled(pop(), co[a])); break;
      case 11: { Ex r = pop(), l = pop(); st.push_back(std::move(l) + std::move(r)); break; }
      case 12: { Ex r = pop(), l = pop(); st.push_back(std::move(l) - std::move(r)); break; }
      case 13: { Ex r = pop(), l = pop(); st.push_back(std::move(l) * std::move(r)); break; }
      case 14: st.push_back(pop() * co[a]); break;
      case 15: st.push_back(-pop()); break;
      case 16: { Ex r = pop(), l = pop(); st.push_back(l + r); break; }
      case 17: { Ex r = pop(), l = pop(); st.push_back(l - r); break; }
      case 18: { Ex r = pop(), l = pop(); st.push_back(l * r); break; }
      case 19: { Ex l = pop(); st.push_back(l * co[a]); break; }
      case 20: { Ex l = pop(); st.push_back(-l); break; }
      case 21: { Ex l = pop(); st.push_back(l->Clone()); break; }
      case 22: { Ex l = pop(); st.push_back(-*l); break; }
    }
  }
  return pop();
}
static std::vector<Ex> parse_many(u64 m, const u64* len, const u64* p, const F* co) { std::vector<Ex> r; for (u64 j = 0; j < m; ++j) { r.push_back(parse(len[j], p, co)); p += len[j]; } return r; }
static std::vector<Ev> cols(u64 n, u64 rows, const F* v) { std::vector<Ev> r; for (u64 j = 0; j < n; ++j) r.push_back(Ev(std::vector<F>(v + j * rows, v + (j + 1) * rows))); return r; }
TVCF tvc_init() { F::Init(); return 0; }
// ---- construction
TVCF expr_meta(const u64* n, const u64* p, const F* co, u64* r) {
  Ex e = parse(*n, p, co), c = e->Clone();
  r[0] = e->Degree(); r[1] = e->Complexity(); r[2] = *e == *c; r[3] = *e != *c; r[4] = c->Degree(); r[5] = c->Complexity();
  r[6] = ContainsSimpleSelector(e.get());
  auto s = ExtractSimpleSelector(e.get()); r[7] = s.has_value(); r[8] = s.has_value() ? s->index() : 0;
  return 0;
}
TVCF expr_eq(const u64* n, const u64* m, const u64* p, const u64* q, const F* a, const F* b) { Ex e = parse(*n, p, a), g = parse(*m, q, b); return u64(*e == *g) | u64(*e != *g) << 1 | u64(*g == *e) << 2; }
TVCF same_identifier(const u64* n, const u64* m, const u64* p, const u64* q, const F* a, const F* b) { Ex e = parse(*n, p, a), g = parse(*m, q, b); return GetIdentifier(e.get()) == GetIdentifier(g.get()); }
TVCF rot_index(const u64* v, const u64* idx, const u64* sc, const u64* size) { return Rotation(i32(*v)).GetIndex(i32(*idx), i32(*sc), i32(*size)); }
TVCF rotate_omega(const u64* size, const u64* v, const F* x, F* r) { auto d = UnivariateEvaluationDomainFactory<F, 63>::Create(*size); *r = Rotation(i32(*v)).RotateOmega(d.get(), *x); return 0; }
// ---- evaluation. dims: rows, fixed, advice, instance, challenges, rotation scale
TVCF prove_eval(const u64* n, const u64* p, const F* co, const u64* dim, const u64* idx, const F* fx, const F* ad, const F* ii, const F* ch, F* r) {
  Ex e = parse(*n, p, co); auto f = cols(dim[1], dim[0], fx), a = cols(dim[2], dim[0], ad), i = cols(dim[3], dim[0], ii);
  MultiPhaseRefTable<Ev> t(f, a, i, absl::Span<const F>(ch, dim[4]));
  ProvingEvaluator<Ev> ev(i32(*idx), i32(dim[0]), i32(dim[5]), t); *r = e->Evaluate(&ev); return 0;
}
TVCF verify_eval(const u64* n, const u64* p, const F* co, const u64* dim, const F* fx, const F* ad, const F* ii, const F* ch, F* r) {
  Ex e = parse(*n, p, co); MultiPhaseEvaluations<F> t(absl::Span<const F>(fx, dim[0]), absl::Span<const F>(ad, dim[1]), absl::Span<const F>(ii, dim[2]), absl::Span<const F>(ch, dim[3]));
  VerifyingEvaluator<F> ev(t); *r = e->Evaluate(&ev); return 0;
}
TVCF compress(const u64* m, const u64* len, const u64* p, const F* co, const u64* dim, const F* fx, const F* ad, const F* ii, const F* ch, const F* theta, F* r) {
  auto es = parse_many(*m, len, p, co); auto f = cols(dim[1], dim[0], fx), a = cols(dim[2], dim[0], ad), i = cols(dim[3], dim[0], ii);
  MultiPhaseRefTable<Ev> t(f, a, i, absl::Span<const F>(ch, dim[4]));
  ProvingEvaluator<Ev> ev(0, i32(dim[0]), i32(dim[5]), t); auto d = UnivariateEvaluationDomainFactory<F, 63>::Create(dim[0]);
  Ev o = CompressExpressions(d.get(), es, *theta, ev); u64 k = 0; for (auto& x : o.evaluations()) r[k++] = x; return k;
}
// several expressions folded with y, as the prover folds its gates
TVCF graph(const u64* m, const u64* len, const u64* p, const F* co, const u64* dim, const u64* idx, const F* fx, const F* ad, const F* ii, const F* ch, const F* s, F* r) {
  auto es = parse_many(*m, len, p, co); auto f = cols(dim[1], dim[0], fx), a = cols(dim[2], dim[0], ad), i = cols(dim[3], dim[0], ii);
  MultiPhaseRefTable<Ev> t(f, a, i, absl::Span<const F>(ch, dim[4]));
  GraphEvaluator<F> g; std::vector<ValueSource> parts; for (auto& e : es) parts.push_back(g.AddExpression(e.get()));
  ValueSource bg[4] = {ValueSource::Theta(), ValueSource::Beta(), ValueSource::Gamma(), ValueSource::Y()};
  g.AddCalculation(Calculation::Horner(ValueSource::PreviousValue(), std::move(parts), bg[dim[6]]));
  EvaluationInput<Ev> d(g.CreateInitialIntermediates(), g.CreateEmptyRotations(), t, s[0], s[1], s[2], s[3], i32(dim[0]));
  *r = g.Evaluate(d, *idx, i32(dim[5]), s[4]); return 0;
}
// ---- selectors
TVCF replace(const u64* n, const u64* m, const u64* len, const u64* p, const F* co, const u64* lookup, const F* fx, const F* ad, const F* ii, const F* ch, F* r) {
  Ex e = parse(*n, p, co); auto rp = parse_many(*m, len, p + *n, co); std::vector<base::Ref<const Expression<F>>> rf; for (auto& x : rp) rf.push_back(base::Ref<const Expression<F>>(x.get()));
  Ex o = ReplaceSelectors(e.get(), rf, *lookup);
  MultiPhaseEvaluations<F> t(absl::Span<const F>(fx, 4), absl::Span<const F>(ad, 4), absl::Span<const F>(ii, 4), absl::Span<const F>(ch, 4));
  VerifyingEvaluator<F> ev(t); *r = o->Evaluate(&ev); return o->Degree();
}
// out: number of new columns, then per selector (by selector index): number of times assigned, combination, degree of the substituted expression; va[sel*rows + row]: its value on that row
TVCF selcompress(const u64* m, const u64* rows, const u64* bits, const u64* deg, const u64* maxdeg, u64* r, F* va, F* cmb) {
  std::vector<std::vector<bool>> s(*m); for (u64 j = 0; j < *m; ++j) for (u64 k = 0; k < *rows; ++k) s[j].push_back((bits[j] >> k) & 1);
  size_t nc = 0; SelectorCompressor<F> c;
  c.Process(s, std::vector<size_t>(deg, deg + *m), *maxdeg, [&nc]() { auto x = PF0::Fixed(FixedQuery(nc, Rotation::Cur(), FixedColumnKey(nc))); ++nc; return x; });
  r[0] = nc; r[1] = c.combination_assignments().size(); for (u64 j = 0; j < 3 * *m; ++j) r[2 + j] = 0;
  auto& ca = c.combination_assignments(); u64 ok = 1; for (auto& x : ca) ok &= x.size() == *rows; r[2 + 3 * *m] = ok; if (!ok || nc != ca.size()) return 0;
  for (u64 j = 0; j < nc; ++j) for (u64 k = 0; k < *rows; ++k) cmb[j * *rows + k] = ca[j][k];
  for (auto& a : c.selector_assignments()) {
    u64 j = a.selector_index(); if (j >= *m || a.combination_index() >= nc) return 0;
    ++r[2 + 3 * j]; r[3 + 3 * j] = a.combination_index(); r[4 + 3 * j] = a.expression()->Degree();
    for (u64 k = 0; k < *rows; ++k) {
      std::vector<F> f; for (auto& x : ca) f.push_back(x[k]);
      MultiPhaseEvaluations<F> t(f, {}, {}, {}); VerifyingEvaluator<F> ev(t); va[j * *rows + k] = a.expression()->Evaluate(&ev);
    }
  }
  return 1;
}
