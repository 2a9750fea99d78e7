// PLONK constraint systems: queries, degrees, lookup chunking, selector compression; permutation assembly
#include "tvc_common.h"
#include <memory>
#include <string>
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#ifdef TVC_IR
#include "absl/strings/substitute.h"
#include "tachyon/base/logging.h"
#include "irstub/tvc_sstream.h"
#define stringstream tvc_sstream
#define ostringstream tvc_sstream
#endif
#include "tachyon/zk/plonk/constraint_system/constraint_system.h"
#include "tachyon/zk/plonk/expressions/verifying_evaluator.h"
#include "tachyon/zk/plonk/permutation/cycle_store.h"
#include "tachyon/zk/plonk/permutation/permutation_argument.h"
#include "tachyon/zk/plonk/permutation/permutation_assembly.h"
#include "tachyon/zk/plonk/permutation/permutation_table_store.h"
#include "tachyon/zk/plonk/permutation/permutation_utils.h"
#include "tachyon/zk/plonk/permutation/permuted_table.h"
#include "tachyon/zk/plonk/permutation/unpermuted_table.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/zk/expressions/expression_type.cc"
#include "tachyon/zk/plonk/permutation/cycle_store.cc"
#include "tachyon/zk/plonk/base/column_type.cc"
#endif
typedef int32_t i32;
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
using F = bn254::Fr;
using Ex = std::unique_ptr<Expression<F>>;
using Ev = UnivariateEvaluations<F, 64>;
using CS = ConstraintSystem<F>;
TVCF tvc_init() { F::Init(); return 0; }
#include "plonk_sys.h"
static F eval(const Ex& e, const F* fx, const F* ad, const F* ii, const F* ch) { MultiPhaseEvaluations<F> t(absl::Span<const F>(fx, 64), absl::Span<const F>(ad, 32), absl::Span<const F>(ii, 32), absl::Span<const F>(ch, 4)); VerifyingEvaluator<F> ev(t); return e->Evaluate(&ev); }
template <typename Q> static u64 qout(const Q& q, u64* r) { u64 k = 0; r[k++] = q.size(); for (auto& x : q) { r[k++] = x.column().index(); r[k++] = u64(i32(x.rotation().value()) + 0x8000); } return k; }
TVCF cs_numbers(const u64* prog, const F* co, const u64* k, u64* r) {
  CS cs; World w; build(cs, w, prog, co); u64 j = 0;
  r[j++] = cs.ComputeDegree(); r[j++] = cs.ComputeBlindingFactors(); r[j++] = cs.ComputeMinimumRows(); r[j++] = u64(int64_t(cs.ComputeLastRow())); r[j++] = cs.ComputeExtendedK(u32(*k)); r[j++] = cs.ComputePermutationChunkLen(); r[j++] = cs.ComputePermutationProductNums();
  r[j++] = cs.permutation().columns().size(); r[j++] = cs.GetNumSelectors();
  j += qout(cs.fixed_queries(), r + j); j += qout(cs.advice_queries(), r + j); j += qout(cs.instance_queries(), r + j);
  for (auto n : cs.num_advice_queries()) r[j++] = n;
  return j;
}
// every query index carried by a lookup argument's expressions refers to the value of its own cell: openings are numbered by query
// out: per argument: number of inputs, number of pairs, required degree; v: table values, then input values
TVCF cs_lookups(const u64* prog, const F* co, const F* fx, const F* ad, const F* ii, const F* ch, u64* r, F* v) {
  CS cs; World w; build(cs, w, prog, co); u64 j = 1, k = 0; r[0] = cs.lookups().size();
  for (auto& l : cs.lookups()) {
    r[j++] = l.inputs_expressions().size(); r[j++] = l.table_expressions().size(); r[j++] = l.RequiredDegree();
    for (auto& e : l.table_expressions()) v[k++] = eval(e, fx, ad, ii, ch);
    for (auto& t : l.inputs_expressions()) for (auto& e : t) v[k++] = eval(e, fx, ad, ii, ch);
  }
  r[j++] = cs.ComputeDegree(); return j;
}
// compress the selectors; values of all gate polynomials and lookup/shuffle expressions on every row, with the selector columns set as returned
TVCF cs_compress(const u64* prog, const F* co, const u64* rows, const u64* nsel, const u64* bits, const F* fx, const F* ad, const F* ii, const F* ch, u64* r, F* v) {
  CS cs; World w; build(cs, w, prog, co); u64 before = cs.ComputeDegree(), nf = cs.fixed_queries().size(), cf = cs.num_fixed_columns();
  std::vector<std::vector<bool>> act(*nsel); for (u64 s = 0; s < *nsel; ++s) for (u64 q = 0; q < *rows; ++q) act[s].push_back((bits[s] >> q) & 1);
  auto cols = cs.CompressSelectors(act); r[0] = before; r[1] = cols.size(); r[2] = cs.num_fixed_columns() - cf; r[3] = cs.selector_map().size(); u64 deg = 0, k = 0;
  for (u64 q = 0; q < *rows; ++q) {
    std::vector<F> f(fx, fx + 64);
    for (u64 i = nf; i < cs.fixed_queries().size(); ++i) { u64 c = cs.fixed_queries()[i].column().index(); if (c < cf || c - cf >= cols.size() || cols[c - cf].size() != *rows) return 0; f[i] = cols[c - cf][q]; }
    for (auto& g : cs.gates()) for (auto& e : g.polys()) { v[k++] = eval(e, f.data(), ad, ii, ch); deg = std::max(deg, u64(e->Degree())); }
    for (auto& l : cs.lookups()) { for (auto& t : l.inputs_expressions()) for (auto& e : t) v[k++] = eval(e, f.data(), ad, ii, ch); for (auto& e : l.table_expressions()) v[k++] = eval(e, f.data(), ad, ii, ch); deg = std::max(deg, u64(l.RequiredDegree())); }
    for (auto& l : cs.shuffles()) { for (auto& e : l.input_expressions()) v[k++] = eval(e, f.data(), ad, ii, ch); for (auto& e : l.shuffle_expressions()) v[k++] = eval(e, f.data(), ad, ii, ch); deg = std::max(deg, u64(l.RequiredDegree())); }
  }
  r[4] = deg; r[5] = k; for (u64 s = 0; s < *nsel; ++s) r[6 + s] = cs.selector_map()[s].index() - cf;
  return 1;
}
// ---- permutations. cp: (left column, left row, right column, right row) per copy
TVCF cycles(const u64* cols, const u64* rows, const u64* n, const u64* cp, u64* next, u64* size, u64* same, u64* members) {
  CycleStore s(*cols, RowIndex(*rows)); for (u64 j = 0; j < *n; ++j, cp += 4) s.MergeCycle(Label(cp[0], RowIndex(cp[1])), Label(cp[2], RowIndex(cp[3])));
  u64 N = *cols * *rows, k = 0; auto L = [&](u64 x) { return Label(x / *rows, RowIndex(x % *rows)); };
  for (u64 x = 0; x < N; ++x) { Label l = s.GetNextLabel(L(x)); next[x] = l.col * *rows + l.row; size[x] = s.GetCycleSize(L(x)); for (u64 y = 0; y < N; ++y) same[k++] = s.CheckSameCycle(L(x), L(y)); auto all = s.GetAllLabels(L(x)); u64 m = 0; for (auto& l : all) m += u64(1) << (2 * (l.col * *rows + l.row)); members[x] = m; }
  return 0;
}
TVCF unpermuted(const u64* cols, const u64* rows, F* r) {
  auto d = UnivariateEvaluationDomainFactory<F, 63>::Create(*rows); auto t = UnpermutedTable<Ev>::Construct(*cols, RowIndex(*rows), d.get()); u64 k = 0;
  for (u64 c = 0; c < *cols; ++c) for (u64 q = 0; q < *rows; ++q) r[k++] = t[Label(c, RowIndex(q))];
  auto all = t.GetColumns(base::Range<size_t>(0, *cols)); k = 0; u64 ok = 1; for (auto& e : all) for (auto& x : e->evaluations()) ok &= x == r[k++];
  return ok && k == *cols * *rows;
}
TVCF delta(F* r) { *r = GetDelta<F>(); return 0; }
TVCF perm_counts(const u64* d, const u64* a, const u64* b, const u64* c, u64* r) { r[0] = ComputePermutationChunkLength(*d); r[1] = GetNumPermutationEvals(*a, *b); r[2] = GetNumPermutationOpenings(*a, *b, *c); return 0; }
// chunks of the permutation's columns: value, permuted and unpermuted columns of every chunk
TVCF chunks(const u64* ncols, const u64* keys, const u64* chunk, const F* fx, const F* ad, const F* ii, const F* pm, u64* r, F* v) {
  std::vector<Ev> f, a, i, p; for (u64 j = 0; j < 4; ++j) { f.push_back(Ev(std::vector<F>(fx + j, fx + j + 1))); a.push_back(Ev(std::vector<F>(ad + j, ad + j + 1))); i.push_back(Ev(std::vector<F>(ii + j, ii + j + 1))); }
  for (u64 j = 0; j < *ncols; ++j) p.push_back(Ev(std::vector<F>(pm + j, pm + j + 1)));
  std::vector<AnyColumnKey> ks; for (u64 j = 0; j < *ncols; ++j) { u64 t = keys[j] >> 8, x = keys[j] & 255; ks.push_back(t == 0 ? AnyColumnKey(FixedColumnKey(x)) : t == 1 ? AnyColumnKey(AdviceColumnKey(x)) : AnyColumnKey(InstanceColumnKey(x))); }
  RefTable<Ev> t(f, a, i); PermutedTable<Ev> pt(&p); auto d = UnivariateEvaluationDomainFactory<F, 63>::Create(1); auto u = UnpermutedTable<Ev>::Construct(*ncols, 1, d.get());
  PermutationTableStore<Ev> s(ks, t, pt, u, *chunk); u64 nch = (*ncols + *chunk - 1) / *chunk, k = 0;
  for (u64 c = 0; c < nch; ++c) {
    r[c] = s.GetChunkSize(c); auto x = s.GetValueColumns(c), y = s.GetPermutedColumns(c), z = s.GetUnpermutedColumns(c); if (x.size() != r[c] || y.size() != r[c] || z.size() != r[c]) return 0;
    for (u64 j = 0; j < r[c]; ++j) { v[k++] = (*x[j])[0]; v[k++] = (*y[j])[0]; v[k++] = (*z[j])[0]; }
  }
  return nch;
}
// permutations of columns built from a fixed, an advice and an instance column each
TVCF assembly(const u64* cols, const u64* rows, const u64* n, const u64* cp, F* r) {
  std::vector<AnyColumnKey> ks; for (u64 j = 0; j < *cols; ++j) ks.push_back(j % 3 == 0 ? AnyColumnKey(FixedColumnKey(j)) : j % 3 == 1 ? AnyColumnKey(AdviceColumnKey(j)) : AnyColumnKey(InstanceColumnKey(j)));
  PermutationArgument arg(ks); arg.AddColumn(ks[0]); PermutationAssembly a(arg, RowIndex(*rows)); auto d = UnivariateEvaluationDomainFactory<F, 63>::Create(*rows);
  for (u64 j = 0; j < *n; ++j, cp += 4) a.Copy(ks[cp[0]], RowIndex(cp[1]), ks[cp[2]], RowIndex(cp[3]));
  auto t = a.GeneratePermutations<Ev>(d.get()); u64 k = 0; for (auto& e : t) for (auto& x : e.evaluations()) r[k++] = x; return arg.columns().size();
}
