// rank-one constraint systems and their quadratic arithmetic programs
#include "tvc_common.h"
#include <memory>
#include <vector>
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/r1cs/constraint_system/constraint_system.h"
#include "tachyon/zk/r1cs/constraint_system/quadratic_arithmetic_program.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/finite_fields/test/gf7_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::zk::r1cs;
using Fr = bn254::Fr;
static Variable var(u64 t, u64 i) { return t == 0 ? Variable::Zero() : t == 1 ? Variable::One() : t == 2 ? Variable::Instance(i) : t == 3 ? Variable::Witness(i) : Variable::SymbolicLinearCombination(i); }
// ---- variables
TVCF variable(const u64* t, const u64* i, const u64* off, u64* r) {
  Variable a = var(t[0], i[0]), b = var(t[1], i[1]);
  r[0] = a == b; r[1] = a != b; r[2] = a < b; r[3] = a <= b; r[4] = a > b; r[5] = a >= b;
  auto g = a.GetIndex(*off); r[6] = g.has_value(); r[7] = g.value_or(0);
  auto s = a.GetSymbolicLinearCombinationIndex(); r[8] = s.has_value(); r[9] = s.value_or(0);
  r[10] = u64(a.IsZero()) | u64(a.IsOne()) << 1 | u64(a.IsInstance()) << 2 | u64(a.IsWitness()) << 3 | u64(a.IsSymbolicLinearCombination()) << 4;
  return 0;
}
// ---- linear combinations: term j has variable (ty[j], ix[j])
template <typename F> static LinearCombination<F> lcof(u64 n, const u64* v, const F* c) { std::vector<Term<F>> t; for (u64 j = 0; j < n; ++j) t.push_back(Term<F>(c[j], var(v[j] >> 32, v[j] & 0xffffffff))); return LinearCombination<F>(t); }
template <typename F> static u64 lcout(const LinearCombination<F>& l, u64* v, F* c) { u64 k = 0; for (auto& t : l.terms()) { v[k] = u64(t.variable.type()) << 32 | t.variable.index(); c[k] = t.coefficient; ++k; } return k; }
template <typename F> static u64 lcop(u64 op, u64 n, u64 m, const u64* v, const u64* w, const F* a, const F* b, const F* s, u64* rv, F* rc) {
  auto l = lcof(n, v, a), r = lcof(m, w, b); LinearCombination<F> o;
  switch (op) {
    case 0: o = l + r; break;
    case 1: o = l - r; break;
    case 2: o = l; o += r; break;
    case 3: o = l; o -= r; break;
    case 4: o = -l; break;
    case 5: o = l; o.NegateInPlace(); break;
    case 6: o = l * *s; break;
    case 7: o = l; o *= *s; break;
    case 8: o = l + r.terms()[0]; break;
    case 9: o = l - r.terms()[0]; break;
    case 10: o = l; o += r.terms()[0]; break;
    case 11: o = l; o -= r.terms()[0]; break;
    case 12: o = l + r.terms()[0].variable; break;
    case 13: o = l; o -= r.terms()[0].variable; break;
    case 14: o = l; o.Deduplicate(); break;
    case 15: o = LinearCombination<F>::CreateDeduplicated(l.terms()); break;
    case 16: { o = l; o.AppendTerms(r.terms()); o.AppendTerm(Term<F>(*s, Variable::One())); auto t = r.terms(); o.AppendTerms(std::move(t)); o.Deduplicate(); break; }
    case 17: o = l; o += o; break;
    case 18: o = l; o -= o; break;
    case 19: { auto t = l.terms(); o = LinearCombination<F>::CreateDeduplicated(std::move(t)); break; }
    case 20: o = l; o += r.terms()[0].variable; break;
    case 21: o = l - r.terms()[0].variable; break;
  }
  return lcout(o, rv, rc) * 2 + o.IsSorted();
}
template <typename F> static u64 lceq(u64 n, u64 m, const u64* v, const u64* w, const F* a, const F* b) { auto l = lcof(n, v, a), r = lcof(m, w, b); return u64(l == r) | u64(l != r) << 1 | u64(l.IsSorted()) << 2; }
// ---- constraint systems. prog: nI nW nLC nC, then per linear combination: number of terms, packed variables; three linear combinations per constraint follow those of the user
template <typename F> struct Sys {
  ConstraintSystem<F> cs; const u64* p; const F* c; u64 nI, nW, nLC, nC; std::vector<Variable> lcs;
  LinearCombination<F> lc() { u64 n = *p++; auto r = lcof(n, p, c); p += n; c += n; return r; }
  Sys(const u64* prog, const F* co, const F* inst, const F* wit, u64 goal, SynthesisMode mode, u64 move) : p(prog), c(co) {
    nI = p[0]; nW = p[1]; nLC = p[2]; nC = p[3]; p += 4;
    cs.set_mode(mode); cs.set_optimization_goal(goal ? OptimizationGoal::kWeight : OptimizationGoal::kConstraints);
    for (u64 i = 0; i < nI; ++i) cs.CreateInstanceVariable([inst, i]() { return inst[i]; });
    for (u64 i = 0; i < nW; ++i) cs.CreateWitnessVariable([wit, i]() { return wit[i]; });
    for (u64 i = 0; i < nLC; ++i) { auto l = lc(); lcs.push_back(move ? cs.CreateLinearCombination(std::move(l)) : cs.CreateLinearCombination(l)); }
    for (u64 i = 0; i < nC; ++i) { auto x = lc(), y = lc(), z = lc(); if (move) cs.EnforceConstraint(std::move(x), std::move(y), std::move(z)); else cs.EnforceConstraint(x, y, z); }
  }
};
template <typename F> static void mat(const zk::r1cs::Matrix<F>& m, u64 rows, u64 cols, F* r) { for (u64 i = 0; i < rows * cols; ++i) r[i] = F::Zero(); for (u64 i = 0; i < rows; ++i) for (auto& e : m[i]) { if (e.index < cols) r[i * cols + e.index] += e.coefficient; } }
// meta: satisfied before/after, constraints, instances, witnesses, linear combinations, non-zeros of A, B, C, evaluations agree
template <typename F> static u64 system(const u64* prog, u64 goal, u64 setup, u64 times, u64 cap, const F* co, const F* inst, const F* wit, u64* meta, F* mats, F* ev, F* w2) {
  Sys<F> s(prog, co, inst, wit, goal, setup ? SynthesisMode::Setup() : SynthesisMode::Prove(true), times & 1);
  meta[0] = s.cs.IsSatisfied(); meta[6] = s.cs.num_linear_combinations();
  if (!setup) for (u64 i = 0; i < s.nLC; ++i) { ev[i] = s.cs.EvalLinearCombination(i); ev[s.nLC + i] = s.cs.GetAssignedValue(s.lcs[i]); }
  for (u64 i = 0; i < times; ++i) s.cs.Finalize();
  meta[1] = s.cs.IsSatisfied(); meta[2] = s.cs.num_constraints(); meta[3] = s.cs.num_instance_variables(); meta[4] = s.cs.num_witness_variables(); meta[5] = s.cs.witness_assignments().size();
  auto m = s.cs.ToMatrices(); if (!m) return 1;
  u64 rows = m->num_constraints, cols = m->num_instance_variables + m->num_witness_variables;
  meta[7] = m->a_num_non_zero; meta[8] = m->b_num_non_zero; meta[9] = m->c_num_non_zero; meta[10] = rows == meta[2] && m->num_instance_variables == meta[3] && m->num_witness_variables == meta[4] && *m == *s.cs.ToMatrices();
  if (3 * rows * cols > cap) return 2;
  mat(m->a, rows, cols, mats); mat(m->b, rows, cols, mats + rows * cols); mat(m->c, rows, cols, mats + 2 * rows * cols);
  for (u64 i = 0; i < s.cs.witness_assignments().size(); ++i) w2[i] = s.cs.witness_assignments()[i];
  meta[11] = s.cs.instance_assignments().size(); meta[12] = 1;
  if (!setup) { meta[12] = s.cs.instance_assignments()[0].IsOne(); for (u64 i = 0; i < s.nI; ++i) meta[12] &= s.cs.instance_assignments()[i + 1] == inst[i]; }
  return 0;
}
// no matrices requested: values only
template <typename F> static u64 values(const u64* prog, u64 goal, const F* co, const F* inst, const F* wit, F* ev) {
  ConstraintSystem<F> cs; cs.set_mode(SynthesisMode::Prove(false)); cs.set_optimization_goal(goal ? OptimizationGoal::kWeight : OptimizationGoal::kConstraints);
  const u64* p = prog + 4; const F* c = co;
  for (u64 i = 0; i < prog[0]; ++i) cs.CreateInstanceVariable([inst, i]() { return inst[i]; });
  for (u64 i = 0; i < prog[1]; ++i) cs.CreateWitnessVariable([wit, i]() { return wit[i]; });
  for (u64 i = 0; i < prog[2]; ++i) { u64 n = *p++; cs.CreateLinearCombination(lcof(n, p, c)); p += n; c += n; }
  cs.Finalize();
  for (u64 i = 0; i < prog[2]; ++i) ev[i] = cs.GetAssignedValue(Variable::SymbolicLinearCombination(i));
  return u64(cs.ToMatrices().has_value()) | cs.num_linear_combinations() << 1;
}
// ---- quadratic arithmetic programs
constexpr size_t kN = 31;
template <typename F> static u64 qap(const u64* prog, u64 size, u64 goal, const F* co, const F* inst, const F* wit, const F* x, F* abc, F* h, F* full, u64* meta) {
  Sys<F> s(prog, co, inst, wit, goal, SynthesisMode::Prove(true), 0); s.cs.Finalize();
  auto d = UnivariateEvaluationDomainFactory<F, kN>::Create(size);
  auto r = QuadraticArithmeticProgram<F>::InstanceMap(d.get(), s.cs, *x);
  u64 n = r.a.size(); if (r.b.size() != n || r.c.size() != n) return 1;
  for (u64 i = 0; i < n; ++i) { abc[i] = r.a[i]; abc[n + i] = r.b[i]; abc[2 * n + i] = r.c[i]; }
  meta[0] = n; meta[1] = r.num_constraints; meta[2] = r.num_instance_variables; meta[3] = r.num_witness_variables; meta[4] = r.num_qap_variables; meta[5] = d->size(); meta[6] = s.cs.IsSatisfied();
  auto w = QuadraticArithmeticProgram<F>::WitnessMap(d.get(), s.cs);
  meta[7] = w.h.size(); meta[8] = w.full_assignments.size();
  for (u64 i = 0; i < w.h.size(); ++i) h[i] = w.h[i];
  for (u64 i = 0; i < w.full_assignments.size(); ++i) full[i] = w.full_assignments[i];
  h[d->size()] = r.t_x; h[d->size() + 1] = d->group_gen();
  return 0;
}
template <typename F> static u64 hq(u64 size, const F* t, const F* x, const F* di, F* r) { auto d = UnivariateEvaluationDomainFactory<F, kN>::Create(size); auto v = QuadraticArithmeticProgram<F>::ComputeHQuery(d.get(), *t, *x, *di); for (u64 i = 0; i < v.size(); ++i) r[i] = v[i]; return v.size(); }
#define R1(N, F) \
  TVCF N##_lcop(const u64* op, const u64* n, const u64* m, const u64* v, const u64* w, const F* a, const F* b, const F* s, u64* rv, F* rc) { return lcop(*op, *n, *m, v, w, a, b, s, rv, rc); } \
  TVCF N##_lceq(const u64* n, const u64* m, const u64* v, const u64* w, const F* a, const F* b) { return lceq(*n, *m, v, w, a, b); } \
  TVCF N##_system(const u64* prog, const u64* goal, const u64* setup, const u64* times, const u64* cap, const F* co, const F* inst, const F* wit, u64* meta, F* mats, F* ev, F* w2) { return system(prog, *goal, *setup, *times, *cap, co, inst, wit, meta, mats, ev, w2); } \
  TVCF N##_values(const u64* prog, const u64* goal, const F* co, const F* inst, const F* wit, F* ev) { return values(prog, *goal, co, inst, wit, ev); }
#define Q1(N, F) \
  TVCF N##_qap(const u64* prog, const u64* size, const u64* goal, const F* co, const F* inst, const F* wit, const F* x, F* abc, F* h, F* full, u64* meta) { return qap(prog, *size, *goal, co, inst, wit, x, abc, h, full, meta); } \
  TVCF N##_hq(const u64* size, const F* t, const F* x, const F* di, F* r) { return hq(*size, t, x, di, r); }
R1(fr, Fr)
R1(g7, GF7)
Q1(fr, Fr)
TVCF tvc_init() { Fr::Init(); GF7::Init(); return 0; }
