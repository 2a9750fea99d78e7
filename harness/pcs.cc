// Polynomial commitment schemes over a group given by discrete logarithms: the group, its multi-scalar
// multiplication and its pairing are replaced by their contracts (checks C08, C10, C11).
#include "tvc_common.h"
#include <memory>
#include <string>
#include <vector>
#include "tachyon/base/logging.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/geometry/affine_point.h"
#include "tachyon/math/geometry/jacobian_point.h"
#include "tachyon/math/geometry/point_xyzz.h"
#include "tachyon/math/elliptic_curves/semigroups.h"
#ifdef TVC_IR
#include "absl/strings/substitute.h"
#undef VLOG
#define VLOG(x) while (false) std::cerr
#endif
namespace tachyon::math {
struct MCurve { using ScalarField = bn254::Fr; using BaseField = bn254::Fr; };
using MF = bn254::Fr;
template <> class AffinePoint<MCurve>; template <> class JacobianPoint<MCurve>; template <> class PointXYZZ<MCurve>;
namespace internal { template <> struct AdditiveSemigroupTraits<AffinePoint<MCurve>> { using ReturnTy = JacobianPoint<MCurve>; }; }
#define CONV inline JacobianPoint<MCurve> ToJacobian() const; inline PointXYZZ<MCurve> ToXYZZ() const;
template <> class AffinePoint<MCurve> {
 public:
  CONV
  using ScalarField = MF; using Curve = MCurve; constexpr static bool kNegationIsCheap = true;
  MF e = MF::Zero();
  AffinePoint() = default;
  explicit AffinePoint(const MF& v) : e(v) {}
  static AffinePoint Generator() { return AffinePoint(MF::One()); }
  static AffinePoint Zero() { return AffinePoint(); }
  bool operator==(const AffinePoint& o) const { return e == o.e; }
  bool operator!=(const AffinePoint& o) const { return e != o.e; }
  AffinePoint operator-() const { return AffinePoint(-e); }
  AffinePoint ToAffine() const { return *this; }
  std::string ToString() const { return {}; }
  std::string ToHexString(bool = false) const { return {}; }
  template <typename S, typename O> static bool BatchMapScalarFieldToPoint(const AffinePoint& g, const S& s, O* o) {
    if (std::size(s) != std::size(*o)) return false;
    for (size_t i = 0; i < std::size(s); ++i) (*o)[i].e = g.e * s[i];
    return true;
  }
};
#define GROUP(T)                                                                                  \
  template <> class T<MCurve> {                                                                   \
   public:                                                                                        \
    CONV                                                                                          \
    using ScalarField = MF; using Curve = MCurve; using Affine = AffinePoint<MCurve>;             \
    MF e = MF::Zero();                                                                            \
    T() = default;                                                                                \
    explicit T(const MF& v) : e(v) {}                                                             \
    static T Generator() { return T(MF::One()); }                                                 \
    static T Zero() { return T(); }                                                               \
    bool operator==(const T& o) const { return e == o.e; }                                        \
    T& operator+=(const T& o) { e += o.e; return *this; }                                         \
    T& operator+=(const Affine& o) { e += o.e; return *this; }                                    \
    T& operator-=(const T& o) { e -= o.e; return *this; }                                         \
    T& operator-=(const Affine& o) { e -= o.e; return *this; }                                    \
    T operator+(const T& o) const { return T(e + o.e); }                                          \
    T operator+(const Affine& o) const { return T(e + o.e); }                                     \
    T operator-(const T& o) const { return T(e - o.e); }                                          \
    T operator-() const { return T(-e); }                                                         \
    T operator*(const MF& k) const { return T(e * k); }                                           \
    T& operator*=(const MF& k) { e *= k; return *this; }                                          \
    Affine ToAffine() const { return Affine(e); }                                                 \
    std::string ToHexString(bool = false) const { return {}; }                                    \
    template <typename I, typename O> static bool BatchNormalize(const I& in, O* out) {           \
      if (std::size(in) != std::size(*out)) return false;                                         \
      for (size_t i = 0; i < std::size(in); ++i) (*out)[i] = Affine(in[i].e);                     \
      return true;                                                                                \
    }                                                                                             \
    template <bool Forward, typename C> static T& LinearCombinationInPlace(C& v, const MF& r) {   \
      if (Forward) { T a = v[0]; MF p = r; for (size_t i = 1; i < v.size(); ++i) { a += v[i] * p; p *= r; } v[0] = a; return v[0]; } \
      T a = v[v.size() - 1];                                                                      \
      for (size_t i = v.size() - 1; i-- > 0;) { a *= r; a += v[i]; }                              \
      v[0] = a; return v[0];                                                                      \
    }                                                                                             \
  };
GROUP(JacobianPoint)
GROUP(PointXYZZ)
#define CONVD(T) JacobianPoint<MCurve> T<MCurve>::ToJacobian() const { return JacobianPoint<MCurve>(e); } PointXYZZ<MCurve> T<MCurve>::ToXYZZ() const { return PointXYZZ<MCurve>(e); }
CONVD(AffinePoint) CONVD(JacobianPoint) CONVD(PointXYZZ)
inline JacobianPoint<MCurve> operator*(const MF& k, const AffinePoint<MCurve>& p) { return JacobianPoint<MCurve>(k * p.e); }
inline JacobianPoint<MCurve> operator*(const AffinePoint<MCurve>& p, const MF& k) { return JacobianPoint<MCurve>(k * p.e); }
inline JacobianPoint<MCurve> operator+(const AffinePoint<MCurve>& p, const AffinePoint<MCurve>& q) { return JacobianPoint<MCurve>(p.e + q.e); }
inline JacobianPoint<MCurve> operator-(const AffinePoint<MCurve>& p, const JacobianPoint<MCurve>& q) { return JacobianPoint<MCurve>(p.e - q.e); }
inline JacobianPoint<MCurve> operator-(const AffinePoint<MCurve>& p, const AffinePoint<MCurve>& q) { return JacobianPoint<MCurve>(p.e - q.e); }
}  // namespace tachyon::math
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
namespace tachyon::math {
template <> class Pippenger<AffinePoint<MCurve>> { public: using Bucket = PointXYZZ<MCurve>; };
// contract of the multi-scalar multiplication (C10)
template <> class VariableBaseMSM<AffinePoint<MCurve>> {
 public:
  using Bucket = PointXYZZ<MCurve>;
  template <typename B, typename S> bool Run(const B& b, const S& s, Bucket* r) {
    if (std::size(b) != std::size(s)) return false;
    *r = Bucket(); for (size_t i = 0; i < std::size(b); ++i) r->e += b[i].e * s[i];
    return true;
  }
};
}  // namespace tachyon::math
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::crypto;
using F = bn254::Fr;
using A = AffinePoint<MCurve>;
static F g_pair;  // the last pairing value, in the exponent
struct Pairs {
  struct G1Curve { using AffinePoint = A; };
  struct G2Curve { using AffinePoint = A; };
  struct G2Prepared { F e; static G2Prepared From(const A& p) { return {p.e}; } };
  struct Fp12 { F e; bool IsOne() const { return e.IsZero(); } };
  template <typename X, typename Y> static Fp12 MultiMillerLoop(const X& a, const Y& b) { F r = F::Zero(); for (size_t i = 0; i < std::size(a); ++i) r += a[i].e * b[i].e; return {r}; }
  static Fp12 FinalExponentiation(const Fp12& f) { g_pair = f.e; return f; }
};
// scripted transcripts: every event is logged (1: challenge, 2: group element, 3: scalar)
struct Log { std::vector<u64> ev; std::vector<F> wr; const F* ch; size_t nc = 0; F squeeze() { ev.push_back(1); return ch[nc++]; } };
struct W : TranscriptWriter<A> {
  Log l; std::vector<F> proof;
  F SqueezeChallenge() override { return l.squeeze(); }
  bool WriteToTranscript(const A& c) override { l.ev.push_back(2); l.wr.push_back(c.e); return true; }
  bool WriteToTranscript(const F& c) override { l.ev.push_back(3); l.wr.push_back(c); return true; }
  bool DoWriteToProof(const A& c) override { proof.push_back(c.e); return true; }
  bool DoWriteToProof(const F& c) override { proof.push_back(c); return true; }
};
struct R : TranscriptReader<A> {
  Log l; const F* proof; size_t n = 0; mutable size_t at = 0;
  F SqueezeChallenge() override { return l.squeeze(); }
  bool WriteToTranscript(const A& c) override { l.ev.push_back(2); l.wr.push_back(c.e); return true; }
  bool WriteToTranscript(const F& c) override { l.ev.push_back(3); l.wr.push_back(c); return true; }
  bool DoReadFromProof(A* c) const override { if (at >= n) return false; c->e = proof[at++]; return true; }
  bool DoReadFromProof(F* c) const override { if (at >= n) return false; *c = proof[at++]; return true; }
};
constexpr size_t kMax = 31;
using K = KZG<A, kMax, A>;
using KB = KZG<A, kMax>;
using GW = GWC<Pairs, kMax, A>;
using SH = SHPlonk<Pairs, kMax, A>;
using Poly = UnivariateDensePolynomial<F, kMax>;
using Evals = UnivariateEvaluations<F, kMax>;
TVCF tvc_init() { F::Init(); return 0; }
static std::vector<F> vec(const F* p, u64 n) { return std::vector<F>(p, p + n); }
static Poly poly(const F* p, u64 n) { return Poly(UnivariateDenseCoefficients<F, kMax>(vec(p, n), true)); }
// the setup: powers of tau, Lagrange basis at tau
TVCF k_setup(const u64* n, const F* tau, F* pw, F* lg, F* g2) {
  K k; if (!k.UnsafeSetup(*n, *tau)) return 0;
  for (u64 i = 0; i < *n; ++i) { pw[i] = k.g1_powers_of_tau()[i].e; lg[i] = k.g1_powers_of_tau_lagrange()[i].e; }
  GW g; if (!g.UnsafeSetup(*n, *tau)) return 0; g2[0] = g.s_g2().e;
  SH s; if (!s.UnsafeSetup(*n, *tau)) return 0; g2[1] = s.s_g2().e;
  return k.N() == *n && g.N() == *n && s.N() == *n && g.D() == *n - 1 && (u64{1} << g.K()) >= *n && g.kzg().g1_powers_of_tau() == k.g1_powers_of_tau() && g.kzg().g1_powers_of_tau_lagrange() == k.g1_powers_of_tau_lagrange();
}
static std::vector<A> grp(const F* p, u64 n) { std::vector<A> r; for (u64 i = 0; i < n; ++i) r.push_back(A(p[i])); return r; }
// commitments with arbitrary bases b (monomial) and l (Lagrange); m scalars
TVCF k_commit(const u64* n, const u64* m, const F* b, const F* l, const F* v, F* r) {
  K k(grp(b, *n), grp(l, *n)); std::vector<F> s = vec(v, *m); A c, d; bool o0 = k.Commit(s, &c), o1 = k.CommitLagrange(s, &d);
  r[0] = c.e; r[1] = d.e; return o0 | o1 << 1;
}
TVCF k_commit_xyzz(const u64* n, const u64* m, const F* b, const F* l, const F* v, F* r) {
  KB k(grp(b, *n), grp(l, *n)); std::vector<F> s = vec(v, *m); PointXYZZ<MCurve> c, d; bool o0 = k.Commit(s, &c), o1 = k.CommitLagrange(s, &d);
  r[0] = c.e; r[1] = d.e; return o0 | o1 << 1;
}
// batch mode: three commitments per kind, indices in the order given
template <typename P> static u64 batch(const u64* n, const F* b, const F* l, const F* v, const u64* idx, F* r) {
  K k(grp(b, *n), grp(l, *n)); P p(std::move(k)); u64 ok = 1;
  for (u64 lag = 0; lag < 2; ++lag) {
    p.SetBatchMode(3); ok &= p.GetBatchMode();
    for (u64 j = 0; j < 3; ++j) {
      if (lag) ok &= p.CommitLagrange(Evals(vec(v + j * *n, *n)), idx[j]); else ok &= p.Commit(Poly(UnivariateDenseCoefficients<F, kMax>(vec(v + j * *n, *n))), idx[j]);
    }
    auto c = p.GetBatchCommitments(); ok &= c.size() == 3 && !p.GetBatchMode(); for (u64 j = 0; j < 3; ++j) r[3 * lag + j] = c[j].e;
  }
  return ok;
}
TVCF g_batch(const u64* n, const F* b, const F* l, const F* v, const u64* idx, F* r) { return batch<GW>(n, b, l, v, idx, r); }
TVCF s_batch(const u64* n, const F* b, const F* l, const F* v, const u64* idx, F* r) { return batch<SH>(n, b, l, v, idx, r); }
TVCF k_batch_xyzz(const u64* n, const F* b, const F* l, const F* v, const u64* idx, F* r) {
  KB k(grp(b, *n), grp(l, *n)); BatchCommitmentState st(true, 3); u64 ok = 1;
  for (u64 lag = 0; lag < 2; ++lag) {
    k.ResizeBatchCommitments(3);
    for (u64 j = 0; j < 3; ++j) { auto s = vec(v + j * *n, *n); ok &= lag ? k.CommitLagrange(s, st, idx[j]) : k.Commit(s, st, idx[j]); }
    auto c = k.GetBatchCommitments(st); ok &= c.size() == 3 && !st.batch_mode; for (u64 j = 0; j < 3; ++j) r[3 * lag + j] = c[j].e;
  }
  return ok;
}
TVCF k_down(const u64* n, const u64* m, const F* b, const F* l, F* r) {
  K k(grp(b, *n), grp(l, *n)); if (!k.Downsize(*m)) return 0; for (u64 i = 0; i < *m; ++i) r[i] = k.g1_powers_of_tau()[i].e; return k.N() == *m;
}
// Lagrange basis after a set-up of n powers is reduced to m
TVCF k_down_lagrange(const u64* n, const u64* m, const F* tau, F* r) {
  K k; if (!k.UnsafeSetup(*n, *tau) || !k.Downsize(*m)) return 0;
  for (u64 i = 0; i < *m; ++i) r[i] = k.g1_powers_of_tau_lagrange()[i].e; return k.g1_powers_of_tau_lagrange().size() == *m;
}
// Pedersen commitments
TVCF ped(const u64* n, const u64* m, const F* g, const F* h, const F* v, const F* rr, F* r) {
  Pedersen<A, kMax, A> p(A(*h), grp(g, *n)); Pedersen<A, kMax> q(A(*h), grp(g, *n)); A c; PointXYZZ<MCurve> d; std::vector<F> s = vec(v, *m);
  bool o = p.Commit(s, *rr, &c), o2 = q.Commit(s, *rr, &d); r[0] = c.e; r[1] = d.e; return o | o2 << 1;
}
TVCF ped_batch(const u64* n, const F* g, const F* h, const F* v, const F* rr, const u64* idx, F* r) {
  Pedersen<A, kMax, A> p(A(*h), grp(g, *n)); p.SetBatchMode(3); u64 ok = 1; for (u64 j = 0; j < 3; ++j) ok &= p.Commit(vec(v + j * *n, *n), rr[j], idx[j]);
  auto c = p.GetBatchCommitments(); for (u64 j = 0; j < 3; ++j) r[j] = c[j].e; return ok && c.size() == 3;
}
// openings: q[2k] polynomial, q[2k+1] point; polynomial j has sz[j] coefficients from co + 4j
struct In { std::vector<Poly> p; std::vector<A> c; std::vector<F> x; };
template <typename P> static u64 prove(P& pcs, const u64* np, const u64* sz, const F* co, const u64* nq, const u64* q, const F* pt, const F* ch, F* proof, u64* cnt, u64* ev) {
  std::vector<Poly> ps; for (u64 j = 0; j < *np; ++j) ps.push_back(poly(co + 4 * j, sz[j]));
  std::vector<PolynomialOpening<Poly>> op; for (u64 k = 0; k < *nq; ++k) { F x = pt[q[2 * k + 1]]; op.emplace_back(base::Ref<const Poly>(&ps[q[2 * k]]), x, ps[q[2 * k]].Evaluate(x)); }
  W w; w.l.ch = ch; if (!pcs.CreateOpeningProof(op, &w)) return 0;
  cnt[0] = w.proof.size(); cnt[1] = w.l.ev.size(); cnt[2] = w.l.nc; for (u64 j = 0; j < w.proof.size(); ++j) proof[j] = w.proof[j];
  for (u64 j = 0; j < w.l.ev.size(); ++j) ev[j] = w.l.ev[j];
  u64 same = w.l.wr.size() == w.proof.size(); if (same) for (u64 j = 0; j < w.proof.size(); ++j) same &= w.l.wr[j] == w.proof[j];
  return 1 | same << 1;
}
template <typename P> static u64 verify(P& pcs, const F* c, const u64* np, const u64* nq, const u64* q, const F* pt, const F* y, const F* ch, const F* proof, const u64* nproof, F* e, u64* cnt, u64* ev) {
  std::vector<A> cs = grp(c, *np); std::vector<PolynomialOpening<Poly, A>> op; for (u64 k = 0; k < *nq; ++k) op.emplace_back(base::Ref<const A>(&cs[q[2 * k]]), pt[q[2 * k + 1]], y[k]);
  R r; r.l.ch = ch; r.proof = proof; r.n = *nproof; g_pair = F::Zero(); bool ok = pcs.VerifyOpeningProof(op, &r); *e = g_pair;
  cnt[0] = r.at; cnt[1] = r.l.ev.size(); cnt[2] = r.l.nc; for (u64 j = 0; j < r.l.ev.size(); ++j) ev[j] = r.l.ev[j];
  u64 same = r.l.wr.size() == r.at; if (same) for (u64 j = 0; j < r.at; ++j) same &= r.l.wr[j] == proof[j];
  return ok | same << 1;
}
// how: 0 set up from tau, 1 built from the parts, as when read back from a file
template <typename P> static P make(const u64* n, const F* tau, const u64* how) {
  std::vector<F> t = F::GetSuccessivePowers(*n, *tau); K k(grp(t.data(), *n), grp(t.data(), *n)); if (*how) return P(std::move(k), A(*tau));
  P p; if (!p.UnsafeSetup(*n, *tau)) abort(); return p;
}
#define PCS_FNS(N, P)                                                                             \
  TVCF N##_prove(const u64* n, const F* tau, const u64* how, const u64* np, const u64* sz, const F* co, const u64* nq, const u64* q, const F* pt, const F* ch, F* proof, u64* cnt, u64* ev) { \
    P p = make<P>(n, tau, how); return prove(p, np, sz, co, nq, q, pt, ch, proof, cnt, ev); }      \
  TVCF N##_verify(const u64* n, const F* tau, const u64* how, const u64* np, const F* c, const u64* nq, const u64* q, const F* pt, const F* y, const F* ch, const F* proof, const u64* npf, F* e, u64* cnt, u64* ev) { \
    P p = make<P>(n, tau, how); return verify(p, c, np, nq, q, pt, y, ch, proof, npf, e, cnt, ev); } \
  /* an honest proof, verified with the honest commitments and values */                          \
  TVCF N##_both(const u64* n, const F* tau, const u64* how, const u64* np, const u64* sz, const F* co, const u64* nq, const u64* q, const F* pt, const F* ch, F* e) { \
    P p = make<P>(n, tau, how); F pf[16]; u64 cnt[3], ev[64], cn2[3], ev2[64]; if ((prove(p, np, sz, co, nq, q, pt, ch, pf, cnt, ev) & 1) == 0) return 0; \
    std::vector<F> c, y; for (u64 j = 0; j < *np; ++j) { A a; if (!p.Commit(poly(co + 4 * j, sz[j]), &a)) return 0; c.push_back(a.e); } \
    for (u64 k = 0; k < *nq; ++k) y.push_back(poly(co + 4 * q[2 * k], sz[q[2 * k]]).Evaluate(pt[q[2 * k + 1]])); \
    return verify(p, c.data(), np, nq, q, pt, y.data(), ch, pf, &cnt[0], e, cn2, ev2) | (cn2[0] == cnt[0]) << 2; }
PCS_FNS(gwc, GW)
PCS_FNS(shp, SH)
