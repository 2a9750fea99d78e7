// the commitment schemes over bn254, with the transcripts of the library: honest proofs, tampered proofs, files
#include "tvc_common.h"
#include <memory>
#include <vector>
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/transcripts/simple_transcript.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::crypto;
using F = bn254::Fr;
using A = bn254::G1AffinePoint;
constexpr size_t kMax = 31;
using GW = GWC<bn254::BN254Curve, kMax, A>;
using SH = SHPlonk<bn254::BN254Curve, kMax, A>;
using Poly = UnivariateDensePolynomial<F, kMax>;
using Evals = UnivariateEvaluations<F, kMax>;
TVCF tvc_init() { bn254::BN254Curve::Init(); return 0; }
static std::vector<F> vec(const F* p, u64 n) { return std::vector<F>(p, p + n); }
static Poly poly(const F* p, u64 n) { return Poly(UnivariateDenseCoefficients<F, kMax>(vec(p, n), true)); }
template <typename P> static bool reload(P& p) {
  base::Uint8VectorBuffer b; if (!b.Grow(base::EstimateSize(p)) || !b.Write(p) || !b.Done()) return false;
  b.set_buffer_offset(0); P v; if (!b.Read(&v)) return false;
  if (!(v.kzg().g1_powers_of_tau() == p.kzg().g1_powers_of_tau() && v.kzg().g1_powers_of_tau_lagrange() == p.kzg().g1_powers_of_tau_lagrange() && v.s_g2() == p.s_g2())) return false;
  p = std::move(v); return true;
}
// tamper: 0 none, 1 a commitment, 2 a value, 3 a point, 4 an element of the proof, 5 another tau, 6 two group elements of the proof swapped, 7 truncated
template <typename P> static u64 run(const F* tau, const F* tau2, const u64* how, const u64* np, const u64* sz, const F* co, const u64* nq, const u64* q, const F* pt, const u64* tamper, const u64* at, const F* delta) {
  P p; if (!p.UnsafeSetup(8, *tau)) return 100; if (*how && !reload(p)) return 101;
  std::vector<Poly> ps; std::vector<A> cs; for (u64 j = 0; j < *np; ++j) { ps.push_back(poly(co + 4 * j, sz[j])); A a; if (!p.Commit(ps[j], &a)) return 102; cs.push_back(a);
    auto d = UnivariateEvaluationDomainFactory<F, kMax>::Create(8); A b; if (!p.CommitLagrange(d->FFT(ps[j]), &b)) return 103; if (!(a == b)) return 104;
    if (!(a == (ps[j].Evaluate(*tau) * A::Generator()).ToAffine())) return 107; }
  std::vector<PolynomialOpening<Poly>> op; std::vector<PolynomialOpening<Poly, A>> vo;
  for (u64 k = 0; k < *nq; ++k) { F x = pt[q[2 * k + 1]]; op.emplace_back(base::Ref<const Poly>(&ps[q[2 * k]]), x, ps[q[2 * k]].Evaluate(x)); }
  SimpleTranscriptWriter<A> w((base::Uint8VectorBuffer())); if (!w.WriteToTranscript(*tau2)) return 110; if (!p.CreateOpeningProof(op, &w)) return 105;
  for (u64 k = 0; k < *nq; ++k) { F x = op[k].point, y = op[k].opening; if (k == *at % *nq) { if (*tamper == 2) y += *delta; if (*tamper == 3) x += *delta; } vo.emplace_back(base::Ref<const A>(&cs[q[2 * k]]), x, y); }
  if (*tamper == 1) cs[q[0]] = (cs[q[0]] + (*delta * A::Generator()).ToAffine()).ToAffine();
  if (*tamper == 5) { if (!p.UnsafeSetup(8, *tau2)) return 106; }
  base::Uint8VectorBuffer wb = std::move(w).TakeBuffer(); std::vector<u8> bytes((u8*)wb.buffer(), (u8*)wb.buffer() + wb.buffer_offset());
  constexpr size_t S = 2 * bn254::Fq::kLimbNums * 8; u64 m = bytes.size() / S; u64 ret = m << 8;
  if (*tamper == 4) { A e; base::Buffer rb(bytes.data(), bytes.size()); rb.set_buffer_offset(S * (*at % m)); if (!rb.Read(&e)) return 108; e = (e + (*delta * A::Generator()).ToAffine()).ToAffine(); rb.set_buffer_offset(S * (*at % m)); if (!rb.Write(e)) return 109; }
  if (*tamper == 6) { if (m < 2 || std::equal(bytes.begin(), bytes.begin() + S, bytes.begin() + S)) return ret; std::swap_ranges(bytes.begin(), bytes.begin() + S, bytes.begin() + S); }
  if (*tamper == 7) bytes.resize(bytes.size() - S);
  base::Buffer rb(bytes.data(), bytes.size()); SimpleTranscriptReader<A> r(std::move(rb)); if (!r.WriteToTranscript(*tau2)) return 110; return ret | p.VerifyOpeningProof(vo, &r);
}
TVCF bn_gwc(const F* tau, const F* tau2, const u64* how, const u64* np, const u64* sz, const F* co, const u64* nq, const u64* q, const F* pt, const u64* tamper, const u64* at, const F* delta) { return run<GW>(tau, tau2, how, np, sz, co, nq, q, pt, tamper, at, delta); }
TVCF bn_shp(const F* tau, const F* tau2, const u64* how, const u64* np, const u64* sz, const F* co, const u64* nq, const u64* q, const F* pt, const u64* tamper, const u64* at, const F* delta) { return run<SH>(tau, tau2, how, np, sz, co, nq, q, pt, tamper, at, delta); }
// Pedersen commitments bind the vector and the blinding factor, also after a round trip through a buffer
TVCF bn_ped(const F* g, const F* h, const F* v, const F* r) {
  std::vector<A> gs; for (u64 i = 0; i < 4; ++i) gs.push_back((g[i] * A::Generator()).ToAffine());
  Pedersen<A, kMax, A> p((*h * A::Generator()).ToAffine(), std::move(gs)), q; base::Uint8VectorBuffer b; if (!b.Grow(base::EstimateSize(p)) || !b.Write(p) || !b.Done()) return 1;
  b.set_buffer_offset(0); if (!b.Read(&q)) return 2; if (!(p.h() == q.h() && p.generators() == q.generators())) return 3;
  A c, d; if (!p.Commit(vec(v, 4), *r, &c) || !q.Commit(vec(v, 4), *r, &d)) return 4; F e = *h * *r; for (u64 i = 0; i < 4; ++i) e += g[i] * v[i];
  Pedersen<A, kMax> x(p.h(), p.generators()); PointXYZZ<bn254::G1Curve> y; if (!x.Commit(vec(v, 4), *r, &y)) return 5;
  A want = (e * A::Generator()).ToAffine(); return c == want && d == want && y.ToAffine() == want ? 0 : 6;
}
// a set-up of n random generators: one commitment per unit vector is its generator, the blinding point is committed alone, sizes other than n are refused
TVCF bn_ped_setup(const u64* n, const F* v, const F* r) {
  Pedersen<A, kMax, A> p; if (!p.Setup(*n)) return 1; if (p.generators().size() != *n || p.h().IsZero()) return 2;
  for (u64 i = 0; i < *n; ++i) { if (p.generators()[i].IsZero() || p.generators()[i] == p.h()) return 3; for (u64 j = 0; j < i; ++j) if (p.generators()[i] == p.generators()[j]) return 4; }
  A c; std::vector<F> z(*n, F::Zero()); if (!p.Commit(z, F::One(), &c) || !(c == p.h())) return 5;
  for (u64 i = 0; i < *n; ++i) { z[i] = F::One(); if (!p.Commit(z, F::Zero(), &c) || !(c == p.generators()[i])) return 6; z[i] = F::Zero(); }
  if (p.Commit(vec(v, *n + 1), *r, &c) || (*n > 0 && p.Commit(vec(v, *n - 1), *r, &c))) return 7;
  return 0;
}
// openings of a polynomial with more coefficients than the set-up has powers are refused before anything is written that verifies
template <typename P> static u64 big(const F* tau, const u64* m, const F* co, const F* pt) {
  P p; if (!p.UnsafeSetup(4, *tau)) return 100; Poly q = poly(co, *m); std::vector<PolynomialOpening<Poly>> op; op.emplace_back(base::Ref<const Poly>(&q), *pt, q.Evaluate(*pt));
  A c; bool com = p.Commit(q, &c); SimpleTranscriptWriter<A> w((base::Uint8VectorBuffer())); if (!w.WriteToTranscript(*tau)) return 101; return u64(com) << 1 | u64(p.CreateOpeningProof(op, &w));
}
TVCF bn_gwc_big(const F* tau, const u64* m, const F* co, const F* pt) { return big<GW>(tau, m, co, pt); }
TVCF bn_shp_big(const F* tau, const u64* m, const F* co, const F* pt) { return big<SH>(tau, m, co, pt); }
// equality of openings: same polynomial (by identity), point and value
TVCF open_eq(const F* a, const F* b) {
  Poly p[2] = {poly(a, 2), poly(a, 2)}; using O = PolynomialOpening<Poly>; using Os = PolynomialOpenings<Poly>; using G = GroupedPolynomialOpenings<Poly>; u64 r = 0;
  auto o = [&](u64 k, const F& x, const F& y) { return O(base::Ref<const Poly>(&p[k]), x, y); };
  O w = o(0, a[0], a[1]), v[4] = {o(0, a[0], a[1]), o(1, a[0], a[1]), o(0, b[0], a[1]), o(0, a[0], b[1])};
  for (u64 i = 0; i < 4; ++i) { if ((w == v[i]) == (w != v[i])) return 255; r |= u64(w == v[i]) << i; }
  auto s = [&](u64 k, std::vector<F> y) { return Os(base::Ref<const Poly>(&p[k]), std::move(y)); };
  Os t = s(0, {a[0], a[1]}), u[4] = {s(0, {a[0], a[1]}), s(1, {a[0], a[1]}), s(0, {a[0], b[1]}), s(0, {a[0]})};
  for (u64 i = 0; i < 4; ++i) { if ((t == u[i]) == (t != u[i])) return 255; r |= u64(t == u[i]) << (4 + i); }
  auto g = [&](u64 k, std::vector<F> x) { return G({s(k, {a[0], a[1]})}, std::move(x)); };
  G c = g(0, {a[0]}), d[3] = {g(0, {a[0]}), g(1, {a[0]}), g(0, {b[0]})};
  for (u64 i = 0; i < 3; ++i) { if ((c == d[i]) == (c != d[i])) return 255; r |= u64(c == d[i]) << (8 + i); }
  return r;
}
