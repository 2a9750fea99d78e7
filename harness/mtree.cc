// binary Merkle trees and the simple FRI, over a hash given by a polynomial
#include "tvc_common.h"
#include <memory>
#include <string>
#include <vector>
#include "tachyon/base/logging.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#ifdef TVC_IR
#include "absl/strings/substitute.h"
#undef VLOG
#define VLOG(x) while (false) std::cerr
#endif
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#include "tachyon/crypto/commitments/univariate_polynomial_commitment_scheme.h"
#include "tachyon/crypto/transcripts/transcript.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#ifdef TVC_IR
#undef LOG
#define LOG(x) while (false) std::cerr
#endif
#include "tachyon/crypto/commitments/fri/simple_fri.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::crypto;
using F = bn254::Fr;
constexpr size_t kMax = 63;
TVCF tvc_init() { F::Init(); return 0; }
struct H : BinaryMerkleHasher<F, F> {
  F a = F(5), b = F(7);
  F ComputeLeafHash(const F& l) const override { return l * a + b; }
  F ComputeParentHash(const F& l, const F& r) const override { return l.Double() + r * F(3) + F::One(); }
};
struct HI : BinaryMerkleHasher<F, F> {  // leaves are their own hashes
  F ComputeLeafHash(const F& l) const override { return l; }
  F ComputeParentHash(const F& l, const F& r) const override { return l.Double() + r * F(3) + F::One(); }
};
using Tree = BinaryMerkleTree<F, F, kMax + 1>;
static std::vector<F> vec(const F* p, u64 n) { return std::vector<F>(p, p + n); }
// root; then for every leaf its path (hash, left)
TVCF mt_commit(const u64* n, const u64* par, const F* l, F* root, F* path, u64* left) {
  SimpleBinaryMerkleTreeStorage<F> st; H h; Tree t(&st, &h); if (*par) t.set_leaves_size_for_parallelization(*par);
  if (!t.Commit(vec(l, *n), root)) return 0; u64 k = 0; while ((u64{1} << k) < *n) ++k;
  u64 ok = 1;
  for (u64 i = 0; i < *n; ++i) {
    BinaryMerkleProof<F> p; if (!t.CreateOpeningProof(i, &p) || p.paths.size() != k) return 2; for (u64 j = 0; j < k; ++j) { path[i * k + j] = p.paths[j].hash; left[i * k + j] = p.paths[j].left; }
    F lh = h.ComputeLeafHash(l[i]); ok &= t.VerifyOpeningProof(*root, lh, p);
  }
  return ok ? 1 : 3;
}
TVCF mt_verify(F* root, const F* leaf, const u64* k, const F* path, const u64* left) {
  SimpleBinaryMerkleTreeStorage<F> st; H h; Tree t(&st, &h); BinaryMerkleProof<F> p; p.paths.resize(*k); for (u64 j = 0; j < *k; ++j) { p.paths[j].hash = path[j]; p.paths[j].left = left[j]; }
  return t.VerifyOpeningProof(*root, *leaf, p);
}
struct FW : TranscriptWriter<F> {
  std::vector<u64> ev; std::vector<F> proof, wr; const F* ch; size_t nc = 0;
  F SqueezeChallenge() override { ev.push_back(1); return ch[nc++]; }
  bool WriteToTranscript(const F& c) override { ev.push_back(2); wr.push_back(c); return true; }
  bool DoWriteToProof(const F& c) override { proof.push_back(c); return true; }
};
struct FR : TranscriptReader<F> {
  std::vector<u64> ev; const F* proof; size_t n = 0; mutable size_t at = 0; const F* ch; size_t nc = 0;
  F SqueezeChallenge() override { ev.push_back(1); return ch[nc++]; }
  bool WriteToTranscript(const F& c) override { ev.push_back(2); return true; }
  bool DoReadFromProof(F* c) const override { if (at >= n) return false; *c = proof[at++]; return true; }
};
struct Layers : SimpleFRIStorage<F> {
  std::vector<SimpleBinaryMerkleTreeStorage<F>> l;
  void Allocate(size_t n) override { l.resize(n); }
  BinaryMerkleTreeStorage<F>* GetLayer(size_t i) override { return &l[i]; }
};
using Poly = UnivariateDensePolynomial<F, kMax>;
using Fri = SimpleFRI<F, kMax>;
// commits to a polynomial and opens it at one index: roots and final value, evaluations of every layer, and the verdict
TVCF fri_both(const u64* k, const u64* sz, const F* co, const F* ch, const u64* index, const u64* vindex, F* proof, F* e, F* es, u64* cnt, u64* ev) {
  auto d = UnivariateEvaluationDomainFactory<F, kMax>::Create(u64{1} << *k); Layers st; HI h; Fri f(d.get(), &st, &h); FW w; w.ch = ch;
  Poly p(UnivariateDenseCoefficients<F, kMax>(vec(co, *sz), true)); if (!f.Commit(p, &w)) return 0;
  for (u64 j = 0; j < w.proof.size(); ++j) proof[j] = w.proof[j]; cnt[0] = w.proof.size(); cnt[1] = w.nc; cnt[2] = w.ev.size(); for (u64 j = 0; j < w.ev.size(); ++j) ev[j] = w.ev[j];
  SimpleFRIProof<F> pf; if (!f.CreateOpeningProof(*index, &pf)) return 2; if (pf.evaluations.size() != *k || pf.evaluations_sym.size() != *k || pf.paths.size() != *k || pf.paths_sym.size() != *k) return 4;
  for (u64 j = 0; j < *k; ++j) { e[j] = pf.evaluations[j]; es[j] = pf.evaluations_sym[j]; }
  FR r; r.ch = ch; r.proof = proof; r.n = cnt[0]; u64 ok = f.VerifyOpeningProof(r, *vindex, pf); return 8 | ok | (ok && r.ev == w.ev && r.at == cnt[0]) << 1;
}
// the verifier on arbitrary proofs: path of layer j has k - j elements, at pa/pas from j * k
TVCF fri_verify(const u64* k, const F* ch, const u64* index, const F* proof, const u64* np, const F* e, const F* es, const F* pa, const F* pas, const u64* lf, const u64* lfs, const u64* short_by) {
  auto d = UnivariateEvaluationDomainFactory<F, kMax>::Create(u64{1} << *k); Layers st; HI h; Fri f(d.get(), &st, &h); SimpleFRIProof<F> pf;
  for (u64 j = 0; j < *k; ++j) { pf.evaluations.push_back(e[j]); pf.evaluations_sym.push_back(es[j]); BinaryMerkleProof<F> p, q; for (u64 i = 0; i < *k - j - (*short_by == 1 ? 1 : 0); ++i) { p.paths.push_back({lf[j * *k + i] != 0, pa[j * *k + i]}); q.paths.push_back({lfs[j * *k + i] != 0, pas[j * *k + i]}); } pf.paths.push_back(p); pf.paths_sym.push_back(q); }
  // 2 to 5: one layer less, 6 to 9: one layer more
  switch (*short_by) { case 2: pf.paths.pop_back(); break; case 3: pf.paths_sym.pop_back(); break; case 4: pf.evaluations.pop_back(); break; case 5: pf.evaluations_sym.pop_back(); break;
    case 6: pf.paths.push_back(pf.paths.back()); break; case 7: pf.paths_sym.push_back(pf.paths_sym.back()); break; case 8: pf.evaluations.push_back(pf.evaluations.back()); break; case 9: pf.evaluations_sym.push_back(pf.evaluations_sym.back()); break; }
  FR r; r.ch = ch; r.proof = proof; r.n = *np; return f.VerifyOpeningProof(r, *index, pf);
}
