// whole PLONK proofs: keys, prover and verifier of a circuit given by a program, for every proving scheme of the library
#include "tvc_common.h"
#define sha256_state_st SHA256state_st  // BoringSSL's name of the state
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdlib>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "tachyon/crypto/random/xor_shift/xor_shift_rng.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/elliptic_curves/bn/bn254/halo2/bn254.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluation_domain_factory.h"
#include "tachyon/zk/base/commitments/gwc_extension.h"
#include "tachyon/zk/base/commitments/shplonk_extension.h"
#include "tachyon/zk/lookup/halo2/scheme.h"
#include "tachyon/zk/lookup/log_derivative_halo2/scheme.h"
#include "tachyon/zk/plonk/constraint_system/circuit.h"
#include "tachyon/zk/plonk/halo2/blake2b_transcript.h"
#include "tachyon/zk/plonk/halo2/pinned_verifying_key.h"
#include "tachyon/zk/plonk/halo2/poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/prover.h"
#include "tachyon/zk/plonk/halo2/proving_scheme.h"
#include "tachyon/zk/plonk/halo2/sha256_transcript.h"
#include "tachyon/zk/plonk/halo2/snark_verifier_poseidon_transcript.h"
#include "tachyon/zk/plonk/halo2/verifier.h"
#include "tachyon/zk/plonk/keys/proving_key.h"
#include "tachyon/zk/plonk/layout/floor_planner/simple_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_floor_planner.h"
#include "tachyon/zk/plonk/layout/floor_planner/v1/v1_strategy.cc"
typedef int32_t i32;
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::zk;
using namespace tachyon::zk::plonk;
using F = bn254::Fr;
using A = bn254::G1AffinePoint;
using Ex = std::unique_ptr<Expression<F>>;
using CS = ConstraintSystem<F>;
#include "plonk_sys.h"
#ifdef TVC_E2E_PSE
constexpr size_t kMax = 255, kMaxExt = 255;
#else
constexpr size_t kMax = 31, kMaxExt = 255;
#endif
using SH = SHPlonkExtension<bn254::BN254Curve, kMax, kMaxExt, A>;
using GW = GWCExtension<bn254::BN254Curve, kMax, kMaxExt, A>;
namespace h2 = tachyon::zk::plonk::halo2;
using h2::Vendor;
#ifdef TVC_E2E_PSE
using PS0 = h2::ProvingScheme<Vendor::kPSE, lookup::Type::kHalo2, SH>;
using PS1 = h2::ProvingScheme<Vendor::kPSE, lookup::Type::kHalo2, GW>;
#else
using PS0 = h2::ProvingScheme<Vendor::kScroll, lookup::Type::kHalo2, GW>;
using PS1 = h2::ProvingScheme<Vendor::kScroll, lookup::Type::kLogDerivativeHalo2, SH>;
#endif
TVCF tvc_init() { bn254::BN254Curve::Init(); tachyon::math::halo2::OverrideSubgroupGenerator(); return 0; }
// the circuit: the program of plonk_sys.h, then for each circuit its advice columns; fixed columns, selectors and copies are shared
struct Data { const u64* prog; const F* co; u64 rows; const F* fixed; const u64 *nsel, *sel, *ncopy, *copy; };
static Data g;
struct Cfg { using Field = F; World w; Cfg Clone() const { return *this; } };
struct Circ : public Circuit<Cfg> {
  using Config = Cfg;
  const F* adv = nullptr; const F* inst = nullptr;
  std::unique_ptr<Circuit<Cfg>> WithoutWitness() const override { return std::make_unique<Circ>(); }
  static Cfg Configure(CS& cs) { Cfg c; build(cs, c.w, g.prog, g.co); return c; }
  void Synthesize(Cfg&& c, Layouter<F>* l) const override {
    const World& w = c.w;
    std::vector<std::vector<std::optional<Cell>>> cells(2);
    l->AssignRegion("r", [&](Region<F>& r) {
      cells = {std::vector<std::optional<Cell>>(w.f.size() * g.rows), std::vector<std::optional<Cell>>(w.a.size() * g.rows)};
      for (u64 i = 0; i < w.f.size(); ++i) for (u64 j = 0; j < g.rows; ++j) cells[0][i * g.rows + j] = r.AssignFixed("f", w.f[i], j, [&] { return Value<F>::Known(g.fixed[i * g.rows + j]); }).cell();
      for (u64 i = 0; i < w.a.size(); ++i) for (u64 j = 0; j < g.rows; ++j) cells[1][i * g.rows + j] = r.AssignAdvice("a", w.a[i], j, [&] { return adv ? Value<F>::Known(adv[i * g.rows + j]) : Value<F>::Unknown(); }).cell();
      // selectors: kind << 16 | index << 8 | row
      for (u64 k = 0; k < *g.nsel; ++k) { u64 s = g.sel[k]; ((s >> 16) ? w.sc : w.ss)[(s >> 8) & 255].Enable(r, s & 255); }
      for (u64 k = 0; k < *g.ncopy; ++k) { u64 x = g.copy[2 * k], y = g.copy[2 * k + 1]; if ((x >> 16) == 2 || (y >> 16) == 2) continue;
        r.ConstrainEqual(*cells[x >> 16][((x >> 8) & 255) * g.rows + (x & 255)], *cells[y >> 16][((y >> 8) & 255) * g.rows + (y & 255)]); }
    });
    for (u64 k = 0; k < *g.ncopy; ++k) { u64 x = g.copy[2 * k], y = g.copy[2 * k + 1]; if ((y >> 16) == 2) l->ConstrainInstance(*cells[x >> 16][((x >> 8) & 255) * g.rows + (x & 255)], w.i[(y >> 8) & 255], y & 255); }
  }
};
struct CircS : public Circ { using FloorPlanner = SimpleFloorPlanner<CircS>; };
struct CircV : public Circ { using FloorPlanner = V1FloorPlanner<CircV>; };
template <typename W> static std::unique_ptr<crypto::TranscriptWriter<A>> writer() { return std::make_unique<W>(base::Uint8VectorBuffer()); }
static std::unique_ptr<crypto::TranscriptWriter<A>> writer(u64 t) { return t == 3 ? writer<h2::Blake2bWriter<A>>() : t == 0 ? writer<h2::Sha256Writer<A>>() : t == 1 ? writer<h2::PoseidonWriter<A>>() : writer<h2::SnarkVerifierPoseidonWriter<A>>(); }
static std::unique_ptr<crypto::TranscriptReader<A>> reader(u64 t, std::vector<uint8_t>& p) {
  base::Buffer b(p.data(), p.size());
  if (t == 3) return std::make_unique<h2::Blake2bReader<A>>(std::move(b));
  if (t == 0) return std::make_unique<h2::Sha256Reader<A>>(std::move(b));
  if (t == 1) return std::make_unique<h2::PoseidonReader<A>>(std::move(b));
  return std::make_unique<h2::SnarkVerifierPoseidonReader<A>>(std::move(b));
}
// runs f in a child process: 0 or 1 is its answer, 2 means that it stopped the process
template <typename T> static u64 child(T f) {
  pid_t p = fork(); if (p < 0) return 9;
  if (!p) { { const char* l = getenv("TVC_LOUD"); int n = open(l ? l : "/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); } _exit(f() ? 1 : 0); }
  int s = 0; waitpid(p, &s, 0); return WIFEXITED(s) && WEXITSTATUS(s) < 2 ? WEXITSTATUS(s) : 2;
}
template <typename PS, typename C> static bool run(u64 tr, u64 k, u64 nc, const F* tau, const u64* inst_rows, const F* adv, const F* inst, u64 na, u64 ni, u64 how, u64 at, const F* delta) {
  using PCS = typename PS::PCS; using Evals = typename PCS::Evals; using Domain = typename PCS::Domain; using ExtendedDomain = typename PCS::ExtendedDomain;
  u64 n = u64{1} << k; PCS pcs; if (!pcs.UnsafeSetup(n, *tau)) _exit(7);
  auto rng = std::make_unique<crypto::XORShiftRNG>(); uint8_t seed[16]; for (int j = 0; j < 16; ++j) seed[j] = 17 * j + at + 1; if (!rng->SetSeed(seed)) _exit(7);
  auto pr = h2::Prover<PS>::Create(std::move(pcs), writer(tr), std::move(rng), 0);
  pr.set_domain(Domain::Create(n)); CS cs; cs.set_lookup_type(PS::kLookupType); C::Configure(cs); pr.set_extended_domain(ExtendedDomain::Create(size_t{1} << cs.ComputeExtendedK(k)));
  std::vector<C> circs(nc); std::vector<std::vector<Evals>> iv;
  for (u64 c = 0; c < nc; ++c) { circs[c].adv = adv + c * na * g.rows; std::vector<Evals> cols; for (u64 i = 0; i < ni; ++i) cols.push_back(Evals(std::vector<F>(inst + (c * ni + i) * g.rows, inst + (c * ni + i) * g.rows + inst_rows[i]))); iv.push_back(std::move(cols)); }
  ProvingKey<PS> pk;
  if (how & 256) { VerifyingKey<F, A> vk; if (!vk.Load(&pr, circs[0], PS::kLookupType)) _exit(7); if (!pk.LoadWithVerifyingKey(&pr, circs[0], std::move(vk))) _exit(7); }
  else if (!pk.Load(&pr, circs[0])) _exit(7);
  auto claim = iv; pr.CreateProof(pk, std::move(iv), circs);
  std::vector<uint8_t> proof = pr.GetWriter()->buffer().owned_buffer();
  how &= 255;
  if (how == 1) proof[at % proof.size()] ^= 1 + at / proof.size() % 255;
  if (how == 2) { auto& e = claim[at % claim.size()]; auto& c = e[at / 7 % e.size()]; std::vector<F> v = c.evaluations(); v[at / 49 % v.size()] += *delta; c = Evals(std::move(v)); }
  if (how == 3) proof.resize(at % proof.size());
  if (how == 4 && claim.size() > 1) std::swap(claim[0], claim[1]);
  auto ve = pr.ToVerifier(reader(tr, proof)); return ve.VerifyProof(pk.verifying_key(), claim);
}
// how: 0 honest, 1 a byte of the proof changed, 2 an instance value changed, 3 truncated, 4 instances of the two circuits swapped; +256: key from a loaded verifying key
template <typename C> static u64 run2(u64 ps, u64 tr, u64 k, u64 nc, const F* tau, const u64* ir, const F* adv, const F* inst, u64 na, u64 ni, u64 how, u64 at, const F* delta) {
  return child([&] { return ps ? run<PS1, C>(tr, k, nc, tau, ir, adv, inst, na, ni, how, at, delta) : run<PS0, C>(tr, k, nc, tau, ir, adv, inst, na, ni, how, at, delta); });
}
TVCF e2e(const u64* ps, const u64* tr, const u64* fp, const u64* k, const u64* nc, const F* tau, const u64* prog, const F* co, const u64* rows, const F* fixed, const u64* nsel, const u64* sel, const u64* ncopy, const u64* copy, const u64* inst_rows, const F* adv, const F* inst, const u64* na, const u64* ni, const u64* how, const u64* at, const F* delta) {
  g = Data{prog, co, *rows, fixed, nsel, sel, ncopy, copy};
  return *fp ? run2<CircV>(*ps, *tr, *k, *nc, tau, inst_rows, adv, inst, *na, *ni, *how, *at, delta) : run2<CircS>(*ps, *tr, *k, *nc, tau, inst_rows, adv, inst, *na, *ni, *how, *at, delta);
}
