#include "tvc_common.h"
#include <array>
#include <vector>
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/crypto/hashes/sponge/padding_free_sponge.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bls12_381.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_bn254.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_goldilocks.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_koala_bear.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_mersenne31.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_pallas.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_vesta.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/truncated_permutation.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h"
#include "tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/simple_binary_merkle_tree_storage.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::crypto;
using Fr = bn254::Fr;
using BB = BabyBear; using KB = KoalaBear; using M31 = Mersenne31; using GL = Goldilocks;

// ---- an arbitrary function F^n -> F^m (uninterpreted in proofs; this body natively)
template <typename F> static void mixf(u64 id, const F* in, u64 n, F* out, u64 m) {
  F acc(3 + id % 7);
  for (u64 j = 0; j < n; ++j) acc = acc.Square() + in[j] * F(j % 5 + 2) + F::One();
  for (u64 i = 0; i < m; ++i) { acc = acc.Square() + F(i % 3 + 1); out[i] = acc; }
}
extern "C" __attribute__((noinline)) void tvc_uf_fr(u64 id, const Fr* in, u64 n, Fr* out, u64 m) { mixf(id, in, n, out, m); }
extern "C" __attribute__((noinline)) void tvc_uf_bb(u64 id, const BB* in, u64 n, BB* out, u64 m) { mixf(id, in, n, out, m); }
static void uf(u64 id, const Fr* in, u64 n, Fr* out, u64 m) { tvc_uf_fr(id, in, n, out, m); }
static void uf(u64 id, const BB* in, u64 n, BB* out, u64 m) { tvc_uf_bb(id, in, n, out, m); }

template <typename P> struct ToyP;
template <typename F, size_t R, size_t C> struct TP { using Field = F; constexpr static size_t kRate = R, kCapacity = C, kWidth = R + C; };
namespace tachyon::crypto {
template <typename P> struct CryptographicSpongeTraits<ToyP<P>> { using Params = P; using F = typename P::Field; };
}
template <typename P> struct ToyP : public PoseidonSpongeBase<ToyP<P>> {
  using Params = P; using F = typename P::Field;
  void Permute(SpongeState<P>& s) const { F out[P::kWidth]; uf(1, s.elements.data(), P::kWidth, out, P::kWidth); for (size_t i = 0; i < P::kWidth; ++i) s[i] = out[i]; }
};
template <typename P, typename F = typename P::Field> static SpongeState<P> mkstate(const F* s, const u64* mode) {
  SpongeState<P> st;
  for (size_t i = 0; i < P::kWidth; ++i) st[i] = s[i];
  st.mode = mode[0] ? DuplexSpongeMode::Squeezing(mode[1]) : DuplexSpongeMode::Absorbing(mode[1]);
  return st;
}
template <typename P, typename F = typename P::Field> static u64 putstate(const SpongeState<P>& st, F* s, u64* mode) {
  for (size_t i = 0; i < P::kWidth; ++i) s[i] = st[i];
  mode[0] = st.mode.type == DuplexSpongeMode::Type::kSqueezing; mode[1] = st.mode.next_index;
  return st.size();
}
template <typename S, typename F = typename S::F> static u64 script(const S& sp, const F* s, const u64* mode, const u64* nops, const u64* op, const u64* len, const F* in, F* out, F* so, u64* mo) {
  auto st = mkstate<typename S::Params>(s, mode);
  for (u64 i = 0; i < *nops; ++i) {
    if (op[i] == 0) { std::vector<F> v(in, in + len[i]); in += len[i]; if (!sp.Absorb(st, v)) return 77; }
    else if (op[i] == 1) { std::vector<F> v = sp.SqueezeNativeFieldElements(st, len[i]); if (v.size() != len[i]) return 78; for (const F& f : v) *out++ = f; }
    else { std::vector<F> v = sp.template SqueezeFieldElements<F>(st, len[i]); if (v.size() != len[i]) return 78; for (const F& f : v) *out++ = f; }
  }
  return putstate(st, so, mo);
}
#define TOY(N, F, R, C)                                                                                         \
  TVCF N##_script(const F* s, const u64* mode, const u64* nops, const u64* op, const u64* len, const F* in, F* out, F* so, u64* mo) { \
    return script(ToyP<TP<F, R, C>>(), s, mode, nops, op, len, in, out, so, mo); }                                \
  TVCF N##_pfs(const u64* n, const F* in, F* out) {                                                             \
    PaddingFreeSponge<ToyP<TP<F, R, C>>, R, C> h{ToyP<TP<F, R, C>>()}; auto o = h.Hash(std::vector<F>(in, in + *n)); for (size_t i = 0; i < C; ++i) out[i] = o[i]; return 0; } \
  TVCF N##_pfs2(const u64* n, const F* in, F* out) {                                                            \
    PaddingFreeSponge<ToyP<TP<F, R, C>>, R, R + C> h{ToyP<TP<F, R, C>>()}; auto o = h.Hash(absl::Span<const F>(in, *n)); for (size_t i = 0; i < R + C; ++i) out[i] = o[i]; return 0; }
TOY(t21, Fr, 2, 1)
TOY(t31, Fr, 3, 1)
TOY(t22, Fr, 2, 2)
TOY(t11, Fr, 1, 1)
TOY(b43, BB, 4, 3)
template <typename F, size_t R, size_t C, size_t CH, size_t N> static u64 trunc(const F* in, F* out) {
  TruncatedPermutation<ToyP<TP<F, R, C>>, CH, N> h{ToyP<TP<F, R, C>>()};
  std::array<std::array<F, CH>, N> a;
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < CH; ++j) a[i][j] = in[i * CH + j];
  auto o = h.Compress(a);
  for (size_t i = 0; i < CH; ++i) out[i] = o[i];
  return 0;
}
TVCF tr_2_2(const Fr* in, Fr* out) { return trunc<Fr, 3, 1, 2, 2>(in, out); }
TVCF tr_1_2(const Fr* in, Fr* out) { return trunc<Fr, 2, 1, 1, 2>(in, out); }
TVCF tr_1_3(const Fr* in, Fr* out) { return trunc<Fr, 4, 1, 1, 3>(in, out); }
TVCF tr_3_2(const Fr* in, Fr* out) { return trunc<Fr, 6, 1, 3, 2>(in, out); }
// ---- absorbing other types
template <typename T> static u64 absorb_as(const T& v, u64 cap, Fr* out) {
  std::vector<Fr> r;
  bool ok = SerializeToFieldElements(v, &r);
  for (u64 i = 0; i < cap; ++i) out[i] = i < r.size() ? r[i] : Fr::Zero();
  return (ok ? 256 : 0) + r.size();
}
TVCF ser_u8(const u8* v, Fr* out) { return absorb_as(*v, 1, out); }
TVCF ser_u32(const u32* v, Fr* out) { return absorb_as(*v, 1, out); }
TVCF ser_u64(const u64* v, Fr* out) { return absorb_as(*v, 1, out); }
TVCF ser_vu64(const u64* n, const u64* v, Fr* out) { return absorb_as(std::vector<u64>(v, v + *n), 3, out); }
TVCF ser_vf(const u64* n, const Fr* v, Fr* out) { return absorb_as(std::vector<Fr>(v, v + *n), 3, out); }
TVCF ser_af(const Fr* v, Fr* out) { return absorb_as(std::array<Fr, 3>{v[0], v[1], v[2]}, 3, out); }
TVCF ser_sf(const u64* n, const Fr* v, Fr* out) { return absorb_as(absl::Span<const Fr>(v, *n), 3, out); }
template <typename T> static u64 absorb_bb(const T& v, BB* out) {
  std::vector<BB> r; bool ok = SerializeToFieldElements(v, &r); *out = r.empty() ? BB::Zero() : r[0]; return (ok ? 256 : 0) + r.size();
}
TVCF serb_u8(const u8* v, BB* out) { return absorb_bb(*v, out); }
TVCF serb_u32(const u32* v, BB* out) { return absorb_bb(*v, out); }
TVCF serb_u64(const u64* v, BB* out) { return absorb_bb(*v, out); }
// ---- Grain LFSR
template <typename F> static u64 lfsr(const u64* cfg, const u64* nops, const u64* kind, const u64* len, F* out) {
  PoseidonGrainLFSRConfig c;
  c.prime_num_bits = cfg[0]; c.state_len = cfg[1]; c.num_full_rounds = cfg[2]; c.num_partial_rounds = cfg[3]; c.is_sbox_an_inverse = cfg[4];
  PoseidonGrainLFSR<F> l(c);
  u64 k = 0;
  for (u64 i = 0; i < *nops; ++i) {
    Vector<F> v = kind[i] ? l.GetFieldElementsModP(len[i]) : l.GetFieldElementsRejectionSampling(len[i]);
    for (u64 j = 0; j < len[i]; ++j) out[k++] = v[j];
  }
  return k;
}
TVCF lfsr_fr(const u64* cfg, const u64* nops, const u64* kind, const u64* len, Fr* out) { return lfsr(cfg, nops, kind, len, out); }
TVCF lfsr_bb(const u64* cfg, const u64* nops, const u64* kind, const u64* len, BB* out) { return lfsr(cfg, nops, kind, len, out); }
TVCF lfsr_m31(const u64* cfg, const u64* nops, const u64* kind, const u64* len, M31* out) { return lfsr(cfg, nops, kind, len, out); }
TVCF lfsr_gl(const u64* cfg, const u64* nops, const u64* kind, const u64* len, GL* out) { return lfsr(cfg, nops, kind, len, out); }
// ---- Poseidon
template <typename F> static Matrix<F> mat(u64 r, u64 c, const F* a) { Matrix<F> m(r, c); for (u64 i = 0; i < r; ++i) for (u64 j = 0; j < c; ++j) m(i, j) = a[i * c + j]; return m; }
template <typename F> static Vector<F> vec(u64 n, const F* a) { Vector<F> v(n); for (u64 i = 0; i < n; ++i) v[i] = a[i]; return v; }
template <typename F> static void unmat(const Matrix<F>& m, F* a) { for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) a[i * m.cols() + j] = m(i, j); }
template <typename P, typename F = typename P::Field> static PoseidonConfig<P> mkcfg(const F* ark, const F* mds, const F* pre, const F* row, const F* col) {
  constexpr u64 W = P::kWidth, T = P::kFullRounds + P::kPartialRounds;
  std::vector<SparseMDSMatrix<F>> sp;
  for (u64 i = 0; i < P::kPartialRounds; ++i) sp.push_back(SparseMDSMatrix<F>(vec(W, row + i * W), vec(W - 1, col + i * (W - 1))));
  return PoseidonConfig<P>(PoseidonConfigBase<P>(mat(T, W, ark)), mat(W, W, mds), mat(W, W, pre), sp);
}
template <typename P, typename F = typename P::Field> static u64 outcfg(const PoseidonConfig<P>& c, F* ark, F* mds, F* pre, F* row, F* col) {
  constexpr u64 W = P::kWidth, T = P::kFullRounds + P::kPartialRounds;
  if (!c.IsValid() || c.ark.rows() != (Eigen::Index)T || c.ark.cols() != (Eigen::Index)W || c.mds.rows() != (Eigen::Index)W || c.pre_sparse_mds.rows() != (Eigen::Index)W || c.sparse_mds_matrices.size() != P::kPartialRounds) return 1;
  unmat(c.ark, ark); unmat(c.mds, mds); unmat(c.pre_sparse_mds, pre);
  for (u64 i = 0; i < P::kPartialRounds; ++i) {
    for (u64 j = 0; j < W; ++j) row[i * W + j] = c.sparse_mds_matrices[i].row()[j];
    for (u64 j = 0; j + 1 < W; ++j) col[i * (W - 1) + j] = c.sparse_mds_matrices[i].col_hat()[j];
  }
  return 0;
}
template <typename P, typename F = typename P::Field> static u64 runp(const PoseidonSponge<P>& sp, const F* s, F* r) {
  SpongeState<P> st; for (u64 i = 0; i < P::kWidth; ++i) st[i] = s[i];
  auto mode = st.mode;
  sp.Permute(st);
  for (u64 i = 0; i < P::kWidth; ++i) r[i] = st[i];
  return st.mode == mode ? st.size() : 0;
}
template <typename T> static u64 copyable(const T& v, T* out) {
  base::Uint8VectorBuffer wb;
  if (!wb.Grow(base::EstimateSize(v))) return 1;
  if (!wb.Write(v) || !wb.Done()) return 2;
  wb.set_buffer_offset(0);
  if (!wb.Read(out) || !wb.Done()) return 3;
  // every strict prefix is refused
  size_t n = wb.owned_buffer().size();
  for (size_t cut : {size_t{0}, size_t{1}, size_t{7}, n / 2, n - 1}) {
    if (cut >= n) continue;
    base::ReadOnlyBuffer rb(wb.buffer(), cut); T t;
    if (rb.Read(&t)) return 4;
  }
  return 0;
}
template <typename P, typename F = typename P::Field> static u64 pcopy(const u64* skip, const F* s, F* r) {
  PoseidonSponge<P> a(PoseidonConfig<P>::Create(*skip)), b;
  if (u64 e = copyable(a, &b)) return e;
  if (!(a == b) || a != b) return 5;
  return runp(b, s, r);
}
#define POS(N, F, R, A, FU, PA, C)                                                                              \
  using N##_P = PoseidonParams<F, R, A, FU, PA, C>;                                                             \
  TVCF N##_perm(const F* ark, const F* mds, const F* pre, const F* row, const F* col, const F* s, F* r) { return runp(PoseidonSponge<N##_P>(mkcfg<N##_P>(ark, mds, pre, row, col)), s, r); }
#define POSC(N, F)                                                                                              \
  TVCF N##_create(const u64* skip, F* ark, F* mds, F* pre, F* row, F* col) { return outcfg(PoseidonConfig<N##_P>::Create(*skip), ark, mds, pre, row, col); } \
  TVCF N##_full(const u64* skip, const F* s, F* r) { return runp(PoseidonSponge<N##_P>(PoseidonConfig<N##_P>::Create(*skip)), s, r); } \
  TVCF N##_copy(const u64* skip, const F* s, F* r) { return pcopy<N##_P>(skip, s, r); }
#ifdef TVC_IR
#define POSX(N, F, R, A, FU, PA, C) POS(N, F, R, A, FU, PA, C)
#else
#define POSX(N, F, R, A, FU, PA, C) POS(N, F, R, A, FU, PA, C) POSC(N, F)
#endif
POSX(pfr3, Fr, 2, 5, 8, 10, 1)
POSX(pfr17, Fr, 2, 17, 8, 31, 1)
POSX(pfrs, Fr, 1, 5, 4, 3, 1)
POSX(pfr5, Fr, 4, 5, 8, 60, 1)
POSX(pfr9, Fr, 8, 5, 8, 63, 1)
POSX(pbb16, BB, 15, 7, 8, 22, 1)
POSX(pbb24, BB, 23, 7, 8, 22, 1)
POSX(pgl8, GL, 7, 7, 8, 22, 1)
template <typename F> static u64 sparse(u64 n, const F* row, const F* col, const F* v, F* r, F* m) {
  SparseMDSMatrix<F> s(vec(n, row), vec(n - 1, col)); Vector<F> x = vec(n, v);
  s.Apply(x); for (u64 i = 0; i < n; ++i) r[i] = x[i];
  Matrix<F> c = s.Construct(); unmat(c, m);
  auto t = SparseMDSMatrix<F>::FromMDSMatrix(c);
  return t == s ? 1 : 0;
}
TVCF sparse_fr(const u64* n, const Fr* row, const Fr* col, const Fr* v, Fr* r, Fr* m) { return sparse(*n, row, col, v, r, m); }
// ---- Poseidon2
template <typename P, typename F = typename P::Field> static u64 runp2(const Poseidon2Sponge<P>& sp, const F* s, F* r) {
  SpongeState<P> st; for (u64 i = 0; i < P::kWidth; ++i) st[i] = s[i];
  auto mode = st.mode;
  sp.Permute(st);
  for (u64 i = 0; i < P::kWidth; ++i) r[i] = st[i];
  return st.mode == mode ? st.size() : 0;
}
template <typename P, typename F = typename P::Field> static Poseidon2Config<P> mkcfg2(const F* ark, const F* diag, const u8* sh) {
  Poseidon2Config<P> c;
  c.ark = mat(P::kFullRounds + P::kPartialRounds, P::kWidth, ark);
  c.internal_diagonal_minus_one = vec(P::kWidth, diag);
  c.internal_shifts = vec(P::kRate, sh);
  return c;
}
template <typename P, typename F = typename P::Field> static u64 p2create(F* ark, F* diag, u8* sh) {
  auto c = Poseidon2Config<P>::CreateDefault();
  if (!c.IsValid()) return 99;
  unmat(c.ark, ark);
  for (u64 i = 0; i < P::kWidth; ++i) diag[i] = i < (u64)c.internal_diagonal_minus_one.size() ? c.internal_diagonal_minus_one[i] : F::Zero();
  for (u64 i = 0; i < P::kRate; ++i) sh[i] = i < (u64)c.internal_shifts.size() ? c.internal_shifts[i] : 0;
  return (c.internal_diagonal_minus_one.size() == P::kWidth ? 1 : 0) | (c.internal_shifts.size() == P::kRate ? 2 : 0);
}
template <typename P, typename F = typename P::Field> static u64 p2copy(const F* s, F* r) {
  Poseidon2Sponge<P> a, b;
  b.config.ark.setZero();
  if (u64 e = copyable(a, &b)) return e;
  if (!(a == b) || a != b) return 5;
  return runp2(b, s, r);
}
#define P2(N, EV, IV, F, R, A, FU, PA)                                                                         \
  using N##_P = Poseidon2Params<Poseidon2Vendor::EV, Poseidon2Vendor::IV, F, R, A, 1, FU, PA>;                  \
  TVCF N##_perm(const F* ark, const F* diag, const u8* sh, const F* s, F* r) { return runp2(Poseidon2Sponge<N##_P>(mkcfg2<N##_P>(ark, diag, sh)), s, r); }
#define P2C(N, EV, IV, F, R, A, ...)                                                                                 \
  using N##_D = Poseidon2Params<Poseidon2Vendor::EV, Poseidon2Vendor::IV, F, R, A __VA_ARGS__>;                             \
  TVCF N##_rounds(u64* o) { o[0] = N##_D::kFullRounds; o[1] = N##_D::kPartialRounds; o[2] = N##_D::kWidth; return 0; } \
  TVCF N##_create(F* ark, F* diag, u8* sh) { return p2create<N##_D>(ark, diag, sh); }                           \
  TVCF N##_full(const F* s, F* r) { return runp2(Poseidon2Sponge<N##_D>(), s, r); }                              \
  TVCF N##_copy(const F* s, F* r) { return p2copy<N##_D>(s, r); }
P2(qfr2, kHorizen, kHorizen, Fr, 1, 5, 4, 5)
P2(qfr3, kHorizen, kHorizen, Fr, 2, 5, 8, 56)
P2(qfr4, kPlonky3, kHorizen, Fr, 3, 5, 8, 12)
P2(qfr8, kHorizen, kPlonky3, Fr, 7, 5, 6, 4)
P2(qfr12, kPlonky3, kPlonky3, Fr, 11, 5, 4, 3)
P2(qgl8, kHorizen, kHorizen, GL, 7, 7, 8, 22)
P2(qbb16hp, kHorizen, kPlonky3, BB, 15, 7, 8, 13)
P2(qbb16pp, kPlonky3, kPlonky3, BB, 15, 7, 8, 13)
P2(qbb16hh, kHorizen, kHorizen, BB, 15, 7, 8, 13)
P2(qbb24pp, kPlonky3, kPlonky3, BB, 23, 7, 8, 21)
P2(qkb16pp, kPlonky3, kPlonky3, KB, 15, 7, 8, 13)
P2(qkb16hh, kPlonky3, kHorizen, KB, 15, 3, 4, 3)
P2(qm16pp, kPlonky3, kPlonky3, M31, 15, 7, 8, 13)
#ifndef TVC_IR
P2C(cbn3, kHorizen, kHorizen, Fr, 2, 5)
P2C(cbls2, kHorizen, kHorizen, bls12_381::Fr, 1, 5)
P2C(cbls3, kHorizen, kHorizen, bls12_381::Fr, 2, 5)
P2C(cbls4, kHorizen, kHorizen, bls12_381::Fr, 3, 5)
P2C(cbls4p, kPlonky3, kPlonky3, bls12_381::Fr, 3, 5)
P2C(cbls8, kHorizen, kHorizen, bls12_381::Fr, 7, 5)
P2C(cpal3, kHorizen, kHorizen, pallas::Fr, 2, 5)
P2C(cpal4, kPlonky3, kPlonky3, pallas::Fr, 3, 5)
P2C(cpal8, kHorizen, kHorizen, pallas::Fr, 7, 5)
P2C(cvesta3, kHorizen, kHorizen, vesta::Fr, 2, 5)
P2C(cgl8, kHorizen, kHorizen, GL, 7, 7)
P2C(cgl12, kHorizen, kHorizen, GL, 11, 7, , 1, 8, 22)
P2C(cgl16, kPlonky3, kHorizen, GL, 15, 7)
P2C(cgl20, kHorizen, kPlonky3, GL, 19, 7, , 1, 8, 22)
P2C(cbb16hh, kHorizen, kHorizen, BB, 15, 7)
P2C(cbb16hp, kHorizen, kPlonky3, BB, 15, 7)
P2C(cbb16pp, kPlonky3, kPlonky3, BB, 15, 7)
P2C(cbb24hh, kHorizen, kHorizen, BB, 23, 7)
P2C(cbb24pp, kPlonky3, kPlonky3, BB, 23, 7)
P2C(ckb16, kPlonky3, kPlonky3, KB, 15, 7)
P2C(ckb24, kHorizen, kPlonky3, KB, 23, 7)
P2C(cm16, kPlonky3, kPlonky3, M31, 15, 7)
P2C(cm24, kPlonky3, kPlonky3, M31, 23, 7)
// packed permutation: every lane is the scalar permutation of that lane
template <typename SP, typename PP> static u64 packed(const typename SP::Field* s, typename SP::Field* r) {
  using PF = typename PP::Field; constexpr u64 W = SP::kWidth, N = PF::N;
  Poseidon2Sponge<PP> sp; SpongeState<PP> st;
  for (u64 i = 0; i < W; ++i) for (u64 l = 0; l < N; ++l) st[i][l] = s[(l % 2) * W + i] + typename SP::Field(l / 2);
  sp.Permute(st);
  Poseidon2Sponge<SP> ss;
  for (u64 l = 0; l < N; ++l) {
    SpongeState<SP> q; for (u64 i = 0; i < W; ++i) q[i] = s[(l % 2) * W + i] + typename SP::Field(l / 2);
    ss.Permute(q);
    for (u64 i = 0; i < W; ++i) if (q[i] != st[i][l]) return 1 + l;
  }
  for (u64 i = 0; i < W; ++i) r[i] = st[i][0];
  return 0;
}
#define PK(N, EV, IV, F, PF, R, A)                                                                              \
  TVCF N##_packed(const F* s, F* r) { return packed<Poseidon2Params<Poseidon2Vendor::EV, Poseidon2Vendor::IV, F, R, A>, Poseidon2Params<Poseidon2Vendor::EV, Poseidon2Vendor::IV, PF, R, A>>(s, r); }
PK(cbb16hh, kHorizen, kHorizen, BB, PackedBabyBear, 15, 7)
PK(cbb16hp, kHorizen, kPlonky3, BB, PackedBabyBear, 15, 7)
PK(cbb16pp, kPlonky3, kPlonky3, BB, PackedBabyBear, 15, 7)
PK(cbb24pp, kPlonky3, kPlonky3, BB, PackedBabyBear, 23, 7)
PK(ckb16, kPlonky3, kPlonky3, KB, PackedKoalaBear, 15, 7)
PK(ckb24, kHorizen, kPlonky3, KB, PackedKoalaBear, 23, 7)
PK(cm16, kPlonky3, kPlonky3, M31, PackedMersenne31, 15, 7)
PK(cm24, kPlonky3, kPlonky3, M31, PackedMersenne31, 23, 7)
#endif
template <typename M, u64 W, typename F> static u64 ext(const F* v, F* r, F* m) {
  Vector<F> x = vec(W, v); M::template Apply<W>(x); for (u64 i = 0; i < W; ++i) r[i] = x[i];
  if (m) { Matrix<F> c = M::template Construct<W>(W); unmat(c, m); }
  return 0;
}
#define EXT(W) TVCF exth_##W(const Fr* v, Fr* r, Fr* m) { return ext<Poseidon2ExternalMatrix<Poseidon2HorizenExternalMatrix<Fr>>, W>(v, r, m); } \
  TVCF extp_##W(const Fr* v, Fr* r, Fr* m) { return ext<Poseidon2ExternalMatrix<Poseidon2Plonky3ExternalMatrix<Fr>>, W>(v, r, m); }
EXT(2) EXT(3) EXT(4) EXT(8) EXT(12) EXT(16) EXT(20) EXT(24)
TVCF int_fr(const u64* n, const Fr* d, const Fr* v, Fr* r) { Vector<Fr> x = vec(*n, v), y = vec(*n, d); Poseidon2HorizenInternalMatrix<Fr>::Apply(x, y); for (u64 i = 0; i < *n; ++i) r[i] = x[i]; return 0; }
TVCF addraw_m31(const u32* a, const u32* b, u32* r) { M31 x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); M31 z = x + y; memcpy(r, &z, 4); return 0; }
#define SHF(N, F) TVCF shf_##N(const u64* n, const u8* sh, const F* v, F* r) { Vector<F> x = vec(*n, v); Vector<u8> y = vec(*n - 1, sh); Poseidon2Plonky3InternalMatrix<F>::Apply(x, y); for (u64 i = 0; i < *n; ++i) r[i] = x[i]; return 0; }
SHF(bb, BB) SHF(kb, KB) SHF(m31, M31)
// ---- copyable
TVCF st_copy(const Fr* s, const u64* mode, Fr* so, u64* mo) {
  using P = TP<Fr, 2, 1>;
  auto st = mkstate<P>(s, mode); SpongeState<P> t;
  if (u64 e = copyable(st, &t)) return e;
  if (!(st == t) || st != t) return 5;
  putstate(t, so, mo);
  return 0;
}
TVCF st_eq(const Fr* s, const u64* mode, const Fr* s2, const u64* mode2) {
  using P = TP<Fr, 2, 1>;
  auto a = mkstate<P>(s, mode), b = mkstate<P>(s2, mode2);
  u64 f = 0; if (a == b) f |= 1; if (a != b) f |= 2; return f;
}
// ---- binary Merkle tree over an arbitrary pair of hash functions
struct TH : public BinaryMerkleHasher<Fr, Fr> {
  Fr ComputeLeafHash(const Fr& l) const override { Fr r; uf(2, &l, 1, &r, 1); return r; }
  Fr ComputeParentHash(const Fr& a, const Fr& b) const override { Fr in[2] = {a, b}, r; uf(3, in, 2, &r, 1); return r; }
};
// storage with guard cells: any access outside the allocation is recorded
struct GS : public BinaryMerkleTreeStorage<Fr> {
  std::vector<Fr> h; mutable u64 oob = 0; mutable Fr dummy = Fr::Zero(); u64 n = 0;
  void Allocate(size_t s) override { h.assign(s, Fr(4242)); n = s; }
  size_t GetSize() const override { return n; }
  const Fr& GetHash(size_t i) const override { if (i >= n) { ++oob; return dummy; } return h[i]; }
  void SetHash(size_t i, const Fr& v) override { if (i >= n) { ++oob; return; } h[i] = v; }
};
constexpr size_t kMaxLeaves = 16;
using MT = BinaryMerkleTree<Fr, Fr, kMaxLeaves>;
TVCF mt_commit(const u64* par, const u64* n, const Fr* leaf, const u64* cap, Fr* root, Fr* nodes) {
  GS st; TH h; MT t(&st, &h);
  if (*par) t.set_leaves_size_for_parallelization(*par);
  std::vector<Fr> l(leaf, leaf + *n);
  if (!t.Commit(l, root)) return 0;
  for (u64 i = 0; i < *cap; ++i) nodes[i] = i < st.n ? st.h[i] : Fr::Zero();
  return st.oob ? 1000 + st.oob : st.n;
}
// root, proof (left flags, siblings), verdict of the honest proof
TVCF mt_open(const u64* n, const Fr* leaf, const u64* idx, const u64* cap, u64* left, Fr* sib, u64* ok) {
  GS st; TH h; MT t(&st, &h);
  std::vector<Fr> l(leaf, leaf + *n); Fr root;
  if (!t.Commit(l, &root)) return 1 << 20;
  BinaryMerkleProof<Fr> p;
  if (!t.CreateOpeningProof(*idx, &p)) return 1 << 21;
  for (u64 i = 0; i < *cap; ++i) { left[i] = i < p.paths.size() ? p.paths[i].left : 0; sib[i] = i < p.paths.size() ? p.paths[i].hash : Fr::Zero(); }
  *ok = t.VerifyOpeningProof(root, h.ComputeLeafHash(l[*idx]), p);
  return st.oob ? 1000 + st.oob : p.paths.size();
}
// verdict on an arbitrary proof
TVCF mt_verify(const Fr* root, const Fr* lh, const u64* k, const u64* left, const Fr* sib) {
  GS st; TH h; MT t(&st, &h);
  BinaryMerkleProof<Fr> p;
  for (u64 i = 0; i < *k; ++i) p.paths.push_back({left[i] != 0, sib[i]});
  Fr rt = *root; return t.VerifyOpeningProof(rt, *lh, p) ? 1 : 0;
}
TVCF mt_proofeq(const u64* k, const u64* l1, const Fr* s1, const u64* k2, const u64* l2, const Fr* s2) {
  BinaryMerkleProof<Fr> p, q;
  for (u64 i = 0; i < *k; ++i) p.paths.push_back({l1[i] != 0, s1[i]});
  for (u64 i = 0; i < *k2; ++i) q.paths.push_back({l2[i] != 0, s2[i]});
  u64 f = 0; if (p == q) f |= 1; if (p != q) f |= 2;
  if (*k == 1 && *k2 == 1) { if (p.paths[0] == q.paths[0]) f |= 4; if (p.paths[0] != q.paths[0]) f |= 8; }
  return f;
}
TVCF mt_simple(const u64* n, const Fr* leaf, Fr* root) {
  SimpleBinaryMerkleTreeStorage<Fr> st; TH h; MT t(&st, &h);
  std::vector<Fr> l(leaf, leaf + *n);
  if (!t.Commit(l, root)) return 0;
  return st.GetSize();
}
TVCF tvc_init() {
  Fr::Init();
#ifndef TVC_IR
  BB::Init(); KB::Init(); M31::Init(); GL::Init();
  PackedBabyBear::Init(); PackedKoalaBear::Init(); PackedMersenne31::Init();
#endif
  return 0;
}
