// Encodings: every serialisable type is written, measured, read back and refused when cut short.
#include "tvc_common.h"
#include <array>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include "rapidjson/writer.h"
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/endian_auto_reset.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/base/json/json.h"
#include "tachyon/crypto/commitments/fri/fri_proof.h"
#include "tachyon/crypto/commitments/pedersen/pedersen.h"
#include "tachyon/crypto/commitments/kzg/gwc.h"
#include "tachyon/crypto/commitments/kzg/shplonk.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon.h"
#include "tachyon/crypto/hashes/sponge/poseidon/poseidon_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/poseidon2_params.h"
#include "tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h"
#include "tachyon/crypto/hashes/sponge/sponge_state.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_prover_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifier_msg.h"
#include "tachyon/crypto/sumcheck/multilinear/sumcheck_verifying_key.h"
#include "tachyon/math/elliptic_curves/bn/bn254/bn254.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/polynomials/multivariate/linear_combination_term.h"
#include "tachyon/math/polynomials/multivariate/multilinear_extension.h"
#include "tachyon/math/polynomials/univariate/univariate_evaluations.h"
#include "tachyon/math/polynomials/univariate/univariate_polynomial.h"
#ifdef TVC_IR
#include "tachyon/base/buffer/buffer.cc"
#include "tachyon/base/buffer/read_only_buffer.cc"
#include "tachyon/base/buffer/vector_buffer.cc"
#include "tachyon/base/json/rapidjson_util.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
using namespace tachyon::crypto;
using base::Uint8VectorBuffer;
TVCF tvc_init() { bn254::BN254Curve::Init(); BabyBear4::Init(); KoalaBear::Init(); Mersenne31::Init(); Goldilocks::Init(); return 0; }
struct Src { const u64* w; u64 i = 0; u64 n() { return w[i++ % 64]; } u64 len(u64 m) { return n() % m; } };
template <typename T, typename = void> struct Make;
template <typename T> struct Make<T, std::enable_if_t<std::is_fundamental_v<T>>> { static T of(Src& s) { if constexpr (std::is_same_v<T, bool>) { return s.n() & 1; } else if constexpr (std::is_floating_point_v<T>) { return static_cast<T>(static_cast<int64_t>(s.n())) / 1024; } else { return static_cast<T>(s.n()); } } };
enum class En : uint16_t {}; enum class Ei : int {};
template <> struct Make<En> { static En of(Src& s) { return static_cast<En>(s.n()); } };
template <> struct Make<Ei> { static Ei of(Src& s) { return static_cast<Ei>(s.n()); } };
template <typename C> struct Make<std::basic_string<C>> { static std::basic_string<C> of(Src& s) { std::basic_string<C> r; u64 n = s.len(12); for (u64 k = 0; k < n; ++k) r.push_back(static_cast<C>(sizeof(C) == 1 ? s.n() % 128 : s.n() % 0xd800)); return r; } };
template <typename T> struct Make<std::vector<T>> { static std::vector<T> of(Src& s) { std::vector<T> r; u64 n = s.len(6); for (u64 k = 0; k < n; ++k) r.push_back(Make<T>::of(s)); return r; } };
template <typename T, size_t N> struct Make<std::array<T, N>> { static std::array<T, N> of(Src& s) { std::array<T, N> r; for (T& t : r) t = Make<T>::of(s); return r; } };
template <size_t N> struct Make<BigInt<N>> { static BigInt<N> of(Src& s) { BigInt<N> b; for (size_t k = 0; k < N; ++k) b[k] = s.n(); return b; } };
template <typename T> struct Make<T, std::enable_if_t<std::is_base_of_v<PrimeFieldBase<T>, T>>> { static T of(Src& s) { u64 k = s.n(); T r = k % 5 == 0 ? T::Zero() : k % 5 == 1 ? T::MinusOne() : T::One(); if (k % 5 > 1) { for (int j = 0; j < 5; ++j) r = r * T(2).Pow(32) + T(static_cast<uint32_t>(s.n() >> 3 & 0x3fffffff)) * T(3); } return r; } };
template <typename T> struct Make<T, std::void_t<typename T::BaseField, decltype(T::Config::kNonResidue), std::enable_if_t<!std::is_base_of_v<PrimeFieldBase<T>, T>>>> { static T of(Src& s) { using B = typename T::BaseField; if constexpr (T::ExtensionDegree() / B::ExtensionDegree() == 2) { B a = Make<B>::of(s), b = Make<B>::of(s); return T(a, b); } else if constexpr (T::ExtensionDegree() / B::ExtensionDegree() == 3) { B a = Make<B>::of(s), b = Make<B>::of(s), c = Make<B>::of(s); return T(a, b, c); } else { B a = Make<B>::of(s), b = Make<B>::of(s), c = Make<B>::of(s), d = Make<B>::of(s); return T(a, b, c, d); } } };
template <typename C> struct Make<AffinePoint<C>> { static AffinePoint<C> of(Src& s) { u64 k = s.n(); if (k % 6 == 0) return AffinePoint<C>::Zero(); return (JacobianPoint<C>::Generator() * typename C::ScalarField(k)).ToAffine(); } };
template <typename P> static P pt(Src& s) { u64 k = s.n(); if (k % 6 == 0) return P::Zero(); return P::Generator() * typename P::ScalarField(k); }
template <typename C> struct Make<JacobianPoint<C>> { static JacobianPoint<C> of(Src& s) { return pt<JacobianPoint<C>>(s); } };
template <typename C> struct Make<ProjectivePoint<C>> { static ProjectivePoint<C> of(Src& s) { return pt<ProjectivePoint<C>>(s); } };
template <typename C> struct Make<PointXYZZ<C>> { static PointXYZZ<C> of(Src& s) { return pt<PointXYZZ<C>>(s); } };
template <typename F> struct Make<Point2<F>> { static Point2<F> of(Src& s) { F a = Make<F>::of(s), b = Make<F>::of(s); return {a, b}; } };
template <typename F> struct Make<Point3<F>> { static Point3<F> of(Src& s) { F a = Make<F>::of(s), b = Make<F>::of(s), c = Make<F>::of(s); return {a, b, c}; } };
template <typename F> struct Make<Point4<F>> { static Point4<F> of(Src& s) { F a = Make<F>::of(s), b = Make<F>::of(s), c = Make<F>::of(s), d = Make<F>::of(s); return {a, b, c, d}; } };
template <> struct Make<Dimensions> { static Dimensions of(Src& s) { int a = static_cast<int>(s.n() & 0x7fffffff), b = static_cast<int>(s.n() & 0x7fffffff); return Dimensions{a, b}; } };
template <typename F, int R, int C, int O, int MR, int MC> struct Make<Eigen::Matrix<F, R, C, O, MR, MC>> { static Eigen::Matrix<F, R, C, O, MR, MC> of(Src& s) { Eigen::Matrix<F, R, C, O, MR, MC> m; int r = R == -1 ? static_cast<int>(s.len(5)) : R, c = C == -1 ? static_cast<int>(s.len(5)) : C; m.resize(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = Make<F>::of(s); return m; } };
template <typename F, int N> struct Make<Eigen::DiagonalMatrix<F, N>> { static Eigen::DiagonalMatrix<F, N> of(Src& s) { int n = N == -1 ? static_cast<int>(1 + s.len(4)) : N; Eigen::DiagonalMatrix<F, N> m; m.resize(n); for (int i = 0; i < n; ++i) m.diagonal()[i] = Make<F>::of(s); return m; } };
constexpr size_t kD = 31;
template <typename F> struct Make<UnivariateDenseCoefficients<F, kD>> { static UnivariateDenseCoefficients<F, kD> of(Src& s) { return UnivariateDenseCoefficients<F, kD>(Make<std::vector<F>>::of(s), true); } };
template <typename F> struct Make<UnivariateSparseCoefficients<F, kD>> { static UnivariateSparseCoefficients<F, kD> of(Src& s) { std::vector<UnivariateTerm<F>> t; u64 n = s.len(5), d = 0; for (u64 k = 0; k < n; ++k) { d += 1 + s.len(5); F c = Make<F>::of(s); t.push_back({d, c.IsZero() ? F::One() : c}); } return UnivariateSparseCoefficients<F, kD>(t); } };
template <typename F> struct Make<UnivariateTerm<F>> { static UnivariateTerm<F> of(Src& s) { u64 d = s.n(); return {d, Make<F>::of(s)}; } };
template <typename F> struct Make<UnivariateEvaluations<F, kD>> { static UnivariateEvaluations<F, kD> of(Src& s) { return UnivariateEvaluations<F, kD>(Make<std::vector<F>>::of(s)); } };
template <typename C> struct Make<UnivariatePolynomial<C>> { static UnivariatePolynomial<C> of(Src& s) { return UnivariatePolynomial<C>(Make<C>::of(s)); } };
template <typename F> struct Make<MultilinearDenseEvaluations<F, kD>> { static MultilinearDenseEvaluations<F, kD> of(Src& s) { std::vector<F> v; u64 n = u64{1} << s.len(4); for (u64 k = 0; k < n; ++k) v.push_back(Make<F>::of(s)); return MultilinearDenseEvaluations<F, kD>(v); } };
template <typename E> struct Make<MultilinearExtension<E>> { static MultilinearExtension<E> of(Src& s) { return MultilinearExtension<E>(Make<E>::of(s)); } };
template <typename F> struct Make<LinearCombinationTerm<F>> { static LinearCombinationTerm<F> of(Src& s) { F c = Make<F>::of(s); std::vector<size_t> v = Make<std::vector<size_t>>::of(s); return {c, v}; } };
template <typename F, size_t N> struct Make<SumcheckProverMsg<F, N>> { static SumcheckProverMsg<F, N> of(Src& s) { std::vector<F> v; for (size_t k = 0; k <= N; ++k) v.push_back(Make<F>::of(s)); SumcheckProverMsg<F, N> m; m.evaluations = UnivariateEvaluations<F, N>(v); return m; } };
template <typename F> struct Make<SumcheckVerifierMsg<F>> { static SumcheckVerifierMsg<F> of(Src& s) { SumcheckVerifierMsg<F> m; m.random_value = Make<F>::of(s); return m; } };
using PP = PoseidonParams<bn254::Fr, 2, 1, 5, 8, 57>;
using KZ = KZG<bn254::G1AffinePoint, kD, bn254::G1AffinePoint>; using GW = GWC<bn254::BN254Curve, kD, bn254::G1AffinePoint>; using SH = SHPlonk<bn254::BN254Curve, kD, bn254::G1AffinePoint>; using PE = Pedersen<bn254::G1AffinePoint, kD, bn254::G1AffinePoint>;
template <typename T> static T made(Src& s) { return Make<T>::of(s); }
template <> struct Make<DuplexSpongeMode> { static DuplexSpongeMode of(Src& s) { DuplexSpongeMode m; u64 k = s.n(); m.type = k & 1 ? DuplexSpongeMode::Type::kAbsorbing : DuplexSpongeMode::Type::kSqueezing; m.next_index = s.n(); return m; } };
template <typename P> struct Make<SpongeState<P>> { static SpongeState<P> of(Src& s) { SpongeState<P> t; for (Eigen::Index k = 0; k < t.elements.size(); ++k) t.elements[k] = made<typename P::Field>(s); t.mode = made<DuplexSpongeMode>(s); return t; } };
template <typename F> struct Make<SparseMDSMatrix<F>> { static SparseMDSMatrix<F> of(Src& s) { Vector<F> a = made<Vector<F>>(s), b(a.size() ? a.size() - 1 : 0); if (!a.size()) a = Vector<F>::Constant(1, F::One()); for (Eigen::Index k = 0; k < b.size(); ++k) b[k] = made<F>(s); return SparseMDSMatrix<F>(std::move(a), std::move(b)); } };
template <typename P> struct Make<PoseidonConfig<P>> { static PoseidonConfig<P> of(Src& s) { using F = typename P::Field; PoseidonConfig<P> c; c.ark = made<Matrix<F>>(s); c.mds = made<Matrix<F>>(s); c.pre_sparse_mds = made<Matrix<F>>(s); c.sparse_mds_matrices = made<std::vector<SparseMDSMatrix<F>>>(s); return c; } };
template <typename F> struct Make<SumcheckProvingKey<MultilinearExtension<MultilinearDenseEvaluations<F, 31>>>> { using E = MultilinearExtension<MultilinearDenseEvaluations<F, 31>>; static SumcheckProvingKey<E> of(Src& s) { SumcheckProvingKey<E> k; k.verifying_key = {s.n(), s.n()}; k.terms = made<std::vector<LinearCombinationTerm<F>>>(s); k.flattened_ml_evaluations = made<std::vector<E>>(s); return k; } };
template <> struct Make<SumcheckVerifyingKey> { static SumcheckVerifyingKey of(Src& s) { u64 a = s.n(), b = s.n(); return {a, b}; } };
template <> struct Make<KZ> { static KZ of(Src& s) { auto a = made<std::vector<bn254::G1AffinePoint>>(s), b = a; std::reverse(b.begin(), b.end()); return KZ(std::move(a), std::move(b)); } };
template <> struct Make<GW> { static GW of(Src& s) { KZ k = made<KZ>(s); auto g = made<bn254::G2AffinePoint>(s); return GW(std::move(k), std::move(g)); } };
template <> struct Make<SH> { static SH of(Src& s) { KZ k = made<KZ>(s); auto g = made<bn254::G2AffinePoint>(s); return SH(std::move(k), std::move(g)); } };
template <> struct Make<PE> { static PE of(Src& s) { auto h = made<bn254::G1AffinePoint>(s); return PE(h, made<std::vector<bn254::G1AffinePoint>>(s)); } };
template <typename T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(const DuplexSpongeMode& a, const DuplexSpongeMode& b) { return a.type == b.type && a.next_index == b.next_index; }
template <typename P> static bool same(const SpongeState<P>& a, const SpongeState<P>& b) { return a.elements == b.elements && same(a.mode, b.mode); }
template <typename F> static bool same(const SparseMDSMatrix<F>& a, const SparseMDSMatrix<F>& b) { return a.row() == b.row() && a.col_hat() == b.col_hat(); }
template <typename P> static bool same(const PoseidonConfig<P>& a, const PoseidonConfig<P>& b) { bool r = a.ark == b.ark && a.mds == b.mds && a.pre_sparse_mds == b.pre_sparse_mds && a.sparse_mds_matrices.size() == b.sparse_mds_matrices.size(); for (size_t k = 0; r && k < a.sparse_mds_matrices.size(); ++k) r = same(a.sparse_mds_matrices[k], b.sparse_mds_matrices[k]); return r; }
static bool same(const SumcheckVerifyingKey& a, const SumcheckVerifyingKey& b) { return a.max_evaluations == b.max_evaluations && a.num_variables == b.num_variables; }
template <typename E> static bool same(const SumcheckProvingKey<E>& a, const SumcheckProvingKey<E>& b) { return same(a.verifying_key, b.verifying_key) && a.terms == b.terms && a.flattened_ml_evaluations == b.flattened_ml_evaluations; }
static bool same(const KZ& a, const KZ& b) { return a.g1_powers_of_tau() == b.g1_powers_of_tau() && a.g1_powers_of_tau_lagrange() == b.g1_powers_of_tau_lagrange(); }
static bool same(const GW& a, const GW& b) { return same(a.kzg(), b.kzg()) && a.s_g2() == b.s_g2(); }
static bool same(const SH& a, const SH& b) { return same(a.kzg(), b.kzg()) && a.s_g2() == b.s_g2(); }
static bool same(const PE& a, const PE& b) { return a.h() == b.h() && a.generators() == b.generators(); }
template <typename F, int N> static bool same(const Eigen::DiagonalMatrix<F, N>& a, const Eigen::DiagonalMatrix<F, N>& b) { return a.diagonal() == b.diagonal(); }
template <typename T> static T blank() { return T(); }
struct Small : base::Buffer { Small(void* p, size_t n) : base::Buffer(p, n) {} };
static base::Endian endian(u64 m) { return (m & 3) == 0 ? base::Endian::kNative : (m & 3) == 1 ? base::Endian::kLittle : base::Endian::kBig; }
template <typename T> static u64 codec(u64 mode, const u64* w) {
  Src s{w}; const T v = Make<T>::of(s); u64 bits = 0; Uint8VectorBuffer b; b.set_endian(endian(mode)); size_t est = base::EstimateSize(v);
  bits |= u64{b.Write(v)}; size_t n = b.buffer_len(); bits |= u64{est == n && b.buffer_offset() == n} << 1;
  std::vector<uint8_t> bytes(static_cast<const uint8_t*>(static_cast<const base::ReadOnlyBuffer&>(b).buffer()), static_cast<const uint8_t*>(static_cast<const base::ReadOnlyBuffer&>(b).buffer()) + n);
  { base::ReadOnlyBuffer r(bytes.data(), n); r.set_endian(endian(mode)); T x = blank<T>(); bool ok = r.Read(&x); bits |= u64{ok && same(x, v)} << 2; bits |= u64{r.Done()} << 3; }
  { bool all = true; for (size_t k = 0; k < n; ++k) { std::vector<uint8_t> cut(bytes.begin(), bytes.begin() + k); base::ReadOnlyBuffer r(cut.data(), k); r.set_endian(endian(mode)); T x = blank<T>(); if (r.Read(&x)) all = false; } bits |= u64{all} << 4; }
  { std::vector<uint8_t> fix(n + 1, 0xa5); Small f(fix.data(), n); f.set_endian(endian(mode)); bool ok = f.Write(v) && f.Done(); fix.resize(n); bits |= u64{ok && fix == bytes} << 5; }
  { bool ok = true; if (n) { std::vector<uint8_t> fix(n, 0xa5); Small f(fix.data(), n - 1); f.set_endian(endian(mode)); ok = !f.Write(v) && fix[n - 1] == 0xa5; } bits |= u64{ok} << 6; }
  { Uint8VectorBuffer o; o.set_endian(endian(mode)); uint16_t a = 0x1234, c = 0; uint8_t z = 7, z2 = 0; T x = blank<T>(); bool ok = o.WriteMany(a, v, z) && o.buffer_len() == n + 3; o.set_buffer_offset(0); ok = ok && o.ReadMany(&c, &x, &z2) && c == a && z2 == z && same(x, v) && o.Done(); bits |= u64{ok} << 7; }
  return bits;
}
template <typename T> static u64 js(const u64* w) {
  Src s{w}; const T v = Make<T>::of(s); u64 bits = 0; std::string t = base::WriteToJson(v), e; T x = blank<T>(); bits |= u64{base::ParseJson(t, &x, &e) && same(x, v) && e.empty()};
  if (!t.empty()) { T y = blank<T>(); std::string e2; bool bad = base::ParseJson(std::string_view(t).substr(0, t.size() - 1) , &y, &e2); if (t.back() == '}' || t.back() == ']' || t.back() == '"') { bits |= u64{!bad && !e2.empty()} << 1; } else { bits |= 2; } }
  { T y = blank<T>(); std::string e2; bits |= u64{!base::ParseJson(std::string("{\"\":{\"no\":true}}"), &y, &e2) && !e2.empty()} << 2; }
  return bits;
}
#define C(name, ...) TVCF cod_##name(const u64* m, const u64* w) { return codec<__VA_ARGS__>(*m, w); }
#define J(name, ...) C(name, __VA_ARGS__) TVCF js_##name(const u64* w) { return js<__VA_ARGS__>(w); }
using Fr = bn254::Fr; using Fq = bn254::Fq; using G1 = bn254::G1Curve; using G2 = bn254::G2Curve;
J(bool, bool) J(u8, uint8_t) J(i8, int8_t) J(u16, uint16_t) J(i16, int16_t) J(u32, uint32_t) J(i32, int32_t) J(u64, uint64_t) J(i64, int64_t) J(f32, float) J(f64, double) J(enum16, En) J(enum32, Ei)
J(string, std::string) C(u16string, std::u16string) C(u32string, std::u32string)
J(vec_u32, std::vector<uint32_t>) J(vec_vec, std::vector<std::vector<uint16_t>>) J(vec_str, std::vector<std::string>) J(arr_u16, std::array<uint16_t, 3>) J(arr_vec, std::array<std::vector<uint8_t>, 2>)
J(big1, BigInt<1>) J(big4, BigInt<4>) J(big6, BigInt<6>)
J(fr, Fr) J(fq, Fq) J(goldilocks, Goldilocks) J(babybear, BabyBear) J(koalabear, KoalaBear) J(mersenne31, Mersenne31)
J(fq2, bn254::Fq2) J(fq6, bn254::Fq6) J(fq12, bn254::Fq12) J(babybear4, BabyBear4) J(vec_fr, std::vector<Fr>)
J(g1, AffinePoint<G1>) J(g1j, JacobianPoint<G1>) J(g1p, ProjectivePoint<G1>) J(g1x, PointXYZZ<G1>) J(g2, AffinePoint<G2>) J(g2j, JacobianPoint<G2>) J(g2p, ProjectivePoint<G2>) J(g2x, PointXYZZ<G2>)
J(p2, Point2<Fr>) J(p3, Point3<Fr>) J(p4, Point4<Fr>) J(dim, Dimensions)
C(mat, Matrix<Fr>) C(rmat, RowMajorMatrix<BabyBear>) C(mat32, Eigen::Matrix<Fr, 3, 2>) C(vecx, Vector<Fr>) C(rvec, RowVector<BabyBear>) C(mat3d, Eigen::Matrix<Fr, 3, Eigen::Dynamic>) C(matd2, Eigen::Matrix<BabyBear, Eigen::Dynamic, 2>) C(diag, Eigen::DiagonalMatrix<Fr, Eigen::Dynamic>) C(diag3, Eigen::DiagonalMatrix<BabyBear, 3>)
J(dense, UnivariatePolynomial<UnivariateDenseCoefficients<Fr, kD>>) J(sparse, UnivariatePolynomial<UnivariateSparseCoefficients<Fr, kD>>) J(sparse_bb, UnivariatePolynomial<UnivariateSparseCoefficients<BabyBear, kD>>) J(evals, UnivariateEvaluations<Fr, kD>) J(term, UnivariateTerm<Fr>)
C(mle, MultilinearExtension<MultilinearDenseEvaluations<Fr, kD>>) C(lct, LinearCombinationTerm<Fr>) C(scp, SumcheckProverMsg<Fr, 3>) C(scv, SumcheckVerifierMsg<Fr>)
C(mode, DuplexSpongeMode) C(state, SpongeState<PP>) C(sparse_mds, SparseMDSMatrix<Fr>) C(poseidon, PoseidonConfig<PP>) C(scvk, SumcheckVerifyingKey) C(scpk, SumcheckProvingKey<MultilinearExtension<MultilinearDenseEvaluations<Fr, 31>>>)
C(kzg, KZ) C(gwc, GW) C(shplonk, SH) C(pedersen, PE)
// fields in Montgomery form and not, as bytes
template <typename F> static u64 fbytes(u64 mont, u64 en, const F& v, u8* out) {
  base::Copyable<F>::s_is_in_montgomery = mont; Uint8VectorBuffer b; b.set_endian(endian(en)); bool ok = b.Write(v); size_t n = b.buffer_len(); memcpy(out, static_cast<const base::ReadOnlyBuffer&>(b).buffer(), n);
  base::ReadOnlyBuffer r(out, n); r.set_endian(endian(en)); F x; ok = ok && r.Read(&x) && x == v; base::Copyable<F>::s_is_in_montgomery = false; return ok ? n : 0;
}
template <typename F> static u64 fjson(u64 mont, const F& v, u8* out) {
  base::RapidJsonValueConverter<F>::s_is_in_montgomery = mont; std::string t = base::WriteToJson(v), e; F x; bool ok = base::ParseJson(t, &x, &e) && x == v; base::RapidJsonValueConverter<F>::s_is_in_montgomery = false;
  for (size_t k = 0; k < 120; ++k) out[k] = k < t.size() ? t[k] : 0;
  return ok;
}
template <typename F> static u64 fstr(const F& v, u64 how, u8* out) {
  std::string t = how == 0 ? v.ToString() : v.ToHexString(how == 2); for (size_t k = 0; k < 120; ++k) out[k] = k < t.size() ? t[k] : 0;
  auto r = how == 0 ? F::FromDecString(t) : F::FromHexString(t); return r && *r == v;
}
template <typename F> static u64 fparse(u64 hex, const u8* t, u64 n, F* r) { std::string s(reinterpret_cast<const char*>(t), n); auto x = hex ? F::FromHexString(s) : F::FromDecString(s); *r = x ? *x : F::Zero(); return x.has_value(); }
#define FB(name, F) TVCF fb_##name(const u64* m, const u64* e, const F* v, u8* out) { return fbytes(*m, *e, *v, out); } TVCF fj_##name(const u64* m, const F* v, u8* out) { return fjson(*m, *v, out); } \
  TVCF fs_##name(const F* v, const u64* how, u8* out) { return fstr(*v, *how, out); } TVCF fp_##name(const u64* hex, const u64* n, const u8* t, F* r) { return fparse(*hex, t, *n, r); }
FB(fr, Fr) FB(fq, Fq) FB(goldilocks, Goldilocks) FB(babybear, BabyBear) FB(koalabear, KoalaBear) FB(mersenne31, Mersenne31)
// a moved buffer goes on where it was
TVCF cod_move(const u64* m, const u64* w) {
  u64 ok = 0; for (u64 how = 0; how < 2; ++how) { Uint8VectorBuffer b; b.set_endian(endian(*m)); if (!b.WriteMany(w[0], static_cast<uint32_t>(w[1]), w[2])) return 0; b.set_buffer_offset(8); Uint8VectorBuffer c; if (how) c = std::move(b);
    Uint8VectorBuffer d = how ? std::move(c) : std::move(b); uint32_t x; u64 y; ok |= u64{d.endian() == endian(*m) && d.ReadMany(&x, &y) && x == static_cast<uint32_t>(w[1]) && y == w[2] && d.Done() && d.Write(w[0]) && d.buffer_len() == 28} << how; }
  return ok;
}
