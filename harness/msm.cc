#include "tvc_common.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/msm/fixed_base_msm.h"
#include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/finite_fields/test/gf7_config.cc"
#endif
using namespace tachyon::math;
using namespace tachyon;
using Fr = bn254::Fr; using BB = BabyBear;
// the library's group algorithms are templates over the group; here they run on the additive group of a prime field
// (an element is the "point" itself, so a result is the linear combination of the inputs it stands for)
template <class S, bool kNaf> struct GE final : public AdditiveGroup<GE<S, kNaf>> {
  using ScalarField = S;
  constexpr static bool kNegationIsCheap = kNaf;
  Fr v = Fr::Zero();
  GE() = default; explicit GE(const Fr& f) : v(f) {}
  static GE Zero() { return GE(); }
  bool IsZero() const { return v.IsZero(); }
  bool operator==(const GE& o) const { return v == o.v; }
  bool operator!=(const GE& o) const { return v != o.v; }
  GE Add(const GE& o) const { return GE(v + o.v); }
  GE& AddInPlace(const GE& o) { v += o.v; return *this; }
  GE Negate() const { return GE(-v); }
  GE DoubleImpl() const { return GE(v.Double()); }
  GE& DoubleImplInPlace() { v.DoubleInPlace(); return *this; }
  std::string ToString() const { return {}; }
};
template <class P> static std::vector<P> pts(u64 n, const Fr* f) { std::vector<P> r; r.reserve(n); for (u64 i = 0; i < n; ++i) r.push_back(P(f[i])); return r; }
template <class S> static std::vector<S> sc(u64 n, const S* k) { return std::vector<S>(k, k + n); }
// how: 0 VariableBaseMSM, 1.. Pippenger {serial, parallel windows}, 3.. adapter strategies
template <class S, bool kNaf> static u64 msm(u64 how, u64 n, u64 m, const Fr* p, const S* k, Fr* r) {
  using P = GE<S, kNaf>;
  auto b = pts<P>(n, p); auto s = sc<S>(m, k); typename Pippenger<P>::Bucket out(*r); bool ok = false;
  if (how == 0) { VariableBaseMSM<P> v; ok = v.Run(b, s, &out); }
  else if (how <= 2) { Pippenger<P> v; v.SetParallelWindows(how == 2); ok = v.Run(b.begin(), b.end(), s.begin(), s.end(), &out); }
  else if (how == 7) { Pippenger<P> v; v.SetUseMSMWindowNAForTesting(!kNaf); ok = v.Run(b.begin(), b.end(), s.begin(), s.end(), &out); }
  else { PippengerAdapter<P> v; ok = v.RunWithStrategy(b.begin(), b.end(), s.begin(), s.end(), static_cast<PippengerParallelStrategy>(how - 3), &out); }
  *r = out.v;
  return ok;
}
template <class S> static u64 fixed(u64 size, u64 n, u64 m, const Fr* base, const S* k, Fr* r) {
  using P = GE<S, true>;
  FixedBaseMSM<P> f; f.Reset(size, P(*base));
  std::vector<S> s = sc<S>(n, k); std::vector<P> o1(m), o2(m);
  bool a = f.RunSerial(s, o1); bool b = f.Run(s, &o2);
  u64 same = 1;
  for (u64 i = 0; i < m; ++i) { r[i] = o1[i].v; r[m + i] = o2[i].v; }
  if (a) for (u64 i = 0; i < n; ++i) r[2 * m + i] = f.ScalarMul(s[i]).v;
  return u64(a) | u64(b) << 1 | same << 2;
}
#define ALL(N, S)                                                                                                                                   \
  TVCF N##_msm(const u64* how, const u64* n, const u64* m, const Fr* p, const S* k, const Fr* old, Fr* r) { *r = *old; return msm<S, true>(*how, *n, *m, p, k, r); }   \
  TVCF N##_msmp(const u64* how, const u64* n, const u64* m, const Fr* p, const S* k, const Fr* old, Fr* r) { *r = *old; return msm<S, false>(*how, *n, *m, p, k, r); } \
  TVCF N##_fixed(const u64* size, const u64* n, const u64* m, const Fr* base, const S* k, Fr* r) { return fixed<S>(*size, *n, *m, base, k, r); }      \
  TVCF N##_ctx(const u64* size) { auto c = MSMCtx::CreateDefault<S>(*size); return u64(c.window_bits) | u64(c.window_count) << 8 | u64(c.size) << 32 | (c.GetWindowLength() == (1u << c.window_bits) ? 0 : u64{1} << 31); } \
  TVCF N##_msmb(const u64* n, const Fr* p, const S* k, Fr* r) { /* multi scalar multi base etc. */                                                \
    using P = GE<S, true>; auto b = pts<P>(*n, p); auto s = sc<S>(*n, k); std::vector<P> o(*n), o2(*n), o3(*n), bad(*n + 1);                         \
    u64 f = P::MultiScalarMul(s, b, &o); f |= u64(P::MultiScalarMul(s, P(p[0]), &o2)) << 1; f |= u64(P::MultiScalarMul(k[0], b, &o3)) << 2;         \
    f |= u64(P::MultiScalarMul(s, b, &bad)) << 3 | u64(P::MultiScalarMul(s, P(p[0]), &bad)) << 4 | u64(P::MultiScalarMul(k[0], b, &bad)) << 5;      \
    std::vector<P> bb = pts<P>(*n, p); bb.push_back(P(p[0])); f |= u64(P::MultiScalarMul(s, bb, &o)) << 6 | u64(P::MultiScalarMul(s, bb, &bad)) << 7; \
    for (u64 i = 0; i < *n; ++i) { r[i] = o[i].v; r[*n + i] = o2[i].v; r[2 * *n + i] = o3[i].v; }                                                   \
    return f; }
ALL(f7, GF7) ALL(fr, Fr) ALL(bb, BB)
using PG = GE<GF7, true>;
TVCF ge_mul(const u64* k, const Fr* p, Fr* r) { r[0] = PG(*p).ScalarMul(BigInt<1>(*k)).v; r[1] = PG(*p).ScalarMul(*k).v; return 0; }
TVCF ge_mul4(const u64* k, const Fr* p, Fr* r) { BigInt<4> b; for (int i = 0; i < 4; ++i) b[i] = k[i]; *r = PG(*p).ScalarMul(b).v; return 0; }
TVCF ge_const(const Fr* p, Fr* r) {
  PG g(*p);
  r[0] = g.ConstScalarMul<0>().v; r[1] = g.ConstScalarMul<1>().v; r[2] = g.ConstScalarMul<2>().v; r[3] = g.ConstScalarMul<3>().v; r[4] = g.ConstScalarMul<4>().v;
  r[5] = g.ConstScalarMul<5>().v; r[6] = g.ConstScalarMul<6>().v; r[7] = g.ConstScalarMul<7>().v; r[8] = g.ConstScalarMul<8>().v; r[9] = g.ConstScalarMul<1000003>().v;
  return 0;
}
TVCF ge_succ(const u64* n, const Fr* p, Fr* r) { auto v = PG::GetSuccessiveScalarMuls(*n, PG(*p)); for (u64 i = 0; i < v.size(); ++i) r[i] = v[i].v; return v.size(); }
TVCF ge_sub(const Fr* a, const Fr* b, Fr* r) { PG x(*a), y(*b); r[0] = (x - y).v; r[1] = (x + y).v; r[2] = (-x).v; x -= y; r[3] = x.v; x = PG(*a); x += y; r[4] = x.v; x.DoubleInPlace(); r[5] = x.v; r[6] = y.Double().v; return 0; }
TVCF f_lc(const u64* n, const Fr* a, const Fr* x, Fr* r) {
  std::vector<Fr> v(a, a + *n);
  r[0] = Fr::LinearCombination<true>(v, *x); r[1] = Fr::LinearCombination<false>(v, *x);
  std::vector<Fr> u = v; r[2] = Fr::LinearCombinationInPlace<true>(u, *x); u = v; r[3] = Fr::LinearCombinationInPlace<false>(u, *x);
  return 0;
}
TVCF f_lc0(const Fr* x, Fr* r) { std::vector<Fr> v; r[0] = Fr::LinearCombination<true>(v, *x); r[1] = Fr::LinearCombination<false>(v, *x); return 0; }
TVCF acc_buckets(const u64* n, const Fr* b, const Fr* init, Fr* r) { using P = GE<GF7, true>; auto v = pts<P>(*n, b); r[0] = PippengerBase<P>::AccumulateBuckets(v, P(*init)).v; r[1] = PippengerBase<P>::AccumulateBuckets(v).v; return 0; }
TVCF acc_windows(const u64* n, const u64* wb, const Fr* w, Fr* r) { using P = GE<GF7, true>; auto v = pts<P>(*n, w); *r = PippengerBase<P>::AccumulateWindowSums(v, *wb).v; return 0; }
template <size_t N> static u64 fill(const u64* k, u64 wb, u64 n, u64* d) { BigInt<N> b; for (size_t i = 0; i < N; ++i) b[i] = k[i]; std::vector<int64_t> v(n); FillDigits(b, wb, &v); for (u64 i = 0; i < n; ++i) d[i] = static_cast<u64>(v[i]); return 0; }
TVCF fill1(const u64* k, const u64* wb, const u64* n, u64* d) { return fill<1>(k, *wb, *n, d); }
TVCF fill2(const u64* k, const u64* wb, const u64* n, u64* d) { return fill<2>(k, *wb, *n, d); }
TVCF fill4(const u64* k, const u64* wb, const u64* n, u64* d) { return fill<4>(k, *wb, *n, d); }
TVCF tvc_init() {
  Fr::Init();
#ifndef TVC_IR
  GF7::Init(); BB::Init();
#endif
  return 0;
}
