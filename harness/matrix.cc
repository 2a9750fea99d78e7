// sparse and dense matrices, packing of rows, points of the geometry library
#include "tvc_common.h"
#include <vector>
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/matrix/matrix_operations.h"
#include "tachyon/math/matrix/matrix_types.h"
#include "tachyon/math/matrix/matrix_utils.h"
#include "tachyon/math/matrix/sparse/sparse_matrix.h"
#include "tachyon/math/geometry/dimensions.h"
#include "tachyon/math/geometry/point2.h"
#include "tachyon/math/geometry/point3.h"
#include "tachyon/math/geometry/point4.h"
#include "third_party/eigen3/Eigen/LU"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
using Fr = bn254::Fr;
using BB = BabyBear;
template <typename F, int O = Eigen::ColMajor> using M = Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic, O>;
template <typename F, int O = Eigen::ColMajor> static M<F, O> in(u64 r, u64 c, const F* a) { M<F, O> m(r, c); for (u64 i = 0; i < r; ++i) for (u64 j = 0; j < c; ++j) m(i, j) = a[i * c + j]; return m; }
template <typename T, typename F> static void out(const T& m, F* r) { for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) r[i * m.cols() + j] = m(i, j); }
// rows x cols with the entries whose bit of mask is set; order: 0 ascending, 1 descending within each row
template <typename F> static ELLSparseMatrix<F> ell(u64 R, u64 C, u64 mask, u64 rev, const F* v) {
  std::vector<typename ELLSparseMatrix<F>::Elements> l(R);
  for (u64 i = 0; i < R; ++i) for (u64 jj = 0; jj < C; ++jj) { u64 j = rev ? C - 1 - jj : jj; if ((mask >> (i * C + j)) & 1) l[i].push_back({j, v[i * C + j]}); }
  return ELLSparseMatrix<F>(l);
}
template <typename F> static void zero(u64 n, F* r) { for (u64 i = 0; i < n; ++i) r[i] = F::Zero(); }
template <typename F> static u64 dense(const ELLSparseMatrix<F>& m, u64 R, u64 C, F* r) {
  zero(R * C, r); auto d = m.GetData(); auto x = m.GetColumnIndices(); u64 n = 0;
  if (d.size() != R || x.size() != R) return ~u64{0};
  for (u64 i = 0; i < R; ++i) { if (d[i].size() != x[i].size()) return ~u64{0}; for (u64 k = 0; k < d[i].size(); ++k) { if (x[i][k] >= C) return ~u64{0}; r[i * C + x[i][k]] += d[i][k]; ++n; } }
  return n;
}
template <typename F> static u64 dense(const CSRSparseMatrix<F>& m, u64 R, u64 C, F* r) {
  zero(R * C, r); auto d = m.GetData(); auto x = m.GetColumnIndices(); const auto& p = m.row_ptrs();
  if (d.size() != x.size() || p.size() != R + 1 || p[0] != 0 || p[R] != d.size()) return ~u64{0};
  for (u64 i = 0; i < R; ++i) for (u64 k = p[i]; k < p[i + 1]; ++k) { if (x[k] >= C) return ~u64{0}; r[i * C + x[k]] += d[k]; }
  return d.size();
}
template <typename F, typename S> static void eig(const S& e, u64 R, u64 C, F* r) { zero(R * C, r); for (Eigen::Index i = 0; i < e.rows(); ++i) for (Eigen::Index j = 0; j < e.cols(); ++j) r[i * C + j] = e.coeff(i, j); }
template <typename F> static u64 ells(u64 R, u64 C, u64 mask, u64 rev, const F* v, F* r, u64* meta) {
  auto m = ell(R, C, mask, rev, v); meta[0] = m.IsSorted();
  m.Sort(); meta[1] = m.IsSorted(); meta[2] = m.MaxRows(); meta[3] = m.MaxCols(); meta[4] = m.NonZeros(); meta[5] = m == ell(R, C, mask, 0, v) && !(m != ell(R, C, mask, 0, v));
  meta[6] = dense(m, R, C, r);
  return 0;
}
template <typename F> static u64 csrs(u64 R, u64 C, u64 mask, u64 rev, const F* v, F* r, u64* meta) {
  auto m = ell(R, C, mask, rev, v).ToCSR(); meta[0] = m.IsSorted();
  m.Sort(); meta[1] = m.IsSorted(); meta[2] = m.MaxRows(); meta[3] = m.MaxCols(); meta[4] = m.NonZeros(); auto o = CSRSparseMatrix<F>::FromELL(ell(R, C, mask, 0, v)); meta[5] = m == o && !(m != o);
  meta[6] = dense(m, R, C, r); meta[7] = m.row_ptrs().size();
  for (u64 i = 0; i < m.row_ptrs().size(); ++i) meta[8 + i] = m.row_ptrs()[i];
  return 0;
}
template <typename F> static u64 conv(u64 R, u64 C, u64 mask, const F* v, F* r1, F* r2, F* r3, F* r4, u64* meta) {
  auto m = ell(R, C, mask, 0, v);
  auto c = m.ToCSR(); auto b = c.ToELL(); meta[0] = b == m && ELLSparseMatrix<F>::FromCSR(c) == m; dense(b, R, C, r1);
  auto e = m.ToEigenSparseMatrix(); eig(e, R, C, r2); auto e2 = c.ToEigenSparseMatrix(); eig(e2, R, C, r3);
  meta[1] = e.rows(); meta[2] = e.cols(); meta[3] = e2.rows(); meta[4] = e2.cols(); meta[5] = e.nonZeros();
  meta[6] = ELLSparseMatrix<F>::FromEigenSparseMatrix(e) == m && CSRSparseMatrix<F>::FromEigenSparseMatrix(e) == c;
  Eigen::SparseMatrix<F, Eigen::RowMajor> er(R, C); std::vector<Eigen::Triplet<F>> t; for (u64 i = 0; i < R * C; ++i) if ((mask >> i) & 1) t.push_back({(int)(i / C), (int)(i % C), v[i]}); er.setFromTriplets(t.begin(), t.end());
  auto f = ELLSparseMatrix<F>::FromEigenSparseMatrix(er); meta[7] = f == m; dense(f, R, C, r4);
  return 0;
}
template <typename F> static u64 eqs(u64 R, u64 C, u64 m1, u64 m2, const F* v, const F* w, u64* meta) {
  auto a = ell(R, C, m1, 0, v), b = ell(R, C, m2, 0, w); auto ca = a.ToCSR(), cb = b.ToCSR();
  meta[0] = a == b; meta[1] = a != b; meta[2] = ca == cb; meta[3] = ca != cb; return 0;
}
// dense products
template <typename F> static u64 mv(u64 R, u64 C, u64 kind, const F* a, const F* v, F* r) {
  auto m = in(R, C, a); auto mr = in<F, Eigen::RowMajor>(R, C, a); Vector<F> x(C); for (u64 i = 0; i < C; ++i) x[i] = v[i];
  Eigen::Array<F, Eigen::Dynamic, 1> ac = x.array(); Eigen::Array<F, 1, Eigen::Dynamic> ar = x.array().transpose(); Vector<F> o;
  switch (kind) {
    case 0: o = MulMatVec(m, x); break;
    case 1: o = MulMatVecSerial(m, x); break;
    case 2: o = MulMatVec(mr, x); break;
    case 3: o = MulMatVecSerial(mr, x.transpose()); break;
    case 4: o = MulMatVec<M<F>, decltype(ac), Eigen::ReadOnlyAccessors>(m, ac); break;
    case 5: o = MulMatVecSerial<M<F>, decltype(ac), Eigen::ReadOnlyAccessors>(m, ac); break;
    case 6: o = MulMatVec<M<F>, decltype(ar), Eigen::ReadOnlyAccessors>(m, ar); break;
    case 7: o = MulMatVecSerial<M<F>, decltype(ar), Eigen::ReadOnlyAccessors>(m, ar); break;
    case 8: { Vector<F> y = x; y = MulMatVec(mr.block(0, 0, R, C), y); o = y; break; }
    default: o = mr * x;
  }
  for (Eigen::Index i = 0; i < o.size(); ++i) if ((u64)i < R) r[i] = o[i];
  return o.size();
}
template <typename F> static u64 mm(u64 R, u64 C, u64 K, u64 kind, const F* a, const F* b, F* r) {
  auto m = in(R, C, a), n = in(C, K, b); auto mr = in<F, Eigen::RowMajor>(R, C, a); auto nt = in<F, Eigen::RowMajor>(C, K, b); Matrix<F> o;
  switch (kind) {
    case 0: o = MulMatMat(m, n); break;
    case 1: o = MulMatMatSerial(m, n); break;
    case 2: o = MulMatMat(mr, n); break;
    case 3: o = MulMatMatSerial(m, nt); break;
    case 4: { if (R == C) { Matrix<F> y = n; y = MulMatMat(mr, y); o = y; } else o = MulMatMat(m, nt); break; }
    default: o = mr * nt;
  }
  if ((u64)o.rows() != R || (u64)o.cols() != K) return 0;
  out(o, r); return 1;
}
template <typename F> static u64 circ(u64 n, const F* a, F* r) { Vector<F> v(n); RowVector<F> w(n); for (u64 i = 0; i < n; ++i) v[i] = w[i] = a[i]; Matrix<F> m = MakeCirculant(v), k = MakeCirculant(w); if ((u64)m.rows() != n || (u64)m.cols() != n || m != k) return 0; out(m, r); return 1; }
template <typename F> static u64 rev(u64 R, u64 C, const F* a, F* r) { auto m = in<F, Eigen::RowMajor>(R, C, a); ReverseMatrixIndexBits(m); out(m, r); return m.rows() * 100 + m.cols(); }
template <typename F> static u64 split(u64 R, u64 C, u64 n, const F* a, F* r) { auto m = in<F, Eigen::RowMajor>(R, C, a); auto v = SplitMat(n, m); u64 k = 0; for (auto& b : v) { if ((u64)b.rows() != R - n + 1 || (u64)b.cols() != C) return ~u64{0}; for (Eigen::Index i = 0; i < b.rows(); ++i) for (Eigen::Index j = 0; j < b.cols(); ++j) r[k++] = b(i, j); } return v.size(); }
template <typename F, int O> static u64 maps(u64 R, u64 C, const F* a, F* r) { auto m = in<F, O>(R, C, a); const auto& cm = m; auto x = Map(m); auto y = Map(cm); if (x != y || x.data() != m.data() || y.data() != m.data()) return 0; out(x, r); return x.rows() * 100 + x.cols(); }
template <typename F> static u64 inv(u64 n, const F* a, F* r, F* d) { auto m = in(n, n, a); *d = m.determinant(); if (d->IsZero()) return 0; Matrix<F> i = m.inverse(); out(i, r); return 1; }
template <typename T> static u64 cp(const T& v, T* o) {
  base::Uint8VectorBuffer wb; if (!wb.Grow(base::EstimateSize(v))) return 1;
  if (!wb.Write(v) || !wb.Done()) return 2;
  wb.set_buffer_offset(0); if (!wb.Read(o) || !wb.Done()) return 3; return 0;
}
// a writer of one shape read back as another: rejected
template <typename T, typename U> static u64 cpx(const T& v, U* o) { base::Uint8VectorBuffer wb; if (!wb.Grow(base::EstimateSize(v)) || !wb.Write(v)) return 2; wb.set_buffer_offset(0); return wb.Read(o); }
template <typename F> static u64 copies(u64 R, u64 C, u64 kind, const F* a, F* r) {
  switch (kind) {
    case 0: { auto m = in(R, C, a); M<F> o; u64 e = cp(m, &o); if (e) return e; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 1: { auto m = in<F, Eigen::RowMajor>(R, C, a); M<F, Eigen::RowMajor> o(2, 2); u64 e = cp(m, &o); if (e) return e; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 2: { Eigen::Matrix<F, 2, Eigen::Dynamic> m = in(R, C, a), o; u64 e = cp(m, &o); if (e) return e; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 3: { Eigen::Matrix<F, Eigen::Dynamic, 2> m = in(R, C, a), o; u64 e = cp(m, &o); if (e) return e; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 4: { Eigen::Matrix<F, 2, 2> m = in(R, C, a), o; u64 e = cp(m, &o); if (e) return e; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 5: { Vector<F> m = in(R, 1, a), o; u64 e = cp(m, &o); if (e) return e; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 6: { RowVector<F> m = in(1, C, a), o; u64 e = cp(m, &o); if (e) return e; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 7: { auto m = in<F, Eigen::RowMajor>(R, C, a); auto mp = Map(m); M<F, Eigen::RowMajor> o; base::Uint8VectorBuffer wb; if (!wb.Grow(base::EstimateSize(mp)) || !wb.Write(mp) || !wb.Done()) return 2; wb.set_buffer_offset(0); if (!wb.Read(&o) || !wb.Done()) return 3; out(o, r); return 100 + o.rows() * 10 + o.cols(); }
    case 8: { Vector<F> v = in(R, 1, a); DiagonalMatrix<F> m(v), o; u64 e = cp(m, &o); if (e) return e; for (u64 i = 0; i < R; ++i) r[i] = o.diagonal()[i]; return 100 + o.rows() * 10 + o.cols(); }
    case 9: { Vector<F, 3> v = in(3, 1, a); DiagonalMatrix<F, 3> m(v), o; u64 e = cp(m, &o); if (e) return e; for (u64 i = 0; i < 3; ++i) r[i] = o.diagonal()[i]; return 100 + o.rows() * 10 + o.cols(); }
  }
  return 9;
}
template <typename F> static u64 shapes(u64 R, u64 C, const F* a) {
  auto m = in(R, C, a); Eigen::Matrix<F, 2, 2> f22; Eigen::Matrix<F, 2, Eigen::Dynamic> f2x; Eigen::Matrix<F, Eigen::Dynamic, 2> fx2; Vector<F> v; RowVector<F> w; Eigen::Matrix<F, 3, 3> f33;
  Vector<F> d = in(R, 1, a); DiagonalMatrix<F> dm(d); DiagonalMatrix<F, 2> d2; DiagonalMatrix<F, 3> d3;
  return cpx(m, &f22) | cpx(m, &f2x) << 1 | cpx(m, &fx2) << 2 | cpx(m, &v) << 3 | cpx(m, &w) << 4 | cpx(m, &f33) << 5 | cpx(dm, &d2) << 6 | cpx(dm, &d3) << 7;
}
#define MAT(N, F) \
  TVCF N##_ell(const u64* R, const u64* C, const u64* mask, const u64* rv, const F* v, F* r, u64* meta) { return ells(*R, *C, *mask, *rv, v, r, meta); } \
  TVCF N##_csr(const u64* R, const u64* C, const u64* mask, const u64* rv, const F* v, F* r, u64* meta) { return csrs(*R, *C, *mask, *rv, v, r, meta); } \
  TVCF N##_conv(const u64* R, const u64* C, const u64* mask, const F* v, F* a, F* b, F* c, F* d, u64* meta) { return conv(*R, *C, *mask, v, a, b, c, d, meta); } \
  TVCF N##_eqs(const u64* R, const u64* C, const u64* m1, const u64* m2, const F* v, const F* w, u64* meta) { return eqs(*R, *C, *m1, *m2, v, w, meta); } \
  TVCF N##_mv(const u64* R, const u64* C, const u64* k, const F* a, const F* v, F* r) { return mv(*R, *C, *k, a, v, r); } \
  TVCF N##_mm(const u64* R, const u64* C, const u64* K, const u64* k, const F* a, const F* b, F* r) { return mm(*R, *C, *K, *k, a, b, r); } \
  TVCF N##_circ(const u64* n, const F* a, F* r) { return circ(*n, a, r); } \
  TVCF N##_rev(const u64* R, const u64* C, const F* a, F* r) { return rev(*R, *C, a, r); } \
  TVCF N##_split(const u64* R, const u64* C, const u64* n, const F* a, F* r) { return split(*R, *C, *n, a, r); } \
  TVCF N##_map(const u64* R, const u64* C, const u64* k, const F* a, F* r) { return *k ? maps<F, Eigen::RowMajor>(*R, *C, a, r) : maps<F, Eigen::ColMajor>(*R, *C, a, r); } \
  TVCF N##_inv(const u64* n, const F* a, F* r, F* d) { return inv(*n, a, r, d); } \
  TVCF N##_copy(const u64* R, const u64* C, const u64* k, const F* a, F* r) { return copies(*R, *C, *k, a, r); } \
  TVCF N##_shapes(const u64* R, const u64* C, const F* a) { return shapes(*R, *C, a); } \
  TVCF N##_pt(const F* a, F* r) { Point2<F> p(a[0], a[1]), p2; Point3<F> q(a[2], a[3], a[4]), q2; Point4<F> s(a[5], a[6], a[7], a[8]), s2; \
    if (p2 != Point2<F>(F::Zero(), F::Zero()) || q2 != Point3<F>(F::Zero(), F::Zero(), F::Zero()) || s2 != Point4<F>(F::Zero(), F::Zero(), F::Zero(), F::Zero())) return 9; \
    if (cp(p, &p2) | cp(q, &q2) | cp(s, &s2)) return 8; r[0] = p2.x; r[1] = p2.y; r[2] = q2.x; r[3] = q2.y; r[4] = q2.z; r[5] = s2.x; r[6] = s2.y; r[7] = s2.z; r[8] = s2.w; return 0; } \
  TVCF N##_pteq(const F* a, const F* b) { return u64(Point2<F>(a[0], a[1]) == Point2<F>(b[0], b[1])) | u64(Point2<F>(a[0], a[1]) != Point2<F>(b[0], b[1])) << 1 | u64(Point3<F>(a[0], a[1], a[2]) == Point3<F>(b[0], b[1], b[2])) << 2 | u64(Point3<F>(a[0], a[1], a[2]) != Point3<F>(b[0], b[1], b[2])) << 3 | \
    u64(Point4<F>(a[0], a[1], a[2], a[3]) == Point4<F>(b[0], b[1], b[2], b[3])) << 4 | u64(Point4<F>(a[0], a[1], a[2], a[3]) != Point4<F>(b[0], b[1], b[2], b[3])) << 5; }
MAT(fr, Fr)
MAT(bb, BB)
TVCF dims(const u64* a, const u64* b, u64* r) { Dimensions x(a[0], a[1]), y(b[0], b[1]), z; u64 e = cp(x, &z); r[0] = z.width; r[1] = z.height; r[2] = x == y; r[3] = x != y; r[4] = base::EstimateSize(x); return e; }
TVCF tvc_init() { Fr::Init(); BB::Init(); return 0; }
