// rows of matrices packed into vector registers
#include "tvc_common.h"
#include <vector>
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#include "tachyon/math/matrix/matrix_utils.h"
using namespace tachyon;
using namespace tachyon::math;
template <typename F, int O = Eigen::RowMajor> static Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic, O> in(u64 r, u64 c, const F* a) { Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic, O> m(r, c); for (u64 i = 0; i < r; ++i) for (u64 j = 0; j < c; ++j) m(i, j) = a[i * c + j]; return m; }
template <typename P, typename F> static u64 unpack(const std::vector<P>& v, F* r) { for (u64 i = 0; i < v.size(); ++i) for (u64 j = 0; j < P::N; ++j) r[i * P::N + j] = v[i][j]; return v.size() * 1000 + P::N; }
#define PK(N, F, F4, P) \
  TVCF N##_hor(const u64* R, const u64* C, const u64* row, const F* a, F* r) { auto m = in(*R, *C, a); return unpack(PackRowHorizontallyPadded(m.row(*row)), r); } \
  TVCF N##_horc(const u64* R, const u64* C, const u64* row, const F* a, F* r) { auto m = in<F, Eigen::ColMajor>(*R, *C, a); return unpack(PackRowHorizontallyPadded(m.row(*row)), r); } \
  TVCF N##_ver(const u64* R, const u64* C, const u64* row, const F* a, F* r) { auto m = in(*R, *C, a); return unpack(PackRowVertically<P>(m, *row), r); } \
  TVCF N##_vere(const u64* R, const u64* C, const u64* row, const F* a, F* r) { std::vector<F4> e; for (u64 i = 0; i < *R * *C; ++i) e.push_back(F4(a[4 * i], a[4 * i + 1], a[4 * i + 2], a[4 * i + 3])); auto m = in(*R, *C, e.data()); return unpack(PackRowVertically<P>(m, *row), r); } \
  TVCF N##_dot(const u64* R, const u64* C, const F* b, const F* a, F* r) { auto m = in(*R, *C, a); auto v = DotExtPowers(m, F4(b[0], b[1], b[2], b[3])); for (u64 i = 0; i < v.size(); ++i) for (u64 j = 0; j < 4; ++j) r[4 * i + j] = v[i][j]; return v.size(); }
PK(b, BabyBear, BabyBear4, PackedBabyBear)
PK(k, KoalaBear, KoalaBear4, PackedKoalaBear)
TVCF tvc_init() { BabyBear4::Init(); KoalaBear4::Init(); PackedBabyBear::Init(); PackedKoalaBear::Init(); PackedBabyBear4::Init(); PackedKoalaBear4::Init(); return 0; }
