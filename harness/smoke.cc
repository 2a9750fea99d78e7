#include "tachyon/math/elliptic_curves/bn/bn254/fq2.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.cc"
#endif
using namespace tachyon::math;
using namespace tachyon::math::bn254;
extern "C" {
void fq2_init() { Fq2::Init(); }
void fq2_mul(const Fq* a, const Fq* b, Fq* c) { Fq2 r = Fq2(a[0], a[1]) * Fq2(b[0], b[1]); c[0] = r.c0(); c[1] = r.c1(); }
void g1j_add(const Fq* a, const Fq* b, Fq* c) {
  auto r = G1JacobianPoint(a[0], a[1], a[2]) + G1JacobianPoint(b[0], b[1], b[2]);
  c[0]=r.x(); c[1]=r.y(); c[2]=r.z();
}
}
