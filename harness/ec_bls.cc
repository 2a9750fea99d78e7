#include "ec.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq_config.cc"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr_config.cc"
#endif
using namespace tachyon::math;
TVCF tvc_init() { bls12_381::G1Curve::Init(); bls12_381::G2Curve::Init(); return 0; }
EC_ALL(g1, bls12_381::G1Curve) EC_ALL(g2, bls12_381::G2Curve)
