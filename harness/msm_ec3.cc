#include "msm_ec.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g1.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/g2.h"
TVCF tvc_init() { bls12_381::G1Curve::Init(); bls12_381::G2Curve::Init(); return 0; }
MSM_ALL(bl1, bls12_381::G1Curve) MSM_ALL(bl2, bls12_381::G2Curve) GLV_ALL(bl1, bls12_381::G1Curve) GLV_ALL(bl2, bls12_381::G2Curve)
