#include "msm_ec.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g1.h"
#include "tachyon/math/elliptic_curves/bn/bn254/g2.h"
TVCF tvc_init() { bn254::G1Curve::Init(); bn254::G2Curve::Init(); return 0; }
MSM_ALL(bn1, bn254::G1Curve) MSM_ALL(bn2, bn254::G2Curve) GLV_ALL(bn1, bn254::G1Curve) GLV_ALL(bn2, bn254::G2Curve)
