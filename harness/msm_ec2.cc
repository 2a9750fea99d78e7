#include "msm_ec.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
TVCF tvc_init() { secp256k1::Curve::Init(); pallas::Curve::Init(); vesta::Curve::Init(); return 0; }
MSM_ALL(secp, secp256k1::Curve) MSM_ALL(pallas, pallas::Curve) MSM_ALL(vesta, vesta::Curve)
