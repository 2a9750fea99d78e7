#include "pairing.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq_config.cc"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#endif
#ifdef TVC_IR
TVCF tvc_init() { bls12_381::G2Curve::Init(); bls12_381::Fq::Init(); return 0; }
#else
TVCF tvc_init() { bls12_381::BLS12_381Curve::Init(); bls12_381::Fq::Init(); return 0; }
#endif
PAIRING(bls12_381::BLS12_381Curve)
