#include "ec.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/curve.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/curve.h"
#include "tachyon/math/elliptic_curves/pasta/vesta/curve.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq_config.cc"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr_config.cc"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq_config.cc"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr_config.cc"
#include "tachyon/math/elliptic_curves/pasta/vesta/fq_config.cc"
#include "tachyon/math/elliptic_curves/pasta/vesta/fr_config.cc"
#endif
using namespace tachyon::math;
TVCF tvc_init() { secp256k1::Curve::Init(); pallas::Curve::Init(); vesta::Curve::Init(); return 0; }
EC_ALL(secp, secp256k1::Curve) EC_ALL(pallas, pallas::Curve) EC_ALL(vesta, vesta::Curve)
