#include "ext.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq12.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq_config.cc"
#endif
using namespace tachyon::math;
using namespace tachyon::math::bls12_381;
using tvc::ld;
using tvc::st;
TVCF tvc_init() { Fq12::Init(); return 0; }
EXT_COMMON(fq2, Fq2) EXT_ONLY(fq2, Fq2) EXT_QUAD(fq2, Fq2) EXT_CYC(fq2, Fq2)
EXT_COMMON(fq6, Fq6) EXT_ONLY(fq6, Fq6) EXT6(fq6, Fq6)
EXT_COMMON(fq12, Fq12) EXT_ONLY(fq12, Fq12) EXT_QUAD(fq12, Fq12) EXT12(fq12, Fq12) EXT_CYC(fq12, Fq12)
