#include "pf.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq.h"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq.h"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq.h"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq.h"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr.h"
#include "tachyon/math/finite_fields/goldilocks/goldilocks.h"
#ifdef TVC_IR
#include "tachyon/math/elliptic_curves/bn/bn254/fq_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fq_config.cc"
#include "tachyon/math/elliptic_curves/bls12/bls12_381/fr_config.cc"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fq_config.cc"
#include "tachyon/math/elliptic_curves/secp/secp256k1/fr_config.cc"
#include "tachyon/math/elliptic_curves/pasta/pallas/fq_config.cc"
#include "tachyon/math/elliptic_curves/pasta/pallas/fr_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fq_config.cc"
#include "tachyon/math/elliptic_curves/bn/bn384_small_two_adicity/fr_config.cc"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks_config.cc"
#endif
using namespace tachyon::math;
TVCF tvc_init() {
  bn254::Fq::Init(); bn254::Fr::Init(); bls12_381::Fq::Init(); bls12_381::Fr::Init(); secp256k1::Fq::Init(); secp256k1::Fr::Init();
  pallas::Fq::Init(); pallas::Fr::Init(); bn384_small_two_adicity::Fq::Init(); bn384_small_two_adicity::Fr::Init(); Goldilocks::Init();
  return 0;
}
PF(bnq, bn254::Fq) PF(bnr, bn254::Fr) PF(blq, bls12_381::Fq) PF(blr, bls12_381::Fr) PF(seq, secp256k1::Fq) PF(ser, secp256k1::Fr)
PF(paq, pallas::Fq) PF(par, pallas::Fr) PF(b3q, bn384_small_two_adicity::Fq) PF(b3r, bn384_small_two_adicity::Fr) PF(gold, Goldilocks)
PF_MONT(bnq, bn254::Fq) PF_MONT(bnr, bn254::Fr) PF_MONT(blq, bls12_381::Fq) PF_MONT(blr, bls12_381::Fr) PF_MONT(seq, secp256k1::Fq) PF_MONT(ser, secp256k1::Fr) PF_MONT(paq, pallas::Fq) PF_MONT(par, pallas::Fr) PF_MONT(b3q, bn384_small_two_adicity::Fq) PF_MONT(b3r, bn384_small_two_adicity::Fr) PF_MONT(gold, Goldilocks)
