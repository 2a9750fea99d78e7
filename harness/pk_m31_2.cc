#include "packed.h"
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx2.h"
#if defined(TVC_IR) || 2 == 512
#include "tachyon/math/finite_fields/mersenne31/internal/packed_mersenne31_avx2.cc"
#endif
#ifdef TVC_IR
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31_config.cc"
#endif
using namespace tachyon::math;
using Packed = PackedMersenne31AVX2;
TVCF tvc_init() { Packed::Init(); return 0; }
PK(Packed) PK_CP(Packed)
