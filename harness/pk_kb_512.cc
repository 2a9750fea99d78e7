#include "packed.h"
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx512.h"
#if defined(TVC_IR) || 512 == 512
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx512.cc"
#endif
#ifdef TVC_IR
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.cc"
#endif
using namespace tachyon::math;
using Packed = PackedKoalaBearAVX512;
TVCF tvc_init() { Packed::Init(); return 0; }
PK(Packed) PK_CP(Packed)
PK_RAW(Packed)
