#include "packed.h"
#include <immintrin.h>
#include "tachyon/math/finite_fields/packed_prime_field32_avx2.h"
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx2.h"
#if defined(TVC_IR) || 2 == 512
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx2.cc"
#endif
#ifdef TVC_IR
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#endif
using namespace tachyon::math;
using Packed = PackedBabyBearAVX2;
TVCF tvc_init() { Packed::Init(); return 0; }
PK(Packed) PK_CP(Packed)
PK_RAW(Packed)
PK_EXP(Packed)
PK_RED(Packed, __m256i, _mm256_set1_epi32, 4)
