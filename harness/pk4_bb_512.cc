#include "packed4.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear4.h"
#include "tachyon/math/finite_fields/baby_bear/packed_baby_bear4.h"
#if defined(TVC_IR) || 512 == 512
#include "tachyon/math/finite_fields/baby_bear/internal/packed_baby_bear_avx512.cc"
#endif
#ifdef TVC_IR
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#endif
using namespace tachyon::math;
PK4(PackedBabyBear4, PackedBabyBear, BabyBear4, BabyBear)
