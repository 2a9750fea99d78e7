#include "packed4.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/packed_koala_bear4.h"
#if defined(TVC_IR) || 2 == 512
#include "tachyon/math/finite_fields/koala_bear/internal/packed_koala_bear_avx2.cc"
#endif
#ifdef TVC_IR
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.cc"
#endif
using namespace tachyon::math;
PK4(PackedKoalaBear4, PackedKoalaBear, KoalaBear4, KoalaBear)
