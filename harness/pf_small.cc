#include "pf.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/koala_bear/koala_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#include "tachyon/math/finite_fields/test/gf7.h"
#ifdef TVC_IR
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.cc"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31_config.cc"
#include "tachyon/math/finite_fields/test/gf7_config.cc"
#endif
using namespace tachyon::math;
TVCF tvc_init() { BabyBear::Init(); KoalaBear::Init(); Mersenne31::Init(); GF7::Init(); return 0; }
PF(bb, BabyBear) PF(kb, KoalaBear) PF(m31, Mersenne31) PF(gf7, GF7)
PF_MONT(bb, BabyBear) PF_MONT(kb, KoalaBear)
