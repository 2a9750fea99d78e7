#include "ext.h"
#include "tachyon/math/finite_fields/test/gf7_2.h"
#include "tachyon/math/finite_fields/test/gf7_3.h"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear4.h"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear4.h"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks2.h"
#include "tachyon/math/circle/m31/fq4.h"
#ifdef TVC_IR
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#include "tachyon/math/finite_fields/koala_bear/internal/koala_bear_config.cc"
#include "tachyon/math/finite_fields/goldilocks/internal/goldilocks_config.cc"
#include "tachyon/math/finite_fields/mersenne31/internal/mersenne31_config.cc"
#include "tachyon/math/finite_fields/test/gf7_config.cc"
#endif
using namespace tachyon::math;
using tvc::ld;
using tvc::st;
using m2 = m31::Fq2;
using m4 = m31::Fq4;
TVCF tvc_init() { GF7_2::Init(); GF7_3::Init(); BabyBear4::Init(); KoalaBear4::Init(); Goldilocks2::Init(); m4::Init(); return 0; }
#define Q(N, E) EXT_COMMON(N, E) EXT_ONLY(N, E) EXT_QUAD(N, E)
Q(gf7_2, GF7_2) Q(gold2, Goldilocks2) Q(m31_2, m2) Q(m31_4, m4)
EXT_COMMON(gf7_3, GF7_3) EXT_ONLY(gf7_3, GF7_3)
EXT_COMMON(bb4, BabyBear4) EXT_ONLY(bb4, BabyBear4)
EXT_COMMON(kb4, KoalaBear4) EXT_ONLY(kb4, KoalaBear4)
EXT_CYC(gf7_2, GF7_2) EXT_CYC(gold2, Goldilocks2) EXT_CYC(m31_2, m2) EXT_CYC(m31_4, m4)
