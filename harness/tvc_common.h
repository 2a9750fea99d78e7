#ifndef TVC_COMMON_H_
#define TVC_COMMON_H_
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#ifdef TVC_IR
// the gcc branch of the carry primitives is the one that runs in the project build
#include <utility>
#include "absl/numeric/int128.h"
#include <immintrin.h>
#include "tachyon/export.h"
#include "tachyon/base/bit_cast.h"
#include "tachyon/base/compiler_specific.h"
#include "tachyon/build/build_config.h"
#include "tachyon/math/base/arithmetics_results.h"
#pragma push_macro("__clang__")
#undef __clang__
#include "tachyon/math/base/arithmetics.h"
#pragma pop_macro("__clang__")
// bodies of non-header code the contracts depend on
#include "tachyon/base/bits.cc"
#include "tachyon/math/base/gmp/gmp_util.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"
#endif
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
#define TVCF extern "C" uint64_t
#endif
