// Buffers of integers and field elements, over every value.
#include "tvc_common.h"
#include <cstring>
#include <vector>
#include "tachyon/base/buffer/copyable.h"
#include "tachyon/base/buffer/vector_buffer.h"
#include "tachyon/math/elliptic_curves/bn/bn254/fr.h"
#include "tachyon/math/finite_fields/baby_bear/baby_bear.h"
#include "tachyon/math/finite_fields/mersenne31/mersenne31.h"
#ifdef TVC_IR
#include "tachyon/base/buffer/buffer.cc"
#include "tachyon/base/buffer/read_only_buffer.cc"
#include "tachyon/base/buffer/vector_buffer.cc"
#include "tachyon/math/elliptic_curves/bn/bn254/fr_config.cc"
#include "tachyon/math/finite_fields/baby_bear/internal/baby_bear_config.cc"
#endif
using namespace tachyon;
using namespace tachyon::math;
using base::Uint8VectorBuffer;
TVCF tvc_init() { bn254::Fr::Init(); BabyBear::Init(); Mersenne31::Init(); return 0; }
static base::Endian endian(u64 m) { return (m & 3) == 0 ? base::Endian::kNative : (m & 3) == 1 ? base::Endian::kLittle : base::Endian::kBig; }
// bytes of integers of every width, at an offset
TVCF buf_ints(const u64* m, const u64* w, u8* out) {
  Uint8VectorBuffer b; b.set_endian(endian(*m)); bool ok = b.WriteAt(3, static_cast<uint16_t>(w[0])) && b.WriteMany(static_cast<uint32_t>(w[1]), w[2], static_cast<uint8_t>(w[3])) && b.Write64BE(w[4]) && b.Write32LE(static_cast<uint32_t>(w[5])) && b.Write16BE(static_cast<uint16_t>(w[6])) && b.Write64LE(w[4]) && b.Write32BE(static_cast<uint32_t>(w[5])) && b.Write16LE(static_cast<uint16_t>(w[6]));
  const u8* p = static_cast<const u8*>(static_cast<const base::ReadOnlyBuffer&>(b).buffer()); for (u64 k = 0; k < 46; ++k) out[k] = k < b.buffer_len() ? p[k] : 0; return ok ? b.buffer_len() : 0;
}
TVCF buf_read(const u64* m, const u64* n, const u8* in, u64* w) {
  base::ReadOnlyBuffer b(in, *n); b.set_endian(endian(*m)); uint16_t a = 0; uint32_t c = 0; u64 d = 0; uint8_t e = 0; bool ok = b.ReadAt(3, &a) && b.ReadMany(&c, &d, &e); w[0] = a; w[1] = c; w[2] = d; w[3] = e; if (!ok) return 0;
  u64 q = 0; uint32_t r = 0; uint16_t s = 0; ok = b.Read64BE(&q) && b.Read32LE(&r) && b.Read16BE(&s); w[4] = q; w[5] = r; w[6] = s; if (!ok) return 1; ok = b.Read64LE(&q) && b.Read32BE(&r) && b.Read16LE(&s); w[7] = q; w[8] = r; w[9] = s; return ok ? b.Done() ? 3 : 4 : 2;
}

template <typename F> static u64 fw(u64 mont, u64 en, const F* v, u64 n, u8* out) {
  base::Copyable<F>::s_is_in_montgomery = mont; Uint8VectorBuffer b; b.set_endian(endian(en)); bool ok = true; for (u64 k = 0; k < n; ++k) ok = ok && b.Write(v[k]);
  base::Copyable<F>::s_is_in_montgomery = false; const u8* p = static_cast<const u8*>(static_cast<const base::ReadOnlyBuffer&>(b).buffer()); for (u64 k = 0; k < b.buffer_len(); ++k) out[k] = p[k]; return ok ? b.buffer_len() : 0;
}
template <typename F> static u64 fr(u64 mont, u64 en, const u8* in, u64 len, F* v, u64 n) {
  base::Copyable<F>::s_is_in_montgomery = mont; base::ReadOnlyBuffer b(in, len); b.set_endian(endian(en)); u64 ok = 0; for (u64 k = 0; k < n; ++k) { if (!b.Read(&v[k])) break; ++ok; }
  base::Copyable<F>::s_is_in_montgomery = false; return ok;
}
template <typename F> static u64 frw(u64 mont, u64 en, const F* v, F* r) {
  base::Copyable<F>::s_is_in_montgomery = mont; Uint8VectorBuffer b; b.set_endian(endian(en)); std::vector<F> x(v, v + 2), y; bool ok = b.Write(x); b.set_buffer_offset(0); ok = ok && b.Read(&y) && b.Done() && y.size() == 2; base::Copyable<F>::s_is_in_montgomery = false;
  if (ok) { r[0] = y[0]; r[1] = y[1]; } return ok;
}
#define FF(name, F) TVCF fw_##name(const u64* m, const u64* e, const F* v, u8* out) { return fw(*m, *e, v, 2, out); } TVCF frw_##name(const u64* m, const u64* e, const F* v, F* r) { return frw(*m, *e, v, r); } \
  TVCF fr_##name(const u64* m, const u64* e, const u64* n, const u8* in, F* r) { return fr(*m, *e, in, *n, r, 2); }
FF(fr, bn254::Fr) FF(babybear, BabyBear) FF(mersenne31, Mersenne31)
