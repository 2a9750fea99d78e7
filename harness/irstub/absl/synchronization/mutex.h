// IR-only stand-in for absl::Mutex (single-threaded execution)
#ifndef TVC_STUB_MUTEX_H_
#define TVC_STUB_MUTEX_H_
#include "absl/base/config.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Mutex { public: void Lock() {} void Unlock() {} };
class MutexLock { public: explicit MutexLock(Mutex*) {} };
ABSL_NAMESPACE_END
}
#endif
