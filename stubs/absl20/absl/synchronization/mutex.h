#ifndef VP_STUB_MUTEX_H_
#define VP_STUB_MUTEX_H_
#define MutexLock VpOldMutexLock
#include_next "absl/synchronization/mutex.h"
#undef MutexLock
namespace absl {
ABSL_NAMESPACE_BEGIN
class ABSL_SCOPED_LOCKABLE MutexLock {
 public:
  explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m);
  explicit MutexLock(Mutex& m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m);
  ~MutexLock() ABSL_UNLOCK_FUNCTION();
  MutexLock(const MutexLock&) = delete;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
