#pragma once
#include "absl/base/thread_annotations.h"
#ifdef INK_SA
extern "C" { void ink_sa_mutex_lock(const void*); void ink_sa_mutex_unlock(const void*); }
namespace absl {
class ABSL_LOCKABLE Mutex { int x_ = 0;
 public: Mutex() {} Mutex(const Mutex&)=delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { ink_sa_mutex_lock(this); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { ink_sa_mutex_unlock(this); }
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() { ink_sa_mutex_lock(this); }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { ink_sa_mutex_unlock(this); }
};
#else
#include <mutex>
namespace absl {
class ABSL_LOCKABLE Mutex { std::mutex m_;
 public: Mutex() {} Mutex(const Mutex&)=delete;
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION() { m_.lock(); }
  void Unlock() ABSL_UNLOCK_FUNCTION() { m_.unlock(); }
  void ReaderLock() ABSL_SHARED_LOCK_FUNCTION() { m_.lock(); }
  void ReaderUnlock() ABSL_UNLOCK_FUNCTION() { m_.unlock(); }
};
#endif
class ABSL_SCOPED_LOCKABLE MutexLock { Mutex* m_;
 public: explicit MutexLock(Mutex* m) ABSL_EXCLUSIVE_LOCK_FUNCTION(m) : m_(m) { m->Lock(); }
  MutexLock(const MutexLock&)=delete;
  ~MutexLock() ABSL_UNLOCK_FUNCTION() { m_->Unlock(); }
};
class ABSL_SCOPED_LOCKABLE ReaderMutexLock { Mutex* m_;
 public: explicit ReaderMutexLock(Mutex* m) ABSL_SHARED_LOCK_FUNCTION(m) : m_(m) { m->ReaderLock(); }
  ~ReaderMutexLock() ABSL_UNLOCK_FUNCTION() { m_->ReaderUnlock(); }
};
using WriterMutexLock = MutexLock;
}
