#pragma once
#if defined(__clang__)
#define INK_SHIM_TA(x) __attribute__((x))
#else
#define INK_SHIM_TA(x)
#endif
#define ABSL_GUARDED_BY(x) INK_SHIM_TA(guarded_by(x))
#define ABSL_PT_GUARDED_BY(x) INK_SHIM_TA(pt_guarded_by(x))
#define ABSL_LOCKS_EXCLUDED(...) INK_SHIM_TA(locks_excluded(__VA_ARGS__))
#define ABSL_EXCLUSIVE_LOCKS_REQUIRED(...) INK_SHIM_TA(exclusive_locks_required(__VA_ARGS__))
#define ABSL_SHARED_LOCKS_REQUIRED(...) INK_SHIM_TA(shared_locks_required(__VA_ARGS__))
#define ABSL_NO_THREAD_SAFETY_ANALYSIS INK_SHIM_TA(no_thread_safety_analysis)
#define ABSL_LOCKABLE INK_SHIM_TA(lockable)
#define ABSL_SCOPED_LOCKABLE INK_SHIM_TA(scoped_lockable)
#define ABSL_EXCLUSIVE_LOCK_FUNCTION(...) INK_SHIM_TA(exclusive_lock_function(__VA_ARGS__))
#define ABSL_UNLOCK_FUNCTION(...) INK_SHIM_TA(unlock_function(__VA_ARGS__))
#define ABSL_SHARED_LOCK_FUNCTION(...) INK_SHIM_TA(shared_lock_function(__VA_ARGS__))
