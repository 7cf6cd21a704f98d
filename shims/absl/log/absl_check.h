#pragma once
#include <cstdio>
#include <cstdlib>
#include <utility>
#ifdef INK_SA
extern "C" [[noreturn]] void ink_sa_check_failed(const char* cond, const char* file, int line);
#define INK_SHIM_DIE(c) ink_sa_check_failed(c, __FILE__, __LINE__)
#else
namespace ink_shim { [[noreturn]] inline void Die(const char* c, const char* f, int l) { std::fprintf(stderr, "CHECK failed: %s at %s:%d\n", c, f, l); std::abort(); } }
#define INK_SHIM_DIE(c) ::ink_shim::Die(c, __FILE__, __LINE__)
#endif
namespace ink_shim { struct Null { template <class T> constexpr const Null& operator<<(const T&) const { return *this; } };
struct Voidify { template <class T> constexpr void operator&&(const T&) const {} };
struct Dead { const char* c; const char* f; int l; 
#ifdef INK_SA
 [[noreturn]] ~Dead() { ink_sa_check_failed(c,f,l); }
#else
 [[noreturn]] ~Dead() { Die(c,f,l); }
#endif
 template <class T> const Dead& operator<<(const T&) const { return *this; } };
template <class S> auto StatusOk(const S& s) -> bool { return s.ok(); }
}
#define ABSL_CHECK(c) switch (0) case 0: default: if (static_cast<bool>(c)) {} else ::ink_shim::Voidify() && ::ink_shim::Dead{#c, __FILE__, __LINE__}
#define INK_SHIM_CMP(a, op, b) ABSL_CHECK((a) op (b))
#define ABSL_CHECK_EQ(a, b) INK_SHIM_CMP(a, ==, b)
#define ABSL_CHECK_NE(a, b) INK_SHIM_CMP(a, !=, b)
#define ABSL_CHECK_LT(a, b) INK_SHIM_CMP(a, <, b)
#define ABSL_CHECK_LE(a, b) INK_SHIM_CMP(a, <=, b)
#define ABSL_CHECK_GT(a, b) INK_SHIM_CMP(a, >, b)
#define ABSL_CHECK_GE(a, b) INK_SHIM_CMP(a, >=, b)
#define ABSL_CHECK_OK(s) ABSL_CHECK(::ink_shim::StatusOk(s))
#ifdef INK_SHIM_DCHECK
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#else
#define ABSL_DCHECK(c) switch (0) case 0: default: if (true || static_cast<bool>(c)) {} else ::ink_shim::Voidify() && ::ink_shim::Null{}
#endif
#define ABSL_DCHECK_EQ(a, b) ABSL_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) ABSL_DCHECK((a) != (b))
#define ABSL_DCHECK_LT(a, b) ABSL_DCHECK((a) < (b))
#define ABSL_DCHECK_LE(a, b) ABSL_DCHECK((a) <= (b))
#define ABSL_DCHECK_GT(a, b) ABSL_DCHECK((a) > (b))
#define ABSL_DCHECK_GE(a, b) ABSL_DCHECK((a) >= (b))
#define ABSL_DCHECK_OK(s) ABSL_DCHECK((s).ok())
