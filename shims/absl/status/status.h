#pragma once
#include <ostream>
#include <string>
#include "absl/base/attributes.h"
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7, kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15, kUnauthenticated = 16 };
class [[nodiscard]] Status {
  StatusCode c_ = StatusCode::kOk;
#if !defined(INK_SA) || defined(INK_SHIM_STATUS_TEXT)
  std::string m_;
#endif
 public:
  Status() = default;
#if defined(INK_SA) && !defined(INK_SHIM_STATUS_TEXT)
  Status(StatusCode c, string_view) : c_(c) {}
  string_view message() const { return ""; }
#else
  Status(StatusCode c, string_view m) : c_(c), m_(m) {}
  string_view message() const { return m_; }
#endif
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  int raw_code() const { return (int)c_; }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
#if defined(INK_SA) && !defined(INK_SHIM_STATUS_TEXT)
  std::string ToString() const { return std::string(); }
#else
  std::string ToString() const { static const char* const k[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"}; return ok() ? std::string("OK") : std::string(k[(int)c_]) + ": " + std::string(message()); }
#endif
  friend bool operator==(const Status& a, const Status& b) { return a.c_ == b.c_ && a.message() == b.message(); }
  template <class S> friend void AbslStringify(S& s, const Status& t) { s.Append(t.ToString()); }
  friend std::ostream& operator<<(std::ostream& o, const Status& s) { return o << s.message(); }
};
inline Status OkStatus() { return Status(); }
#define INK_SHIM_ERR(N) inline Status N##Error(string_view m) { return Status(StatusCode::k##N, m); } inline bool Is##N(const Status& s) { return s.code() == StatusCode::k##N; }
INK_SHIM_ERR(Cancelled) INK_SHIM_ERR(Unknown) INK_SHIM_ERR(InvalidArgument) INK_SHIM_ERR(NotFound) INK_SHIM_ERR(AlreadyExists) INK_SHIM_ERR(PermissionDenied) INK_SHIM_ERR(ResourceExhausted) INK_SHIM_ERR(FailedPrecondition) INK_SHIM_ERR(Aborted) INK_SHIM_ERR(OutOfRange) INK_SHIM_ERR(Unimplemented) INK_SHIM_ERR(Internal) INK_SHIM_ERR(Unavailable) INK_SHIM_ERR(DataLoss)
}
