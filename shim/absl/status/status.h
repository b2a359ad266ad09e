#ifndef VP_ABSL_STATUS
#define VP_ABSL_STATUS
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
enum class StatusCode : int { kOk = 0, kCancelled, kUnknown, kInvalidArgument, kDeadlineExceeded, kNotFound, kAlreadyExists,
  kPermissionDenied, kResourceExhausted, kFailedPrecondition, kAborted, kOutOfRange, kUnimplemented, kInternal, kUnavailable,
  kDataLoss, kUnauthenticated };
class Status {
 public:
  Status() {}
  Status(StatusCode c, absl::string_view m) : code_(c), msg_(m) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  absl::string_view message() const { return msg_; }
  std::string ToString() const { return msg_; }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
 private:
  StatusCode code_ = StatusCode::kOk;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
#define VP_ST(n) inline Status n##Error(absl::string_view m) { return Status(StatusCode::k##n, m); } \
  inline bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
VP_ST(Cancelled) VP_ST(Unknown) VP_ST(InvalidArgument) VP_ST(DeadlineExceeded) VP_ST(NotFound) VP_ST(AlreadyExists)
VP_ST(PermissionDenied) VP_ST(ResourceExhausted) VP_ST(FailedPrecondition) VP_ST(Aborted) VP_ST(OutOfRange)
VP_ST(Unimplemented) VP_ST(Internal) VP_ST(Unavailable) VP_ST(DataLoss) VP_ST(Unauthenticated)
#undef VP_ST
}  // namespace absl
#endif
