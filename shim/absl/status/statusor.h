#ifndef VP_ABSL_STATUSOR
#define VP_ABSL_STATUSOR
#include <cassert>
#include <optional>
#include <utility>
#include "absl/status/status.h"
namespace absl {
template <typename T> class StatusOr {
 public:
  using value_type = T;
  StatusOr() : st_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : st_(s) { assert(!s.ok()); }
  StatusOr(Status&& s) : st_(std::move(s)) { assert(!st_.ok()); }
  template <typename V, typename = std::enable_if_t<std::is_constructible_v<T, V&&> && !std::is_same_v<std::decay_t<V>, StatusOr> && !std::is_same_v<std::decay_t<V>, Status>>>
  StatusOr(V&& v) : v_(std::in_place, std::forward<V>(v)) {}
  bool ok() const { return st_.ok(); }
  const Status& status() const & { return st_; }
  Status status() && { return std::move(st_); }
  const T& value() const & { assert(ok()); return *v_; }
  T& value() & { assert(ok()); return *v_; }
  T&& value() && { assert(ok()); return std::move(*v_); }
  const T& operator*() const & { return value(); }
  T& operator*() & { return value(); }
  T&& operator*() && { return std::move(*this).value(); }
  const T* operator->() const { return &value(); }
  T* operator->() { return &value(); }
  template <typename U> T value_or(U&& u) const & { return ok() ? *v_ : static_cast<T>(std::forward<U>(u)); }
 private:
  Status st_;
  std::optional<T> v_;
};
}  // namespace absl
#endif
