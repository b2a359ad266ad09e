#ifndef VP_ABSL_CAT
#define VP_ABSL_CAT
#include "absl/strings/string_view.h"
#include "vp_tok.h"
namespace absl {
template <typename T> void VpCat1(std::string* out, const T& v) {
  if constexpr (std::is_floating_point_v<T>) vptok::fmt_arg(*out, "g", v);
  else if constexpr (std::is_same_v<T, char>) out->push_back(v);
  else vptok::fmt_arg(*out, "d", v);
}
template <typename... A> std::string StrCat(const A&... a) { std::string s; (VpCat1(&s, a), ...); return s; }
template <typename... A> void StrAppend(std::string* out, const A&... a) { (VpCat1(out, a), ...); }
}  // namespace absl
#endif
