#ifndef VP_ABSL_FLAG
#define VP_ABSL_FLAG
#include <string>
namespace absl {
template <typename T> struct Flag { T v; };
template <typename T> const T& GetFlag(const Flag<T>& f) { return f.v; }
template <typename T, typename V> void SetFlag(Flag<T>* f, const V& v) { f->v = v; }
}  // namespace absl
#define ABSL_FLAG(T, name, def, help) absl::Flag<T> FLAGS_##name{def}
#define ABSL_DECLARE_FLAG(T, name) extern absl::Flag<T> FLAGS_##name
#endif
