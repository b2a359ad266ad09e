// Text produced from values is kept structurally: \x01 kind spec \x02 index \x03,
// where the index names an interned (kind, spec, value) triple held by the engine.
#ifndef VP_TOK_H
#define VP_TOK_H
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <type_traits>
extern "C" {
int vp_intern_i(const char* spec, int64_t v);
int vp_intern_d(const char* spec, double v);
int64_t vp_tok_i(int idx);
double vp_tok_d(int idx);
float vp_tok_f(int idx);
}
namespace vptok {
inline void put(std::string& out, char kind, int idx) {
  out.push_back('\x01');
  out.push_back(kind);
  out.push_back(static_cast<char>(0x80 + (idx & 63)));
  out.push_back(static_cast<char>(0x80 + ((idx >> 6) & 63)));
}
inline int idx(const char* p) {
  return (static_cast<unsigned char>(p[2]) - 0x80) + 64 * (static_cast<unsigned char>(p[3]) - 0x80);
}
inline void put_int(std::string& out, const char* spec, int64_t v) { put(out, 'i', vp_intern_i(spec, v)); }
// two digits: \x02 index
inline void put_short(std::string& out, int64_t v) {
  const int i = vp_intern_i("02d", v);
  if (i > 63) __builtin_abort();
  out.push_back('\x02');
  out.push_back(static_cast<char>(0x80 + i));
}
inline int64_t get_short(const char* p) { return vp_tok_i(static_cast<unsigned char>(p[1]) - 0x80); }
inline void put_dbl(std::string& out, const char* spec, double v) { put(out, 'f', vp_intern_d(spec, v)); }

template <typename T>
void fmt_arg(std::string& out, const std::string& spec, const T& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, bool>) {
    put_int(out, spec.c_str(), v ? 1 : 0);
  } else if constexpr (std::is_same_v<D, char>) {
    if (!spec.empty() && spec.back() == 'c') out.push_back(v); else put_int(out, spec.c_str(), v);
  } else if constexpr (std::is_integral_v<D>) {
    put_int(out, spec.c_str(), static_cast<int64_t>(v));
  } else if constexpr (std::is_enum_v<D>) {
    put_int(out, spec.c_str(), static_cast<int64_t>(v));
  } else if constexpr (std::is_floating_point_v<D>) {
    put_dbl(out, spec.c_str(), static_cast<double>(v));
  } else if constexpr (std::is_pointer_v<D> && !std::is_convertible_v<T, const char*>) {
    out += "<ptr>";
  } else if constexpr (std::is_convertible_v<T, std::string_view>) {
    std::string_view s(v);
    out.append(s.data(), s.size());
  } else {
    out += "<obj>";
  }
}
// copies literal text up to the next conversion; returns false at the end
inline bool lit(std::string& out, const char*& f, std::string& spec) {
  while (*f) {
    if (*f != '%') { out.push_back(*f++); continue; }
    if (f[1] == '%') { out.push_back('%'); f += 2; continue; }
    ++f;
    spec.clear();
    while (*f && !((*f >= 'a' && *f <= 'z' && *f != 'l' && *f != 'h' && *f != 'j' && *f != 'z' && *f != 't') ||
                   (*f >= 'A' && *f <= 'Z'))) {
      if (*f != 'l' && *f != 'h' && *f != 'j' && *f != 'z' && *f != 't') spec.push_back(*f);
      ++f;
    }
    if (*f) spec.push_back(*f == 'i' || *f == 'u' ? 'd' : *f), ++f;
    return true;
  }
  return false;
}
inline void fmt(std::string& out, const char* f) {
  std::string spec;
  while (lit(out, f, spec)) out += "<missing>";
}
template <typename T, typename... R>
void fmt(std::string& out, const char* f, const T& v, const R&... rest) {
  std::string spec;
  if (!lit(out, f, spec)) return;
  fmt_arg(out, spec, v);
  fmt(out, f, rest...);
}
}  // namespace vptok
#endif
