// Harness primitives. Under the symbolic executor they are interpreted by the
// engine; in a native replay they read recorded inputs (native/vp_native.cc).
#ifndef VP_H
#define VP_H
#include <cstdint>
#include <string>
extern "C" {
float vp_f32(const char* name, float lo, float hi);     // any float in [lo, hi], never -0
double vp_f64(const char* name, double lo, double hi);
int64_t vp_i64(const char* name, int64_t lo, int64_t hi);
bool vp_bool(const char* name);
int64_t vp_choice(const char* name, int n);              // concrete 0..n-1, one path each
bool vp_fork(bool c);                                    // force one path per truth value
int64_t vp_concrete(int64_t v);                          // fork over the values of v
void vp_assume(bool c);
void vp_check(bool c, const char* label);
void vp_same_f(float a, float b, const char* label);     // equal as numbers (or both NaN syntactically)
void vp_same_d(double a, double b, const char* label);
void vp_close(double a, double b, double tol, const char* label);
bool vp_eqf(float a, float b);
bool vp_and(bool a, bool b);                             // without forking
bool vp_or(bool a, bool b);
float vp_ite_f(bool c, float a, float b);
double vp_ite_d(bool c, double a, double b);
int64_t vp_ite_i(bool c, int64_t a, int64_t b);
void vp_cover(const char* label);                        // must be reached by some feasible path
void vp_observe_f(const char* name, float v);            // compared with the native replay
void vp_observe_d(const char* name, double v);
void vp_observe_i(const char* name, int64_t v);
void vp_observe_b(const char* name, bool v);
bool vp_symbolic();
bool vp_known_i(int64_t v);                             // v has one value on this path (always so natively)
void vp_same_text(const char* a, uint64_t na, const char* b, uint64_t nb, const char* label);
void vp_unsupported(const char* msg);
void vp_end();
[[noreturn]] void vp_done();                          // the program ends here: the path is complete
}
inline std::string vp_name(const char* base, int i) {
  std::string s(base);
  if (i >= 10) s.push_back('0' + i / 10);
  s.push_back('0' + i % 10);
  return s;
}
inline float vp_f32(const std::string& n, float lo, float hi) { return vp_f32(n.c_str(), lo, hi); }
inline int64_t vp_i64(const std::string& n, int64_t lo, int64_t hi) { return vp_i64(n.c_str(), lo, hi); }
inline bool vp_bool(const std::string& n) { return vp_bool(n.c_str()); }
inline int64_t vp_choice(const std::string& n, int k) { return vp_choice(n.c_str(), k); }
inline void vp_observe_f(const std::string& n, float v) { vp_observe_f(n.c_str(), v); }
inline void vp_observe_d(const std::string& n, double v) { vp_observe_d(n.c_str(), v); }
inline void vp_observe_i(const std::string& n, int64_t v) { vp_observe_i(n.c_str(), v); }
inline void vp_observe_b(const std::string& n, bool v) { vp_observe_b(n.c_str(), v); }
inline void vp_same_text(const std::string& a, const std::string& b, const char* label) {
  vp_same_text(a.data(), a.size(), b.data(), b.size(), label);
}
#ifdef VP_NATIVE
#include <map>
std::map<std::string, void (*)()>& vp_entries();
#define VP_ENTRY(name) extern "C" void name(); \
  static bool vp_reg_##name = (vp_entries()[#name] = name, true); extern "C" void name()
#else
#define VP_ENTRY(name) extern "C" __attribute__((noinline)) void name()
#endif
#endif
