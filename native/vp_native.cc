// Native side of the harness primitives: inputs come from a file, failed checks
// and observations are printed.
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include "vp.h"
static FILE* vp_out = stdout;   // stays connected while a harness redirects stdout
static std::map<std::string, uint64_t> in;
static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
extern "C" {
float vp_f32(const char* n, float lo, float hi) { auto i = in.find(n); if (lo == hi || i == in.end()) return lo; return static_cast<float>(dbl(i->second)); }
double vp_f64(const char* n, double lo, double hi) { auto i = in.find(n); if (lo == hi || i == in.end()) return lo; return dbl(i->second); }
int64_t vp_i64(const char* n, int64_t lo, int64_t hi) { auto i = in.find(n); if (lo == hi || i == in.end()) return lo; return static_cast<int64_t>(i->second); }
bool vp_bool(const char* n) { auto i = in.find(n); return i != in.end() && i->second; }
int64_t vp_choice(const char* n, int k) { auto i = in.find(n); return (k <= 1 || i == in.end()) ? 0 : static_cast<int64_t>(i->second); }
bool vp_fork(bool c) { return c; }
int64_t vp_concrete(int64_t v) { return v; }
void vp_assume(bool c) { if (!c) { fprintf(vp_out, "VP_ASSUME\n"); fflush(vp_out); _Exit(4); } }
void vp_check(bool c, const char* l) { if (!c) { fprintf(vp_out, "VP_FAIL %s\n", l); fflush(vp_out); } }
static std::string numstr(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
void vp_same_f(float a, float b, const char* l) {
  if (!(a == b || (std::isnan(a) && std::isnan(b)))) { fprintf(vp_out, "VP_FAIL %s\n", l); fprintf(vp_out, "VP_DIFF %s: %s vs %s\n", l, numstr(a).c_str(), numstr(b).c_str()); fflush(vp_out); }
}
void vp_same_d(double a, double b, const char* l) {
  if (!(a == b || (std::isnan(a) && std::isnan(b)))) { fprintf(vp_out, "VP_FAIL %s\n", l); fprintf(vp_out, "VP_DIFF %s: %s vs %s\n", l, numstr(a).c_str(), numstr(b).c_str()); fflush(vp_out); }
}
void vp_close(double a, double b, double t, const char* l) {
  if (!(a - b <= t && -t <= a - b)) { fprintf(vp_out, "VP_FAIL %s\n", l); fprintf(vp_out, "VP_DIFF %s: %s vs %s (tolerance %s)\n", l, numstr(a).c_str(), numstr(b).c_str(), numstr(t).c_str()); fflush(vp_out); }
}
bool vp_eqf(float a, float b) { return a == b; }
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
float vp_ite_f(bool c, float a, float b) { return c ? a : b; }
double vp_ite_d(bool c, double a, double b) { return c ? a : b; }
int64_t vp_ite_i(bool c, int64_t a, int64_t b) { return c ? a : b; }
void vp_cover(const char* l) { fprintf(vp_out, "VP_COVER %s\n", l); }
bool vp_symbolic() { return false; }
bool vp_known_i(int64_t) { return true; }
void vp_observe_f(const char* n, float v) { fprintf(vp_out, "VP_OBS %s %016" PRIx64 "\n", n, v != v ? 0x7ff8000000000000ull : bits(v)); }
void vp_observe_d(const char* n, double v) { fprintf(vp_out, "VP_OBS %s %016" PRIx64 "\n", n, v != v ? 0x7ff8000000000000ull : bits(v)); }
void vp_observe_i(const char* n, int64_t v) { fprintf(vp_out, "VP_OBS %s %016" PRIx64 "\n", n, static_cast<uint64_t>(v)); }
void vp_observe_b(const char* n, bool v) { fprintf(vp_out, "VP_OBS %s %016" PRIx64 "\n", n, static_cast<uint64_t>(v)); }
void vp_unsupported(const char* m) { fprintf(vp_out, "VP_UNSUPPORTED %s\n", m); fflush(vp_out); _Exit(5); }
void vp_done() { fprintf(vp_out, "VP_DONE\n"); fflush(vp_out); exit(0); }
void vp_end() { fflush(vp_out); _Exit(0); }
void vp_same_text(const char* a, uint64_t na, const char* b, uint64_t nb, const char* l) {
  if (na != nb || memcmp(a, b, na) != 0) { fprintf(vp_out, "VP_FAIL %s\n", l); fprintf(vp_out, "VP_DIFF %s: \"%.*s\" vs \"%.*s\"\n", l, (int)na, a, (int)nb, b); fflush(vp_out); }
}
}
std::map<std::string, void (*)()>& vp_entries() { static std::map<std::string, void (*)()> m; return m; }
int main(int argc, char** argv) {
  vp_out = fdopen(dup(1), "w");
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r");
  char name[512];
  char val[64];
  while (f && fscanf(f, "%511s %63s", name, val) == 2) in[name] = strtoull(val, nullptr, 16);
  auto i = vp_entries().find(argv[1]);
  if (i == vp_entries().end()) { fprintf(vp_out, "no entry %s\n", argv[1]); return 2; }
  i->second();
  fprintf(vp_out, "VP_DONE\n");
  return 0;
}
