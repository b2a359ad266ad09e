#ifndef VP_ABSL_FMT
#define VP_ABSL_FMT
#include <cstdio>
#include "absl/strings/string_view.h"
#include "vp_tok.h"
namespace absl {
template <typename... A> std::string StrFormat(const char* f, const A&... a) { std::string s; vptok::fmt(s, f, a...); return s; }
template <typename... A> std::string& StrAppendFormat(std::string* out, const char* f, const A&... a) { vptok::fmt(*out, f, a...); return *out; }
// text printed on the standard output, kept while a harness asks for it
extern std::string* vp_stdout;
template <typename... A> int PrintF(const char* f, const A&... a) { if (vp_stdout) vptok::fmt(*vp_stdout, f, a...); return 0; }
template <typename... A> int FPrintF(std::FILE*, const char* f, const A&... a) { return 0; }
}  // namespace absl
#endif
