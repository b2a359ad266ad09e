// Files of a harness: entries of the in-memory file table in the symbolic build,
// scratch files removed at exit in the native one.
#ifndef FILES_H
#define FILES_H
#include <string>
#include "vp.h"
#ifdef VP_SYMBOLIC
#include <fstream>
#include "absl/strings/str_format.h"
#include "vp_tok.h"
namespace vpf {
inline void capture_begin() { absl::vp_stdout = new std::string(); }
inline std::string capture_end() { std::string s = *absl::vp_stdout; absl::vp_stdout = nullptr; return s; }
inline bool exists(const std::string& name) { return vpio::find(name) != nullptr; }
inline std::string fresh_file(int i) { return vp_name("fresh", i); }       // a name without a file
// a file of an earlier run
inline std::string old_file(int i) { const std::string n = vp_name("old", i); vpio::create(n)->data = "old\n"; return n; }
inline std::string put_file(const std::string& data) { vpio::create("in")->data = data; return "in"; }
inline std::string new_file() { return "new"; }
inline std::string no_file() { return "none"; }
inline std::string bad_file() { vpio::create("bad")->writable = false; return "bad"; }
inline std::string full_file() { vpio::create("full")->full = true; return "full"; }         // a full device
inline std::string dir_file() { vpio::create("dir")->rotten = true; return "dir"; }        // can be opened, not read
inline std::string get_file(const std::string& name) { vpio::File* f = vpio::find(name); return f ? f->data : std::string("<none>"); }
inline void put_int(std::string& out, int64_t v) { vptok::put_int(out, "d", v); }
inline void put_pad(std::string& out, int64_t v, int width) { vptok::put_int(out, width == 4 ? "04d" : "02d", v); }
// the same text, as long as the real one (for text that is parsed, not compared)
inline void put_digits(std::string& out, int64_t v, int width) {
  if (width == 4) vptok::put_int(out, "04d", v);
  else vptok::put_short(out, v);
}
inline void put_float(std::string& out, float v) { vptok::put_dbl(out, "r", v); }
}
#else
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <vector>
namespace vpf {
inline std::vector<std::string>& made() { static std::vector<std::string>* v = new std::vector<std::string>(); return *v; }
inline void wipe() { for (const std::string& f : made()) unlink(f.c_str()); }
inline std::string new_file() {
  static bool once = (atexit(wipe), true);
  (void)once;
  const char* d = getenv("TMPDIR");
  std::string n = std::string(d && *d ? d : "/tmp") + "/vp_fileXXXXXX";
  const int fd = mkstemp(&n[0]);
  if (fd >= 0) close(fd);
  made().push_back(n);
  return n;
}
inline std::string put_file(const std::string& data) {
  const std::string n = new_file();
  FILE* f = fopen(n.c_str(), "wb");
  if (f) { fwrite(data.data(), 1, data.size(), f); fclose(f); }
  return n;
}
inline std::string old_file(int) { return put_file("old\n"); }
inline std::string fresh_file(int) { const std::string n = new_file(); unlink(n.c_str()); return n; }
inline bool exists(const std::string& name) { return access(name.c_str(), F_OK) == 0; }
inline int& saved_fd() { static int fd = -1; return fd; }
inline std::string& cap_name() { static std::string* s = new std::string(); return *s; }
inline void capture_begin() {
  fflush(stdout);
  cap_name() = new_file();
  saved_fd() = dup(1);
  if (FILE* f = fopen(cap_name().c_str(), "wb")) { dup2(fileno(f), 1); fclose(f); }
}
inline std::string capture_end() {
  fflush(stdout);
  dup2(saved_fd(), 1);
  close(saved_fd());
  std::string s;
  if (FILE* f = fopen(cap_name().c_str(), "rb")) { int c; while ((c = fgetc(f)) != EOF) s.push_back(static_cast<char>(c)); fclose(f); }
  return s;
}
inline std::string no_file() { const std::string n = new_file(); unlink(n.c_str()); return n; }
inline std::string bad_file() { return no_file() + "/none"; }
inline std::string full_file() { return "/dev/full"; }
inline std::string dir_file() { return "/"; }
inline std::string get_file(const std::string& name) {
  std::string s;
  FILE* f = fopen(name.c_str(), "rb");
  if (!f) return "<none>";
  int c;
  while ((c = fgetc(f)) != EOF) s.push_back(static_cast<char>(c));
  fclose(f);
  return s;
}
inline void put_int(std::string& out, int64_t v) { out += std::to_string(v); }
inline void put_pad(std::string& out, int64_t v, int width) { char b[32]; snprintf(b, sizeof b, "%0*lld", width, static_cast<long long>(v)); out += b; }
inline void put_digits(std::string& out, int64_t v, int width) { put_pad(out, v, width); }
inline void put_float(std::string& out, float v) { char b[64]; snprintf(b, sizeof b, "%.9g", static_cast<double>(v)); out += b; }
}
#endif
#endif
