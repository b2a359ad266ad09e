// Minimal character streams over an in-memory file table. Shadows the standard
// stream headers in the symbolic build only.
#ifndef VP_IO_H
#define VP_IO_H
#include <iosfwd>
#include <string>
#include <string_view>
#include <bits/ios_base.h>
#include "vp_tok.h"

extern "C" {
// Scans one number of text [p+*pos, p+n): skips blanks, advances *pos; 1 on success.
int vp_scan_i(const char* p, uint64_t n, uint64_t* pos, int64_t* out);
int vp_scan_f(const char* p, uint64_t n, uint64_t* pos, float* out);
int vp_scan_d(const char* p, uint64_t n, uint64_t* pos, double* out);
}
namespace vpio {
struct File { std::string name, data; bool readable = true, writable = true, exists = true, full = false, rotten = false; };
File* find(const std::string& name);
File* create(const std::string& name);
}

namespace std {
template <> class basic_ios<char, char_traits<char>> {
 public:
  using openmode = ios_base::openmode;
  using iostate = ios_base::iostate;
  using fmtflags = ios_base::fmtflags;
  static constexpr openmode in = ios_base::in, out = ios_base::out, binary = ios_base::binary, trunc = ios_base::trunc,
                            app = ios_base::app, ate = ios_base::ate;
  static constexpr iostate goodbit = ios_base::goodbit, eofbit = ios_base::eofbit, failbit = ios_base::failbit, badbit = ios_base::badbit;
  bool vp_fail = false, vp_eof = false, vp_bad = false;
  int vp_prec = 6, vp_width = 0;
  bool vp_fixed = false;
  std::string vp_buf;        // characters of the stream
  uint64_t vp_pos = 0;       // read position
  bool vp_rotten = false;    // reading past vp_buf is an error, not the end
  bool vp_end() { if (vp_rotten) vp_bad = true; else vp_eof = true; return true; }
  virtual ~basic_ios() {}
  bool fail() const { return vp_fail || vp_bad; }
  bool bad() const { return vp_bad; }
  bool eof() const { return vp_eof; }
  bool good() const { return !vp_fail && !vp_eof && !vp_bad; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  void clear() { vp_fail = vp_eof = vp_bad = false; }
  void setstate(iostate s) { if (s & ios_base::failbit) vp_fail = true; if (s & ios_base::eofbit) vp_eof = true; if (s & ios_base::badbit) vp_bad = true; }
  iostate rdstate() const { return (vp_fail ? ios_base::failbit : ios_base::goodbit) | (vp_eof ? ios_base::eofbit : ios_base::goodbit); }
  int precision(int p) { int o = vp_prec; vp_prec = p; return o; }
};

template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char> {
 public:
  virtual ~basic_ostream() {}
  virtual void vp_write(const char* s, size_t n) { if (!fail()) vp_buf.append(s, n); }
  virtual void vp_flush() {}
  basic_ostream& write(const char* s, long n) { vp_write(s, n); return *this; }
  basic_ostream& put(char c) { vp_write(&c, 1); return *this; }
  basic_ostream& flush() { vp_flush(); return *this; }
  basic_ostream& vp_int(int64_t v) { std::string t; vptok::put_int(t, "d", v); vp_write(t.data(), t.size()); return *this; }
  basic_ostream& vp_dbl(double v) {
    std::string spec, t;
    if (vp_fixed) { spec = "."; if (vp_prec >= 10) spec.push_back('0' + vp_prec / 10); spec.push_back('0' + vp_prec % 10); spec += "f"; }
    else if (vp_prec == 6) spec = "g";
    else { spec = "."; if (vp_prec >= 10) spec.push_back('0' + vp_prec / 10); spec.push_back('0' + vp_prec % 10); spec += "g"; }
    vptok::put_dbl(t, spec.c_str(), v);
    vp_write(t.data(), t.size());
    return *this;
  }
  basic_ostream& operator<<(int v) { return vp_int(v); }
  basic_ostream& operator<<(unsigned v) { return vp_int(v); }
  basic_ostream& operator<<(long v) { return vp_int(v); }
  basic_ostream& operator<<(unsigned long v) { return vp_int(v); }
  basic_ostream& operator<<(long long v) { return vp_int(v); }
  basic_ostream& operator<<(unsigned long long v) { return vp_int(v); }
  basic_ostream& operator<<(bool v) { return vp_int(v); }
  basic_ostream& operator<<(float v) { return vp_dbl(v); }
  basic_ostream& operator<<(double v) { return vp_dbl(v); }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
};
using vp_os = basic_ostream<char, char_traits<char>>;
inline vp_os& operator<<(vp_os& os, const std::string& s) { os.vp_write(s.data(), s.size()); return os; }
inline vp_os& operator<<(vp_os& os, std::string_view s) { os.vp_write(s.data(), s.size()); return os; }
inline vp_os& operator<<(vp_os& os, const char* s) { os.vp_write(s, std::char_traits<char>::length(s)); return os; }
inline vp_os& operator<<(vp_os& os, char c) { os.vp_write(&c, 1); return os; }
inline vp_os& endl(vp_os& os) { os.vp_write("\n", 1); os.vp_flush(); return os; }
inline vp_os& flush(vp_os& os) { os.vp_flush(); return os; }
struct vp_setprec { int p; };
struct vp_setw { int p; };
struct vp_setfill { char c; };
inline vp_setprec setprecision(int p) { return vp_setprec{p}; }
inline vp_setw setw(int p) { return vp_setw{p}; }
inline vp_setfill setfill(char c) { return vp_setfill{c}; }
inline vp_os& operator<<(vp_os& os, vp_setprec p) { os.vp_prec = p.p; return os; }
inline vp_os& operator<<(vp_os& os, vp_setw) { return os; }
inline vp_os& operator<<(vp_os& os, vp_setfill) { return os; }
inline vp_os& operator<<(vp_os& os, ios_base& (*)(ios_base&)) { os.vp_fixed = true; return os; }

template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char> {
 public:
  virtual ~basic_istream() {}
  int peek() { if (vp_pos >= vp_buf.size()) { vp_end(); return -1; } return static_cast<unsigned char>(vp_buf[vp_pos]); }
  int get() { if (vp_pos >= vp_buf.size()) { vp_end(); vp_fail = true; return -1; } return static_cast<unsigned char>(vp_buf[vp_pos++]); }
  basic_istream& get(char& c) { int x = get(); if (x >= 0) c = static_cast<char>(x); return *this; }
  basic_istream& ignore(long n = 1, int delim = -1) {
    while (n-- > 0 && vp_pos < vp_buf.size()) if (vp_buf[vp_pos++] == static_cast<char>(delim) && delim >= 0) break;
    return *this;
  }
  bool vp_ready() {
    if (fail() || vp_eof) { vp_fail = true; return false; }
    while (vp_pos < vp_buf.size() && vp_blank(vp_buf[vp_pos])) ++vp_pos;
    if (vp_pos >= vp_buf.size()) { vp_end(); vp_fail = true; return false; }
    return true;
  }
  static bool vp_blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
  void vp_done(int ok) { if (vp_pos >= vp_buf.size()) vp_end(); if (!ok) vp_fail = true; }
  template <typename T> basic_istream& vp_rd_i(T& v) {
    int64_t x = 0;
    if (vp_ready()) { int ok = vp_scan_i(vp_buf.data(), vp_buf.size(), &vp_pos, &x); v = ok ? static_cast<T>(x) : T(0); vp_done(ok); }
    return *this;
  }
  basic_istream& operator>>(int& v) { return vp_rd_i(v); }
  basic_istream& operator>>(long& v) { return vp_rd_i(v); }
  basic_istream& operator>>(long long& v) { return vp_rd_i(v); }
  basic_istream& operator>>(unsigned& v) { return vp_rd_i(v); }
  basic_istream& operator>>(unsigned long& v) { return vp_rd_i(v); }
  basic_istream& operator>>(float& v) {
    if (vp_ready()) { float x = 0; int ok = vp_scan_f(vp_buf.data(), vp_buf.size(), &vp_pos, &x); v = ok ? x : 0.0f; vp_done(ok); }
    return *this;
  }
  basic_istream& operator>>(double& v) {
    if (vp_ready()) { double x = 0; int ok = vp_scan_d(vp_buf.data(), vp_buf.size(), &vp_pos, &x); v = ok ? x : 0.0; vp_done(ok); }
    return *this;
  }
  basic_istream& operator>>(std::string& s) {
    if (vp_ready()) {
      s.clear();
      while (vp_pos < vp_buf.size() && !vp_blank(vp_buf[vp_pos])) s.push_back(vp_buf[vp_pos++]);
      vp_done(1);
    }
    return *this;
  }
  basic_istream& operator>>(char& c) { if (vp_ready()) { c = vp_buf[vp_pos++]; } return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
};
using vp_is = basic_istream<char, char_traits<char>>;
inline vp_is& ws(vp_is& is) {
  while (is.vp_pos < is.vp_buf.size() && vp_is::vp_blank(is.vp_buf[is.vp_pos])) ++is.vp_pos;
  if (is.vp_pos >= is.vp_buf.size()) is.vp_end();
  return is;
}
inline vp_is& getline(vp_is& is, std::string& s, char delim) {
  if (is.fail() || is.vp_eof) { is.vp_fail = true; return is; }
  s.clear();
  if (is.vp_pos >= is.vp_buf.size()) { is.vp_end(); is.vp_fail = true; return is; }
  while (true) {
    if (is.vp_pos >= is.vp_buf.size()) { is.vp_end(); break; }
    char c = is.vp_buf[is.vp_pos++];
    if (c == delim) break;
    s.push_back(c);
  }
  return is;
}
inline vp_is& getline(vp_is& is, std::string& s) { return getline(is, s, '\n'); }

template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {};

template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const std::string& s, openmode = ios_base::in) { vp_buf = s; }
  std::string str() const { return vp_buf; }
  void str(const std::string& s) { vp_buf = s; vp_pos = 0; }
};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
 public:
  basic_ostringstream() {}
  explicit basic_ostringstream(const std::string& s, openmode = ios_base::out) {}
  std::string str() const { return vp_buf; }
  void str(const std::string& s) { vp_buf = s; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> {
 public:
  basic_stringstream() {}
  explicit basic_stringstream(const std::string& s, openmode = ios_base::in | ios_base::out) { vp_buf = s; }
  std::string str() const { return vp_buf; }
  void str(const std::string& s) { vp_buf = s; vp_pos = 0; }
};
struct vp_filebase : virtual public basic_ios<char> {
  bool vp_open = false, vp_out = false;
  std::string vp_name;
  void vp_do_open(const std::string& n, openmode m) {
    vp_name = n;
    vp_out = (m & ios_base::out) != 0;
    vpio::File* f = vpio::find(n);
    if (vp_out) {
      if (!f) f = vpio::create(n);
      if (!f || !f->writable) { vp_fail = true; return; }
      f->exists = true;
      if (!(m & (ios_base::app | ios_base::in)) || (m & ios_base::trunc)) f->data.clear();
    } else {
      if (!f || !f->exists || !f->readable) { vp_fail = true; return; }
      vp_buf = f->data;
      vp_rotten = f->rotten;
    }
    vp_open = true;
  }
  void vp_sync() {
    if (vp_open && vp_out) { vpio::File* f = vpio::find(vp_name); if (!f->full) f->data += vp_buf; else if (!vp_buf.empty()) vp_bad = true; vp_buf.clear(); }
  }
  bool is_open() const { return vp_open; }
  void close() { if (!vp_open) vp_fail = true; vp_sync(); vp_open = false; }
};
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char>, public vp_filebase {
 public:
  basic_ifstream() {}
  explicit basic_ifstream(const std::string& n, openmode m = ios_base::in) { vp_do_open(n, m | ios_base::in); }
  explicit basic_ifstream(const char* n, openmode m = ios_base::in) { vp_do_open(n, m | ios_base::in); }
  void open(const std::string& n, openmode m = ios_base::in) { vp_do_open(n, m | ios_base::in); }
};
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char>, public vp_filebase {
 public:
  basic_ofstream() {}
  explicit basic_ofstream(const std::string& n, openmode m = ios_base::out) { vp_do_open(n, m | ios_base::out); }
  explicit basic_ofstream(const char* n, openmode m = ios_base::out) { vp_do_open(n, m | ios_base::out); }
  void open(const std::string& n, openmode m = ios_base::out) { vp_do_open(n, m | ios_base::out); }
  void vp_flush() override { vp_sync(); }
  ~basic_ofstream() { vp_sync(); }
};
template <> class basic_fstream<char, char_traits<char>> : public basic_iostream<char>, public vp_filebase {
 public:
  basic_fstream() {}
  explicit basic_fstream(const std::string& n, openmode m = ios_base::in | ios_base::out) { vp_do_open(n, m); }
  explicit basic_fstream(const char* n, openmode m = ios_base::in | ios_base::out) { vp_do_open(n, m); }
  void open(const std::string& n, openmode m = ios_base::in | ios_base::out) { vp_do_open(n, m); }
  void vp_flush() override { vp_sync(); }
  ~basic_fstream() { vp_sync(); }
};
extern ostream cout, cerr, clog;
extern istream cin;
}  // namespace std
#endif
