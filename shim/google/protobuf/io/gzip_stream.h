#ifndef VP_PB_GZ
#define VP_PB_GZ
#include <vector>
#include "google/protobuf/io/zero_copy_stream.h"
#define Z_DEFAULT_COMPRESSION (-1)
#define Z_OK 0
#define Z_STREAM_END 1
#define Z_DATA_ERROR (-3)
#define Z_BUF_ERROR (-5)
#define Z_NO_COMPRESSION 0
#define Z_BEST_SPEED 1
#define Z_BEST_COMPRESSION 9
#define Z_DEFAULT_STRATEGY 0
namespace google { namespace protobuf { namespace io {
class GzipInputStream : public ZeroCopyInputStream {
 public:
  enum Format { AUTO = 0, GZIP = 1, ZLIB = 2 };
  explicit GzipInputStream(ZeroCopyInputStream* s, Format = AUTO, int = -1) : s_(s) {}
  std::istream* vp_is() override { return s_->vp_is(); }
  char vp_mark() override { return 'G'; }
  // As in the library: a sub-stream that ends anywhere ends the stream without an
  // error code; what is no gzip data ends it with one.
  bool vp_more() override {
    std::istream* s = s_->vp_is();
    if (code_ != 0) return false;
    while (s->vp_pos < s->vp_buf.size() && s->vp_buf[s->vp_pos] == 'E') ++s->vp_pos;
    if (s->vp_pos >= s->vp_buf.size()) { code_ = 1; s->vp_end(); return false; }
    if (s->vp_buf[s->vp_pos] != 'G') { code_ = -3; return false; }
    // corrupt data in a block of input that is decoded at once hides what precedes it
    for (uint64_t i = s->vp_pos; i < s->vp_buf.size(); i += 2) if (s->vp_buf[i] == 'z') { code_ = -3; return false; }
    return true;
  }
  int ZlibErrorCode() const { return code_; }
  const char* ZlibErrorMessage() const { return code_ < 0 ? "incorrect data" : nullptr; }
 private:
  ZeroCopyInputStream* s_;
  int code_ = 0;
};
class GzipOutputStream : public ZeroCopyOutputStream {
 public:
  enum Format { GZIP = 1, ZLIB = 2 };
  struct Options { Format format = GZIP; int buffer_size = 65536; int compression_level = -1; int compression_strategy = 0; };
  explicit GzipOutputStream(ZeroCopyOutputStream* s) : s_(s) {}
  GzipOutputStream(ZeroCopyOutputStream* s, const Options&) : s_(s) {}
  ~GzipOutputStream() { Close(); }
  bool Flush() { for (int i : q_) s_->vp_put('G', i); q_.clear(); return true; }
  bool Close() { if (closed_) return true; Flush(); s_->vp_put('E', -1); closed_ = true; return true; }
  int ZlibErrorCode() const { return 0; }
  const char* ZlibErrorMessage() const { return nullptr; }
  void vp_put(char, int idx) override { q_.push_back(idx); }
 private:
  ZeroCopyOutputStream* s_;
  std::vector<int> q_;
  bool closed_ = false;
};
} } }
#endif
