#ifndef VP_PB_ZCSI
#define VP_PB_ZCSI
#include "google/protobuf/io/zero_copy_stream.h"
namespace google { namespace protobuf { namespace io {
class IstreamInputStream : public ZeroCopyInputStream {
 public:
  explicit IstreamInputStream(std::istream* s, int = -1) : s_(s) {}
  std::istream* vp_is() override { return s_; }
 private:
  std::istream* s_;
};
class OstreamOutputStream : public ZeroCopyOutputStream {
 public:
  explicit OstreamOutputStream(std::ostream* s, int = -1) : s_(s) {}
  ~OstreamOutputStream() { Flush(); }
  void Flush() { s_->vp_write(b_.data(), b_.size()); b_.clear(); }
  void vp_put(char mark, int idx) override { b_.push_back(mark); if (idx >= 0) b_.push_back(static_cast<char>('0' + idx)); }
 private:
  std::ostream* s_;
  std::string b_;
};
} } }
#endif
