#ifndef VP_PB_ZCS
#define VP_PB_ZCS
// Streams of whole messages: the wire format, zlib and byte buffering are
// stubbed; a stored message is a token naming an entry of a message table.
#include <istream>
#include <ostream>
#include <string>
#include "google/protobuf/message.h"
namespace google { namespace protobuf { namespace io {
class ZeroCopyInputStream {
 public:
  virtual ~ZeroCopyInputStream() {}
  virtual std::istream* vp_is() = 0;
  // whether the (decoded) stream has more bytes; false at the end and after an error
  virtual bool vp_more() { std::istream* s = vp_is(); return s->vp_pos < s->vp_buf.size(); }
  virtual char vp_mark() { return 'R'; }
};
class ZeroCopyOutputStream {
 public:
  virtual ~ZeroCopyOutputStream() {}
  virtual void vp_put(char mark, int idx) = 0;
  virtual char vp_mark() { return 'R'; }
};
} } }
#endif
