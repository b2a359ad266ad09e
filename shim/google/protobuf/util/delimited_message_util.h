#ifndef VP_PB_DELIM
#define VP_PB_DELIM
#include <vector>
#include "google/protobuf/io/zero_copy_stream_impl.h"
#include "google/protobuf/io/gzip_stream.h"
namespace google { namespace protobuf { namespace util {
template <typename M> std::vector<M>& VpMessages() { static std::vector<M>* v = new std::vector<M>(); return *v; }
extern int vp_serialize_fails_at;   // ordinal of the message that cannot be serialized, -1 for none
extern int vp_serialize_count;
template <typename M>
bool ParseDelimitedFromZeroCopyStream(M* m, io::ZeroCopyInputStream* in, bool* clean_eof) {
  std::istream* s = in->vp_is();
  if (clean_eof) *clean_eof = false;
  if (!in->vp_more()) { if (clean_eof) *clean_eof = true; return false; }
  if (s->vp_pos + 1 >= s->vp_buf.size()) return false;
  const char mark = s->vp_buf[s->vp_pos];
  const int idx = s->vp_buf[s->vp_pos + 1] - '0';
  if (mark != in->vp_mark() || idx < 0 || idx >= static_cast<int>(VpMessages<M>().size())) return false;
  s->vp_pos += 2;
  m->MergeFrom(VpMessages<M>()[idx]);
  return true;
}
template <typename M>
bool SerializeDelimitedToZeroCopyStream(const M& m, io::ZeroCopyOutputStream* out) {
  if (vp_serialize_count++ == vp_serialize_fails_at) return false;
  VpMessages<M>().push_back(m);
  out->vp_put(out->vp_mark(), static_cast<int>(VpMessages<M>().size()) - 1);
  return true;
}
template <typename M> bool ParseDelimitedFromIstream(M* m, std::istream* s) { bool e; io::IstreamInputStream i(s); return ParseDelimitedFromZeroCopyStream(m, &i, &e); }
} } }
#endif
