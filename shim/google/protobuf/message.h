#ifndef VP_PB_MESSAGE
#define VP_PB_MESSAGE
#include <cassert>
#include <cstdint>
#include <string>
#include <vector>
namespace google {
namespace protobuf {
using int32 = int32_t; using int64 = int64_t; using uint32 = uint32_t; using uint64 = uint64_t;
inline size_t VpVar(uint64_t v) { size_t n = 1; while (v >= 0x80) { v >>= 7; ++n; } return n; }
inline size_t VpLen(size_t n) { return VpVar(n) + n; }
inline uint64_t VpZig(int64_t v) { return (static_cast<uint64_t>(v) << 1) ^ static_cast<uint64_t>(v >> 63); }
class MessageLite {};
class Message : public MessageLite {};
template <typename T> class RepeatedField {
 public:
  using value_type = T;
  using iterator = T*;
  using const_iterator = const T*;
  using reference = T&;
  using const_reference = const T&;
  using size_type = int;
  using difference_type = std::ptrdiff_t;
  RepeatedField() {}
  template <typename It> RepeatedField(It a, It b) : v_(a, b) {}
  int size() const { return static_cast<int>(v_.size()); }
  bool empty() const { return v_.empty(); }
  void Clear() { v_.clear(); }
  const T& Get(int i) const { assert(i >= 0 && i < size()); return v_[i]; }
  T* Mutable(int i) { assert(i >= 0 && i < size()); return &v_[i]; }
  void Set(int i, const T& x) { *Mutable(i) = x; }
  const T& operator[](int i) const { return Get(i); }
  T& operator[](int i) { return *Mutable(i); }
  const T& at(int i) const { return Get(i); }
  T* Add() { v_.emplace_back(); return &v_.back(); }
  void Add(const T& x) { v_.push_back(x); }
  template <typename It> void Add(It a, It b) { for (; a != b; ++a) v_.push_back(*a); }
  void Reserve(int n) { v_.reserve(n); }
  void RemoveLast() { assert(!v_.empty()); v_.pop_back(); }
  void Resize(int n, const T& x) { v_.resize(n, x); }
  void Truncate(int n) { v_.resize(n); }
  void MergeFrom(const RepeatedField& o) { for (int i = 0, n = o.size(); i < n; ++i) v_.push_back(o.v_[i]); }
  void CopyFrom(const RepeatedField& o) { if (&o != this) v_ = o.v_; }
  void Swap(RepeatedField* o) { v_.swap(o->v_); }
  const T* begin() const { return v_.data(); }
  const T* end() const { return v_.data() + v_.size(); }
  T* begin() { return v_.data(); }
  T* end() { return v_.data() + v_.size(); }
  const T* cbegin() const { return v_.data(); }
  const T* cend() const { return v_.data() + v_.size(); }
  const T* data() const { return v_.data(); }
 private:
  std::vector<T> v_;
};
template <typename T> class RepeatedPtrField : public RepeatedField<T> { using RepeatedField<T>::RepeatedField; };
inline void ShutdownProtobufLibrary() {}
}  // namespace protobuf
}  // namespace google
#define GOOGLE_PROTOBUF_VERIFY_VERSION do {} while (false)
#endif
