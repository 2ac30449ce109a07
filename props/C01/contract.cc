// C01: typed element access to a data buffer.  Class invariant of DataBuffer used as precondition: raw_ptr_ points to size_ bytes.
// i, k and j below are arbitrary (skolem) indices, so every postcondition is a statement about all elements / all bytes.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
using namespace mpact::sim::generic;

namespace {
struct Buf {
  alignas(DataBuffer) unsigned char mem[sizeof(DataBuffer)];
  DataBuffer* db;
  uint8_t* raw;
  unsigned size;
};
// an arbitrary data buffer of arbitrary size and contents
inline void Make(Buf& b, const char* size_name, const char* raw_name) {
  b.size = vp_any<unsigned>(size_name);
  vp_assume(b.size <= 0x7fffffff);
  b.db = new (b.mem) DataBuffer(b.size);
  vp_assert(b.db->size_ == b.size, "a new buffer has the requested size");
  vp_assert(b.db->ref_count() == 1, "a new buffer has one reference");
  operator delete[](b.db->raw_ptr_);
  b.raw = vp_region<uint8_t>(b.size, raw_name);
  b.db->raw_ptr_ = b.raw;
  b.db->destination_ = nullptr;
}
struct Dest : public DataBufferDestination {
  DataBuffer* last = nullptr;
  int calls = 0;
  void SetDataBuffer(DataBuffer* db) override {
    last = db;
    calls++;
  }
};
template <class T>
T bits_of(const uint8_t* raw, uint64_t i) {
  T v;
  __builtin_memcpy(&v, raw + i * sizeof(T), sizeof(T));
  return v;
}
template <class T>
uint64_t as_bits(T v) {
  uint64_t r = 0;
  __builtin_memcpy(&r, &v, sizeof(T));
  return r;
}
template <class T>
T any_value(const char* n) {
  uint64_t b = __vp_any(n, sizeof(T) * 8);
  T v;
  __builtin_memcpy(&v, &b, sizeof(T));
  return v;
}
template <class T>
void SetGet() {
  Buf b;
  Make(b, "size", "raw");
  int i = vp_any<int>("i");
  vp_assume(i >= 0 && (uint64_t(i) + 1) * sizeof(T) <= b.size);
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < b.size);
  uint8_t oldk = b.raw[k];
  T v = any_value<T>("v");
  vp_cover("pre");
  b.db->Set<T>(i, v);
  vp_assert(as_bits(b.db->Get<T>(i)) == as_bits(v), "an element reads back the value stored");
  if (k / sizeof(T) == (uint64_t)i) {
    vp_assert(b.raw[k] == uint8_t(as_bits(v) >> (8 * (k % sizeof(T)))), "element bytes are laid out in host order at index*sizeof");
  } else {
    vp_assert(b.raw[k] == oldk, "no byte outside the element changes");
  }
  vp_assert(b.db->size<T>() == int(b.size / sizeof(T)), "size in elements");
  vp_assert(b.db->size_ == b.size && b.db->raw_ptr_ == b.raw && b.db->ref_count() == 1, "Set leaves the buffer object unchanged");
  vp_cover("post");
}
template <class T>
void GetPure() {
  Buf b;
  Make(b, "size", "raw");
  unsigned i = vp_any<unsigned>("i");
  vp_assume((uint64_t(i) + 1) * sizeof(T) <= b.size);
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < b.size);
  uint8_t oldk = b.raw[k];
  T v = b.db->Get<T>(i);
  vp_assert(as_bits(v) == as_bits(bits_of<T>(b.raw, i)), "Get returns the element's bytes");
  auto s = b.db->Get<T>();
  vp_assert(s.size() == b.size / sizeof(T), "span length is size/sizeof");
  vp_assert((const void*)s.data() == (const void*)b.raw, "span starts at the first byte");
  vp_assert(as_bits(s[i]) == as_bits(v), "span element equals Get element");
  vp_assert(b.raw[k] == oldk && b.db->ref_count() == 1 && b.db->size_ == b.size && b.db->raw_ptr_ == b.raw, "reading changes nothing");
  vp_cover("post");
}
template <class T, bool kSubmit>
void SetSpan() {
  Buf b;
  Make(b, "size", "raw");
  uint64_t n = vp_any<uint64_t>("n");
  vp_assume(n <= b.size / sizeof(T));
  T* src = vp_region<T>(n, "src");
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < b.size);
  uint64_t j = vp_any<uint64_t>("j");
  vp_assume(j < n);
  uint8_t oldk = b.raw[k];
  uint64_t oldj = as_bits(src[j]);
  Dest d;
  b.db->destination_ = &d;
  b.db->latency_ = 0;
  b.db->IncRef();
  vp_cover("pre");
  if (kSubmit) {
    b.db->SetSubmit<T>(absl::Span<const T>(src, n));
    vp_assert(d.calls == 1 && d.last == b.db, "SetSubmit delivers the buffer once");
    vp_assert(b.db->ref_count() == 1, "SetSubmit gives up one reference");
  } else {
    b.db->Set<T>(absl::Span<const T>(src, n));
    vp_assert(d.calls == 0 && b.db->ref_count() == 2, "Set does not submit");
  }
  vp_assert(as_bits(b.db->Get<T>(j)) == oldj, "element j holds the j-th span value");
  vp_assert(as_bits(src[j]) == oldj, "source span unchanged");
  vp_assert(k / sizeof(T) < n || b.raw[k] == oldk, "bytes beyond the span are unchanged");
  vp_assert(b.db->size_ == b.size && b.db->raw_ptr_ == b.raw, "buffer object unchanged");
  vp_cover("post");
}
template <class T>
void SetSubmitElt() {
  Buf b;
  Make(b, "size", "raw");
  int i = vp_any<int>("i");
  vp_assume(i >= 0 && (uint64_t(i) + 1) * sizeof(T) <= b.size);
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < b.size);
  uint8_t oldk = b.raw[k];
  T v = any_value<T>("v");
  Dest d;
  b.db->destination_ = &d;
  b.db->latency_ = 0;
  b.db->IncRef();
  b.db->SetSubmit<T>(i, v);
  vp_assert(d.calls == 1 && d.last == b.db, "SetSubmit delivers the buffer once");
  vp_assert(b.db->ref_count() == 1, "SetSubmit gives up one reference");
  vp_assert(as_bits(b.db->Get<T>(i)) == as_bits(v), "an element reads back the value submitted");
  vp_assert(k / sizeof(T) == (uint64_t)i || b.raw[k] == oldk, "no byte outside the element changes");
  vp_cover("post");
}
template <int N, class T>
void GetN() {
  Buf b;
  Make(b, "size", "raw");
  auto s = b.db->Get<N>();
  static_assert(sizeof(*s.data()) == N, "element size");
  vp_assert(s.size() == b.size / N, "span length is size/N");
  uint64_t j = vp_any<uint64_t>("j");
  vp_assume(j < b.size / N);
  vp_assert(as_bits(s[j]) == as_bits(bits_of<T>(b.raw, j)), "span element j is the N bytes at j*N");
  T v = any_value<T>("v");
  s[j] = v;
  vp_assert(as_bits(b.db->Get<T>(j)) == as_bits(v), "writing through the span writes the buffer");
  vp_cover("post");
}
}  // namespace

#define ALL(T, N)                                     \
  VP_HARNESS(set_get_##N) { SetGet<T>(); }            \
  VP_HARNESS(get_pure_##N) { GetPure<T>(); }          \
  VP_HARNESS(set_span_##N) { SetSpan<T, false>(); }   \
  VP_HARNESS(set_submit_span_##N) { SetSpan<T, true>(); } \
  VP_HARNESS(set_submit_##N) { SetSubmitElt<T>(); }
ALL(uint8_t, u8)
ALL(uint16_t, u16)
ALL(uint32_t, u32)
ALL(uint64_t, u64)
ALL(int8_t, i8)
ALL(int16_t, i16)
ALL(int32_t, i32)
ALL(int64_t, i64)
ALL(float, f32)
ALL(double, f64)
VP_HARNESS(getn_1) { GetN<1, uint8_t>(); }
VP_HARNESS(getn_2) { GetN<2, uint16_t>(); }
VP_HARNESS(getn_4) { GetN<4, uint32_t>(); }
VP_HARNESS(getn_8) { GetN<8, uint64_t>(); }

VP_HARNESS(copy_to) {
  Buf b;
  Make(b, "size", "raw");
  uint64_t m = vp_any<uint64_t>("m");
  vp_assume(m >= b.size && m <= 0x80000000ull);
  uint8_t* out = vp_region<uint8_t>(m, "out");
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < m);
  uint8_t oldk = out[k], srck = k < b.size ? b.raw[k] : 0;
  b.db->CopyTo(out);
  vp_assert(k >= b.size || out[k] == srck, "CopyTo copies every byte");
  vp_assert(k < b.size || out[k] == oldk, "CopyTo writes no byte beyond size");
  vp_assert(k >= b.size || b.raw[k] == srck, "CopyTo leaves the buffer unchanged");
  vp_cover("post");
}
VP_HARNESS(copy_from) {
  Buf b;
  Make(b, "size", "raw");
  uint64_t m = vp_any<uint64_t>("m");
  vp_assume(m >= b.size && m <= 0x80000000ull);
  uint8_t* in = vp_region<uint8_t>(m, "in");
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < m);
  uint8_t oldk = in[k];
  b.db->CopyFrom(in);
  vp_assert(k >= b.size || b.raw[k] == oldk, "CopyFrom copies every byte");
  vp_assert(in[k] == oldk, "CopyFrom leaves the source unchanged");
  vp_cover("post");
}
VP_HARNESS(copy_from_db) {
  Buf a, b;
  Make(a, "size", "raw");
  Make(b, "size2", "raw2");
  vp_assume(a.size == b.size);
  uint64_t k = vp_any<uint64_t>("k");
  vp_assume(k < a.size);
  uint8_t srck = b.raw[k];
  a.db->CopyFrom(b.db);
  vp_assert(a.raw[k] == srck && b.raw[k] == srck, "CopyFrom(buffer) copies every byte and leaves the source unchanged");
  vp_assert(a.db->raw_ptr_ != b.db->raw_ptr_, "the copies do not share storage");
  vp_cover("post");
}
VP_HARNESS(accessors) {
  Buf b;
  Make(b, "size", "raw");
  Dest d;
  int l = vp_any<int>("latency");
  b.db->set_latency(l);
  b.db->set_destination(&d);
  vp_assert(b.db->latency() == l, "latency reads back");
  vp_assert(b.db->raw_ptr() == b.raw, "raw_ptr is the storage");
  vp_assert(b.db->destination_ == &d, "destination is stored");
  vp_cover("post");
}
