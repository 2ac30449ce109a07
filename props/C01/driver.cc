// C01 bounded supplement: random sequences of typed accesses against a byte-array reference model, through the public API only.
#include <cstring>
#include "vpd.h"
#include "mpact/sim/generic/data_buffer.h"
using namespace mpact::sim::generic;
using vpd::Rng;
struct Dest : public DataBufferDestination {
  DataBuffer* last = nullptr; int calls = 0;
  void SetDataBuffer(DataBuffer* db) override { last = db; calls++; }
};
template <class T> T val(Rng& r) { uint64_t x = r.corner(); T t; std::memcpy(&t, &x, sizeof(T)); return t; }
template <class T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> void op(Rng& r, DataBufferFactory& f, DataBuffer* db, std::vector<uint8_t>& ref, const char* tn) {
  int n = ref.size() / sizeof(T);
  VPD_CHECK(db->size<T>() == n, "size<", tn, "> is ", db->size<T>(), " expected ", n);
  int what = r.below(7);
  vpd::note(vpd::cat("op ", what, " type ", tn, " size ", ref.size()));
  if (what == 0 && n) { int i = r.below(n); T v = val<T>(r); db->Set<T>(i, v); std::memcpy(&ref[i * sizeof(T)], &v, sizeof(T)); }
  else if (what == 1 && n) { int i = r.below(n); T v; std::memcpy(&v, &ref[i * sizeof(T)], sizeof(T)); VPD_CHECK(same(db->Get<T>(i), v), "Get<", tn, ">(", i, ") differs"); }
  else if (what == 2 || what == 3) {
    int m = r.coin() ? n : r.below(n + 1);
    std::vector<T> v(m); for (auto& x : v) x = val<T>(r);
    Dest d; db->set_destination(&d); db->set_latency(0); db->IncRef();
    if (what == 2) { db->Set<T>(absl::Span<const T>(v)); VPD_CHECK(d.calls == 0, "Set submitted"); db->DecRef(); }
    else { db->SetSubmit<T>(absl::Span<const T>(v)); VPD_CHECK(d.calls == 1 && d.last == db, "SetSubmit did not deliver once"); }
    db->set_destination(nullptr);
    if (m) std::memcpy(ref.data(), v.data(), m * sizeof(T));
  } else if (what == 4 && n) {
    int i = r.below(n); T v = val<T>(r); Dest d; db->set_destination(&d); db->set_latency(0); db->IncRef();
    db->SetSubmit<T>(i, v); VPD_CHECK(d.calls == 1 && d.last == db, "SetSubmit did not deliver once"); db->set_destination(nullptr);
    std::memcpy(&ref[i * sizeof(T)], &v, sizeof(T));
  } else if (what == 5) {
    auto s = db->Get<T>(); VPD_CHECK((int)s.size() == n, "span length"); VPD_CHECK(n == 0 || std::memcmp(s.data(), ref.data(), n * sizeof(T)) == 0, "span contents");
    if (n && r.coin()) { int i = r.below(n); s[i] = val<T>(r); T v = s[i]; std::memcpy(&ref[i * sizeof(T)], &v, sizeof(T)); }
  } else if (what == 6) {
    std::vector<uint8_t> o(ref.size() + 8, 0xa5); db->CopyTo(o.data());
    VPD_CHECK(std::memcmp(o.data(), ref.data(), ref.size()) == 0, "CopyTo contents");
    for (int i = 0; i < 8; i++) VPD_CHECK(o[ref.size() + i] == 0xa5, "CopyTo wrote past the end");
    for (auto& x : o) x = r.next();
    if (r.coin()) db->CopyFrom(o.data());
    else { auto* q = f.Allocate(ref.size()); q->CopyFrom(o.data()); db->CopyFrom(q); std::vector<uint8_t> c(ref.size()); q->CopyTo(c.data()); VPD_CHECK(ref.empty() || std::memcmp(c.data(), o.data(), ref.size()) == 0, "CopyFrom changed its source"); q->DecRef(); }
    std::copy(o.begin(), o.begin() + ref.size(), ref.begin());
  }
  vpd::distinct_case(vpd::mix(vpd::mix(what, ref.size()), sizeof(T) * 16 + std::is_signed<T>::value));
}
int main(int argc, char** argv) {
  uint64_t seed = atoll(argv[1]); vpd::Clock clk(atof(argv[2]));
  int iters = std::string(argv[3]) == "quick" ? 3000 : 200000;
  Rng r(seed);
  for (int it = 0; it < iters && (it < 300 || clk.more()); it++) {
    DataBufferFactory f;
    int size = r.coin() ? r.below(40) : r.coin() ? r.below(300) : 4080 + r.below(60);
    auto* db = f.Allocate(size); db->set_destination(nullptr);
    std::vector<uint8_t> ref(size); for (auto& x : ref) x = r.next(); db->CopyFrom(ref.data());
    for (int k = 0; k < 12; k++) {
      vpd::cases++;
      switch (r.below(10)) {
        case 0: op<uint8_t>(r, f, db, ref, "u8"); break;
        case 1: op<uint16_t>(r, f, db, ref, "u16"); break;
        case 2: op<uint32_t>(r, f, db, ref, "u32"); break;
        case 3: op<uint64_t>(r, f, db, ref, "u64"); break;
        case 4: op<int8_t>(r, f, db, ref, "i8"); break;
        case 5: op<int16_t>(r, f, db, ref, "i16"); break;
        case 6: op<int32_t>(r, f, db, ref, "i32"); break;
        case 7: op<int64_t>(r, f, db, ref, "i64"); break;
        case 8: op<float>(r, f, db, ref, "f32"); break;
        case 9: op<double>(r, f, db, ref, "f64"); break;
      }
      std::vector<uint8_t> o(size); db->CopyTo(o.data());
      VPD_CHECK(o == ref, "buffer contents differ from the reference after the operation");
      VPD_CHECK(db->size<uint8_t>() == size && db->ref_count() == 1, "size or reference count changed");
    }
    if (it < 3) vpd::sample(vpd::cat("buffer of ", size, " bytes, 12 typed operations"));
    db->DecRef();
  }
  VPD_DONE();
}
