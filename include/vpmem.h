// The contract of a memory, as proved for the flat memories (C15), seen at one arbitrary byte: byte j of unit q.
// A store over the unit replaces the byte; a load returns it, and anything in the other positions; a load with an
// instruction executes it at once or leaves it to be executed after the latency of the buffer.
#ifndef VPMEM_H_
#define VPMEM_H_
#include <cstring>
template <class Base> struct SpecMemory : public Base {
  template <class... A> explicit SpecMemory(A... a) : Base(a...) {}
  uint64_t q = vp_any<uint64_t>("watched unit");
  int shift = 0, j = 0;
  uint8_t val = vp_any<uint8_t>("watched byte");
  int loads = 0, stores = 0;
  int later = 0;   // instructions left to be executed after a latency
  Instruction* inst = nullptr;
  ReferenceCount* context = nullptr;
  int latency = -1;
  bool Covers(uint64_t a, uint64_t bytes) { return q >= a && q - a < (bytes >> shift); }
  void Watch(int s) {
    shift = s;
    j = s ? vp_any<int>("watched byte of unit") : 0;
    vp_assume(j >= 0 && j < (1 << s) && q < (1ull << 62));
  }
  void Complete(DataBuffer* db, Instruction* i, ReferenceCount* c) {
    if (i == nullptr) return;
    if (db->latency() == 0) { i->Execute(c); return; }
    later++;
    inst = i;
    context = c;
    latency = db->latency();
  }
  void LoadBytes(uint64_t a, uint8_t* p, uint64_t n) {
    uint8_t* any = vp_region<uint8_t>(n, "loaded");
    std::memcpy(p, any, n);
    if (Covers(a, n)) p[((q - a) << shift) + j] = val;
  }
  void Load(uint64_t a, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    vp_assert(db->size<uint8_t>() > 0, "an access has a size");
    loads++;
    LoadBytes(a, static_cast<uint8_t*>(db->raw_ptr_), db->size<uint8_t>());
    Complete(db, i, c);
  }
  void Store(uint64_t a, DataBuffer* db) override {
    vp_assert(db->size<uint8_t>() > 0, "an access has a size");
    stores++;
    if (Covers(a, db->size<uint8_t>())) val = static_cast<uint8_t*>(db->raw_ptr_)[((q - a) << shift) + j];
  }
  void Load(DataBuffer* ad, DataBuffer* mk, int el, DataBuffer* db, Instruction* i, ReferenceCount* c) override {
    loads++;
    int n = mk->size<uint8_t>();
    uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
    bool gather = ad->size<uint64_t>() > 1;
    for (int k = 0; k < n; k++)
      if (static_cast<bool*>(mk->raw_ptr_)[k]) LoadBytes(gather ? a[k] : a[0] + k * (el >> shift), static_cast<uint8_t*>(db->raw_ptr_) + k * el, el);
    Complete(db, i, c);
  }
  void Store(DataBuffer* ad, DataBuffer* mk, int el, DataBuffer* db) override {
    stores++;
    int n = mk->size<uint8_t>();
    uint64_t* a = static_cast<uint64_t*>(ad->raw_ptr_);
    bool gather = ad->size<uint64_t>() > 1;
    for (int k = 0; k < n; k++) {
      uint64_t at = gather ? a[k] : a[0] + k * (el >> shift);
      if (static_cast<bool*>(mk->raw_ptr_)[k] && Covers(at, el)) val = static_cast<uint8_t*>(db->raw_ptr_)[k * el + ((q - at) << shift) + j];
    }
  }
};
#endif
