// C14: fifos deliver their entries in order, own exactly one reference per entry, and account for reservations and tokens.
#include "vp.h"
#include "mpact/sim/generic/data_buffer.cc"
#include "mpact/sim/generic/state_item_base.cc"
#include "mpact/sim/generic/program_error.cc"
#include "mpact/sim/generic/component.cc"
#include "mpact/sim/generic/fifo.cc"
#include "mpact/sim/generic/token_fifo.cc"
#include "mpact/sim/generic/fifo_with_notify.cc"
using namespace mpact::sim::generic;
static ArchState* State(DataBufferFactory* f, DataBufferDelayLine* dl) {
  ArchState* s = static_cast<ArchState*>(::operator new(sizeof(ArchState)));
  s->db_factory_ = f;
  s->data_buffer_delay_line_ = dl;
  return s;
}
static DataBuffer* AnyBuffer(DataBufferFactory* f, int n) {
  DataBuffer* b = new DataBuffer(n);
  b->db_factory_ = f;
  b->raw_ptr_ = vp_region<uint8_t>(n, "content");
  uint64_t d = vp_any<uint64_t>("dec"), r = vp_any<uint64_t>("refs");
  vp_assume(r >= 1 && r < (1ull << 30) && d < (1ull << 40));
  b->dec_count_ = d;
  b->inc_count_ = d + r;
  return b;
}
// raised errors are counted: the controller is asked for the messages of the error
struct Errors {
  ProgramErrorController* c;
  bool on;
  size_t over() { return on ? c->GetErrorMessages("over").size() : 0; }
  size_t under() { return on ? c->GetErrorMessages("under").size() : 0; }
};
static Errors MakeErrors(FifoBase* f) {
  Errors e;
  e.on = vp_any<bool>("errors");
  if (e.on) {
    e.c = new ProgramErrorController("errors");
    e.c->AddProgramErrorName("over");
    e.c->AddProgramErrorName("under");
    auto o = e.c->GetProgramError("over");
    auto u = e.c->GetProgramError("under");
    f->SetOverflowProgramError(&o);
    f->SetUnderflowProgramError(&u);
  }
  return e;
}
// a fifo in an arbitrary state: n entries, of which the first and an arbitrary other one (k) are looked at
struct Any {
  FifoBase* f;
  size_t n, k;
  unsigned cap, res;
  DataBuffer* first;
  DataBuffer* kth;
};
static Any Fill(FifoBase* f, DataBufferFactory* factory, bool nonempty) {
  Any a;
  a.f = f;
  a.n = vp_any<size_t>("n");
  a.k = vp_any<size_t>("k");
  a.cap = vp_any<unsigned>("capacity");
  a.res = vp_any<unsigned>("reserved");
  vp_assume(a.n < (1u << 30) && a.res < (1u << 30) && a.k < a.n + 1);
  if (nonempty) vp_assume(a.n >= 1);
  f->capacity_ = a.cap;
  f->reserved_ = a.res;
  f->fifo_.n = a.n;
  a.first = AnyBuffer(factory, 4);
  a.kth = a.k == 0 ? a.first : AnyBuffer(factory, 4);
  if (a.n > 0) f->fifo_.d[f->fifo_.h] = a.first;
  if (a.k > 0 && a.k < a.n) f->fifo_.d[f->fifo_.h + a.k] = a.kth;
  return a;
}
VP_HARNESS(create) {
  int cap = vp_any<int>("cap");
  vp_assume(cap >= 0);
  Fifo<uint32_t> f(nullptr, "f", cap);
  vp_assert(f.Capacity() == (unsigned)cap && f.Available() == 0 && f.Reserved() == 0, "a new fifo has its capacity and nothing else");
  vp_assert(f.size() == 4 && f.shape().size() == 1 && f.shape()[0] == 1, "the geometry of an entry");
  vp_assert(f.Front() == nullptr && f.IsEmpty() && f.IsFull() == (cap == 0) && !f.IsOverSubscribed(), "a new fifo is empty");
  VectorFifo<uint16_t, 6> v(nullptr, "v", cap);
  vp_assert(v.size() == 12 && v.shape()[0] == 6, "the geometry of a vector entry");
  MatrixFifo<uint64_t, 2, 3> m(nullptr, "m", cap);
  vp_assert(m.size() == 48 && m.shape().size() == 2 && m.shape()[0] == 2 && m.shape()[1] == 3, "the geometry of a matrix entry");
  vp_cover("post");
}
VP_HARNESS(queries) {
  DataBufferFactory factory;
  auto* f = new Fifo<uint32_t>(nullptr, "f", 1);
  Errors e = MakeErrors(f);
  Any a = Fill(f, &factory, false);
  vp_cover("pre");
  vp_assert(f->IsFull() == ((uint64_t)a.n + a.res >= a.cap), "full: entries and reservations use up the capacity");
  vp_assert(f->IsEmpty() == (a.n == 0 && a.res == 0), "empty: no entry and no reservation");
  vp_assert(f->IsOverSubscribed() == ((uint64_t)a.n + a.res > a.cap), "oversubscribed: more than the capacity");
  vp_assert(f->Available() == a.n && f->Reserved() == a.res && f->Capacity() == a.cap, "the numbers are shown as they are");
  vp_assert(e.over() == 0 && e.under() == 0, "asking raises nothing");
  DataBuffer* x = f->Front();
  vp_assert(x == (a.n > 0 ? a.first : nullptr), "the front is the oldest entry, or none");
  vp_assert(e.under() == (e.on && a.n == 0 ? 1u : 0u) && e.over() == 0, "asking an empty fifo for its front is an underflow");
  vp_assert(f->Available() == a.n, "looking does not remove");
  int r = vp_any<int>("r");
  vp_assume(r >= 0 && r < (1 << 30));
  f->Reserve(r);
  vp_assert(f->Reserved() == a.res + (unsigned)r && f->Available() == a.n && f->Capacity() == a.cap, "reserving adds to the reservations only");
  vp_cover("post");
}
VP_HARNESS(push) {
  DataBufferFactory factory;
  auto* f = new Fifo<uint32_t>(nullptr, "f", 1);
  Errors e = MakeErrors(f);
  Any a = Fill(f, &factory, false);
  DataBuffer* b = AnyBuffer(&factory, 4);
  uint64_t rb = b->ref_count(), rk = a.kth->ref_count();
  unsigned res = a.res > 0 ? a.res - 1 : 0;
  bool full = (uint64_t)a.n + res >= a.cap;
  vp_cover("pre");
  bool ok;
  if (vp_any<bool>("via destination")) { DataBufferDestination* d = f; d->SetDataBuffer(b); ok = !full; }
  else ok = f->Push(b);
  vp_assert(ok == !full, "a push succeeds exactly when there is room after using up one reservation");
  vp_assert(f->Reserved() == res, "a push uses up one reservation");
  vp_assert(f->Available() == a.n + (full ? 0 : 1), "one entry is added, or none");
  vp_assert(b->ref_count() == rb + (full ? 0 : 1), "one reference is taken for the entry");
  vp_assert(e.over() == (e.on && full ? 1u : 0u) && e.under() == 0, "an overflow is raised once, exactly when there is no room");
  if (!full) vp_assert(f->fifo_[a.n] == b, "the new entry is last");
  if (a.k < a.n) vp_assert(f->fifo_[a.k] == a.kth && a.kth->ref_count() == rk, "the others stay where they are");
  vp_assert(f->Front() == (a.n > 0 ? a.first : full ? nullptr : b), "the front is still the oldest");
  vp_assert(f->Capacity() == a.cap, "the capacity stays");
  vp_cover("post");
}
VP_HARNESS(pop) {
  DataBufferFactory factory;
  auto* f = new Fifo<uint32_t>(nullptr, "f", 1);
  Errors e = MakeErrors(f);
  Any a = Fill(f, &factory, false);
  uint64_t rf = a.first->ref_count(), rk = a.kth->ref_count();
  size_t freed = factory.short_free_list_[4].n;
  vp_cover("pre");
  f->Pop();
  vp_assert(f->Available() == (a.n > 0 ? a.n - 1 : 0), "one entry is removed, if there is one");
  vp_assert(f->Reserved() == a.res && f->Capacity() == a.cap, "reservations stay");
  vp_assert(e.under() == (e.on && a.n == 0 ? 1u : 0u) && e.over() == 0, "an underflow is raised exactly when there is none");
  if (a.n > 0) {
    if (rf > 1) vp_assert(a.first->ref_count() == rf - 1 && factory.short_free_list_[4].n == freed, "its reference is released");
    else vp_assert(factory.short_free_list_[4].n == freed + 1 && factory.short_free_list_[4].d[freed] == a.first, "an entry not referenced elsewhere is recycled");
    if (a.k > 0 && a.k < a.n) {
      vp_assert(f->fifo_[a.k - 1] == a.kth && a.kth->ref_count() == rk, "the others move up by one");
      if (a.k == 1) vp_assert(f->Front() == a.kth, "the next one is the front");
    }
  } else {
    vp_assert(a.first->ref_count() == rf, "no reference is released");
  }
  vp_cover("post");
}
template <int N> static void Destroy() {
  DataBufferFactory factory;
  auto* f = new Fifo<uint32_t>(nullptr, "f", N);
  DataBuffer* b[N];
  uint64_t r[N];
  for (int i = 0; i < N; i++) {
    b[i] = AnyBuffer(&factory, 4);
    vp_assume(b[i]->ref_count() > 1 && b[i]->ref_count() < 1000);
    r[i] = b[i]->ref_count();
    f->Push(b[i]);
  }
  f->Pop();
  f->Push(b[0]);
  for (int i = 0; i < N; i++) vp_assert(b[i]->ref_count() == r[i] + 1, "every entry is referenced once by the fifo");
  vp_cover("pre");
  delete f;
  for (int i = 0; i < N; i++) vp_assert(b[i]->ref_count() == r[i], "destroying a fifo releases every entry once");
  vp_cover("post");
}
VP_BOUNDED(destroy) { Destroy<3>(); }
// --- operands
template <class T, int N> static void Source() {
  using S = typename std::make_signed<T>::type;
  DataBufferFactory factory;
  auto* f = new VectorFifo<T, N>(nullptr, "f", 2);
  int i = vp_any<int>("i");
  vp_assume(i >= 0 && i < N);
  SourceOperandInterface* op = f->CreateSourceOperand();
  T v = 0;
  S s = 0;
  DataBuffer* b = AnyBuffer(&factory, N * sizeof(T));
  vp_cover("pre");
  for (int round = 0; round < 2; round++) {
    vp_assert(op->AsBool(i) == (v != 0), "as bool: nonzero");
    vp_assert(op->AsInt8(i) == (int8_t)s, "as int8");
    vp_assert(op->AsUint8(i) == (uint8_t)v, "as uint8");
    vp_assert(op->AsInt16(i) == (int16_t)s, "as int16: the low bits, or sign extended");
    vp_assert(op->AsUint16(i) == (uint16_t)v, "as uint16: the low bits, or zero extended");
    vp_assert(op->AsInt32(i) == (int32_t)s, "as int32: the low bits, or sign extended");
    vp_assert(op->AsUint32(i) == (uint32_t)v, "as uint32: the low bits, or zero extended");
    vp_assert(op->AsInt64(i) == (int64_t)s, "as int64: sign extended");
    vp_assert(op->AsUint64(i) == (uint64_t)v, "as uint64: zero extended");
    if (round == 0) {   // first an empty fifo (reads 0), then its front
      f->Push(b);
      f->Push(AnyBuffer(&factory, N * sizeof(T)));
      v = static_cast<T*>(b->raw_ptr_)[i];
      s = (S)v;
    }
  }
  vp_assert(op->shape().size() == 1 && op->shape()[0] == N, "the operand has the shape of an entry");
  vp_assert(std::any_cast<FifoBase*>(op->GetObject()) == f, "the operand names its fifo");
  vp_cover("post");
}
VP_HARNESS(source_u8) { Source<uint8_t, 9>(); }
VP_HARNESS(source_u16) { Source<uint16_t, 9>(); }
VP_HARNESS(source_u32) { Source<uint32_t, 9>(); }
VP_HARNESS(source_u64) { Source<uint64_t, 1>(); }
template <class T, int N> static void Destination() {
  DataBufferFactory factory;
  DataBufferDelayLine dl(8);
  ArchState* st = State(&factory, &dl);
  auto* f = new VectorFifo<T, N>(nullptr, "f", 4);
  f->arch_state_ = st;
  int lat = vp_any<int>("latency");
  DestinationOperandInterface* op = f->CreateDestinationOperand(lat);
  vp_assert(op->latency() == lat, "the latency of the operand");
  vp_assert(op->shape().size() == 1 && op->shape()[0] == N, "the operand has the shape of an entry");
  vp_assert(op->CopyDataBuffer() == nullptr, "there is no value to copy");
  vp_assert(std::any_cast<FifoBase*>(op->GetObject()) == f, "the operand names its fifo");
  vp_cover("pre");
  DataBuffer* b = op->AllocateDataBuffer();
  vp_assert(b->size<uint8_t>() == (int)(N * sizeof(T)) && b->ref_count() == 1, "a buffer of the size of an entry, with one reference");
  vp_assert(b->destination_ == f && b->latency() == lat && b->delay_line_ == &dl, "destined for the fifo, after the latency");
  DataBuffer* c = AnyBuffer(&factory, N * sizeof(T));
  uint64_t rc = c->ref_count();
  op->InitializeDataBuffer(c);
  vp_assert(c->destination_ == f && c->latency() == lat && c->delay_line_ == &dl && c->ref_count() == rc, "any buffer can be so destined");
  vp_cover("post");
}
VP_HARNESS(destination_u8) { Destination<uint8_t, 4>(); }
VP_HARNESS(destination_u32) { Destination<uint32_t, 1>(); }
VP_HARNESS(submit) {
  DataBufferFactory factory;
  DataBufferDelayLine dl(8);
  ArchState* st = State(&factory, &dl);
  auto* f = new Fifo<uint32_t>(nullptr, "f", 1);
  f->arch_state_ = st;
  DestinationOperandInterface* op = f->CreateDestinationOperand(0);
  DataBuffer* a = op->AllocateDataBuffer();
  DataBuffer* b = op->AllocateDataBuffer();
  vp_assert(a != b, "two buffers");
  a->Submit();
  vp_assert(f->Available() == 1 && f->Front() == a && a->ref_count() == 1, "a submitted buffer is an entry owned by the fifo alone");
  size_t freed = factory.short_free_list_[4].n;
  b->Submit();
  vp_assert(f->Available() == 1 && f->Front() == a, "a full fifo takes no more");
  vp_assert(factory.short_free_list_[4].n == freed + 1, "and the buffer is released");
  vp_cover("post");
}
// --- tokens shared between fifos
VP_HARNESS(token_store) {
  unsigned cap = vp_any<unsigned>("cap"), av = vp_any<unsigned>("available");
  vp_assume(av <= cap);
  FifoTokenStore s(cap);
  vp_assert(s.capacity() == cap && s.available() == cap, "a new store has all its tokens");
  s.available_ = av;
  if (vp_any<bool>("acquire")) {
    vp_assert(s.Acquire().ok() == (av > 0), "a token is handed out if there is one");
    vp_assert(s.available() == (av > 0 ? av - 1 : 0), "and is gone then");
  } else {
    vp_assert(s.Release().ok() == (av < cap), "a token is taken back unless all are there");
    vp_assert(s.available() == (av < cap ? av + 1 : cap), "never more than the capacity");
  }
  vp_assert(s.capacity() == cap, "the capacity stays");
  vp_cover("post");
}
VP_HARNESS(token_queries) {
  DataBufferFactory factory;
  FifoTokenStore* s = new FifoTokenStore(5);
  auto* f = new TokenFifo<uint32_t>(nullptr, "f", 1, s);
  Any a = Fill(f, &factory, false);
  unsigned av = vp_any<unsigned>("available");
  s->capacity_ = vp_any<unsigned>("tokens");
  s->available_ = av;
  vp_assume(av <= s->capacity_);
  vp_cover("pre");
  vp_assert(f->IsFull() == (a.res >= av), "full: the reservations use up the tokens");
  vp_assert(f->IsOverSubscribed() == (a.res > av), "oversubscribed: more reservations than tokens");
  vp_assert(f->IsEmpty() == (a.n == 0 && a.res == 0), "empty: no entry and no reservation");
  vp_assert(s->available() == av && f->Available() == a.n, "asking changes nothing");
  vp_cover("post");
}
VP_HARNESS(token_push) {
  DataBufferFactory factory;
  FifoTokenStore* s = new FifoTokenStore(5);
  auto* f = new TokenFifo<uint32_t>(nullptr, "f", 1, s);
  Errors e = MakeErrors(f);
  Any a = Fill(f, &factory, false);
  unsigned av = vp_any<unsigned>("available"), tk = vp_any<unsigned>("tokens");
  vp_assume(av <= tk);
  s->capacity_ = tk;
  s->available_ = av;
  DataBuffer* b = AnyBuffer(&factory, 4);
  uint64_t rb = b->ref_count();
  vp_cover("pre");
  FifoBase* base = f;
  bool ok = base->Push(b);
  unsigned left = a.res > 0 ? a.res - 1 : 0;
  vp_assert(ok == (left < av), "a push succeeds exactly when a token is left after the other reservations");
  vp_assert(f->Available() == a.n + (ok ? 1 : 0), "one entry is added exactly when the push succeeds");
  vp_assert(s->available() == av - (ok ? 1 : 0), "one token is taken exactly when the push succeeds");
  vp_assert(b->ref_count() == rb + (ok ? 1 : 0), "one reference is taken exactly when the push succeeds");
  vp_assert(e.over() == (e.on && !ok ? 1u : 0u) && e.under() == 0, "an overflow is raised once, exactly when it fails");
  if (ok) vp_assert(f->Reserved() == left && f->fifo_[a.n] == b, "the entry is last and uses up one reservation");
  vp_assert(s->capacity() == tk, "the number of tokens stays");
  vp_cover("post");
}
VP_HARNESS(token_pop) {
  DataBufferFactory factory;
  FifoTokenStore* s = new FifoTokenStore(5);
  auto* f = new TokenFifo<uint32_t>(nullptr, "f", 1, s);
  Errors e = MakeErrors(f);
  Any a = Fill(f, &factory, false);
  unsigned av = vp_any<unsigned>("available"), tk = vp_any<unsigned>("tokens");
  // every entry holds a token
  vp_assume(a.n <= tk && av <= tk - a.n);
  s->capacity_ = tk;
  s->available_ = av;
  uint64_t rf = a.first->ref_count();
  vp_assume(rf > 1);
  vp_cover("pre");
  FifoBase* base = f;
  base->Pop();
  vp_assert(f->Available() == (a.n > 0 ? a.n - 1 : 0), "one entry is removed, if there is one");
  vp_assert(s->available() == av + (a.n > 0 ? 1 : 0), "its token is given back, and no token else");
  vp_assert(a.first->ref_count() == rf - (a.n > 0 ? 1 : 0), "its reference is released");
  vp_assert(e.under() == (e.on && a.n == 0 ? 1u : 0u) && e.over() == 0, "an underflow is raised exactly when there is none");
  vp_assert(f->Reserved() == a.res && s->capacity() == tk, "reservations stay");
  vp_cover("post");
}
// --- notifications
static int g_not_empty, g_empty;
static FifoWithNotifyBase* g_who;
static unsigned g_seen;
template <bool kPush> static void Notify() {
  DataBufferFactory factory;
  auto* f = new FifoWithNotify<uint32_t>(nullptr, "f", 1);
  Any a = Fill(f, &factory, false);
  vp_assume(a.first->ref_count() > 1);
  g_not_empty = g_empty = 0;
  g_who = nullptr;
  bool en = vp_any<bool>("on not empty"), ee = vp_any<bool>("on empty");
  if (en) f->SetOnNotEmpty([](FifoWithNotifyBase* w) { g_not_empty++; g_who = w; g_seen = w->Available(); });
  if (ee) f->SetOnEmpty([](FifoWithNotifyBase* w) { g_empty++; g_who = w; g_seen = w->Available(); });
  FifoBase* base = f;
  bool was = f->IsEmpty();
  vp_cover("pre");
  if (kPush) {
    DataBuffer* b = AnyBuffer(&factory, 4);
    uint64_t rb = b->ref_count();
    unsigned left = a.res > 0 ? a.res - 1 : 0;
    bool room = (uint64_t)a.n + left < a.cap;
    bool ok = base->Push(b);
    vp_assert(ok == room && f->Available() == a.n + (room ? 1 : 0) && b->ref_count() == rb + (room ? 1 : 0), "a push adds the entry if there is room");
    vp_assert(g_not_empty == (en && was && ok ? 1 : 0) && g_empty == 0, "the first entry of an empty fifo, and nothing else, is notified");
    if (g_not_empty) vp_assert(g_who == f && g_seen == 1, "with the fifo, which then has the entry");
  } else {
    base->Pop();
    vp_assert(f->Available() == (a.n > 0 ? a.n - 1 : 0), "a pop removes one entry");
    vp_assert(g_empty == (ee && !was && f->IsEmpty() ? 1 : 0) && g_not_empty == 0, "taking the last entry, and nothing else, is notified");
    if (g_empty) vp_assert(g_who == f && g_seen == 0, "with the fifo, which then is empty");
  }
  vp_cover("post");
}
VP_HARNESS(notify_push) { Notify<true>(); }
VP_HARNESS(notify_pop) { Notify<false>(); }
VP_HARNESS(notify_off) {   // a callback taken away is not called
  DataBufferFactory factory;
  auto* f = new FifoWithNotify<uint32_t>(nullptr, "f", 3);
  g_not_empty = g_empty = 0;
  f->SetOnNotEmpty([](FifoWithNotifyBase* w) { g_not_empty++; });
  f->SetOnEmpty([](FifoWithNotifyBase* w) { g_empty++; });
  FifoBase* base = f;
  DataBuffer* b = AnyBuffer(&factory, 4);
  base->Push(b);
  base->Pop();
  vp_assert(g_not_empty == 1 && g_empty == 1, "both callbacks are called");
  f->SetOnNotEmpty(nullptr);
  base->Push(b);
  base->Pop();
  vp_assert(g_not_empty == 1 && g_empty == 2, "one is called");
  f->SetOnEmpty(nullptr);
  base->Push(b);
  base->Pop();
  vp_assert(g_not_empty == 1 && g_empty == 2, "none is called");
  vp_cover("post");
}
