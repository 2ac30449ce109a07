from mkseed import mk
H = '#include <cstdio>\n#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)\n'
G = 'mpact/sim/generic/'; D = 'mpact/sim/decoder/'
DB = H + '#include "mpact/sim/generic/data_buffer.h"\nusing namespace mpact::sim::generic;\n'
mk('set_span_overrun', 'C01', [(G + 'data_buffer.h', '''    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    Submit(latency_);''', '''    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    // Clear the padding of a partially filled last word.
    auto* end_ptr = reinterpret_cast<uint8_t*>(data_ptr);
    while ((reinterpret_cast<uintptr_t>(end_ptr) & 0x3) != 0 &&
           end_ptr < reinterpret_cast<uint8_t*>(raw_ptr_) + size_) {
      *end_ptr++ = 0;
    }
    Submit(latency_);''')], 'a combined set-and-submit of a span of bytes or half-words that ends inside a 4-byte word of a longer buffer',
 'setting and submitting a short span of small elements also clears the bytes after it', DB + r'''
#include <vector>
int main() { DataBufferFactory f; auto* db = f.Allocate(8); db->set_destination(nullptr); db->set_latency(0); for (int i = 0; i < 8; i++) db->Set<uint8_t>(i, 0x11 * (i + 1));
 std::vector<uint8_t> v{1, 2, 3, 4, 5}; db->IncRef(); db->SetSubmit<uint8_t>(absl::MakeConstSpan(v)); for (int i = 0; i < 8; i++) CHECK(db->Get<uint8_t>(i) == (i < 5 ? i + 1 : 0x11 * (i + 1))); db->DecRef(); return 0; }
''', [G + 'data_buffer.cc'])
mk('recycle_rounds_up', 'C02', [(G + 'data_buffer.h', '''    auto ptr = free_list_.find(size);
    if (ptr != free_list_.end()) {
      ptr->second.push_back(db);
      return;
    }''', '''    // Reuse an existing list where there is one.
    auto ptr = free_list_.lower_bound(size);
    if (ptr != free_list_.end() && ptr->first - size < kShortSize / 2) {
      ptr->second.push_back(db);
      return;
    }''')], 'large buffers of two sizes less than half the small-size limit apart, the bigger one released first, the smaller one released next, and the bigger size allocated again',
 'a recycled buffer can be smaller than the size asked for', DB + r'''
int main() { DataBufferFactory f; int base = 9000; auto* a = f.Allocate(base + 8); auto* b = f.Allocate(base); a->DecRef(); b->DecRef(); auto* c = f.Allocate(base + 8); auto* d = f.Allocate(base + 8);
 CHECK(c->size<uint8_t>() == base + 8); CHECK(d->size<uint8_t>() == base + 8); c->DecRef(); d->DecRef(); return 0; }
''', [G + 'data_buffer.cc'])
mk('submit_delay_keeps_late_destination', 'C03', [(G + 'data_buffer.h', '''  DataBufferDelayRecord(const DataBufferDelayRecord& rhs) {
    dest_ = rhs.dest_;
    data_buffer_ = rhs.data_buffer_;
    data_buffer_->IncRef();
  }''', '''  DataBufferDelayRecord(const DataBufferDelayRecord& rhs) {
    dest_ = rhs.dest_;
    data_buffer_ = rhs.data_buffer_;
    if (data_buffer_->ref_count() < 2) data_buffer_->IncRef();
  }''')], 'two delayed submissions (two entries due in the same cycle, so that the list is copied when it grows) of a buffer that already has two references',
 'the record of a delayed buffer does not take its own reference when it is copied, so the buffer is released too early', DB + r'''
struct Dest : DataBufferDestination { int n = 0; void SetDataBuffer(DataBuffer*) override { n++; } };
int main() { DataBufferFactory f; DataBufferDelayLine dl(8); Dest d; DataBuffer* b[5]; for (auto& x : b) { x = f.Allocate(4); x->set_destination(&d); x->set_delay_line(&dl); x->set_latency(3); x->IncRef(); x->Submit(); }
 for (auto& x : b) CHECK(x->ref_count() == 2); dl.Advance(); dl.Advance(); CHECK(d.n == 0); dl.Advance(); CHECK(d.n == 5); for (auto& x : b) { CHECK(x->ref_count() == 1); x->DecRef(); } return 0; }
''', [G + 'data_buffer.cc'])
mk('delay_grow_moves_one_less', 'C04', [(G + 'delay_line.h', '    for (int index = 0; index < current_; ++index) {', '    for (int index = 0; index + 1 < current_; ++index) {')],
 'growth of the line while it is past its start and holds an entry in the slot just before the current position (an entry added with the longest latency the old line could take)',
 'an entry due after depth-1 cycles is not moved when the line grows: it is applied later than its latency', H + '#include "mpact/sim/generic/delay_line.h"\nusing namespace mpact::sim::generic;\n' + r'''
static int now, at1, at2; struct R { int* p; void Apply() { *p = now; } R(int* q) : p(q) {} };
int main() { DelayLine<R> dl(8); for (int i = 0; i < 3; i++) dl.Advance(); now = 0; at1 = at2 = -1; dl.Add(7, &at1); dl.Add(20, &at2); for (now = 1; now <= 40; now++) dl.Advance(); CHECK(at1 == 7); CHECK(at2 == 20); return 0; }
''')
mk('extract_mask_32', 'C05', [(D + 'extract.cc', '''  uint64_t mask = 0;
  int shift = 0;''', '''  uint32_t mask = 0;
  int shift = 0;'''), (D + 'extract.cc', '''    if (value & 1) {
      mask <<= 1;''', '''    if (value & 1) {
      if (width == 32) {
        // Split long runs so that a step never needs more than 32 bits.
        recipe.push_back(ExtractionStep{static_cast<uint64_t>(mask) << total_width,
                                        shift - width - total_width});
        total_width += width;
        mask = 0;
        width = 0;
      }
      mask <<= 1;'''), (D + 'extract.cc', '''      if (mask != 0) {
        recipe.push_back(
            ExtractionStep{mask << total_width, shift - width - total_width});
        total_width += width;''', '''      if (mask != 0) {
        recipe.push_back(
            ExtractionStep{mask << total_width, shift - width - total_width});
        total_width += width;'''), ], 'a mask in which a second run of ones puts a step\'s mask beyond bit 31',
 'selected bits that land above bit 31 of the result are lost', H + '#include "mpact/sim/decoder/extract.h"\nusing namespace mpact::sim::decoder::bin_format;\n' + r'''
int main() { uint64_t m = 0xffffff0000ffff00ull, x = 0x123456789abcdef0ull, want = 0; int k = 0; for (int i = 0; i < 64; i++) if ((m >> i) & 1) want |= ((x >> i) & 1) << k++; CHECK(ExtractValue(x, GetExtractionRecipe(m)) == want); return 0; }
''', [D + 'extract.cc'])
mk('function_error_leaks_value', 'C06', [(D + 'template_expression.cc', '''  if (IsConstant()) {
    return evaluator_(args_);
  }
  return absl::InternalError("Cannot evaluate function with unbound arguments");''', '''  if (args_->empty() || args_->front()->IsConstant()) {
    return evaluator_(args_);
  }
  return absl::InternalError("Cannot evaluate function with unbound arguments");''')], 'a function of two or more arguments whose first argument is constant and a later one is an unbound parameter',
 'asking for the value of a function with unbound arguments calls the evaluator instead of reporting an error', H + '#include "mpact/sim/decoder/template_expression.h"\n#include "mpact/sim/decoder/base_class.h"\nusing namespace mpact::sim::machine_description::instruction_set;\n' + r'''
int main() { bool called = false; auto* a = new TemplateInstantiationArgs; TemplateFormal p("p", 0); a->push_back(new TemplateConstant(3)); a->push_back(new TemplateParam(&p));
 TemplateFunction f([&](TemplateInstantiationArgs*) -> absl::StatusOr<TemplateValue> { called = true; return TemplateValue(1); }, a); auto v = f.GetValue(); CHECK(!v.ok()); CHECK(!called); return 0; }
''', [D + 'template_expression.cc'])
mk('status_masked_read_low_only', 'C08', [(G + 'status_register.h', '    if (mask & (static_cast<T>(1) << i)) {', '    if ((mask >> i) == 1 || mask & (static_cast<T>(1) << (i & 0x1f))) {')],
 'a masked read of a 64-bit status register with a mask that has bits in only one of its halves', 'a masked read returns bits the mask does not select (and evaluates their conditions)', H + '#include "mpact/sim/generic/status_register.h"\nusing namespace mpact::sim::generic;\n' + r'''
int main() { StatusRegister<uint64_t> s(nullptr, "s"); for (int i = 0; i < 64; i++) s.SetEvaluateFunction(i, [] { return true; }); CHECK(s.Read(0x1ull) == 1); CHECK(s.Read(0x8000000000000000ull) == 0x8000000000000000ull); CHECK(s.Read(0x55ull) == 0x55); return 0; }
''', [G + 'data_buffer.cc', G + 'state_item_base.cc'])
mk('half_subnormal_sign', 'C07', [(G + 'type_helpers.h', '''    sig &= FPTypeInfo<HalfFP>::kSigMask;
    exp = 1 - shift_count;''', '''    exp = 1 - shift_count;
    if (shift_count > 1) sig &= FPTypeInfo<HalfFP>::kSigMask;''')], 'converting a subnormal half of the largest binade (0x0200..0x03ff)', 'the largest subnormal halves convert to twice their value or a wrong exponent',
 H + '#include <cstring>\n#include "mpact/sim/generic/type_helpers.h"\nusing namespace mpact::sim::generic;\n' + r'''
int main() { for (uint32_t v = 1; v < 0x400; v++) { CHECK(ConvertHalfToSingle(HalfFP{(uint16_t)v}) == (float)v / 16777216.0f); CHECK(ConvertHalfToSingle(HalfFP{(uint16_t)(v | 0x8000)}) == -(float)v / 16777216.0f); } return 0; }
''')
mk('vector_immediate_wraps', 'C09', [(G + 'immediate_operand.h', '  int32_t AsInt32(int i) override { return static_cast<int32_t>(value_[i]); }', '''  int32_t AsInt32(int i) override {
    return static_cast<int32_t>(value_[static_cast<uint8_t>(i)]);
  }''')], 'a vector immediate of more than 256 elements read as a signed 32-bit value past element 255', 'element 256 and later read as element i mod 256', H + '#include "mpact/sim/generic/immediate_operand.h"\nusing namespace mpact::sim::generic;\n' + r'''
int main() { std::vector<int> v; for (int i = 0; i < 600; i++) v.push_back(i * 3); VectorImmediateOperand<int> o(v); for (int i = 0; i < 600; i++) CHECK(o.AsInt32(i) == i * 3); return 0; }
''')
