from mkseed import mk
H = '#include <cstdio>\n#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)\n'
G = 'mpact/sim/generic/'; D = 'mpact/sim/decoder/'; M = 'mpact/sim/util/memory/'
N = 'using namespace mpact::sim::generic;\n'; U = 'using namespace mpact::sim::util;\n'
ST = [G + x for x in ('data_buffer.cc', 'state_item_base.cc', 'register.cc', 'simple_resource.cc', 'resource_bitset.cc', 'arch_state.cc', 'component.cc', 'program_error.cc', 'fifo.cc')]
IN = [G + 'instruction.cc'] + ST
inc = lambda *a: ''.join('#include "%s"\n' % x for x in a)
mk('raise_skips_repeat', 'C10', [(G + 'program_error.cc', '''    program_error_info_[index].error_messages.push_back(
        std::string(error_message));
    return;''', '''    auto& messages = program_error_info_[index].error_messages;
    // Keep the list short when the same error is raised over and over.
    if (messages.empty() || (messages.back() != error_message)) {
      messages.push_back(std::string(error_message));
    }
    return;''')], 'an error raised twice in a row with the same message', 'the second of two equal messages is not kept', H + inc(G + 'program_error.h') + N + r'''
int main() { ProgramErrorController c("c"); CHECK(c.AddProgramErrorName("e")); auto e = c.GetProgramError("e"); e->Raise("x"); e->Raise("x"); e->Raise("y"); CHECK(c.GetErrorMessages("e").size() == 3); c.Clear("e"); CHECK(c.GetErrorMessages("e").empty()); return 0; }
''', [G + 'program_error.cc'])
mk('pascal_after_digit', 'C11', [(D + 'format_name.cc', "    capitalize = (c == '_');", "    // A leading digit does not use up the capital letter of the word.\n    capitalize = (c == '_') || (capitalize && isdigit(c));")],
 'a name in which a word starts with a digit followed by a letter', 'the letter after the leading digit of a word is capitalised', H + inc(D + 'format_name.h') + 'using namespace mpact::sim::machine_description::instruction_set;\n' + r'''
int main() { CHECK(ToPascalCase("c_2addi") == "C2addi"); CHECK(ToPascalCase("_x_y") == "XY"); CHECK(ToPascalCase("a_b2_c") == "AB2C"); return 0; }
''', [D + 'format_name.cc'])
mk('register_copy_first_row', 'C12', [(G + 'register.h', '''  DataBuffer* db = db_factory_->MakeCopyOf(register_->data_buffer());
  InitializeDataBuffer(db);''', '''  DataBuffer* db = db_factory_->Allocate(register_->size());
  // Copy the elements of the last (fastest) dimension, element by element.
  auto* reg_db = register_->data_buffer();
  auto elements = reg_db->template Get<T>();
  int count = register_->shape().empty() ? 1 : register_->shape().back();
  count = (count < 1) ? 1 : count;
  for (int i = 0; i < count; i++) db->template Set<T>(i, elements[i]);
  InitializeDataBuffer(db);''')], 'a copy of the value of a register of two dimensions made through its destination operand', 'only the first row of a matrix register is copied: the rows not changed by the instruction are lost', H + inc(G + 'arch_state.h', G + 'register.h') + '#include <memory>\n' + N + r'''
struct St : public ArchState { St() : ArchState("s") {} };
int main() { St st; auto* m = new MatrixRegister<uint32_t, 3, 4>(&st, "m"); for (int i = 0; i < 12; i++) m->data_buffer()->Set<uint32_t>(i, 100 + i);
 { auto* junk = st.db_factory()->Allocate(48); for (int i = 0; i < 12; i++) junk->Set<uint32_t>(i, 7); junk->DecRef(); }
 std::unique_ptr<DestinationOperandInterface> d(m->CreateDestinationOperand(0)); auto* db = d->CopyDataBuffer(); db->Set<uint32_t>(1, 5); db->Submit();
 for (int i = 0; i < 12; i++) CHECK(m->data_buffer()->Get<uint32_t>(i) == (i == 1 ? 5u : 100u + i)); delete m; return 0; }
''', ST, shim=True)
mk('intersection_low_half', 'C13', [(G + 'resource_bitset.cc', '''  UInt accumulator = 0;
  for (int i = 0; i < min; ++i) accumulator |= bits_[i] & rhs.bits_[i];''', '''  unsigned accumulator = 0;
  for (int i = 0; i < min; ++i) accumulator |= bits_[i] & rhs.bits_[i];''')], 'two sets whose only common members are in the upper half of a 64-bit word', 'resources 32..63 (96..127, ...) of a pool are reported free while they are reserved', H + inc(G + 'simple_resource.h') + N + r'''
int main() { SimpleResourcePool p("p", 100); for (int i = 0; i < 100; i++) CHECK(p.AddResource("r" + std::to_string(i)).ok()); for (int i = 0; i < 100; i++) { auto* r = p.GetResource("r" + std::to_string(i)); CHECK(r->IsFree()); r->Acquire(); CHECK(!r->IsFree()); r->Release(); CHECK(r->IsFree()); } return 0; }
''', [G + 'simple_resource.cc', G + 'resource_bitset.cc'], shim=True)
mk('oversubscribed_unsigned', 'C14', [(G + 'fifo.cc', '  return fifo_.size() + reserved_ > capacity_;', '  return fifo_.size() > capacity_ - reserved_;')], 'more slots reserved in a fifo than it has', 'a fifo with more reservations than its capacity is not reported over-subscribed', H + inc(G + 'arch_state.h', G + 'fifo.h') + N + r'''
struct St : public ArchState { St() : ArchState("s") {} };
int main() { St st; { Fifo<uint32_t> f(&st, "f", 3); f.Reserve(3); CHECK(!f.IsOverSubscribed()); f.Reserve(2); CHECK(f.IsOverSubscribed()); } return 0; }
''', ST, shim=True)
mk('block_address_32', 'C15', [(M + 'flat_demand_memory.cc', '    uint64_t block_address = address >> kAllocationShift;', '    unsigned block_address = address >> kAllocationShift;')], 'two addresses 2^46 units (a multiple of 2^32 blocks) apart', 'locations far apart in the address space share their storage', H + inc(G + 'data_buffer.h', M + 'flat_demand_memory.h') + N + U + r'''
int main() { DataBufferFactory f; FlatDemandMemory m; auto* a = f.Allocate(4); auto* b = f.Allocate(4); a->set_latency(0); b->set_latency(0); a->Set<uint32_t>(0, 0x11111111); b->Set<uint32_t>(0, 0x22222222);
 uint64_t base = 0x1230; for (int k = 20; k < 63; k++) { m.Store(base, a); m.Store(base + (1ull << k), b); auto* c = f.Allocate(4); c->set_latency(0); m.Load(base, c, nullptr, nullptr); CHECK(c->Get<uint32_t>(0) == 0x11111111); c->DecRef(); } return 0; }
''', [M + 'flat_demand_memory.cc'] + IN, shim=True)
mk('last_block_kept', 'C15', [(M + 'flat_demand_memory.cc', '''    auto iter = block_map_.find(block_address);

    uint8_t* block;
    if (iter == block_map_.end()) {''', '''    uint8_t* block;
    if ((last_block_ != nullptr) && (last_block_address_ == block_address)) {
      CopyToFrom(last_block_, address, data_ptr, size_in_units, is_load);
      return;
    }
    auto iter = block_map_.find(block_address);
    if (iter == block_map_.end()) {'''), (M + 'flat_demand_memory.cc', '    int block_unit_offset = (address & kAllocationMask);\n', '''    last_block_ = block;
    last_block_address_ = block_address;
    int block_unit_offset = (address & kAllocationMask);
'''), (M + 'flat_demand_memory.cc', 'void FlatDemandMemory::Clear() {\n', '''// Copies data to/from a block that is already known.
void FlatDemandMemory::CopyToFrom(uint8_t* block, uint64_t address,
                                  uint8_t* data_ptr, int size_in_units,
                                  bool is_load) {
  int offset = (address & kAllocationMask) << addressable_unit_shift_;
  int size = std::min(size_in_units << addressable_unit_shift_,
                      static_cast<int>(allocation_byte_size_) - offset);
  if (is_load) {
    std::memcpy(data_ptr, &block[offset], size);
  } else {
    std::memcpy(&block[offset], data_ptr, size);
  }
}

void FlatDemandMemory::Clear() {
'''), (M + 'flat_demand_memory.h', '''  uint64_t base_address_;
''', '''  void CopyToFrom(uint8_t* block, uint64_t address, uint8_t* data_ptr,
                  int size_in_units, bool is_load);
  uint8_t* last_block_ = nullptr;
  uint64_t last_block_address_ = 0;
  uint64_t base_address_;
''')], 'an access that crosses into the next block, made after another access to the block it starts in', 'the part of the access beyond the block used last is not transferred', H + inc(G + 'data_buffer.h', M + 'flat_demand_memory.h') + N + U + r'''
int main() { DataBufferFactory f; FlatDemandMemory m; auto* a = f.Allocate(8); a->set_latency(0); for (uint64_t p = 0x3ff0; p < 0x4008; p++) { m.Load(0x3000, a, nullptr, nullptr); a->Set<uint64_t>(0, 0x1122334455667788ull + p); m.Store(p, a); auto* c = f.Allocate(8); c->set_latency(0); m.Load(0x9000, c, nullptr, nullptr); m.Load(p, c, nullptr, nullptr); CHECK(c->Get<uint64_t>(0) == 0x1122334455667788ull + p); c->DecRef(); } return 0; }
''', [M + 'flat_demand_memory.cc'] + IN, shim=True)
mk('amax_by_difference', 'C17', [(M + 'atomic_memory.cc', '      db_res->Set<T>(0, std::max(db_lhs->Get<ST>(0), db_rhs->Get<ST>(0)));', '''      if (static_cast<ST>(db_lhs->Get<T>(0) - db_rhs->Get<T>(0)) > 0) {
        db_res->Set<T>(0, db_lhs->Get<T>(0));
      }''')], 'a signed atomic maximum of two values whose difference does not fit the type', 'the smaller value is stored', H + inc(G + 'data_buffer.h', M + 'flat_demand_memory.h', M + 'atomic_memory.h') + N + U + r'''
int main() { DataBufferFactory f; FlatDemandMemory m; AtomicMemory am(&m); auto* a = f.Allocate(4); a->set_latency(0); int v[] = {0, 1, -1, 0x7fffffff, -0x7fffffff - 1, 5, -5};
 for (int x : v) for (int y : v) { a->Set<int32_t>(0, x); m.Store(0x100, a); a->Set<int32_t>(0, y); CHECK(am.PerformMemoryOp(0x100, AtomicMemoryOpInterface::Operation::kAtomicMax, a, nullptr, nullptr).ok()); CHECK(a->Get<int32_t>(0) == x); m.Load(0x100, a, nullptr, nullptr); CHECK(a->Get<int32_t>(0) == (x > y ? x : y)); } return 0; }
''', [M + 'flat_demand_memory.cc', M + 'atomic_memory.cc'] + IN, shim=True)
mk('watch_first_range_only', 'C18', [(M + 'memory_watcher.cc', '''  memory_->Store(address, db);
  if (!st_watch_actions_.empty()) {
    auto [first_match, last] = st_watch_actions_.equal_range(
        AddressRange(address, address + db->size<uint8_t>() - 1));
    while (first_match != last) {
      first_match->second(address, db->size<uint8_t>());
      first_match++;
    }
  }''', '''  memory_->Store(address, db);
  auto match = st_watch_actions_.find(
      AddressRange(address, address + db->size<uint8_t>() - 1));
  if (match != st_watch_actions_.end()) {
    match->second(address, db->size<uint8_t>());
  }''')], 'a store that touches two watched ranges', 'only one of the callbacks is made', H + inc(G + 'data_buffer.h', M + 'flat_demand_memory.h', M + 'memory_watcher.h') + N + U + r'''
int main() { DataBufferFactory f; FlatDemandMemory m; MemoryWatcher w(&m); int n[3] = {}; for (int i = 0; i < 3; i++) CHECK(w.SetStoreWatchCallback(MemoryWatcher::AddressRange(0x100 + 4 * i, 0x101 + 4 * i), [&n, i](uint64_t, int) { n[i]++; }).ok()); auto* a = f.Allocate(8); a->Set<uint64_t>(0, 1); w.Store(0x100, a); CHECK(n[0] == 1 && n[1] == 1 && n[2] == 0); w.Store(0x101, a); CHECK(n[0] == 2 && n[1] == 2 && n[2] == 1); return 0; }
''', [M + 'flat_demand_memory.cc', M + 'memory_watcher.cc'] + IN, shim=True)
mk('route_tags_by_count', 'C19', [(M + 'single_initiator_router.cc', '    size = tags->size<uint8_t>() << 3;', '    size = tags->size<uint8_t>();')], 'a load of tags only whose granules reach past the end of a tagged target', 'the load is sent to a target that does not cover all of it', H + inc(G + 'data_buffer.h', M + 'tagged_flat_demand_memory.h', M + 'single_initiator_router.h') + N + U + r'''
int main() { DataBufferFactory f; TaggedFlatDemandMemory m(8); SingleInitiatorRouter r("r"); CHECK(r.AddTarget<TaggedMemoryInterface>(&m, 0x1000, 0x1fff).ok()); auto* d = f.Allocate(8); auto* t1 = f.Allocate(1); t1->Set<uint8_t>(0, 1); m.Store(0x1ff8, d, t1); m.Store(0x2000, d, t1);
 auto* t = f.Allocate(2); t->set_latency(0); t->Set<uint8_t>(0, 9); t->Set<uint8_t>(1, 9); static_cast<TaggedMemoryInterface&>(r).Load(0x1ff8, nullptr, t, nullptr, nullptr); CHECK(t->Get<uint8_t>(0) == 9 && t->Get<uint8_t>(1) == 9);
 t1->Set<uint8_t>(0, 9); t1->set_latency(0); static_cast<TaggedMemoryInterface&>(r).Load(0x1ff8, nullptr, t1, nullptr, nullptr); CHECK(t1->Get<uint8_t>(0) == 1); return 0; }
''', [M + 'flat_demand_memory.cc', M + 'tagged_flat_demand_memory.cc', M + 'single_initiator_router.cc'] + IN, shim=True)
mk('evict_before_decode', 'C21', [(G + 'decode_cache.cc', '''  Instruction* new_inst = decoder_->DecodeInstruction(address);

  if (nullptr == new_inst) {
    return nullptr;
  }

  if (nullptr != inst) {
    inst->DecRef();
  }

  instruction_cache_[indx] = new_inst;
''', '''  if (nullptr != inst) {
    inst->DecRef();
  }

  Instruction* new_inst = decoder_->DecodeInstruction(address);

  if (nullptr == new_inst) {
    return nullptr;
  }

  instruction_cache_[indx] = new_inst;
''')], 'an address that maps to an occupied entry and cannot be decoded, then the address that was there', 'the cache keeps and returns an instruction it has released', H + inc(G + 'decode_cache.h', G + 'decoder_interface.h', G + 'instruction.h') + N + r'''
static int live; struct I : public Instruction { explicit I(uint64_t a) : Instruction(a, nullptr) { live++; } ~I() override { live--; set_address(1); } };
struct Dec : public DecoderInterface { int n = 0; Instruction* DecodeInstruction(uint64_t a) override { n++; return a == 0x1100 ? nullptr : new I(a); } int GetNumOpcodes() const override { return 0; } const char* GetOpcodeName(int) const override { return ""; } };
int main() { Dec d; auto* c = DecodeCache::Create({64, 4}, &d); auto* i = c->GetDecodedInstruction(0x1000); CHECK(i && live == 1); CHECK(c->GetDecodedInstruction(0x1100) == nullptr); CHECK(live == 1); CHECK(c->GetDecodedInstruction(0x1000) == i); c->InvalidateAll(); CHECK(live == 0); delete c; return 0; }
''', [G + 'decode_cache.cc'] + IN, shim=True)
mk('append_child_of_child', 'C22', [(G + 'instruction.cc', '''  inst->parent_ = this;
  if (nullptr == child_) {
    inst->IncRef();
    child_ = inst;
  } else {
    child_->Append(inst);
  }''', '''  if (nullptr == child_) {
    inst->IncRef();
    inst->parent_ = this;
    child_ = inst;
  } else {
    child_->Append(inst);
  }''')], 'a second child of an instruction', 'only the first child knows its parent', H + inc(G + 'instruction.h') + N + r'''
int main() { auto* p = new Instruction(0, nullptr); Instruction* c[3]; for (auto& x : c) { x = new Instruction(0, nullptr); p->AppendChild(x); } for (auto& x : c) { CHECK(x->parent() == p); x->DecRef(); } p->DecRef(); return 0; }
''', IN, shim=True)
mk('vector_helper_first_shape', 'C22', [(G + 'instruction_helpers.h', '''    Argument1 lhs = generic::GetInstructionSource<Argument1>(instruction, 0, i);
    Argument2 rhs = generic::GetInstructionSource<Argument2>(instruction, 1, i);
    Result value = operation(lhs, rhs);
    db->Set<Result>(i, value);''', '''    Argument1 lhs = generic::GetInstructionSource<Argument1>(instruction, 0, i);
    // A scalar right hand side is applied to each element.
    Argument2 rhs = generic::GetInstructionSource<Argument2>(
        instruction, 1, instruction->Source(1)->shape()[0] == size ? i : 0);
    Result value = operation(lhs, rhs);
    db->Set<Result>(i, value);''')], 'a vector operation with operands of three types whose second source is longer than the destination', 'every element is computed from the first element of the second source', H + inc(G + 'arch_state.h', G + 'register.h', G + 'instruction.h', G + 'instruction_helpers.h') + N + r'''
struct St : public ArchState { St() : ArchState("s") {} };
int main() { St st; auto* a = new VectorRegister<uint32_t, 4>(&st, "a"); auto* b = new VectorRegister<uint16_t, 8>(&st, "b"); auto* d = new VectorRegister<uint64_t, 4>(&st, "d"); for (int i = 0; i < 4; i++) a->data_buffer()->Set<uint32_t>(i, 100 * i); for (int i = 0; i < 8; i++) b->data_buffer()->Set<uint16_t>(i, i + 1);
 auto* in = new Instruction(0, &st); in->AppendSource(a->CreateSourceOperand()); in->AppendSource(b->CreateSourceOperand()); in->AppendDestination(d->CreateDestinationOperand(0)); BinaryVectorOp<uint64_t, uint32_t, uint16_t>(in, [](uint32_t x, uint16_t y) -> uint64_t { return x + y; });
 for (int i = 0; i < 4; i++) CHECK(d->data_buffer()->Get<uint64_t>(i) == 100u * i + i + 1); in->DecRef(); delete a; delete b; delete d; return 0; }
''', IN, shim=True)
mk('advance_cycles_32', 'C20', [(G + 'complex_resource.cc', '  uint64_t cycles = now - last_cycle_;', '  unsigned cycles = now - last_cycle_;')], 'a resource that is not looked at for 2^32 cycles or more', 'reservations long past come back: the resource is reported busy although all its reservations are over', H + inc(G + 'arch_state.h', G + 'complex_resource.h') + N + r'''
struct St : public ArchState { St() : ArchState("s") {} void At(uint64_t c) { set_cycle(c); } };
int main() { St st; ComplexResource r(&st, "r", 64); uint64_t m[1] = {0xff00}; r.Acquire(m); CHECK(!r.IsFree(m)); st.At((1ull << 32) + 0); uint64_t all[1] = {~0ull}; CHECK(r.IsFree(all)); return 0; }
''', [G + 'complex_resource.cc'] + IN, shim=True)
mk('cleartags_by_size', 'C16', [(M + 'tagged_flat_demand_memory.cc', '  int num_tags = hi - lo + 1;', '  int num_tags = static_cast<uint8_t>(hi - lo) + 1;')], 'an untagged store over more than 256 granules', 'only some of the tags of a big untagged store are cleared', H + inc(G + 'data_buffer.h', M + 'tagged_flat_demand_memory.h') + N + U + r'''
int main() { DataBufferFactory f; TaggedFlatDemandMemory m(8); auto* d = f.Allocate(8); auto* t = f.Allocate(1); t->set_latency(0); d->set_latency(0); for (int i = 0; i < 300; i++) { t->Set<uint8_t>(0, 1); m.Store(0x1000 + 8 * i, d, t); } auto* big = f.Allocate(2400); m.Store(0x1000, big); for (int i = 0; i < 300; i++) { t->Set<uint8_t>(0, 9); m.Load(0x1000 + 8 * i, d, t, nullptr, nullptr); CHECK(t->Get<uint8_t>(0) == 0); } return 0; }
''', [M + 'flat_demand_memory.cc', M + 'tagged_flat_demand_memory.cc'] + IN, shim=True)
