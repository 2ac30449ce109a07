from mkseed import mk
H = '#include <cstdio>\n#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)\n'
G = 'mpact/sim/generic/'; D = 'mpact/sim/decoder/'; M = 'mpact/sim/util/memory/'
N = 'using namespace mpact::sim::generic;\n'; U = 'using namespace mpact::sim::util;\n'
ST = [G + x for x in ('data_buffer.cc', 'state_item_base.cc', 'register.cc', 'simple_resource.cc', 'resource_bitset.cc', 'arch_state.cc', 'component.cc', 'program_error.cc', 'fifo.cc')]
IN = [G + 'instruction.cc'] + ST
inc = lambda *a: ''.join('#include "%s"\n' % x for x in a)
MEM = r'''
#include <set>
struct Mem : public ActionPointMemoryInterface { std::set<uint64_t> bp; absl::Status WriteOriginalInstruction(uint64_t a) override { bp.erase(a); return absl::OkStatus(); } absl::Status WriteBreakpointInstruction(uint64_t a) override { bp.insert(a); return absl::OkStatus(); } };
'''
mk('action_id_from_size', 'C23', [(G + 'action_point_manager_base.cc', '  int id = ap->next_id++;', '  int id = static_cast<int>(ap->action_map.size());\n  ap->next_id = id + 1;')],
 'an action set after an earlier, but not the latest, action of the address was cleared', 'the new action gets the id of another one and is dropped', H + inc(G + 'action_point_manager_base.h') + N + MEM + r'''
int main() { Mem m; ActionPointManagerBase a(&m); int n[3] = {0, 0, 0}; auto f = [&](int i) { return a.SetAction(0x1000, [&n, i](uint64_t, int) { n[i]++; }).value(); }; int x = f(0), y = f(1); CHECK(x != y); CHECK(a.ClearAction(0x1000, x).ok()); int z = f(2); CHECK(z != y); a.PerformActions(0x1000); CHECK(n[0] == 0 && n[1] == 1 && n[2] == 1); return 0; }
''', [G + 'action_point_manager_base.cc'], shim=True)
mk('clear_breakpoints_clears_actions', 'C23', [(G + 'breakpoint_manager.cc', '''    (void)action_point_manager_->ClearAction(bp_ptr->address, bp_ptr->id);
    delete bp_ptr;
  }
  breakpoint_map_.clear();''', '''    // A disabled breakpoint has no instruction in memory to restore.
    if (action_point_manager_->IsActionPointActive(bp_ptr->address)) {
      (void)action_point_manager_->ClearAction(bp_ptr->address, bp_ptr->id);
    }
    delete bp_ptr;
  }
  breakpoint_map_.clear();''')],
 'all breakpoints cleared while one of them is disabled, then an action set at its address and all actions looked at', 'the action of a disabled breakpoint is left behind by ClearAllBreakpoints', H + inc(G + 'breakpoint_manager.h', G + 'action_point_manager_base.h') + N + MEM + r'''
int main() { Mem m; ActionPointManagerBase a(&m); int halts = 0; { BreakpointManager b(&a, [&halts]() { halts++; }); CHECK(b.SetBreakpoint(0x1000).ok()); CHECK(b.DisableBreakpoint(0x1000).ok()); b.ClearAllBreakpoints(); CHECK(!b.HasBreakpoint(0x1000));
 int left = 0; for (int id = 0; id < 4; id++) left += a.EnableAction(0x1000, id).ok(); CHECK(left == 0); CHECK(m.bp.empty()); } return 0; }
''', [G + 'action_point_manager_base.cc', G + 'breakpoint_manager.cc'], shim=True)
CS = [M + x for x in ('cache.cc', 'flat_demand_memory.cc', 'tagged_flat_demand_memory.cc')] + IN
CI = inc(G + 'data_buffer.h', G + 'counters.h', M + 'cache.h', M + 'flat_demand_memory.h') + N + U
CTR = r'''
static uint64_t ctr(Cache& c, const char* n) { return static_cast<SimpleCounter<uint64_t>*>(c.GetCounter(n))->GetValue(); }
'''
mk('write_hit_keeps_age', 'C24', [(M + 'cache.cc', '''        line.lru = cycle_counter_->GetValue();
        line.dirty |= !is_read;
        break;''', '''        // A line that is dirty already was marked as used when it was written.
        if (is_read || !line.dirty) line.lru = cycle_counter_->GetValue();
        line.dirty |= !is_read;
        break;''')], 'a set of several ways in which a dirty line is written again and then another block is brought in', 'a write to a dirty line does not count as its last use: it is replaced before lines used earlier', H + CI + CTR + r'''
int main() { DataBufferFactory f; FlatDemandMemory m(0); Cache c("c", &m); SimpleCounter<uint64_t> cy("cy", 0); CHECK(c.Configure("128,16,2,true", &cy).ok()); auto* b = f.Allocate(4); b->Set<uint32_t>(0, 1); b->set_latency(0);
 auto wr = [&](uint64_t a) { cy.Increment(1); c.Store(a, b); }; auto rd = [&](uint64_t a) { cy.Increment(1); c.Load(a, b, nullptr, nullptr); };
 wr(0x1000); wr(0x1000); rd(0x2000); wr(0x1000); uint64_t miss = ctr(c, "write_miss"); rd(0x3000); wr(0x1000); CHECK(ctr(c, "write_miss") == miss); b->DecRef(); return 0; }
''', CS, shim=True)
mk('cache_tag_32', 'C24', [(M + 'cache.h', '    uint64_t tag;\n', '    uint32_t tag;\n')], 'addresses from 2^32 times the block size on', 'the block number is cut to 32 bits in the line: blocks at high addresses never hit', H + CI + CTR + r'''
int main() { DataBufferFactory f; FlatDemandMemory m(0); Cache c("c", &m); SimpleCounter<uint64_t> cy("cy", 0); CHECK(c.Configure("128,16,2,true", &cy).ok()); auto* b = f.Allocate(4); b->set_latency(0);
 for (uint64_t a : {0x1000ull, 0x123456789a0ull}) { uint64_t h = ctr(c, "read_hit"); c.Load(a, b, nullptr, nullptr); cy.Increment(1); CHECK(ctr(c, "read_hit") == h); c.Load(a, b, nullptr, nullptr); CHECK(ctr(c, "read_hit") == h + 1); } b->DecRef(); return 0; }
''', CS, shim=True)
PI = inc(G + 'data_buffer.h', M + 'memory_use_profiler.h') + '#include <sstream>\n' + N + U
PS = [M + 'memory_use_profiler.cc'] + IN
mk('profile_segment_end', 'C25', [(M + 'memory_use_profiler.cc', '      (address > last_end_)) {', '      (address - last_start_ > kSegmentSize)) {')],
 'an access to the first word of a segment right after one to the segment before it', 'the first word of the next segment is recorded behind the end of the bits of the segment used last', H + PI + r'''
int main() { DataBufferFactory f; MemoryUseProfiler p; p.set_is_enabled(true); auto* b = f.Allocate(4); p.Store(0x20000, b); p.Store(0x40000, b); std::ostringstream os; p.WriteProfile(os); CHECK(os.str() == "0x20000,0x20000,4\n0x40000,0x40000,4\n"); b->DecRef(); return 0; }
''', PS, shim=True)
mk('profile_range_ends_with_byte', 'C25', [(M + 'memory_use_profiler.cc', '        int bit_indx = absl::countr_one(byte) - 1;', '        int bit_indx = byte == 0 ? 0 : absl::countr_one(byte) - 1;')],
 'a range of accesses that ends at a multiple of 32 bytes and is followed by at least 32 bytes not accessed', 'the range listed is one word too long', H + PI + r'''
int main() { DataBufferFactory f; MemoryUseProfiler p; p.set_is_enabled(true); auto* b = f.Allocate(8); for (uint64_t a = 0x1010; a < 0x1040; a += 8) p.Store(a, b); std::ostringstream os; p.WriteProfile(os); printf("%s", os.str().c_str()); CHECK(os.str() == "0x1010,0x103c,48\n"); b->DecRef(); return 0; }
''', PS, shim=True)
mk('profile_tags_only_size', 'C25', [(M + 'memory_use_profiler.cc', '''void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db,
                                    DataBuffer* tags) {
  if ((db != nullptr) && is_enabled_)
    tracker_.MarkUsed(address, db->size<uint8_t>());''', '''void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db,
                                    DataBuffer* tags) {
  if ((db != nullptr) && is_enabled_)
    tracker_.MarkUsed(address, db->size<uint32_t>());''')],
 'a tagged store of two words', 'a tagged store of eight bytes is recorded as one of two bytes', H + PI + r'''
int main() { DataBufferFactory f; TaggedMemoryUseProfiler p; p.set_is_enabled(true); auto* b = f.Allocate(8); auto* t = f.Allocate(1); p.Store(0x1010, b, t); std::ostringstream os; p.WriteProfile(os); CHECK(os.str() == "0x1010,0x1014,8\n"); b->DecRef(); t->DecRef(); return 0; }
''', PS, shim=True)
CM = [G + 'component.cc']
mk('config_set_error_has_value', 'C26', [(G + 'config.h', '''    if (!std::holds_alternative<T>(config_value)) {
      return absl::InvalidArgumentError("Invalid type in ConfigValue argument");
    }
    SetValue(std::get<T>(config_value));
    has_value_ = true;''', '''    has_value_ = true;
    if (!std::holds_alternative<T>(config_value)) {
      return absl::InvalidArgumentError("Invalid type in ConfigValue argument");
    }
    SetValue(std::get<T>(config_value));''')], 'a configuration entry that was not set yet is given a value of another type', 'the entry claims to have been set though the value was refused', H + inc(G + 'config.h') + N + r'''
int main() { Config<int64_t> c("c", 5); CHECK(!c.HasConfigValue()); CHECK(!c.SetConfigValue(ConfigValue(uint64_t{3})).ok()); CHECK(!c.HasConfigValue() && c.GetValue() == 5); return 0; }
''', CM, shim=True)
mk('import_stops_at_unknown_child', 'C26', [(G + 'component.cc', '    if (child == nullptr) continue;\n', '    if (child == nullptr) break;\n')], 'data of a child that does not exist before that of one that does', 'the children after one that is not there are not imported', H + inc(G + 'component.h', G + 'config.h') + N + r'''
int main() { Component a("t"), x("x", &a), b("t"), y("a", &b), x2("x", &b); Config<uint64_t> c("c", 1), d("c", 2); CHECK(x.AddConfig(&c).ok() && x2.AddConfig(&d).ok()); mpact::sim::proto::ComponentData p; CHECK(b.Export(&p).ok()); CHECK(a.Import(p).ok()); CHECK(c.GetValue() == 2); return 0; }
''', CM, shim=True)
mk('child_reparented_when_refused', 'C26', [(G + 'component.cc', '''  auto status = AddMapEntry(child.component_name(), &child, &child_map_);
  if (!status.ok()) return status;
  child.SetParent(this);
  return absl::OkStatus();''', '''  child.SetParent(this);
  return AddMapEntry(child.component_name(), &child, &child_map_);''')], 'adding a child under a name in use', 'the refused child names the component as its parent', H + inc(G + 'component.h') + N + r'''
int main() { Component p("p"), q("q"), a("a", &p), b("a", &q); CHECK(!p.AddChildComponent(b).ok()); CHECK(b.parent() == &q && p.GetChildComponent("a") == &a); return 0; }
''', CM, shim=True)

OI = inc(D + 'overlay.h', D + 'format.h', D + 'instruction_encoding.h', D + 'bin_encoding_info.h') + 'namespace bf = mpact::sim::decoder::bin_format; using bf::Format; using bf::Overlay; using bf::BitRange; using bf::BinaryNum; using bf::InstructionEncoding; using bf::ConstraintType;\n'
OS = [D + x + '.cc' for x in ('overlay', 'format', 'instruction_encoding', 'bin_encoding_info', 'instruction_group', 'encoding_group', 'bin_decoder', 'decoder_error_listener', 'format_name', 'extract')]
mk('overlay_constant_32', 'C27', [(D + 'overlay.cc', '      value |= bin_num.value << shift;', '      value |= static_cast<uint64_t>(static_cast<uint32_t>(bin_num.value) << shift);')],
 'an overlay of more than 32 bits with a constant among its upper bits', 'constants of the upper half of a wide overlay end up elsewhere or vanish', H + OI + r'''
int main() { Format f("f", 64, nullptr); CHECK(f.AddField("a", false, 40).ok() && f.AddField("b", false, 24).ok()); auto o = f.AddFieldOverlay("o", false, 42); CHECK(o.ok()); BinaryNum b; b.value = 2; b.width = 2; (*o)->AddBitConstant(b); CHECK((*o)->AddFieldReference("a").ok()); CHECK(f.ComputeAndCheckFormatWidth().ok()); auto v = (*o)->GetValue(0x1234567890ull << 24); CHECK(v.ok() && *v == ((2ull << 40) | 0x1234567890ull)); return 0; }
''', OS, shim=True)
mk('overlay_laid_out_again', 'C27', [(D + 'overlay.cc', '  if (high_low_computed_) return absl::OkStatus();', '  if (high_low_computed_ && component_vec_.empty()) return absl::OkStatus();')],
 'the layout of an overlay of fields is computed a second time', 'references to fields move up by the place of the field each time the layout is computed', H + OI + r'''
int main() { Format f("f", 32, nullptr); CHECK(f.AddField("a", false, 8).ok() && f.AddField("b", false, 24).ok()); auto o = f.AddFieldOverlay("o", false, 4); CHECK(o.ok()); CHECK((*o)->AddFieldReference("b", {BitRange{7, 4}}).ok()); CHECK(f.ComputeAndCheckFormatWidth().ok()); auto p = f.AddFieldOverlay("p", false, 8); CHECK(p.ok() && (*p)->AddFieldReference("a").ok()); CHECK(f.ComputeAndCheckFormatWidth().ok()); for (int i = 0; i < 2; i++) { auto v = (*p)->GetValue(0xab0000c0); CHECK(v.ok() && *v == 0xab); CHECK((*p)->ComputeHighLow().ok()); } return 0; }
''', OS, shim=True)
mk('extracted_mask_last', 'C27', [(D + 'instruction_encoding.cc', '    extracted_mask_ |= mask;', '    extracted_mask_ = mask;')],
 'two equality constraints on overlays with constant bits that refer to different bits', 'the combined mask lacks the bits of the first of two such constraints', H + OI + r'''
int main() { Format f("f", 16, nullptr); CHECK(f.AddField("a", false, 8).ok() && f.AddField("b", false, 8).ok()); BinaryNum z; z.value = 1; z.width = 1; for (const char* n : {"a", "b"}) { auto o = f.AddFieldOverlay(std::string("o") + n, false, 9); CHECK(o.ok()); (*o)->AddBitConstant(z); CHECK((*o)->AddFieldReference(n).ok()); } CHECK(f.ComputeAndCheckFormatWidth().ok()); InstructionEncoding e("e", &f, false); CHECK(e.AddEqualConstraint("oa", 0x103).ok() && e.AddEqualConstraint("ob", 0x104).ok()); CHECK(e.GetMask() == 0 && e.GetCombinedMask() == 0xffff); return 0; }
''', OS, shim=True)
mk('encoding_copy_masks', 'C27', [(D + 'instruction_encoding.cc', '      other_mask_(encoding.other_mask_),\n', '')], 'an encoding with a comparison is copied after one of its masks was read', 'the combined mask of the copy lacks the bits of the comparisons', H + OI + r'''
int main() { Format f("f", 16, nullptr); CHECK(f.AddField("a", false, 8).ok() && f.AddField("b", false, 8).ok()); CHECK(f.ComputeAndCheckFormatWidth().ok()); InstructionEncoding e("e", &f, false); CHECK(e.AddEqualConstraint("a", 3).ok() && e.AddOtherConstraint(ConstraintType::kLt, "b", 9).ok()); CHECK(e.GetMask() == 0xff00); InstructionEncoding c(e); CHECK(c.GetMask() == 0xff00 && c.GetValue() == 0x300 && c.GetCombinedMask() == 0xffff); return 0; }
''', OS, shim=True)
mk('format_too_wide', 'C27', [(D + 'format.cc', '    if (computed_width_ != declared_width_) {', '    if (computed_width_ < declared_width_) {')], 'a format whose fields are wider together than declared', 'the format is accepted and its last fields have negative bit positions', H + OI + r'''
int main() { Format f("f", 16, nullptr); CHECK(f.AddField("a", false, 8).ok() && f.AddField("b", false, 9).ok()); CHECK(!f.ComputeAndCheckFormatWidth().ok()); Format g("g", 16, nullptr); CHECK(g.AddField("a", false, 8).ok() && g.AddField("b", false, 8).ok()); CHECK(g.ComputeAndCheckFormatWidth().ok() && g.GetField("b")->low == 0 && g.GetField("a")->high == 15); return 0; }
''', OS, shim=True)
