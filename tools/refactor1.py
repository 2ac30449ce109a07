"""refactor1.py TREE: applies behaviour-preserving rewrites to a scratch copy of /repo (development aid: the checks have to stay quiet on it)."""
import sys
T = sys.argv[1] + '/mpact/sim/'
def ed(f, *prs):
    s = open(T + f).read()
    for o, n in prs:
        assert s.count(o) >= 1, (f, o)
        s = s.replace(o, n)
    open(T + f, 'w').write(s)
G = 'generic/'; D = 'decoder/'; M = 'util/memory/'
# C01-C03
ed(G + 'data_buffer.h', ('''    ABSL_HARDENING_ASSERT(values.size() * sizeof(ElementType) <= size_);
    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
    Submit(latency_);''', '''    Set<ElementType>(values);
    Submit(latency_);'''), ('''    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (auto const& value : values) {
      *data_ptr++ = value;
    }
''', '''    auto* data_ptr = reinterpret_cast<ElementType*>(raw_ptr_);
    for (size_t i = 0; i < values.size(); i++) {
      data_ptr[i] = values[i];
    }
'''), ('''    ABSL_HARDENING_ASSERT((index + 1) * sizeof(ElementType) <= size_);
    reinterpret_cast<ElementType*>(raw_ptr_)[index] = value;
    Submit(latency_);''', '''    Set<ElementType>(index, value);
    Submit();'''), ('''    auto ptr = free_list_.find(size);
    if (ptr != free_list_.end()) {
      ptr->second.push_back(db);
      return;
    }
    free_list_.emplace(size, std::vector<DataBuffer*>{db});''', '''    free_list_[size].push_back(db);'''), ('''  DataBuffer* db = nullptr;
  {
    if (size <= kShortSize) {
      auto& free_list = short_free_list_[size];
      if (!free_list.empty()) {
        db = free_list.back();
        free_list.pop_back();
        db->IncRef();
        db->ResetCounts();
        return db;
      }
    } else {
      auto ptr = free_list_.find(size);
      if (ptr != free_list_.end()) {
        if (!ptr->second.empty()) {
          db = ptr->second.back();
          ptr->second.pop_back();
          db->IncRef();
          db->ResetCounts();
          return db;
        }
      }
    }
  }

  db = new DataBuffer(size);''', '''  std::vector<DataBuffer*>* free_list = nullptr;
  if (size <= kShortSize) {
    free_list = &short_free_list_[size];
  } else {
    auto ptr = free_list_.find(size);
    if (ptr != free_list_.end()) free_list = &ptr->second;
  }
  if ((free_list != nullptr) && !free_list->empty()) {
    DataBuffer* recycled = free_list->back();
    free_list->pop_back();
    recycled->IncRef();
    recycled->ResetCounts();
    return recycled;
  }

  auto* db = new DataBuffer(size);'''))
# C04
ed(G + 'delay_line.h', ('''    current_ = (current_ + 1) & mask_;
    for (auto& rec : delay_line_[current_]) {
      rec.Apply();
      num_entries_--;
    }
    delay_line_[current_].clear();''', '''    current_ = Index(1);
    auto& records = delay_line_[current_];
    for (size_t i = 0; i < records.size(); ++i) {
      records[i].Apply();
      --num_entries_;
    }
    records.clear();'''), ('''    int pos = (latency + current_) & mask_;
    delay_line_[pos].emplace_back(args...);''', '''    delay_line_[Index(latency)].emplace_back(args...);'''), (''' private:
  // If the latency is >=''', ''' private:
  // The position of the records that are due in 'latency' cycles.
  int Index(int latency) const { return (latency + current_) & mask_; }
  // If the latency is >='''), ('''      if (!delay_line_[index].empty()) {
        delay_line_[prev_size + index] = delay_line_[index];
        delay_line_[index].clear();
      }''', '''      if (delay_line_[index].empty()) continue;
      delay_line_[prev_size + index] = delay_line_[index];
      delay_line_[index].clear();'''))
# C05
ed(D + 'extract.cc', ('''  while (value != 0) {
    if (value & 1) {
      mask <<= 1;
      mask |= 1;
      width += 1;
    } else {''', '''  for (; value != 0; value >>= 1) {
    if ((value & 1) != 0) {
      mask = (mask << 1) | 1;
      ++width;
    } else {'''), ('''    shift++;
    value >>= 1;
''', '''    ++shift;
'''), ('''  for (auto [mask, shift] : recipe) {
    extracted_value |= ((value >> shift) & mask);
  }''', '''  for (size_t i = 0; i < recipe.size(); i++) {
    const auto& step = recipe[i];
    extracted_value |= step.mask & (value >> step.shift);
  }'''))
# C06
ed(D + 'template_expression.cc', ('''  auto res = expr_->GetValue();
  return -expr_->GetValue();''', '''  return -expr_->GetValue();'''), ('''  for (auto* arg : *args_) {
    if (!arg->IsConstant()) return false;
  }
  return true;''', '''  bool constant = true;
  for (auto* arg : *args_) {
    constant = constant && arg->IsConstant();
  }
  return constant;'''), ('''  TemplateExpression* expr = (*args)[param_->position()];
  if (expr->IsConstant()) {
    auto result = expr->GetValue();
    if (result.ok()) return new TemplateConstant(result.value());

    return result.status();
  }
  // Evaluate without template arguments, as the argument expression is
  // defined in a different template instantiation context.
  return (*args)[param_->position()]->Evaluate(nullptr);''', '''  TemplateExpression* expr = args->at(param_->position());
  // Evaluate without template arguments, as the argument expression is
  // defined in a different template instantiation context.
  if (!expr->IsConstant()) return expr->Evaluate(nullptr);
  auto result = expr->GetValue();
  if (!result.ok()) return result.status();
  return new TemplateConstant(*result);'''), ('''    if (result.ok()) {
      return new TemplateConstant(result.value());
    } else {
      return result.status();
    }
  } else {
    return new TemplateNegate(expr.value());
  }''', '''    if (!result.ok()) return result.status();
    return new TemplateConstant(result.value());
  }
  return new TemplateNegate(expr.value());'''))
# C08
ed(G + 'status_register.h', ('''  T value = 0;
  for (int i = size_ - 1; i >= 0; i--) {
    value <<= 1;
    value |= (evaluate_[i]() ? 1 : 0);
  }
  return value;''', '''  T value = 0;
  int position = size_;
  while (position-- > 0) {
    value = static_cast<T>(value << 1);
    if (evaluate_[position]()) value |= 1;
  }
  return value;'''), ('''    value <<= 1;
    if (mask & (static_cast<T>(1) << i)) {
      value |= (evaluate_[i]() ? 1 : 0);
    }''', '''    const bool selected = (mask & (static_cast<T>(1) << i)) != 0;
    value <<= 1;
    if (selected && evaluate_[i]()) value |= 1;'''))
# C10
ed(G + 'program_error.cc', ('''  auto entry = program_error_map_.find(program_error_name);
  if (program_error_name == kInternalErrorName) {
    // Cannot mask internal error.
    Raise(kInternalErrorName, "Cannot mask internal simulator error");
    return;
  }
  if (program_error_map_.end() != entry) {
    int index = entry->second;
    program_error_info_[index].is_masked = true;
    auto set_entry = unmasked_program_errors_.find(index);

    // If it is in the unmasked errors, move it to the masked errors.
    if (unmasked_program_errors_.end() != set_entry) {
      unmasked_program_errors_.erase(index);
      masked_program_errors_.insert(index);
    }
  } else {
    Raise(kInternalErrorName, "Unknown program_error_name in Mask()");
  }''', '''  if (program_error_name == kInternalErrorName) {
    // Cannot mask internal error.
    Raise(kInternalErrorName, "Cannot mask internal simulator error");
    return;
  }
  auto entry = program_error_map_.find(program_error_name);
  if (program_error_map_.end() == entry) {
    Raise(kInternalErrorName, "Unknown program_error_name in Mask()");
    return;
  }
  int index = entry->second;
  program_error_info_[index].is_masked = true;
  // If it is in the unmasked errors, move it to the masked errors.
  if (unmasked_program_errors_.erase(index) > 0) {
    masked_program_errors_.insert(index);
  }'''), ('''    if (program_error_info_[index].is_masked) {
      masked_program_errors_.insert(index);
    } else {
      unmasked_program_errors_.insert(index);
    }
    program_error_info_[index].error_messages.push_back(
        std::string(error_message));''', '''    auto& info = program_error_info_[index];
    info.error_messages.emplace_back(error_message);
    auto& errors =
        info.is_masked ? masked_program_errors_ : unmasked_program_errors_;
    errors.insert(index);'''))
# C11
ed(D + 'format_name.cc', ('''  for (auto c : name) {
    if (c != '_') {
      if (capitalize) {
        c = toupper(c);
      }
      formatted.append(1, c);
    }
    capitalize = (c == '_');
  }''', '''  formatted.reserve(name.size());
  for (size_t i = 0; i < name.size(); i++) {
    char c = name[i];
    if (c == '_') {
      capitalize = true;
      continue;
    }
    formatted.push_back(capitalize ? toupper(c) : c);
    capitalize = false;
  }'''))
ed(D + 'resource.cc', ('''  auto iter = resource_map_.find(name);
  if (iter != resource_map_.end()) return iter->second;
  auto result = CreateResource(name);
  if (!result.ok()) return nullptr;
  return result.value();''', '''  auto iter = resource_map_.find(name);
  if (iter == resource_map_.end()) {
    auto result = CreateResource(name);
    return result.ok() ? result.value() : nullptr;
  }
  return iter->second;'''))
# C12
ed(G + 'register.cc', ('''  if (nullptr != data_buffer_) {
    data_buffer_->DecRef();
  }
  data_buffer_ = db;''', '''  auto* previous = data_buffer_;
  data_buffer_ = db;
  if (previous != nullptr) previous->DecRef();'''))
ed(G + 'register.h', ('''  DataBuffer* db = db_factory_->MakeCopyOf(register_->data_buffer());
  InitializeDataBuffer(db);
  return db;''', '''  const DataBuffer* current = register_->data_buffer();
  DataBuffer* copy = db_factory_->MakeCopyOf(current);
  InitializeDataBuffer(copy);
  return copy;'''))
# C13
ed(G + 'resource_bitset.cc', ('''  UInt accumulator = 0;
  for (int i = 0; i < min; ++i) accumulator |= bits_[i] & rhs.bits_[i];
  return accumulator != 0;''', '''  for (int i = 0; i < min; ++i) {
    if ((bits_[i] & rhs.bits_[i]) != 0) return true;
  }
  return false;'''), ('''  for (int i = 0; i < size_; ++i) {
    if (bits_[i] == 0) continue;
    // Count the trailing zeros (position increases right to left).
    int pos = i * kBitsInUint + absl::countr_zero(bits_[i]);
    if (position != nullptr) *position = pos;
    return true;
  }
  return false;''', '''  int i = 0;
  while (i < size_ && bits_[i] == 0) ++i;
  if (i >= size_) return false;
  // Count the trailing zeros (position increases right to left).
  if (position != nullptr) {
    *position = i * kBitsInUint + absl::countr_zero(bits_[i]);
  }
  return true;'''))
ed(G + 'simple_resource.cc', ('''  auto status = AddResource(resource);
  if (!status.ok()) return status;
  return absl::OkStatus();''', '''  return AddResource(resource);'''), ('''  auto result = AddResourceInternal(name);
  if (result.ok()) return absl::OkStatus();

  return result.status();''', '''  return AddResourceInternal(name).status();'''))
# C14
ed(G + 'fifo.cc', ('''  if (IsFull()) {
    if (nullptr != overflow_program_error_) {
      overflow_program_error_->Raise("Overflow in fifo " + name_);
    }
    return false;
  } else {
    db->IncRef();
    fifo_.push_back(db);
    return true;
  }''', '''  if (!IsFull()) {
    fifo_.push_back(db);
    db->IncRef();
    return true;
  }
  if (overflow_program_error_ != nullptr) {
    overflow_program_error_->Raise("Overflow in fifo " + name_);
  }
  return false;'''), ('''  fifo_.front()->DecRef();
  fifo_.pop_front();''', '''  DataBuffer* front = fifo_.front();
  fifo_.pop_front();
  front->DecRef();'''))
ed(G + 'token_fifo.cc', ('''  if (available_ > 0) {
    available_--;
    return absl::OkStatus();
  }
  return absl::UnavailableError("No token available");''', '''  if (available_ == 0) return absl::UnavailableError("No token available");
  --available_;
  return absl::OkStatus();'''))
# C15
ed(M + 'flat_demand_memory.cc', ('''  do {
    // Find the block, allocate a new one if needed.
    uint64_t block_address = address >> kAllocationShift;
    auto iter = block_map_.find(block_address);

    uint8_t* block;
    if (iter == block_map_.end()) {
      block = new uint8_t[allocation_byte_size_];
      block_map_.insert(std::make_pair(block_address, block));
      std::memset(block, fill_value_, allocation_byte_size_);
    } else {
      block = iter->second;
    }
''', '''  while (true) {
    // Find the block, allocate a new one if needed.
    uint8_t* block = GetBlock(address >> kAllocationShift);
'''), ('''    address += store_size_in_units;
  } while (size_in_units > 0);
}
''', '''    address += store_size_in_units;
    if (size_in_units <= 0) break;
  }
}

uint8_t* FlatDemandMemory::GetBlock(uint64_t block_address) {
  auto iter = block_map_.find(block_address);
  if (iter != block_map_.end()) return iter->second;
  auto* block = new uint8_t[allocation_byte_size_];
  std::memset(block, fill_value_, allocation_byte_size_);
  block_map_.insert(std::make_pair(block_address, block));
  return block;
}
'''))
ed(M + 'flat_demand_memory.h', ('''  uint64_t base_address_;
''', '''  // Returns the block with the given index, allocating it if needed.
  uint8_t* GetBlock(uint64_t block_address);
  uint64_t base_address_;
'''))
# C16
ed(M + 'tagged_flat_demand_memory.cc', ('''  for (unsigned i = 0; i < mask_span.size(); i++) {
    if (!mask_span[i]) continue;
    uint64_t address =
        scatter ? address_span[i]
                : address_span[0] + i * (el_size >> addressable_unit_shift_);
    ClearTags(address, el_size);
  }''', '''  const int stride = el_size >> addressable_unit_shift_;
  for (unsigned i = 0; i < mask_span.size(); i++) {
    if (mask_span[i]) {
      ClearTags(scatter ? address_span[i] : address_span[0] + i * stride,
                el_size);
    }
  }'''), ('''  uint64_t lo = address >> tag_address_shift_;
  uint64_t hi = (address + (size >> addressable_unit_shift_) - 1) >>
                tag_address_shift_;
  int num_tags = hi - lo + 1;''', '''  const uint64_t last = address + (size >> addressable_unit_shift_) - 1;
  const uint64_t lo = address >> tag_address_shift_;
  const int num_tags = (last >> tag_address_shift_) - lo + 1;'''))
# C17
for f in ('atomic_memory.cc', 'atomic_tagged_memory.cc'):
    ed(M + f, ('''    if (ll_tag_set_.find(tag) == ll_tag_set_.end()) {
      ll_tag_set_.insert(tag);
    }
''', '''    ll_tag_set_.insert(tag);
'''), ('''  switch (size) {
    case 1:
      return db1_;
    case 2:
      return db2_;
    case 4:
      return db4_;
    case 8:
      return db8_;
    default:
      return nullptr;
  }''', '''  if (size == 1) return db1_;
  if (size == 2) return db2_;
  if (size == 4) return db4_;
  if (size == 8) return db8_;
  return nullptr;'''))
# C18
ed(M + 'memory_watcher.cc', ('''    while (first_match != last) {
      first_match->second(address, el_size);
      first_match++;
    }''', '''    for (auto iter = first_match; iter != last; ++iter) {
      iter->second(address, el_size);
    }''') if False else ('''    while (first_match != last) {
      first_match->second(address, db->size<uint8_t>());
      first_match++;
    }''', '''    for (auto iter = first_match; iter != last; ++iter) {
      iter->second(address, db->size<uint8_t>());
    }'''))
# C19
ed(M + 'single_initiator_router.cc', ('''  if (atomic_it != atomic_targets_.end()) {
    auto& range = atomic_it->first;
    if ((range.base <= address) && (range.top >= address + size - 1)) {
      return atomic_it->second->PerformMemoryOp(address, op, db, inst, context);
    }
  }
  // Only use default if there was no match.
  if ((atomic_it == atomic_targets_.end()) &&
      (default_atomic_target_ != nullptr)) {
    return default_atomic_target_->PerformMemoryOp(address, op, db, inst,
                                                   context);
  }''', '''  if (atomic_it == atomic_targets_.end()) {
    // Only use default if there was no match.
    if (default_atomic_target_ != nullptr) {
      return default_atomic_target_->PerformMemoryOp(address, op, db, inst,
                                                     context);
    }
  } else if ((atomic_it->first.base <= address) &&
             (atomic_it->first.top >= address + size - 1)) {
    return atomic_it->second->PerformMemoryOp(address, op, db, inst, context);
  }'''), ('''  int size;
  // If db is null, then this is a tag load. The size for routing purposes is
  // the size of tags * 8.
  if (db == nullptr) {
    size = tags->size<uint8_t>() << 3;
  } else {
    size = db->size<uint8_t>();
  }''', '''  // If db is null, then this is a tag load. The size for routing purposes is
  // the size of tags * 8.
  const int size =
      (db != nullptr) ? db->size<uint8_t>() : 8 * tags->size<uint8_t>();'''))
# C20
ed(G + 'complex_resource.cc', ('''  int min = std::min(bit_span.length(), array_size_);
  for (int i = 0; i < min; i++) {
    if (bit_span[i] & bit_array_[i]) return false;
  }
  return true;''', '''  uint64_t overlap = 0;
  for (size_t i = 0; i < bit_span.length() && i < array_size_; i++) {
    overlap |= bit_span[i] & bit_array_[i];
  }
  return overlap == 0;'''))
# C21
ed(G + 'decode_cache.cc', ('''  uint64_t entry = (address & address_mask_) >> address_shift_;
  Instruction* inst = instruction_cache_[entry];
  if ((nullptr != inst) && (inst->address() == address)) {
    instruction_cache_[entry]->DecRef();
    instruction_cache_[entry] = nullptr;
  }''', '''  Instruction*& slot =
      instruction_cache_[(address & address_mask_) >> address_shift_];
  if ((slot == nullptr) || (slot->address() != address)) return;
  slot->DecRef();
  slot = nullptr;'''), ('''  if (nullptr == new_inst) {
    return nullptr;
  }

  if (nullptr != inst) {
    inst->DecRef();
  }

  instruction_cache_[indx] = new_inst;

  return new_inst;''', '''  if (nullptr != new_inst) {
    instruction_cache_[indx] = new_inst;
    if (nullptr != inst) inst->DecRef();
  }

  return new_inst;'''))
# C22
ed(G + 'instruction.cc', ('''  if (nullptr == inst) return;
  if (nullptr == next_) {
    inst->IncRef();
    next_ = inst;
  } else {
    next_->Append(inst);
  }''', '''  if (nullptr == inst) return;
  Instruction* last = this;
  while (last->next_ != nullptr) last = last->next_;
  inst->IncRef();
  last->next_ = inst;'''), ('''  for (auto* op : sources_) {
    delete op;
  }
  sources_.clear();
  for (auto* op : dests_) {
    delete op;
  }
  dests_.clear();''', '''  DeleteAll(&sources_);
  DeleteAll(&dests_);'''), ('''void Instruction::AppendChild(''', '''template <typename T>
static void DeleteAll(std::vector<T*>* items) {
  for (size_t i = 0; i < items->size(); i++) delete (*items)[i];
  items->clear();
}

void Instruction::AppendChild('''))
ed(G + 'instruction_helpers.h', ('''  for (int i = 0; i < size; i++) {
    Result lhs = generic::GetInstructionSource<Result>(instruction, 0, i);
    Result value = operation(lhs);
    db->Set<Result>(i, value);
  }''', '''  auto span = db->Get<Result>();
  for (int i = 0; i < size; i++) {
    span[i] =
        operation(generic::GetInstructionSource<Result>(instruction, 0, i));
  }'''))
