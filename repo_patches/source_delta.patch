From cea7f1b18f42bbfcd76104e4a66cdc8223391584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:41 +0000
Subject: [PATCH 01/50] fix: make DataBuffer::Get<N>() instantiable (missing
 typename)

---
 mpact/sim/generic/data_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..16af9dc 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -196,7 +196,7 @@ class DataBuffer : public ReferenceCount {
   template <int N>
   inline absl::Span<typename internal::ElementTypeSelector<N>::type> Get()
       const {
-    return Get<internal::ElementTypeSelector<N>::type>();
+    return Get<typename internal::ElementTypeSelector<N>::type>();
   }
 
   // Return the data buffer as a span of elements of type ElementType.
-- 
2.43.0


From d43b09ee56fa5bdc4da0181ef16ebc5e7fa70d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:24 +0000
Subject: [PATCH 02/50] fix: FPTypeInfo<uint64_t/int64_t> describe doubles;
 sign bit of signed carriers

---
 mpact/sim/generic/type_helpers.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index bd5ec36..13b9c85 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -301,7 +301,7 @@ struct FPTypeInfo<int16_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1 << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 template <>
@@ -359,7 +359,7 @@ struct FPTypeInfo<int32_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 template <>
@@ -367,14 +367,14 @@ struct FPTypeInfo<uint64_t> {
   using T = uint64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -396,14 +396,14 @@ struct FPTypeInfo<int64_t> {
   using T = int64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -417,7 +417,7 @@ struct FPTypeInfo<int64_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 inline float ConvertHalfToSingle(HalfFP half) {
-- 
2.43.0


From 299744a08b7e3a86558630cac4be79a625c8f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 03/50] fix: DataBufferFactory::Clear must empty the free lists
 of large buffers

The loop copied each bucket, so the stored lists kept pointers to the deleted
buffers: the next Allocate of that size (or the destructor) used freed memory.
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From 9b93790c994eb296a0d8dd1ba5e065c51a029659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:02 +0000
Subject: [PATCH 04/50] fix: DelayLine::Resize must grow when the latency
 equals the current depth

For a latency equal to a power of two the new size was the latency itself, so
the line did not grow: the entries before current_ were moved out of bounds.
---
 mpact/sim/generic/delay_line.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..939a73b 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -118,17 +118,15 @@ class DelayLine : public DelayLineInterface {
   // resized so the latency is covered.
   void Resize(
       uint32_t min_size) /*ABSL_EXCLUSIVE_LOCKS_REQUIRED(delay_line_lock_)*/ {
-    // Compute a new size that's >= min_size and is a power of 2
-    // Given that the initial size is a power of two, multiplying the
-    // current size by two until it's greater or equal to min_size is
-    // sufficient.
+    // Compute a new size that's > min_size and is a power of 2, so that a
+    // latency of min_size fits.
     uint32_t prev_size = delay_line_.size();
 
     if (min_size < prev_size) {
       return;
     }
 
-    uint32_t new_size = absl::bit_ceil(min_size);
+    uint32_t new_size = absl::bit_ceil(min_size + 1);
 
     mask_ = new_size - 1;
     delay_line_.resize(new_size);
-- 
2.43.0


From 44d994252aaf94c5fb884636b52cec5d1670dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:39 +0000
Subject: [PATCH 05/50] fix: TemplateNegate::Evaluate reports the error of a
 failing operand

When the operand evaluates to a constant expression whose value cannot be
computed (e.g. a function whose evaluator fails), Evaluate returned the OK
status of the evaluation, which aborts in StatusOr, and leaked the operand.
---
 mpact/sim/decoder/template_expression.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 8d88e7c..3e94409 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -176,11 +176,11 @@ absl::StatusOr<TemplateExpression*> TemplateNegate::Evaluate(
   // If expression is constant then can return a constant node.
   if (expr.value()->IsConstant()) {
     auto result = -expr.value()->GetValue();
+    delete expr.value();
     if (result.ok()) {
-      delete expr.value();
       return new TemplateConstant(result.value());
     } else {
-      return expr.status();
+      return result.status();
     }
   } else {
     return new TemplateNegate(expr.value());
-- 
2.43.0


From f7930556b5335380c4ec8473fa9ce45d1db59f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:20 +0000
Subject: [PATCH 06/50] fix: writing a StatusRegister no longer releases the
 caller's reference

The submitter of a data buffer (DataBuffer::Submit or the delay line) releases
its own reference after SetDataBuffer; releasing it in the destination too
drops a reference that is not held (assertion failure, or a double free).
---
 mpact/sim/generic/status_register.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..bf7dac0 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -59,9 +59,9 @@ class StatusRegisterBase : public StateItemBase {
   T Read();
   T Read(T mask);
 
-  void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+  void SetDataBuffer(DataBuffer*) override {
+    // Read only state item, so ignore the value. The caller owns the reference
+    // and releases it.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From c77be62b837f089b5c3721d3031262e459625ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:56 +0000
Subject: [PATCH 07/50] fix: writing a register's current DataBuffer again must
 not recycle it

---
 mpact/sim/generic/register.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..7031b99 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,11 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Take the new reference first, as db may be the current data buffer.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From 0bcd05ea3bd85cdfb1dd785256bfe114e4f1ff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:51 +0000
Subject: [PATCH 08/50] fix: ResourceBitSet::Set wrote past the end when the
 position was just beyond the set

---
 mpact/sim/generic/resource_bitset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..aba21b5 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -58,7 +58,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
-- 
2.43.0


From cc01b8048905fabc6afd9c40f7c7e66fe0514fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:51 +0000
Subject: [PATCH 09/50] fix: ResourceBitSet::Resize to a smaller size must
 clear the bits beyond it, not others

---
 mpact/sim/generic/resource_bitset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index aba21b5..e6b98c9 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -127,8 +127,8 @@ void ResourceBitSet::Resize(int bit_size) {
   if (new_size <= size_) {
     int bit_offset = bit_size % kBitsInUint;
     UInt mask = ~(std::numeric_limits<UInt>::max() << bit_offset);
-    for (int i = new_size; i < size_; ++i) {
-      bits_[i] = bits_[i] & ~mask;
+    for (int i = bit_size / kBitsInUint; i < size_; ++i) {
+      bits_[i] = bits_[i] & mask;
       mask = 0;
     }
     return;
-- 
2.43.0


From d434c866275a93226632aa7f1fb96410b243e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:51 +0000
Subject: [PATCH 10/50] fix: ResourceBitSet self-assignment copied from freed
 storage

---
 mpact/sim/generic/resource_bitset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index e6b98c9..e91bd6b 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
-- 
2.43.0


From a6d0c804bf27500bc3d84c48270dc0bc854a8e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:11 +0000
Subject: [PATCH 11/50] fix: TokenFifo push refused by the fifo must not take a
 token and report success

---
 mpact/sim/generic/token_fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..6f86eed 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -67,7 +67,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
     }
     return false;
   }
-  FifoBase::Push(db);
+  // The push fails (and reports it) if the other reservations use up the tokens.
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
-- 
2.43.0


From efad95bd13b9751bf8d41ed56b1b513af8ee7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:11 +0000
Subject: [PATCH 12/50] fix: TokenFifo pop without entries must not release a
 token when slots are reserved

---
 mpact/sim/generic/token_fifo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 6f86eed..9f9aa95 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -82,7 +82,7 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From 8c9c81643a4e16e06799e28e1ef36e395a57a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:11 +0000
Subject: [PATCH 13/50] fix: FifoWithNotify notifies transitions only, not
 refused pushes or pops of an empty fifo

---
 mpact/sim/generic/fifo_with_notify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/fifo_with_notify.cc b/mpact/sim/generic/fifo_with_notify.cc
index a4e1db6..9958092 100644
--- a/mpact/sim/generic/fifo_with_notify.cc
+++ b/mpact/sim/generic/fifo_with_notify.cc
@@ -29,15 +29,16 @@ bool FifoWithNotifyBase::Push(DataBuffer* db) {
   if (!IsEmpty()) return FifoBase::Push(db);
 
   auto res = FifoBase::Push(db);
-  if (on_not_empty_) on_not_empty_(this);
+  if (res && on_not_empty_) on_not_empty_(this);
   return res;
 }
 
 // Call base class Pop. Only call the on_empty callback if the fifo is empty
 // after the pop.
 void FifoWithNotifyBase::Pop() {
+  bool was_empty = IsEmpty();
   FifoBase::Pop();
-  if (IsEmpty() && on_empty_) on_empty_(this);
+  if (!was_empty && IsEmpty() && on_empty_) on_empty_(this);
 }
 
 void FifoWithNotifyBase::SetOnNotEmpty(OnEventCallback callback) {
-- 
2.43.0


From c0f3335c07d0cbb793fd1b38667c1d5790e9a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:35 +0000
Subject: [PATCH 14/50] fix: unit stride accesses to memories with multi-byte
 units step in units, not bytes

---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 +++--
 mpact/sim/util/memory/flat_memory.h         | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..90b4cc7 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -97,7 +97,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address =
+        gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -160,7 +161,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..55fcdea 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -109,10 +109,12 @@ class FlatMemory : public MemoryInterface {
     auto masks = mask_db->Get<bool>();
     auto addresses = address_db->Get<uint64_t>();
     bool gather = addresses.size() > 1;
+    // Each element takes up at least one addressable unit.
+    uint64_t stride = (sizeof(T) >> shift_) > 0 ? sizeof(T) >> shift_ : 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry] : addresses[0] + entry * stride;
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
@@ -129,10 +131,12 @@ class FlatMemory : public MemoryInterface {
     auto masks = mask_db->Get<bool>();
     auto addresses = address_db->Get<uint64_t>();
     bool gather = addresses.size() > 1;
+    // Each element takes up at least one addressable unit.
+    uint64_t stride = (sizeof(T) >> shift_) > 0 ? sizeof(T) >> shift_ : 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry] : addresses[0] + entry * stride;
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-- 
2.43.0


From aa5373c1a5a0c41523e58c6d42654cc97fb809fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:35 +0000
Subject: [PATCH 15/50] fix: FlatMemory keeps the instruction of a delayed load
 alive until it is executed

---
 mpact/sim/util/memory/flat_memory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..f860268 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -33,14 +33,16 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   db->CopyFrom(ptr);
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction, and the context if it is non-null, before
+      // storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -72,14 +74,16 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction, and the context if it is non-null, before
+      // storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From a4a449f32b355883d4ce92a5153816b6f288cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:44 +0000
Subject: [PATCH 16/50] fix: FlatDemandMemory from a base address to the end of
 the address space serves its addresses

---
 mpact/sim/util/memory/flat_demand_memory.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 90b4cc7..9d578cb 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -40,6 +40,8 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
       (addressable_unit_size != 0) &&
       ((addressable_unit_size & (addressable_unit_size - 1)) == 0));
   addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
+  // The memory ends at the end of the address space.
+  if (max_address_ < base_address_) max_address_ = 0xffff'ffff'ffff'ffffULL;
 }
 
 // Delete all the allocated blocks.
-- 
2.43.0


From 0f296c39b44b11a619b7f065bf98196e000ea596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:04 +0000
Subject: [PATCH 17/50] fix: unit stride stores to tagged memory clear the tags
 of exactly the elements stored

---
 .../util/memory/tagged_flat_demand_memory.cc  | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..e1b1862 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -106,19 +106,21 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
-  // tagged store, we are not guaranteed to have proper alignment. Use the 64
-  // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
-    // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+  // tagged store, we are not guaranteed to have proper alignment. Clear the
+  // tags of each element stored. As for the data, this is a unit stride store
+  // if there is only one address.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
+    uint64_t address =
+        scatter ? address_span[i] : address_span[0] + i * el_size;
+    ClearTags(address, el_size);
   }
 }
 
-- 
2.43.0


From 9db6d83e8acc9e7100d3578cc249184c9af38f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:04 +0000
Subject: [PATCH 18/50] fix: tagged memory has a tag for partially covered
 granules at its ends

---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index e1b1862..e83f6d2 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -46,8 +46,12 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                       addressable_unit_size, fill);
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
-  tag_memory_ = new FlatDemandMemory(memory_size_in_units >> tag_granule_shift_,
-                                     base_address >> tag_granule_shift_, 1, 0);
+  // Include the granules that are only partially within the memory.
+  uint64_t lo = base_address >> tag_granule_shift_;
+  uint64_t last = base_address + memory_size_in_units - 1;
+  if (last < base_address) last = 0xffff'ffff'ffff'ffffULL;
+  tag_memory_ = new FlatDemandMemory((last >> tag_granule_shift_) - lo + 1, lo,
+                                     1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
-- 
2.43.0


From 1cc08383ab70ef68c9204c143df8ee971cbac003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:29 +0000
Subject: [PATCH 19/50] fix: tagged memory with multi-byte units keeps one tag
 per granule of bytes

---
 .../util/memory/tagged_flat_demand_memory.cc  | 21 ++++++++++++-------
 .../util/memory/tagged_flat_demand_memory.h   |  3 +++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index e83f6d2..a35e6e5 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -46,11 +46,14 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                       addressable_unit_size, fill);
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
+  // Addresses are in addressable units, the granule is in bytes.
+  addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
+  tag_address_shift_ = tag_granule_shift_ - addressable_unit_shift_;
   // Include the granules that are only partially within the memory.
-  uint64_t lo = base_address >> tag_granule_shift_;
+  uint64_t lo = base_address >> tag_address_shift_;
   uint64_t last = base_address + memory_size_in_units - 1;
   if (last < base_address) last = 0xffff'ffff'ffff'ffffULL;
-  tag_memory_ = new FlatDemandMemory((last >> tag_granule_shift_) - lo + 1, lo,
+  tag_memory_ = new FlatDemandMemory((last >> tag_address_shift_) - lo + 1, lo,
                                      1, 0);
   db_factory_ = new DataBufferFactory();
 }
@@ -75,7 +78,7 @@ void TaggedFlatDemandMemory::Load(uint64_t address, DataBuffer* db,
     data_memory_->Load(address, db, nullptr, nullptr);
   }
   int latency = (db != nullptr) ? db->latency() : tags->latency();
-  tag_memory_->Load(address >> tag_granule_shift_, tags, nullptr, nullptr);
+  tag_memory_->Load(address >> tag_address_shift_, tags, nullptr, nullptr);
   FinishLoad(latency, inst, context);
 }
 
@@ -84,7 +87,7 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db,
   if (!CheckRequest(address, db, tags)) return;
   // Store data and tags.
   data_memory_->Store(address, db);
-  tag_memory_->Store(address >> tag_granule_shift_, tags);
+  tag_memory_->Store(address >> tag_address_shift_, tags);
 }
 
 // Untagged load is passed directly to the data memory.
@@ -123,7 +126,8 @@ void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i]
+                : address_span[0] + i * (el_size >> addressable_unit_shift_);
     ClearTags(address, el_size);
   }
 }
@@ -132,7 +136,7 @@ bool TaggedFlatDemandMemory::CheckRequest(uint64_t address,
                                           const DataBuffer* db,
                                           const DataBuffer* tags) {
   uint64_t mask = (1ULL << tag_granule_shift_) - 1;
-  if (address & mask) {
+  if (address & ((1ULL << tag_address_shift_) - 1)) {
     LOG(ERROR) << absl::StrCat(
         "Tagged load to ", absl::Hex(address, absl::kZeroPad16),
         " not aligned to tag granule (", tag_granule_, ")");
@@ -179,8 +183,9 @@ void TaggedFlatDemandMemory::FinishLoad(int latency, Instruction* inst,
 
 // Clear the tags for the given range of memory.
 void TaggedFlatDemandMemory::ClearTags(uint64_t address, unsigned size) {
-  uint64_t lo = address >> tag_granule_shift_;
-  uint64_t hi = (address + size - 1) >> tag_granule_shift_;
+  uint64_t lo = address >> tag_address_shift_;
+  uint64_t hi = (address + (size >> addressable_unit_shift_) - 1) >>
+                tag_address_shift_;
   int num_tags = hi - lo + 1;
   auto* tag_db = db_factory_->Allocate(num_tags);
   std::memset(tag_db->raw_ptr(), 0, num_tags);
diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.h b/mpact/sim/util/memory/tagged_flat_demand_memory.h
index 1c7bbf1..da6c6a0 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.h
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.h
@@ -126,6 +126,9 @@ class TaggedFlatDemandMemory : public TaggedMemoryInterface {
 
   unsigned tag_granule_;
   unsigned tag_granule_shift_;
+  unsigned addressable_unit_shift_;
+  // Shift from an address (in addressable units) to the index of its granule.
+  unsigned tag_address_shift_;
   FlatDemandMemory* data_memory_ = nullptr;
   FlatDemandMemory* tag_memory_ = nullptr;
   generic::DataBufferFactory* db_factory_ = nullptr;
-- 
2.43.0


From ab7edbe17272fb00ede36e8532f4c40102baca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 20/50] fix: every store, vector store and atomic operation
 ends the load links of all memory it writes

---
 mpact/sim/util/memory/atomic_memory.cc        | 31 ++++++++++------
 mpact/sim/util/memory/atomic_memory.h         |  2 +
 mpact/sim/util/memory/atomic_tagged_memory.cc | 37 +++++++++++--------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 +
 4 files changed, 45 insertions(+), 27 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..55aa0a9 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,23 +132,22 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  ClearLinks(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of the elements that are stored. If there is only one
+  // address this is a unit stride store.
+  auto address_span = address_db->Get<uint64_t>();
+  auto mask_span = mask_db->Get<bool>();
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
+    ClearLinks(scatter ? address_span[i] : address_span[0] + i * el_size,
+               el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -209,6 +208,8 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // The location is written below.
+  ClearLinks(address, el_size);
   if (op == Operation::kAtomicSwap) {
     memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
@@ -261,6 +262,14 @@ void AtomicMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+void AtomicMemory::ClearLinks(uint64_t address, unsigned size) {
+  if (ll_tag_set_.empty() || (size == 0)) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..a013990 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -76,6 +76,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Remove the load linked tags of the given range of memory.
+  void ClearLinks(uint64_t address, unsigned size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   MemoryInterface* memory_ = nullptr;
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..be5f95f 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,33 +141,28 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  ClearLinks(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  ClearLinks(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of the elements that are stored. If there is only one
+  // address this is a unit stride store.
+  auto address_span = address_db->Get<uint64_t>();
+  auto mask_span = mask_db->Get<bool>();
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
+    ClearLinks(scatter ? address_span[i] : address_span[0] + i * el_size,
+               el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -229,6 +224,8 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // The location is written below.
+  ClearLinks(address, el_size);
   if (op == Operation::kAtomicSwap) {
     tagged_memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
@@ -281,6 +278,14 @@ void AtomicTaggedMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+void AtomicTaggedMemory::ClearLinks(uint64_t address, unsigned size) {
+  if (ll_tag_set_.empty() || (size == 0)) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicTaggedMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..088433d 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -82,6 +82,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Remove the load linked tags of the given range of memory.
+  void ClearLinks(uint64_t address, unsigned size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   TaggedMemoryInterface* tagged_memory_ = nullptr;
-- 
2.43.0


From 710eda80a91611411336efa73bacbc5b7341810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 21/50] fix: AtomicTaggedMemory passes the tags of a tagged
 store on

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index be5f95f..dd7b62b 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -142,7 +142,7 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
   ClearLinks(address, db->size<uint8_t>());
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From 460896a378868942f60fc6714052e71251be66c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:35 +0000
Subject: [PATCH 22/50] fix: atomic operations on an illegal element size are
 refused before memory is changed

---
 mpact/sim/util/memory/atomic_memory.cc        | 9 ++++-----
 mpact/sim/util/memory/atomic_tagged_memory.cc | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 55aa0a9..6b0413b 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -157,6 +157,10 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
                                            DataBuffer* db, Instruction* inst,
                                            ReferenceCount* context) {
   int el_size = db->size<uint8_t>();
+  auto* tmp_db = GetDb(el_size);
+  if (tmp_db == nullptr)
+    return absl::InternalError(
+        absl::StrCat("Illegal element size (", el_size, ")"));
   db->set_latency(0);
   // Load-linked.
   if (op == Operation::kLoadLinked) {
@@ -185,11 +189,6 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
 
   // Load the data from memory.
-  auto* tmp_db = GetDb(el_size);
-  if (tmp_db == nullptr)
-    return absl::InternalError(
-        absl::StrCat("Illegal element size (", el_size, ")"));
-
   memory_->Load(address, tmp_db, nullptr, nullptr);
 
   // Swap with store data - this way the data from the memory is in the right
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index dd7b62b..61fc046 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -173,6 +173,10 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
                                                  Instruction* inst,
                                                  ReferenceCount* context) {
   int el_size = db->size<uint8_t>();
+  auto* tmp_db = GetDb(el_size);
+  if (tmp_db == nullptr)
+    return absl::InternalError(
+        absl::StrCat("Illegal element size (", el_size, ")"));
   db->set_latency(0);
   // Load-linked.
   if (op == Operation::kLoadLinked) {
@@ -201,11 +205,6 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
 
   // Load the data from memory.
-  auto* tmp_db = GetDb(el_size);
-  if (tmp_db == nullptr)
-    return absl::InternalError(
-        absl::StrCat("Illegal element size (", el_size, ")"));
-
   tagged_memory_->Load(address, tmp_db, nullptr, nullptr);
 
   // Swap with store data - this way the data from the memory is in the right
-- 
2.43.0


From 299e285333588abe86261ef1413c02f7a9b1eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 23/50] fix: memory watchers handle unit stride vector accesses

---
 mpact/sim/util/memory/memory_watcher.cc        | 8 ++++++--
 mpact/sim/util/memory/tagged_memory_watcher.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..a176f07 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -114,7 +114,9 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is only one address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -150,7 +152,9 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is only one address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..6a11d02 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -115,7 +115,9 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is only one address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -166,7 +168,9 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is only one address this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From 24cf6fa13181b8d6ecb327e0e524fd644c581a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:38 +0000
Subject: [PATCH 24/50] fix: a load of tags only from untagged memory completes
 its instruction

---
 .../tagged_to_untagged_memory_transactor.cc   | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..c186f07 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,7 +61,24 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
+  if (db == nullptr) {
+    // There is no data to load. Complete the load of the tags.
+    if (inst == nullptr) return;
+    if (tags->latency() == 0) {
+      inst->Execute(context);
+      return;
+    }
+    inst->IncRef();
+    if (context != nullptr) context->IncRef();
+    inst->state()->function_delay_line()->Add(tags->latency(),
+                                              [inst, context]() {
+                                                inst->Execute(context);
+                                                if (context != nullptr)
+                                                  context->DecRef();
+                                                inst->DecRef();
+                                              });
+    return;
+  }
   target_mem_->Load(address, db, inst, context);
 }
 
-- 
2.43.0


From 4cb0eaa257f08a564f5757d4a0a0f45d84bdbc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 25/50] fix: a plain store is routed by exactly the bytes it
 stores

A store ending right below a mapped range was taken to overlap it and was
dropped instead of going to the default target.
---
 mpact/sim/util/memory/single_initiator_router.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..0b1d65d 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -265,7 +265,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
+  auto it = memory_targets_.find({address, address + size - 1});
   if (it != memory_targets_.end()) {
     auto& range = it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
-- 
2.43.0


From 8c2a290aa33ba75965b39949505e2b94b6a9e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 26/50] fix: plain accesses reaching into a tagged target are
 not routed to the default

The lookup of the tagged target used the first byte of the access only.
---
 mpact/sim/util/memory/single_initiator_router.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 0b1d65d..342d44a 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -142,7 +142,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
   // Since the plain memory load can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -279,7 +279,7 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   // Since the plain memory store can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
-- 
2.43.0


From c5a8ae379ed1973aafc3b7666670debe2b9d1538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 27/50] fix: vector stores reach the last bytes of a tagged
 target

---
 mpact/sim/util/memory/single_initiator_router.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 342d44a..d8a6aeb 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -340,7 +340,7 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
       auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
+      auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
@@ -350,7 +350,8 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
+        if ((range.base > address) || (range.top < address + el_size - 1))
+          break;
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From 9a6e413c398d1a7e0e4ff92817f4b06b4720a5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 28/50] fix: every element of a unit stride vector access is
 checked when routing

Only the first mask and the first address were looked at, so an access
with its first element masked off was dropped, and one running out of the
target was not noticed.
---
 .../util/memory/single_initiator_router.cc    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d8a6aeb..4668b67 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -164,12 +164,15 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  ReferenceCount* context) {
   // This is a vector load, so check each address that is not masked off.
   // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  // If there is only one address it is a unit stride access.
+  int count = mask_db->size<uint8_t>();
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
@@ -203,7 +206,8 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
@@ -300,12 +304,15 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
   // This is a vector store, so check each address that is not masked off.
   // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  // If there is only one address it is a unit stride access.
+  int count = mask_db->size<uint8_t>();
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
@@ -339,7 +346,8 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                 : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
-- 
2.43.0


From 5fb77faa40347698be6bf80be77309cc4bfc885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:35 +0000
Subject: [PATCH 29/50] fix: a vector access is not routed to a target that
 covers only its first elements

The search for the target stopped at the first element that is not covered,
but the target of the elements before it was used.
---
 .../util/memory/single_initiator_router.cc    | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 4668b67..93c52e6 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -177,14 +177,19 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -212,14 +217,19 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
@@ -317,14 +327,19 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -352,14 +367,19 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From fad1a1bde388e790fc3f557c4f271003683aea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 30/50] fix: the cycle mask of a complex resource operand has
 room for its last cycle

For an end cycle that is a multiple of 64 the array was one word short and
the last bit was written beyond its end.
---
 mpact/sim/generic/complex_resource_operand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..16c1251 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
-- 
2.43.0


From 703b3d4c4e00a6d9da98b0b0f4157ddc14a22d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:45 +0000
Subject: [PATCH 31/50] fix: cycle masks within the depth of a complex resource
 are accepted

A mask for a resource with a depth that is a multiple of 64, or one shorter
than the resource, was refused; a refused mask changed the size of the
previous one.
---
 mpact/sim/generic/complex_resource_operand.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index 16c1251..a5fe38e 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -73,10 +73,11 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
-  // See if there are any bits set beyond the cycle depth of the resource.
+  // See if there are any bits set beyond the cycle depth of the resource. That
+  // is only possible in the last word of the resource, if it is partially used.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && (span.size() == resource_->bit_array().size()) &&
+      (span.back() >> mod)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -89,6 +90,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   if (or_value == 0) {
     return absl::InvalidArgumentError("No bits set in input span");
   }
+  span_size_ = span.size();
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
-- 
2.43.0


From 93357eee43280d1a5ab464cc4f6edee3f023a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:51 +0000
Subject: [PATCH 32/50] fix: a decode cache is refused for a pc increment that
 is not a power of two

Create() dereferenced the missing cache array in the destructor, and an
increment of zero shifted by -1.
---
 mpact/sim/generic/decode_cache.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..f7682ab 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -28,14 +28,14 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
                          DecoderInterface* decoder)
     : decoder_(decoder), instruction_cache_(nullptr) {
   num_entries_ = absl::bit_ceil(props.num_entries);
-  address_shift_ =
-      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
-  address_inc_ = 1 << address_shift_;
-  if (address_inc_ != props.minimum_pc_increment) {
+  if (!absl::has_single_bit(props.minimum_pc_increment)) {
     // minimum pc increment not a power of 2.
     instruction_cache_ = nullptr;
     return;
   }
+  address_shift_ =
+      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
+  address_inc_ = props.minimum_pc_increment;
   address_mask_ = (num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
@@ -110,6 +110,7 @@ void DecodeCache::InvalidateRange(uint64_t start_address,
 }
 
 void DecodeCache::InvalidateAll() {
+  if (nullptr == instruction_cache_) return;
   for (int entry = 0; entry < num_entries_; ++entry) {
     if (instruction_cache_[entry] != nullptr) {
       instruction_cache_[entry]->DecRef();
-- 
2.43.0


From e75ae1b08dc28a2591ac1aef90d9beb6e9748ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:51 +0000
Subject: [PATCH 33/50] fix: the address mask of a decode cache is computed
 with 64 bits

For 65536 entries and an increment of 65536 the 32 bit mask was negative, and
its sign extension let addresses index beyond the cache.
---
 mpact/sim/generic/decode_cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index f7682ab..46ab903 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -36,7 +36,7 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
   address_shift_ =
       (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
   address_inc_ = props.minimum_pc_increment;
-  address_mask_ = (num_entries_ - 1) << address_shift_;
+  address_mask_ = static_cast<uint64_t>(num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
   if (nullptr == instruction_cache_) {
-- 
2.43.0


From 56bc9608e4139efd4d8c3de413b828c607c9367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:51 +0000
Subject: [PATCH 34/50] fix: InvalidateRange removes every instruction in the
 range and terminates

With a start address that is not a multiple of the pc increment the stepped
addresses missed the instructions in the range, and with an end address within
one increment of 2^64 the address wrapped around and the loop never ended.
---
 mpact/sim/generic/decode_cache.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 46ab903..a56e33d 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -104,8 +104,20 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  if ((nullptr == instruction_cache_) || (start_address >= end_address)) return;
+  // Visit each entry that an address in the range maps to, once.
+  uint64_t first = start_address >> address_shift_;
+  uint64_t last = (end_address - 1) >> address_shift_;
+  uint64_t max_entry = num_entries_ - 1;
+  uint64_t count = (last - first < max_entry ? last - first : max_entry) + 1;
+  for (uint64_t i = 0; i < count; ++i) {
+    uint64_t entry = (first + i) & max_entry;
+    Instruction* inst = instruction_cache_[entry];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      instruction_cache_[entry] = nullptr;
+      inst->DecRef();
+    }
   }
 }
 
-- 
2.43.0


From ed38e879c4324694598fd004f07754ff80ada641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:51 +0000
Subject: [PATCH 35/50] fix: the attribute array of an instruction is freed as
 an array

---
 mpact/sim/generic/instruction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..885d24e 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -112,7 +112,7 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
+  delete[] attribute_array_;
   attribute_array_ = new int[attributes.size()];
   std::memcpy(attribute_array_, attributes.data(),
               attributes.size() * sizeof(int));
-- 
2.43.0


From 721402c04e09588eb7b07a45827866ef5014dd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:51 +0000
Subject: [PATCH 36/50] fix: no child keeps a pointer to its deleted parent
 instruction

Only the first child was detached: when a later child outlived the parent, its
destructor wrote to the freed parent.
---
 mpact/sim/generic/instruction.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 885d24e..4d112e7 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -94,16 +94,20 @@ Instruction::~Instruction() {
     delete op;
   }
   resource_acquire_.clear();
-  if (parent_ != nullptr) {
+  if ((parent_ != nullptr) && (parent_->child_ == this)) {
     // remove reference to this from the parent
     parent_->child_ = nullptr;
   }
+  // None of the children have a parent any more, even if some of them are still
+  // referenced by others.
+  for (auto* inst = child_; inst != nullptr; inst = inst->next_) {
+    if (inst->parent_ == this) inst->parent_ = nullptr;
+  }
   if (next_ != nullptr) {
     next_->DecRef();
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From 34b27ca3864661ba212bb5016610a4372ea6020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:06 +0000
Subject: [PATCH 37/50] fix: PerformActions does nothing at an address without
 actions

---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From c6eee873cd87978bd622793df02b4994500d207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:27 +0000
Subject: [PATCH 38/50] fix: a cache on a tagged memory initializes all its
 counters

---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From 5ccb1f51e32a851996e125067caec216867836b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:27 +0000
Subject: [PATCH 39/50] fix: a cache line allocated by a write is dirty

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..6db2aaa 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -469,7 +469,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From c32d7326f1316a935e731f95cfd69b5f77b9e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:27 +0000
Subject: [PATCH 40/50] fix: a completed cache load restores the latency and
 releases the context

---
 mpact/sim/util/memory/cache.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6db2aaa..657d96f 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -346,11 +346,11 @@ void Cache::LoadChild(const Instruction* inst) {
   auto* db = cache_context->db;
   auto* og_inst = cache_context->inst;
   // Reset the db latency to the original value.
+  if (db != nullptr) db->set_latency(cache_context->latency);
   if (nullptr != og_inst) {
     if (cache_context->latency > 0) {
-      if (db != nullptr) db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
-          db->latency(), [og_inst, og_context]() {
+          cache_context->latency, [og_inst, og_context]() {
             og_inst->Execute(og_context);
             if (og_context != nullptr) og_context->DecRef();
             og_inst->DecRef();
@@ -360,6 +360,8 @@ void Cache::LoadChild(const Instruction* inst) {
       if (og_context != nullptr) og_context->DecRef();
       og_inst->DecRef();
     }
+  } else if (og_context != nullptr) {
+    og_context->DecRef();
   }
   if (db) db->DecRef();
 }
-- 
2.43.0


From 5d3531aac7061dc1bc0a8dce4f57476b9a2051ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:20 +0000
Subject: [PATCH 41/50] fix: a vector access with one address looks up all its
 elements in the cache

---
 mpact/sim/util/memory/cache.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 657d96f..e8f2e60 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -260,9 +260,14 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // Either a gather/scatter, or a unit stride access, depending on the number
+  // of addresses.
+  bool gather = address_span.size() > 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      uint64_t address =
+          gather ? address_span[i] : address_span[0] + i * el_size;
+      (void)CacheLookup(address, el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -320,9 +325,14 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // Either a gather/scatter, or a unit stride access, depending on the number
+  // of addresses.
+  bool gather = address_span.size() > 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      uint64_t address =
+          gather ? address_span[i] : address_span[0] + i * el_size;
+      (void)CacheLookup(address, el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From 90dd558d9b2e8163a9138db5ac74acc6d06c8bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:35 +0000
Subject: [PATCH 42/50] fix: a load of tags only through the cache waits for
 the latency of the tags

---
 mpact/sim/util/memory/cache.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index e8f2e60..45355a1 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -285,7 +285,7 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
                  Instruction* inst, ReferenceCount* context) {
   // Since db can be nullptr (for a tag only load), the size and latency may
   // have to be computed differently. For size, base it on the number of tags
-  // that are being loaded. For latency, use 0.
+  // that are being loaded. For latency, use that of the tags.
   int size = 0;
   if (db == nullptr) {
     int num_tags = tags->size<uint8_t>();
@@ -293,7 +293,8 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   } else {
     size = db->size<uint8_t>();
   }
-  int latency = (db != nullptr) ? db->latency() : tags->latency();
+  DataBuffer* latency_db = (db != nullptr) ? db : tags;
+  int latency = latency_db->latency();
 
   (void)CacheLookup(address, size, /*is_read=*/true);
   if (tagged_memory_ == nullptr) return;
@@ -303,13 +304,11 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
     return;
   }
 
-  auto* cache_context = new CacheContext(context, db, inst, latency);
+  auto* cache_context = new CacheContext(context, latency_db, inst, latency);
   if (context) context->IncRef();
   if (inst) inst->IncRef();
-  if (db) {
-    db->set_latency(0);
-    db->IncRef();
-  }
+  latency_db->set_latency(0);
+  latency_db->IncRef();
   tagged_memory_->Load(address, db, tags, cache_inst_, cache_context);
   cache_context->DecRef();
 }
-- 
2.43.0


From 9975c2eca96ae8bfc294c405c63ce3e6a8b3de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:24 +0000
Subject: [PATCH 43/50] fix: the memory use profiler marks both words of double
 word accesses

---
 mpact/sim/util/memory/memory_use_profiler.cc | 59 +++++++++-----------
 mpact/sim/util/memory/memory_use_profiler.h  |  3 +
 2 files changed, 28 insertions(+), 34 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..ec1713f 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -14,7 +14,6 @@
 
 #include "mpact/sim/util/memory/memory_use_profiler.h"
 
-#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <ostream>
@@ -39,17 +38,6 @@ MemoryUseTracker::~MemoryUseTracker() {
   memory_use_map_.clear();
 }
 
-// Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
-  // Shift right by two, so that every byte offset becomes a word offset.
-  uint64_t word_offset = byte_offset >> 2;
-  // Byte offs
-  uint64_t byte_index = word_offset >> 3;
-  int bit_index = word_offset & 0b111;
-
-  bits[byte_index] |= (mask << bit_index);
-}
-
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   // The profiling is done on a word boundary, so word or smaller is marked by
   // a single bit, double words by 2 bits.
@@ -57,29 +45,32 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
-  }
-  auto it = memory_use_map_.find(
-      MemoryWatcher::AddressRange{address, address + size - 1});
-  if (it == memory_use_map_.end()) {
-    // Compute new base and top addresses.
-    uint64_t start = address & ~kBaseMask;
-    uint64_t end = start + kSegmentSize - 1;
-    auto* bits = new uint8_t[kBitsSize];
-    std::memset(bits, 0, kBitsSize);
-
-    it = memory_use_map_
-             .insert(
-                 std::make_pair(MemoryWatcher::AddressRange{start, end}, bits))
-             .first;
+  MarkWordUsed(address);
+  if (size > kGranularity) MarkWordUsed(address + kGranularity);
+}
+
+void MemoryUseTracker::MarkWordUsed(uint64_t address) {
+  if ((last_used_ == nullptr) || (address < last_start_) ||
+      (address > last_end_)) {
+    auto it = memory_use_map_.find(MemoryWatcher::AddressRange{address});
+    if (it == memory_use_map_.end()) {
+      // Compute new base and top addresses.
+      uint64_t start = address & ~static_cast<uint64_t>(kBaseMask);
+      uint64_t end = start + kSegmentSize - 1;
+      auto* bits = new uint8_t[kBitsSize];
+      std::memset(bits, 0, kBitsSize);
+
+      it = memory_use_map_
+               .insert(std::make_pair(MemoryWatcher::AddressRange{start, end},
+                                      bits))
+               .first;
+    }
+    last_start_ = it->first.start;
+    last_end_ = it->first.end;
+    last_used_ = it->second;
   }
-  last_start_ = it->first.start;
-  last_end_ = it->first.end;
-  last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  uint64_t word_offset = (address - last_start_) / kGranularity;
+  last_used_[word_offset >> 3] |= 1 << (word_offset & 0b111);
 }
 
 // Write out ranges of words that have been used.
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..ce0f76b 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -57,6 +57,9 @@ class MemoryUseTracker {
   void WriteUseProfile(std::ostream& os) const;
 
  private:
+  // Marks the word that contains the given address.
+  void MarkWordUsed(uint64_t address);
+
   uint64_t last_start_ = 0;
   uint64_t last_end_ = 0;
   uint8_t* last_used_ = nullptr;
-- 
2.43.0


From 64326727ccb9bab0a1f2aef5f99c23e07420a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:24 +0000
Subject: [PATCH 44/50] fix: the memory use profile lists ranges that end with
 a segment

---
 mpact/sim/util/memory/memory_use_profiler.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index ec1713f..ba83464 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -78,9 +78,19 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   // Current range info.
   uint64_t range_start = 0;
   uint64_t range_end = 0;
+  uint64_t last_word = 0;
   bool range_started = false;
+  auto write_range = [&os](uint64_t start, uint64_t end) {
+    os << absl::StrFormat("0x%llx,0x%llx,%llu\n", start, end, end - start + 4);
+  };
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // A started range does not continue across a gap between the segments.
+    if (range_started && (base != last_word + kGranularity)) {
+      write_range(range_start, last_word);
+      range_started = false;
+    }
+    last_word = range.end - (kGranularity - 1);
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -97,8 +107,7 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
         int bit_indx = absl::countr_one(byte) - 1;
         range_end = base + (byte_index * 8 + bit_indx) * kGranularity;
         // Output range.
-        os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
-                              range_end - range_start + 4);
+        write_range(range_start, range_end);
         // Clear those bits from the current byte, then we start looking for
         // a new range.
         byte &= ~((1 << (bit_indx + 1)) - 1);
@@ -119,6 +128,8 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  // Output the range that extends to the end of the last segment, if any.
+  if (range_started) write_range(range_start, last_word);
 }
 
 }  // namespace internal
-- 
2.43.0


From 6a6f9b1779d118f4f366f140daa88f3bc3908b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:28 +0000
Subject: [PATCH 45/50] fix: the memory use profiler marks all elements of a
 vector access with one address

---
 mpact/sim/util/memory/memory_use_profiler.cc | 39 ++++++++++----------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index ba83464..c74eba5 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -134,6 +134,21 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
 
 }  // namespace internal
 
+// Mark the elements of a vector access as used. It is either a gather/scatter
+// or a unit stride access, depending on the number of addresses.
+static void MarkVectorUsed(internal::MemoryUseTracker& tracker,
+                           DataBuffer* address_db, DataBuffer* mask_db,
+                           int el_size) {
+  bool gather = address_db->size<uint64_t>() > 1;
+  for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
+    if (mask_db->Get<uint8_t>(i)) {
+      uint64_t address = gather ? address_db->Get<uint64_t>(i)
+                                : address_db->Get<uint64_t>(0) + i * el_size;
+      tracker.MarkUsed(address, el_size);
+    }
+  }
+}
+
 MemoryUseProfiler::MemoryUseProfiler() : MemoryUseProfiler(nullptr) {}
 
 MemoryUseProfiler::MemoryUseProfiler(MemoryInterface* memory)
@@ -149,11 +164,7 @@ void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(tracker_, address_db, mask_db, el_size);
   }
   if (memory_) memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
@@ -166,11 +177,7 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(tracker_, address_db, mask_db, el_size);
   }
   if (memory_) memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -192,11 +199,7 @@ void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(tracker_, address_db, mask_db, el_size);
   }
   if (tagged_memory_)
     tagged_memory_->Load(address_db, mask_db, el_size, db, inst, context);
@@ -218,11 +221,7 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(tracker_, address_db, mask_db, el_size);
   }
   if (tagged_memory_) tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
-- 
2.43.0


From 8e2f144c5f6fa63ad9e5b99a02f53ffc11f486fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 46/50] fix: 64 bit wide overlay components

Shifting a 64 bit value by 64 is undefined: an overlay component that is 64
bits wide had an arbitrary (typically empty) mask, so that its value was lost.
---
 mpact/sim/decoder/overlay.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 71e9f89..cf88a1f 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -36,6 +36,15 @@ namespace bin_format {
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Returns a mask of the 'width' (0..64) low order bits.
+uint64_t LowBitsMask(int width) {
+  return (width >= 64) ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -159,7 +168,7 @@ absl::Status Overlay::ComputeHighLow() {
         component->set_high(component->high() + component->field()->low);
         component->set_low(component->low() + component->field()->low);
       }
-      mask_ |= ((1LLU << component->width()) - 1) << component->low();
+      mask_ |= LowBitsMask(component->width()) << component->low();
     }
     position -= component->width();
   }
@@ -182,7 +191,7 @@ absl::StatusOr<uint64_t> Overlay::GetValue(uint64_t input) const {
       int shift = component->position() - bin_num.width + 1;
       value |= bin_num.value << shift;
     } else {
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBitsMask(component->width()) << component->low();
       int diff = component->high() - component->position();
       auto tmp = (input & mask);
       tmp = (diff < 0) ? tmp << -diff : tmp >> diff;
@@ -197,7 +206,7 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
   for (auto* component : component_vec_) {
     // Constant bits do not map to the instruction word.
     if (component->high() < 0) continue;
-    uint64_t mask = ((1ULL << component->width()) - 1);
+    uint64_t mask = LowBitsMask(component->width());
     int shift = component->position() - component->width() + 1;
     uint64_t bits = ((input >> shift) & mask);
     bitfield |= bits << component->low();
@@ -240,7 +249,7 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       absl::StrAppend(&output, ";\n");
     } else {
       // Field or format references are added.
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBitsMask(component->width()) << component->low();
       absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
                       absl::Hex(mask), ")");
       int diff = component->high() - component->position();
-- 
2.43.0


From d39e1990684d8636a49afc3c155876fa200e1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 47/50] fix: encoding constraints on fields and overlays of 31
 bits or more

---
 mpact/sim/decoder/instruction_encoding.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 4940273..8dca335 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -151,21 +151,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
       // Check that the value is in range.
       if (value < 0) {
-        int64_t min_value = -(1 << (field->width - 1));
+        int64_t min_value = -(1LL << (field->width - 1));
         if (value < min_value) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       } else {
-        if (value >= (1 << (field->width - 1))) {
+        if (value >= (1LL << (field->width - 1))) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       }
     }
-    value &= (1 << field->width) - 1;
+    value &= (1ULL << field->width) - 1;
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -181,9 +181,14 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
         "' does not contain a field or overlay named ", field_name));
   }
   int width = overlay->computed_width();
+  if (width >= 64) {
+    return absl::OutOfRangeError(
+        absl::StrCat("Overlay '", field_name,
+                     "' is too wide to create constraint - must be < 64 bits"));
+  }
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1 << width)) || (value < 0)) {
+    if ((value < 0) || (value >= (1ULL << width))) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -194,22 +199,22 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
                        field_name));
     }  // Check that the value is in range.
     if (value < 0) {
-      int64_t min_value = -(1 << (width - 1));
+      int64_t min_value = -(1LL << (width - 1));
       if (value < min_value) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1 << width) - 1);
+      value = value & ((1ULL << width) - 1);
     } else {
-      if (value >= (1 << (width - 1))) {
+      if (value >= (1LL << (width - 1))) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
     }
   }
-  value &= (1 << width) - 1;
+  value &= (1ULL << width) - 1;
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
-- 
2.43.0


From 47cac407e59f5560a541ebe9d16fe002e15554e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 48/50] fix: the combined mask includes constraints added after
 it was read

---
 mpact/sim/decoder/instruction_encoding.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 8dca335..aae9a6c 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -246,6 +246,8 @@ absl::Status InstructionEncoding::AddEqualConstraint(std::string field_name,
 absl::Status InstructionEncoding::AddOtherConstraint(ConstraintType type,
                                                      std::string field_name,
                                                      int64_t value) {
+  // Invalidate the computed masks and values when a new constraint is added.
+  mask_set_ = false;
   auto res = CreateConstraint(type, field_name, value);
   if (!res.ok()) return res.status();
   auto* constraint = res.value();
@@ -256,6 +258,8 @@ absl::Status InstructionEncoding::AddOtherConstraint(ConstraintType type,
 absl::Status InstructionEncoding::AddOtherConstraint(
     ConstraintType type, const std::string& lhs_name,
     const std::string& rhs_name) {
+  // Invalidate the computed masks and values when a new constraint is added.
+  mask_set_ = false;
   auto res = CreateConstraint(type, lhs_name, rhs_name);
   if (!res.ok()) return res.status();
   auto* constraint = res.value();
-- 
2.43.0


From 1bc2e22bb0fc9f1f1e218701fa75afc66a25a663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 49/50] fix: the combined mask includes the right hand side of
 a comparison

---
 mpact/sim/decoder/instruction_encoding.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index aae9a6c..dc80d92 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -318,12 +318,12 @@ absl::Status InstructionEncoding::ComputeMaskAndValue() {
     // If the rhs is a field or overlay, add to the mask.
     if (constraint->rhs_field != nullptr) {
       int width = constraint->rhs_field->width;
-      mask &= (1LLU << width) - 1;
+      mask = (1LLU << width) - 1;
       int shift = constraint->rhs_field->low;
       mask <<= shift;
       other_mask_ |= mask;
     } else if (constraint->rhs_overlay != nullptr) {
-      mask &= constraint->rhs_overlay->mask();
+      mask = constraint->rhs_overlay->mask();
       other_mask_ |= mask;
     }
   }
-- 
2.43.0


From 914a27ba89dd8d95fe54847aeb9994be6a578904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 50/50] fix: overlay extractors of wide formats shift
 components taken from bit 0

---
 mpact/sim/decoder/overlay.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index cf88a1f..5c1b494 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -348,12 +348,9 @@ std::string Overlay::WriteComplexValueExtractor(
       absl::StrAppend(&output, "  ", result, assign, "ExtractBits<",
                       return_type, ">(", value, ", ", component->high(), ", ",
                       component->width(), ")");
-      if (component->low() > 0) {
-        int shift = component->position() - component->width() + 1;
-        if (shift > 0) {
-          absl::StrAppend(&output, " << ",
-                          component->position() - component->width() + 1);
-        }
+      int shift = component->position() - component->width() + 1;
+      if (shift > 0) {
+        absl::StrAppend(&output, " << ", shift);
       }
       absl::StrAppend(&output, ";\n");
     }
-- 
2.43.0

