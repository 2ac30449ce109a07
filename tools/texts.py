# Property texts: one entry per property.  tools/gen.py writes properties.jsonl and MANIFEST.json from this table.
G = 'mpact/sim/generic/'; D = 'mpact/sim/decoder/'; M = 'mpact/sim/util/memory/'
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique))
U = 'mpact/sim/util/memory/'
prop('C01', 'Typed access to a data buffer reads and writes exactly the addressed bytes',
 'For every buffer size, element type and element index inside the buffer, setting an element changes exactly the bytes of that element, and a later read of the same element (single, as a span, or through a bulk copy) returns the value that was set, while every other byte keeps its value. Bulk copies into, out of and between buffers transfer every byte in order and nothing else. Reads change nothing.',
 ['inputs', 'histories'], 'for all buffer sizes up to 2^31-1, all contents, all element types, all indices and all spans that fit',
 'Tests write a few values into buffers of 8 to 64 bytes and read them back; they never look at the bytes around the element nor at other sizes or element types.',
 [G + 'data_buffer.h', G + 'data_buffer.cc'],
 [('DataBuffer::Get/Set/SetSubmit', G + 'data_buffer.h'), ('DataBuffer::CopyTo/CopyFrom', G + 'data_buffer.h')],
 'Every accessor is proved against its postcondition for an arbitrary buffer and an arbitrary (skolem) index; element types are case-split.')
prop('C02', 'The buffer factory hands each buffer to one owner, of the requested size',
 'Allocating from a factory returns a buffer with exactly the requested number of bytes and one reference, which no one else holds: a buffer is handed out again only after its last reference was released, and only for requests of its own size. Copying a buffer through the factory gives a distinct buffer of the same size and contents. Releasing the factory or clearing it frees every idle buffer once and touches no buffer in use.',
 ['inputs', 'histories'], 'for all request sizes and all interleavings of allocation, reference taking, release, clearing and destruction',
 'Tests allocate a handful of buffers of fixed sizes and release them in one order; double hand-outs need particular histories and sizes around the small/large limit.',
 [G + 'data_buffer.h', G + 'data_buffer.cc'],
 [('DataBufferFactory::Allocate/Recycle/Clear/MakeCopyOf', G + 'data_buffer.h'), ('DataBuffer::OnRefCountIsZero', G + 'data_buffer.h')],
 'Class invariant (a tracked buffer is in the free list of its own size exactly while unreferenced) proved to be preserved by each operation from any state; Clear and destruction only by the native driver (bounded).')
prop('C03', 'Reference counts decide lifetimes and submission delivers a buffer exactly once',
 'An object is disposed of exactly when its last reference is released, never before and never twice. Submitting a buffer passes its reference on: with no delay it is delivered to its destination once, immediately, and with a delay it is delivered once, after exactly that many cycles, staying referenced until then. A buffer without destination is simply released.',
 ['inputs', 'histories'], 'for all reference counts, all latencies, and all orders of taking, releasing and submitting',
 'Tests count a few references on one object and submit one buffer with one or two latencies.',
 [G + 'ref_count.h', G + 'data_buffer.cc', G + 'data_buffer.h', G + 'delay_line.h'],
 [('ReferenceCount::IncRef/DecRef', G + 'ref_count.h'), ('DataBuffer::Submit', G + 'data_buffer.cc'), ('DataBufferDelayRecord::Apply', G + 'data_buffer.h')],
 'Each operation proved from any count; delayed submission for latencies 1..4 on a line of depth 4, with C04 covering the line itself for every latency and depth.')
prop('C04', 'A delay line applies each entry once, after exactly its latency, in order',
 'Whatever was added before and however the line had to grow, an entry added with latency n is applied by the n-th later advance, exactly once and with the values it was added with; entries due in the same cycle are applied in the order they were added. Advancing returns how many entries are still pending, and a newly made line applies nothing.',
 ['inputs', 'histories'], 'for all latencies, line depths, contents and interleavings of additions and advances',
 'Tests use lines of depth 8 or 16 with fixed schedules; growth with wrapped-around contents and the boundary latencies are reached only by particular histories.',
 [G + 'delay_line.h', G + 'function_delay_line.h', G + 'data_buffer.h'],
 [('DelayLine::Add/Advance/Resize', G + 'delay_line.h'), ('FunctionDelayRecord', G + 'function_delay_line.h')],
 'One step of a line of any (power-of-two) depth with any contents is proved; growth is bounded to depths 1, 2, 4, 8 with any contents.')
prop('C05', 'Extraction recipes gather exactly the selected bits in order',
 'For every 64-bit selection mask and every value, applying the recipe computed for the mask gives the selected bits of the value packed, in order, into the low bits of the result, with zeros above. The generated extraction text computes the same value.',
 ['inputs', 'programs'], 'for all 2^64 masks and all 2^64 values',
 'Tests compare a few masks and values; 2^128 combinations are out of their reach.',
 [D + 'extract.h', D + 'extract.cc'],
 [('GetExtractionRecipe', D + 'extract.cc'), ('ExtractValue', D + 'extract.cc'), ('WriteExtraction', D + 'extract.cc')],
 'Loop invariant over the bit position with ghost state, for every mask and value; WriteExtraction (text) only by the native driver, bounded.')
prop('C06', 'Template expressions evaluate to what their arithmetic says, or to an error',
 'Evaluating a template expression under given arguments yields the value integer arithmetic gives (sums, differences, products, quotients, negation, function results, parameter values), whether it is evaluated at once or partly first and finished later. Errors of any operand, division by zero and missing arguments are reported as an error, never as a value or a crash, and no expression is leaked or freed twice. Constant folding happens exactly when the parts are constant.',
 ['inputs', 'programs'], 'for all expression trees, all parameter values, all argument lists and all ways a subexpression can fail',
 'Tests evaluate a few small trees with constants that succeed; failing operands in each position of each operator are not tried.',
 [D + 'template_expression.h', D + 'template_expression.cc'],
 [('TemplateMultiply/Divide/Add/Subtract/Negate', D + 'template_expression.cc'), ('TemplateParam, TemplateConstant, SlotConstant, TemplateFunctionEvaluator', D + 'template_expression.cc')],
 'Structural induction: each node against every behaviour of its children; function nodes bounded to 3 arguments.')
prop('C07', 'Floating-point format information matches the IEEE formats for every pattern',
 'For half, single and double formats, in floating and in integer carriers, the description of the format (field widths, masks, bias, special values) agrees with IEEE 754, and every bit pattern is classified (NaN, signalling NaN, infinity, sign) as the format says. Converting a half to a single gives the same number for every one of its patterns, NaNs and signs included.',
 ['inputs'], 'for all bit patterns of each 16, 32 and 64-bit format',
 'Tests check a handful of constants and patterns.',
 [G + 'type_helpers.h'], [('FPTypeInfo', G + 'type_helpers.h'), ('HalfFP and its conversion to float', G + 'type_helpers.h')],
 'All patterns, symbolically; text conversion only by the native driver.')
prop('C08', 'A status register always shows the conditions attached to its bits',
 'Reading a status register, directly or through a source operand of any width, returns a word in which each bit with a condition attached shows that condition as it is now and every other bit is zero; each condition asked for is evaluated once. A masked read gives the masked bits and evaluates no other condition. Writing a buffer to the register changes nothing and takes no reference it was not given.',
 ['inputs', 'histories'], 'for all register widths, sets of conditions, condition outcomes, masks and element types',
 'Tests attach a few conditions on one register width and read it.',
 [G + 'status_register.h', G + 'state_item_base.cc'], [('StatusRegisterBase::Read', G + 'status_register.h'), ('ReadOnlySourceOperand / StatusRegisterSourceOperand', G + 'status_register.h')],
 'All condition outcomes and masks symbolically per register type.')
prop('C09', 'Constant and null operands give their value and discard what is sent to them',
 'Immediate, vector-immediate and literal operands return their value (for vectors: the element asked for) through every accessor, converted as integer conversion does, for every value and index, and keep the shape and text they were made with. A null destination hands out buffers of the size its shape calls for, with one reference and no latency, and a buffer sent to it is released and nothing else happens.',
 ['inputs'], 'for all values of every integer type, all indices, vector lengths and shapes',
 'Tests use one or two values per type.',
 [G + 'immediate_operand.h', G + 'literal_operand.h', G + 'devnull_operand.h'],
 [('ImmediateOperand, VectorImmediateOperand', G + 'immediate_operand.h'), ('IntLiteralOperand, BoolLiteralOperand', G + 'literal_operand.h'), ('DevNullOperand', G + 'devnull_operand.h')],
 'All values and indices symbolically per type; literals for a set of values; null operand for a set of shapes.')
prop('C10', 'Program errors are reported exactly as raised, masked and cleared',
 'After any sequence of registering, raising, masking, unmasking and clearing, an error is reported as active exactly when it was raised and not cleared since, among the masked errors exactly when it is masked and among the unmasked ones otherwise, with the messages raised since it was cleared, in order. Masking does not lose an active error, the internal error can not be masked, and every use of an unknown or duplicate name raises the internal error instead of being lost. No operation affects another error.',
 ['inputs', 'histories'], 'for all numbers of registered errors, all their states, and all operations with known, unknown and internal names',
 'Tests walk one error through one sequence; interplay of masks, raises and clears over several errors is a matter of history.',
 [G + 'program_error.h', G + 'program_error.cc'],
 [('ProgramErrorController::Raise/Mask/Unmask/Clear/ClearAll', G + 'program_error.cc'), ('ProgramError::Raise', G + 'program_error.cc')],
 'Invariant over the mask flag, message list and the two active sets, preserved by each operation for any number of errors (three tracked); operations that visit every error are bounded to 4 errors.')
prop('C11', 'Names derived for generated code and the registry of resources are exact',
 'Converting a name to Pascal case, snake case, header-guard form or lower case gives, for every ASCII text, exactly the text the rule prescribes, character by character (underscores dropped and followed by a capital, capitals preceded by an underscore, separators replaced, case changed), and an indentation is that many blanks. The resource registry holds one resource per name: asking for a name returns the registered resource or registers a new plain one, creating an existing one is refused, no other entry changes, and every resource is released once.',
 ['inputs', 'histories'], 'for all ASCII texts of any length and all histories of registry use',
 'Tests convert a few names; empty texts, runs of underscores or capitals, leading and trailing separators and long texts are not tried.',
 [D + 'format_name.cc', D + 'format_name.h', D + 'resource.h', D + 'resource.cc'],
 [('ToPascalCase, ToSnakeCase, ToHeaderGuard, ToLowerCase, Indent', D + 'format_name.cc'), ('ResourceFactory::CreateResource, GetOrInsertResource', D + 'resource.cc')],
 'Each conversion against a ghost transducer over the input position, for texts of any length and an arbitrary output position; registry operations from any state.')
prop('C12', 'Registers hold what was last written and show it through every operand',
 'A register, whatever its element type and shape, holds the data buffer last written to it (directly or by submitting a buffer of one of its destination operands, at once or after the latency) and keeps exactly one reference to it, releasing the one it replaces. Source operands return the elements of the current value, converted as the accessor says, or zero when there is none; destination operands hand out buffers of the size of the register with one reference and their latency, holding a copy of the current contents where a copy is asked for. A new register reads zero. A reserved register also releases its resource when written; a write to a control register calls its callback once with the buffer and changes nothing else.',
 ['inputs', 'histories'], 'for all element types and indices, all contents, all latencies and all histories of writes',
 'Tests read and write a few values of one or two register types.',
 [G + 'register.h', G + 'register.cc', G + 'control_register.h', G + 'control_register.cc', G + 'state_item.h', G + 'state_item_base.cc'],
 [('RegisterBase::SetDataBuffer', G + 'register.cc'), ('RegisterSourceOperand, RegisterDestinationOperand', G + 'register.h'), ('ControlRegisterBase', G + 'control_register.cc')],
 'Each operation from any state of the register; element types and shapes are case-split.')
prop('C13', 'Resource sets and pools account for every resource exactly',
 'A resource bit set behaves as a set of positions: setting, clearing, copying, resizing, union, intersection, difference and the emptiness and overlap queries give exactly the set-theoretic result for every position, whatever the sizes of the sets involved. A resource pool has as free exactly the resources not acquired: a set is free when all of its members are, acquiring takes exactly those, releasing gives exactly those back, and a name stands for one fixed position. An operand acquires its set and releases it after its latency.',
 ['inputs', 'histories'], 'for all set sizes, contents, positions and histories of acquiring and releasing',
 'Tests use pools of 32 or 64 and single sets; sizes that differ or straddle a word are not tried.',
 [G + 'resource_bitset.h', G + 'resource_bitset.cc', G + 'simple_resource.h', G + 'simple_resource.cc'],
 [('ResourceBitSet', G + 'resource_bitset.cc'), ('SimpleResourcePool, SimpleResourceSet', G + 'simple_resource.cc'), ('SimpleResourceOperand', G + 'simple_resource_operand.h')],
 'Sets of any size with a skolem position; pools of any width; naming and operands bounded.')
prop('C14', 'Fifos deliver entries in order and account for references and reservations',
 'A fifo delivers its entries in the order they were pushed, each exactly once, and holds exactly one reference to each entry from push to pop or destruction. A push succeeds exactly when, after using up one reservation, entries and reservations leave room (for a token fifo: tokens left after the reservations); a refused push takes no reference and no token and raises the overflow error; reading or popping an empty fifo raises the underflow error and changes nothing. Full, empty and oversubscribed are as entries, reservations and capacity (or tokens) say; tokens in store and entries of the fifos sharing it always add up to its capacity. A notifying fifo calls back exactly when it becomes non-empty by a push or empty by a pop. Operands read the front entry (zero if there is none) and deliver submitted buffers after their latency.',
 ['inputs', 'histories'], 'for all capacities, fill levels, reservations, token counts, element types and histories of operations',
 'Tests fill one fifo of depth 3 or a few tokens and drain it; reservations combined with refused pushes or empty pops are not tried.',
 [G + 'fifo.h', G + 'fifo.cc', G + 'token_fifo.cc', G + 'fifo_with_notify.cc'],
 [('FifoBase::Push/Pop/Front/IsFull/IsEmpty', G + 'fifo.cc'), ('TokenFifoBase, FifoTokenStore', G + 'token_fifo.cc'), ('FifoWithNotifyBase', G + 'fifo_with_notify.cc')],
 'Each operation from any state with any number of entries (the front and an arbitrary other entry tracked); destruction bounded to 3 entries.')
prop('C15', 'A memory returns for every byte what was last stored there',
 'A flat memory and a demand-allocated memory return, for every served address, the bytes last stored there, or the fill value where nothing was stored; a store changes exactly the addressed bytes. This holds for scalar accesses of any size (across allocation blocks as well) and, element by element, for gathers, scatters and unit-stride accesses, where a masked-off element is neither read, written nor changed in the buffer; with addressable units of more than one byte, addresses count units. The instruction of a load is executed once with its context, at once or after the latency of the buffer, and both are kept alive until then and released once. Clearing or destroying a demand memory releases its blocks.',
 ['inputs', 'histories'], 'for all base addresses, sizes, unit sizes, contents, addresses, masks and latencies',
 'Tests store and load a handful of values at a few aligned addresses.',
 [U + 'flat_memory.h', U + 'flat_memory.cc', U + 'flat_demand_memory.h', U + 'flat_demand_memory.cc'],
 [('FlatMemory::Load/Store, LoadData, StoreData', U + 'flat_memory.cc'), ('FlatDemandMemory::Load/Store/LoadStoreHelper/Clear', U + 'flat_demand_memory.cc')],
 'Black-box contract: any address is read before and after an access from any state of the memory; accesses of more than one block and vector accesses of the demand memory are bounded.')
prop('C16', 'A tagged memory keeps one tag per granule and untagged stores clear it',
 'A tagged store stores its data and one tag per granule, and a tagged load returns both as last stored; a load may ask for the tags alone. A request that is not aligned to the granule, is not made of whole granules or comes with the wrong number of tags changes nothing, loads nothing and does not execute its instruction. A store without tags, scalar or vector, stores its data and clears the tags of exactly the granules its stored bytes touch: masked-off elements and all other granules keep theirs. A new memory has the fill value everywhere, no tag set, and a tag for every granule it touches. Loads without tags are those of a memory without tags.',
 ['inputs', 'histories'], 'for all addresses, sizes, contents, tags, masks and (case-split) granule and unit sizes',
 'Tests store and clear a few aligned granules; partial granules at either end, masked and unit-stride stores and multi-byte units are not tried.',
 [U + 'tagged_flat_demand_memory.h', U + 'tagged_flat_demand_memory.cc'],
 [('TaggedFlatDemandMemory::Load/Store', U + 'tagged_flat_demand_memory.cc'), ('TaggedFlatDemandMemory::ClearTags, CheckRequest', U + 'tagged_flat_demand_memory.cc')],
 'Each operation over data and tag memories given by the contract of C15, watched at an arbitrary byte and an arbitrary granule; vector stores bounded to 3 elements.')
prop('C17', 'Atomic memory operations are exact and writes end load links',
 'Each atomic operation on 1, 2, 4 or 8 bytes returns the previous contents, stores the result of its operation at that width (sum, difference, and, or, xor, signed and unsigned minimum and maximum, swap) and touches no other byte; other sizes are refused before anything changes. A store-conditional succeeds, storing its operand and returning 0, exactly when its 8-byte granule has been load-linked since it was last written or used by a store-conditional; otherwise it returns 1 and leaves memory alone. Every store, vector store and atomic operation ends the links of exactly the granules it writes. All other accesses, tags included, are passed on unchanged once, and the instruction runs once.',
 ['inputs', 'histories'], 'for all addresses, operands, contents and link states',
 'Tests try one address and value per operation; link state after stores that touch several granules, vector stores and other atomics is not tried.',
 [U + 'atomic_memory.h', U + 'atomic_memory.cc', U + 'atomic_tagged_memory.cc'],
 [('AtomicMemory::PerformMemoryOp, Store', U + 'atomic_memory.cc'), ('AtomicTaggedMemory::PerformMemoryOp, Store', U + 'atomic_tagged_memory.cc')],
 'Each operation and each width over a memory given by the contract of C15, watched at an arbitrary 8-byte window, with the set of links watched at an arbitrary granule; vector stores bounded to 3 elements.')
prop('C18', 'Memory watchers announce exactly the accesses that touch a watched range',
 'A watch range is accepted exactly when it is not reversed and overlaps no other range of its kind; clearing any address of a range removes that range and no other, load and store ranges being separate. Every load (store) calls the callback of each load (store) range it touches, even partially, once per access or unmasked vector element, with the address and size, loads before and stores after the access, and calls no other. Every access, tagged or not, is passed on once, unchanged. A tagged view of an untagged memory passes all accesses on, reads every tag as clear and completes loads of tags only.',
 ['inputs', 'histories'], 'for all sets of non-overlapping ranges and all accesses that do not wrap',
 'Tests set two ranges and try a few addresses; every overlap shape, several ranges per access and masked vector elements need all inputs.',
 [U + 'memory_watcher.h', U + 'memory_watcher.cc', U + 'tagged_memory_watcher.cc', U + 'tagged_to_untagged_memory_transactor.cc'],
 [('MemoryWatcher::Load, Store, Set*/Clear*WatchCallback', U + 'memory_watcher.cc'), ('TaggedMemoryWatcher', U + 'tagged_memory_watcher.cc'), ('TaggedToUntaggedMemoryTransactor', U + 'tagged_to_untagged_memory_transactor.cc')],
 'Each operation over any set of non-overlapping ranges, by the contract of the ordered container at one arbitrary entry and a loop invariant over any number of touched ranges; vector accesses bounded to 3 elements.')
prop('C19', 'A memory router sends each access whole to the one target that covers it',
 'A plain, tagged or atomic access that lies inside a mapped range of its kind goes to that range\'s target; one that touches no range goes to the default target of its kind if there is one; plain accesses the plain targets do not take are tried on the tagged targets in the same way; any other access goes nowhere (an atomic operation then returns an error). An access is passed on once and unchanged and is never split or sent to a target that covers it only in part; this holds for each unmasked element of a vector access, strided or gathered. Ranges are accepted exactly when they are not reversed or empty and overlap no other range of the kind. In a router of several initiators names are unique and a mapping changes exactly the initiator and target it names.',
 ['inputs', 'histories'], 'for all sets of non-overlapping ranges, defaults and accesses that do not wrap',
 'Tests use a handful of ranges with accesses well inside or across one boundary; accesses next to a range, partial vectors and masks are not tried.',
 [U + 'single_initiator_router.h', U + 'single_initiator_router.cc', U + 'memory_router.cc'],
 [('SingleInitiatorRouter::Load, Store, PerformMemoryOp, AddTarget', U + 'single_initiator_router.cc'), ('MemoryRouter::AddMapping, AddTarget, Add*Initiator', U + 'memory_router.cc')],
 'Each operation over any set of non-overlapping ranges, by the contract of the ordered container at one arbitrary entry; vector accesses bounded to 3 elements; the named router over arbitrary maps.')
prop('C20', 'A complex resource is busy in exactly the cycles reserved for it',
 'For resources whose depth is a multiple of 64 cycles: a cycle is busy exactly when it was acquired and neither released nor passed since, whatever the number of cycles between calls (fewer than 64, or at least the depth); IsFree is true exactly when none of the cycles asked for is busy, and neither acquiring nor releasing touches other cycles. An operand accepts a mask exactly when it has cycles, in order and within the depth, then asks for exactly these cycles, and keeps the previous mask otherwise.',
 ['inputs', 'histories'], 'for all reservations, masks and clock steps',
 'Tests step through a few depths with all cycles reserved; the combination of arbitrary reservations, masks and time steps is not reachable by tests.',
 [G + 'complex_resource.h', G + 'complex_resource.cc', G + 'complex_resource_operand.cc'],
 [('ComplexResource::Advance, IsFree, Acquire, Release', G + 'complex_resource.cc'), ('ComplexResourceOperand::SetCycleMask', G + 'complex_resource_operand.cc')],
 'The operations of a 64-cycle resource proved at an arbitrary cycle; deeper resources and masks from begin to end bounded. Two known findings (advance by 64 or more, depths that are not a multiple of 64) are pinned by the repository\'s own tests and reported, not repaired.')
prop('C21', 'The decode cache returns the instruction of the address and forgets on demand',
 'Create succeeds exactly for pc increments that are a power of two and gives the smallest power of two of entries that is enough. GetDecodedInstruction returns an instruction of exactly the address asked for: the cached one without decoding if it is cached, otherwise what the decoder makes of that address, decoded once and cached in place of the entry it maps to. The cache holds one reference per cached instruction: displaced, invalidated and finally cached instructions are released exactly once, and an instruction in use elsewhere survives. Invalidate removes the instruction of that address only; InvalidateRange removes every cached instruction with an address in [start, end) and no other, for all start and end; InvalidateAll removes all.',
 ['inputs', 'histories'], 'for all geometries, addresses, ranges and histories of lookups and invalidations',
 'Tests use one geometry and aligned low addresses; index arithmetic at other geometries, unaligned and extreme ranges and reference counts over histories are not sampled.',
 [G + 'decode_cache.h', G + 'decode_cache.cc', G + 'decoder_interface.h'],
 [('DecodeCache::Create, GetDecodedInstruction, Invalidate, InvalidateRange, InvalidateAll', G + 'decode_cache.cc')],
 'Create, lookup and single invalidation proved for every geometry up to 2^24 entries, address and content, at the entry used and an arbitrary other one; range and whole-cache invalidation bounded proofs on small caches plus random histories.')
prop('C22', 'An instruction owns its parts in order and semantic helpers compute exactly',
 'Children, successors, operands, resources and attributes of an instruction are kept in the order they were added and owned once; when the last reference to an instruction goes, its operands are deleted once and its children and successors released once, those held elsewhere survive and no longer name a parent. Execute runs the semantic function exactly once on the instruction, which sees the given context only during that run. GetInstructionSource reads exactly the addressed operand and element in the type asked for. The unary, binary and ternary (vector) helpers apply the operation to the matching elements of the sources in order, for every element of the destination, and submit one result buffer once.',
 ['inputs', 'histories'], 'for all trees, operand lists, values, vector lengths and orders of release',
 'Tests build one or two small lists and drop them in one order, and helpers are not tested over lengths and types.',
 [G + 'instruction.h', G + 'instruction.cc', G + 'instruction_helpers.h'],
 [('Instruction', G + 'instruction.cc'), ('GetInstructionSource', G + 'instruction.h'), ('UnaryOp, BinaryOp, UnaryVectorOp, BinaryVectorOp, TernaryVectorOp', G + 'instruction_helpers.h')],
 'Append proved for lists of any length (the recursive call checked against its own contract), execution, attributes, typed access and all helpers (vectors of any length) proved; the release of lists bounded to 4 members, plus random trees dropped in random order.')
prop('C23', 'A breakpoint is in memory exactly while an action is enabled at its address',
 'SetAction adds one enabled action under an id not in use at that address; ClearAction, EnableAction and DisableAction change exactly the action they name and report an error, changing nothing, if there is none. At every address a breakpoint instruction is in memory exactly while at least one action is enabled there and the original instruction otherwise, also after ClearAllActionPoints and destruction; no other address is written. If the memory refuses the breakpoint SetAction reports the error and adds no action. PerformActions calls each enabled action of its address once, in id order, with address and id, and nothing else, also where there are none. A breakpoint is one action per address: setting a second one, or clearing, enabling or disabling one that does not exist, is an error and changes nothing; when reached it requests a halt with that address.',
 ['inputs', 'histories'], 'for all addresses, ids and histories of operations',
 'Tests set a few actions and clear them in one order; interleavings of enable, disable and clear over several actions and addresses, refused writes and unknown ids are not sampled.',
 [G + 'action_point_manager_base.h', G + 'action_point_manager_base.cc', G + 'breakpoint_manager.h', G + 'breakpoint_manager.cc'],
 [('ActionPointManagerBase', G + 'action_point_manager_base.cc'), ('BreakpointManager', G + 'breakpoint_manager.cc')],
 'Each operation over any number of action points with any number of actions: maps discovered entry by entry, invariant (active count = number of enabled actions, breakpoint in memory exactly if not zero) at two arbitrary addresses and two arbitrary ids each; iteration over all actions bounded to 2 addresses with 3 actions; breakpoints over the contract of the action points; native histories.')
prop('C24', 'A cache passes every access on and hits exactly the blocks it holds',
 'Exactly the configurations made of powers of two (block of at least 4 bytes, associativity 0 for full or at most the number of blocks, true or false, ranges of one kind) are accepted and give the geometry they describe. Every byte range of an access, and of every unmasked element of a vector access, is looked up once per block: a hit exactly if the block is held, with every miss that allocates replacing a free or else the least recently used line of its set and no other line. Lines written to count as written back exactly when replaced. An access that touches a non-cacheable range, or none of the cacheable ranges if there are any, changes no line. Every counter counts exactly its events. Every access, tagged or not, is passed on to the memory once, unchanged; a load completes as without the cache: its instruction is executed once, with its context, after its latency, and all references and latencies are as before.',
 ['inputs', 'histories'], 'for all geometries, addresses, sizes and histories of accesses',
 'Tests walk linearly through three configurations at low addresses and look at hits and misses only; replacement order, write backs, wide accesses, delayed and vector loads are not sampled.',
 [U + 'cache.h', U + 'cache.cc'],
 [('Cache::Configure', U + 'cache.cc'), ('Cache::CacheLookup, ReplaceBlock', U + 'cache.cc'), ('Cache::Load, Store, LoadChild', U + 'cache.cc')],
 'Lookup and replacement proved for any content and any number of sets, the line looked at and the way compared being arbitrary (the search for the oldest way by a proved invariant); configuration and forwarding proved; native histories against a reference cache.')
prop('C25', 'The memory use profile lists exactly the words that were accessed',
 'While it is enabled a memory use profiler records, for every load and store of at most 8 bytes and every unmasked element of a vector access (gathered, scattered or with consecutive addresses), the word of its address and, if it is longer than 4 bytes, the next one, and no other words; while it is disabled, for loads of tags only, and for longer accesses it records nothing. WriteProfile lists exactly the recorded words, as the longest possible ranges in ascending order with first and last word and size. Every access is passed on to the memory, if there is one, once and unchanged.',
 ['inputs', 'histories'], 'for all addresses, sizes, masks and histories of accesses',
 'The profiler has no tests; segment boundaries, gaps and the orders in which segments are touched would not be sampled.',
 [U + 'memory_use_profiler.h', U + 'memory_use_profiler.cc'],
 [('MemoryUseTracker::MarkUsed', U + 'memory_use_profiler.cc'), ('MemoryUseTracker::WriteUseProfile', U + 'memory_use_profiler.cc'), ('MemoryUseProfiler::Load, Store; TaggedMemoryUseProfiler::Load, Store', U + 'memory_use_profiler.cc')],
 'MarkUsed proved at an arbitrary word over any set of segments (the contract of the ordered container at one arbitrary entry) and any segment used last; loads and stores over that contract, vectors of any length against a ghost sequence; the text of the profile by native histories and patterns (bounded).')
prop('C26', 'Components, counters and configuration keep and transfer exactly what is given',
 'A component accepts a child, an initialized counter or a configuration entry exactly if no other of its kind has that name, finds it by exactly that name from then on, and otherwise changes nothing; removing a child removes only that one; a child has its parent exactly once it was added. A counter changes by exactly the amount given, or to the value given, while it is enabled and not at all while it is disabled; every update, and nothing else, tells each listener the new value once, in order; a function counter asks its function once per value and updates exactly when it says so. A configuration entry takes exactly the values of its type, reports whether it was set and calls each callback once per value set; a refused value changes nothing. Export writes every entry, counter and child once with name and value, in name order; import sets exactly the entries named in the data, skips unknown names, and fails at missing or mismatching names and at values of another type.',
 ['inputs', 'histories'], 'for all names, values and trees',
 'Tests use one small tree, a few values and at most one listener; name collisions across kinds, refused operations and partial imports are not sampled.',
 [G + 'component.h', G + 'component.cc', G + 'counters.h', G + 'config.h'],
 [('Component', G + 'component.cc'), ('SimpleCounter, FunctionCounter', G + 'counters.h'), ('Config', G + 'config.h')],
 'Adding, finding and removing proved over components of any contents at the name used and an arbitrary other one; counters and entries of every type proved for all values; listeners, callbacks, export and import bounded to two or three parts; native random trees.')
prop('C27', 'Overlays, formats and encodings say exactly which bits of a word mean what',
 'For formats and overlays of at most 64 bits: a format accepts each field and overlay name once and is accepted exactly when its fields and formats fill the declared width, laid out from the top bit down without gaps. An overlay takes whole fields, bit ranges that lie within the field or format, and constants; its value for a word is the concatenation of its parts in order, its mask has exactly the bits of the word it refers to, GetBitField puts each bit of a value where the overlay takes it from, and the text of its extractor (simple or wide) computes its value. A constraint of an instruction encoding is accepted exactly if the field or overlay exists, is less than 64 bits wide and can have the value (only equality for signed ones). After any sequence of constraints, also on a copy, the mask and the value are those of the equality constraints without constant bits, so that a word masked has the value exactly if all of them hold, and the combined mask has exactly the bits of all constraints, both sides of comparisons included.',
 ['inputs', 'histories'], 'for all formats, overlays, constraints, words and orders of building them',
 'Tests use one 16 bit and one 32 bit format with narrow fields; positions and widths around 31 to 64, constants in the upper half, comparisons between fields and constraints added after a mask was read are not sampled.',
 [D + 'overlay.h', D + 'overlay.cc', D + 'format.h', D + 'format.cc', D + 'instruction_encoding.h', D + 'instruction_encoding.cc'],
 [('Overlay::GetValue, GetBitField, ComputeHighLow, AddFieldReference, AddFormatReference', D + 'overlay.cc'), ('Format::AddField, AddFieldOverlay, ComputeAndCheckFormatWidth', D + 'format.cc'), ('InstructionEncoding::CreateConstraint, ComputeMaskAndValue, GetMask, GetValue, GetCombinedMask', D + 'instruction_encoding.cc')],
 'Values, masks and layouts of overlays with any number of components, of formats with any number of fields and of encodings with any number of constraints proved as folds over the components; adding to them proved for all names, ranges and values, each over the contracts of the others; the text of extractors by evaluating it natively (bounded).')
NA = []
