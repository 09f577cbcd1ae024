#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SB, UB, CH = 'static-alloc/src/bump.rs', 'static-alloc/src/unsync/bump.rs', 'static-alloc/src/unsync/chain.rs'
LK, ES, FV, UN = 'static-alloc/src/leaked.rs', 'exit-stack/src/lib.rs', 'without-alloc/src/fixed_vec.rs', 'without-alloc/src/uninit.rs'
RC, BX, AL = 'without-alloc/src/rc.rs', 'without-alloc/src/boxed.rs', 'without-alloc/src/alloc.rs'
KANI = 'bounded symbolic model checking of the compiled Rust (Kani/CBMC, SAT)'
BASE = ('Every assertion is decided by the solver for all values within the stated bounds, loop bounds are checked by unwinding '
        'assertions, and every counterexample is replayed natively before it is reported. Outside the bounds nothing is claimed. '
        'Trusted: rustc, Kani, CBMC, the SAT solver; allocation by the system allocator succeeds. ')
SYMEX = 'symbolic execution of the LLVM IR of the compiled Rust, with unwinding (own executor, z3)'
SBASE = ('Every feasible path, also those on which panics unwind, is executed on the LLVM IR rustc emits (unoptimised); z3 decides each branch, '
         'assertion and memory access for all values within the stated bounds; every counterexample is replayed natively before it is '
         'reported. Outside the bounds nothing is claimed. Trusted: rustc, the executor in symex/, z3; allocation by the system allocator succeeds. ')
BOTH = KANI + '; histories: ' + SYMEX
HIST = ' Histories of several operations are decided by the second engine: ' + SBASE
P = []
def p(id, title, statement, over, bounds, tests, files, mech, note='', tech=KANI, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, bounds=bounds, tests=tests, files=files, mech=mech, note=note, tech=tech, observe=observe or [], na=na))

p('C01', 'Memory handed out by the global arena is in bounds, aligned, and unshared',
  'Whatever was allocated before, every block the thread-safe arena returns lies completely inside the arena\'s own storage, is aligned and sized as requested, and starts behind everything handed out earlier. A request never changes how much had been handed out to others, and the reported fill level advances exactly to the end of the new block.',
  ['inputs', 'histories'],
  'every fill level of the arena (one inductive step from an arbitrary reachable level), every layout Rust accepts (any size up to isize::MAX, any power-of-two alignment up to 2^62), arenas of type [u8;37], [u64;4], [u128;2] (thorough: [u8;1000]) at every 8-aligned address, through all entry points: raw, typed-level, GlobalAlloc and LocalAlloc; histories of 2 (thorough: 3) requests of 1, 6 or 16 bytes and alignment 1, 4 or 16, typed and untyped, current or at any earlier level, then a reset',
  'The tests allocate a few fixed sizes from fixed levels; alignment padding at every level against every layout, and the overflow corners near usize::MAX, are out of their reach.',
  [SB], [('try_alloc computes padding and bounds with checked arithmetic', SB + ': try_alloc'), ('bump publishes the new level', SB + ': bump')], tech=BOTH, note=BASE + HIST)
p('C02', 'Threads allocating from one arena never receive overlapping memory',
  'However the allocations of several threads from one shared arena interleave, the blocks they receive are pairwise disjoint, inside the arena, and aligned and sized as requested. An allocation fails only if the memory it asked for was not available at some moment of the call, and a level-exact request succeeds only if no other allocation came in between.',
  ['schedules', 'inputs'],
  'arenas of 6 and 12 bytes at any fill level up to 3; every thread\'s request up to 4 bytes and alignment 4; before any atomic operations of one allocation, two complete allocations by other threads at any two (or the same) points, or one that is itself interrupted by another; at most one spurious failure of a weak compare-exchange; sequentially consistent atomics',
  'The threaded test runs one workload on whatever schedules the host produces; a lost update needs a specific interleaving of two compare-exchange loops.',
  [SB], [('compare-exchange on the consumed counter', SB + ': bump'), ('the retry loop in alloc/get_layout', SB)], tech=KANI + '; interleavings as symbolic variables')
p('C03', 'The thread-safe arena serves every request that fits',
  'A request succeeds exactly if the aligned block fits into what is left of the arena; a fresh arena always has room for one value of the type it is declared with. A refused request consumes nothing and leaves the arena as it was.',
  ['inputs', 'histories'],
  'every fill level, every layout (full usize range), arenas of type u8, u128, [u8;37], [u64;4], a 32-aligned type and the empty array, at every 8-aligned address; two requests from a fresh arena; histories of two requests of 1, 6 or 16 bytes and alignment 1, 4 or 16, typed or not, then a reset',
  'Tests exhaust an arena with one or two sizes; an off-by-one at the last byte or an over-estimated padding shows only for particular size, alignment and address combinations.',
  [SB], [('bounds check in try_alloc', SB + ': try_alloc'), ('storage layout of the arena type', SB + ': Bump')], tech=BOTH, note=BASE + HIST)
p('C04', 'Level-exact allocation succeeds only at the current level',
  'A request tied to a previously observed fill level succeeds exactly if that level is still current and the block fits, and otherwise reports which of the two failed without consuming anything. The level returned with a block is the level at which the next exact request succeeds.',
  ['inputs', 'histories'],
  'arenas of 3 to 40 bytes; any level recorded at any earlier point (current or stale); any layout; typed requests for u32, a 16-aligned and a zero-sized type; both the thread-safe and the unsynchronised arena; histories of two (thorough: three) requests at any earlier level, for memory and for values of 1 to 16 bytes; three values stored at any earlier level',
  'Tests only use the current level on small arenas; stale levels combined with exhausted arenas or padding never occur.',
  [SB, UB], [('level comparison', SB + ': try_alloc'), ('level comparison', UB + ': try_alloc_at')], tech=BOTH, note=BASE + HIST)
p('C05', 'Values placed in the arena keep their contents and are never dropped by it',
  'A value moved into the arena is stored aligned and unchanged behind the returned reference and stays so whatever is allocated or written afterwards. If there is no room the value is handed back (or, for owning boxes, dropped exactly once); a stored value is dropped only by its owning box, exactly once.',
  ['inputs', 'histories'],
  'two placements of types of size 0 to 16 and alignment 1 to 16 with any contents into arenas of 3 to 40 bytes, starting from any fill level; histories of three values of 1 or 32 bytes by six entry points, current or at any earlier level',
  'Tests place one or two integers; overlap of differently aligned neighbours and drop counts on the failure path are not observed.',
  [SB, LK], [('leak / leak_box / get', SB), ('LeakBox ownership', LK)], tech=BOTH, note=BASE + HIST)
p('C06', 'Reallocation, zeroed allocation and deallocation keep the allocator contract',
  'Growing or shrinking a block keeps its contents up to the smaller size and yields a block valid for the new layout; if that fails the old block stays valid and unchanged. Zeroed requests return zeroed memory even where the arena was used before, and releasing one block never disturbs or recycles memory that is still in use.',
  ['inputs', 'histories'],
  'old block up to 4 bytes with any contents, any new size (full usize range) and alignment up to 8, arenas of 19 bytes, any neighbours; through both the global and the local allocator interface; histories of three operations on two blocks of 3, 8 or 13 bytes',
  'The global allocator test runs one program; failure of a reallocation and reuse of dirty memory are not exercised.',
  [SB, 'alloc-traits/src/local.rs'], [('GlobalAlloc and LocalAlloc for the arena', SB)], tech=BOTH, note=BASE + HIST)
p('C07', 'Resetting and zeroing an arena restores exactly its initial state',
  'After a reset the whole storage is available again and every request behaves as on a new arena; a zeroed arena reads as all zeroes; an arena made from a value contains exactly the bytes of that value.',
  ['inputs', 'histories'],
  'arenas of up to 37 bytes at any fill level and with any contents, both the thread-safe and the unsynchronised arena; histories of one request, a reset, another request and a reset, inline, zeroed, from a value, and on the heap',
  'One test resets one arena; levels and contents are not varied.',
  [SB, UB], [('reset', SB), ('reset', UB), ('zeroed / new', SB)], tech=BOTH, note=BASE + HIST)
p('C08', 'Unsynchronised arenas hand out in-bounds, aligned, unshared memory and all of it',
  'Every block returned by the single-threaded arenas lies inside the memory they own, is aligned and sized as requested and behind everything handed out earlier; a request succeeds exactly if the block fits. This holds for arenas inside their own object, on the heap, and over borrowed memory, and a new arena starts empty.',
  ['inputs', 'histories'],
  'every fill level, every layout (full usize range), arenas of 1 to 48 bytes of alignment 1 to 32, inline, heap-backed (sizes up to 40) and over borrowed memory of any start and length up to 71 bytes; histories of two requests to arenas of each kind',
  'The tests make a handful of allocations of one type; over-aligned storage types, uninitialised bookkeeping of heap arenas and the address-dependent padding are invisible to them.',
  [UB], [('try_alloc', UB), ('index and data layout', UB + ': MemBump'), ('from_mem', UB)], tech=BOTH, note=BASE + HIST)
p('C09', 'Borrowed memory can be turned into an arena and back without loss',
  'Any byte buffer becomes an arena exactly if it can hold the aligned bookkeeping; the arena lies inside the buffer and offers everything behind the bookkeeping. Taking the arena apart returns its memory and level, from which the same arena can be made again with all values in place.',
  ['inputs'], 'buffers of any start address, any length up to 71 bytes and any contents; histories of two (thorough: three) requests, dissolutions and new arenas in the same memory, at three start addresses',
  'Tests use one aligned buffer; unaligned and too short buffers are not tried.',
  [UB], [('from_mem / into_mem / from_mem_unchecked', UB)], tech=BOTH, note=BASE + HIST)
p('C10', 'Stack scratch arrays have exactly the requested elements, for every length',
  'Running a closure on a stack-allocated array either provides exactly the requested number of aligned, writable, mutually independent elements or reports that it cannot; the closure runs exactly once and its result is returned. Lengths that overflow any layout are refused up front, without panicking.',
  ['inputs'], 'construction: every length (full usize range) for element sizes 0, 1, 3 and 8; running: element sizes 0 to 32 with every length up to 4..20, and every length up to 1151 bytes of u8, 1150 of u16 and [u8; 3], 2 KiB of a 32-aligned type, and lengths up to three below and one above every power of two up to 2^20 bytes and beyond',
  'Tests run a few lengths of one type; the size classes of the implementation have one boundary per power of two.',
  [LK], [('Alloca size-class dispatch', LK + ': Alloca')], tech=BOTH, note=BASE + HIST)
p('C11', 'Chained arenas keep all their values and release every block exactly once',
  'References into any link of a chain stay valid, disjoint and unchanged while the chain grows or is merged with another, and requests go to the newest link with its exact remaining capacity. Dropping a chain releases each heap block once and none twice; impossible link sizes are refused.',
  ['inputs', 'histories'], 'chains of one to three links of up to 13 bytes with symbolic contents, merging chains of two links, link sizes over the full usize range for refusal; histories of four operations (new link, merging, requests of three sizes)',
  'One test appends once; merging chains and release counts are never observed.',
  [CH, UB], [('linked list of heap arenas', CH), ('Drop for Chain', CH)], tech=BOTH, note=BASE + HIST)
p('C12', 'Typed and array requests of the unsynchronised arena follow the type layout',
  'A typed request succeeds exactly if the value fits (and the given level, if any, is current), places the value aligned at the first free address, and hands the value back on failure. Array requests do the same for every length, including zero-sized elements and length zero, and the same storage can be found again from the level alone.',
  ['inputs', 'histories'], 'arenas of 5 to 40 bytes at any fill level; types of size 0 to 16, alignment 1 to 16; array lengths over the full usize range; any current or stale level; histories of three requests for boxes and arrays of seven types',
  'Tests allocate one type in one order; zero-sized values, alignment padding and over-long arrays are not covered.',
  [UB], [('get / get_at / get_unchecked / bump_box / bump_array', UB)], tech=BOTH, note=BASE + HIST)
p('C13', 'An owning reference drops its value exactly once or hands it out exactly once',
  'The owned value is dropped exactly once when the owner goes away, and never if ownership was taken out, converted to a plain reference or to a raw pointer; unsized contents are dropped element by element. Reading, replacing and pinning through the owner refer to the one stored value.',
  ['inputs', 'histories'], 'every exit path (drop, take, leak, into_raw and from_raw, pin, uninitialised write), slices of up to 4 elements, symbolic contents; types of size 0 to 16; seven ways to give up an owner, slices of up to 3 elements',
  'Tests check that values can be read; drop counts per exit path are not asserted.',
  [LK], [('Drop, take, leak, raw conversions', LK + ': LeakBox')], tech=BOTH, note=BASE + HIST)
p('C14', 'An exit stack pins its values and drops them once, last in first out',
  'Registered values stay at their address, unchanged and disjoint, until the stack is emptied or dropped; then each is dropped exactly once in reverse order of registration. A value that does not fit is dropped at once or returned as documented without disturbing the others, and replacing the contents drops the old ones first and always has room.',
  ['inputs', 'histories'], 'three registrations of values of four kinds (1 to 24 bytes, alignment 1 to 16, zero-sized with destructor) with any ids, then dropping or emptying the stack; reuse after emptying; histories of four to six operations on two slots that are taken, filled or abandoned in any order',
  'The doc example pushes a few closures; order and counts across mixed sizes and alignments are not asserted.',
  [ES], [('linked list of type-erased values in an arena', ES), ('pop_all / Drop', ES)], tech=BOTH, note=BASE + HIST)
p('C15', 'A panic in one destructor does not keep an exit stack from dropping the rest',
  'If dropping a registered value panics, every other registered value is still dropped exactly once, no value is dropped twice, and the panic propagates.',
  ['fault_sequences', 'inputs'], 'stacks of up to three values (thorough: four) of three kinds (1 byte; 32 bytes, 16-aligned; zero-sized), any one of which panics in its destructor, dropped, emptied or replaced by set, and used again afterwards; two panicking destructors (which may abort)',
  'No test lets a destructor panic.',
  [ES], [('UnwindFlag', ES + ': inner_pop_all_with_unsafe_self_and_pinned')], tech=SYMEX, note=SBASE)
p('C16', 'A fixed-capacity vector behaves like a vector that refuses to grow',
  'Every operation has the same result and the same effect on length, order and contents as on an ordinary vector limited to the capacity; a full vector returns the rejected value and never writes outside its memory. Splitting or shrinking hands out exactly the memory behind the kept part.',
  ['inputs', 'histories'], 'one arbitrary operation (push, pop, truncate, fill, extend, split, shrink, slice access) from every state with capacity up to 4, any fill, any contents and up to one element of slack; elements of 0 to 3 bytes and with destructors; any start address; histories of two (thorough: three) of twelve operations at capacity 4, also on both halves of a vector split in two',
  'Tests run short fixed scripts; each operation at every fill, with slack bytes, is not covered.',
  [FV], [('push, pop, truncate, fill, split, shrink', FV)], tech=BOTH, note=BASE + HIST)
p('C17', 'Every element of a fixed vector leaves it exactly once',
  'Each element put into the vector is either returned to the caller or dropped, exactly once, whichever sequence of operations removes it, and elements that are still inside are dropped with the vector. No left-over or moved-out slot is ever dropped.',
  ['inputs', 'histories'], 'every state with capacity up to 4, any fill and distinct symbolic ids, one of nine operations, then dropping whatever remains; histories of two (thorough: three) of nine operations at capacity 3, three operations for zero-sized elements',
  'Drop counts are asserted for a single script only.',
  [FV], [('Drop, truncate, pop, drain, split', FV)], tech=BOTH, note=BASE + HIST)
p('C18', 'Draining removes exactly the given range, for any range',
  'Draining a range yields exactly its elements in order from both ends, drops those that were not consumed, and closes the gap keeping the others in order; a range that is not inside the vector is refused by a panic without changing it. A drain that is leaked leaves no element in the vector twice or after it was handed out.',
  ['inputs', 'histories'], 'vectors of up to 4 elements with any contents; every combination of included, excluded and unbounded ends over the full usize range; any order of up to 5 steps from both ends; histories of two (thorough: three) drains with pushes in between at capacity 4',
  'Tests drain one or two hand-picked ranges from the front.',
  [FV], [('drain', FV + ': drain'), ('Drop for Drain', FV)], tech=BOTH, note=BASE + HIST)
p('C19', 'Shared ownership counts always match the handles that exist',
  'The strong and weak counts equal the number of handles of each kind; the value is dropped exactly once, when the last strong handle goes, upgrading succeeds exactly while one exists, and unique access is granted exactly if there is a single handle. The memory comes back, whole, to whoever gives up the last handle, and memory that cannot hold the value is refused.',
  ['histories', 'inputs'], 'one arbitrary operation from every combination of up to four strong and four weak handles, and all histories of up to 4 (thorough: 6) operations; two value types, memory at any 8-aligned address with up to 24 spare bytes; histories of four (thorough: five) of eleven operations over three strong and two weak handles, or of two from every number of handles',
  'Tests follow two or three fixed histories.',
  [RC], [('counts in the shared box', RC), ('Drop for Rc and Weak', RC)], tech=BOTH, note=BASE + HIST)
p('C20', 'Destructors may use the handles of the value that is being dropped',
  'While a shared value is being dropped its own weak handles can be cloned, dropped and fail to upgrade without touching freed or reused memory, and no value is dropped twice. The memory is handed back only after the last handle is gone.',
  ['histories', 'inputs'], 'a value holding a weak handle to itself and performing any of its operations in its destructor; a chain of two values; six kinds of use by the destructor with up to two handles inside and one outside; a list of three values',
  'No test puts handles inside the shared value.',
  [RC], [('order of decrement and drop', RC + ': Drop')], tech=BOTH, note=BASE + HIST)
p('C21', 'Splitting and casting uninitialised memory partitions it exactly',
  'Every way to split or cast a region yields parts that are disjoint, in order, aligned for their type, and together exactly the original region; a request that does not fit fails and returns the region unchanged. References and slices made from a part cover exactly that part.',
  ['inputs', 'histories'], 'regions of any start address and any length up to 31 bytes, any split position or layout (full usize range), element sizes 0, 1, 2, 3, 4, 8, by layout, by type, by byte offset and by element; histories of two (thorough: three) splits and casts of any piece, after which every piece is written',
  'Tests split a few aligned regions; metadata of the parts and unaligned starts are not checked.',
  [UN], [('split_at_byte, split_layout, split_cast, split_at', UN)], tech=BOTH, note=BASE + HIST)
p('C22', 'A box in borrowed memory owns its value, not its memory',
  'The boxed value is dropped exactly once unless it is taken out or leaked, and dissolving the box gives back all of its memory, uninitialised, for reuse. Contents can be read and written through the box, and unsized contents are dropped completely.',
  ['inputs', 'histories'], 'types of 0 to 24 bytes with symbolic contents, every exit path, slices of up to 3 elements and trait objects; six ways to give up a box, including reuse of its memory',
  'Tests only read the value back.',
  [BX], [('Drop, into_raw, from_raw, into_inner', BX)], tech=BOTH, note=BASE + HIST)
p('C23', 'Values, vectors and copies made through any allocator fit and are complete',
  'Requests for a value, a shared value or a vector of any capacity through the allocator extension succeed exactly if the allocator has room, are aligned, and have exactly the requested size. Copies of slices, strings and dynamically sized values are equal to the source, have its length and behaviour, do not overlap it, and stay unchanged when the source is modified.',
  ['inputs', 'histories'], 'arenas of 20 to 40 bytes at any fill level; value types of size 0 to 8; vector capacities over the full usize range; slices of up to 5 elements of size 0 to 4, strings of up to 4 bytes, trait objects of four implementing types including over-aligned zero-sized ones; histories of two (thorough: three) of nine kinds of requests to an arena of 45 bytes',
  'Tests copy one slice; element counts of zero-sized types, alignment and exhaustion are not covered.',
  [AL], [('LocalAllocLeakExt', AL)], tech=BOTH, note=BASE + HIST)
p('C24', 'Filling a container pulls exactly the items it keeps',
  'Filling takes items from the iterator only while there is room, keeps them in order behind what was there, and leaves all others in the iterator; an exhausted iterator is not polled again, and a full container does not poll at all. Counting and checked variants report exactly the number of items pulled and whether room ran out, and fallible items stop at the first error.',
  ['inputs', 'histories'], 'iterators of up to 5 items with any values, not fused; options, slices of up to 4 slots, vectors of capacity up to 3, ring buffers of capacity 2, results of options and slices; all entry points; two fills in a row of options, vectors and ring buffers (rotated) of capacity 3',
  'Doc tests fill one option and one vector from infinite iterators.',
  ['fill/src/fill.rs'], [('Fill implementations', 'fill/src/fill.rs')], tech=BOTH, note=BASE + HIST)
p('C25', 'Unsizing a pointer keeps its address, value, ownership and counts',
  'Coercing any supported pointer to an unsized target keeps its address and yields the behaviour, size and alignment of the original type. Owning pointers own the same one value afterwards and shared ones keep their counts.',
  ['inputs'], 'references, raw, non-null and pinned pointers, boxes, shared and weak pointers (with or without a value) of std and of this workspace, to trait objects (four implementing types), slices, functions of 0, 1, 2 and 6 arguments (shared, mutable, consuming), iterators, futures, formatting and Any; symbolic contents',
  'Tests coerce one type per pointer kind and do not look at counts or drops.',
  ['unsize/src/lib.rs', 'unsize/src/alloc_impls.rs', 'unsize/src/coercion_impls.rs', BX, UN], [('CoerciblePtr implementations', 'unsize/src/lib.rs'), ('unsize_with', 'unsize/src/lib.rs')])
p('C26', 'Containers compare, hash and format exactly as their contents do',
  'For every container, each comparison operator, the hash and every formatting style give the result of applying the same operation to the contents, also for partially ordered contents. Equal containers have equal hashes.',
  ['inputs'], 'boxes, shared pointers, owning references and vectors of up to 2 elements of a type whose operators are mutually independent functions of a symbolic byte',
  'Tests never compare containers.',
  [BX, RC, FV, LK], [('delegating trait implementations', BX), ('delegating trait implementations', RC), ('delegating trait implementations', FV)])
p('C27', 'Default allocator methods and layout types keep the contract for user allocators',
  'For any allocator providing only the required methods, the default zeroed request zeroes exactly its block and the default reallocation keeps the contents up to the smaller size, releases the old block exactly once on success, and keeps it on failure. Layout conversions describe exactly the layout they were made from and are refused exactly for empty ones.',
  ['inputs'], 'user allocator over a 24-byte buffer with arbitrary contents that may fail at any call; old and new sizes up to 8, alignments up to 8; layouts over the full usize range',
  'The defaults are never called by a test.',
  ['alloc-traits/src/local.rs', 'alloc-traits/src/layout.rs', 'alloc-traits/src/util.rs'], [('alloc_zeroed / realloc defaults', 'alloc-traits/src/local.rs'), ('NonZeroLayout', 'alloc-traits/src/layout.rs')])
p('C28', 'A panic while elements move or drop never makes a vector drop twice',
  'If a destructor or an iterator panics during any operation of a fixed vector, no element is dropped twice and none that is still inside has been dropped. Truncation stops at that element and the vector keeps exactly those before it; filling keeps what was pulled so far; dropping the vector drops all others, and the panic propagates.',
  ['fault_sequences', 'histories', 'inputs'], 'vectors of capacity 3 with any fill, one (thorough: two) of nine operations with any arguments, then dropping the vector; any one element whose destructor panics, or an iterator that panics at any item; elements of 1 byte and of 32 bytes with alignment 16',
  'No test lets a destructor or an iterator panic.',
  [FV], [('truncate, drain, fill, split, Drop', FV)], tech=SYMEX, note=SBASE)

p('C29', 'Owners stay consistent when the destructor of their value panics',
  'If the destructor of an owned value panics while its box, shared pointer, chain or arena reference goes away or while the value is replaced, the value is still dropped exactly once and never again, all other elements and values are dropped, counts and memory are as after a normal drop, and the panic propagates. A closure that panics inside a scratch array drops nothing twice.',
  ['fault_sequences', 'histories', 'inputs'], 'owning references, boxes in borrowed memory, slices of up to 3 elements and trait objects, every exit path including replacement, swapping and reuse of the memory; shared handles: histories of two or three (thorough: more) of eleven operations, destructors that use their own weak handles, lists of three; chains of up to five links; scratch arrays of up to 3 elements; any one destructor (or the closure) panics; values of 1 byte and of 32 bytes with alignment 16',
  'No test lets a destructor panic.',
  [LK, BX, RC, CH, SB], [('Drop of LeakBox', LK), ('Drop of Box', BX), ('Drop of Rc: the weak count is released after the value', RC)], tech=SYMEX, note=SBASE)
p('C30', 'A panic during a fill neither loses nor duplicates items',
  'If the iterator or the destructor of an overwritten value panics during a fill, the container holds exactly what it held before and the items pulled so far, each once and in order; nothing is dropped twice, and everything is dropped exactly once with the container. The container can be filled again afterwards.',
  ['fault_sequences', 'inputs'], 'options, vectors and ring buffers (rotated) of capacity 3, slices of up to 4 slots, results of vectors; up to 3 items, two fills in a row by any entry point; the iterator panics at any item, or the destructor of any one value panics',
  'Tests fill from iterators that do not panic.',
  ['fill/src/fill.rs'], [('Fill implementations', 'fill/src/fill.rs')], tech=SYMEX, note=SBASE)

p('C31', 'Threads see fill levels that only grow, and never wait for each other',
  'Whatever other threads do meanwhile, the fill level an operation reports is never behind one that a finished operation has reported, lies behind the block if it allocated one, and a mismatch names a level that was really current. Every request finishes although other threads stop in the middle of theirs, after a number of attempts that grows only with the number of allocations the others complete meanwhile.',
  ['schedules', 'inputs'],
  'arenas of 6, 8 and 12 bytes at any fill level up to 3; every thread\'s request up to 4 bytes and alignment 4; before any atomic operations of one request, two complete operations by other threads at any two (or the same) points, or one that is itself interrupted; levels from inspection, untyped, typed, exact (also stale), zero-sized and refused requests; at most four atomic operations per attempt; sequentially consistent atomics',
  'The threaded test does not look at levels, and no test stops a thread between two atomic operations.',
  [SB], [('compare-exchange on the consumed counter', SB + ': bump'), ('level() and the levels of allocations', SB), ('the retry loop', SB + ': try_alloc')], tech=KANI + '; interleavings as symbolic variables')
p('C32', 'Borrows end with their arena, and values cross threads only if they may',
  'A reference, box or vector obtained from an arena or buffer cannot be used after that memory is gone or reset, and a value that must stay on its thread cannot be moved to another one through any container.',
  ['inputs'], 'none: not claimed',
  'Tests can show that one program compiles or not (some doc tests do), not that no program gets around it.',
  [SB, UB, LK, UN, RC, ES], [('lifetimes and variance of the public types', LK), ('AllocTime', 'alloc-traits/src/local.rs'), ('unsafe impl Sync', SB)],
  na='Lifetimes, variance and auto traits are decided by the type checker and leave no trace in the compiled code, so there is no execution to make symbolic; the quantifier is over programs, not over inputs.')

def main():
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for q in P:
            f.write(json.dumps(dict(
                id=q['id'], title=q['title'], statement=q['statement'],
                quantifier=dict(over=q['over'], text='Bounds of the check: ' + q['bounds']),
                why_tests_cant=q['tests'],
                anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']], observe_at=q['observe'], hook_needed=None))) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none', enable='no hooks: the harnesses use the public API only', source_commits=[]),
             checks=[dict(property=q['id'], quick_cmd=f"./check.py {q['id']}", thorough_cmd=f"./check.py {q['id']}", technique=q['tech'], level='other',
                          level_note=(q['note'] or BASE) + 'Bounds: ' + q['bounds'] + '.') for q in P if not q['na']],
             not_applicable=[dict(property=q['id'], reason=q['na']) for q in P if q['na']],
             notes='Findings repaired on this tree are listed in known_findings.txt.')
    for q in P:
        assert len(q['title']) <= 80, q['id']
    json.dump(m, open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
main()
