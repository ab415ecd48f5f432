# Source of properties.jsonl (python3 tools/props.py writes it).
import json, os
C = "src/korin/core/public/"
P = "src/korin/core/private/"
PROPS = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    PROPS.append(d)

# ---------------------------------------------------------------- memory
prop("M01", "A memory pool hands out disjoint, aligned, in-bounds blocks and conserves them",
 "For any positive block count, block size and alignment, a memory pool hands out exactly that many blocks before returning null, and at every moment the outstanding blocks are pairwise disjoint, aligned as requested (at least pointer-aligned), lie inside the pool's buffer and keep the bytes their owner wrote while others are acquired and released. The number of free blocks always equals the total minus the outstanding ones, a released block becomes available again, and the ownership test is true for every block of the pool and false for memory outside its buffer. The single-pool allocator built on it refuses requests larger or more aligned than its blocks, never hands out a block that is still in use, and on reallocation either keeps a block that is big enough, with its contents, or refuses.",
 ["inputs", "histories"], "All block counts 1-4, block sizes and alignments, own or caller-provided buffer, and all acquire/release/alloc/realloc/free histories of bounded length.",
 "The unit test uses one configuration and a strictly nested acquire/release order; it never checks disjointness, contents, other sizes, the ownership test or reallocation.",
 [C+"hal/malloc_pool.h", P+"hal/malloc_pool.cpp", C+"generic/generic_platform_math.h"],
 [("embedded free list after each block", P+"hal/malloc_pool.cpp MemoryPool"), ("logical block size computation", C+"hal/malloc_pool.h computeLogicalBlockSize")],
 ["returned addresses", "getNumFreeBlocks", "isExhausted", "hasBlock"])
prop("M02", "The growing pool allocator keeps all live blocks valid and reuses freed ones",
 "For any history of allocations and frees, every live block of the growing pool allocator lies in one of its pools, is aligned as configured, overlaps neither another live block nor the allocator's own bookkeeping, and keeps its contents. A freed block goes back to the pool it came from, a new pool is created only when no existing pool has a free block, blocks of other origin are never claimed as its own, requests larger or more aligned than its blocks get null, and destroying the allocator releases every pool exactly once. Reallocation keeps a block that is big enough and refuses a bigger size.",
 ["inputs", "histories"], "All block sizes/alignments up to a bound, 1-2 blocks per pool, 1-3 initial pools, and all alloc/free histories of bounded length.",
 "The unit test only allocates and counts pools; it never frees, never checks disjointness or contents and uses one block size.",
 [C+"hal/malloc_pool.h", P+"hal/malloc_pool.cpp", C+"containers/tree.h"],
 [("pool list and pool tree", C+"hal/malloc_pool.h MallocPooled::createPool/destroyPool"), ("block lookup by address", P+"hal/malloc_pool.cpp MallocPooled::free/hasBlock")],
 ["returned addresses", "getNumPools", "hasBlock", "heap state after destruction"])
prop("M03", "The binned allocator serves every size from a bucket whose blocks are big enough",
 "Every non-zero size up to the biggest bucket gets a block of at least that many bytes that is aligned, overlaps no other live block and keeps its contents, and larger sizes get null rather than a short block. A freed block becomes available again to requests of its bucket and to no other bucket. Reallocation preserves the first min(old, new) bytes and yields a block big enough for the new size; destroying the allocator releases all of its buckets.",
 ["inputs", "histories", "configurations"], "All sizes up to beyond the maximum, all small bucket configurations, bounded alloc/realloc/free histories.",
 "The unit test allocates one size from the default configuration and never frees or reallocates.",
 [C+"hal/malloc_binned.h", P+"hal/malloc_binned.cpp"],
 [("bucket index from log2 of size", C+"hal/malloc_binned.h getBucketIdx"), ("bucket construction", P+"hal/malloc_binned.cpp MallocBinned::MallocBinned")],
 ["returned addresses", "block contents"])
prop("M04", "The standard allocator honours size and alignment and realloc preserves contents",
 "Every block returned by the default allocator has at least the requested size and the requested alignment (never less than a pointer's), and freeing it releases it exactly once. Reallocation yields a block of the new size and alignment holding the first min(old, new) bytes of the original, which is released; reallocating null allocates, and reallocating to zero bytes frees and returns null. The typed wrapper around an allocator requests exactly count times the element size with the element's alignment.",
 ["inputs", "histories"], "All sizes within bounds, all power-of-two alignments up to 4096, arbitrary contents.",
 "The unit test uses a handful of sizes with one byte pattern and cannot observe out-of-bounds copies or leaks.",
 [P+"hal/malloc_ansi.cpp", C+"hal/malloc_ansi.h", C+"hal/malloc_object.h", C+"hal/memory_base.h"],
 [("realloc as allocate-copy-free", P+"hal/malloc_ansi.cpp"), ("typed wrapper", C+"hal/malloc_object.h")],
 ["returned addresses", "block contents", "heap state"])
prop("M05", "Element-range helpers construct, copy, move and destroy exactly the given range",
 "The element-range helpers default-construct, copy-construct, copy-assign, move-assign and destroy exactly the given number of elements, in place and touching nothing else, for trivial and non-trivial element types alike. Moving a range gives the right result whichever way source and destination overlap. Comparing memory reports zero exactly when all bytes are equal, and otherwise the documented sign of the first difference.",
 ["inputs"], "All ranges of bounded length, all relative offsets of source and destination, arbitrary element values, trivial and non-trivial element types.",
 "No unit test calls them directly; containers of trivially copyable elements never reach the non-trivial variants.",
 [C+"generic/generic_platform_memory.h"],
 [("non-trivial and trivial overloads", C+"generic/generic_platform_memory.h")],
 ["element values", "constructor/destructor balance"])
# ---------------------------------------------------------------- containers
prop("C01", "Array behaves as the mathematical sequence for every operation history",
 "After any history of adds, inserts of one or several elements at any index, removals, pops, indexed growth, clears and resets, an array holds exactly the sequence of elements that the operations define on a list, with element count, element access and iteration agreeing with it. No operation reads or writes outside the elements and storage the array owns, whatever its capacity was before. Inserting past the end places the element at that index and grows the array to contain it.",
 ["inputs", "histories"], "All histories of bounded length with arbitrary indices and arbitrary element values, starting from any small size and capacity.",
 "The unit test runs one fixed script; out-of-bounds reads and growth-boundary cases are invisible to it.",
 [C+"containers/array.h"],
 [("growth and shifting", C+"containers/array.h resizeIfNecessary/insertAt/removeAt"), ("element moves", C+"generic/generic_platform_memory.h")],
 ["element values", "getCount", "iteration"])
prop("C02", "Array constructs and destroys every element exactly once",
 "For element types with constructors and destructors, every element ever created by an array (by adding, inserting, growing, copying or assigning) is destroyed exactly once, no destroyed or never-constructed element is ever read, assigned or destroyed, and no memory is leaked. The elements alive at any moment are exactly those in the array.",
 ["inputs", "histories"], "All operation histories of bounded length on an array of objects that own heap memory.",
 "The unit tests use trivially copyable elements almost everywhere and cannot see leaks, double destruction or use of unconstructed memory.",
 [C+"containers/array.h", C+"generic/generic_platform_memory.h"],
 [("construct/destroy element helpers", C+"generic/generic_platform_memory.h")],
 ["constructor/destructor balance", "heap state"])
prop("C03", "Container copies are equal and independent; moves transfer contents",
 "Copy-constructing or copy-assigning an array, list, tree, map, set or string - empty ones and self-assignment included - yields a container with equal contents that shares no storage with the original, so that changing or destroying either leaves the other intact. Moving (for all of them but strings, which are copied) transfers the contents, leaves the source without the contents but usable again, and releases what the target held before. An element added as an lvalue is copied and keeps its value; one added as an rvalue is moved.",
 ["inputs", "histories"], "All pairs of source/target contents of bounded size, all copy/move/self-assign forms, all later single modifications.",
 "The unit tests copy a few fixed non-empty containers and never check the other side or empty sources.",
 [C+"containers/array.h", C+"containers/list.h", C+"containers/tree.h", C+"containers/map.h", C+"containers/set.h", C+"containers/string.h"],
 [("copy/move constructors and assignment operators", C+"containers/*.h")],
 ["contents", "heap state"])
prop("L01", "List links stay consistent and agree with the sequence and its length",
 "After any history of front and back insertions of one or several elements, pops, removals by link or iterator and clears, the list read forwards is the sequence the operations define, read backwards is its reverse, and the reported length is the number of elements. Head and tail accessors agree with that sequence. No operation or iteration ever touches a link that was freed or is not in the list.",
 ["inputs", "histories"], "All operation histories of bounded length, arbitrary positions and values.",
 "The unit test runs one script and looks mostly forwards; dangling links at either end go unnoticed.",
 [C+"containers/list.h"],
 [("link splicing", C+"containers/list.h insert/remove/pushBack/pushFront")],
 ["forward and backward iteration", "getCount/length"])
prop("L02", "List constructs and destroys every element exactly once and leaks no link",
 "For element types that own resources, every element stored in a list is destroyed exactly once, whether it is popped, removed, cleared, assigned over or left to the destructor, and every link is given back to the allocator that supplied it while that allocator still exists. Passing an element by lvalue copies it and leaves the caller's object unchanged; passing it by rvalue moves it.",
 ["inputs", "histories"], "All operation histories of bounded length on a list of resource-owning objects, default and custom allocators.",
 "The unit tests use plain integers; leaks and premature destruction of an embedded allocator are invisible to them.",
 [C+"containers/list.h", C+"hal/malloc_object.h"],
 [("clear and destructor", C+"containers/list.h")],
 ["constructor/destructor balance", "heap state"])
prop("T01", "The binary tree stays an ordered, balanced red-black tree with a sorted thread",
 "After any history of insertions (unique or repeated keys) and removals, an in-order walk of the tree visits exactly the stored values in non-decreasing order, the next/previous links thread the nodes in that same order, and parent links mirror child links. The tree satisfies the red-black rules - black root, no red node with a red child, equally many black nodes on every path down - so that its height is logarithmic. The reported node count is the number of stored values. Unique insertion leaves an equal stored value in place and replacement overrides it.",
 ["inputs", "histories"], "All insertion/removal histories of bounded length over arbitrary keys.",
 "The unit test inserts a few fixed sequences; the rebalancing cases reached depend on the exact order and are exponentially many.",
 [C+"containers/tree.h"],
 [("insertion repair", C+"containers/tree.h BinaryNode::insert/repairInserted"), ("removal repair", C+"containers/tree.h BinaryNode::remove/repairRemoved"), ("rotations", C+"containers/tree.h rotateLeft/rotateRight")],
 ["node links and colors", "iteration", "getNumNodes"])
prop("T02", "Tree searches agree with the sorted contents",
 "For any contents and any probe, searching the tree finds an element comparing equal exactly when one is stored, and minimum, maximum, first and last match and key-range lookups return the element that a scan of the sorted contents would. Iterating forwards from the first element or backwards from the last visits every element exactly once, in order.",
 ["inputs", "histories"], "All contents of bounded size (with duplicates), all probes.",
 "The unit test probes a few keys of fixed trees.",
 [C+"containers/tree.h"],
 [("descent by comparison", C+"containers/tree.h BinaryNode::find*"), ("iterators", C+"containers/tree.h")],
 ["find results", "iteration"])
prop("K01", "Map behaves as a finite map for every operation history",
 "After any history of inserts, overwriting emplacements, index accesses, removals and clears, looking a key up yields the value most recently associated with it and absent keys are reported absent, with the count equal to the number of distinct keys present. Iteration visits every pair exactly once in increasing key order. Index access creates a default entry exactly when the key is absent, and values that own resources are destroyed exactly once.",
 ["inputs", "histories"], "All operation histories of bounded length over arbitrary keys and values.",
 "The unit test runs one script on a few keys.",
 [C+"containers/map.h", C+"containers/tree.h", C+"containers/pair.h"],
 [("tree of pairs", C+"containers/map.h")],
 ["find/has/get results", "iteration", "getCount"])
prop("K02", "Set membership, insertion and removal agree with the mathematical set",
 "After any history of adds, removals and clears a set contains exactly the keys added and not removed since, each once, in increasing order, and its count is their number; of several items that compare equal the one added first stays. Membership of one key, of any of several keys and of all of several keys, and element retrieval, agree with that. Resource-owning keys are destroyed exactly once.",
 ["inputs", "histories"], "All operation histories of bounded length over arbitrary keys, all probes.",
 "The unit test uses a few fixed keys and only one form of the multi-key queries.",
 [C+"containers/set.h", C+"containers/tree.h"],
 [("tree of keys", C+"containers/set.h")],
 ["has/any/all results", "iteration", "getCount"])
prop("K03", "Set union, intersection, difference and inclusion follow set algebra",
 "For any two sets, empty, equal and aliased ones included, union, intersection and difference - as operators, in place or as methods - contain exactly the keys the mathematical operations define and leave their operands untouched unless assigned to. Equality, inequality and the strict and non-strict subset/superset comparisons are exactly mathematical equality and (proper) inclusion, hence a partial order.",
 ["inputs"], "All pairs of sets of bounded size over arbitrary keys.",
 "The unit test checks a few literal pairs.",
 [C+"containers/set.h"],
 [("merge-walk of two sorted sequences", C+"containers/set.h operators")],
 ["results of the operators"])
prop("S01", "Strings keep length, terminator and contents through every edit",
 "After construction from C strings, buffers, a repeated character, names, a capacity or other strings, and after any history of assignments, appends, concatenations, substrings, splices and character writes, a string's length and characters are exactly those the operations define, and the buffer is terminated right after them. No edit reads or writes outside the storage of its operands, and operands not assigned to are unchanged, also when a string is combined with itself.",
 ["inputs", "histories"], "All contents of bounded length, all offsets and lengths, edit histories of bounded length, self-aliasing included.",
 "The unit test checks fixed literals.",
 [C+"containers/string.h", C+"containers/array.h"],
 [("buffer editing on top of the array", C+"containers/string.h")],
 ["getLength", "characters", "terminator"])
prop("S02", "String search, replacement and case operations are exact",
 "Searching for a character or a pattern, from any start position, returns the first position at which it occurs and reports absence exactly when it does not occur; listing all occurrences, overlapping ones included, gives exactly those positions in order. Replacement substitutes exactly the non-overlapping left-to-right occurrences of a non-empty pattern (an empty one replaces nothing), and case conversion changes exactly the ASCII letters of the other case.",
 ["inputs"], "All texts and patterns of bounded length, all start positions.",
 "The unit test checks a handful of literals.",
 [C+"containers/string.h", C+"generic/generic_platform_strings.h"],
 [("search and replace loops", C+"containers/string.h findIndex/replace*")],
 ["returned indices and strings"])
prop("S03", "String comparison is a total order consistent with equality",
 "Comparing strings is lexicographic on their characters taken as bytes: equality holds exactly when lengths and characters agree, exactly one of less, equal, greater holds for any two strings, and the order is transitive, with prefixes ordered first. Case-insensitive comparison gives zero exactly when the strings agree up to ASCII case, and bounded comparisons consider exactly the given window.",
 ["inputs"], "All pairs/triples of strings of bounded length over all characters.",
 "The unit test compares a few literals.",
 [C+"containers/string.h", C+"generic/generic_platform_strings.h"],
 [("character comparison loops", C+"generic/generic_platform_strings.h")],
 ["comparison results"])
prop("S04", "Formatting and printing produce exactly the formatted text",
 "Building a string from a format and arguments, and appending, adding or printing numbers, objects with their own text, and arrays, yields exactly the text they denote, whatever its length and whatever the string held before, with length and terminator agreeing. The source of the format and the arguments are not modified and no memory outside the string is touched.",
 ["inputs"], "All previous contents of bounded length, format outputs from empty to beyond the internal buffer size.",
 "The unit test formats short fixed texts into empty strings.",
 [C+"containers/string.h"],
 [("fixed-size intermediate buffer", C+"containers/string.h format/appendFormat/printString")],
 ["resulting string"])
prop("A01", "Sorting yields an ordered permutation of the input",
 "For every input range and strict order, sorting leaves the range ordered and holding exactly the same multiset of elements, touching nothing outside the range. Partitioning around a pivot value moves exactly the elements that compare smaller to the front and returns the boundary. Elements with resources are neither leaked nor duplicated.",
 ["inputs"], "All ranges of bounded length (pointers, list iterators) with arbitrary values (duplicates included), ascending and custom comparisons.",
 "There is no unit test of the sort; benches sort random data.",
 [C+"algorithm/sort.h"],
 [("quicksort partition and recursion", C+"algorithm/sort.h")],
 ["range contents after sorting", "returned boundary"])
prop("A02", "Argument sorting permutes companion data consistently",
 "Sorting a key range together with a companion range leaves the keys ordered and applies to the companion exactly the permutation applied to the keys, so every key keeps its companion. Nothing outside the two ranges is touched.",
 ["inputs"], "All key arrays of bounded length with arbitrary values, distinct companions.",
 "There is no unit test of it.",
 [C+"algorithm/sort.h"],
 [("co-sorting quicksort", C+"algorithm/sort.h argquicksort")],
 ["both ranges after sorting"])
# ---------------------------------------------------------------- templates
prop("O01", "Optional is engaged exactly when it holds a live value",
 "After any sequence of constructions, copies, moves, assignments, resets and emplacements, an optional reports engaged exactly when it holds a value, and yields the value most recently stored. The contained object is constructed and destroyed exactly once per engagement and never touched while disengaged. Copies are independent and leave their source unchanged; a moved-from optional hands over its value and stays usable.",
 ["inputs", "histories"], "All operation histories of bounded length over two optionals of plain and resource-owning types, arbitrary values.",
 "The unit test runs a few fixed steps with few types and does not watch lifetimes.",
 [C+"templates/optional.h"],
 [("tagged storage", C+"templates/optional.h OptionalStorage")],
 ["hasValue/operator bool", "value", "constructor/destructor balance"])
prop("F01", "A function object calls its target with its own captured state",
 "A function object built from a free function, a closure of any size or a functor calls exactly that target, passing arguments and result through unchanged. It owns its captured state: copies and moves, by construction or assignment and also after the original is gone, call the same target with equal captured state, later changes to one do not show in another, and the captured state is destroyed exactly once. An empty function object reports itself unbound.",
 ["inputs", "histories"], "Arbitrary captured values and arguments, all copy/move/assign/destroy/call histories of bounded length over several function objects.",
 "There is no unit test of copies, moves or lifetimes.",
 [C+"templates/function.h"],
 [("owned closure storage", C+"templates/function.h FunctionBase/FunctionStorage/FunctionCaller")],
 ["call results", "constructor/destructor balance"])
prop("U01", "Tuples, pairs and static arrays keep, copy and compare their elements exactly",
 "A tuple, pair or static array built from given values returns each of them unchanged at its position (tuples also as the first item of a type), and copying, moving, assigning and converting keep every element and its order; writing one element changes no other. Lvalues are copied in, rvalues moved. Pairs compare by their keys with the given comparison; the default three-way comparison is 1, -1 or 0 as the first argument is greater, smaller or neither.",
 ["inputs"], "Arbitrary element values, tuples of bounded arity.",
 "Unit tests do not cover them.",
 [C+"containers/tuple.h", C+"containers/pair.h", C+"templates/array.h"],
 [("recursive storage", C+"containers/tuple.h")],
 ["element values", "comparison results"])
prop("U02", "Swaps exchange, forwarding keeps arguments, names and type queries are exact",
 "Swapping two objects of any type exchanges their values, destroys and leaks nothing, and changes nothing when both are the same object. Moving and forwarding pass the very object they were given and keep its value category, so that callees copy from lvalues and move from rvalues. A name built from a literal, a buffer with a length or a static array refers to exactly that text: its length excludes the terminator, and every index yields the character there; a type's debug name spells the type. The type queries answer as the language defines.",
 ["inputs"], "Arbitrary values and value categories, names of every bounded length with arbitrary text.",
 "No unit test calls them on their own; everything else is built on them.",
 [C+"templates/utility.h", C+"templates/name.h", C+"templates/type_info.h", C+"templates/types.h"],
 [("swap, move and forward", C+"templates/utility.h"), ("buffer and length", C+"templates/name.h Name"), ("specialisations", C+"templates/types.h")],
 ["values after the call", "overload chosen", "getLength/operator[]"])
prop("X01", "Atomic operations are indivisible under every interleaving",
 "For any interleaving of threads operating on one atomic - increments, decrements, additions, subtractions, exchanges, loads, stores and assignments - the final value and all returned values are those of some sequential order of the operations. Fetch-style operations and post-increments return the value before, arithmetic assignment and pre-increments the value after, assignment the assigned value. Pointer atomics move by whole elements. With the default order, operations on several atomics fall into one total order, and what a thread wrote before publishing through an atomic is seen by who sees the publication.",
 ["schedules", "inputs"], "All interleavings of two threads with up to two operations each and of three threads, with delayed stores for the ordering guarantee, arbitrary initial values and operands of 8 to 64 bits.",
 "The unit test increments one counter from a few real threads, which rarely interleave.",
 [C+"templates/atomic.h", C+"unix/unix_platform_atomics.h"],
 [("compiler atomic builtins", C+"unix/unix_platform_atomics.h")],
 ["returned values", "final value"])
# ---------------------------------------------------------------- math
prop("V01", "Vector arithmetic is componentwise in every form",
 "For 2-, 3- and 4-component vectors, negation and + - * / in vector-vector, vector-scalar and scalar-vector form and as in-place assignment apply the operation to corresponding components in operand order (s - v is s minus each component), also when both operands are the same object, and change no operand but the one assigned to. Constructors place components in order (a scalar fills the vector, default is zero, a 3-vector widened to 4 components ends in zero), casts convert every component, component names, array and indexing agree, and the predefined 3-vectors have their named values.",
 ["inputs"], "All component values (all bit patterns), integer and float component types.",
 "The unit tests check a few literals per operator.",
 [C+"math/vec2.h", C+"math/vec3.h", C+"math/vec4.h", P+"math/math.cpp"],
 [("componentwise operators", C+"math/vec*.h")],
 ["component values"])
prop("V02", "Vector comparisons hold exactly when they hold for every component",
 "Each of the six comparison masks of two vectors (equal, not equal, less, greater, less or equal, greater or equal) has bit i set exactly when the relation holds for component i, and each of the six comparison operators holds exactly when its relation holds for every component - as documented, so != demands that all components differ, and NaN components make orderings fail.",
 ["inputs"], "All component values, integer and float component types.",
 "The unit tests check a few literals.",
 [C+"math/vec2.h", C+"math/vec3.h", C+"math/vec4.h"],
 [("comparison operators", C+"math/vec*.h")],
 ["comparison results"])
prop("V03", "Dot, cross, length and normalisation follow their definitions",
 "Dot product is the sum of component products and symmetric; the cross product is orthogonal to both factors and antisymmetric with the right-handed orientation; squared length is the dot product with itself and length its square root. Normalising a non-zero vector, however short, in place or as a copy, yields the vector of length one in the same direction; a vector is nearly zero exactly when its squared length is below four float epsilons. The cross product of plane vectors is along z with the same orientation.",
 ["inputs"], "All component values (over 32-bit integers exactly, over the reals for float vectors).",
 "The unit tests check a few literals.",
 [C+"math/vec2.h", C+"math/vec3.h", C+"math/vec4.h"],
 [("geometric functions", C+"math/vec*.h")],
 ["returned values"])
prop("V04", "The SIMD four-vector moves, combines and stores its components in order",
 "Loading a SIMD vector of four floats from memory (aligned or not), from four given components or from one scalar puts the components in memory order (the given order; the scalar four times), storing writes exactly the four components in that order and no other byte, and a store with a mask writes exactly the components whose bit is set, the lowest bit standing for the first. Addition, subtraction, multiplication and division act on corresponding components and change neither operand.",
 ["inputs"], "All bit patterns of the components, all masks, overlapping and unaligned addresses.",
 "No unit test touches the SIMD vector.",
 [C+"math/simd.h", C+"math/simd_float.h"],
 [("loads, stores and arithmetic", C+"math/simd_float.h")],
 ["stored memory", "component values"])
prop("Q01", "Quaternion algebra implements rotations",
 "Quaternion multiplication is the Hamilton product with the default quaternion as its identity, so p * q rotates by q and then by p; the inverse (unary minus) undoes a unit rotation, and rotating a vector by a unit quaternion equals conjugating it, preserves its length and composes with multiplication. Construction from angle and unit axis, or from a rotation vector (axis times angle, zero included), gives the unit quaternion of that rotation, and extracting angle and axis returns that rotation with a unit axis; direction accessors and axes are the rotated basis vectors.",
 ["inputs"], "All quaternions and vectors over the reals (rounding excluded).",
 "The unit test checks a few literals.",
 [C+"math/quat.h"],
 [("Hamilton product and sandwich rotation", C+"math/quat.h")],
 ["component values"])
prop("N01", "Matrix access, comparison and transposition agree on one storage order",
 "A 4x4 matrix built from a list, a scalar or a buffer holds the given entries row by row (entries not given are zero), and row indexing, (row, column), flat indexing, the flat data pointer and the named entries all address the same entry, so a write through one is read through the others and changes nothing else. Comparison sets bit 15 - i exactly when entry i is equal, == holds exactly when all entries are equal and != is its negation; transposing in place exchanges rows and columns and is its own inverse.",
 ["inputs"], "All values of all entries, bit-exact; integer and float entries.",
 "There is no unit test of the matrix type.",
 [C+"math/mat4.h"],
 [("row-wise storage", C+"math/mat4.h")],
 ["entries"])
prop("P01", "Integer helpers compute alignment, logarithm, powers and extrema exactly",
 "Aligning down gives the greatest multiple of the power-of-two alignment not above the value, aligning up the least multiple strictly above it; the integer logarithm is the floor of the base-2 logarithm (zero for zero); powers with non-negative integer exponents equal repeated multiplication modulo the type; minimum, maximum and absolute value of any number of arguments are the least, greatest and magnitude. All hold for every representable argument whose result is representable (floating-point NaN excluded).",
 ["inputs"], "All values of 8/16/32/64-bit integers, all power-of-two alignments, exponents within bounds.",
 "The unit test checks a few literals.",
 [C+"generic/generic_platform_math.h"],
 [("bit tricks", C+"generic/generic_platform_math.h")],
 ["returned values"])
# ---------------------------------------------------------------- regex
prop("R01", "A regular expression matches exactly the strings of its language",
 "For patterns built from literals, escaped metacharacters, the wildcard (which matches any character), the class escapes \\d \\D \\s \\S \\w \\W, character classes with ranges, escapes and negation, the anchors ^ $ \\b \\B (\\B as documented: between two word characters), alternation, groups and the quantifiers ? * + {n} {n,} {n,m} applied to one item, accept() returns true exactly when the whole subject is in the language the pattern denotes, for every subject string. Compiling the same pattern twice, reusing one compiled expression for many subjects, the free function accept(), and stepping an executor by hand, also after a reset to another input, give the same answers.",
 ["inputs", "programs"], "All subject strings of bounded length over all characters, a family of patterns exercising every construct and their combinations.",
 "The unit tests match a few literals per construct.",
 [C+"regex/regex.h", P+"regex/regex.cpp", C+"regex/automaton.h", C+"regex/state.h", C+"regex/executor.h"],
 [("pattern compilation", P+"regex/regex.cpp"), ("automaton construction", C+"regex/automaton.h"), ("simulation", C+"regex/executor.h")],
 ["match result"])
prop("R02", "Matching terminates and never reads outside pattern or subject",
 "Compiling any well-formed pattern and matching any subject terminates, also when loops go around parts that match nothing, and reads no character beyond the terminator of either, whatever the characters are; a class that is never closed is a literal bracket. Items that stand for a character never match the end of the text. Printing the automaton terminates.",
 ["inputs", "programs"], "All subjects of bounded length and all short patterns over the metacharacters and a literal.",
 "The unit tests run without memory checking on a few literals.",
 [P+"regex/regex.cpp", C+"regex/state.h", C+"regex/executor.h"],
 [("parser scanning", P+"regex/regex.cpp"), ("state stepping", C+"regex/state.h")],
 ["memory accesses", "termination"])
prop("R03", "Compiled expressions release everything they allocate",
 "Compiling an expression, using it any number of times, and destroying it releases every state, executor and buffer exactly once; matching itself leaves nothing behind, executors abandoned half way, copied or reset release what they hold and leave the expression's other uses unaffected; a copied expression is independent of the original.",
 ["inputs", "histories"], "The pattern family, all subjects of bounded length, bounded numbers of uses.",
 "The unit tests do not observe memory.",
 [C+"regex/automaton.h", C+"regex/state.h", C+"regex/executor.h", C+"regex/regex.h"],
 [("state ownership", C+"regex/automaton.h")],
 ["heap state"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in PROPS: f.write(json.dumps(p) + "\n")
    print(len(PROPS))
