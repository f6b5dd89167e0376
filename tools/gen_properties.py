#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so long lines stay reviewable)."""
import json, os
C='src/korin/core/public/containers/'; T='src/korin/core/public/templates/'; M='src/korin/core/public/math/'
H='src/korin/core/public/hal/'; P='src/korin/core/private/'; G='src/korin/core/public/generic/'; R='src/korin/core/public/regex/'
props=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=None
    props.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

prop('C01','A dynamic array behaves as an indexable sequence under every history',
 'After any sequence of insertions (at the front, at any valid index, at the back, one or several items at a time, including an item of the array itself), removals, pops, indexed reads and writes, write-or-extend accesses, clears and resets, a dynamic array holds exactly the items, in exactly the order, that an ideal sequence put through the same operations would hold. This is true for plain element types and for element types that own resources, and iterating forwards, backwards or by offset visits exactly that sequence. The reported item count and byte size always agree with it.',
 ['histories','inputs'],'all operation histories over arrays of plain and of owning element types, at any size and across every growth of the buffer; indices within the documented range',
 'the array test appends and removes a handful of items by hand, almost only of plain types; growth boundaries, mid-array edits of owning items and long mixed histories are never visited',
 [C+'array.h',G+'generic_platform_memory.h'],[('Array::resizeIfNecessary growth policy',C+'array.h'),('insertAt/insertFirst/insertLast, removeAt/removeLast/popAt',C+'array.h'),('element shifting: moveElements/copyElements',G+'generic_platform_memory.h'),('ArrayIteratorBase',C+'array.h')],
 ['getCount, getBytes, operator[], iterators after every operation'],[('buffer/capacity/count','storage and live prefix',C+'array.h')])

prop('C02','Containers construct and destroy every element exactly once',
 'Whatever is done with an array, list, ordered tree, map or set - growth, insertion, removal, popping, clearing, copying, assigning, moving, destruction - every element object that comes to life is destroyed exactly once, none is used before it is constructed or after it is destroyed, and none is left alive when its container is gone. At any moment the number of live element objects owned by a container equals its item count. All memory a container obtained from its allocator is given back to that same allocator, exactly once, and an array that is reset holds none.',
 ['histories'],'all histories of container operations over element types that count their constructions and destructions, with containers bound to an allocator that audits its blocks',
 'the tests use plain elements, for which lost or doubled destructions are invisible, and check no allocator balance',
 [C+'array.h',C+'list.h',C+'tree.h',C+'map.h',C+'set.h',G+'generic_platform_memory.h',H+'malloc_object.h'],
 [('construct*/move*/destroyElements',G+'generic_platform_memory.h'),('Link/BinaryNode creation and destruction',C+'list.h, '+C+'tree.h'),('MallocObject::createObject/free',H+'malloc_object.h')],['instance counters of the element type; audit of every alloc/free reaching the allocator'])

prop('C03','A linked list behaves as a sequence under every history',
 'After any sequence of pushes and pops at either end, removals through an iterator, clears, copies, assignments and moves, a linked list holds exactly the items, in order, that an ideal double-ended sequence would hold. Forward and backward traversal agree with each other, the reported length equals the number of items traversed, and removing through an iterator removes that item only.',
 ['histories'],'all operation histories on lists, including assignments between lists of every pair of lengths',
 'the list test walks one short scripted history and never assigns between lists of different lengths nor traverses backwards after removals',
 [C+'list.h'],[('pushBack/pushFront/popBack/popFront/remove link surgery',C+'list.h'),('copy assignment reusing links',C+'list.h')],['iteration both ways, getLength/getCount, first/last access'],[('head/tail/length','ends of the chain and the cached length',C+'list.h')])

prop('C04','The ordered tree stays sorted, linked and balanced under every history',
 'After any sequence of insertions (with duplicates, unique-only or replacing), lookups, removals by value or position, copies and moves, an ordered tree contains exactly the multiset of items put in and not taken out, and iterating forwards visits them in non-decreasing order of its comparison, backwards in the reverse order. A lookup by value finds an equal item exactly when one is present, minimum, maximum and lower or upper starting positions are the right items, and removing through a position removes that item only and yields the position of its successor. The depth stays logarithmic: never more than twice the logarithm of the item count plus a constant.',
 ['histories'],'all insert/remove histories in any order (ascending, descending, random, adversarial), any size, default and custom comparison',
 'the tree test inserts a few numbers and removes a couple; rebalancing on removal has many configurations which only long random histories reach',
 [C+'tree.h'],[('red-black insertion and removal repair, rotations',C+'tree.h'),('threading of in-order predecessor/successor',C+'tree.h'),('data swap on removal of inner nodes',C+'tree.h'),('find/insertUnique/replace',C+'tree.h')],['iteration both ways, find, node depth through public node accessors'],[('root, node colour, prev/next threads','balance and in-order neighbours',C+'tree.h')])

prop('C05','A map is a function from keys to their most recent values',
 'After any history of insertions, subscript writes, removals by key or position, pops, copies and moves, a map associates with each key exactly the value most recently given to it, and nothing with any other key. Lookup, membership, count, subscript and iteration in key order all agree with that association, and looking up an absent key has no effect except that the subscript form creates a default value.',
 ['histories'],'all histories over maps with integer and owning keys/values and default or custom comparison',
 'the map test makes a few inserts and lookups; overwriting, pop, subscript creation and removal interleavings are not explored',
 [C+'map.h',C+'pair.h',C+'tree.h'],[('insert replacing an existing pair',C+'map.h'),('operator[] get-or-create',C+'map.h'),('key-only comparison of pairs',C+'pair.h, '+C+'map.h')],['find/has/get, count, ordered iteration after each operation'])

prop('C06','Sets implement set algebra and the inclusion order exactly',
 'A set holds each item at most once, whatever is added, removed or tested, and iterates in order. Union, intersection and difference - in place or producing a new set - give exactly the mathematical result and leave the other operand unchanged, also when both operands are the same set or empty. Equality, subset, strict subset and their converses answer exactly as set inclusion defines, and "has", "any of" and "all of" queries agree with membership.',
 ['inputs','histories'],'all pairs of sets, including empty, equal, nested, disjoint and interleaved ones, and all histories of adds and removes',
 'the set test fixes a few small sets; the boundary relations (prefix subsets, empty operands, self operations, single-key queries) are not sampled',
 [C+'set.h',C+'tree.h'],[('operator+=, *=, -= merge walks',C+'set.h'),('relational operators walking two sets in step',C+'set.h'),('insert-unique',C+'set.h, '+C+'tree.h')],['membership, count, iteration, operator results against mathematical sets'])

prop('C07','Copies are independent, moves transfer, self-assignment is harmless',
 'Copying any container, string, map, set, optional or function object - by construction or by assignment over any previous content - yields an equal value, and later changes to either one never show in the other. Moving yields the former value in the destination, also when the source is a part of an item the destination holds until then; the source can still be destroyed, assigned to and then used again as normal. Assigning an object to itself leaves its value unchanged, moving it onto itself leaves it valid.',
 ['histories'],'all pairs of source and destination states (empty, small, large, differing sizes) followed by any mutation of either side',
 'tests copy or move each container once at most and barely use either side afterwards; empty sources and shrinking or growing assignments are missed',
 [C+'array.h',C+'list.h',C+'tree.h',C+'map.h',C+'set.h',C+'string.h',T+'optional.h',T+'function.h',H+'malloc_object.h'],
 [('copy/move constructors and assignments',C+'*.h'),('cloneSubtree reusing destination nodes',C+'tree.h'),('allocator hand-over on move',H+'malloc_object.h')],['contents of both sides after each step'])

prop('C08','String edits equal the same edits on an ideal text',
 'Any history of building, appending (text, characters, numbers, other strings, the string itself), substring, splice, in-place replacement, clearing, copying and moving leaves a string with exactly the characters an ideal text would have after the same edits. The length counts those characters, the data is terminated by a null character right after them, and no edit reads or writes outside the text.',
 ['histories','inputs'],'all edit histories over strings of any length, including empty ones, empty arguments, edits at either end, and arguments that alias the string itself',
 'the string test exercises a few literals; aliasing, growth boundaries, empty arguments and splice at the ends are not reached',
 [C+'string.h',C+'array.h'],[('appendString/appendFormat',C+'string.h'),('splice shifting left and right',C+'string.h'),('null terminator kept as last array item',C+'string.h')],['getLength, data, comparison with a reference text after every step'])

prop('C09','String search, replacement and comparison agree with their definitions',
 'Finding a character or pattern from any start position returns the first position at or after it where it occurs, or reports absence; finding all occurrences and replacing all occurrences of a non-empty pattern give exactly what a naive scan gives. Comparison is a total lexicographic order consistent with equality, case-insensitive comparison ignores exactly letter case, and upper/lower-casing changes exactly the letters. All of these terminate and stay inside the text for every text, pattern and position.',
 ['inputs'],'all texts over small and full alphabets, all patterns (absent, overlapping, longer than the text, at the very end), all start positions',
 'the string test looks up a couple of patterns; overlapping matches, matches at the last position, out-of-range starts and orderings of prefixes are not covered',
 [C+'string.h',G+'generic_platform_strings.h'],[('findIndex/findAll/replaceAll window loop',C+'string.h'),('cmp/icmp and relational operators',C+'string.h, '+G+'generic_platform_strings.h'),('toUpper/toLower',C+'string.h')],['results against a naive reference'])

prop('C10','Formatting values into strings is faithful at every length',
 'Formatting with a format string gives exactly the text standard formatted printing gives, for results of any length. Converting numbers, characters, text and containers to strings, or appending them, gives their documented textual form, and replacing a string by the text of a value leaves that text and nothing of the former content.',
 ['inputs'],'all integer and floating-point values, format results shorter and longer than any internal buffer, containers of any size',
 'tests format a few short values; long results and overwriting of longer strings are never tried',
 [C+'string.h',C+'array.h',C+'list.h',C+'map.h',C+'set.h'],[('appendFormat/format buffer',C+'string.h'),('printString and operator<<=',C+'string.h'),('toString of containers',C+'*.h')],['text compared with snprintf and with a reference rendering'])

prop('C11','Sorting orders and permutes, nothing else',
 'Sorting any range in place, with the default or a caller-supplied ordering, leaves it in non-decreasing order with respect to that ordering and holding exactly the items it held before. Sorting with a companion range also applies to the companion exactly the permutation it applies to the data, and partitioning around an item puts every smaller item before the returned boundary and no smaller item after it. All of them finish for every input, including empty, single-item, all-equal, sorted and reverse-sorted ranges, and never touch anything outside the range.',
 ['inputs'],'all sequences of any length, item type (plain, owning) and comparison, including many duplicates',
 'there is no test of sorting at all',
 ['src/korin/core/public/algorithm/sort.h'],[('quicksort/argquicksort partition loops','src/korin/core/public/algorithm/sort.h')],['range contents before/after with guard items on both sides'])

prop('C12','A memory pool hands out disjoint, aligned, reusable blocks up to its capacity',
 'For every block size, block count and alignment, a fixed pool serves exactly as many simultaneous blocks as it was built for, each aligned as requested, large enough, inside the pool and overlapping no other live block, so that what is written into one block stays until it is freed. When exhausted it reports that with a null result and no side effect, a freed block can be had again, and it recognises exactly the addresses that belong to it. Requests larger than the block size are refused.',
 ['histories','configurations'],'all pool geometries and all alloc/free histories, any free order',
 'tests use one or two geometries and free in a fixed order; contents of live blocks are not checked for corruption',
 [H+'malloc_pool.h',P+'hal/malloc_pool.cpp'],[('MemoryPool free list threaded through blocks',P+'hal/malloc_pool.cpp'),('logical block size computation',P+'hal/malloc_pool.cpp, '+H+'malloc_pool.h'),('MallocPool alloc/realloc/free',H+'malloc_pool.h')],['addresses, alignments, byte patterns in live blocks, used-block counts'])

prop('C13','The growing pool allocator never fails, overlaps, leaks or runs away',
 'A pool allocator that grows on demand serves any number of blocks, each aligned, big enough and disjoint from every other live block and from its own bookkeeping, and keeps block contents until they are freed, whatever the order of allocations and frees over however many pools. Freed blocks are used again before memory is enlarged, so the memory held is bounded by the peak number of live blocks. On destruction all memory goes back to the underlying allocator.',
 ['histories','configurations'],'all alloc/free histories spanning many pools, all block sizes, block counts and alignments, any destruction point',
 'the test allocates a few objects in one geometry and never frees across several pools or destroys an allocator with several live pools under audit',
 [H+'malloc_pool.h',P+'hal/malloc_pool.cpp',C+'tree.h'],[('MallocPooled pool list, createPool/destroyPool',P+'hal/malloc_pool.cpp'),('tree of pools keyed by address to find the owner of a block',P+'hal/malloc_pool.cpp'),('in-buffer placement of the pool header',P+'hal/malloc_pool.cpp')],['block disjointness, byte patterns, allocator audit'])

prop('C14','The size-class allocator returns a block that really fits every request',
 'For every size from one byte up to its largest class and every supported configuration of size classes, the size-class allocator returns an aligned block of at least that many bytes, disjoint from all other live blocks, whose contents survive until it is freed or, up to the smaller size, until it is resized; requests above its maximum block size are refused with null. Freed blocks are reused, freeing null or blocks in any order is safe, and destroying the allocator returns everything it took.',
 ['histories','configurations','inputs'],'all request sizes including class boundaries, all alloc/free histories mixing classes, all class configurations the constructor accepts',
 'the test requests a few sizes; class boundaries, mixed frees and non-default class configurations are not tested',
 [H+'malloc_binned.h',P+'hal/malloc_binned.cpp'],[('getBucketIdx logarithm of size',H+'malloc_binned.h'),('block header / owner lookup',P+'hal/malloc_binned.cpp')],['block usable extent by writing all requested bytes under address checking'])

prop('C15','The system allocator honours alignment and preserves contents on resize',
 'Allocation through the general-purpose allocator returns memory of the requested size, aligned to the requested power of two, disjoint from other live blocks. Resizing keeps the bytes up to the smaller of the old and new sizes and the requested alignment; resizing from null allocates, and resizing to zero frees. Typed allocation gives room for the requested number of objects at their natural alignment.',
 ['histories','inputs'],'all sizes, power-of-two alignments and alloc/realloc/free histories',
 'the tests call alloc and realloc on a few sizes and check contents for one pattern',
 [H+'malloc_ansi.h',P+'hal/malloc_ansi.cpp',H+'malloc_object.h',H+'memory_base.h'],[('posix_memalign with minimum alignment',P+'hal/malloc_ansi.cpp'),('realloc copy of min(old,new)',P+'hal/malloc_ansi.cpp'),('MallocObject sizing',H+'malloc_object.h')],['addresses and byte patterns'])

prop('C16','Containers give the same results on every allocator',
 'A container behaves identically whether it uses the global allocator, one passed in, or one it owns by type (fixed pool, growing pool, size-class), as long as that allocator can serve it. It takes all its memory from the allocator it was given and from no other, also after the contents of another container are copied into it by assignment; taking over a container by a move, constructing or assigning, takes over its allocator too. It returns all memory before its allocator goes away.',
 ['configurations','histories'],'all container types crossed with allocator kinds, over histories that stay within allocator capacity',
 'tests bind a container to a custom allocator in a couple of places and check only contents, not provenance',
 [C+'array.h',C+'list.h',C+'tree.h',C+'map.h',C+'set.h',H+'malloc_object.h'],[('allocator-owning container specialisations',C+'*.h'),('MallocObject indirection to an external or global allocator',H+'malloc_object.h')],['audit of alloc/free per allocator, contents versus reference'])

prop('C17','Atomic variables make concurrent updates indivisible',
 'When several threads load, store, add, subtract, increment, decrement or exchange the same atomic variable, every operation takes effect as if at one instant: no update is lost, each returned value is one the variable really had at that step, and exchanged values are neither duplicated nor dropped. In a single thread each operation returns and leaves exactly the value ordinary arithmetic on that type gives, for every integer width and for pointers.',
 ['schedules','inputs'],'all interleavings of operations of several threads on one atomic of any supported type; all operand values',
 'the atomic test uses one thread pattern with increments of one type; fetch-style results, exchange and pointer arithmetic are not checked under concurrency',
 [T+'atomic.h','src/korin/core/public/unix/unix_platform_atomics.h'],[('compiler __sync builtins','src/korin/core/public/unix/unix_platform_atomics.h'),('pre/post increment derived from fetch-add',T+'atomic.h')],['multiset of returned values and final value'])

prop('C18','An optional holds exactly what was last put in it, once',
 'After any history of emplacing, assigning, copying, moving, resetting and reading, an optional reports having a value exactly when one was last given and not since removed, and that value is the one it yields. A contained object is constructed once and destroyed once, at replacement, reset or end of life of the optional.',
 ['histories'],'all histories over optionals of plain and owning types in every state combination',
 'the optional test uses plain values and short scripts, where double or missing destruction cannot show',
 [T+'optional.h'],[('OptionalStorage union and engaged flag',T+'optional.h'),('emplace/reset/assignment',T+'optional.h')],['engagement, value, instance counter of contained type'])

prop('C19','A function object calls precisely what it was bound to',
 'Calling a function object bound to a free function or to a lambda or functor of any captured state returns what the target returns for the same arguments and has the same effects. This remains true through copies, moves, rebinding and storage in containers; captured state is duplicated by copies, destroyed once, and an unbound object reports itself unbound.',
 ['histories','inputs'],'all kinds of targets and capture sizes, all bind/copy/move/unbind histories',
 'function objects have no test at all',
 [T+'function.h',T+'functional.h'],[('callable wrapper with heap storage for the functor',T+'function.h'),('copy/move/unbind',T+'function.h')],['return values, side effects, instance counter of captured state'])

prop('C20','Tuples, static arrays and pairs keep each component in its place',
 'A tuple, pair or fixed-size array gives back at each position exactly the value stored there, whatever the number, order and types of components, and writing one position never changes another. Ordering pairs by key depends on the keys only. Names read back the text and length they were built from, and joining names joins their texts.',
 ['inputs','configurations'],'all component values, a range of type lists and sizes, including repeated types and nested tuples',
 'they are used only indirectly by other tests; per-position integrity over type lists is not checked',
 [C+'tuple.h',T+'array.h',C+'pair.h',T+'name.h'],[('recursive tuple storage and get',C+'tuple.h'),('StaticArray indexing and comparison',T+'array.h'),('Pair comparison through its comparator',C+'pair.h'),('Name table',T+'name.h')],['component values'])

prop('C21','Vector arithmetic obeys component-wise algebra',
 'For vectors of two, three and four components of any scalar type, every arithmetic operation acts on each component exactly as scalar arithmetic does, in-place and out-of-place forms agree, and scalars broadcast. Dot product, cross product, squared length and, in single precision, length and normalisation satisfy their defining identities, with SIMD and scalar variants giving the same numbers up to rounding. Comparison masks answer per component, and a relational operator is true exactly when it holds for all components.',
 ['inputs'],'all component values (integers without overflow, finite floats of widely different magnitude), all dimensions',
 'the vector tests check a few constants; per-component mix-ups that cancel on those constants, and the SIMD paths, pass unnoticed',
 [M+'vec2.h',M+'vec3.h',M+'vec4.h',M+'simd_float.h',M+'simd.h'],[('component-wise operators',M+'vec*.h'),('SSE specialisation of the four-component float vector',M+'vec4.h, '+M+'simd_float.h')],['components of results against scalar computation'])

prop('C22','Quaternions are composable rotations, matrices keep their elements in place',
 'A quaternion built from an axis and angle rotates any vector as the rotation formula prescribes, preserving lengths and angles; its inverse undoes it, multiplying quaternions composes their rotations (the right operand first), and the axis, angle and frame read back describe the same rotation. Matrices give back every element where it was put, in every form of access, compare element by element, and transposing exchanges rows and columns and is its own inverse.',
 ['inputs'],'all unit quaternions, axes, angles (including zero, pi and tiny ones), vectors and matrices of any entries',
 'the quaternion test only rotates about a single axis, where all conventions commute; matrices have no test',
 [M+'quat.h',M+'mat4.h',M+'vec3.h',M+'vec4.h'],[('Hamilton product and vector rotation',M+'quat.h'),('angle-axis extraction',M+'quat.h'),('matrix element access/transpose',M+'mat4.h')],['rotated vectors against Rodrigues formula, composition, inverse'])

prop('C23','Integer and scalar math helpers are exact on their whole domain',
 'Minimum, maximum, absolute value, integer power, integer logarithm, alignment to a power of two and related helpers return the mathematically defined result for every argument of every supported width for which it is representable, including the extremes of the range. Alignment down gives the largest multiple not above the argument, alignment up the next multiple strictly above it; variadic forms agree with folding the two-argument form.',
 ['inputs'],'all argument values of 8 to 64 bit integers (8/16-bit exhaustively) and floats, all powers of two',
 'the math test checks a few hand-picked arguments',
 [G+'generic_platform_math.h','src/korin/core/public/unix/unix_platform_math.h',M+'math.h'],[('shift/log/align bit tricks',G+'generic_platform_math.h'),('builtin count-leading-zeros logarithm',G+'generic_platform_math.h')],['results against wide-integer reference arithmetic'])

prop('C24','Raw memory and C-string primitives agree with their definitions',
 'Raw memory copy, overlapping move, comparison and element-wise construct, copy, move and destroy act on exactly the given range, for plain and owning element types and every overlap. String length, comparison, bounded comparison and their case-insensitive forms return a sign consistent with the first difference, are antisymmetric and agree with each other, and never look past the terminator (unbounded forms) or the given bound (bounded forms).',
 ['inputs'],'all byte strings, lengths, offsets and overlaps, element types with and without resources',
 'these primitives are only exercised indirectly, on short equal-sign cases',
 [G+'generic_platform_memory.h',G+'generic_platform_strings.h'],[('memcmp, copyElements, moveElements direction choice',G+'generic_platform_memory.h'),('cmp/icmp/cmpn/icmpn loops',G+'generic_platform_strings.h')],['bytes and instance counters; results against libc'])

prop('C25','A regular expression accepts exactly the language its pattern denotes',
 'For every well-formed pattern built from literals, escaped symbols, the wildcard (any character), character classes and ranges, negated classes, anchors and word boundaries, groups, alternation and the quantifiers ?, *, +, {n}, {n,} and {n,m}, matching a text succeeds exactly when the whole text belongs to the language ECMAScript semantics gives that pattern. The answer depends only on pattern and text, not on other expressions or earlier matches; braces that form no quantifier stand for themselves. Automata put together with the builder, look-aheads included, accept exactly the language of the expression they were built from, over characters or any other alphabet whose texts the caller tells how to read, before and after removal of empty states.',
 ['inputs','programs'],'all well-formed patterns of bounded size and all texts, including nested and empty-matching groups under quantifiers',
 'the regex tests try a few dozen pattern/text pairs; the interplay of groups, alternation and quantifiers is combinatorial',
 ['src/korin/core/private/regex/regex.cpp',R+'automaton.h',R+'state.h',R+'executor.h',R+'regex.h'],[('pattern parser',P+'regex/regex.cpp'),('automaton construction: join, branch, repeat, skip, clone',R+'automaton.h'),('backtracking executor',R+'executor.h')],['match verdict against an independent matcher'])

prop('C26','Compiling and matching regular expressions is total and memory-safe',
 'For every well-formed pattern with moderate repetition counts and every text, including empty ones, texts ending anywhere and patterns whose repeated part can match nothing, compiling the pattern and matching it finishes and yields an answer, reads nothing outside pattern and text, and releases all memory it took. Malformed patterns are tolerated in the same way: no crash, no hang, no out-of-bounds access.',
 ['inputs','programs'],'all null-free byte strings as patterns (malformed ones included) and as texts, of bounded length and bounded product of repetition counts',
 'tests use only well-behaved patterns; termination and bounds are universally quantified claims',
 ['src/korin/core/private/regex/regex.cpp',R+'automaton.h',R+'state.h',R+'executor.h'],[('index-driven pattern parser',P+'regex/regex.cpp'),('executor stack and end-of-input test',R+'executor.h'),('graph ownership and destruction',R+'automaton.h')],['sanitised execution with exact-size pattern and text buffers'])

prop('C27','Comparisons form consistent orders, so ordered containers can trust them',
 'Three-way comparison of numbers, strings, pairs by key, pointed-to objects and objects with relational operators returns negative, zero or positive exactly as less, equal or greater, is antisymmetric and transitive, and agrees with the relational operators of the same type over the full range of values. Containers built over such types with the default comparison therefore keep every distinct value apart and merge no two, also at the extremes of the value range.',
 ['inputs'],'all pairs and triples of values of every comparable type, including extremes, mixed signs and bytes above 127',
 'tests compare small positive numbers only; sign, overflow and narrowing mistakes are invisible there',
 [T+'functional.h',T+'utility.h',C+'pair.h',C+'string.h',G+'generic_platform_strings.h'],[('ThreeWayCompare',T+'functional.h'),('Pair compare policies',C+'pair.h'),('string comparison',C+'string.h')],['signs against the mathematical order; set/map contents over extreme keys'])

prop('C28','Type queries and transformations answer as the language defines',
 'For every type, however qualified, pointed to, referenced or arrayed, the library\'s queries (is it void, a pointer, a reference, volatile, integral, an array, a function, the same type, a base class, trivially constructible, copyable, destructible) and transformations (removing or adding pointers, references, qualifiers and extents, decay, conditional choice, enabling, moving and forwarding) give the answer or the type that the language defines for it. In particular an element type with a copy, move, assignment or destructor of its own is never reported as plain memory.',
 ['inputs'],'all types made by layers of qualifiers, pointers, references and arrays over fundamental, enumeration, class, function and member types',
 'the one existing test asks a dozen types; partial specialisations that overlook a qualifier, a reference kind or an integer type are invisible to it, and containers pick the wrong (bitwise) algorithm silently',
 [T+'types.h',T+'base.h',T+'enable_if.h',T+'utility.h'],[('type queries and transformations',T+'types.h'),('ChooseType',T+'base.h'),('EnableIf',T+'enable_if.h'),('move / forward',T+'utility.h')],['differential against <type_traits> over a generated table of about 4000 types'])

prop('C29','The library can be used before main begins and after it ends',
 'A program may build, change and read strings, containers, optional values, callables, allocators and regular expressions in the initialisers of its global objects, in main, in functions registered for the exit and in the destructors of its global objects, in whatever order the translation units are linked: named constants have their values and the global allocator serves requests from the first initialiser on, objects made before main keep their contents through main, and whatever is still alive at the exit can be changed, read and destroyed as usual and gives back all its memory.',
 ['histories','schedules'],'all histories of operations on objects with static storage duration, spread over the stages of the life of a process, and all orders in which translation units are initialised',
 'every test runs inside main, on objects that live and die there; a global allocator, constant or table that is initialised too late or destroyed too early is invisible to it',
 [P+'hal/memory_base.cpp',P+'hal/malloc_ansi.cpp',P+'math/math.cpp',P+'regex/regex.cpp'],[('global allocator',P+'hal/memory_base.cpp'),('named constants',P+'math/math.cpp'),('character classes and parser tables',P+'regex/regex.cpp')],['content of static objects against models in every stage; exit status; memory given back after the last destructor'])

prop('C30','Threads that share nothing do not disturb one another, and reading is sharing nothing',
 'Threads that each work on objects of their own (strings, containers, optional values, function objects, regular expressions, pool allocators, vectors) get the results they would get alone, whatever the schedule: no operation keeps hidden state that is shared between objects without synchronisation. Several threads may read one object at the same time through its constant operations (look up, iterate, compare, search, copy, format, match, call) as long as no thread changes it; a constant operation does not secretly write to the object. No such program has a data race.',
 ['schedules','histories'],'all programs of several threads over disjoint objects or over objects nobody changes, under every interleaving',
 'the tests have one thread; a static scratch buffer, a cache inside a constant operation or an unsynchronised counter leaves them green',
 [C+'string.h',C+'array.h',C+'list.h',C+'tree.h',C+'map.h',C+'set.h',R+'state.h',R+'executor.h',H+'malloc_pool.h',P+'hal/memory_base.cpp'],[('constant operations of containers and texts',C+'*.h'),('state identifiers',R+'state.h'),('global allocator',P+'hal/memory_base.cpp')],['results of every thread against its own model; memory accesses judged by a happens-before race detector'])

prop('C31','Headers work in any order, alone, repeated, and in any number of source files',
 'A program may include any choice of the public headers, in any order, repeatedly, with standard headers before, between and after them, in one or several source files, in debug and release builds and at any optimisation level: it compiles, it links (nothing is defined twice, nothing is missing), each header offers all it needs for its own types and operations to be used, and a type means the same in every source file, so that a value built in one can be changed in another and read in a third.',
 ['inputs','histories'],'all programs made of source files that include any sequence of the public headers and use what these offer',
 'each test program is a single source file with one fixed sequence of headers; a missing include, a function that is not inline, a name that collides with a standard header or a layout that depends on what was included before leaves them green',
 ['src/korin/core/public'],[('assertions',"src/korin/core/public/misc/assert.h"),('pairs',C+'pair.h'),('forward declarations with default arguments',C+'containers_types.h'),('expression shorthand',R+'regex.h')],['compiler and linker verdict; result of each operation in the program; content of values passed between source files'])

prop('C32','What is declared constexpr can be computed by the compiler, with the run-time result',
 'Every operation the library declares constexpr can be used where the language requires a constant (static assertions, array bounds, template arguments, enumerators, objects initialised before any code runs) and then has the value it has at run time: minimum, maximum, absolute value, logarithm and alignment of numbers; construction, copying, moving, element access of static arrays and tuples; literal names, their length and joins of names; the names of types; construction of vectors and matrices and comparison of three-component vectors; move and forward; initial values of atomics.',
 ['inputs','histories'],'all constant expressions over the constexpr operations of the library, for all fundamental types and values inside their range',
 'a template function declared constexpr compiles whether or not it can ever be evaluated by the compiler; the tests evaluate at run time only',
 ['src/korin/core/public/generic/generic_platform_math.h','src/korin/core/public/templates','src/korin/core/public/math','src/korin/core/public/containers/tuple.h'],[('numbers',G+'generic_platform_math.h'),('static arrays',T+'array.h'),('names',T+'name.h'),('tuples',C+'tuple.h'),('vectors',M+'vec3.h')],['verdict of the compiler on each generated constant expression'])

prop('C33','Operations do the work their data structure promises and no more, and copy nothing they could move',
 'Counted in items made, copied, moved, assigned, destroyed and compared, and in requests to the allocator: pushing to and popping from the back of arrays and texts costs a constant amount on average over any history and asks the allocator a number of times logarithmic in the size; inserting into or removing from an array moves only what follows; pushing to, popping from and removing from lists costs a constant amount each; inserting, finding and removing in trees, sets and maps costs a logarithmic number of comparisons and a constant amount else, whatever the order of insertion; operators over sets cost no more than the items of both; moving a container, an optional or a function object touches none of what it holds; reading and traversing make no item and ask for no memory; and no item is copied by an operation that was given a temporary or only moves items about.',
 ['inputs','histories'],'all histories over arrays, texts, lists, trees, sets, maps, optionals, function objects, tuples, pairs and sorting of random orders, up to tens of thousands of items',
 'results are the same however much work was done, so no test that looks at results at small sizes can tell',
 ['src/korin/core/public/containers','src/korin/core/public/templates','src/korin/core/public/generic/generic_platform_memory.h'],[('array growth',C+'array.h'),('balance of trees',C+'tree.h'),('relocation',G+'generic_platform_memory.h'),('function objects',T+'function.h')],['number of constructions, copies, assignments, destructions and comparisons of items; number and size of requests to the allocator'])

prop('C34','References and iterators stay good while what they denote stays in the container',
 'A reference, pointer or iterator to an item of a list stays good over every operation that does not remove that item; one to an item of a tree, set or map stays good over every insertion, lookup and overwriting, and over every removal except that of the item itself or of the one right before it; all of them stay good when the container is moved, and belong to the new one then; items of an array stay where they are while the room it was given suffices and when it is moved; what insertion returns is a reference to the very item in the container; an iterator kept goes on to the neighbours its item has now.',
 ['histories'],'all histories over lists, trees, sets, maps and arrays with any set of references and iterators kept',
 'a test looks at contents; that an item has silently moved to another place shows only in what was kept from before',
 ['src/korin/core/public/containers'],[('lists',C+'list.h'),('trees',C+'tree.h'),('maps',C+'map.h'),('arrays',C+'array.h')],['item read through each reference and iterator kept; its neighbours; place where it is found'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
print(len(props))
