I = 'include/bss-util/'
NA = []
prop('P01', 'Growable and fixed arrays behave as the sequence their operations describe',
 'After any sequence of add, insert, remove, resize, copy, move, assignment (including to itself), slicing and iteration, every array container holds exactly the element sequence those operations describe, reads and writes only its own storage, and builds and destroys each element exactly once. This holds for plain, owning and address-sensitive element types and for bit-packed boolean arrays at every index. Copies are independent of their source, and a container releases all its memory when destroyed.',
 ['histories', 'inputs', 'configurations'], 'every operation sequence, every index and every element value, for each storage policy',
 'the tests run one fixed script per container with a handful of values; self-assignment, word-boundary bit insertions, growth at each position and element lifetimes are not reached',
 [I+'Array.h', I+'DynArray.h', I+'Alloc.h'], [{'name': 'ArrayBase / Array / ArbitraryArray', 'where': I+'Array.h'}, {'name': 'DynArray and DynArray<bool>', 'where': I+'DynArray.h'}],
 'all operation sequences within the stated lengths and all element values, for plain, owning and pinned elements, against a reference sequence; heap model detects out-of-bounds, leaks, double destruction')
prop('P02', 'Sorted arrays, maps and binary searches keep order and find the right element',
 'A sorted array or ordered map always stays ordered by its comparison under inserts, removals, key and data replacement, and holds exactly the elements those operations leave. Every lookup finds an element exactly when one with an equal key is present, and nearest-before/nearest-after searches return the true neighbour or report that there is none. The binary search primitives return the correct boundary position for every sorted range including empty ones and ones with duplicates.',
 ['histories', 'inputs'], 'every sequence of keys (including duplicates and extreme values) and operations, every probe key',
 'the tests insert one fixed key set and probe a few keys; order types with duplicates at the ends, extreme keys and replace-then-search are not sampled',
 [I+'ArraySort.h', I+'Map.h', I+'bss_util.h', I+'algo.h'], [{'name': 'ArraySort', 'where': I+'ArraySort.h'}, {'name': 'Map', 'where': I+'Map.h'}, {'name': 'BinarySearch*', 'where': I+'algo.h'}],
 'all order types of up to the stated number of keys with full-range symbolic values, all probe keys')
prop('P03', 'Balanced search trees stay ordered, balanced and complete',
 'Each balanced tree contains exactly the keys (and data) inserted and not removed, whatever the order of insertions, removals, key replacements, clears and moves, and reports correctly whether an insert or removal took effect. In-order traversal and linked iteration visit all keys in sorted order in both directions, lookups and nearest-key lookups agree with that order, duplicates are kept where the tree allows them, and the tree stays balanced. Every node and element is released exactly once.',
 ['histories', 'inputs'], 'every sequence of keys and operations, every probe key',
 'the tests remove in one fixed order from one fixed tree; most rotation cases, duplicate handling, moved-from trees and removal misses are never run',
 [I+'AVLTree.h', I+'AATree.h', I+'TRBtree.h', I+'LLBase.h'], [{'name': 'AVLTree::_insert/_remove/_rebalance', 'where': I+'AVLTree.h'}, {'name': 'AATree::_insert/_remove/_skew/_split', 'where': I+'AATree.h'}, {'name': 'TRB_NodeBase::InsertNode/RemoveNode', 'where': I+'TRBtree.h'}],
 'all order types of the stated number of symbolic keys, and all symbolic operations on prefilled trees, against a reference ordered multiset; balance invariants checked on the real nodes')
prop('P04', 'Hash tables map each key to exactly the value last stored for it',
 'A hash table contains exactly the keys inserted and not removed since, each with the value last stored. Insert, set, remove and lookup by key report the truth about presence for every key, whatever collisions, growth, removals, clears, copies and moves came before. Iteration visits every live entry exactly once, copies are independent of the original, and keys and values are built and destroyed exactly once. Case-insensitive and string-keyed tables compare keys by their text.',
 ['histories', 'inputs'], 'every key, every collision pattern and every operation sequence, for set, map, owned-string and case-insensitive configurations',
 'the tests insert one pseudo-random key set; probing across tombstones, rehash in the middle of a removal history and self-assignment are not reached',
 [I+'Hash.h'], [{'name': 'Hash::Insert/Remove/_resize, kh_* probing', 'where': I+'Hash.h'}],
 'full-range symbolic keys (the hash is executed symbolically), symbolic operations on prefilled tables around the growth and rehash thresholds, against a reference map')
prop('P05', 'Heaps and priority queues always yield the highest-priority item',
 'A binary heap or priority queue holds exactly the items pushed and not yet taken out, and the item in front always has the highest priority (lowest for a min-heap), after any sequence of pushes, pops, removals by position or key, changes of priority, clears, copies and moves. A PriorityHeap key keeps naming its own item until that item leaves. Heapify yields a valid heap and HeapSort a sorted permutation of its input. Items are built and destroyed exactly once.',
 ['histories', 'inputs'], 'every order type of priorities (ties included), every removal position and every operation sequence',
 'the tests push and pop one fixed sequence; removal from the middle whose replacement must move up, ties and key tracking through moves are not run',
 [I+'BinaryHeap.h', I+'PriorityQueue.h'], [{'name': 'BinaryHeap::PercolateUp/PercolateDown/Remove/Heapify/HeapSort', 'where': I+'BinaryHeap.h'}, {'name': 'PriorityQueue / PriorityHeap', 'where': I+'PriorityQueue.h'}],
 'all order types of the stated number of full-range symbolic priorities, all positions, against a reference multiset identified by tags')
prop('P06', 'Linked lists keep the described sequence with consistent links',
 'After any sequence of add, insert before/after any node, remove, clear, copy, concatenation and move, a linked list (pointer based, array based or intrusive) holds exactly the described sequence, its forward and backward links and its ends and length agree, handles of items still in the list keep naming those items, and searching finds the first match from the given start, wrapping around, or nothing. Items are built and destroyed exactly once.',
 ['histories', 'inputs'], 'every operation sequence at every position, with symbolic values',
 'the tests run one script per list type with ints; owning items, copies, growth with fragmented free lists and searches that wrap are not run',
 [I+'LinkedList.h', I+'LinkedArray.h', I+'LLBase.h'], [{'name': 'LinkedList', 'where': I+'LinkedList.h'}, {'name': 'LinkedArray', 'where': I+'LinkedArray.h'}, {'name': 'LLAdd/LLInsert/LLRemove/AltLL*', 'where': I+'LLBase.h'}],
 'all operation sequences of the stated length at every position, against a reference sequence; links checked on the real nodes')
prop('P07', 'Queues, stacks and circular arrays deliver items in their promised order',
 'A queue returns items first-in first-out, a stack last-in first-out, and a random queue returns each item exactly once in some order; a circular array keeps the most recent items up to its capacity, index 0 being the newest, and pops from either end. This holds across wrap-around, growth, capacity changes, clearing, copying and moving, and every item is built and destroyed exactly once.',
 ['histories', 'inputs'], 'every operation sequence, wrap position and value; for the random queue every choice of the generator',
 'the tests push and pop a few ints; growth while wrapped, discards of owning items, copies of wrapped buffers are not run',
 [I+'ArrayCircular.h', I+'Queue.h', I+'Stack.h', I+'RandomQueue.h'], [{'name': 'ArrayCircular', 'where': I+'ArrayCircular.h'}, {'name': 'Queue', 'where': I+'Queue.h'}, {'name': 'Stack', 'where': I+'Stack.h'}, {'name': 'RandomQueue', 'where': I+'RandomQueue.h'}],
 'all operation sequences of the stated length from every wrap position, against a reference sequence')
prop('P08', 'Tries and string tables return exactly the strings put into them',
 'A trie built from any set of distinct non-null words (any bytes, any order, empty word included) returns, for every query, the index of the equal word or the not-found value, both by terminated string and by length, ignoring case where configured. A string table returns string i exactly as it was given, whatever appends, concatenations, copies and moves came before, its length and total size agree with its contents, and dumping and reloading it gives the same table.',
 ['inputs', 'histories'], 'every set of words and every query word; every sequence of table operations',
 'the tests use one ASCII word list; non-ASCII bytes, empty words, prefixes of each other, growth beyond the first block and empty tables are not sampled',
 [I+'Trie.h', I+'StringTable.h', I+'bss_util.h'], [{'name': 'Trie::_init/Get', 'where': I+'Trie.h'}, {'name': 'StringTable', 'where': I+'StringTable.h'}],
 'symbolic words and queries against direct string comparison; growth across the 8-bit index range')
prop('P09', 'Disjoint sets and graph algorithms give the mathematically right answer',
 'A disjoint-set structure puts two elements in the same set exactly when a chain of successful unions connects them, and its set counts, sizes and member lists agree; the spanning forest keeps exactly the edges that join components in order. A graph holds exactly the vertices and edges added and not removed, with consistent incoming and outgoing lists, and its matrix import and export agree with it. Breadth-first search visits each reachable vertex once, in order of distance, and stops when told; max-flow terminates with a conserving flow within capacities whose value equals the minimum cut, and circulations with lower bounds reduce to a flow that meets every demand exactly if one exists.',
 ['histories', 'inputs'], 'every union/find history, every directed multigraph and every capacity assignment within the size bound',
 'the tests run one fixed graph per algorithm; parallel edges, cycles, dead ends and rerouted flow are not sampled',
 [I+'DisjointSet.h', I+'Graph.h'], [{'name': 'DisjointSet', 'where': I+'DisjointSet.h'}, {'name': 'Graph, BreadthFirstGraph, MaxFlow_PushRelabel', 'where': I+'Graph.h'}],
 'union-find against a partition model, graphs against an edge list, max-flow with symbolic capacities against all cuts')
prop('P10', 'Spatial queries report exactly the overlapping items',
 'After any sequence of inserts, bulk loads, removals, rebalances, clears and moves, a KD-tree query reports every stored item whose rectangle overlaps the query rectangle (edges included) exactly once, and nothing else, and all nodes are released.',
 ['histories', 'inputs'], 'every insertion and removal order of rectangles and every query',
 'the test checks one random set with one query size; items straddling dividers, rebalances after removal and solving a populated tree are not checked',
 [I+'KDTree.h'], [{'name': 'KDTree::Insert/Remove/_rebalance/_solve/_traverse', 'where': I+'KDTree.h'}],
 'all histories over a pool of rectangles with queries through every corner and a symbolic query point, against direct overlap tests')
prop('P23', 'INI files parse, look up, edit and save exactly what they contain',
 'The INI parser reports exactly the sections and entries of any file, in order, trimmed and without comments. Looking up a section or entry by name (ignoring case) and instance finds exactly what exists, in the text and in the storage, also after copying, moving or assigning. Editing, inserting or removing an entry or section changes exactly that one, in memory and in the saved text, and an entry gives the value its text denotes.',
 ['inputs', 'histories'], 'every short file of arbitrary bytes; every short document with repeated sections and keys followed by each edit, copy, move or assignment',
 'the tests load one sample file and make a fixed series of edits; empty values, bytes outside ASCII, names that are prefixes of each other, removing the first of several equal names and copying repeated sections are not sampled',
 [I+'INIstorage.h', I+'INIsection.h', I+'INIentry.h', I+'INIparse.h', 'bss-util/INIParser.c', 'bss-util/INIstorage.cpp', 'bss-util/INIsection.cpp', 'bss-util/INIentry.cpp'], [{'name': 'bssParseLine, bssFindINISection, bssFindINIEntry', 'where': 'bss-util/INIParser.c'}, {'name': 'INIstorage', 'where': 'bss-util/INIstorage.cpp'}, {'name': 'INIsection', 'where': 'bss-util/INIsection.cpp'}, {'name': 'INIentry', 'where': 'bss-util/INIentry.cpp'}],
 'files of symbolic bytes against a reference reading of the format; all documents of a few lines and all single edits against a reference list, then saved and read back; files modelled by a byte buffer')
prop('P24', 'Bit fields and bit streams store and return exactly the bits given',
 'Setting, clearing, flipping or assigning a flag or a group of bits changes exactly those bits, for every width, value and mask, and bit iteration visits every bit of consecutive words in order in both directions. A bit stream lays fields of any width one after another, and reading the same widths back returns every field exactly as written, independent of alignment and of what the destination held before.',
 ['inputs', 'histories'], 'every field value and mask of every width; every sequence of field widths and contents',
 'the tests write one fixed set of fields and step over a few bits; unaligned partial reads into used memory and word-boundary steps for 64-bit words are not reached',
 [I+'BitField.h', I+'BitStream.h'], [{'name': 'BitField, _BIT_REF, _BIT_GROUP, _BIT_ITER', 'where': I+'BitField.h'}, {'name': 'BitStream::Write/Read', 'where': I+'BitStream.h'}],
 'fully symbolic words and masks; all sequences of field widths with symbolic contents through an in-memory stream')
prop('P25', 'Integer and bit helpers compute their mathematical definition',
 'Floor division and modulo, bit counts, masks and bit tests, powers of two, logarithms, integer square roots, absolute values and signs, double-width multiplication, byte order reversal, calendar day numbers, float comparison in representable steps and byte search give the mathematically defined result for every argument of every integer width they accept.',
 ['inputs'], 'every argument value of each integer width',
 'the tests try a few dozen constants, mostly 32-bit; values at or above bit 31, negative operands and type limits are not sampled',
 [I+'bss_util.h', I+'defines.h'], [{'name': 'bssMod, IntDiv, BitCount, GetBitMask, IntFastSqrt, bssLog2, bssMultiplyExtract, DaysFromCivil, fCompare, FlipEndian, ByteSearch', 'where': I+'bss_util.h'}],
 'symbolic arguments against bit-level or wide-integer definitions')
prop('P26', 'Fixed-point, rational and dual numbers follow exact arithmetic rules',
 'Fixed-point sums, differences, products, quotients, comparisons and conversions between formats, integers and floating point give the exactly rounded-down result whenever it fits. Rational numbers stay in lowest terms with a positive denominator and represent the exact result of every operation and, up to 32-bit terms, comparison. Dual numbers carry first and second derivatives that obey the sum, product and quotient rules.',
 ['inputs'], 'every operand whose exact result fits, in every format combination',
 'the tests compare a few decimal constants with a tolerance; conversion between formats, negative operands and cancelling to zero are not sampled',
 [I+'FixedPt.h', I+'Rational.h', I+'Dual.h'], [{'name': 'Fixed', 'where': I+'FixedPt.h'}, {'name': 'Rational', 'where': I+'Rational.h'}, {'name': 'Dual', 'where': I+'Dual.h'}],
 'symbolic operands against wide integers; rationals against cross multiplication; dual numbers against the rules over symbolic integers and a finite field')
prop('P27', 'Vector and matrix algebra computes its exact definition',
 'For element types with exact arithmetic, vector and matrix sums, differences, products (component-wise, with scalars, matrix with matrix and with vector, in place and over either operand), dot, cross and outer products, squared distances, integer lengths, comparisons, swizzles, conversions and transposes equal their definitions for every operand. Determinants follow the Leibniz formula and the inverse of every invertible 2x2, 3x3 and 4x4 matrix multiplies with it to the identity. Rotation, translation, scaling and combined transform matrices (and their transposed forms), quaternion matrices and generic splines have exactly the entries their definitions give.',
 ['inputs'], 'every component value, for each supported size, including results written over an operand',
 'the tests multiply and invert a handful of constant matrices with a tolerance and never call most members; aliasing, signs, swizzles, transposed variants and the quaternion and spline helpers are not sampled',
 [I+'vector.h', I+'sseVec.h', I+'bss_util.h'], [{'name': 'Vector, Matrix, MatrixMultiply, MatrixInvert4x4, MatrixDeterminant', 'where': I+'vector.h'}, {'name': 'FromQuaternion, GenericBSpline', 'where': I+'vector.h'}],
 'symbolic components against the definitions over machine integers, the integers modulo 8 (division by units) and small exactly represented floats; sine and cosine as symbolic values')
prop('P28', 'Random generators and weighted tables produce exactly the promised distribution',
 'The xorshift engines follow their published recurrences from every state, equal seeds give equal sequences, discarding n values equals drawing n, and no seed leaves the engine stuck. Range draws lie in [min,max). An alias table gives every outcome exactly its stated probability and never draws an impossible one, also after copies and moves.',
 ['inputs', 'histories'], 'every generator state; every distribution of weights',
 'the tests draw samples and eyeball averages; a wrong alias link or a truncated copy shifts probabilities invisibly',
 [I+'XorshiftEngine.h', I+'AliasTable.h', I+'algo.h'], [{'name': 'xorshift1024star, XorshiftEngine', 'where': I+'XorshiftEngine.h'}, {'name': 'AliasTable', 'where': I+'AliasTable.h'}, {'name': 'bssrand', 'where': I+'algo.h'}],
 'symbolic generator state against the recurrence; the outcome probabilities are computed from the real table for every weight vector')
prop('P31', 'Encoding, traversal, shuffling and curve algorithms are exact',
 'Base-64 encoding and decoding are inverse, use the URL-safe alphabet, agree with the sizes they announce, and decoding stays inside its buffers for any text. Breadth-first traversal visits every node of any binary tree exactly once in order of depth until told to stop. A shuffle is a permutation whatever the generator returns. B-spline and Bezier evaluation and splitting equal their defining polynomials. Running averages and variances equal the direct formula, and FNV-1a hashes equal the published function.',
 ['inputs'], 'every byte string, tree shape, generator output, curve parameter and control point',
 'the tests encode two strings and walk one tree; perfect trees, foreign characters and curve values off the sampled parameters are not covered',
 [I+'algo.h', I+'bss_util.h'], [{'name': 'Base64Encode/Decode, BreadthFirstTree, Shuffle, splines, SplitCubic', 'where': I+'algo.h'}, {'name': 'bssVariance, hash_fnv1a', 'where': I+'bss_util.h'}],
 'symbolic byte strings; all tree shapes; polynomial identities decided over a finite field')
prop('P17', 'UTF-8 and UTF-32 conversion is exact and stays inside its buffers',
 'Encoding any sequence of Unicode scalar values to UTF-8 gives exactly the bytes the standard defines, and decoding gives the scalars back; the legality test accepts exactly the well-formed sequences. For arbitrary input, terminated or with an explicit length, and any output capacity, conversion reads and writes only inside the given buffers, writes only whole characters that fit, stops at the first ill-formed byte, and a size query never announces too little.',
 ['inputs'], 'every code point sequence, every byte sequence, every output capacity',
 'the tests convert a few fixed strings; truncated or ill-formed sequences, unterminated input and tight buffers are not sampled',
 ['bss-util/ConvertUTF.c'], [{'name': 'UTF8toUTF32, UTF32toUTF8, isLegalUTF8Sequence', 'where': 'bss-util/ConvertUTF.c'}],
 'symbolic code points and bytes in exactly sized buffers against Unicode table 3-7')
prop('P18', 'String class and text helpers keep exactly the characters they should',
 'Str construction, conversion from and to UTF-32, concatenation in every form, Trim, ReplaceChar, StripChar, Explode, chunk selection and token parsing give exactly the defined text for any characters, including bytes above 127 and empty strings. The in-place helpers replace, count and trim exactly what they should without touching memory outside the string; a command line is split at white space and quotes; arguments are grouped at the divider without loss; integer formatting denotes the value in every radix and never overruns its buffer.',
 ['inputs'], 'every string content, delimiter, command line and integer',
 'the tests use short ASCII samples; empty strings, trailing non-ASCII text, unterminated counted input and INT_MIN are not sampled',
 [I+'Str.h', I+'bss_util.h', 'bss-util/bss_util_c.c'], [{'name': 'StrT', 'where': I+'Str.h'}, {'name': 'strtrim, strreplace, ToArgV, ProcessCmdArgs, OutputUnicode', 'where': I+'bss_util.h'}, {'name': 'itoa_r', 'where': 'bss-util/bss_util_c.c'}],
 'symbolic characters in exactly sized strings against direct definitions')
prop('P12', 'Allocators hand out disjoint, aligned blocks and give every byte back',
 'Every allocator and allocation policy (fixed block, greedy, ring, cache, lockless block, standard) hands out blocks of at least the requested size and alignment that overlap no other live block, whose contents stay untouched until freed, under any sequence of allocations and frees in any order, resizes, clears, moves and move assignments. Moving transfers ownership completely: live blocks stay valid, nothing is freed twice, and everything is released when the last owner is destroyed.',
 ['histories', 'configurations'], 'every order of allocating, freeing, clearing and moving, with every initial size and alignment',
 'the tests allocate and free in one order with random sizes; wrap-around of rings, freeing in another order, moving with live blocks and leaks on assignment are not covered',
 [I+'BlockAlloc.h', I+'BlockAllocMT.h', I+'GreedyAlloc.h', I+'GreedyBlockAlloc.h', I+'RingAlloc.h', I+'CacheAlloc.h', I+'Alloc.h'], [{'name': 'BlockAlloc', 'where': I+'BlockAlloc.h'}, {'name': 'LocklessBlockPolicy', 'where': I+'BlockAllocMT.h'}, {'name': 'GreedyAlloc, GreedyBlockPolicy', 'where': I+'GreedyAlloc.h'}, {'name': 'RingAllocVoid', 'where': I+'RingAlloc.h'}, {'name': 'CacheAlloc', 'where': I+'CacheAlloc.h'}],
 'all operation sequences within the stated length with symbolic block contents, disjointness and content checks after every step, leak check at the end')
prop('P13', 'Lockless queues and atomic primitives lose, duplicate and reorder nothing',
 'A queue shared by a producer and a consumer thread (lockless queue), or by several producers or consumers (locked-end queue), delivers every pushed item exactly once, items of one producer in order, and releases all its nodes; a moved queue keeps its items. The atomic primitives (compare-and-swap of 1 to 16 bytes, exchange, add, bit test and set/reset) change exactly their operand as one atomic step and report the old value correctly.',
 ['schedules', 'inputs'], 'every interleaving within the preemption bound, every operand value',
 'the tests run threads for a moment and count; the window where a node is unlinked while the other end is read, and the neighbours of a small operand, are not controlled',
 [I+'LocklessQueue.h', I+'lockless.h', I+'BlockAllocMT.h'], [{'name': 'LocklessQueue, MicroLockQueue', 'where': I+'LocklessQueue.h'}, {'name': 'asmcas, atomic_xchg, atomic_xadd, bittestset', 'where': I+'lockless.h'}],
 'all sequentially consistent interleavings up to the preemption bound with symbolic items; atomic primitives on symbolic operands')
prop('P14', 'The reader-writer lock excludes writers and never blocks forever',
 'While any thread holds the lock for writing no other thread holds it in any mode; any number of readers may hold it together. Attempts fail only when the lock is contended and leave the lock unchanged when they fail; a successful attempted upgrade happens without any other writer in between; upgrade and downgrade keep exclusion. When every holder has left, the lock is free again, and no schedule deadlocks.',
 ['schedules'], 'every interleaving of two and three threads in any mix of modes within the preemption bound',
 'the tests run a few threads for a moment; the windows inside upgrade, downgrade and the attempts are only a few instructions wide',
 [I+'RWLock.h', I+'lockless.h'], [{'name': 'RWLock', 'where': I+'RWLock.h'}],
 'all interleavings up to the preemption bound of two and three threads in every combination of seven ways to take the lock; deadlock is a violation')
prop('P15', 'Allocators shared by threads never hand the same memory to two owners',
 'When several threads allocate from and free to one lockless block, greedy, ring or cache allocator, also freeing blocks that another thread allocated, every block handed out is disjoint from all blocks live in any thread, keeps its contents until it is freed, and every allocation completes. Afterwards the allocator works as before and releases all its memory.',
 ['schedules'], 'every interleaving of two threads within the preemption bound, for each allocate/free program',
 'the tests hammer the allocators with threads for a moment; free-list ABA windows, bucket replacement and table growth are a few instructions wide',
 [I+'BlockAllocMT.h', I+'GreedyAlloc.h', I+'RingAlloc.h', I+'CacheAlloc.h', I+'RWLock.h'], [{'name': 'LocklessBlockPolicy', 'where': I+'BlockAllocMT.h'}, {'name': 'GreedyAlloc', 'where': I+'GreedyAlloc.h'}, {'name': 'RingAllocVoid', 'where': I+'RingAlloc.h'}, {'name': 'CacheAlloc', 'where': I+'CacheAlloc.h'}],
 'all interleavings up to the preemption bound of two allocate/free programs; ghost register of live blocks checks disjointness and contents')
prop('P16', 'Thread pool and scheduler run every task exactly once and when due',
 'Every task given to a thread pool runs exactly once with its arguments; Wait returns only when all tasks given before have finished, and destroying the pool runs what is left, ends its threads and never hangs. A scheduler fires each event once per due time, never early, in order of due time, fires everything due, forgets finished events, reschedules the others, and tolerates events that add events and an empty schedule. Its timer never runs backwards and its deltas agree in every unit.',
 ['schedules', 'histories'], 'every interleaving of the pool within the preemption bound; every set of due times, return values and clock steps',
 'the tests run one pool once and one schedule update; wake-ups racing with termination and an update with nothing left are not reached',
 [I+'ThreadPool.h', I+'Thread.h', I+'Scheduler.h', I+'HighPrecisionTimer.h', 'bss-util/HighPrecisionTimer.cpp'], [{'name': 'ThreadPool', 'where': I+'ThreadPool.h'}, {'name': 'Scheduler', 'where': I+'Scheduler.h'}, {'name': 'HighPrecisionTimer', 'where': 'bss-util/HighPrecisionTimer.cpp'}],
 'interleavings of the waiting thread with one and two workers up to the preemption bound; all small event sets over a controlled clock')
prop('P29', 'Smart pointers, variants and delegates manage lifetime and dispatch correctly',
 'A reference-counted object lives exactly while references to it exist and dies once, whatever the order of copies, moves, self assignments and steps along links. An owner pointer deletes its object exactly when the owning pointer lets go, and only if it owns it. A variant always holds exactly the alternative last stored, suitably aligned, and builds and destroys it exactly once. A delegate, stored or deferred call invokes exactly the bound function on the bound object with the given arguments, deferred calls once. A singleton tracks the live instance.',
 ['histories', 'inputs'], 'every sequence of assignments, moves and releases within the stated length, all argument values',
 'the tests perform one straight-line script; self assignment, empty variants, moves of non-owners and releasing the holder of the source are not sampled',
 [I+'RefCounter.h', I+'SmartPtr.h', I+'Variant.h', I+'Delegate.h', I+'Singleton.h'], [{'name': 'ref_ptr, RefCounter', 'where': I+'RefCounter.h'}, {'name': 'OwnerPtr', 'where': I+'SmartPtr.h'}, {'name': 'Variant', 'where': I+'Variant.h'}, {'name': 'Delegate, StoreFunction, defer', 'where': I+'Delegate.h'}, {'name': 'Singleton', 'where': I+'Singleton.h'}],
 'all operation sequences over three pointers and three objects, all variant histories within the bound, delegates over symbolic arguments')
prop('P19', 'JSON text round-trips records and values and survives any document',
 'Whatever is written as JSON, plain or pretty, reads back equal: numbers (floating-point to the six digits written), booleans, enumerations, text and keys with any character, arrays, tuples, nested records and generic values, including null. Reading accepts fields in any order and white space between tokens, skips unknown fields of any shape, decodes escapes and surrogate pairs, and a value of the wrong kind does not lose the fields after it. Any other input ends without reading or writing out of bounds or leaking, and what was understood from it writes and reads back the same.',
 ['inputs'], 'every value of every field type within the stated shapes, every short document over the structural alphabet',
 'the tests read one sample document and compare one written file; quotes in keys, literals before white space, unknown nested fields and truncated documents are not sampled',
 [I+'JSON.h', I+'Serializer.h', I+'Variant.h'], [{'name': 'JSONEngine, WriteJSON, ParseJSON', 'where': I+'JSON.h'}, {'name': 'Serializer', 'where': I+'Serializer.h'}],
 'symbolic field contents and whole documents of symbolic bytes; the iostream library is replaced by a small model of it, validated against the real one by native replay of sampled paths')
prop('P20', 'UBJSON round-trips records and values and survives any input',
 'Whatever is written as UBJSON reads back equal, bit for bit: every number width, booleans, enumerations, text with any bytes, typed and untyped arrays of any element type, tuples, nested records and generic values. Reading consumes exactly what was written, skips unknown fields of any kind and widens narrower numbers. Any other input either parses or raises an error, without reading or writing out of bounds or leaking, and generic values copy and move without sharing.',
 ['inputs'], 'every value of every field type within the stated shapes, every short byte string over the marker characters',
 'the tests read one sample and compare one round trip; empty and mixed arrays, embedded zero bytes, unknown fields and truncated input are not sampled',
 [I+'UBJSON.h', 'bss-util/UBJSON.cpp', I+'Serializer.h'], [{'name': 'UBJSONEngine', 'where': I+'UBJSON.h'}, {'name': 'UBJSONTuple', 'where': 'bss-util/UBJSON.cpp'}, {'name': 'Serializer', 'where': I+'Serializer.h'}],
 'symbolic field contents and whole inputs of symbolic bytes; the iostream library is replaced by a small model of it, validated against the real one by native replay of sampled paths')
prop('P21', 'XML documents and records round-trip; the document tree stays consistent',
 'Records written as XML, plain or pretty, read back equal (floating-point to the six digits written), and unknown fields are skipped. A document keeps its nodes, names, order and attributes, attribute values and leaf text whatever characters they hold, and without pretty printing the text of every node. After any history of adding, removing, copying, moving and assigning, nodes and attributes are those expected, are found by name (newest first) and index, and copies are independent. Any other input ends without touching memory out of bounds or leaking.',
 ['inputs', 'histories'], 'every value of every field type within the stated shapes, every sequence of tree operations within the stated length, every short document over the markup alphabet',
 'the tests read one sample document and compare one written file; markup characters in attributes, white-space text, removal of attributes and copying of nodes are not sampled',
 [I+'XML.h', 'bss-util/XML.cpp', I+'Serializer.h'], [{'name': 'XMLFile, XMLNode', 'where': 'bss-util/XML.cpp'}, {'name': 'XMLEngine', 'where': I+'XML.h'}],
 'symbolic field contents, texts and whole documents of symbolic bytes; all operation sequences on the tree against a reference list; iostream replaced by a validated model')
