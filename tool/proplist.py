TRUST = 'Decided on the LLVM IR clang 18 emits (-O0) for the current tree, generic architecture, gcc-configured CMake options; trusts clang\'s lowering and the analyser in lib/. '

prop('P01', 'Memory that could not be allocated is never used',
     'When an allocation made on behalf of the caller fails, no operation of the library reads or writes through the missing block. This covers failures reported by other operations of the library: an operation checks the outcome of everything that can fail for lack of memory before relying on what it was to produce.',
     ['fault_sequences', 'inputs'], 'Every allocation site of every library function, each failing on every path that reaches it, with every caller in the library.',
     'The tests run with an allocator that never fails; the failure branch of none of the roughly thirty allocation sites is executed.',
     ['src/allocator.c', 'src/array.c', 'src/btree.c', 'src/radix.c', 'src/hashmap.c', 'src/skiplist.c', 'src/cache', 'src/mpi.c', 'src/matrix.c', 'src/fifo.c', 'src/ringbuf.c', 'src/bloom.c', 'src/argv.c', 'src/textsearch', 'src/levenshtein.c'],
     [('result test after each allocation', 'every caller of bfdev_malloc/zalloc/realloc'), ('error propagation from callees', 'mpi.c, matrix.c, btree.c')],
     'path-sensitive null-state dataflow over LLVM IR with interprocedural failure summaries',
     TRUST + 'Every allocation and every fallible callee is forked into success and failure; the failing outcome is followed to every access. Calls through user callbacks are assumed not to touch the object under analysis beyond their declared effect.')

prop('P02', 'No block is leaked, released twice or used after release',
     'Every block the library obtains is, on every path including every path taken after a failed allocation, either returned to the caller, linked into an object that stays alive, or released exactly once. Released memory is never read, written or released again, and an object does not keep a reference to a block that was released when the operation returns.',
     ['fault_sequences', 'inputs', 'histories'], 'Every path of every library function, with each allocation both succeeding and failing.',
     'Leaks and dangling references on error paths need a failing allocator at a particular point; the tests never inject one and run each operation on a handful of inputs.',
     ['src/array.c', 'src/btree.c', 'src/radix.c', 'src/hashmap.c', 'src/skiplist.c', 'src/cache', 'src/mpi.c', 'src/matrix.c', 'src/argv.c', 'src/textsearch', 'src/levenshtein.c', 'src/respool.c'],
     [('cleanup labels', 'cache/lfu.c, cache/lru.c, btree.c'), ('pointer reset after release', 'array.c, hashmap.c, mpi.c'), ('safe traversal while releasing', 'skiplist.c, respool.c')],
     'ownership typestate (obtained, held, released) over LLVM IR, path sensitive, with function summaries',
     TRUST + 'Container element lifetimes beyond one operation are decided by P05; the node-based trees\' root links are exempt from the lost-reference rule.')

prop('P03', 'Running out of memory is always reported to the caller',
     'When an operation could not be carried out because memory ran out, its result says so: a null pointer from operations that return a pointer, a negative error code from operations that return a status. An operation never reports success after an allocation it needed has failed.',
     ['fault_sequences', 'inputs'], 'Every library function that allocates directly or through other operations, on every path containing a failed allocation.',
     'No test makes an allocation fail, so no test observes what is returned when one does.',
     ['src/array.c', 'src/btree.c', 'src/radix.c', 'src/hashmap.c', 'src/skiplist.c', 'src/cache', 'src/mpi.c', 'src/matrix.c', 'src/fifo.c', 'src/ringbuf.c', 'src/fsm.c', 'src/memalloc.c'],
     [('return value after failure', 'every fallible function')],
     'interprocedural failure-propagation dataflow over LLVM IR',
     TRUST + 'Shrinking the hash map on deletion is optional work and exempt: the larger table stays valid.')

prop('P05', 'Destroying an object releases everything it owns',
     'The operation that destroys, releases or frees an object gives back every block its constructor or growing operations obtained for it: the object itself, the buffers it holds, every element of the tables it owns and every node it allocated. An operation that removes a single node unlinks it from everything that led to it before releasing it.',
     ['histories', 'inputs'], 'Every constructor/destructor pair of the library and every object state the constructors can leave.',
     'The tests do not count outstanding blocks per object and sizes, and exercise one or two sizes per container.',
     ['src/cache', 'src/skiplist.c', 'src/hashmap.c', 'src/radix.c', 'src/btree.c', 'src/array.c', 'src/fifo.c', 'src/ringbuf.c', 'src/bloom.c', 'src/argv.c', 'src/textsearch', 'src/matrix.c', 'src/mpi.c'],
     [('paired destructor', 'each container'), ('releasing loops', 'cache/lfu.c, cache/lru.c')],
     'constructor/destructor pairing from ownership summaries; induction-variable coverage of releasing loops',
     TRUST + 'What a constructor leaves owned is computed, not listed; releasing loops of a form the induction-variable analysis does not recognise are accepted when they release elements of the right table.')

prop('P04', 'Allocations go through the allocator the caller supplied',
     'Every operation that allocates, reallocates or releases memory does so through the allocator the caller passed to it or, for an object, through the allocator given when the object was created. Constructors and initialisers keep that allocator in the object; a block is never obtained from one allocator and released to another, and no part of the library except the allocator front end reaches the C library allocator.',
     ['inputs', 'histories'], 'Every allocation, reallocation, release and delegated call in the library, whatever allocator is in use.',
     'The tests pass a null allocator (the default one) almost everywhere, with which using the wrong allocator is invisible.',
     ['src', 'include/bfdev/allocator.h', 'include/bfdev/array.h'],
     [('allocator member of each object', 'bfdev_*_init, bfdev_*_create'), ('alloc local taken from the object', 'src/*.c')],
     'provenance dataflow on allocator operands over LLVM IR, with member-store checks in constructors',
     TRUST + 'Objects whose memory the caller provides are taken to carry the allocator set by their initialiser.')

prop('P06', 'The allocator front end calls exactly the chosen allocator',
     'bfdev_malloc, bfdev_zalloc, bfdev_realloc and bfdev_free pass the request, size and private pointer unchanged to the operation the supplied allocator provides for it, use the default allocator when none is supplied, and fall back to the C library only where the allocator provides no operation of its own; a request of zero bytes reaches no allocator and gives a null pointer, releasing a null pointer is harmless, and zeroed allocations are zeroed whichever way they are served.',
     ['inputs'], 'All combinations of allocator present or absent, operation present or absent, and size zero or not.',
     'The tests exercise the default allocator and one custom allocator with one set of operations.',
     ['src/allocator.c', 'include/bfdev/allocator.h'],
     [('dispatch', 'src/allocator.c'), ('fallback', 'src/allocator.c')],
     'case-wise effect summaries (exact call, arguments and result per case) over LLVM IR',
     TRUST + 'The C library allocator is trusted to behave as the C standard says.')

prop('P08', 'List operations leave every link consistent',
     'Adding, removing, replacing, moving, swapping and splicing nodes of the doubly linked list leave a ring in which the successor of a node always has that node as predecessor, containing exactly the expected nodes in the expected order, whatever the position of the nodes and even when the list is empty, holds one element, or the nodes concerned are neighbours. Removed nodes are poisoned or reinitialised as documented; emptiness and position queries answer according to the links; nothing else is written.',
     ['inputs', 'histories'], 'Every list operation in every local shape around its operands.',
     'Corner shapes (neighbouring nodes, single elements, swaps in a list of two) each need a specific arrangement; tests use a few long lists traversed in one direction.',
     ['include/bfdev/list.h'],
     [('link updates', 'bfdev_list_insert, bfdev_list_deluf and everything built on them')],
     'case-wise heap effect summaries (shape analysis with exact local specifications) over LLVM IR',
     TRUST + 'Operations are local: shapes beyond the neighbourhood inspected do not matter, which the summaries confirm because no other cell is read or written.')

prop('P09', 'Singly linked and hash list operations keep links and back references',
     'Operations on slist and hlist leave each forward link and, for hlist, each back reference to the link that leads to the node exactly as the operation specifies: a node inserted before or after another is reachable and can later be deleted, moving a list transfers all of it, deletion unlinks exactly the node, and nothing else is written. Searches for the predecessor of a slist node follow the list from its head without skipping a node.',
     ['inputs', 'histories'], 'Every operation in every local shape around its operands.',
     'A wrong back reference shows only when the neighbouring node is deleted afterwards, a sequence the tests do not run.',
     ['include/bfdev/slist.h', 'include/bfdev/hlist.h'],
     [('pprev updates', 'bfdev_hlist_head_add, bfdev_hlist_next_add, bfdev_hlist_prev_add, bfdev_hlist_del')],
     'case-wise heap effect summaries (shape analysis with exact local specifications) over LLVM IR',
     TRUST)

prop('P14', 'Byte order, swap, bit reversal and bit count primitives are exact',
     'The byte and half-word swaps, byte order conversions (little and big endian, for either processor order), bit reversals, half selections, population counts and parities give, for every input value, exactly the specified bits, in their constant-expression and run-time variants alike; the in-place, through-pointer, array and unaligned-access forms convert every element, read and write exactly the bytes of the objects concerned and assume no alignment.',
     ['inputs'], 'Every input value of every width, every variant of every primitive.',
     'A misplaced bit in one of the 64-bit constant variants shows only for inputs that set it; tests use a few values and the run-time variants.',
     ['include/bfdev/swab.h', 'include/bfdev/bitrev.h', 'include/bfdev/byteorder.h', 'include/bfdev/byteorder', 'include/bfdev/asm-generic/byteorder.h', 'include/bfdev/asm-generic/swab.h', 'include/bfdev/asm-generic/bitrev.h', 'include/bfdev/unaligned.h', 'include/bfdev/uplower.h', 'include/bfdev/popcount.h', 'src/bitrev.c', 'src/popcount.c'],
     [('swap and conversion macros', 'swab.h, byteorder/generic headers'), ('lookup tables', 'src/bitrev.c, src/popcount.c')],
     'bit-level dataflow with canonical Boolean polynomials over LLVM IR of witness instantiations',
     TRUST + 'Array forms are decided element-wise for zero, one and three elements, source equal to or apart from destination.')

prop('P15', 'Character classes and case conversion are exact for every character',
     'For every ASCII character the classification predicates (isalpha, isdigit, isblank, isspace, isxdigit and so on), in their constant-expression and table-driven variants alike, accept exactly the characters of the class as the C locale defines it; the constant variants accept no other character, the table-driven variants classify the upper half as ISO 8859-1 does and look only at the low eight bits of whatever argument they are given. tolower, toupper and toascii change exactly the ASCII letters (clear the eighth bit) whatever the argument, and do not involve the C library or its locale.',
     ['inputs'], 'All 256 characters for every predicate; every int argument for the table-driven variants and conversions.',
     'No test exercises ctype at all, and the constant variants are chosen only for compile-time constants.',
     ['include/bfdev/ctype.h', 'src/libc/ctype.c'],
     [('class table', 'src/libc/ctype.c'), ('constant predicates', 'include/bfdev/ctype.h')],
     'bit-level dataflow: exact truth functions of the argument bits over LLVM IR of witness instantiations',
     TRUST + 'Complete: the truth function covers every argument.')

prop('P13', 'CRC functions return the polynomial remainder for every buffer',
     'bfdev_crc4, crc7, crc8, crc16, crc_ccitt, crc_itut, crc_t10dif, crc32, crc64 and crc_rocksoft return the remainder of the data by their documented polynomial (left-aligned for crc7), continuing from the given start value, for every buffer content, length (whole bytes for crc4), alignment and start value, so that splitting a buffer anywhere gives the same result; they read exactly the bytes of the buffer and write nothing.',
     ['inputs'], 'All data, start values, alignments and lengths.',
     'No test compares a CRC with a reference; the unrolled path needs particular lengths, alignments and remainder widths, and one table entry is used by one byte value at one position.',
     ['include/bfdev/crypto/crc-inline.h', 'include/bfdev/crypto', 'src/crypto', 'scripts/gen-crc.c', 'include/bfdev/crc.h'],
     [('byte step and unrolled step', 'crc-inline.h'), ('tables', 'scripts/gen-crc.c (generated), crc4-inline.h')],
     'bit-level dataflow with canonical GF(2) polynomials, bounded lengths plus loop-wise induction over LLVM IR',
     TRUST + 'Every length for nine functions by loop-wise induction; crc4 and restructured loops are decided for the bounded lengths (24 bytes quick, 72 thorough, four alignments).')

prop('P34', 'Message digests are the published functions of the message',
     'MD5, SHA-1, SHA-224 and SHA-256 give for every message exactly the published digest, however the message is divided over update calls: initialisation sets the published chaining value, update hashes every completed block and buffers exactly the remaining bytes, finish pads with a one bit, zeros and the 64-bit length in bits for every number of buffered bytes, and the digest is written in the published byte order and length. Update reads only the given bytes, finish writes only the digest and the context.',
     ['inputs', 'histories'], 'All messages: any chaining value, any block contents, any total length, every buffer fill level, update sizes around every block boundary.',
     'Padding has corner cases at particular lengths modulo 64 and the length field at particular totals; the tests hash a few short strings in one call.',
     ['include/bfdev/crypto/md5-base.h', 'include/bfdev/crypto/sha1-base.h', 'include/bfdev/crypto/sha2-base.h', 'include/bfdev/crypto', 'src/crypto/md5.c', 'src/crypto/sha1.c', 'src/crypto/sha2.c'],
     [('buffering and padding', 'include/bfdev/crypto/*-base.h'), ('compression functions', 'include/bfdev/crypto/sha1.h, sha2.h, src/crypto/md5.c')],
     'bit-level dataflow (canonical Boolean polynomials and modular sums) over LLVM IR against the published algorithms',
     TRUST + 'Update sizes are those around block boundaries (about fifty cases quick, several hundred thorough) for arbitrary contents; little-endian processor order.')

prop('P10', 'Red-black tree operations keep a valid search tree',
     'Every red-black tree operation (insert, delete, replace, and their cached-leftmost and augmented forms) leaves, for every tree and position, a binary tree with the same in-order sequence apart from the node inserted, deleted or replaced, consistent parent links, a black root, no red node with a red child and equal black heights; the cached leftmost node is the first of the sequence; augmented callbacks are invoked so that recomputed data covers every changed subtree. Searches and traversals (first, last, next, prev, pre- and post-order, find, parent lookup) return exactly the node the structure defines and change nothing.',
     ['inputs', 'histories'], 'Every tree shape, colouring, key set and operand position; trees of any size around the operand.',
     'Rebalancing has many mirrored cases reached only by particular shapes several levels above the node; the tests use random keys and never check colours.',
     ['include/bfdev/rbtree.h', 'src/rbtree.c', 'include/bfdev/titer.h'],
     [('rebalancing', 'src/rbtree.c: bfdev_rb_fixup_augmented, bfdev_rb_erase_augmented, bfdev_rb_remove_augmented'), ('traversal', 'include/bfdev/titer.h'), ('cached leftmost', 'include/bfdev/rbtree.h')],
     'shape analysis with lazy materialisation (focus) over LLVM IR; unexplored subtrees stay summarised',
     TRUST + 'The neighbourhood looked at is bounded (four levels up and down from the operand); what lies beyond is an arbitrary valid tree with symbolic black height, so a finished case holds for trees of any size.')

prop('P11', 'Heap operations keep a complete tree in heap order',
     'Every heap operation leaves, for every element count and position, a complete binary tree with consistent links, exactly the intended elements and the right count; heap order holds afterwards whenever the user comparison is a consistent total preorder: after insert, delete, after fixup of an element that became smaller, and after erase (re-seat) of an element with any new value. Lookup by index, the next free place and the level-order and post-order traversals return exactly the element the position defines and change nothing.',
     ['inputs', 'histories'], 'Element counts up to the bound (12 quick, 20 thorough), every operand, every outcome of every comparison.',
     'The last element may lie in the other branch, so that deletion must move it up instead of down: this needs six elements and particular keys; the tests only pop the root in order.',
     ['include/bfdev/heap.h', 'src/heap.c', 'include/bfdev/titer.h'],
     [('sift and replacement', 'src/heap.c: bfdev_heap_fixup, bfdev_heap_erase, bfdev_heap_remove'), ('position walk', 'src/heap.c: bfdev_heap_parent, bfdev_heap_find')],
     'shape analysis over LLVM IR; order derived from comparison outcomes by transitive closure',
     TRUST + 'Element counts are bounded; operations touch one root-to-leaf path, so further levels repeat the same steps.')

prop('P35', 'Base64, base32, ascii85 and BCD conversions are exact and reversible',
     'The base64 and base32 encoders give for every input of every length exactly the RFC 4648 characters with padding, the ascii85 encoder the base-85 digits of each big-endian 32-bit group (z for a zero group, the last group filled with zeros); they read exactly the input and write exactly the encoded length. The decoders give back the bytes for every character sequence over the alphabet, stop at padding, refuse every foreign character and incomplete ascii85 groups with an error, and write within the advertised decode length. bcd2bin and bin2bcd, constant and table driven, are exact for 0..99, and the length helpers round up to whole groups.',
     ['inputs'], 'All contents of every length up to four groups (eight thorough), all residues of the group size; every foreign character at several positions.',
     'A wrong mask in the tail of one residue class or one wrong table entry shows only for particular bytes at particular lengths; no test encodes anything but a fixed string, or decodes ascii85 zero groups.',
     ['src/crypto/base64.c', 'src/crypto/base32.c', 'src/crypto/ascii85.c', 'src/bcd.c', 'include/bfdev/base64.h', 'include/bfdev/base32.h', 'include/bfdev/ascii85.h', 'include/bfdev/bcd.h'],
     [('encoders and decoders', 'src/crypto/base64.c, base32.c, ascii85.c'), ('BCD tables', 'src/bcd.c')],
     'bit-level dataflow with canonical Boolean polynomials over LLVM IR against RFC 4648 and the base-85 definition',
     TRUST + 'Lengths are bounded; the encoders work group by group, so longer inputs repeat the same steps. Adjacent ascii85 groups are compared as hash-consed quotient/remainder terms.')

prop('P16', 'Atomic operations act indivisibly and lose no concurrent update',
     'Every atomic operation (read, write, add, sub, and, or, xor and their fetch forms), exchange, compare-and-swap, atomic bit operation (set, clear, flip, change, their test forms), reference count operation (get, set, add, sub, add unless zero, inc, dec, all result forms) and lock-free list operation (add, split, del, destroy) takes effect through exactly one indivisible, full-ordering access: the value it stores and every result are the specified functions of the one value it replaced, whatever other threads do in between. Operations that change nothing say so only on a value they saw. A retry loop ends as soon as nothing interferes.',
     ['schedules', 'inputs'], 'Every interleaving of other threads\' updates with the operation: every access observes an arbitrary value, compare-and-swap fails up to the bound.',
     'A lost update needs another thread between two particular instructions; the tests run single-threaded or for a moment.',
     ['include/bfdev/atomic.h', 'include/bfdev/cmpxchg.h', 'include/bfdev/asm-generic/atomic.h', 'include/bfdev/asm-generic/cmpxchg.h', 'include/bfdev/asm-generic/bitops.h', 'include/bfdev/refcount.h', 'include/bfdev/llist.h', 'src/llist.c'],
     [('atomic primitives', 'include/bfdev/asm-generic/atomic.h, cmpxchg.h'), ('atomic bits', 'include/bfdev/asm-generic/bitops.h'), ('reference counts', 'include/bfdev/refcount.h'), ('lock-free list', 'src/llist.c')],
     'path-wise linearisation analysis over LLVM IR: shared reads yield arbitrary values, effects compared as canonical bit polynomials with the specification at the linearisation point',
     TRUST + 'Compare-and-swap failures are bounded (two quick, four thorough); retry loops carry only the observed value. Bit numbers 0, 5, 63, 64, 127. ABA reuse of list nodes during bfdev_llist_del is the documented responsibility of the caller.')

prop('P21', 'Bitmap operations, bit searches and bit masks are exact for every size',
     'For every bitmap size, position and contents: and, andnot, or, xor, complement, replace, copy, zero, fill and the shifts give exactly the specified bits below the size, in place as well; equal, or_equal, intersects, empty, full and the results of and/andnot depend on exactly the bits below the size; range set and clear change exactly the bits of the range; the first/last/next/prev searches for bits, zeros and common bits return the specified position or the size; the for_each macros visit exactly those positions in order; single bit operations (native and little-endian) change exactly their bit and return its old value; the mask, range and bit field macros have their specified values. This holds whether or not the compiler knows the size, and nothing outside the words of the bitmap is read or written.',
     ['inputs'], 'All contents; sizes, shifts, starts, lengths and offsets around every word boundary up to three or four words; size known or unknown when compiling.',
     'The partial last word and sizes that are a whole word have their own code, and sizes known to the compiler select different code; the tests search a few random maps.',
     ['include/bfdev/bitmap.h', 'src/bitmap.c', 'include/bfdev/bitwalk.h', 'src/bitwalk.c', 'include/bfdev/bitops.h', 'include/bfdev/asm-generic/bitops.h', 'include/bfdev/bits.h', 'include/bfdev/bitfield.h', 'include/bfdev/bitflags.h', 'include/bfdev/bitops-endian.h'],
     [('bulk operations', 'src/bitmap.c'), ('searches', 'src/bitwalk.c, include/bfdev/bitwalk.h'), ('constant-size paths', 'include/bfdev/bitmap.h, bitwalk.h')],
     'bit-level dataflow with canonical Boolean polynomials over LLVM IR; predicates and searches by a complete partition of the contents',
     TRUST + 'Sizes are bounded (three words quick, four thorough); the code works word by word, so larger sizes repeat the same steps. The sizes-known-to-the-compiler variant is obtained by defining __builtin_constant_p as true.')

prop('P17', 'FIFO and ring buffer are exact bounded queues, also when counters wrap',
     'For every element size, capacity, fill level and position, also when the counters pass the end of the buffer or wrap around: put and in append exactly the elements that fit (the FIFO refuses the rest; the ring buffer drops the oldest), get, out, peek and out_peek hand out exactly the oldest elements in order, and their results, len, check_empty, check_full, size, esize, recsize, reset and homing agree with the queue. Record queues keep the boundaries: each out delivers one record (cut to the room given, the rest dropped), an insertion stores a whole record with its length or nothing, the ring buffer drops whole old records (and cuts a record larger than the buffer). Peeking changes nothing; nothing outside the queue and the elements asked for is touched; the producer changes only in, the FIFO consumer only out, after the data is copied. A dynamic buffer has the requested capacity rounded up to a power of two (at least two); a static one cannot be allocated.',
     ['inputs', 'histories'], 'All contents; element sizes 1, 2, 3, 4, 8, 24; static and dynamic; record lengths of one and two bytes that fit the length field; every position, fill level and length around the capacity.',
     'Wrap-around in the middle of an element or of a record length needs a particular position; the tests start at zero, use powers of two and keep at most one record queued.',
     ['include/bfdev/fifo.h', 'src/fifo.c', 'include/bfdev/ringbuf.h', 'src/ringbuf.c'],
     [('copy with fold', 'src/fifo.c: FIFO_GENERIC_COPY; src/ringbuf.c: RINGBUF_GENERIC_COPY'), ('record length', 'fifo_record_peek, fifo_record_poke, ringbuf_record_peek, ringbuf_record_poke'), ('single element macros', 'fifo.h, ringbuf.h')],
     'abstract interpretation of the instantiated macros over LLVM IR: constant geometry, symbolic contents, compared with the queue of the history',
     TRUST + 'Capacities 2, 4, 8 and 512; the code depends on capacity only through the mask. Order of counter and data is program order, not a memory barrier.')

prop('P12', 'Traversal macros visit exactly the elements, and the safe forms survive removal',
     'Every traversal macro (for_each and its entry, reverse, from, continue and safe forms) of list, ilist, slist, hlist, hash table, hash map, skip list, red-black tree (in order, preorder, postorder, cached) and heap (level order, postorder) hands its body exactly the elements from its starting point on, each once, in the order of the container, and ends; an empty container gives none. A safe form does so even when the body removes and releases the element it was given: it never touches that element again. Nothing but the links of the container is read, and no decision rests on a variable that was not set.',
     ['inputs', 'histories'], 'Every macro, every shape of up to three elements (five thorough; heaps up to seven, eleven thorough), every starting element, the head or null where the form allows it, removal of every element in the safe forms.',
     'A safe form that reads the removed element works in tests because the element is not released; a wrong starting point shows only for the form and position concerned, and most of the 130 macros are used by no test.',
     ['include/bfdev/list.h', 'include/bfdev/ilist.h', 'include/bfdev/slist.h', 'include/bfdev/hlist.h', 'include/bfdev/hashtbl.h', 'include/bfdev/hashmap.h', 'include/bfdev/skiplist.h', 'include/bfdev/rbtree.h', 'include/bfdev/heap.h', 'src/rbtree.c', 'src/heap.c', 'include/bfdev/titer.h'],
     [('traversal macros', 'each header: *_for_each*'), ('successor functions', 'src/rbtree.c, src/heap.c: first/last/next/prev, post and pre order')],
     'shape analysis over LLVM IR of one instantiation per macro',
     TRUST + 'The step of a traversal depends only on the element it stands on and its neighbours, so shapes of three elements contain every local situation of a list; trees are enumerated up to the bound. B-tree, radix tree and segment tree traversals are not part of this property.')

prop('P19', 'The hash map gives for every key what its history says',
     'For every user hash and comparison and every history: after a successful insertion the element is found under its key, add refuses an existing key with -EEXIST, set and update replace exactly the existing element and give it back, update refuses an absent key with -ENOENT, append adds another element with the same key, delete removes exactly one element with the key and gives it back or reports -ENOENT, and find gives an element with the key or null and changes nothing. Growing and shrinking lose, duplicate and reorder no key out of reach; the element count, the bucket chains with their back references, the capacity and the table size always agree. When memory runs out the map stays as it was and the insertion reports -ENOMEM. Release frees the table and leaves an empty map.',
     ['inputs', 'histories', 'fault_sequences'], 'Every sequence of three operations over two keys (four thorough) with equal and different hashes; histories of about ninety operations over 16 keys (40 thorough) past every growing and shrinking point, four hash patterns, five growth policies, each allocation failing in turn.',
     'Losing an element while the table is rebuilt needs two keys that collide before or after; a failed growth needs a failing allocator. The test inserts and looks up with one hash and never shrinks under a collision.',
     ['src/hashmap.c', 'include/bfdev/hashmap.h', 'include/bfdev/hashtbl.h', 'include/bfdev/hlist.h', 'include/bfdev/hash.h'],
     [('insertion strategies', 'src/hashmap.c: bfdev_hashmap_insert'), ('rebuilding', 'src/hashmap.c: hashmap_rehash'), ('deletion', 'src/hashmap.c: bfdev_hashmap_del')],
     'shape analysis over LLVM IR of bounded histories with an arbitrary hash function, against a map model',
     TRUST + 'Histories are bounded; the map keeps no state but the table, the count and the size, all of which are compared after every operation.')

prop('P18', 'The dynamic array holds exactly the elements pushed and not popped',
     'For every element size, history and count: push gives the address of the first of the new elements and pop and peek that of the last elements asked for (null when there are not so many), earlier elements keep place and contents also when the block is moved, count, size, offset and data agree with the history (data gives null beyond the count), the capacity never exceeds the block and is never below the count, reserve makes room for the elements asked for beyond those present, resize sets the count. When memory runs out or the size overflows the operation fails (null, -ENOMEM or another error) and the array stays as it was. reset empties, release frees the block and leaves an array that can be used again; nothing outside the block is touched and no block is leaked.',
     ['inputs', 'histories', 'fault_sequences'], 'Element sizes 1, 3, 8 and 24; every sequence of three operations out of fifteen (four thorough), histories past every growing point, each allocation failing in turn, counts around every overflow of count, bytes and rounding.',
     'A capacity computed wrongly shows only for element sizes that do not divide the block and counts exactly at the boundary; overflow needs counts no test uses.',
     ['src/array.c', 'include/bfdev/array.h', 'include/bfdev/log2.h', 'include/bfdev/overflow.h'],
     [('growth', 'src/array.c: array_apply, array_reqsize, array_resize'), ('access', 'src/array.c: array_peek; include/bfdev/array.h: bfdev_array_data')],
     'abstract interpretation of bounded histories over LLVM IR (exact counts, symbolic contents), against a list model',
     TRUST + 'Histories are bounded; the array keeps no state but block, capacity and count.')

prop('P33', 'A size that overflows is refused; a block is never smaller than requested',
     'Whatever count and element size are given, bfdev_malloc_array, zalloc_array and realloc_array, FIFO and ring buffer dynamic_alloc and bfdev_bitmap_alloc and zalloc either fail and keep nothing, or obtain a block of at least count times size bytes (count rounded up to a power of two for FIFO and ring buffer, bits rounded up for bitmaps), where the product is the true one. A request that can be represented is not refused without asking the allocator.',
     ['inputs'], 'Counts at every power of two and every quotient of the address range, and around them; fourteen element sizes from one byte to the whole range; bitmaps up to UINT_MAX bits.',
     'The product wraps only for sizes no test asks for, and the result is then a valid but far too small block.',
     ['include/bfdev/allocator.h', 'include/bfdev/overflow.h', 'include/bfdev/log2.h', 'src/fifo.c', 'src/ringbuf.c', 'src/bitmap.c'],
     [('checked products', 'include/bfdev/allocator.h: bfdev_*_array'), ('rounded capacities', 'fifo.c, ringbuf.c: dynamic_alloc')],
     'constant propagation over LLVM IR with a complete set of boundary values, against unbounded arithmetic',
     TRUST + 'Element sizes and counts are sampled at the points where the behaviour of multiplication, rounding and shifting can change.')

prop('P36', 'The Bloom filter forgets no key and answers by its hash functions alone',
     'After a key was pushed, peek reports it until the filter is flushed, whatever else is pushed. push and peek answer true exactly when the positions of all hash functions were set before; push sets exactly those positions, peek changes nothing. Every position lies within the bitmap; a new or flushed filter is empty; create gives a bitmap of at least the capacity or fails; destroy releases the filter; the hash functions are called with their number, the key and the private data.',
     ['inputs', 'histories'], 'Capacities around one to sixteen words (78 words thorough) and at the end of the range; none to five hash functions; arbitrary hash values.',
     'A position outside the bitmap or a flush that leaves bits behind changes only answers for some hash values, which the test cannot tell from false positives.',
     ['src/bloom.c', 'include/bfdev/bloom.h', 'include/bfdev/hashtbl.h', 'include/bfdev/hash.h', 'include/bfdev/bitops.h'],
     [('positions', 'src/bloom.c: bloom_index'), ('flush and size', 'src/bloom.c: bfdev_bloom_flush, bfdev_bloom_create')],
     'abstract interpretation over LLVM IR with an arbitrary hash function, against a set of positions',
     TRUST + 'Hash values are sampled over the range; the filter uses them only through one multiplication and shift.')

prop('P20', 'An index list stays sorted and its index holds the first of every group',
     'For every comparison, every order of insertions and deletions: adding a node keeps the nodes in order, equal nodes in the order of insertion; adding a node that is already in the list changes nothing; deleting removes exactly the node and leaves it empty, ready to be added again. The index list links exactly the first node of every group of equal nodes, in order, whichever node of the group is deleted; first, last and head_empty agree with the list.',
     ['inputs', 'histories'], 'Every weak order of up to four nodes (five thorough) in every insertion order, every deletion order, deletion and reinsertion of every pair, repeated insertion.',
     'The index matters only for groups of equal keys whose first node is deleted; the test adds distinct nodes and deletes them all.',
     ['src/ilist.c', 'include/bfdev/ilist.h', 'include/bfdev/list.h'],
     [('insertion', 'src/ilist.c: bfdev_ilist_add'), ('index handed on', 'src/ilist.c: bfdev_ilist_del')],
     'shape analysis over LLVM IR of bounded histories with every order of keys, against a sorted-list model',
     TRUST + 'Histories are bounded; the lists keep no state but their links, all of which are read back after every operation.')

prop('P22', 'Every level of a skip list is sorted and search finds exactly what was inserted',
     'For every comparison, every random height and every history: the lowest level holds exactly the elements inserted and not deleted in order, every higher level is a subsequence of the one below with consistent links in both directions, levels not in use are empty. find gives an element with the key exactly when there is one and changes nothing; delete removes and releases one element with the key or nothing. When memory runs out insert reports -ENOMEM and the list stays as it was. reset releases every element, handing each key to the callback once, and leaves a usable list; destroy also releases the list. create refuses no levels and reports failed allocation.',
     ['inputs', 'histories', 'fault_sequences', 'random choices'], 'Every weak order of up to three keys (four thorough), every combination of heights up to four levels (five thorough), every insertion order, deletion of every key, each allocation failing in turn.',
     'Which links an operation has to change depends on the random heights of the neighbours; the test draws one random sequence, has no equal keys and no failing allocator.',
     ['src/skiplist.c', 'include/bfdev/skiplist.h', 'include/bfdev/list.h'],
     [('insertion', 'src/skiplist.c: bfdev_skiplist_insert'), ('search path', 'src/skiplist.c: skiplist_find'), ('deletion', 'src/skiplist.c: bfdev_skiplist_delete')],
     'shape analysis over LLVM IR of bounded histories with arbitrary heights and orders, against a sorted-list model',
     TRUST + 'Histories are bounded. The height is taken from rand(), whose every outcome is considered through the number of successes in a row.')

prop('P23', 'Sorting gives the sorted permutation and binary search finds what is there',
     'For every comparison function (of any magnitude of result), number of elements and element size: bfdev_sort leaves the same elements in ascending order and touches nothing outside the array; without array or comparison it reports an error and changes nothing. bfdev_list_sort leaves the same nodes in ascending order, equal nodes in their original order, with consistent links both ways. bfdev_bsearch (function and inline form) gives an element that matches exactly when the sorted array holds one, and asks only about elements of the array, whatever its size.',
     ['inputs'], 'All weak orders of up to five keys (six thorough), twelve shapes of longer inputs (up to 100, 300 thorough), element sizes 1 to 24 bytes (100 thorough), comparison results from 1 to LONG_MAX; searches for every position and run of matches in up to 13 elements (25 thorough) and at the ends and the middle of arrays of up to 2^60 elements.',
     'The tests sort random data once and compare neighbours; stability, truncation of a comparison result, element sizes that are no power of two and the ends of the range need particular inputs.',
     ['src/sort.c', 'src/list-sort.c', 'src/bsearch.c', 'include/bfdev/sort.h', 'include/bfdev/bsearch.h', 'include/bfdev/list.h'],
     [('heap order', 'src/sort.c: bfdev_sort, parent'), ('merges', 'src/list-sort.c: list_merge, list_finish, bfdev_list_sort'), ('halving', 'include/bfdev/bsearch.h: bfdev_bsearch_inline')],
     'abstract interpretation over LLVM IR for every order of keys, the comparison answered by the element at the address',
     TRUST + 'The number of elements is bounded for the sorts (the search is followed at any size); the code has no threshold that depends on the number of elements.')

prop('P24', 'A segment tree query visits exactly the intervals that meet it, in order',
     'For every history of insertions and deletions of intervals (equal, nested, touching and overlapping ones, up to the ends of the range): the tree holds exactly the intervals inserted and not deleted in the order of their starts, every node carries the greatest end of its subtree, and the cached leftmost node is right. For every query [start, end], first and next and the traversal macros (for_each, form, continue and their entry forms) give exactly the intervals that share a point with it, each once, in order of start, and change nothing; a tree defined for another type, signed or narrow, does the same.',
     ['inputs', 'histories'], 'Every history of three insertions over a domain of three points with every deletion, every order of up to five starts (six thorough), histories of up to 60 operations (160 thorough) with up to 20 (40) intervals alive; every query between the ends of the intervals and of the range.',
     'A stale subtree end hides intervals only for particular shapes after a rotation and queries that start behind all nearer intervals; the repository has no test of the segment tree.',
     ['include/bfdev/segtree.h', 'src/segtree.c', 'include/bfdev/rbtree.h', 'src/rbtree.c'],
     [('insertion and subtree end', 'include/bfdev/segtree.h: STNAME##_insert'), ('search', 'include/bfdev/segtree.h: STNAME##_search, _first, _next'), ('augmented callbacks', 'include/bfdev/rbtree.h: BFDEV_RB_DECLARE_CALLBACKS_MAX')],
     'abstract interpretation of bounded histories over LLVM IR (exact links and ends), against the set of intervals',
     TRUST + 'Histories are bounded; P10 covers the balance of the red-black tree below.')

prop('P40', 'The B-tree gives for every key what its history says',
     'For every layout with at least four entries per node, every key length and every history over keys that are not all zero: insert stores a new key or reports -EALREADY (or the result of the clash callback, which is given both values) and keeps the old value, refuses a null value, and reports -ENOMEM leaving the tree as it was; update replaces the value of an existing key or reports -ENOENT; lookup gives the value or null and changes nothing; remove gives the value of the removed key or null, and keeps the entry when the remove callback refuses. first, next, last and prev and every traversal macro (from, continue, reverse and safe forms, the safe ones also while the body removes the key) visit exactly the keys in order with their values. All leaves stay on one level, nodes have no gaps, keys in inner nodes bound their subtrees, no node is leaked. release hands every value to the callback once and frees every node; the tree can be used again.',
     ['inputs', 'histories', 'fault_sequences'], 'Nodes of four, five and six entries with keys of one to three words and the three layouts of the library (up to 80 keys, 300 thorough); every order of insertion of up to five keys (six thorough), histories of up to 160 operations (500 thorough) with splits and merges on several levels, each allocation failing in turn.',
     'Splitting, merging and lowering keys on several levels at once needs particular fill patterns; the tests insert and remove random keys in nodes of 32 entries and compare lookups only.',
     ['src/btree.c', 'src/btree-utils.c', 'include/bfdev/btree.h'],
     [('insertion and split', 'src/btree.c: insert_level'), ('removal and merge', 'src/btree.c: remove_level, remove_rebalance'), ('traversal', 'src/btree.c: bfdev_btree_next, bfdev_btree_prev; include/bfdev/btree.h')],
     'abstract interpretation of bounded histories over LLVM IR (exact nodes, opaque values), against a map model',
     TRUST + 'Histories are bounded. The all-zero key marks an empty entry and is excluded, as are layouts of fewer than four entries (the shrinking rule of the code needs four).')

prop('P28', 'A text search gives exactly the occurrences of the pattern, in order',
     'For each search algorithm the library registers (kmp, bm, sunday), every non-empty pattern and every text, with and without case: linear and find give the position of the first occurrence or UINT_MAX; next gives the first occurrence after the end of the previous one. kmp also finds occurrences that lie across the blocks next_block supplies; bm and sunday find those inside a block. Nothing outside the text, the pattern and the tables is read or written, the text and the caller\'s pattern are not changed, and the character functions are only handed characters. The context gives the pattern (folded when case is ignored) and its length, destroy releases everything, and create reports failed allocation. An algorithm can be created by name exactly while it is registered; registration refuses incomplete algorithms and names in use, unregistration those not registered.',
     ['inputs', 'histories', 'fault_sequences'], 'Every pattern of up to four bytes (five thorough) up to renaming and texts of up to seven bytes (eight); binary patterns of up to six bytes (eight) in texts of up to ten (13); representatives include bytes 0, 127, 128 and 255; patterns of up to four bytes without case over letters and their neighbours; every history of four registrations (five thorough).',
     'Shift tables go wrong only for particular self-overlaps of the pattern and particular bytes (255, bytes above 127); the repository tests no text search at all.',
     ['src/textsearch/kmp.c', 'src/textsearch/bm.c', 'src/textsearch/sunday.c', 'src/textsearch/linear.c', 'src/textsearch/textsearch.c', 'include/bfdev/textsearch.h'],
     [('shift tables', 'src/textsearch/bm.c: bm_compute_prefix; src/textsearch/kmp.c: kmp_compute_prefix; src/textsearch/sunday.c: sunday_compute_prefix'), ('scan', 'src/textsearch: kmp_find, bm_find, sunday_find'), ('registry', 'src/textsearch/textsearch.c')],
     'abstract interpretation over LLVM IR with open text bytes, split only where the algorithm looks',
     TRUST + 'Lengths are bounded; bytes that are neither in the pattern nor the other case of one of its bytes are represented by one value. toupper and tolower are those of the C locale.')

prop('P26', 'A cache answers as its entries, references and policy demand',
     'For each policy the library registers (lru, lfu), every hash and every history: get, try_get, cumulative and obtain give the entry of the key when the cache holds it (an uncommitted one only to those who ask for it), otherwise get takes a free entry or evicts one that is not in use - the least recently put one (lru) or one obtained least often since it was brought in (lfu) - unless all are in use or too many changes are pending; find gives committed entries only and changes nothing. Each entry is free, pending, in use or managed, is on the list of its state, and carries its key and number of references; put gives the references left and refuses entries not in use, delete and rename refuse entries that are not managed. The counters (used, pending, changed, hits, misses, starved) and the starving flag agree with the history. commit makes pending entries usable, reset empties the cache, destroy releases everything, create rounds the size up to a power of two, refuses sizes below two, missing callbacks and unknown policies and reports failed allocation. A policy can be named exactly while it is registered.',
     ['inputs', 'histories', 'fault_sequences'], 'Caches of two and four entries: the states of memory reachable by short histories, breadth first (at least 120 per configuration, 3000 thorough), with hashes that all collide, collide in pairs or never; histories of 300 operations (1500 thorough) with up to eight entries; each allocation failing in turn; every history of four registrations.',
     'Which entry is evicted and which counter moves depends on the whole history; the repository tests no cache at all.',
     ['src/cache/cache.c', 'src/cache/lru.c', 'src/cache/lfu.c', 'include/bfdev/cache.h', 'include/bfdev/hashtbl.h', 'include/bfdev/heap.h'],
     [('states', 'src/cache/cache.c: bfdev_cache_obtain, bfdev_cache_put, bfdev_cache_del, bfdev_cache_committed'), ('policies', 'src/cache/lru.c, src/cache/lfu.c'), ('registry', 'src/cache/cache.c: bfdev_cache_register')],
     'abstract interpretation of bounded histories over LLVM IR, breadth first over states of memory, against a model of the cache',
     TRUST + 'Histories are bounded; renaming an entry to a key another entry holds is excluded. Keys and data are opaque; the user sets the data of an entry it obtained.')

prop('P41', 'Memory allocators hand out disjoint, large enough blocks and lose nothing',
     'For every history of allocations, reallocations and releases on a memory region (first, best and worst fit) and every request size: a block handed out lies inside the region, was free, and has at least the requested size; it stays untouched by every later operation until it is released; a request fails exactly when no free chunk is large enough (reallocation also uses the free space behind the block, and keeps the contents up to the smaller size and the block itself when it fails); best fit takes the smallest, worst fit the largest chunk that fits. The chunks always tile the region, neighbouring free chunks are merged, and both lists and the free total agree with them. An allocation pool hands out disjoint blocks inside its memory at the requested alignment, refuses empty requests and those that do not fit without changing anything, succeeds when empty and the block fits, and starts anew when the last block is released or it is reset.',
     ['inputs', 'histories'], 'Memory regions of 300 to 3001 bytes: states reachable by short histories breadth first (150 to 500 per configuration, 3000 thorough), histories of 250 operations (1000 thorough) over odd sizes; request sizes up to and around the size of the address space; pools at aligned and odd addresses with alignments up to 4096. With and without the debug checks.',
     'Whether a remainder becomes a chunk, which neighbours merge and whether a size wraps depend on exact sizes and order; the repository test runs random allocations without looking at the result, and never a size near the limit.',
     ['src/memalloc.c', 'include/bfdev/memalloc.h', 'src/allocpool.c', 'include/bfdev/allocpool.h'],
     [('allocation', 'src/memalloc.c: bfdev_memalloc_alloc, *_fit'), ('resizing', 'src/memalloc.c: bfdev_memalloc_realloc'), ('merging', 'src/memalloc.c: bfdev_memalloc_free'), ('pool', 'src/allocpool.c')],
     'abstract interpretation of bounded histories over LLVM IR, breadth first over chunk layouts, with ghost contents of the blocks',
     TRUST + 'Histories are bounded. Alignments are powers of two. A region smaller than a chunk header is excluded; of a region of odd size the last byte may stay unused.')

prop('P27', 'State machines, notifier chains and resource pools run what is due, in order',
     'A state machine handles an event by the first transition of the current state whose type matches and whose guard allows it (each guard asked in turn), otherwise by what the exception handler gives, otherwise by the parents in turn; without any it reports BFDEV_FSM_NOCHANGE and stays. The transition leads to its next state (or, when it has none and pops, to the state pushed that many levels ago; a stack that is too short is reported as -EOVERFLOW), and on to entry states down to the innermost. It runs the exit action of the state that handled the event (unless it stays in that state or pushes), the transition action and the enter action of the new state (unless it is the same state or pops), in this order, each once with its own data; one that fails ends the step with its value and the state stays. Then the new state is current and the old one previous; the results self loop, finish, error state (-EFAULT) and changed say what happened; a pushing transition pushes the state it left, failed memory is reported; a crossing transition handles the event again in the new state. Without a state to go to the error state is entered. A notifier chain calls its nodes once each by ascending priority, up to the given number, counts the calls, takes out nodes that ask for it, stops when asked, and gives the last result; nodes without entry are refused. A resource pool finds exactly the nodes that are in it; release and its variants take nodes out and call the release callback of each exactly once. Actions call their function with their data, or report -ENODATA when cleared.',
     ['inputs', 'histories', 'fault_sequences'], '1400 machines of two to five states (8400 thorough) with parents, entries, guards, stacks, exceptions and crossings, six events each (12 thorough); for every event all results of the callbacks (up to 150 paths) and the failure of the allocation. Chains of up to four nodes in every order of registration with results of the nodes sampled (all, thorough), pools of four nodes exhaustively; with and without the debug checks.',
     'Which action runs depends on the hierarchy, the results of earlier actions and the stack; the repository tests none of the three.',
     ['src/fsm.c', 'include/bfdev/fsm.h', 'src/notifier.c', 'include/bfdev/notifier.h', 'src/respool.c', 'include/bfdev/respool.h', 'include/bfdev/action.h', 'src/callback.c', 'src/ilist.c'],
     [('event handling', 'src/fsm.c: bfdev_fsm_handle, fsm_find_transition'), ('notification', 'src/notifier.c: bfdev_notifier_call, notifier_chain_cmp'), ('release', 'src/respool.c')],
     'abstract interpretation over LLVM IR of histories with open callback results, the calls compared with a model of the machine',
     TRUST + 'Machines are sampled by a fixed generator and histories are bounded. The stack after a failed exit or transition action that popped, and the order of nodes of equal priority, are not stated.')

prop('P31', 'String helpers copy, split, measure and name exactly, inside their buffers',
     'For every string: strdup and strndup (which looks at no more than the given number of characters) give a terminated copy in a block of its own or null; strdiff and memdiff give the first character that differs or null; argv_count and argv_split give the words between runs of space, tab, carriage return and newline, with the count and a final null, without touching the input, in one block that argv_destroy releases; scnprintf gives the number of characters in the buffer, at most size - 1, and nothing for an empty buffer. errname knows exactly the numbers of errno.h, in both signs, each by its own name, and leaves the description alone when it knows none. The edit distance is the least total weight of substitutions, swaps of neighbours, insertions and deletions (no character edited twice after a swap), and UINT_MAX without memory.',
     ['inputs', 'fault_sequences'], 'Every string of up to four characters (six thorough) over representatives (letters, 1, 255), up to six over separators (eight thorough); text lengths around every size from 0 to 2^40; every number from -1100 to 1100 and the ends of the range; all pairs of strings of up to four characters (five thorough) up to renaming, seven sets of weights.',
     'Missing terminators, words at the ends and uninitialised cells show only for particular strings; the repository tests none of these functions.',
     ['src/libc/strdup.c', 'src/libc/string.c', 'src/argv.c', 'src/scnprintf.c', 'src/errname.c', 'src/levenshtein.c', 'include/bfdev/errno.h'],
     [('copies', 'src/libc/strdup.c'), ('words', 'src/argv.c'), ('edit distance', 'src/levenshtein.c'), ('names', 'src/errname.c: bfdev_errname_table')],
     'abstract interpretation over LLVM IR with exact, initialisation-tracked memory, against the definitions',
     TRUST + 'String functions of the C library are modelled exactly; vsnprintf is represented by its result. Lengths are bounded.')

prop('P38', 'Rate limits and token buckets accept exactly what they allow',
     'For nondecreasing positive times: a rate limit accepts the first burst requests of every window and refuses the others; a window begins with the first request (also after a reset) and with the first request later than one interval after the beginning of the window before. A token bucket begins full, gains one token per full interval since the last one counted, up to its capacity, however long the pause (the remainder of an interval is kept), and accepts a request exactly when it holds a token, which it takes; update moves the time without generating tokens. Refusals and acceptances are counted as they happen (of the rate limit: acceptances in the window); interval 0 accepts everything. Comparisons, sums and differences of times are those of the numbers.',
     ['inputs', 'histories'], 'All sequences of five requests (six thorough) over gaps up to six and limits up to three; one pause of up to 2^40 intervals in every relation to intervals of 1 to 2^40 and limits 0 to 2^32 - 1; histories of 60 calls (300 thorough) with resets and updates.',
     'Truncation to 32 bits and wrapped sums need long pauses or large limits, off-by-one windows need a request exactly at the end; the repository tests neither.',
     ['src/ratelimit.c', 'src/tokenbucket.c', 'include/bfdev/ratelimit.h', 'include/bfdev/tokenbucket.h', 'include/bfdev/time.h'],
     [('window', 'src/ratelimit.c: bfdev_ratelimit'), ('refill', 'src/tokenbucket.c: bfdev_tokenbucket')],
     'abstract interpretation over LLVM IR on the boundaries of every comparison, against a model in unbounded arithmetic',
     TRUST + 'Boundary values stand for the ranges between them. Times that run backwards or whose sums leave 63 bits are excluded.')
prop('P30', 'Hashes, the ARC4 stream and the random generator are the published ones',
     'The Jenkins hash, the PJW string hash and the multiplicative hashes (any number of result bits; zero bits give zero) are the published functions of their input for every input, read nothing outside it and write nothing. The ARC4 key setup and stream are the published ones for every key, and the stream does not depend on how it is cut into calls or whether it is applied in place. The random generator is the published taus113: every value, the seeding of every 64-bit seed with the minimum of each component, the default state, and the wider draws, which take the high half first.',
     ['inputs'], 'jhash for every length up to 41 bytes (109 thorough) with open bytes and start value; the multiplicative hashes for all values; the string hash for ASCII strings of up to eight characters (eleven thorough), split by the lowest set bit of each character; ARC4 with open data for keys of many lengths between 1 and 256 bytes whose bytes are fixed; the generator for every state and every seed.',
     'A wrong tail of one length, a lost carry or an ignored half of the seed changes results that the repository tests print but do not compare.',
     ['src/jhash.c', 'include/bfdev/jhash.h', 'include/bfdev/hash.h', 'src/stringhash.c', 'src/prandom.c', 'include/bfdev/prandom.h', 'src/crypto/arc4.c', 'include/bfdev/arc4.h'],
     [('jhash', 'src/jhash.c: bfdev_jhash'), ('pjwhash', 'src/stringhash.c: bfdev_pjwhash'), ('taus113', 'src/prandom.c: bfdev_prandom_value, bfdev_prandom_seed'), ('arc4', 'src/crypto/arc4.c: bfdev_arc4_trans, bfdev_arc4_setkey')],
     'value numbering over LLVM IR: modular sums and bit polynomials in a canonical form, compared with the published definition',
     TRUST + 'The key schedule of ARC4 is decided for fixed keys only: with open key bytes every table index is open.')
prop('P29', 'Alignment, rounding, minimum, error pointer and ring counting helpers are exact',
     'For every integer type and every value: minimum, maximum and clamp (lower limit not above the upper) give the operand they name, in the type of the first operand, and the adjusting forms store it; swap exchanges. Aligning (and rounding) a value or a pointer down or up to a power of two gives the largest multiple not above, respectively the smallest not below, in the width of the value, whatever the width of the alignment; the alignment check is true exactly for multiples. Division rounding up and rounding to the closest are exact when nothing overflows. The ring counts (items, space, and both up to the end of the buffer) agree with the positions modulo a power of two. Exactly the pointers in the topmost 4096 values are error pointers; encoding, decoding, the null-is-an-error forms and the zero-for-no-error forms agree with that. A double word division by a divisor whose top bit is set has quotient 1 exactly when the dividend is not less than it.',
     ['inputs'], 'All integer types of 8 to 64 bits signed and unsigned, all alignments; operands of up to 8 bits split completely (16 thorough), wider values against an alignment by representative carries, the limits of clamp at representative bits; divisions and ring counts to the end of the buffer for small operands; the remainder of the double word division only for dividends less than the divisor.',
     'A mask of the wrong width or a lost sign needs a value above 32 bits or an unusual mix of types; the repository tests none of these helpers with them.',
     ['include/bfdev/align.h', 'include/bfdev/minmax.h', 'include/bfdev/math.h', 'include/bfdev/macro.h', 'include/bfdev/circle.h', 'include/bfdev/errptr.h', 'src/dword.c'],
     [('alignment', 'include/bfdev/align.h'), ('minimum and maximum', 'include/bfdev/minmax.h'), ('rounding', 'include/bfdev/math.h'), ('error pointers', 'include/bfdev/errptr.h'), ('ring counts', 'include/bfdev/circle.h'), ('double word division', 'src/dword.c: bfdev_dword_generic_udivd')],
     'value numbering over LLVM IR, split by the relation of the operands',
     TRUST + 'The quotient estimation and correction of the double word division are not decided: they rest on a theorem about open products.')
prop('P32', 'The public headers stand alone and what they declare can be linked',
     'Every public header compiles as C alone and included twice, in the debug and the release configuration; groups of declarations opened for C++ are closed. Every function and variable a public header declares external is defined by the library, visible to programs that link the shared library, and has the declared result and parameter types.',
     ['inputs'], 'All public headers, all declarations, both configurations.',
     'A symbol that is declared, defined and hidden links in no program; the repository tests link only what they use.',
     ['include/bfdev', 'src', 'include/export.h', 'include/bfdev/allocator.h', 'include/bfdev/log.h', 'include/bfdev/notifier.h', 'src/allocator.c', 'src/log/log.c'],
     [('visibility', 'include/export.h'), ('declarations', 'include/bfdev')],
     'compile witnesses per header and a symbol query over the linked LLVM IR',
     TRUST + 'Function-like macros are decided by the properties of their parts; most headers do not compile as C++ and this is not claimed.')
prop('P39', 'Matrix operations give the defined elements and leave their operands alone',
     'Import, set, sum, difference, product and transposition give a matrix of the defined shape whose every element is the defined combination of the elements of the operands as they were (modulo the word), also when the destination held another matrix before or is one of the operands of a sum, difference or product; operands that are not the destination stay as they were. Shapes that do not fit are refused and change nothing. Data gives the element at a row and column inside the shape and nothing outside. When memory is exhausted the operation reports it and the operands stay as they were; release gives every block back once.',
     ['inputs', 'faults'], 'All shapes up to 3x3 (5x5 thorough) with open elements, fresh, larger and smaller destinations, all aliasings, one failing allocation at every point. Transposition and set in place are excluded.',
     'A product into its own operand, a rectangular shape or a second element row distinguishes shapes and operands; the repository tests use square matrices and read one element.',
     ['src/matrix.c', 'include/bfdev/matrix.h'],
     [('elements', 'src/matrix.c: bfdev_matrix_mul, bfdev_matrix_trans, GENERIC_MATRIX_ADDSUB'), ('shape', 'src/matrix.c: bfdev_matrix_import, bfdev_matrix_data')],
     'value numbering over LLVM IR: open elements in canonical modular sums of products',
     TRUST + 'Shapes beyond the bound run the same loops.')

prop('P42', 'Multi precision integers give the exact result with its sign',
     'Sum, difference and product of two numbers and with a single word, quotient and remainder by a single word, shifts, and, or, xor, single bit operations, comparison, import, set and data give the exact integer result, for numbers of any sign, normalised (no zero word on top, no negative zero), also when the destination is one of the operands or held another number before, and an operand that is not the destination keeps its value. A quotient or remainder by the word zero is refused. The remainder has the sign of the dividend and is smaller than the divisor. No memory outside the numbers or already released is touched and release gives every block back. Left out: division by a number of several words.',
     ['inputs'], 'Numbers of nothing to three words (four thorough; products up to two by two) with open words, all signs, all aliasings with the destination; shift counts and bit positions around the word boundaries (all to 194 thorough). The double word by word division primitive enters by its specification.',
     'A carry that runs through a word of ones, an operand that is the destination while carries run, or a borrow that meets an equal word shows for a few operands in 2^64 only; the tests use a few fixed numbers.',
     ['src/mpi.c', 'include/bfdev/mpi.h', 'include/bfdev/asm-generic/dword.h'],
     [('carries', 'src/mpi.c: mpa_add, mpa_addi, mpa_sub, mpa_subi, mpa_muli, mpa_maci'), ('signs', 'src/mpi.c: bfdev_mpi_add, bfdev_mpi_sub, bfdev_mpi_addi, bfdev_mpi_subi, mpi_sign'), ('word division', 'src/mpi.c: mpa_divmodi, mpa_modi')],
     'linear-constraint abstract interpretation of LLVM IR: words as polynomials, carries as unknowns, exact simplex for emptiness',
     TRUST + 'The exactness of bfdev_dword_generic_udiv is assumed here. Longer numbers run the same loops.')
