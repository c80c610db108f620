I = 'path-sensitive typestate dataflow over the lowered IR (clang, SROA only) of one-operation witness instantiations of the headers; destructors, temporaries and exceptional edges explicit, loops by affine induction, unknown callees as events'
H = 'c++/src/'
prop('P10', 'Every owned object is disposed exactly once by its own disposer',
 'An object held by an owning pointer or owning array is released exactly once, through the disposer it was created with and with the right address, element count and capacity: never leaked, released twice, or released while another owner still holds it, on every path of construction, move, conversion, downcast, attach, assignment and destruction, including when a constructor or destructor throws. Assigning to an owner from something owned by its current content is safe, and attachments are destroyed after the object they are attached to.',
 ['histories', 'faults'], 'all sequences of ownership operations, all throwing constructors and destructors', 'leaks and double releases on exceptional or aliasing paths are invisible to tests that do not construct exactly those paths',
 [H + 'kj/memory.h', H + 'kj/array.h', H + 'kj/refcount.h', H + 'kj/memory.c++', H + 'kj/array.c++'],
 [('owning pointers and disposers', H + 'kj/memory.h Own, Disposer, attach, heap'), ('owning arrays', H + 'kj/array.h Array, ArrayBuilder, ArrayDisposer')],
 I + '; ownership conservation: every entry token is at exit in exactly one owner or was released exactly once', 'every operation of Own (both disposer kinds), Rc, Arc, Array, ArrayBuilder; distinct owner arguments are assumed not to overlap')
prop('P11', 'A reference-counted object lives exactly as long as references to it',
 'Creating, copying or adopting a counted reference changes the count by exactly the number of references created; dropping one decrements exactly once and destroys the object exactly when the count reaches zero. A weak upgrade never revives an object whose count already reached zero. For the thread-safe variant this holds under every interleaving, and everything done through other references happens before destruction and before isShared() reports a sole owner.',
 ['histories', 'schedules'], 'all interleavings of reference operations on any number of threads', 'memory-ordering and count races need specific interleavings on weakly ordered hardware',
 [H + 'kj/refcount.h', H + 'kj/refcount.c++'],
 [('reference counts', H + 'kj/refcount.h Refcounted, AtomicRefcounted, Rc, Arc'), ('final drop', H + 'kj/refcount.c++ disposeImpl')],
 I + '; count equations per operation, atomicity and acquire/release ordering of each access', 'counts below 2^32')
prop('P12', 'Containers construct and destroy each element exactly once, in storage',
 'ArrayBuilder, Vector, Array and their factories construct every element exactly once inside the allocated storage and destroy it exactly once: no operation (add, addAll, removeLast, truncate, clear, resize, grow, reserve, finish, release, heapArray, arr, KJ_MAP) constructs over a live element, destroys a dead one, writes past capacity, frees storage while elements are alive, or loses track of a live element, including when an element constructor or destructor throws part-way. Relocation and finishing keep all elements, in order, and the reported size equals the number of live elements.',
 ['histories', 'faults'], 'all sizes and capacities, all points at which an element operation can throw', 'partial-failure bookkeeping depends on where among arbitrarily many elements an exception strikes',
 [H + 'kj/array.h', H + 'kj/vector.h', H + 'kj/array.c++'],
 [('builders', H + 'kj/array.h ArrayBuilder, heapArray, _::CopyConstructArray_'), ('growth', H + 'kj/vector.h Vector::grow, setCapacity'), ('partial construction', H + 'kj/array.c++ HeapArrayDisposer, ExceptionSafeArrayUtil')],
 I + '; ghost high-water mark of live elements per allocation, checked at every element constructor and destructor, storage release and exit', 'sizes below 2^58; destroying a moved-from temporary does not throw; addAll source does not alias the container')
prop('P13', 'Maybe and OneOf hold exactly the value their state says',
 'A Maybe or OneOf that reports a value holds exactly one constructed value of that type, and one that reports none holds none, after every operation and also after every operation that threw: values are never constructed over, read, assigned or destroyed while dead, never leaked and never destroyed twice. Copying, moving, converting, emplacing and assigning (including from itself or its own content for Maybe) yield the value of the right source; a moved-from Maybe is empty; the unwrapping accessors and macros run on exactly the contained value and take the empty branch, or fail, exactly when there is none.',
 ['histories', 'faults'], 'all sequences of operations and all points at which an element operation can throw, for flag- and niche-represented element types', 'state/flag divergence only shows when an element operation throws at a particular step or for a particular representation',
 [H + 'kj/common.h', H + 'kj/one-of.h', H + 'kj/debug.h'],
 [('Maybe representations', H + 'kj/common.h _::NullableValue (both), Maybe, Maybe<T&>'), ('variants', H + 'kj/one-of.h OneOf'), ('unwrapping', H + 'kj/common.h KJ_IF_SOME, KJ_UNWRAP_OR; kj/debug.h KJ_ASSERT_NONNULL')],
 I + '; ghost liveness and value identity of every element, initial and final states read through the public observers', 'OneOf is not assigned from itself or its own content; destroying a moved-from temporary does not throw')
prop('P14', 'Array and string views denote exactly the requested part of the data',
 'Indexing, slicing and converting ArrayPtr, Array, Vector, ArrayBuilder, StringPtr, String, ConstString and the Cap\'n Proto text and data types yields exactly the requested elements: the right address and the right length, for every size and index. In debug builds every out-of-range index, slice, copy or unterminated string is rejected and no valid request is. No operation reads or writes outside the viewed data and its string terminator. Equality, ordering, prefix and suffix tests, findFirst/findLast, split, fill and copyFrom give the result defined by the elements, in particular for empty, one-element and equal-prefix views.',
 ['inputs'], 'all sizes, indexes, ranges and contents', 'boundary conditions over unbounded sizes and contents; an off-by-one only shows for a particular size, content or build mode',
 [H + 'kj/common.h', H + 'kj/array.h', H + 'kj/vector.h', H + 'kj/string.h', H + 'capnp/blob.h'],
 [('views', H + 'kj/common.h ArrayPtr, SplitIterator'), ('owning views', H + 'kj/array.h, kj/vector.h'), ('strings', H + 'kj/string.h StringPtr, String, ConstString; capnp/blob.h Text, Data')],
 I + '; symbolic address/length of every result against its definition, bounds obligation at every access, bulk call and comparison, acceptance/rejection obligations with debug checks on and off', 'sizes below 2^58 elements; memcmp, memchr and strlen per the C standard; StringPtr::find (in string.c++) is not covered')
prop('P15', 'Typed lists and wire values address exactly the requested element',
 'Reading or writing element i of any list (raw, primitive, bit, enum, struct, text, data, nested, capability, any-pointer) touches exactly the bits of element i under the list\'s own stride and no others, and yields or stores exactly the value, little-endian on the wire under every byte-order implementation. List iterators denote begin + offset for every way of moving them and compare as their positions. The reported size is the list\'s element count; in debug builds every index past the end is rejected and no index inside the list is; pointers handed out carry the list\'s own segment, capability table and remaining nesting depth.',
 ['inputs', 'configurations'], 'all list sizes, strides (including lists upgraded to structs), indexes and values', 'stride, carry and byte-order mistakes only show for particular strides, indexes, widths or platforms',
 [H + 'capnp/list.h', H + 'capnp/layout.h', H + 'capnp/endian.h', H + 'capnp/any.h', H + 'capnp/capability.h'],
 [('typed lists and iterators', H + 'capnp/list.h List<T>, IndexingIterator'), ('raw element access', H + 'capnp/layout.h ListReader, ListBuilder'), ('wire values', H + 'capnp/endian.h DirectWireValue, SwappingWireValue, ShiftingWireValue')],
 I + '; symbolic address of every access against base + index*stride, bit-provenance of every value, acceptance/rejection with debug checks on', 'lists below 2^29 elements and 2^23 bits per element; bit lists and native, byte-swapping and shifting encodings')
prop('P16', 'A promise delivers exactly the outcome of the operation that made it',
 'The outcome of a promise (value or exception) is determined by what it was made from, for every outcome and cleanup failure of its dependencies and every throwing continuation: then/catch_ call exactly the matching continuation, once, with the dependency\'s own value or exception and deliver its result or what it threw; attach, fork branches, split and eager evaluation pass the outcome through unchanged to every receiver; a fulfiller\'s first fulfill or reject decides, later calls and calls after the promise is gone do nothing, and dropping it unused rejects; joins keep order and deliver an exception if any element failed; races and exclusive joins deliver the first success, respectively the first outcome; executors, coroutines, wait and ExceptionOr return the value or rethrow the exception. A promise becomes ready exactly once, as soon as its outcome is decided.',
 ['histories', 'faults'], 'all outcomes of dependencies, throwing continuations and throwing cleanups, all orders of fulfilling', 'outcomes combine (value and exception, failure during cleanup, second fulfil) in ways tests do not enumerate',
 [H + 'kj/async-inl.h', H + 'kj/async.h', H + 'kj/async-prelude.h', H + 'kj/async.c++'],
 [('promise nodes', H + 'kj/async-inl.h TransformPromiseNode, ForkBranch, AdapterPromiseNode, ArrayJoinPromiseNode, ...'), ('results', H + 'kj/async-inl.h ExceptionOr, convertToReturn')],
 I + '; outcome delivered on every path against its specification, identity of values and exceptions tracked through moves and clones', 'event-loop scheduling and the other thread of cross-thread operations are represented by their contracts; retryOnDisconnect and stream joins are not covered')
prop('P17', 'Promise memory is freed exactly once, after everything that uses it',
 'Building, running and dropping any combination of promise operations frees each allocation exactly once and touches none afterwards, also when destroying a dependency throws; promise nodes sharing an arena stay inside it and never overlap the node they were appended to, for every node size; each dependency is destroyed exactly once, and before the continuations, attachments or thread functions it may refer to, which are themselves destroyed exactly once; cross-thread and fiber work is cancelled before the function it runs is destroyed.',
 ['histories', 'faults'], 'all orders of dropping and fulfilling, all throwing destructors, node sizes around the arena boundary', 'lifetime errors show only for particular sizes, drop orders and throwing destructors, and then as silent corruption',
 [H + 'kj/async-inl.h', H + 'kj/async.h', H + 'kj/async-prelude.h', H + 'kj/async.c++'],
 [('promise arenas', H + 'kj/async-inl.h PromiseDisposer::alloc, appendPromise, dispose'), ('destruction order', H + 'kj/async-inl.h ~TransformPromiseNode, ~AttachmentPromiseNode, ~XThreadEventImpl, ~Fiber, WeakFulfiller')],
 I + '; ghost allocation state, lifetime of every dependency, continuation and attachment, bounds of every access to a promise arena', 'ownership handed to another thread is not followed there')
prop('P18', 'An intrusive list holds exactly the linked elements, in order',
 'After any sequence of add, addFront and remove on a kj::List, iterating it (const or not) visits exactly the elements that are linked, in the order the operations define; size, empty, front and each element\'s isLinked agree with it; the element being visited may be removed without disturbing the iteration; removed elements may be added again. Adding an element that is already linked or removing one that is not is rejected and leaves the list and the element unchanged.',
 ['histories'], 'all sequences of add, addFront and remove', 'a link left stale only shows later, for a particular order of operations',
 [H + 'kj/list.h', H + 'kj/list.c++'],
 [('intrusive list', H + 'kj/list.h List, ListLink, ListIterator')],
 I + '; complete iteration, size and link state of every element after every history over three elements (every neighbour configuration)', 'one link per list; elements outlive their membership')
prop('P19', 'A guarded value is only reachable while its lock is held in the right mode',
 'MutexGuarded and ExternalMutexGuarded hand out their value only with the mutex held - exclusively for mutable access, at least shared for const access - and give the lock up exactly once, in the mode it was taken, when the last holder (Locked, moved, assigned over, released, or going out of scope through an exception) is gone; a timed lock that fails yields nothing and holds nothing; conditions of when()/wait() and the callbacks after them run with the lock held. Lazy runs its initializer until it has succeeded exactly once and every get() yields that one object, fully initialised.',
 ['histories', 'schedules', 'faults'], 'all operation sequences, lock outcomes and throwing callbacks', 'a guard that outlives or loses its lock only shows under contention or when something throws',
 [H + 'kj/mutex.h', H + 'kj/mutex.c++'],
 [('guards', H + 'kj/mutex.h Locked, MutexGuarded, ExternalMutexGuarded'), ('one-time initialisation', H + 'kj/mutex.h Lazy; kj/mutex.c++ Once')],
 I + '; typestate of the mutex (ghost) at every hand-out, callback and exit; acquire ordering of the initialised test', 'kj::_::Mutex itself provides mutual exclusion; ExternalMutexGuarded is assigned only while empty')
prop('P20', 'A table and its indexes always agree about its rows',
 'After every Table operation (insert, insertAll, upsert, findOrCreate, find, erase, eraseMatch, eraseRange, eraseAll, release, clear) each index has been told exactly about the rows the table holds, with their current positions and keys. An operation that fails - a duplicate in any index, a throwing index, a throwing row factory - leaves rows and all indexes as they were. Lookups yield the row at the position the index reports; erasing moves only the last row into the gap; erasing several rows at once erases exactly those, in whatever order they are listed; ordered iteration, ranges and seek yield the rows in index order.',
 ['histories', 'faults'], 'all combinations of duplicates and failures in any index, all sets and orders of erased rows', 'index and row storage drift apart only when a later index rejects or throws, or for particular erase orders',
 [H + 'kj/table.h'],
 [('index protocol', H + 'kj/table.h Table::Impl, insert, upsert, FindOrCreateImpl'), ('erasing', H + 'kj/table.h eraseImpl, release, eraseAllImpl')],
 I + '; ghost indexes recording positions and keys, compared with the rows on every path', 'moving a row does not throw; memory allocation succeeds; three rows and three indexes (the operations treat rows and indexes uniformly)')
prop('P21', 'A hash map finds exactly the keys inserted and not erased',
 'Whatever the hash codes of the keys (equal, in the same bucket, in neighbouring buckets, wrapping around the end of the bucket array), after any operations on a HashMap, HashSet or table with a HashIndex exactly the keys present are found, with the value stored for them; inserting a present key is rejected (or updates it, for upsert) and leaves everything else unchanged, also when erased slots precede it; erasing, releasing, reserving, clearing, conditional erasing and a throwing entry factory affect exactly the keys they name; lookups always terminate however many keys have been inserted and erased.',
 ['histories', 'inputs'], 'all hash code collisions and probe sequences, all orders of insert and erase', 'collisions, erased slots and wrap-around combine in ways that depend on hash codes',
 [H + 'kj/table.h', H + 'kj/map.h', H + 'kj/table.c++'],
 [('hash index', H + 'kj/table.h HashIndex, HashBucket, probeHash'), ('maps and sets', H + 'kj/map.h HashMap, HashSet')],
 I + '; arbitrary hash codes from every collision class, arbitrary values, complete lookup after every operation; ghost allocation state', 'equal keys have equal hash codes and keys do not change while in the table; three keys and the growth steps they cause')
prop('P22', 'A tree map holds its keys in order and finds exactly those present',
 'For any keys in any order of insertion, a TreeMap, TreeSet or table with a TreeIndex finds exactly the keys inserted and not erased, with the value stored for them; iterating forwards visits every row once in strictly ascending key order and backwards in the reverse; a range holds exactly the rows not before its first bound and before its second; inserting a present key is rejected (or updates it, for upsert) without other effect; erasing, releasing, range erasing, clearing and a throwing entry factory affect exactly the rows they name, also when nodes split, merge or borrow from their neighbours.',
 ['histories', 'inputs'], 'all keys and key orders, insertion and erasure at every position of full, half-full and split nodes', 'searching and rebalancing depend on the position of the key within and between nodes',
 [H + 'kj/table.h', H + 'kj/map.h', H + 'kj/table.c++'],
 [('tree nodes and iterators', H + 'kj/table.h BTreeImpl::Leaf, Parent, Iterator'), ('tree index', H + 'kj/table.h TreeIndex'), ('ordered maps', H + 'kj/map.h TreeMap, TreeSet')],
 I + '; symbolic keys (every order and position), complete iteration and lookup after every operation; ghost allocation state', 'the key order is a strict total order; trees of up to 23 rows (one to four leaves, one parent level)')
prop('P23', 'An insertion-ordered table visits rows in insertion order',
 'A table with an InsertionOrderIndex, iterated forwards or backwards, visits exactly the rows present in the order they were inserted, whatever was erased, released or re-inserted in between and wherever rows were moved to; clearing (also when empty or moved from), reserving, moving and assigning keep that order and neither leak nor touch storage they do not own.',
 ['histories'], 'all orders of insertion and erasure', 'a link left stale by erasing or moving a row only shows later',
 [H + 'kj/table.h', H + 'kj/table.c++'],
 [('insertion order', H + 'kj/table.h InsertionOrderIndex; kj/table.c++ insertImpl, eraseImpl, moveImpl')],
 I + '; complete iteration after every operation; ghost allocation state', 'memory allocation succeeds; histories over three rows and one of twelve')
prop('P24', 'Scope guards run exactly when named; exception capture is exact',
 'Code registered with KJ_DEFER or kj::defer runs exactly once when its scope ends, normally or by an exception and also when it throws itself, not before and not after being cancelled or moved away; KJ_ON_SCOPE_SUCCESS code runs only on normal exit and KJ_ON_SCOPE_FAILURE code only on exceptional exit. runCatchingExceptions reports an exception exactly when one was thrown; a KJ_CATCH block runs exactly then; catchExceptionsIfUnwinding swallows an exception only while another is in flight.',
 ['faults', 'histories'], 'every point at which a scope can be left', 'exceptional exits at every point of a scope, and exceptions inside guards, are rarely exercised',
 [H + 'kj/common.h', H + 'kj/exception.h'],
 [('deferred code', H + 'kj/common.h Deferred, KJ_DEFER'), ('capture', H + 'kj/exception.h runCatchingExceptions, KJ_TRY, KJ_CATCH, UnwindDetector')],
 I + '; how often guarded code ran, at every exit', 'an exception counts as in flight from the throwing call to its handler')
prop('P25', 'A failed check always raises and a passed one has no effect',
 'Control gets past KJ_REQUIRE, KJ_ASSERT and their variants exactly when the condition, a comparison of any operands or any other expression, is true; every operand is evaluated exactly once with the meaning it has outside the macro, and message arguments only on failure. KJ_FAIL_* and KJ_UNIMPLEMENTED never continue; KJ_REQUIRE_NONNULL yields exactly the contained value or raises. KJ_SYSCALL and its variants go on exactly when the call succeeded (for the non-blocking one also when it would block), raise or report the error otherwise, and repeat a call that was interrupted.',
 ['inputs', 'faults'], 'all operand values, all results and error numbers of a system call', 'a check that is skipped or evaluated twice only shows for the particular inputs and failures that should have been stopped',
 [H + 'kj/debug.h', H + 'kj/common.h'],
 [('checks', H + 'kj/debug.h KJ_REQUIRE, KJ_REQUIRE_NONNULL, DebugExpression, DebugComparison'), ('system calls', H + 'kj/debug.h Debug::syscall, syscallError, SyscallResult')],
 I + '; reachability of the code after each check against the truth of its condition', 'Fault::fatal() throws; stringifying has no effect; interrupted calls are repeated up to three times, then generalised')
prop('P26', 'Callables and tuples pass arguments and values through exactly',
 'Calling a Function, ConstFunction, FunctionParam or bound method calls the stored (or, where given an lvalue or made by reference(), the referenced) callable once with exactly the given arguments and returns exactly its result; the stored callable is never copied behind the scenes and is destroyed exactly once with its owner, also after moves, assignments and exceptions. A tuple holds at each index exactly the value given there after flattening, references stay references, and apply passes the elements in order.',
 ['inputs', 'histories'], 'all argument values, value categories and owner histories', 'wrong forwarding or a hidden copy shows only for particular value categories and stateful callables',
 [H + 'kj/function.h', H + 'kj/tuple.h'],
 [('callables', H + 'kj/function.h Function, ConstFunction, FunctionParam, BoundMethod'), ('tuples', H + 'kj/tuple.h')],
 I + '; identity of every argument, result and element, live-count of every callable, ghost allocation state', 'memory allocation succeeds; representative signatures of up to three parameters')
prop('P27', 'Building text yields exactly the concatenation of the pieces',
 'str, strArray, delimited, heapString and a StringTree, however nested, joined, moved, visited or flattened, yield exactly the characters of their pieces in order, with the right length and terminated; strPreallocated and the limited flattenTo write as much of it as fits, terminated, and never a byte outside the given buffer. Nothing is leaked, released twice or read after release.',
 ['inputs'], 'all contents, piece kinds, nesting and buffer sizes', 'length accounting that is off by a piece shows only for particular combinations of piece kinds and buffer sizes, as an overrun',
 [H + 'kj/string.h', H + 'kj/string-tree.h', H + 'kj/string.c++', H + 'kj/string-tree.c++'],
 [('concatenation', H + 'kj/string.h _::concat, fill, fillLimited, Delimited, strArray, strPreallocated'), ('trees', H + 'kj/string-tree.h StringTree::fill, visit, concat')],
 I + '; the result compared with the concatenation character by character; ghost allocation state and bounds', 'pieces of up to two arbitrary characters; numbers are represented by a stringifiable value (their digits are not checked)')
prop('P28', 'Arena objects never overlap and are destroyed exactly once in reverse order',
 'Everything a kj::Arena hands out is aligned for its type, lies inside memory the arena holds (scratch space first) and overlaps nothing handed out before; every object it constructed is destroyed exactly once, in reverse order, also when a constructor or destructor throws; owned allocations are destroyed by their owner only; memory chunks are released exactly once, the scratch space never.',
 ['inputs', 'exceptions'], 'all allocation sequences, types, alignments and throwing points', 'whether two objects overlap depends on the alignment of memory the allocator happened to return and the order of sizes',
 [H + 'kj/arena.h', H + 'kj/arena.c++', H + 'kj/array.c++'],
 [('allocation', H + 'kj/arena.c++ Arena::allocateBytes, allocateBytesInternal'), ('objects', H + 'kj/arena.h allocate, allocateArray, allocateOwn, destroyArray')],
 I + '; ghost memory with arbitrary default alignment; ghost object lifetimes', 'two to three consecutive allocations from five kinds; element counts 0 to 3')
prop('P29', 'Equal values have equal hash codes',
 'kj::hashCode depends on the value only: the same integer in any integer or enum type that can hold it, the same address in a raw or owning pointer (or nullptr), the same text or bytes in any string or array type, equal arrays of different element types, and combinations of them, all hash to the same code - so a key is found in a hash table whatever type it is looked up with.',
 ['inputs'], 'all values and all pairs of types that can hold them', 'a value range (negative, above 32 bits, null) for which two types disagree makes present keys invisible',
 [H + 'kj/hash.h', H + 'kj/hash.c++'],
 [('hashing', H + 'kj/hash.h HashCoder, hashCode'), ('widths', H + 'kj/hash.h intHash64')],
 I + '; term equality of the two hash codes on every path (intHash32 as an uninterpreted function of 32 bits)', 'text, byte and array lengths 0 to 5; bool excluded')
prop('P30', 'Byte streams deliver exactly the bytes; descriptors are closed exactly once',
 'Whatever portions the underlying stream or system call moves, the buffered, array, vector and file-descriptor streams deliver exactly the bytes sent, in order: reads return at least the requested minimum unless at the end (read() fails instead), skips and peeks advance exactly as far as they say, writes arrive complete after a flush, none writes outside the memory given. An OwnFd is open exactly as long as it has an owner: moved, assigned, released or dropped, each descriptor is closed exactly once (never when released), and only descriptors below 0 count as absent.',
 ['inputs', 'schedules'], 'all contents, portion sizes, buffer sizes and operation sequences', 'short reads and writes and buffers filling exactly occur only for particular combinations of sizes',
 [H + 'kj/io.h', H + 'kj/io.c++'],
 [('streams', H + 'kj/io.c++ BufferedInputStreamWrapper, BufferedOutputStreamWrapper, ArrayOutputStream, VectorOutputStream, FdOutputStream'), ('descriptors', H + 'kj/io.h OwnFd')],
 I + '; ghost source, sink and descriptor table', 'contents up to 5 bytes, buffers of 1 to 4 bytes, two to three operations; failing system calls not included')
na('P60', 'A message read back yields exactly what was written',
 'Building a message, serialising it in any supported form (flat, streamed, packed, canonical, multi-segment) and reading it back yields equal values, for every schema and every content.',
 ['inputs'], 'all schemas, contents, segmentations and stream chunkings', 'a round trip over unbounded structures', [H + 'capnp/serialize.c++', H + 'capnp/serialize-packed.c++', H + 'capnp/layout.c++'],
 [('framing', H + 'capnp/serialize.c++'), ('packing', H + 'capnp/serialize-packed.c++')],
 'equality of two runs over unbounded object graphs relates values computed by recursive writer and reader code; no dataflow or type argument in reach bounds it. The local halves that can be decided (element addresses, field bits, streams) are P04, P15 and P30')
na('P61', 'Calls made on a capability are delivered in the order they were made',
 'Calls on the same capability reach the object in call order, including over promise resolution and embargoes, for any network timing.',
 ['schedules', 'histories'], 'all interleavings of message arrival, resolution and call', 'ordering across peers depends on message timing', [H + 'capnp/rpc.c++', H + 'capnp/capability.c++'],
 [('embargoes', H + 'capnp/rpc.c++ RpcConnectionState::PromiseClient')],
 'an invariant over histories of two peers and an event loop: the order is created at run time by queues and promise scheduling in .c++ coroutines; needs a protocol model and exploration, not a static rule')
na('P62', 'A hostile RPC peer cannot corrupt or leak the question and answer tables',
 'Whatever sequence of RPC messages a peer sends, table entries are created and released consistently and no freed entry is used.',
 ['inputs', 'histories'], 'all message sequences', 'message sequences are unbounded', [H + 'capnp/rpc.c++'], [('tables', H + 'capnp/rpc.c++ ExportTable, ImportTable')],
 'the tables\' invariants relate entries to the history of messages and to promises that run later; the ownership that types do express is covered by P10, P13 and P17, the rest is a runtime history')
na('P63', 'The event loop runs every ready event, in order, without starvation',
 'Every armed event is eventually run, depth-first events before breadth-first ones, and wait() returns as soon as its promise is ready.',
 ['schedules', 'histories'], 'all arming sequences', 'liveness over unbounded runs', [H + 'kj/async.c++'], [('event queue', H + 'kj/async.c++ EventLoop::turn, Event::armDepthFirst')],
 'liveness and order over unbounded event histories held in run-time queues of .c++ code; static analysis gives no progress argument here')
na('P64', 'Numbers and JSON convert to text and back without loss',
 'Formatting and parsing integers, floating-point values and JSON documents is exact for every value.',
 ['inputs'], 'all values and documents', 'value space', [H + 'kj/string.c++', H + 'capnp/compat/json.c++'], [('conversion', H + 'kj/string.c++ Stringifier, parseAs')],
 'depends on digit arithmetic and libc conversion whose values no dataflow domain in reach represents exactly')
na('P65', 'Two messages with equal content have the same canonical form',
 'canonicalize() produces identical bytes for semantically equal messages and isCanonical() accepts exactly those bytes.',
 ['inputs'], 'all pairs of encodings of equal content', 'pairs of unbounded messages', [H + 'capnp/message.c++', H + 'capnp/layout.c++'], [('canonical copy', H + 'capnp/layout.c++ setStructPointer(canonical)')],
 'a relational property of two unbounded traversals (trailing zero words, pre-order placement); not decidable by the rules available here')
na('P66', 'HTTP and WebSocket parsing follows the RFCs for every input',
 'Header parsing, chunked bodies, pipelining and WebSocket frames are decoded as specified for every byte sequence and chunking, and malformed input is rejected.',
 ['inputs', 'schedules'], 'all byte sequences and chunkings', 'input space and asynchronous chunking', [H + 'kj/compat/http.c++'], [('parser', H + 'kj/compat/http.c++ HttpHeaders, HttpInputStreamImpl')],
 'the parser is an asynchronous state machine in one .c++ file whose oracle is an external specification over unbounded inputs')
na('P67', 'The schema compiler emits code that agrees with its layout',
 'For every valid schema, capnp compile assigns offsets so that fields never overlap, evolution keeps old offsets, and the C++ generator emits accessors for exactly those offsets.',
 ['inputs', 'configurations'], 'all schemas', 'all schemas cannot be sampled', [H + 'capnp/compiler/node-translator.c++', H + 'capnp/compiler/capnpc-c++.c++'], [('layout', H + 'capnp/compiler/node-translator.c++ StructLayout')],
 'a relation between a schema known only at run time and generated text; the deciding object (the schema) is not in the source being analysed')
prop('P31', 'Each typed accessor does exactly its operation on exactly its pointer',
 'Getting, initialising, setting, copying, adopting, disowning, clearing, truncating or converting through the typed message interface (any-pointers, untyped structs and lists, typed lists, orphans, orphanages, message roots) performs exactly the one wire operation the accessor names, on exactly the pointer it was given, with the encoding and struct size of the type and the caller\'s own default, count, value and canonical flag, and returns exactly what that operation produced. Every orphan is in exactly one place: moving, assigning, adopting or releasing it empties the source, and an orphan that is dropped or overwritten is destroyed exactly once. Accessors of every kind of type, including enums and capabilities, can be used.',
 ['inputs', 'histories'], 'all accessors for all kinds of type, all defaults, counts, positions and values', 'each accessor is instantiated by tests for a few types only; a wrong encoding, a dropped flag or a forgotten reset shows only for a particular type or sequence',
 [H + 'capnp/any.h', H + 'capnp/orphan.h', H + 'capnp/pointer-helpers.h', H + 'capnp/list.h', H + 'capnp/message.h', H + 'capnp/layout.h', H + 'capnp/capability.h'],
 [('any-pointers', H + 'capnp/any.h AnyPointer, AnyStruct, AnyList'), ('orphans', H + 'capnp/orphan.h Orphan, Orphanage; layout.h OrphanBuilder'), ('type dispatch', H + 'capnp/pointer-helpers.h PointerHelpers'), ('roots', H + 'capnp/message.h')],
 I + '; the wire layer is replaced by ghosts recording operation, pointer and arguments; exactly the named one must be recorded and its result returned', 'a representative of every kind of type; schema-driven (dynamic) accessors are not covered')

prop('P32', 'A typed call reaches exactly the hook, interface and method it names, once',
 'Through the typed capability interface, starting a call invokes exactly the given hook with exactly the given interface, method, size hint and call hints, and the request built is a view of what that hook returned; sending uses the request up, invokes its hook exactly once, and delivers exactly its outcome, with the typed reader derived from the response; a call context forwards each operation once, unchanged, to its own hook; copying, casting or assigning a client takes a new reference and releases the old one exactly once; dispatching a call reaches exactly the method numbered, and an unknown interface or method is reported as unimplemented with its numbers; a pipeline carries exactly the hook it was made from; a server made revocable is revoked when its RevocableServer is destroyed or assigned over, and never while merely moved; local server recognition returns exactly the server the set found.',
 ['inputs', 'histories'], 'all interface and method numbers, size hints, hints, outcomes and orders of these operations', 'a swapped hint, a hook used twice or a reference lost in one of the wrappers shows only for particular arguments or at a later release',
 [H + 'capnp/capability.h', H + 'capnp/any.h', H + 'capnp/persistent.capnp.h'],
 [('clients and requests', H + 'capnp/capability.h Capability::Client, Request, StreamingRequest, RemotePromise'), ('contexts', H + 'capnp/capability.h CallContext, StreamingCallContext'), ('pipelines', H + 'capnp/any.h AnyPointer::Pipeline, PipelineHook'), ('revocation and local servers', H + 'capnp/capability.h RevocableServer, CapabilityServerSet')],
 I + '; every hook is replaced by a ghost recording each call and each disposal; exactly the calls the operation names must be recorded, in order, and every hook released exactly once', 'the representative interface is the one whose generated header is committed; what hooks do with a call is P61, P62')

prop('P33', 'An async queue hands each value to exactly one consumer, first to first',
 'Values pushed on a ProducerConsumerQueue are delivered each exactly once, the oldest undelivered value to the oldest waiting or next arriving consumer; a consumer that is cancelled while waiting, or dropped after it was served, takes no other value and holds up nobody; rejecting reaches every waiting consumer once and affects no stored value and no later consumer; fulfilling or rejecting an empty waiter queue is refused in debug builds; a value left in the queue is released exactly once with it.',
 ['histories', 'inputs'], 'all short histories of pushing, popping, cancelling and rejecting with arbitrary values', 'order and exactly-once delivery break only for particular interleavings of cancelling and serving', [H + 'kj/async-queue.h', H + 'kj/list.h', H + 'kj/async-inl.h'],
 [('queue', H + 'kj/async-queue.h ProducerConsumerQueue'), ('waiters', H + 'kj/async-queue.h WaiterQueue')],
 I + '; histories are run over the queue and the promise nodes behind it and compared with a reference', 'histories of at most four arbitrary operations, and longer named ones; destroying a waiter queue while promises are outstanding is documented as undefined and not claimed')
prop('P34', 'A parser of parsers runs its parts in order and takes nothing when one fails',
 'A kj::parse combination runs its sub-parsers as its documentation says, each from the position it should start at: a sequence stops at its first failure and yields the results in order; alternatives are tried in order from the same position; a repeated or optional part that fails consumes nothing; a look-ahead consumes nothing and leaves no trace; getBest() is the furthest position any attempt reached; a located transform is given the exact span of what was parsed; and a character group accepts exactly the characters added to it, over all 256, and the ready-made character classes, escapes, integers, identifiers and quoted strings mean what they say.',
 ['inputs'], 'every input and every behaviour of the sub-parsers', 'tests parse a few texts with a few grammars', [H + 'kj/parse/common.h', H + 'kj/parse/char.h'],
 [('combinators', H + 'kj/parse/common.h'), ('characters', H + 'kj/parse/char.h CharGroup_')],
 I + '; sub-parsers are arbitrary, and what ran where is compared with the rule of the combination; character groups are settled by static_assert over all characters', 'combinators over inputs of up to three tokens; ranges over the ends of every word of the representation; the ready-made grammars on fixed texts; ParseFloat is not claimed')
prop('P35', 'Units, times and bounded numbers compute exactly and never exceed their bounds',
 'Arithmetic and comparison on kj::Quantity, UnitRatio, Absolute, Duration, Bounded, BoundedConst and Id give what plain arithmetic on the numbers gives, in the unit the operands imply; the bound in the type of a bounded result is never exceeded by any result the operand bounds allow; a conversion that could exceed a bound, a bound that could overflow its integer type, and any mixing of units, of points with lengths or of different scales does not compile, while the same use within the limits does; and checked conversions and subtractions report exactly the values out of range.',
 ['inputs'], 'every value within every bound', 'tests try single values with single bounds, and what must not compile is not tested at all', [H + 'kj/units.h', H + 'kj/time.h'],
 [('bounds', H + 'kj/units.h Bounded'), ('units', H + 'kj/units.h Quantity'), ('times', H + 'kj/time.h')],
 'Compile-time evaluation of every operator by static_assert over all values under many bounds; compile-fail witnesses paired with near misses that must compile; ' + I + ' for the operators that are no constant expressions', 'bounds up to 17 and the limits of the machine types; signed numbers given to Bounded are not claimed; formatting of times is not claimed')
