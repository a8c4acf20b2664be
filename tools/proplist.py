P("C01", "A request completes once, and only after its data moved",
  "A file request reaches its final state exactly once, only after its data transfer has finished or failed or after it was cancelled, and the error, if any, is stored before the state changes. "
  "Its completion handler runs once, and its waiters are notified once; cancel() reports success exactly when the transfer will not happen; a request stays alive until it has completed.",
  ["schedules", "fault_sequences"], "every backend, every outcome of the transfer and every interleaving of waiting, cancelling and serving threads",
  "The windows between storing the error, changing the state, calling the handler and dropping the last reference are a few instructions wide; tests wait for requests that nearly always succeed.",
  ["lib/io/serving_request.cpp", "lib/io/request_with_state.cpp", "lib/io/request_with_waiters.cpp", "lib/io/linuxaio_request.cpp", "include/stxxl/bits/io/request.h"],
  [("completion sequence", "serving_request::completed, linuxaio_request::completed, request_with_state::completed"), ("cancel protocol", "request_with_state::cancel, disk_queues::cancel_request"),
   ("wait and poll", "request_with_state::wait / poll, request::check_errors")],
  "effect-order typestate of requests over all paths (abstract interpretation)",
  "Each concrete request class is analysed with its own virtual functions; the order of effects (transfer, error, handler, state, waiters) is checked per path.")

P("C07", "Every submitted request is served or cancelled exactly once",
  "A request added to a queue is handed to its file exactly once, in the direction it was submitted with, or removed by a successful cancel and then never handed on; it is never dropped, duplicated or served after cancellation. "
  "A queue's threads keep serving while requests are queued and end when told to, with the bookkeeping of kernel slots and semaphores balanced.",
  ["schedules", "histories"], "every sequence and interleaving of submit, cancel, serve and terminate",
  "Lost tokens and double hand-outs need interleavings of submitter, canceller and worker that tests do not produce on purpose.",
  ["lib/io/request_queue_impl_qwqr.cpp", "lib/io/request_queue_impl_1q.cpp", "lib/io/request_queue_impl_worker.cpp", "lib/io/linuxaio_queue.cpp", "include/stxxl/bits/io/disk_queues.h"],
  [("list and semaphore pairing", "add_request, cancel_request, worker"), ("termination protocol", "start_thread / stop_thread"), ("event slots", "linuxaio_queue::post_requests, handle_events, wait_requests")],
  "token/list pairing analysis of queue operations and worker loops (abstract interpretation)",
  "Worker loops are analysed per outermost iteration from an arbitrary state.")

P("C02", "No lost wake-up and no early return in the blocking primitives",
  "A thread blocked on one of the library's waiting primitives (state, on/off switch, semaphore, waiter registered with a request) returns only after the condition it waits for has been found true, and is always woken once that condition has become true. "
  "This holds for every interleaving of waiting and signalling threads, including spurious wake-ups.",
  ["schedules"], "every interleaving of waiters and signallers and every spurious wake-up of a condition variable",
  "Lost or spurious wake-ups need a particular interleaving between the test of the condition and the wait; the tests run a few thousand uncontended waits.",
  ["include/stxxl/bits/common/state.h", "include/stxxl/bits/common/onoff_switch.h", "include/stxxl/bits/common/semaphore.h", "lib/io/request_with_waiters.cpp", "lib/io/request_with_state.cpp"],
  [("condition re-tested in a loop under the mutex that the wait releases", "state::wait_for, semaphore::operator--, onoff_switch::wait_for_on/off"),
   ("notification after every change that can satisfy a waiter", "state::set_to, semaphore::operator++, onoff_switch::on/off"),
   ("registration and completion test under one lock", "request_with_waiters::add_waiter / notify_waiters")],
  "typestate of condition variables by abstract interpretation (guard re-test, lock held, notify after change)",
  "Obligations are generated for every class that owns a condition variable and every method that changes what its waiters test.")

P("C03", "A failed file operation is never swallowed",
  "When the operating system refuses, truncates or fails a file operation issued on behalf of the user, the call either throws an I/O error or, for an asynchronous request, every wait for and poll of that request throws one. "
  "A request whose data was not completely transferred never completes as if it had been; a request that succeeded never reports an error.",
  ["fault_sequences"], "every system call site in the file layer failing at any point, and every result the kernel may report for an asynchronous request",
  "The tests never make a system call fail; error paths are not executed at all.",
  ["lib/io/syscall_file.cpp", "lib/io/ufs_file_base.cpp", "lib/io/mmap_file.cpp", "lib/io/linuxaio_queue.cpp", "lib/io/linuxaio_request.cpp", "lib/io/serving_request.cpp", "lib/io/request_with_state.cpp"],
  [("error check after each system call", "lib/io/*.cpp"), ("error recorded in the request and thrown by wait and poll", "serving_request::serve, request::check_errors"),
   ("result of asynchronous transfers", "linuxaio_queue::handle_events")],
  "failure-path effect analysis: every system call's failure branch must end in an I/O error (abstract interpretation)",
  "A failure counts as reported when the path throws io_error, retries successfully, or (EAGAIN/EINTR of the asynchronous interface) retries. Failing io_destroy and io_cancel are exempt.")

P("C04", "A transfer moves exactly the requested bytes to the requested place",
  "Serving a read or write request transfers exactly the requested number of bytes between the given buffer and the given file offset, in order, without gap, overlap or truncation, however the operating system splits the transfer, and in the direction the request states; only the part of a read behind the end of the file is filled with zeroes. "
  "The request handed to the backend carries the buffer, offset, length and direction the user gave, and a block's read and write use the same range of the same file.",
  ["inputs", "fault_sequences"], "every offset, length and buffer, and every sequence of partial transfers the operating system may produce",
  "Tests transfer aligned blocks on local files, where the kernel never splits a transfer; offsets beyond 4 GiB and partial transfers are not exercised.",
  ["lib/io/syscall_file.cpp", "lib/io/mmap_file.cpp", "lib/io/mem_file.cpp", "lib/io/fileperblock_file.cpp", "lib/io/wbtl_file.cpp", "lib/io/disk_queued_file.cpp", "lib/io/linuxaio_request.cpp", "include/stxxl/bits/mng/typed_block.h"],
  [("partial transfer loop", "syscall_file::serve"), ("control block of asynchronous requests", "linuxaio_request::fill_control_block"),
   ("mapping copy", "mmap_file::serve"), ("log-structured address mapping", "wbtl_file::sread / swrite"), ("block transfer", "typed_block::read / write")],
  "symbolic interval-tiling dataflow over the transfer loops (abstract interpretation with affine values)",
  "Tiling is shown for up to the loop bound of partial transfers with symbolic lengths; asserts of the build under analysis count as guards.")

P("C05", "Shared state is only accessed under its mutex",
  "Every access to state that several threads share (request queues, waiter sets, block maps and write buffers of the log-structured file, free-space maps and allocation counters, statistics, blocking primitives, in-memory file contents, reference counts) "
  "is made while holding the mutex that protects it, or atomically; seek and transfer on one descriptor are one critical section.",
  ["schedules"], "every interleaving of user threads, queue threads and completion handlers",
  "A data race needs two accesses to collide; the tests rarely have two threads in the same object and do not run under a race detector.",
  ["lib/io/wbtl_file.cpp", "lib/io/request_queue_impl_qwqr.cpp", "lib/io/linuxaio_queue.cpp", "include/stxxl/bits/mng/disk_allocator.h", "include/stxxl/bits/mng/block_manager.h", "lib/io/iostats.cpp", "lib/io/mem_file.cpp",
   "lib/io/syscall_file.cpp", "include/stxxl/bits/common/counting_ptr.h"],
  [("mutex per shared member", "queue, mapping, buffer, waiter, allocator and statistics mutexes"), ("atomic reference count", "atomic_counted_object"), ("seek and transfer under fd_mutex", "syscall_file::serve")],
  "lockset analysis with a guarded-by table (abstract interpretation of every entry point)",
  "The table of guarded members is in sa/rules/c05.py; reads of single statistics counters are exempt; construction and destruction are exempt.")

P("C06", "Mutexes never deadlock the library",
  "Every mutex the library locks is released on every way out of the function, is never locked twice by one thread, and is acquired in one global order. "
  "No thread waits for a semaphore, another condition, a request or a thread, serves a request or calls a completion handler while holding a mutex the other side may need.",
  ["schedules"], "every interleaving of user, queue and completion threads, and every exceptional exit",
  "A deadlock needs a particular interleaving or error path; the tests would only hang by luck.",
  ["lib/io/request_queue_impl_qwqr.cpp", "lib/io/request_queue_impl_1q.cpp", "lib/io/linuxaio_queue.cpp", "lib/io/wbtl_file.cpp", "lib/io/request_with_waiters.cpp", "include/stxxl/bits/mng/disk_allocator.h", "include/stxxl/bits/singleton.h"],
  [("unlock before serving", "queue workers"), ("scoped locks", "scoped_mutex_lock"), ("order buffer_mutex before mapping_mutex", "wbtl_file"), ("cancel protocol", "cancel_request")],
  "lock-order and blocking-effect analysis over all functions that lock (abstract interpretation with lock sets)",
  "Waiting for a request of another file while holding a per-file lock (wbtl_file over its backend) is allowed: no thread that completes it takes that lock.")

P("C09", "Waiting for, polling and cancelling sets of requests is exact",
  "wait_all returns only when every given request is complete and checked; wait_any returns a request that has completed without error and sleeps only while every given request would wake it; poll_any and cancel_all report exactly what they found or did. "
  "wait_any leaves nothing registered with any request however it exits, and none of them hides a request's error.",
  ["schedules", "fault_sequences"], "every number of requests, every order of completion and every failing request",
  "The tests wait for a few successful requests; failing requests, completion between registration and sleep, and leftover registrations are not exercised.",
  ["include/stxxl/bits/io/request_operations.h"],
  [("register, sleep, deregister", "wait_any"), ("whole-range loops", "wait_all, cancel_all, poll_any")],
  "abstract interpretation of the request-set algorithms against a transition model of requests (all completion orders, up to 3 requests; 4 thorough)",
  "Ranges of up to 3 (thorough: 4) requests; requests are replaced by their interface contract.")

P("C11", "Free external memory is accounted exactly",
  "Disk allocators and the write-buffered file hand out only space that is free: allocated blocks lie in free (or newly grown) space and overlap neither each other nor the remaining free space. "
  "Freeing adds exactly the freed bytes, merged with adjacent free regions, and refuses to free space that is already free; free, used and total byte counts match the free-space map. "
  "The write-buffered file's address mapping always names the place that holds a block's last written data, in a write buffer or on the backend.",
  ["inputs", "histories"], "every layout of free regions, every sequence of allocations, frees, growths, writes and discards, and failures of growing the file",
  "Coalescing and splitting errors need particular neighbourhoods of free regions, and lose or double-book space long before any data is seen to be wrong.",
  ["lib/mng/disk_allocator.cpp", "include/stxxl/bits/mng/disk_allocator.h", "lib/io/wbtl_file.cpp", "include/stxxl/bits/io/wbtl_file.h"],
  [("coalescing and double-free detection", "disk_allocator::add_free_region, wbtl_file::_add_free_region"), ("allocation", "disk_allocator::new_blocks, wbtl_file::get_next_write_block"),
   ("address mapping", "wbtl_file::swrite / sread / discard")],
  "abstract interpretation over symbolic free-space layouts (affine and polyhedral reasoning)",
  "Layouts of up to 3 free regions with symbolic positions and sizes are followed through each function; results are compared with the layout the property demands.")


P("C12", "Blocks are placed on and returned to the right disks",
  "The block manager asks the allocation strategy once for every block with the block's position, places each block in the file of the chosen disk at an offset that disk's allocator provided for it alone, and hands out all blocks or none. "
  "Every allocation strategy assigns only disks of its range; striping, simple randomized and randomized cycling use every disk once in any run of as many consecutive blocks. "
  "Freeing tells the block's file and gives the block back to its own disk's allocator exactly once; invalid and unmanaged blocks are left alone. Allocation counters and capacities match what is handed out; every configured disk has its own file, allocator and queue, and files outlive their allocators.",
  ["inputs", "histories", "configurations"], "every strategy, disk set, number of blocks, random choice and failing disk",
  "The tests run with one or two disks and never let an allocation fail half-way; misplaced or leaked blocks stay invisible there.",
  ["include/stxxl/bits/mng/block_manager.h", "lib/mng/block_manager.cpp", "include/stxxl/bits/mng/block_alloc.h", "include/stxxl/bits/mng/block_alloc_interleaved.h"],
  [("assignment and placement", "block_manager::new_blocks_int"), ("release", "block_manager::delete_block / delete_blocks"), ("strategies", "striping, FR, SR, RC, RC_disk, RC_flash, single_disk, offset_allocator, interleaved_*")],
  "abstract interpretation of the allocation functions with every choice of the strategy enumerated",
  "Up to 3 blocks on up to 3 disks, every assignment and every failing allocator are followed through new_blocks_int; strategies are followed for ranges of up to 4 disks with every random choice.")

P("C13", "Buffers with a transfer in progress are not reused, and no buffer is lost",
  "The buffer pools (write_pool, prefetch_pool, read_write_pool), the buffered writer, the block prefetcher and the write buffers of wbtl_file keep every buffer in exactly one place: free, in transfer, waiting to be written, or handed out. A buffer whose read or write is still in progress is never handed out without its request, counted as free, transferred again, overwritten or freed, also not by the destructors. A block address names at most one buffer of the pools, the one last written to or read from it, so that a read never finds an outdated copy, and every block given for writing is written exactly once. The prefetcher delivers the blocks in the order of the consume sequence, each after its read is complete.",
  ["inputs", "schedules", "histories"], "all sequences of pool, writer and prefetcher operations with every order of completion of the transfers",
  "Whether a transfer is still in progress when a buffer is reused depends on timing; tests run with fast disks where transfers are nearly always complete.",
  ["include/stxxl/bits/mng/write_pool.h", "include/stxxl/bits/mng/prefetch_pool.h", "include/stxxl/bits/mng/read_write_pool.h", "include/stxxl/bits/mng/buf_writer.h", "include/stxxl/bits/mng/block_prefetcher.h", "lib/io/wbtl_file.cpp"],
  [("buffer ownership", "write_pool, prefetch_pool: free and busy blocks"), ("stale copies", "write_pool::write, prefetch_pool::invalidate, hint"), ("completion", "block_prefetcher::wait, buffered_writer::get_free_block, wbtl_file::~wbtl_file")],
  "abstract interpretation of every pool operation from every small pool state, and of whole histories of the writer, prefetcher and wbtl_file, with every order of completion of the transfers",
  "Pools of up to 3 buffers in every mix of free, busy and completed; writers of 2-3 buffers, prefetchers of 1-5 buffers over 1-4 blocks, wbtl histories of up to 9 operations; containers and requests are replaced by their contracts.")


P("C14", "The vector's page cache loses no modification and shows no stale page",
  "What an element access of an external vector sees is the last value stored there: a modified page is written to its own blocks before its cache slot is reused, on flush, and, for a vector in a file, on destruction; reading never marks a page modified and unmodified pages are never written; a page is in at most one slot, every slot is free or holds exactly one page, the page to evict is the least recently used one; no transfer of a cached block is still in progress when an operation returns. Resizing, reserving, clearing, swapping, constructing and destroying keep size, capacity, blocks and page states consistent: surviving pages keep their content, blocks given up are freed exactly once and leave the cache, blocks of a given file are neither allocated nor freed but placed consecutively and the file is set to its exact length; a growth that fails leaves the vector unchanged.",
  ["inputs", "histories"], "every sequence of accesses and capacity changes, for every cache state",
  "The bookkeeping depends on which pages are cached, modified and never written at the moment of each operation; tests use the vector with one access pattern and plenty of cache.",
  ["include/stxxl/bits/containers/vector.h", "include/stxxl/bits/containers/pager.h"],
  [("page replacement", "vector::element, const_element, read_page, write_page"), ("capacity", "vector::_resize, _resize_shrink_capacity, reserve, clear, ~vector"), ("replacement order", "lru_pager")],
  "abstract interpretation of every cache operation from every state of the page cache, checking that the cache invariant and the contents are preserved",
  "Vectors of 5 and 6 blocks with pages of two blocks and two cache slots, every combination of page positions and states; lru_pager for three pages and every sequence of up to four uses.")

P("C15", "The caches of the external map and hash map lose nothing and show nothing stale",
  "A node or block that was modified while cached is written to its own place on disk before the memory is reused, on flush and on destruction, and never re-read before that write is finished; what a cache hands out is the completely read, current content of the block asked for (of the hash map: the part asked for); every cache slot holds one block or is free; a fixed or retained block stays where it is until released, only its holder releases it, and a reader of a bucket sequence retains exactly the block it is at; swapping two caches exchanges everything.",
  ["inputs", "histories"], "every sequence of accesses, evictions, prefetches, flushes and swaps, for every cache state",
  "Which slot is evicted, what is dirty, retained, partially loaded or still being read or written depends on the history of operations and on I/O timing; tests use large caches and one access pattern.",
  ["include/stxxl/bits/containers/btree/node_cache.h", "include/stxxl/bits/containers/btree/node.h", "include/stxxl/bits/containers/btree/leaf.h", "include/stxxl/bits/containers/hash_map/block_cache.h", "include/stxxl/bits/containers/hash_map/util.h"],
  [("B+-tree node cache", "btree::node_cache get_node, get_const_node, get_new_node, delete_node, prefetch_node, unfix_node, swap, ~node_cache"), ("hash map block cache", "hash_map::block_cache get_subblock, prefetch_block, make_dirty, retain_block, release_block, flush, clear, swap, kick_block"), ("write buffer", "hash_map::block_cache_write_buffer"), ("bucket reader", "hash_map::buffered_reader")],
  "abstract interpretation of every cache operation from every state of a small cache with contents, pending transfers and pins tracked, checking that the cache invariant and the contents are preserved",
  "Caches of three slots and two write buffers, every combination (up to rotation of the replacement order) of free, modified, pinned, partially loaded and pending slots; blocks of two subblocks; readers over three blocks.")


P("C25", "External stacks, queues, sequences and deques keep their elements in order",
  "Every operation on an external stack (all variants, including the one that migrates from internal to external memory), queue, sequence or deque has the effect it has on an in-memory container: push, pop, access, size, copy from a std::stack, growing, clearing, resizing, comparing, streams over a sequence in both directions and iterators over a deque (also moving backwards and across the wrap-around). Each block on disk belongs to the container until it is freed exactly once, and buffers are neither read, changed nor freed while they are read or written.",
  ["inputs", "histories"], "every sequence of operations, of any length",
  "What lies in which buffer, which blocks are on disk and which transfers are pending depends on the whole history at block boundaries; tests push and pop a few fixed numbers of elements.",
  ["include/stxxl/bits/containers/stack.h", "include/stxxl/bits/containers/queue.h", "include/stxxl/bits/containers/sequence.h", "include/stxxl/bits/containers/deque.h"],
  [("stacks", "normal_stack, grow_shrink_stack, grow_shrink_stack2, migrating_stack"), ("queue and sequence", "queue, sequence, sequence::stream, sequence::reverse_stream"), ("deque", "deque, deque_iterator, const_deque_iterator, comparison operators")],
  "abstract interpretation of every operation from every state of small blocks with symbolic elements, checking that the represented list afterwards is the one the operation should give (inductive over histories)",
  "Instantiations with two or three elements per block; every split of up to about three blocks between buffers, caches and disk with every pending transfer; deques over vectors of 3 and 4 (thorough: 2 to 5) places with every position of the ends.")

P("C18", "Swapping two objects exchanges their complete state",
  "For every class of the library that offers a swap (pools, queues, stacks, sequences, vector, priority queue, B+-tree and hash map with their caches and iterator registries, deque, shared and counting pointers, buffers): after a.swap(b) every part of a's state is the one b had and vice versa, nothing is lost or duplicated, and back pointers and registered iterators follow their owner.",
  ["inputs", "histories"], "every pair of states of the two objects (fields as symbols; registries and cache contents for small sizes)",
  "Tests swap freshly built or nearly equal containers, so a member that is left behind has the same value on both sides.",
  ["include/stxxl/bits/containers", "include/stxxl/bits/mng", "include/stxxl/bits/common"],
  [("pools", "read_write_pool::swap, prefetch_pool::swap, write_pool::swap"), ("maps and caches", "btree::swap, node_cache::swap, iterator_map::swap, hash_map::swap, block_cache::swap"),
   ("linear containers", "vector::swap, queue::swap, deque::swap, stack swaps")],
  "abstract interpretation of every swap member and std::swap overload with one symbol per data member of each side, comparing the final stores member by member",
  "Members are symbols, so the result holds for every state; iterator registries and caches are followed with up to two entries. Statistics counters of the hash map and classes no public swap reaches are left out.")

P("C08", "The external hash map behaves as a dictionary",
  "Whatever combination of disk part and memory buffer (live and deleted entries) a hash map is in, insert, insert_oblivious, erase (by key and by iterator), erase_oblivious, operator[], find, count, clear, size, rehash and the reorganisation when the buffer overflows leave exactly the values a dictionary would hold and return what a dictionary would; iteration yields every value once in bucket order; iterators that exist keep designating their value, or become the end when it is erased; no buffer node or disk block is lost, used after it was freed, or freed while a reader holds it.",
  ["inputs", "histories"], "every sequence of operations and every placement of keys, buckets, collisions and live iterators",
  "Tests insert and erase random keys with a buffer that rarely overflows, keep no iterators across operations and never mix oblivious and exact calls on colliding keys.",
  ["include/stxxl/bits/containers/hash_map"],
  [("operations", "hash_map::insert, erase, find, operator[], _rebuild_buckets"), ("iterators", "hash_map_iterator_base::find_next, init_reader, iterator_map::fix_iterators_2ext/2int/2end"),
   ("disk values", "_find_key_external, buffered_reader, buffered_writer, HashedValuesStream, HashingStream")],
  "abstract interpretation of every operation from every small bucket state (value on disk or not, buffer node none, live or deleted, for three colliding and non-colliding keys in one bucket beside a second bucket; buffer with room or full), with iterators placed on every value in every form, against a dictionary; plus scripts that walk an iterator, operate on the map and walk on",
  "Complete for two buckets of up to three keys with two values per subblock and two subblocks per block; larger buckets repeat the same steps. Values are symbols, keys are fixed so that hash collisions and both bucket ends occur. The block cache is a model (its own behaviour is C06/C18), bulk insertion (a sorting stream) is left out.")

P("C92", "The B+-tree map behaves as an ordered dictionary",
  "insert (with and without hint, of single values and ranges), erase (by key and by iterator), operator[], find, count, lower_bound, upper_bound, equal_range, begin, end, size, empty, clear and construction (also in bulk from sorted values) leave exactly the values an ordered dictionary would hold and return what it would; the tree stays balanced, every node but the root keeps between half and all of its places, separators bound their subtrees and leaves stay linked in order; existing iterators follow their values through splits, fusions and balancing; the tree's blocks are exactly the allocated ones and none stays fixed in a cache.",
  ["inputs", "histories"], "every sequence of operations, every shape of the tree, every position of live iterators",
  "Tests insert and erase random keys with thousands of values per block and caches that hold the tree, so boundary keys, splits at the edges, underflow at three levels, evictions in mid-operation and iterators that live across them are rarely met.",
  ["include/stxxl/bits/containers/btree"],
  [("tree and root node", "btree::insert, erase, bulk_construction, insert_into_root, balance, fuse_or_balance"), ("inner nodes and leaves", "normal_node::insert, erase, fuse, balance; normal_leaf::insert, erase, fuse, balance"),
   ("iterators", "btree_iterator_base, iterator_map::fix_iterators")],
  "abstract interpretation of every operation from enumerated balanced trees of height 2 to 4, with iterators on values, against an ordered dictionary and the shape rules of B+-trees",
  "Trees of two to four levels with at most four values per leaf and four children per node, and keys at, between and beyond the stored ones; larger nodes repeat the same steps. The caches are the smallest legal ones (three nodes) and modelled, so that a reference kept across an eviction is noticed; the cache itself is C15. swap is C18.")

P("C29", "Streams, scans and buffered access visit every element once, in order",
  "Stream nodes (transform, make_tuple, choose, unique, generators, iterator and vector streams) deliver exactly the elements their definition requires, in order, end when they must, and advance every input once per element; for_each, for_each_m, generate, find, materialize and discard touch exactly the given range and leave the rest of the vector alone; vector_bufreader and its reverse deliver the range in (reverse) order, also after rewinding; vector_bufwriter leaves exactly what was written in the vector, growing it as needed, whatever state its pages are in; buf_istream, its reverse and buf_ostream read and write the given blocks; every prefetcher and writer is destroyed, and no block is written twice or left in flight.",
  ["inputs", "configurations"], "every range, block and page alignment, vector size, page state and number of elements",
  "Tests scan whole vectors or a few offsets with big blocks, so ranges that begin or end inside a block, growth at a block or page boundary, pages that were never written and blocks changed in the cache just before a stream starts are rarely met.",
  ["include/stxxl/bits/stream/stream.h", "include/stxxl/bits/stream/unique.h", "include/stxxl/bits/stream/choose.h", "include/stxxl/bits/algo/scan.h", "include/stxxl/bits/containers/vector.h", "include/stxxl/bits/mng"],
  [("stream nodes", "stream::transform, make_tuple, choose, unique, generator2stream, iterator2stream, vector_iterator2stream, vector_iterator2stream_sr, materialize, discard"),
   ("scans", "for_each, for_each_m, generate, find"),
   ("buffered access", "vector_bufreader, vector_bufreader_reverse, vector_bufwriter, buf_istream, buf_istream_reverse, buf_ostream")],
  "abstract interpretation of every node, scan and buffered reader or writer over enumerated ranges and page states with symbolic elements, against the sequence the definition requires",
  "Blocks of two elements, pages of one and two blocks, vectors of up to seven elements, streams of up to four; functors are uninterpreted and their calls recorded. The page cache is modelled by its contract (C14), prefetchers and writers by theirs (C13). Sorting and merging streams are C90.")


P("C16", "Positions, vector iterators and wide integers compute like integers",
  "double_blocked_index, the vector's mutable and constant iterators, and uint40 and uint48 give, for every construction, conversion, increment, decrement, addition, difference, shift and comparison, what arithmetic on the integers they stand for gives (modulo 2^40 and 2^48), across block, page and word boundaries; outer block, inner block and offset always agree with the position. Iterators and the vector's access functions (operator[], at, front, back, begin, end, size, empty) designate the right element, and constant access does not mark it modified. Vectors compare like sequences.",
  ["inputs"], "every position, distance and value",
  "Tests step through vectors with huge blocks and add a few numbers, so carries, page boundaries, backward steps across them and mixed constant and mutable comparisons are rarely met.",
  ["include/stxxl/bits/containers/vector.h", "include/stxxl/bits/common/uint_types.h"],
  [("positions", "double_blocked_index"), ("iterators", "vector_iterator, const_vector_iterator"), ("wide integers", "uint_pair, numeric_limits<uint_pair>"), ("vector", "operator[], at, front, back, begin, end, cbegin, cend, comparison operators")],
  "abstract interpretation of every operation from enumerated positions around every block and page boundary and from values around every carry, against exact integer arithmetic",
  "Blocks of one or two elements and pages of one or two blocks, positions up to thirteen; wide integers at and next to 0, 2^31, 2^32, 2^33, 2^39, 2^47 and the largest value. The code is the same for every block and page size.")


P("C26", "Reference-counted objects live exactly as long as they are referenced",
  "Whatever counting_ptr and const_counting_ptr pointers are constructed, copied, assigned (also from themselves or from the pointer they hold), swapped, unified or destroyed, the count of every object is the number of pointers that designate it; the object is deleted exactly when the last of them goes, once, and never while one remains; pointers and observers show what a plain pointer would. Copying or assigning a counted object never copies its count, dec_reference reports exactly the step to zero, and external_shared_ptr keeps its reference until unwrapped.",
  ["inputs", "histories"], "every state of two pointers over objects with any number of other references, every operation",
  "Tests use one pointer type on one or two objects; self-assignment, assigning the held raw pointer, unify on a shared object and pointers that share an object with others are hardly met, and a wrong count shows only as a leak or a later crash.",
  ["include/stxxl/bits/common/counting_ptr.h", "include/stxxl/bits/common/external_shared_ptr.h"],
  [("pointers", "counting_ptr, const_counting_ptr"), ("counted objects", "counted_object, atomic_counted_object"), ("wrapped pointers", "external_shared_ptr")],
  "abstract interpretation of every operation from every state of two pointers, two counted objects and references held elsewhere, against the number of references",
  "Two objects, two pointers and at most one more reference to each object; the operations only distinguish counts of zero, one and more. Concurrent counting is C05.")


P("C10", "I/O statistics account for every operation, byte and second of transfers",
  "Whatever reads, writes and waits begin, end, are cancelled or are served from a cache, one after the other or at the same time, the statistics report every operation and every byte once and by kind; when nothing is under way, the serial times are the sums of the durations and the parallel times the time during which something was under way. Resetting starts from zero; snapshots, their sums and differences hold for every figure. Scoped timers report one end for every start. Every transfer routine of a backend that moves the data itself announces exactly the bytes it is asked to move, in the right direction, and its end, also when it fails; waiting for a request counts as one wait of the request's kind, if it is to be measured; asynchronous requests do so before they are submitted and when they complete or are cancelled. All changes of a figure share a lock.",
  ["inputs", "histories", "schedules"], "every history of begins, ends, cancellations, cache hits, waits and resets; every path of a transfer",
  "Tests print the statistics but compare hardly any figure with what happened; overlapping operations, cancellations and failing transfers are not looked at.",
  ["include/stxxl/bits/io/iostats.h", "lib/io/iostats.cpp", "lib/io/linuxaio_request.cpp"],
  [("figures", "stats, stats_data"), ("timers", "scoped_read_write_timer, scoped_read_timer, scoped_write_timer, scoped_wait_timer"), ("transfers", "syscall_file, mmap_file, mem_file, sim_disk_file: serve; linuxaio_request: post, completed")],
  "abstract interpretation of the statistics over scripted and drawn histories under a model clock, of the timers over every sequence of starts and stops, and of every path of the transfer routines; lock sets of all changes",
  "Histories of up to about fourteen steps and three kinds of waits; the one-file-per-block backend delegates; of the log-structured one, the cached transfers are looked at. The boostfd and Windows backends are not part of the analysed configuration.")

# ---------------------------------------------------------------- not applicable
P("C90", "Sorting produces the sorted permutation of its input",
  "After sorting a range, sorter or stream with a strict weak order, the output is a permutation of the input in which no element precedes a smaller one, for every input size, memory budget and block size.",
  ["inputs", "configurations"], "every input sequence, comparator, memory and block size",
  "Tests sort a few random inputs with a few memory limits.",
  ["include/stxxl/bits/algo/sort.h", "include/stxxl/bits/stream/sort_stream.h", "include/stxxl/bits/algo/ksort.h"],
  [("run formation and multiway merging", "create_runs, merge_runs, runs_merger")],
  na="Functional correctness of run formation plus multiway merging needs loop invariants over unbounded heap contents (multisets, prediction sequences, tournament trees); no sound static argument in reach bounds them, and a dynamic test would not be static analysis.")
P("C91", "Priority queues deliver elements in order and lose none",
  "Every element inserted into the external or parallel priority queue is delivered exactly once, and each delivered element is a maximum of those present at that moment.",
  ["inputs", "histories"], "every sequence of pushes and pops, of any length",
  "Tests push and pop a few fixed sequences.",
  ["include/stxxl/bits/containers/priority_queue.h", "include/stxxl/bits/containers/parallel_priority_queue.h"],
  [("insertion heaps, loser trees and external merging", "priority_queue, ext_merger, loser_tree")],
  na="The order and conservation invariant ranges over loser trees, insertion heaps and groups of external sequences of data-dependent size; it is a heap-shape property beyond the affine abstract domain.")
P("C93", "Matrix multiplication computes the product",
  "The external matrix algorithms compute the mathematical product for every dimension and algorithm variant, up to floating point rounding.",
  ["inputs", "configurations"], "every dimension, value and algorithm",
  "Tests multiply a handful of small matrices.",
  ["include/stxxl/bits/containers/matrix.h", "include/stxxl/bits/containers/matrix_arithmetic.h"],
  [("recursive Strassen-Winograd schedules", "matrix_local::*")],
  na="An algebraic identity over recursively scheduled block operations; proving it needs symbolic algebra over the schedule, not a dataflow or typestate argument.")
P("C94", "Random shuffle is a uniform permutation",
  "Random shuffling permutes the range, and every permutation is equally likely.",
  ["inputs"], "all inputs and random sources",
  "A finite number of shuffles cannot establish a distribution.",
  ["include/stxxl/bits/algo/random_shuffle.h"], [("bucket distribution and recursive shuffle", "random_shuffle")],
  na="A probabilistic statement about a pseudo-random source; no static rule decides it.")
P("C95", "The parallel priority queue tolerates concurrent bulk insertion",
  "Bulk insertions from several threads leave every element present exactly once and keep the internal minima consistent.",
  ["schedules", "inputs"], "every interleaving of inserting threads",
  "Stress runs cover few interleavings.",
  ["include/stxxl/bits/containers/parallel_priority_queue.h"], [("per-processor insertion heaps", "bulk_push, flush_insertion_heaps")],
  na="The structure relies on a usage protocol (who calls which bulk operation with which thread id) that is not visible in the code, and on OpenMP regions over heap contents; a lockset or effect analysis would report the intended unsynchronised accesses.")
P("C96", "Overlap of I/O and computation meets its performance goals",
  "Prefetching and write-behind keep all disks busy whenever blocks are outstanding.",
  ["schedules", "configurations"], "all disk speeds and schedules",
  "Timing depends on hardware.",
  ["include/stxxl/bits/mng/block_prefetcher.h", "include/stxxl/bits/mng/write_pool.h"], [("prefetch sequences", "compute_prefetch_schedule")],
  na="A performance statement about timing, not decidable from the source.")
