"""Writes /verif/properties.jsonl (the committed file is its output)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"the state the property is about","where":files[0]}]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("P01","Contiguous put, get and value transfers move exactly the described data",
 "ARMCI_Put, ARMCI_Get, their nonblocking forms and the Put/GetValue calls applied to a (pointer, process) pair transfer exactly the described bytes between the origin buffer and that location of that process's slice, for every allocation, offset, size, element type and target including the caller itself. No other byte of any process's memory, of the origin buffer of a put, or outside the described part of the destination of a get is changed. A get returns only values the location held at some time between the call and its completion.",
 ["inputs","schedules","configurations"],"all allocations (world and group, unequal slice sizes, overlapping address ranges on different processes), offsets, sizes, types, targets, origin in private or global memory, and all interleavings with operations of other processes",
 "The tests transfer a few fixed sizes at fixed offsets and look only at the cells they wrote; a wrong displacement for one slice layout, an extra byte written, or a stale value under one interleaving goes unseen.",
 ["src/onesided.c","src/onesided_nb.c","src/gmr.c","src/value_ops.c"],
 [("pointer to window translation","src/gmr.c:gmr_lookup"),("put/get","src/onesided.c:PARMCI_Put, PARMCI_Get"),("displacement computation","src/gmr.c:gmr_put_typed, gmr_get_typed"),("value operations","src/value_ops.c")])
prop("P02","Fence, AllFence and Barrier guarantee remote completion",
 "When ARMCI_Fence(p) returns, every put, accumulate and read-modify-write the caller issued to process p, in every allocation, has taken effect in p's memory; ARMCI_AllFence guarantees the same for all processes. When ARMCI_Barrier returns, everything any process issued before entering the barrier has taken effect everywhere and no process has returned before all entered.",
 ["schedules","histories","configurations"],"all sequences of one-sided operations (blocking, nonblocking, strided, vector) before the synchronisation, any number of live allocations and groups, all network delays and interleavings",
 "On one node with shared-memory transport every put is complete when it returns, so no test can notice a missing flush, a skipped allocation or a missing barrier step.",
 ["src/onesided.c","src/util.c","src/gmr.c"],
 [("fence","src/onesided.c:PARMCI_Fence, PARMCI_AllFence"),("flush of every region","src/gmr.c:gmr_flush, gmr_flushall"),("barrier","src/util.c:PARMCI_Barrier")])
prop("P03","Local completion: buffers belong to the caller again when a call returns",
 "When a blocking put or accumulate (contiguous, strided, vector, flag or value) returns, or the wait for a nonblocking one returns, the caller may overwrite or free the origin buffer, the scale and the stride or pointer descriptors without affecting the data that arrives at the target. When a blocking get or the wait for a nonblocking get returns, the requested data is in the destination buffer and the library does not write to it again.",
 ["schedules","inputs","configurations"],"all operations, scales, target processes, buffer placements and all network delays between the return of the call and the delivery at the target",
 "With a shared-memory transport the data has been copied before the call returns, so a missing local flush or a temporary freed too early is invisible in tests.",
 ["src/onesided.c","src/onesided_nb.c","src/strided_nb.c","src/vector.c","src/buffer.c"],
 [("local flush before return","src/onesided.c:PARMCI_Put, PARMCI_Acc"),("flush before freeing scaled copies","src/onesided_nb.c:PARMCI_NbAcc; src/strided_nb.c; src/vector.c"),("completion of batched segments","src/vector.c:ARMCII_Iov_op_batched")])
prop("P04","Nonblocking handles: Wait, Test, WaitProc, WaitAll complete what they name",
 "ARMCI_Wait(h), or ARMCI_Test(h) returning 0, implies that all operations issued on h since it was last complete, single, aggregated, strided or vector, are locally complete, and afterwards h is reusable. ARMCI_WaitProc(p) completes every outstanding operation to p and ARMCI_WaitAll every outstanding operation, including those issued with a NULL handle (handles are initialised or marked aggregate only while nothing is outstanding on them). Repeated ARMCI_Test eventually returns 0, also on a handle with nothing outstanding.",
 ["histories","schedules"],"all sequences of nonblocking operations, handle initialisation, aggregation, waits and tests on several handles, and all orders in which the network completes them",
 "Tests use one handle pattern and a transport that completes at once; losing one of several requests of a handle, or waiting for the wrong one, changes nothing there.",
 ["src/onesided_nb.c","src/gmr.c","src/strided_nb.c","src/vector_nb.c"],
 [("request bookkeeping","src/gmr.c:gmr_handle_add_request"),("wait and test","src/onesided_nb.c:PARMCI_Wait, PARMCI_Test"),("implicit handles","src/onesided_nb.c:PARMCI_WaitProc, PARMCI_WaitAll")],state="armci_hdl_t")
prop("P05","Accumulate applies scale*source exactly once per element and atomically",
 "Every ARMCI_Acc, AccS, AccV and nonblocking form adds scale*source element-wise to the target for each of the six data types, exactly once per element, with complex scale multiplication for the complex types. Concurrent accumulates from any number of processes to the same location never lose or duplicate a contribution, and the origin buffer is left unchanged.",
 ["inputs","schedules","configurations"],"all types, scales (one, zero, negative, fractional, complex), shapes, origins and interleavings with other accumulates",
 "Tests check a few sums with one scale and few origins; a lost update or a wrong scaling for one type or one transfer method needs particular types, scales or schedules.",
 ["src/onesided.c","src/onesided_nb.c","src/strided_nb.c","src/vector.c","src/buffer.c","src/internals.c"],
 [("scaling","src/buffer.c:ARMCII_Buf_acc_scale, ARMCII_Buf_acc_is_scaled"),("type translation","src/internals.c:ARMCII_Acc_type_translate"),("accumulate","src/gmr.c:gmr_accumulate_typed")])
prop("P06","Read-modify-write is atomic and returns the value it replaced",
 "ARMCI_Rmw fetch-and-add and swap, on int and long, atomically update exactly the addressed location and store its previous value in the caller's variable. For any set of concurrent read-modify-writes on one location the results and the final value are those of some sequential order consistent with each caller's program order, whatever atomics configuration is selected.",
 ["schedules","configurations","histories"],"all mixes of fetch-and-add and swap by any processes on any locations under all interleavings and all atomics-related settings",
 "A lost update or a swap that becomes visible late needs a particular interleaving; tests only compare a final sum under the default setting.",
 ["src/rmw.c","src/gmr.c"],
 [("rmw","src/rmw.c:PARMCI_Rmw"),("fetch and op","src/gmr.c:gmr_fetch_and_op")])
prop("P07","Location consistency: own operations on a location take effect in order",
 "If a process completes a put, accumulate or read-modify-write to a location (the call, or the wait for it, returned) and then issues another operation on the same location, the later one takes effect after the earlier one: a later get returns the earlier write or something newer, and a later put is not overwritten by an earlier one.",
 ["schedules","histories","configurations"],"all program-ordered sequences of operations of one process on one location, contiguous, strided or vector, with other processes interfering, under every ordering setting that the configuration promises to handle",
 "Reordering between operations does not occur on the shared-memory transport of the tests.",
 ["src/onesided.c","src/gmr.c","src/init_finalize.c"],
 [("flush discipline","src/gmr.c:gmr_flush"),("atomic put/get mode","src/gmr.c:gmr_put_typed, gmr_get_typed"),("blocking calls","src/onesided.c, src/strided.c, src/vector.c")])
prop("P08","Strided transfers equal their element-wise definition",
 "ARMCI_PutS, GetS, AccS and their nonblocking forms move exactly the elements base + sum(i_k*stride_k), 0 <= i_k < count_k, in corresponding order on both sides, for every number of levels, count and pair of source and destination strides, under every strided and vector method. Gaps between elements are never written at the destination and the three calls agree with each other and with a loop of contiguous calls.",
 ["inputs","configurations"],"all stride levels up to the maximum, counts (including 1), strides on both sides (dense, padded, not multiples of one another), types, scales, targets and methods (DIRECT and IOV variants)",
 "Tests use regular 2-D blocks with nested strides; the descriptor space is unbounded and each method translates it differently.",
 ["src/strided.c","src/strided_nb.c","src/vector.c"],
 [("strided to datatype","src/strided.c:ARMCII_Strided_to_dtype"),("strided to vector","src/strided.c:ARMCII_Strided_to_iov, ARMCII_Strided_to_iov_iter"),("calls","src/strided_nb.c")])
prop("P09","Generalized I/O vector transfers move every segment of every vector",
 "ARMCI_PutV, GetV, AccV and their nonblocking forms perform for each segment of each vector the corresponding contiguous transfer, under every vector method, batching limit and chunk size. With ARMCI_IOV_CHECKS enabled this includes segments that lie in different allocations and accumulate segments that overlap at the target.",
 ["inputs","configurations"],"all numbers of vectors, segments, segment lengths and orders (including zero segments), placements in one or several allocations, methods, batching limits and chunk sizes",
 "Tests use uniform segment lists; mistakes at batch or chunk boundaries and in the fallback paths depend on the number and layout of segments.",
 ["src/vector.c","src/vector_nb.c","src/conflict_tree.c"],
 [("dispatch","src/vector.c:ARMCII_Iov_op_dispatch"),("batched","src/vector.c:ARMCII_Iov_op_batched"),("datatype","src/vector.c:ARMCII_Iov_op_datatype"),("checks","src/vector.c:ARMCII_Iov_check_overlap, ARMCII_Iov_check_same_allocation")])
prop("P10","Mutexes give mutual exclusion",
 "Between the return of ARMCI_Lock(m,p) (or a successful trylock) and the call of the matching ARMCI_Unlock no other process holds mutex m of p; different (m,p) pairs are independent of each other. This holds for any number of processes, mutexes per process and unequal counts per process.",
 ["schedules","histories"],"all interleavings of lock, unlock and trylock calls by all processes on all mutexes",
 "A violation needs a particular interleaving of the exclusive epochs and notification messages of several processes.",
 ["src/mutex_hdl_queue.c","src/mutex.c"],
 [("enqueue and test","src/mutex_hdl_queue.c:ARMCIX_Lock_hdl"),("hand over","src/mutex_hdl_queue.c:ARMCIX_Unlock_hdl"),("default mutexes","src/mutex.c")])
prop("P11","Mutexes make progress: no lost wake-up, no deadlock, bounded bypass",
 "If every holder eventually unlocks, every process that calls ARMCI_Lock eventually acquires the mutex. Once a process is queued on a mutex, no other process acquires that mutex twice before it does.",
 ["schedules","histories"],"all interleavings of lock and unlock by all processes on all mutexes, including hand-over racing with new requests",
 "A lost notification hangs only under one interleaving; unfairness never fails a test.",
 ["src/mutex_hdl_queue.c","src/mutex.c"],
 [("queue scan and notification","src/mutex_hdl_queue.c:ARMCIX_Unlock_hdl"),("waiting","src/mutex_hdl_queue.c:ARMCIX_Lock_hdl")])
prop("P12","Allocation life cycle: disjoint, correctly sized, reusable, released",
 "ARMCI_Malloc with any mix of sizes returns on every process the same array of base addresses, NULL exactly for zero-sized slices, each live slice being disjoint from every other live allocation of its process. ARMCI_Free, also by processes holding a NULL slice, releases exactly the given allocation and leaves all others usable, in any order; allocations still live at ARMCI_Finalize are released.",
 ["histories","inputs"],"all sequences of collective allocations and frees with arbitrary per-process sizes including zero and all interleaved uses of the remaining allocations",
 "Tests allocate and free in one fixed order with one size pattern; list manipulation and lookup errors depend on history and on address reuse.",
 ["src/gmr.c","src/malloc.c"],
 [("create","src/gmr.c:gmr_create"),("destroy","src/gmr.c:gmr_destroy"),("lookup","src/gmr.c:gmr_lookup"),("finalize","src/gmr.c:gmr_destroy_all")],state="gmr_list")
prop("P13","Group allocations are addressed by absolute rank and stay within the group",
 "ARMCI_Malloc_group returns the base addresses indexed by group rank, and every one-sided operation on them with the target's absolute id reaches exactly that member's slice. Allocations on different (overlapping, reordered, nested) groups do not interfere, and Fence, WaitProc, AllFence and Barrier work for every process while any group allocations are live.",
 ["inputs","histories"],"all group memberships and rank orders, sequences of group and world allocations, and targets",
 "Tests use one or two regular groups whose rank order equals the world order.",
 ["src/malloc.c","src/gmr.c","src/groups.c"],
 [("group malloc","src/malloc.c:PARMCI_Malloc_group_memdev, ARMCI_Malloc_group"),("rank translation","src/groups.c:ARMCII_Translate_absolute_to_group"),("flush of a region","src/gmr.c:gmr_flush")])
prop("P14","Groups have the requested membership, rank order and translation",
 "ARMCI_Group_create, create_child, split and dup yield on each member the rank and size given by the list (or colour and key), and ARMCI_Absolute_id maps each group rank to the member's absolute id, in collective and noncollective mode, with and without rank caching, to any nesting depth. Non-members obtain no rank, groups can be freed by every caller in any order, and the default group is the one last set.",
 ["inputs","histories","configurations"],"all member lists, colours, keys, parents, nesting, orders of creation and release, and group settings",
 "Tests create a few contiguous halves; translation errors depend on permutations and nesting.",
 ["src/groups.c"],
 [("creation","src/groups.c:ARMCI_Group_create_child"),("split and dup","src/groups.c:ARMCIX_Group_split, ARMCIX_Group_dup"),("translation","src/groups.c:ARMCI_Absolute_id, ARMCII_Group_init_from_comm")])
prop("P15","Message collectives compute the right result over their scope",
 "armci_msg_*gop, the group forms and the scoped forms leave on every member the element-wise reduction (+, *, max, min, absmax, absmin, or, and logical and bitwise forms) over exactly the members of the scope; bcast leaves the root's data on every member; armci_msg_sel leaves the extremal contributed record. Elements beyond the given length are unchanged.",
 ["inputs","schedules"],"all operators, types, lengths, scopes, groups, roots, values (negative, equal, extreme) and sets of contributors",
 "Tests cover a few operators on world with positive values; wrong operator selection by prefix matching or a wrong scope shows only for particular operators and values.",
 ["src/message_gop.c","src/message.c"],
 [("gop","src/message_gop.c:armci_msg_group_gop_scope"),("abs operators","src/message_gop.c:ARMCII_Absmin_op, ARMCII_Absmax_op, ARMCII_Absv_op"),("sel","src/message.c:armci_msg_sel_scope"),("bcast","src/message.c:armci_msg_group_bcast_scope, armci_msg_bcast")])
prop("P16","Point-to-point messages arrive once, in order, with correct length and source",
 "armci_msg_rcv(tag,...,from) returns the oldest not yet received message sent by from with that tag, with its content and length; armci_msg_rcvany returns such a message of some sender and that sender's id. A receive returns only a message sent earlier, and bytes of the receive buffer beyond the message are unchanged.",
 ["histories","schedules"],"all sequences of sends and receives with all tags, lengths (including zero and shorter than the buffer), and eager or synchronous transports",
 "Tests exchange single messages between fixed pairs.",
 ["src/message.c"],[("send","src/message.c:armci_msg_snd"),("receive","src/message.c:armci_msg_rcv, armci_msg_rcvany")])
prop("P17","Put with flag: the flag never becomes visible before the data",
 "ARMCI_Put_flag and ARMCI_PutS_flag write the given value to the flag location of the target process only after all of the call's data is in the target's memory, so a process that sees the flag value also sees the data. The flag and data may lie in the same or different allocations.",
 ["schedules","inputs"],"all shapes, sizes, flag placements and all network delays and orders",
 "The test transport delivers in order, so a missing fence between data and flag cannot be seen.",
 ["src/onesided.c","src/strided.c"],[("put flag","src/onesided.c:PARMCI_Put_flag"),("strided put flag","src/strided.c:PARMCI_PutS_flag")])
prop("P18","Direct local access is coherent with one-sided operations",
 "Stores to global memory between ARMCI_Access_begin and ARMCI_Access_end, on any address inside an own slice, are seen by every remote get issued after a later synchronisation, and loads see every remote write completed before the preceding synchronisation. Access_begin/end change no memory, may be used on any number of allocations and leave all subsequent one-sided calls valid.",
 ["histories","schedules"],"all sequences of local accesses, remote operations and barriers on any allocation",
 "Tests use one access pattern on one allocation.",
 ["src/onesided.c","src/gmr.c","src/internals.c"],[("access","src/onesided.c:PARMCI_Access_begin, PARMCI_Access_end"),("sync","src/gmr.c:gmr_sync")])
prop("P19","Initialization nests and finalization releases everything in order",
 "ARMCI_Init, Init_args, Init_thread, Init_mpi_comm and Init_thread_comm initialise the library on the given communicator, whose ranks become the absolute ids; repeated calls nest and only the matching last ARMCI_Finalize shuts the library down, after which it can be initialised again. ARMCI_Initialized is true exactly between the first init and the last finalize, and finalizing with live allocations or groups releases them without affecting other processes.",
 ["histories","configurations"],"all nestings of the init variants and finalize, thread levels and communicators (permuted or partial), with allocations and operations in between",
 "Each test initialises and finalises exactly once.",
 ["src/init_finalize.c"],[("init","src/init_finalize.c:PARMCI_Init_thread_comm"),("finalize","src/init_finalize.c:PARMCI_Finalize"),("initialized","src/init_finalize.c:PARMCI_Initialized")],state="ARMCII_GLOBAL_STATE.init_count")
prop("P20","Results do not depend on tuning variables",
 "For every combination of the documented ARMCI_* environment variables a program's one-sided, atomic, collective and mutex operations have the results this specification gives; the variables only select methods. Unset, empty and out-of-range settings fall back to a working method. The same holds for the library built without weak symbols (separate ARMCI_/PARMCI_ entry points) and with the safety checks disabled.",
 ["configurations","schedules"],"all combinations of environment settings (methods, batching, chunking, caching, windows, atomics, flush, barriers, shared buffers, thread level) with programs covering the whole interface",
 "The tests run in one configuration only; most method code is never executed by them.",
 ["src/init_finalize.c","src/util.c","src/vector.c","src/gmr.c"],[("settings","src/init_finalize.c:PARMCI_Init_thread_comm"),("parsing","src/internals.c, src/util.c: ARMCII_Getenv*"),("method selection","src/vector.c, src/strided_nb.c, src/gmr.c")])
prop("P21","Accesses outside an allocation are rejected and never modify memory",
 "A one-sided operation whose described range is not inside the target process's slice of one live allocation (unknown pointer, freed allocation, wrong process, running past the end) aborts the program with a diagnostic. It never modifies or reads memory outside the slice and never returns successfully.",
 ["inputs","histories"],"all operations, shapes, offsets just inside and outside slice boundaries, freed allocations and targets outside the group",
 "An out-of-range access usually lands in padding or other live memory and is not noticed by tests.",
 ["src/gmr.c","src/onesided.c","src/vector.c"],[("lookup","src/gmr.c:gmr_lookup"),("bounds checks","src/gmr.c:gmr_put_typed, gmr_get_typed, gmr_accumulate_typed, gmr_fetch_and_op")])
prop("P22","The conflict tree finds exactly the overlapping intervals",
 "For every sequence of closed intervals, inserting into the conflict tree fails exactly when the new interval intersects one already stored and otherwise adds it, and locate finds exactly the stored ranges containing the query; the tree stays ordered and balanced and holds exactly the inserted intervals. The overlap check of vector operations built on it reports an overlap exactly when two segments intersect.",
 ["inputs","histories"],"all insertion sequences and shapes, including adjacent, equal, nested and boundary intervals",
 "Rebalancing errors need particular insertion orders; the random test only samples disjoint intervals.",
 ["src/conflict_tree.c","src/vector.c"],[("insert and balance","src/conflict_tree.c:ctree_insert"),("locate","src/conflict_tree.c:ctree_locate"),("overlap check","src/vector.c:ARMCII_Iov_check_overlap")])
prop("P23","Mutex handles on groups are independent batches",
 "ARMCIX_Create_mutexes_hdl creates on each member of a group the requested number of mutexes, addressed by the absolute id of the member; lock, trylock and unlock on one handle, mutex and process never affect another handle, mutex or process. Handles on different groups, and the default mutexes, can be created, used and destroyed in any order, with unequal counts that may be zero on some members.",
 ["histories","inputs","schedules"],"all groups, counts per member, creation and destruction orders and lock sequences on several handles",
 "Tests use one handle on the world group.",
 ["src/mutex_hdl_queue.c","src/mutex.c"],[("create","src/mutex_hdl_queue.c:ARMCIX_Create_mutexes_hdl"),("destroy","src/mutex_hdl_queue.c:ARMCIX_Destroy_mutexes_hdl")],state="armcix_mutex_hdl_t")
prop("P24","Topology queries describe a consistent partition and a spanning tree",
 "For every number of processes armci_domain_* describes a partition of the processes in which domain ids, sizes, member translation and same-domain queries agree with each other and with ARMCI_Same_node; armci_msg_bintree gives every process, over the whole program and over the domain masters, a parent and children that form one binary tree spanning all processes, in which the parent of each child is the process itself; over a node, which holds one process, the caller is the root without children.",
 ["inputs"],"all process counts, processes, domains and scopes",
 "Existing tests never call these functions.",
 ["src/topology.c","src/message.c"],[("domains","src/topology.c"),("bintree","src/message.c:armci_msg_bintree")])
prop("P25","Strided pack and unpack are inverse and touch only the described bytes",
 "armci_write_strided packs exactly the bytes base + sum(i_k*stride_k), 0 <= i_k < count_k, in order into the buffer and armci_read_strided unpacks them to the same places, for every number of levels, counts and strides. No other byte of the buffer or of the strided region changes.",
 ["inputs"],"all levels, counts and strides",
 "No test calls these functions; the descriptor space is unbounded.",
 ["src/strided.c"],[("pack","src/strided.c:armci_write_strided"),("unpack","src/strided.c:armci_read_strided")])
prop("P26","Origin buffers may lie in global memory",
 "Any one-sided operation or message call may use part of the caller's own slice of an allocation as origin or destination buffer, with the COPY and the NOGUARD buffer method alike, and has the same result as with a private buffer. Source data in global memory is left unchanged, and data fetched into global memory is visible to other processes after synchronisation.",
 ["inputs","configurations","schedules"],"all operations, shapes, placements of origin and target (same or different allocation, same process or remote) and both buffer methods",
 "Tests use global origin buffers in a few contiguous cases and only with the default method.",
 ["src/buffer.c","src/onesided.c","src/strided_nb.c","src/vector.c"],[("copy in and out","src/buffer.c"),("local fast paths","src/onesided.c:PARMCI_Put, PARMCI_Get")])
prop("P27","Threads and the progress thread do not change the semantics",
 "With MPI_THREAD_MULTIPLE several threads of a process may issue one-sided operations, atomics and nonblocking operations on distinct handles concurrently and each has the effect it has alone; the asynchronous progress thread neither changes any result nor prevents finalization. ",
 ["schedules"],"all interleavings of threads of one process with each other, with other processes and with the progress thread",
 "All tests are single-threaded.",
 ["src/init_finalize.c","src/gmr.c","src/onesided.c"],[("region list locking","src/gmr.c"),("progress thread","src/init_finalize.c:progress_function")])
prop("P28","Barriers and group barriers synchronise exactly their members",
 "No process returns from armci_msg_barrier, armci_msg_group_barrier or ARMCI_Barrier before every process of the world or group has entered the same barrier, and barriers on different groups do not wait for each other. With ARMCI_MSG_BARRIER_SYNCS the same holds and local memory is synchronised.",
 ["schedules","histories"],"all sequences of barriers on world and overlapping groups by all processes under all interleavings",
 "Tests only need barriers to be fast enough; one returning early is rarely visible.",
 ["src/message.c","src/util.c"],[("message barriers","src/message.c:parmci_msg_barrier, parmci_msg_group_barrier"),("barrier","src/util.c:PARMCI_Barrier")])
prop("P29","Objects and operations can be made and released any number of times",
 "What a process holds in MPI and memory (communicators, groups, windows, datatypes, requests, infos, operators, heap blocks) is bounded by what is in use at that moment: its live allocations, groups and mutex handles and its operations not yet completed. It does not grow with the number of allocations freed, groups freed, mutex handles destroyed, init/finalize cycles finished, transfers, accumulates, read-modify-writes, collectives and messages completed before (nonblocking operations count as completed when their handle was waited on or tested successfully), whatever method or configuration carries them out; after the finalize that ends the library everything it made is released.",
 ["histories","inputs"],"arbitrarily long histories of every operation under every configuration",
 "Tests run few cycles of each operation and never look at what is left behind.",
 ["src/gmr.c","src/groups.c","src/strided.c","src/vector.c","src/buffer.c","src/mutex_hdl_queue.c"],[("region destroy","src/gmr.c:gmr_destroy"),("group free","src/groups.c:ARMCI_Group_free"),("temporary types and buffers","src/strided.c, src/vector.c, src/buffer.c"),("finalize","src/init_finalize.c:PARMCI_Finalize")])
prop("P30","Calls the library's state forbids end the program and have no effect",
 "A call that cannot be carried out never returns as if it had been: the program is aborted, whatever was done before. This holds for starting ARMCI without MPI or above MPI's thread level, allocating before initialisation or after the last finalize, creating the default mutexes twice or none of them, using or destroying them while there are none (also after they were destroyed), locking, trying or releasing a mutex whose index is outside those created or at a process that is not a member, freeing or opening for direct access an address that is in no live allocation (never allocated, or freed before), accumulating with an unknown type or a size that is not a multiple of the type, unknown read-modify-write, reduction or selection operations and element types, a broadcast whose root is not in the group, asking for a member the group does not have, operations on a process beyond the last one, a missing handle or local address, and the reduction armci_msg_reduce, which is not provided. ARMCI_Error and armci_msg_abort end the program with the code they were given. (Checks that are assertions are only promised when the library is built with them.)",
 ["histories","inputs"],"every forbidden call in every state of mutexes, allocations, groups and initialisation",
 "A test that aborts is a failed test: none of them makes a wrong call.",
 ["src/mutex.c","src/mutex_hdl_queue.c","src/rmw.c","src/malloc.c","src/message_gop.c","src/init_finalize.c","src/onesided_nb.c","src/buffer.c"],[("default mutexes","src/mutex.c:PARMCI_Create_mutexes, PARMCI_Lock"),("mutex index and owner","src/mutex_hdl_queue.c:ARMCIX_Lock_hdl"),("initialisation","src/init_finalize.c:PARMCI_Init_thread_comm"),("addresses","src/gmr.c:gmr_destroy, src/onesided.c:PARMCI_Access_begin"),("operations and types","src/rmw.c:PARMCI_Rmw, src/message_gop.c, src/internals.c:ARMCII_Acc_type_translate"),("errors","src/util.c:ARMCI_Error, src/message.c:armci_msg_abort, src/debug.c:ARMCII_Assert_fail")])
prop("P31","Tuning variables reach MPI as documented",
 "Whatever the other variables and the sizes of the parts of an allocation are, MPI is told about its window what the environment says: the hint mpi_accumulate_granularity is 1 where the local part has less than 129 bytes and elsewhere ARMCI_ACCUMULATE_GRANULARITY (1048576 if that is not set or negative), also for the windows of mutexes; accumulate_ordering is the value of ARMCI_RMA_ORDERING (by default all four orders); accumulate_ops is same_op exactly with ARMCI_USE_SAME_OP, disable_shm_accumulate is true exactly with ARMCI_DISABLE_SHM_ACC, alloc_shm is true unless ARMCI_USE_ALLOC_SHM is off; the window comes from MPI_Win_allocate unless ARMCI_USE_WIN_ALLOCATE is off, and its epoch is opened with MPI_MODE_NOCHECK unless ARMCI_RMA_NOCHECK is off. With ARMCI_IOV_METHOD=BATCHED and ARMCI_IOV_BATCHED_LIMIT=n>0 a blocking vector operation starts at most n operations between two flushes. With Open MPI no accumulate uses an indexed datatype, whatever ARMCI_IOV_METHOD says. With ARMCI_DEBUG_ALLOC memory is all zero when ARMCI_Malloc or ARMCI_Malloc_local hands it out. Boolean variables are enabled by values that begin with t, T, y, Y or 1 and by no others.",
 ["configurations","inputs"],"all combinations of the variables, all spellings of booleans, all sizes of local parts on the world and on groups, and all vector operations",
 "Tests run with three fixed sets of variables and do not look at what MPI is told.",
 ["src/gmr.c","src/util.c","src/init_finalize.c","src/mutex_hdl_queue.c","src/vector.c"],[("window hints","src/gmr.c:gmr_create, src/util.c:ARMCII_Set_accumulate_granularity"),("environment","src/init_finalize.c:PARMCI_Init_thread_comm, src/util.c:ARMCII_Getenv_bool"),("batches","src/vector.c:ARMCII_Iov_op_batched"),("handed-out memory","src/gmr.c:gmr_create, src/malloc.c:PARMCI_Malloc_local")])
for p in P:
    assert len(p["title"])<=80,p["title"]; p["statement"]=p["statement"].strip()
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
