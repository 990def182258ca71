#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

SCH = "src/kern/core/hev-task-system-schedule.c"
TASK = "src/kern/task/hev-task.c"
prop("C01", "Task states and run queue stay consistent; run() ends only when all tasks end",
 "Every started task is at all times either runnable and queued exactly once, waiting and not queued, or finished and not queued, and the scheduler's counts of live and runnable tasks equal the real numbers. A yielding task stays runnable, a task that waits is not run again until somebody wakes it, a finished task is never run again. hev_task_system_run returns exactly when no started task is left unfinished.",
 ["histories", "schedules"], "all sequences of run / yield / wait / wakeup / exit by any number of tasks, and every readiness answer of the kernel",
 "Tests run a handful of tasks through one schedule each; the statement is about every history and any number of tasks.",
 [SCH, TASK, "src/kern/task/hev-task-executer.c"],
 [("schedule(): requeue/remove the task that gave up the CPU, then pick", SCH), ("run_new_task / wakeup / kill_current_task", SCH)],
 [("total_task_count / running_task_count", "live and runnable task counts", SCH), ("task->state", "stopped / running / waiting", "src/kern/task/hev-task-private.h"), ("running_tasks", "queue of runnable tasks", SCH)],
 ["hev_task_get_state", "hev_task_system_run returning"])
prop("C02", "The scheduler always runs the runnable task with the least virtual time, FIFO",
 "Whenever a task is chosen, its virtual run time is minimal among all runnable tasks, and among tasks with equal virtual time the one queued first is chosen. Giving up the CPU adds the task's current priority to its virtual time; a new or woken task starts at its own priority above the current minimum (before the system runs: at its own priority); a changed priority takes effect the next time the task is queued.",
 ["histories", "schedules"], "all queue contents and sizes, all virtual times and priorities, all operations that queue a task",
 "Tests check the order of two to four tasks; a misplaced task only shows up with particular key patterns, ties and tree shapes.",
 [SCH, TASK, "src/lib/rbtree/hev-rbtree.c", "src/lib/rbtree/hev-rbtree-cached.c"],
 [("key-ordered insertion into the queue with cached minimum", SCH), ("update_sched_key on giving up the CPU", SCH)],
 [("sched_key", "virtual run time of a task", "src/kern/task/hev-task-private.h")], ["order in which tasks run"])
prop("C03", "Wakeups are exact: one wakeup per waiting task, no effect on a runnable one",
 "Waking a waiting task makes it runnable exactly once and leaves every other task as it was; waking a task that is already runnable changes nothing. Every readiness event the kernel reports makes the task that registered that descriptor runnable, none is dropped, and no other task is affected; while nothing is runnable the scheduler blocks for events instead of returning.",
 ["histories", "schedules", "inputs"], "all task states, all numbers of events delivered in one poll, any mixture of runnable and waiting tasks",
 "Tests see at most a few simultaneous events and never the batch limit or duplicates.",
 [SCH, TASK, "src/kern/io/hev-task-io-reactor.c", "src/kern/io/hev-task-io-reactor-epoll.h", "src/kern/io/hev-task-io-reactor-epoll.c"],
 [("wakeup_task_with_context, io_poll loop", SCH), ("add_fd/mod_fd/del_fd translate to reactor events carrying the task's entity", TASK)],
 [("sched_entity", "what an event is attached to", "src/kern/task/hev-task-private.h")], ["hev_task_wakeup", "hev_task_add_fd/mod_fd/del_fd"])
prop("C04", "A task's memory and stack live exactly as long as it is referenced or running",
 "A task and its stack are released exactly once, at the moment the last reference is dropped, and never while the task is referenced, runnable or waiting; starting a task that is not stopped changes nothing; creation either yields a complete stopped task or releases everything it acquired. Priorities are always within the documented range.",
 ["histories", "fault_sequences"], "all sequences of new/ref/unref/run/exit and all allocation failures",
 "Tests never inspect releases and never fail an allocation.",
 [TASK, SCH, "src/kern/task/hev-task-executer.c", "src/kern/task/hev-task-stack-mmap.c"],
 [("ref_count and unref", TASK), ("removal of a finished task drops the run reference in kernel context", SCH)],
 [("ref_count", "references", "src/kern/task/hev-task-private.h")], ["hev_task_new/ref/unref/run/exit"])
prop("C05", "Join returns only after the joined task ended, and always is woken when it ends",
 "hev_task_join returns 0 only once the joined task is stopped, and whichever way that task ends - by returning from its entry or by hev_task_exit - the task joined on it is made runnable. A second simultaneous join is refused with -1 and disturbs nothing, and a task can be started and joined again later.",
 ["histories", "schedules"], "all interleavings of join, spurious wakeups, normal return and exit",
 "The join test has one order of events and never ends a joined task through hev_task_exit.",
 [TASK, "src/kern/task/hev-task-executer.c"],
 [("joiner recorded in the joined task; wakeup of the joiner at the end", "src/kern/task/hev-task-executer.c"), ("hev_task_join loop", TASK)],
 [("joiner", "task waiting for this one", "src/kern/task/hev-task-private.h")], ["hev_task_join", "hev_task_exit"])
T = "src/kern/time/hev-task-timer.c"
prop("C06", "Sleep never ends early unnoticed; the kernel timer is armed for the earliest one",
 "hev_task_sleep and hev_task_usleep return 0 only when the requested time has fully elapsed (to the unit of the call) and otherwise return the time still remaining, never more than requested. Whatever tasks are sleeping, the kernel timer is armed with a well-formed time equal to the earliest expiry among them and its event wakes the task owning that expiry.",
 ["inputs", "histories", "schedules"], "all durations, all clock readings, any number of concurrent sleepers and wake-up orders",
 "Tests sleep for a few durations below a second; carries in the clock arithmetic and large durations are never hit.",
 [T, "src/kern/time/hev-task-timer-timerfd.h", "src/kern/time/hev-task-timer-timerfd.c", TASK],
 [("sorted tree of expiries with cached first", T), ("re-arm on insert-as-first and on removal of first", T)],
 [("sort_tree", "pending expiries", "src/kern/time/hev-task-timer.h"), ("sched_entity.task", "task woken by the timer", "src/kern/time/hev-task-timer.h")], ["hev_task_sleep", "hev_task_usleep"])
prop("C07", "Mutex: mutual exclusion and no lost wakeup",
 "Between a successful lock or trylock and the matching unlock no other task's lock or trylock on the same mutex succeeds; trylock fails without waiting exactly when the mutex is held. Whenever the mutex is free and tasks wait for it, a waiter that will take it when it runs is runnable, and no waiter is ever dropped.",
 ["histories", "schedules"], "any number of tasks, all interleavings and spurious wakeups",
 "The test uses two tasks and one order.",
 ["src/kern/sync/hev-task-mutex.c"],
 [("locker flag plus list of waiters kept on the waiters' stacks", "src/kern/sync/hev-task-mutex.c")],
 [("locker", "held flag", "src/kern/sync/hev-task-mutex.h"), ("waiters", "blocked tasks", "src/kern/sync/hev-task-mutex.h")], ["hev_task_mutex_lock/trylock/unlock"])
prop("C08", "Condition variable: signals release the right waiters, timeouts lose nobody",
 "A signal releases exactly one waiting task if any waits, a broadcast releases all, and a task that is released finds the mutex locked by itself on return; a plain wait returns only after being signalled. A timed wait returns 0 iff it was signalled, -1 otherwise, and a waiter that leaves by timeout never causes another waiter to be forgotten or a dead waiter to stay registered.",
 ["histories", "schedules"], "any number of waiters, any mixture of wait/timedwait/signal/broadcast/timeout and spurious wakeups",
 "Tests have one or two waiters; removal of a waiter in the middle or at the head with others queued is not reached.",
 ["src/kern/sync/hev-task-cond.c"],
 [("doubly linked waiter nodes on the waiters' stacks", "src/kern/sync/hev-task-cond.c")],
 [("waiters", "head of the waiter list", "src/kern/sync/hev-task-cond.h")], ["hev_task_cond_wait/timedwait/signal/broadcast"])
CH = "src/kern/itc/hev-task-channel.c"
prop("C09", "Channels deliver every message once, in order, with the right bytes",
 "Successive reads on one end return the messages written on the other end in the order they were written, each exactly once, with exactly the bytes written, cut only to the channel's message size and to the reader's buffer, and with that length as result; no byte outside the given buffers and the channel is touched. At most the configured number of messages is outstanding beyond one being handed over, and creating a channel either provides room for all of them or fails.",
 ["inputs", "histories", "schedules"], "all message lengths, channel sizes and capacities, all positions of the ring, all interleavings",
 "Tests use a few lengths and capacities; wrap-around and size arithmetic are not explored.",
 [CH, "src/kern/itc/hev-task-channel-private.h"],
 [("ring of buffers with read index, write index and fill count", CH)],
 [("rd_idx/wr_idx/use_count/max_count", "ring state", "src/kern/itc/hev-task-channel-private.h")], ["hev_task_channel_read/write/new_with_buffers"])
prop("C10", "A blocked channel peer is always woken; closing an end releases the other",
 "With one reading and one writing task per end: a reader waits only while its end is empty and a writer only while the other end is full, and the operation that ends that condition makes the waiting task runnable. An unbuffered write returns its length only after the reader took the message; once the other end is destroyed, writes fail with -1, reads deliver what is left and then fail with -1, a blocked task is released, each end is freed exactly once and not while an operation uses it, and no task that is no longer waiting is touched.",
 ["histories", "schedules"], "all interleavings of read/write/destroy on the two ends, all capacities",
 "Tests have one fixed interleaving per scenario.",
 [CH, "src/kern/itc/hev-task-channel-private.h"],
 [("wait loops, wakeup of the peer's task, reference held during write", CH)],
 [("task", "task waiting on an end", "src/kern/itc/hev-task-channel-private.h"), ("ref_count", "users of an end", "src/kern/itc/hev-task-channel-private.h")], ["hev_task_channel_read/write/destroy"])
prop("C11", "Channel select reports exactly the ready channels",
 "At every moment the channels a selector would report for reading are exactly its channels with an unread message, and among its channels with a live peer those it would report for writing are exactly those whose configured buffers are not full (an unbuffered channel always counts as full), each listed once. Select returns such a channel if there is one, waits until there is one (its task being woken when one appears), and returns nothing only on timeout or with no channel added; a deleted channel is no longer reported.",
 ["histories", "schedules"], "all histories of add/del/read/write on any number of channels",
 "The test covers selecting for reading on unbuffered channels; writability after draining is never exercised.",
 ["src/kern/itc/hev-task-channel-select.c", "src/kern/itc/hev-task-channel-select-private.h", CH],
 [("read/write ready lists maintained on each read and write", CH), ("select wait loop", "src/kern/itc/hev-task-channel-select.c")],
 [("read_list/write_list, used flags", "ready channels", "src/kern/itc/hev-task-channel-select-private.h")], ["hev_task_channel_select_read/write/add/del"])
RB = "src/lib/rbtree/hev-rbtree.c"
prop("C12", "Ordered tree: order, membership, balance and first element survive every update",
 "Linking and inserting a node adds exactly that node at the chosen place, erasing removes exactly that node, replacing substitutes exactly that node; all other nodes keep their relative order, the tree stays balanced (no longest path more than twice a shortest one) and the cached first element is the real first. First, last, next and previous return the in-order neighbours.",
 ["inputs", "histories"], "every tree shape and size, every position, every sequence of updates",
 "The tests insert and remove a few hundred random keys; specific rotation cases are hit by luck only.",
 [RB, "src/lib/rbtree/hev-rbtree.h", "src/lib/rbtree/hev-rbtree-cached.c", "src/lib/rbtree/hev-rbtree-cached.h"],
 [("red-black insertion and erasure with colour stored in the parent pointer", RB)],
 [("__parent_color, left, right", "links and colour", "src/lib/rbtree/hev-rbtree.h"), ("leftmost", "cached first", "src/lib/rbtree/hev-rbtree-cached.h")], ["hev_rbtree_*"])
prop("C13", "Intrusive list: additions append, deletions remove exactly one node",
 "Adding puts the node last, deleting removes exactly the given node wherever it is; the remaining nodes keep their order, and first, last, next and previous agree with that order in both directions, including for the empty and one-element list.",
 ["inputs", "histories"], "every list length and position",
 "The test covers one short sequence.",
 ["src/lib/list/hev-list.c", "src/lib/list/hev-list.h"],
 [("head/tail and prev/next updates", "src/lib/list/hev-list.c")], [("head, tail", "ends of the list", "src/lib/list/hev-list.h")], ["hev_list_*"])
SL = "src/mem/slice/hev-memory-allocator-slice.c"
prop("C14", "Slice allocator: blocks are big enough, exclusively owned, and never lost",
 "Every successful allocation or reallocation returns a block with room for the requested size that overlaps no block still in use, and reallocation keeps the old content up to the smaller size; a request that cannot be served, however large, returns NULL and leaves the old block intact. Freed blocks are either cached for reuse in their own size class or returned to the system, the cache never exceeds its limit, and destroying the allocator returns every cached block exactly once.",
 ["inputs", "histories", "fault_sequences"], "all sizes up to the largest representable, all histories, all failures of the underlying allocator",
 "The test allocates a few sizes; huge sizes, eviction order and failure paths are not reached.",
 [SL, "src/mem/simple/hev-memory-allocator-simple.c", "src/mem/base/hev-memory-allocator.c"],
 [("per-class free lists with least-recently-used eviction", SL)],
 [("cached_count, free lists", "cache", SL)], ["hev_malloc/hev_realloc/hev_free with the slice allocator"])
prop("C15", "Allocation API: zeroing, size overflow and reference counts of allocators",
 "hev_malloc0 and hev_calloc return memory that is entirely zero, hev_calloc provides room for count times size or returns NULL when that product does not fit, and all of them return NULL when the allocator has no memory. Each allocator is destroyed exactly when its last reference goes, and replacing the default hands back the old one.",
 ["inputs", "fault_sequences"], "all sizes and counts, all allocator answers",
 "Tests use small sizes and never fail.",
 ["src/mem/api/hev-memory-allocator-api.c", "src/mem/api/hev-memory-allocator-api.h", "src/mem/base/hev-memory-allocator.c", "src/mem/base/hev-memory-allocator.h"],
 [("calloc/malloc0", "src/mem/api/hev-memory-allocator-api.c")], [("ref_count", "references to an allocator", "src/mem/base/hev-memory-allocator.h")], ["hev_malloc0", "hev_calloc"])
CB = "src/lib/io/buffer/hev-circular-buffer.c"
prop("C16", "Circular buffer is a byte queue: nothing lost, repeated, reordered, overwritten",
 "The bytes offered for reading are always exactly the bytes committed by writers and not yet consumed, oldest first, and the space offered for writing is exactly the free space, contained in the buffer and disjoint from unread bytes. The reported sizes are exact, consuming or committing n bytes changes them by n, and the buffer is released exactly when its last reference goes.",
 ["inputs", "histories"], "all capacities, all positions and fill levels, all amounts",
 "The test exercises one capacity and a few positions.",
 [CB, "src/lib/io/buffer/hev-circular-buffer.h"],
 [("read position plus fill size modulo capacity, two segments", CB)],
 [("rd_ptr, use_size, max_size", "queue state", CB)], ["hev_circular_buffer_*"])
IO = "src/lib/io/basic/hev-task-io.c"
SO = "src/lib/io/socket/hev-task-io-socket.c"
prop("C17", "Cooperative I/O calls wait instead of failing with EAGAIN, return true results",
 "The read, write, readv, writev, accept, connect, recv, send, recvfrom, sendto, recvmsg and sendmsg wrappers repeat the operation with the caller's arguments while the kernel says it would block, giving up the CPU between attempts, and otherwise return exactly the kernel's result and error. If the caller's yielder asks to stop, they return -2 without a further attempt; without a yielder they wait as a waiting task.",
 ["schedules", "fault_sequences", "inputs"], "every sequence of kernel answers and yielder answers",
 "Tests only see local sockets and pipes that become ready once.",
 [IO, SO],
 [("retry loops around the system call", IO), ("retry loops", SO)], [], ["hev_task_io_*", "hev_task_io_socket_*"])
prop("C18", "Complete transfers: every byte once, in order, across short reads and writes",
 "With MSG_WAITALL, recv, send, recvfrom, sendto, recvmsg and sendmsg keep going across short transfers so that the bytes are placed at (or taken from) consecutive positions of the caller's buffers with no gap, repetition or overrun, and return the full count or, if the stream ends or fails first, the number already transferred or the failure. The caller's message header and vectors are not modified on sending; on receiving, the address and control results are those of the kernel.",
 ["inputs", "schedules", "fault_sequences"], "all lengths, all vector shapes, every split of the transfer into partial results, errors and interruptions at every point",
 "Loopback transfers in the tests complete in one piece.",
 [SO],
 [("loops advancing the remaining range or vector", SO)], [], ["hev_task_io_socket_recv/send/recvfrom/sendto/recvmsg/sendmsg"])
prop("C19", "Descriptors made by the library are non-blocking, and failures leak none",
 "Every descriptor returned by the open, creat, openat, dup, dup2, pipe, socket, socketpair and accept wrappers is in non-blocking mode; if that cannot be arranged every descriptor made by the call is closed and the call fails with a negative result. The arguments, including a creation mode, reach the system call unchanged, and a failure of that call is reported as a failure.",
 ["fault_sequences", "inputs"], "every combination of success and failure of the underlying calls",
 "The failure paths never run in tests.",
 [IO, SO, "src/lib/io/pipe/hev-task-io-pipe.c"],
 [("set non-blocking after creation, close on failure", IO)], [], ["hev_task_io_open/creat/openat/dup/dup2/pipe_pipe", "hev_task_io_socket_socket/socketpair/accept"])
prop("C20", "Two-way splice forwards each stream intact and ends only when it is done",
 "Splicing forwards the bytes read from each input to its output in order with none lost, repeated or mixed between directions. A direction ends only when its output fails, or its input ended or failed and everything read from it has been passed on. The call returns only when both directions have ended (when one side uses one descriptor for input and output: when either has ended) or the yielder asks to stop, waits only when neither direction could progress, and releases everything it acquired on every way out.",
 ["schedules", "fault_sequences", "inputs"], "every sequence of short transfers, would-block answers, ends and errors on the four descriptors",
 "The test forwards 64 bytes one way.",
 [IO, CB],
 [("splicer state per direction: pipe or buffer fill", IO)], [], ["hev_task_io_splice"])
prop("C21", "Cooperative poll reports readiness, honours its timeout and waits as a task",
 "With timeout 0 hev_task_io_poll asks the kernel exactly once and never waits. Otherwise every given descriptor is registered with its events for the calling task before it waits, the kernel's result for the caller's array is returned as soon as it is not 0, the call waits again only while it is 0 and the time is not over, and it returns 0 only when the time is over, never for a negative timeout.",
 ["schedules", "fault_sequences", "inputs"], "any number of descriptors, every sequence of readiness answers and early wakeups, descriptors already registered or not",
 "The test polls one or two descriptors that become ready once.",
 ["src/lib/io/poll/hev-task-io-poll.c"],
 [("poll / register / sleep loop", "src/lib/io/poll/hev-task-io-poll.c")], [], ["hev_task_io_poll"])
CIO = "src/lib/cio/base/hev-task-cio.c"
prop("C22", "Stacked streams: calls reach the next layer unchanged, ownership is exact",
 "A stream operation is served by the topmost layer that implements it and otherwise by the next one down with the same arguments, result and error; only with no layer left does it fail. Pushing and popping layers, references and end-of-life destroy each layer exactly once; socket and descriptor streams map results to the documented codes and close their descriptor exactly when they own it, and the null stream discards and delivers as documented.",
 ["inputs", "histories", "fault_sequences"], "all operations, all stacks of layers, all results of the lower layer",
 "Tests stack at most two layers and exercise success only.",
 [CIO, "src/lib/cio/base/hev-task-cio.h", "src/lib/cio/fd/hev-task-cio-fd.c", "src/lib/cio/socket/hev-task-cio-socket.c", "src/lib/cio/null/hev-task-cio-null.c"],
 [("dispatch through the class table and the next pointer", CIO)], [], ["hev_task_cio_*"])
CIOB = "src/lib/cio/buffer/hev-task-cio-buffer.c"
prop("C23", "Buffered stream neither loses, repeats nor reorders bytes",
 "Bytes read from a buffered stream are exactly the bytes of the underlying stream in order, with buffered bytes delivered first, and peeking shows the next bytes without consuming them; bytes written are passed on exactly once in order, and a flush reports success only when nothing remains buffered.",
 ["inputs", "histories", "schedules"], "all buffer sizes and fill levels, all request sizes and vector shapes, all short or failing results of the lower stream",
 "Tests read and write small constant sizes.",
 [CIOB, CB],
 [("one circular buffer per direction in front of the lower stream", CIOB)], [], ["hev_task_cio_buffer_*"])
prop("C24", "Stream splice forwards everything it read before it reports the end",
 "Splicing two streams forwards the bytes read from each side to the other in order without loss or repetition, including bytes held by a buffering output, ends only when both directions have ended or the yielder asks to stop, and gives up the CPU only when no direction could progress.",
 ["schedules", "fault_sequences"], "every sequence of partial transfers, would-block answers and ends on both streams",
 "The tests forward a few bytes through one stream type.",
 [CIO, CB],
 [("per-direction splice step with flush", CIO)], [], ["hev_task_cio_splice"])
prop("C25", "Shared objects are destroyed exactly once, when the last reference goes",
 "A reference-counted object is destructed exactly once, when its last reference is released, also when references are taken and released concurrently by several threads in the atomic variant, and it is not touched afterwards.",
 ["histories", "schedules"], "all sequences and (for the atomic variant) all interleavings of ref and unref",
 "Tests take one reference from one thread.",
 ["src/lib/object/hev-object.c", "src/lib/object/hev-object-atomic.c"],
 [("reference count reaching zero calls the class destructor", "src/lib/object/hev-object.c")], [("ref_count", "references", "src/lib/object/hev-object.h")], ["hev_object_ref/unref", "hev_object_atomic_ref/unref"])
prop("C26", "Task stacks: full usable size, aligned, guarded below, released exactly",
 "A task stack offers at least the requested size between its guard and its top, the top is suitably aligned, an access just below the usable area hits a page that cannot be accessed, and releasing returns exactly the mapped range; if any step fails nothing stays mapped. A call made on a separate stack runs inside its own block, aligned, and hands back its return value.",
 ["inputs", "fault_sequences"], "all sizes and page sizes, all failures of the mapping calls",
 "Tests use the default size.",
 ["src/kern/task/hev-task-stack-mmap.c", "src/kern/task/hev-task-call.c", "src/kern/task/hev-task-call.h"],
 [("mmap plus protected first page", "src/kern/task/hev-task-stack-mmap.c"), ("stack inside the call block", "src/kern/task/hev-task-call.c")], [], ["hev_task_new", "hev_task_call_new/jump"])
prop("C27", "Starting and stopping the task system is all-or-nothing",
 "hev_task_system_init returns 0 with a fully set-up context for the calling thread, or -1 with everything it acquired released and the thread's context as before; hev_task_system_fini releases every resource of the context exactly once and leaves the thread without one.",
 ["fault_sequences", "histories"], "a failure at every acquiring step",
 "No failing step is ever tested.",
 ["src/kern/core/hev-task-system.c", "src/kern/io/hev-task-io-reactor.c", "src/kern/io/hev-task-io-reactor-epoll.c", "src/kern/time/hev-task-timer-timerfd.c"],
 [("goto-chain clean-up", "src/kern/core/hev-task-system.c")], [], ["hev_task_system_init/fini"])
DNS = "src/lib/dns/hev-task-dns-proxy.c"
prop("C28", "DNS calls run one at a time on the helper thread and return their own result",
 "hev_task_dns_getaddrinfo and getnameinfo return the resolver's result and error for the caller's own arguments, concurrent calls of several tasks are served one at a time in full without mixing their data, and if the helper cannot be set up they fail with a resolver error and release everything. The caller's wait ends only after its call has been completed.",
 ["schedules", "fault_sequences"], "all interleavings of several calling tasks and the helper, failures at every step",
 "The only DNS test needs a network.",
 [DNS, "src/lib/dns/hev-task-dns.c", "src/kern/aide/hev-task-aide.c"],
 [("one pending call at a time guarded by a task mutex, answered over a socket pair", DNS)], [], ["hev_task_dns_getaddrinfo", "hev_task_dns_getnameinfo"])
prop("C29", "A task's registers and locals survive being switched out",
 "When a task gives up the CPU and is later resumed, its local variables, callee-saved registers and stack contents are as it left them, and a task's first run starts its entry function with its own argument on its own stack.",
 ["schedules"], "all switch points",
 "Tests would only crash in the most blatant cases.",
 ["src/arch/x86/hev-task-execute-x86_64.s", SCH, "src/kern/task/hev-task-executer.c"],
 [("_setjmp/_longjmp and the architecture's stack switch", SCH)], [], ["hev_task_yield"])
prop("C30", "Every runnable task with bounded-priority competitors eventually runs",
 "If tasks keep giving up the CPU, every runnable task is eventually run as long as no competing task has priority 0; with equal priorities each task runs about equally often.",
 ["histories", "schedules"], "all infinite schedules",
 "A test can only observe a finite prefix.",
 [SCH], [("virtual time grows with each slice", SCH)], [], ["order in which tasks run"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
