#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw}})

CH = "futures-channel/src/"
U = "futures-util/src/"
EX = "futures-executor/src/"

prop("C01", "One-shot channel delivers its value exactly once or reports cancellation",
 "For every interleaving of the two ends, a value accepted by a one-shot sender is either received exactly once, handed back to the sender, or dropped with the channel; it is never duplicated, lost while the receiver is still listening, or invented. The receiver sees cancellation only if the sender was dropped without a value having been sent (or the receiver closed first), and the sender observes cancellation exactly when the receiver has closed or gone away.",
 ["schedules","programs"], "all interleavings of send / drop / is_canceled / poll_canceled with poll / try_recv / close / drop of the receiver on two threads",
 "The tests run the two ends mostly sequentially or let the OS choose one schedule; the races between send and close/drop need specific interleavings of three try-locks.",
 [CH+"oneshot.rs", CH+"lock.rs"], [("Inner::send re-check of complete after storing", CH+"oneshot.rs"), ("Inner::recv / try_recv / close_rx / drop_tx / drop_rx", CH+"oneshot.rs"), ("TryLock", CH+"lock.rs")])

prop("C02", "Channel messages arrive exactly once and in per-sender order",
 "In the bounded and the unbounded multi-producer channel every message whose send succeeded is delivered to the receiver exactly once, never invented and never duplicated, as long as the receiver keeps receiving. Two messages such that the first send finished before the second began (in particular two messages of one sender) are delivered in that order.",
 ["schedules","programs"], "all interleavings of any number of senders (and clones) with the receiver",
 "Stress tests sample OS schedules; the window in which a message is pushed but not yet linked, or in which the state word and the queue disagree, is a few instructions wide.",
 [CH+"mpsc/mod.rs", CH+"mpsc/queue.rs"], [("intrusive queue push/pop and the Inconsistent state", CH+"mpsc/queue.rs"), ("queue_push_and_signal, next_message", CH+"mpsc/mod.rs")])

prop("C03", "Bounded channel enforces its capacity and returns it",
 "A bounded channel never holds more undelivered messages than its buffer size plus its number of senders; a send beyond the sender's allowance is refused with the message handed back intact, and a sender is refused only after its own latest message overfilled the buffer and until receives have released it again. Each received message releases the longest-waiting sender, so no sender is refused once every message was received.",
 ["schedules","programs","configurations"], "all buffer sizes including 0, numbers of senders, and interleavings of try_send/poll_ready/start_send/clone/drop with receives",
 "Tests check a few fixed sequences; capacity leaks or overshoots need a race between parking a sender and popping a message.",
 [CH+"mpsc/mod.rs", CH+"mpsc/sink_impl.rs"], [("BoundedSenderInner::do_send_b / park / poll_unparked / inc_num_messages", CH+"mpsc/mod.rs"), ("Receiver unpark_one and num_messages decrement", CH+"mpsc/mod.rs")])

prop("C04", "Closing or disconnecting a channel ends it cleanly without losing messages",
 "After the receiver closes a channel, or all senders are gone or one disconnects it, messages already accepted are still delivered, and only then (and then always) does the receiver report the end; the end is never reported while a sender is live and the channel is open. From the close on, every send fails as disconnected and hands its message back, and the senders' closed/disconnected queries agree with this. A sender tells truthfully whether it is connected to a given receiver, or to the same receiver as another sender.",
 ["schedules","programs"], "all interleavings of close, close_channel, disconnect, sender drop, receiver drop with sends and receives",
 "The race between the last sender's drop (or close) and a concurrent send/receive is not driven by any test.",
 [CH+"mpsc/mod.rs", CH+"mpsc/sink_impl.rs"], [("set_closed, close_channel, Drop for senders, Drop for Receiver draining", CH+"mpsc/mod.rs")])

prop("C05", "Channel operations never lose a wake-up",
 "Whenever a channel operation returned pending to a task (receiving, waiting for send capacity, waiting for cancellation) and the operation later becomes able to complete (for a sender waiting for capacity: once receives released it or the receiver closed), the waker most recently registered by that task for that operation has been woken, so a system in which every woken task is re-polled never stays blocked while progress is possible.",
 ["schedules","programs"], "all interleavings of polls, waker changes and peer operations on one-shot, bounded and unbounded channels",
 "A lost wake-up shows only in one narrow interleaving and then as a hang; tests with real threads almost never hit it.",
 [CH+"mpsc/mod.rs", CH+"oneshot.rs", "futures-core/src/task/__internal/atomic_waker.rs"], [("recv_task registration then re-check", CH+"mpsc/mod.rs"), ("sender parking and unpark_one", CH+"mpsc/mod.rs"), ("rx_task/tx_task handshakes", CH+"oneshot.rs")])

prop("C06", "AtomicWaker never loses a wake-up",
 "If a task registers a waker and a wake call happens after, or concurrently with, that registration, then either that call wakes the most recently registered waker, or the registering task is itself able to see whatever the waking side wrote before calling wake. A wake with no registered waker and no concurrent registration wakes nobody, and every stored waker is dropped or woken exactly once.",
 ["schedules","programs"], "all interleavings of one registering task with any number of concurrent wake/take calls",
 "The three-bit hand-off protocol has races that depend on one instruction's placement; the crate's test runs a single stress loop.",
 ["futures-core/src/task/__internal/atomic_waker.rs"], [("register / wake / take state machine", "futures-core/src/task/__internal/atomic_waker.rs")])

prop("C07", "Async mutex: mutual exclusion and no stranded waiters",
 "At most one guard (including mapped and owned guards) of an asynchronous mutex exists at any time, try_lock succeeds exactly when it is free, and a waiting task is woken after every release so that a free mutex never leaves all its waiters asleep, even when waiting lock futures or woken lock futures are dropped before they are polled again.",
 ["schedules","programs"], "all interleavings of lock, try_lock, unlock, guard mapping, and dropping lock futures at any point",
 "Tests use a handful of tasks with OS schedules and never drop a lock future at the critical moment.",
 [U+"lock/mutex.rs"], [("poll_lock, unlock, remove_waker hand-over", U+"lock/mutex.rs")])

prop("C08", "Two-way lock and split halves: exclusive access, no lost wake-up, reunite",
 "The two halves produced by splitting a stream+sink or an I/O object (and the two handles of a two-way lock) never use the shared object at the same time, and a half that had to wait is woken when the other releases. Reads/items and writes pass through a split unchanged and in order, and reuniting succeeds exactly for two halves of the same object and gives back that object.",
 ["schedules","programs"], "all interleavings of the two handles on two threads and all operation sequences on the halves",
 "The hand-off stores a boxed waker in one atomic word; missing it needs a precise interleaving. Reunite of foreign halves is only sampled.",
 [U+"lock/bilock.rs", U+"stream/stream/split.rs", U+"io/split.rs"], [("BiLock::poll_lock / unlock", U+"lock/bilock.rs"), ("SplitSink slot + SplitStream", U+"stream/stream/split.rs"), ("ReadHalf/WriteHalf", U+"io/split.rs")])

prop("C09", "Shared future: one execution, same output for every clone, nobody stranded",
 "A shared future is driven by one clone at a time and completes once; every clone then yields a clone of that single output, and peeking shows it. As long as at least one clone is being re-polled when woken, every clone waiting on it is woken when the inner future makes progress, whatever clones are dropped in between. Clones know each other as such, the counts of strong and weak handles are right, and a weak handle can be upgraded exactly while a clone is left.",
 ["schedules","programs"], "all interleavings of polls, drops and clones of handles with wake-ups of the inner future",
 "The tests cover single-threaded clones and one threaded case; the interaction of notify, polling state and clone drop is schedule dependent.",
 [U+"future/future/shared.rs"], [("Shared::poll state word and Notifier wakers slab", U+"future/future/shared.rs")])

prop("C10", "Aborting and remote handles: abort takes effect, results are relayed once",
 "Once abort has been called, the abortable future or stream finishes as aborted at its next poll and its waiting task is woken, its inner computation is not polled again after abort was observed, and is-aborted queries agree. A remote handle receives exactly the output (or panic) of its computation once, dropping the handle cancels the computation at its next poll, and forgetting it lets the computation run to completion.",
 ["schedules","programs"], "all interleavings of abort/forget/drop of the handle with polls of the computation",
 "The register-then-recheck in the poll path against a concurrent abort has a one-step window that no test drives.",
 [U+"abortable.rs", "futures-util/src/future/future/remote_handle.rs", U+"future/abortable.rs"], [("AbortInner waker + aborted flag", U+"abortable.rs"), ("Remote / RemoteHandle over a one-shot channel with keep_running", U+"future/future/remote_handle.rs")])

prop("C11", "FuturesUnordered yields every future's output exactly once and misses no wake-up",
 "Every future pushed into an unordered set (also while it is being polled, also by its iterator/select-all wrappers) has its output yielded exactly once and nothing else is yielded; the set reports its end exactly when it is empty, and length, emptiness and iteration always reflect the unfinished members. A member is polled only when newly added or woken since its last poll, and a member woken from any thread at any moment makes the set's waiting task wake and the member be polled again.",
 ["schedules","programs"], "all interleavings of wakes (on other threads, during poll, duplicated, after completion) with push, poll, clear and drop of the set",
 "The ready queue and the queued flag race with concurrent wakers; unit tests wake only at a few sequential points.",
 [U+"stream/futures_unordered/mod.rs", U+"stream/futures_unordered/task.rs", U+"stream/futures_unordered/ready_to_run_queue.rs", U+"stream/futures_unordered/iter.rs"], [("poll_next loop, Bomb, queued/woken flags", U+"stream/futures_unordered/mod.rs"), ("Task::wake_by_ref_raw", U+"stream/futures_unordered/task.rs"), ("ReadyToRunQueue enqueue/dequeue", U+"stream/futures_unordered/ready_to_run_queue.rs")])

prop("C12", "Ordered collections return outputs in submission order",
 "The ordered future queue, buffered (and try_buffered) streams, and the join-all family return results in the order in which the futures were submitted (front insertions first), whatever order they complete in, with no result lost, duplicated or swapped; the fallible variants stop with the error they met and yield nothing wrong before it.",
 ["inputs","histories","programs"], "all completion orders, push_back/push_front/extend/pop interleavings and sizes (below and above the small-collection threshold)",
 "Tests check a few completion orders of two or three futures.",
 [U+"stream/futures_ordered.rs", U+"stream/stream/buffered.rs", U+"stream/try_stream/try_buffered.rs", U+"future/join_all.rs", U+"future/try_join_all.rs"], [("outgoing index heap", U+"stream/futures_ordered.rs"), ("JoinAll small/big modes", U+"future/join_all.rs")])

prop("C13", "Concurrency-limited combinators respect and use their limit",
 "buffered, buffer_unordered, flatten_unordered, for_each_concurrent and their fallible variants never have more unfinished futures (or sub-streams) than the configured limit in flight, start new ones as long as the limit allows and input is available, process every input exactly once, and finish only when the input has ended and all started work is finished (or the first error was reported).",
 ["inputs","histories","configurations"], "all limits (including unlimited), readiness patterns and completion orders",
 "Tests exercise one or two limits with one readiness pattern; off-by-one admission needs a particular mix of pending and ready.",
 [U+"stream/stream/buffered.rs", U+"stream/stream/buffer_unordered.rs", U+"stream/stream/for_each_concurrent.rs", U+"stream/stream/flatten_unordered.rs", U+"stream/try_stream/try_buffered.rs", U+"stream/try_stream/try_buffer_unordered.rs", U+"stream/try_stream/try_for_each_concurrent.rs", U+"stream/try_stream/try_flatten_unordered.rs"], [("admission loops before polling the in-progress set", U+"stream/stream/buffer_unordered.rs")])

prop("C14", "Single-threaded executors run every task and never sleep through a wake-up",
 "block_on, the local pool and blocking stream iteration poll every spawned task at least once, re-poll a task whenever it was woken (from any thread, at any moment), return only when their completion condition holds (main future done, all tasks done, one task done, or nothing can progress but by wake-ups still under way on other threads), and never sleep while a woken task exists. Nested blocking execution on the same thread is refused, and afterwards the thread can be used again.",
 ["schedules","programs"], "all interleavings of foreign-thread wakes and spawns with the executor's check-then-park sequence",
 "Park/unpark races need a wake between the check and the park; tests rely on luck.",
 [EX+"local_pool.rs", EX+"enter.rs"], [("run_executor unparked flag and park", EX+"local_pool.rs"), ("enter guard", EX+"enter.rs")])

prop("C15", "Thread pool runs every spawned task, one thread at a time, never losing a wake",
 "Every task spawned on a live thread pool is polled until it completes, is never polled by two threads at once, and is polled again after any wake, including one that arrives while it is being polled. Pool size and the start/stop callbacks are honoured once per worker, and dropping the last handle lets the workers finish queued tasks' wake-ups and exit.",
 ["schedules","programs","configurations"], "all interleavings of spawns, wakes and worker steps",
 "The poll/repoll state word race is a few instructions wide; tests only count completions.",
 [EX+"thread_pool.rs", EX+"unpark_mutex.rs"], [("UnparkMutex start_poll / wait / notify", EX+"unpark_mutex.rs"), ("PoolState::work", EX+"thread_pool.rs")])

prop("C16", "Join combinators wait for all parts and return each result in its place",
 "join, join_all, the join! macro and their fallible versions complete exactly when all parts completed (fallible: or as soon as one part fails, with that error), return every part's own output in its position, never poll a part again after it finished, and poll every part at first and again after it was woken.",
 ["inputs","histories"], "all readiness patterns, failure positions and numbers of parts",
 "Tests use immediately ready futures or one pending pattern.",
 [U+"future/join.rs", U+"future/try_join.rs", U+"future/join_all.rs", U+"future/try_join_all.rs", U+"future/maybe_done.rs", U+"future/try_maybe_done.rs", "futures-macro/src/join.rs"], [("per-part MaybeDone polling", U+"future/join.rs")])

prop("C17", "Select combinators return the first ready branch and lose nothing",
 "select, select_all, select_ok, try_select and the select macros complete as soon as any branch is ready, with that branch's output and with all other branches returned or left intact and resumable; they are pending only if every live branch was polled and is pending. Biased forms prefer the earliest ready branch, completed or terminated branches are never polled again, and the complete/default arms run exactly when all branches are terminated / none is ready.",
 ["inputs","histories","programs"], "all readiness patterns over the branches, repeated selects over the survivors",
 "Tests sample a few patterns; random branch order hides order-dependent faults.",
 [U+"future/select.rs", U+"future/select_all.rs", U+"future/select_ok.rs", U+"future/try_select.rs", "futures-macro/src/select.rs", U+"async_await/select_mod.rs", U+"async_await/random.rs"], [("Select::poll taking both futures", U+"future/select.rs"), ("select! expansion", "futures-macro/src/select.rs")])

prop("C18", "Stream adapters equal their sequence-level meaning",
 "For every source stream and every pattern of pending polls, a stream adapter or consumer (map, filter, take, skip, chunks, zip, scan, flatten, peek, fold, collect, and the rest) produces exactly the items its iterator counterpart would produce on the same items, calls its closure on exactly the items the meaning requires in order, and takes no more items from the source than it needs. Pending polls and re-polls change neither the items nor their order.",
 ["inputs","histories"], "all source contents and pending patterns, all closure behaviours (pending and ready inner futures)",
 "Tests check each adapter on one or two always-ready streams.",
 [U+"stream/stream/mod.rs", U+"stream/stream/", U+"stream/iter.rs", U+"stream/unfold.rs", U+"stream/repeat.rs", U+"stream/once.rs", U+"stream/poll_fn.rs"], [("poll_next of each adapter, in-flight item kept across Pending", U+"stream/stream/")])

prop("C19", "Fallible adapters pass errors through in position and stop where documented",
 "Fallible stream and future adapters treat successes exactly as their infallible counterparts treat items, deliver each source error in its position, apply success closures only to successes and error closures only to errors, and short-circuiting consumers return the first error without taking further items or calling further closures.",
 ["inputs","histories"], "all mixes of successes, errors and pending polls, from the source and from the closures' futures",
 "Tests place one error at one position and rarely combine it with pending.",
 [U+"stream/try_stream/", U+"future/try_future/"], [("poll_next / try_poll of each fallible adapter", U+"stream/try_stream/")])

prop("C20", "Merging streams loses nothing, keeps each input's order and starves no input",
 "Merging combinators (select, select with a strategy, select_all, flatten_unordered, the stream_select! macro) yield exactly the union of their inputs' items, each input's items in order, end exactly when all inputs ended, and poll no input after it ended. With inputs that are always ready the round-robin forms take from every live input regularly, and a strategy is obeyed.",
 ["inputs","histories"], "all contents, pending patterns and wake orders of the inputs",
 "Tests check two short always-ready inputs.",
 [U+"stream/select.rs", U+"stream/select_with_strategy.rs", U+"stream/select_all.rs", U+"stream/stream/flatten_unordered.rs", "futures-macro/src/stream_select.rs"], [("poll_inner both sides", U+"stream/select_with_strategy.rs")])

prop("C21", "Stream size hints bracket the number of remaining items",
 "At every moment, also between pending polls and while an item is held back, the lower bound of a combinator's size hint is at most, and its upper bound (if any) at least, the number of items the stream will still yield, provided its sources' hints are correct.",
 ["inputs","histories"], "all adapters, source lengths, hints and poll positions",
 "Tests check hints at construction for few adapters, never mid-stream with an item in flight.",
 [U+"stream/", "futures-core/src/stream.rs"], [("size_hint of each adapter accounting for held-back items", U+"stream/stream/")])

prop("C22", "Termination flags are truthful",
 "When a fused stream or future combinator reports itself terminated it never again yields an item or output, and a stream or future documented as fused reports termination once it has returned its end or output; fuse-wrapped streams and futures keep returning their end (or pending) and never poll the wrapped one again.",
 ["inputs","histories"], "all adapters implementing the fused traits, polled beyond their end, with pending patterns",
 "Tests check a few adapters at one point.",
 [U+"stream/", U+"future/", "futures-core/src/stream.rs", "futures-core/src/future.rs"], [("is_terminated of each adapter", U+"stream/stream/fuse.rs"), ("future Fuse", U+"future/future/fuse.rs")])

prop("C23", "A pending combinator is always woken when any of its inputs can progress",
 "Whenever a combinator (future, stream, sink or I/O adapter) returns pending, waking any input that it left pending wakes the task of its most recent poll, or the combinator has already arranged to be polled again. It never returns pending while it holds a result it could return and no wake-up is arranged.",
 ["inputs","histories","schedules"], "all combinators, all pending patterns, every choice of which input wakes, new waker on every poll",
 "Tests poll with one no-op waker or run under an executor which hides stale wakers.",
 [U+"stream/", U+"future/", U+"sink/", U+"io/"], [("context propagation in every poll function", U+"stream/stream/"), ("parent waker registration", U+"stream/futures_unordered/mod.rs")])

prop("C24", "Sink adapters forward every item in order and flush and close completely",
 "Every item accepted by a sink adapter reaches the underlying sink(s) exactly once, transformed as documented and in acceptance order; an adapter hands an item down only after the underlying sink said it was ready, a completed flush or close means every accepted item has been handed down and the underlying sink flushed or closed, and a bounded buffer never exceeds its capacity. Errors of the underlying sink are reported and never silently skip an item.",
 ["inputs","fault_sequences","histories"], "all item sequences and all patterns of pending/error from the underlying sinks",
 "Tests use always-ready sinks.",
 [U+"sink/", U+"stream/stream/forward.rs", "futures-sink/src/lib.rs"], [("Buffer drain before ready/flush/close", U+"sink/buffer.rs"), ("Fanout, WithFlatMap, Send/SendAll/Feed/Flush/Close", U+"sink/"), ("Forward buffered item", U+"stream/stream/forward.rs")])

prop("C25", "Asynchronous reading yields exactly the source's bytes",
 "Through any reading adapter (buffered reader, take, chain, read, read_exact, read_to_end, read_to_string, read_until, read_line, lines, copy, stream-backed readers, cursors) the bytes delivered are exactly a contiguous, in-order part of the source's bytes as documented, whatever sizes, interruptions and pending polls the source makes; limits and delimiters are respected exactly, invalid text never reaches a string, and a premature end or error is reported as documented without losing earlier accounted bytes.",
 ["inputs","fault_sequences","histories"], "all source contents, chunkings, pending, interrupted and error patterns, buffer sizes",
 "Tests use a few chunkings of short literals.",
 [U+"io/"], [("BufReader fill/consume", U+"io/buf_reader.rs"), ("read_until / read_line / lines accumulation across Pending", U+"io/read_until.rs"), ("Take limit, Chain switch", U+"io/take.rs"), ("IntoAsyncRead", U+"stream/try_stream/into_async_read.rs")])

prop("C26", "Asynchronous writing puts every accepted byte out once, in order",
 "Through any writing adapter (buffered writer, line writer, write_all, vectored writes, copy, sink-backed writers) the underlying writer receives exactly the accepted bytes, in order and once, whatever short writes, pending polls and errors it makes; after a completed flush or close all accepted bytes have been written and the writer flushed or closed. A reported error or dropped operation never causes bytes to be written twice or skipped, and seeking accounts for buffered data.",
 ["inputs","fault_sequences","histories"], "all write sizes, buffer capacities, short-write, pending and error patterns",
 "Tests use few patterns of a writer that is always or alternately ready.",
 [U+"io/buf_writer.rs", U+"io/line_writer.rs", U+"io/write_all.rs", U+"io/copy.rs", U+"io/copy_buf.rs", U+"io/copy_buf_abortable.rs", U+"io/into_sink.rs", U+"io/seek.rs"], [("flush_buf written counter", U+"io/buf_writer.rs"), ("LineWriter last newline logic", U+"io/line_writer.rs"), ("CopyBuf amount", U+"io/copy_buf.rs")])

prop("C27", "Values and futures are dropped exactly once, also on cancellation",
 "Every item, output, closure, future and waker handed to the library is either given back to the user or dropped exactly once, and nothing is dropped while still in use, at whatever point combinators, channels, executors or sets are dropped. Dropping a channel's receiver or a task set releases queued messages and unfinished futures even if wakers or senders outlive it.",
 ["programs","schedules","crash_points"], "dropping every component after every prefix of its operations, also concurrently with wakes and sends",
 "Tests never drop at most intermediate points.",
 [CH, U, EX, "futures-task/src/"], [("Receiver drop drain, queue drop", CH+"mpsc/mod.rs"), ("FuturesUnordered release_task / drop / clear", U+"stream/futures_unordered/mod.rs"), ("FutureObj drop", "futures-task/src/future_obj.rs")])

prop("C28", "Future adapters equal their functional meaning",
 "For every pattern of pending polls, a future adapter (map, then, and_then, flatten, into_stream, fuse, inspect, option, either, maybe-done, lazy, unit conversions and the rest) yields the output of the corresponding plain function composition, calls its closure at most once and only when its input is ready, and polls each constituent future only until that future has finished.",
 ["inputs","histories"], "all pending patterns, outputs and closure results",
 "Tests use immediately ready futures.",
 [U+"future/"], [("state machines of Map / Flatten / TryFlatten / MaybeDone", U+"future/")])

prop("C29", "Panics are contained and reported where promised",
 "A panic of user code inside a caught future or stream becomes an error result followed by the end, a panic relayed by a remote handle re-surfaces at the handle, a panicking member of an unordered set or shared future is not polled again and leaves the container consistent and droppable, and a panic never leads to double drops or a second poll of the panicked future.",
 ["fault_sequences","programs"], "a panic at any poll of any user future or closure followed by any continuation",
 "Only catch_unwind itself is tested for one case.",
 [U+"stream/stream/catch_unwind.rs", U+"future/future/catch_unwind.rs", U+"future/future/shared.rs", U+"stream/futures_unordered/mod.rs", U+"future/future/remote_handle.rs"], [("Bomb guard", U+"stream/futures_unordered/mod.rs"), ("Reset guard to POISONED", U+"future/future/shared.rs")])

prop("C30", "Synchronising operations publish earlier writes",
 "Whatever a thread wrote before sending a message, completing a one-shot, releasing a lock, waking a task or aborting is visible to the thread that receives that message, acquires that lock, runs because of that wake or observes that abort; data handed from one thread to another through the library is never accessed without such an ordering between the two accesses.",
 ["schedules"], "all interleavings, under the language's memory model rather than one machine's",
 "Tests run on strongly ordered hardware, where a missing ordering never shows.",
 ["futures-core/src/task/__internal/atomic_waker.rs", CH+"lock.rs", CH+"oneshot.rs", CH+"mpsc/mod.rs", CH+"mpsc/queue.rs", U+"lock/", U+"stream/futures_unordered/", U+"abortable.rs", EX+"unpark_mutex.rs", EX+"local_pool.rs"], [("acquire/release orderings on the atomics of each protocol", "futures-core/src/task/__internal/atomic_waker.rs")])

prop("C31", "Pinned inputs stay in place from their first poll until they are dropped",
 "Once the library has polled a future, stream, sink or I/O object that it holds without requiring it to be movable, that object stays at the same address until it is dropped there: no combinator, collection (also while it grows, shrinks, completes members out of order, is cleared or iterated), task set, channel adapter or executor moves it between polls or before dropping it.",
 ["histories","schedules"], "all operation histories of the containers and all poll / drop points of the adapters, also while other tasks wake members",
 "Violations are silent for ordinary test futures, which do not notice that they were moved.",
 [U+"future/", U+"stream/", U+"sink/", U+"io/", EX], [("pin projections and Pin::set of the state machines", U+"future/"), ("Task allocation and UnsafeCell future", U+"stream/futures_unordered/task.rs"), ("JoinAll / TryJoinAll pinned boxed slices", U+"future/join_all.rs")])

prop("C32", "The 0.1 compatibility layer is transparent",
 "A future, stream, sink, reader or writer taken to the futures 0.1 interface and back behaves as the original: the same items, outputs, errors, bytes and end in the same order, one accepted item at most held back by a sink until it is ready, flushed or closed, and a pending answer always leaves the latest task registered so that it is woken. Tasks spawned through either executor adapter run the spawned future exactly once.",
 ["inputs","histories","fault_sequences"], "all scripts of pending polls, items, errors and ends of the wrapped object and all operation sequences of its user, at any nesting of the conversions",
 "Tests convert a handful of immediately ready objects.",
 [U+"compat/compat01as03.rs", U+"compat/compat03as01.rs", U+"compat/executor.rs"], [("Compat01As03Sink buffer and close_started", U+"compat/compat01as03.rs"), ("NotifyWaker / WakerToHandle", U+"compat/compat01as03.rs"), ("Current as a waker", U+"compat/compat03as01.rs")])

prop("C33", "Wakers and future objects built from user types keep exact ownership",
 "A waker made from a shared wake object, borrowed from one, or cloned any number of times keeps that object alive exactly as long as a handle exists, delivers each wake call to that object exactly once (by value through its by-value method), and claims to wake the same task only if it does; the inert waker does nothing. A boxed, pinned or borrowed future erased into a future object polls and yields as the original and is dropped exactly once if owned and not at all if borrowed. Spawning through any kind of reference to a spawner reaches it once and reports its errors.",
 ["programs","histories"], "all sequences of creating, borrowing, cloning, assigning, waking and dropping handles, and of polling, converting and dropping future objects",
 "Tests count a few clones in one fixed order.",
 ["futures-task/src/waker.rs", "futures-task/src/waker_ref.rs", "futures-task/src/arc_wake.rs", "futures-task/src/noop_waker.rs", "futures-task/src/future_obj.rs", "futures-task/src/spawn.rs", U+"task/spawn.rs"], [("raw waker vtable: clone / wake / wake_by_ref / drop reference counts", "futures-task/src/waker.rs"), ("ManuallyDrop waker of waker_ref", "futures-task/src/waker_ref.rs"), ("UnsafeFutureObj implementations", "futures-task/src/future_obj.rs")])

prop("C34", "Test helpers inject only the disturbances they promise",
 "The testing wrappers are transparent apart from what they promise: pending_once and interleave_pending answer pending exactly where stated and wake the task themselves before polling the wrapped object again, limited readers and writers never pass on more than the limit, the closed tracker reports closed exactly after a successful close, the movement assertion adds nothing, counting wakers count every wake, panicking wakers panic exactly on wakes, and the recording, discarding and panicking spawners keep, drop or reject exactly what they are given.",
 ["inputs","histories"], "all scripts of the wrapped object and all operation sequences of its user",
 "The helpers are themselves only used by tests, with few patterns.",
 ["futures-test/src/interleave_pending.rs", "futures-test/src/track_closed.rs", "futures-test/src/assert_unmoved.rs", "futures-test/src/future/pending_once.rs", "futures-test/src/io/limited.rs", "futures-test/src/task/"], [("InterleavePending::poll_with", "futures-test/src/interleave_pending.rs"), ("WakerInner count", "futures-test/src/task/wake_counter.rs")])

for p in P: print(json.dumps(p))
