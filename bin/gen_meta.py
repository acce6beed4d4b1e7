#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand; both are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
import plan
E = "framework/core/src/concurrency/executor/"
EH = "framework/core/include/plain/concurrency/executor/"
RH = "framework/core/include/plain/concurrency/result/"
RD = "framework/core/src/concurrency/result/detail/"
N = "framework/core/src/net/"
NH = "framework/core/include/plain/net/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), tech=tech, note=note))
SCHED = "stateless model checking of the real code under a controlled scheduler (all interleavings within a preemption bound)"
SEQ = "exhaustive enumeration of operation and data sequences on the real code against a reference model"
MCN = "Bounded: all schedules of the scenarios' threads up to the preemption/early-timeout bounds in the evidence, on the code compiled from /repo, with data races, use-after-free, deadlocks and std::terminate as violations. Trusts the checker's runtime and assumes sequentially consistent atomics."
SQN = "Bounded: every operation/data sequence of the stated alphabets and depths, run on the code compiled from /repo with ASan+UBSan, compared with an independent reference. Trusts the harness."
TST = "The unit tests run one schedule per call, mostly with sleeps, and never explore "

prop("C01", "Thread pool runs every accepted task exactly once on its own threads",
 "A task that a thread pool accepts (posted singly, in bulk, from outside, from one of its own tasks or from a task of another pool) is executed exactly once, on a thread of that pool, as long as the pool is not shut down, and never waits forever while a worker is available. This holds across idle workers retiring and being respawned, tasks donated between workers, and tasks that throw.",
 ["schedules", "programs"], "every interleaving of posting threads, workers, idle timeouts and shutdown; every way of posting",
 TST + "a worker retiring between a poster's look at it and the enqueue, or posts across pools.",
 [E + "thread_pool.cc", EH + "thread_pool.h", E + "basic.cc"],
 [("private/public queues, idle bitmap, task donation", E + "thread_pool.cc (ThreadPoolWorker, IdleWorkerSet)"), ("found/abort flags under the worker lock", E + "thread_pool.cc (wait_for_task, shutdown)")],
 ["thread on which the callable runs", "number of runs and destructions of the callable"], SCHED, MCN,
 [("status", "idle / active state of a worker", E + "thread_pool.cc (IdleWorkerSet)")])
prop("C02", "Worker-thread executor runs accepted tasks once, in order, on one thread",
 "Everything a worker-thread executor accepts runs exactly once, on one and the same thread, and the tasks of one poster run in the order in which they were posted, including tasks posted from inside a task. A post that is refused never runs.",
 ["schedules", "programs"], "every interleaving of posters, the worker and shutdown",
 TST + "nested posts racing with outside posts or with shutdown.",
 [E + "worker_thread.cc", EH + "worker_thread.h"], [("private/public queue pair and semaphore", E + "worker_thread.cc")], ["order and thread of execution"], SCHED, MCN)
prop("C03", "Thread and inline executors run every accepted task once, where they promise",
 "The thread executor runs each accepted task exactly once on a thread of its own, and its shutdown returns only after every accepted task has finished and every thread is joined. The inline executor runs a task in the posting thread before the post returns.",
 ["schedules"], "every interleaving of posters, task threads and shutdown",
 TST + "posts racing with shutdown and with threads that finish.",
 [E + "thread.cc", EH + "thread.h", EH + "inline.h"], [("worker list, last retired list, condition", E + "thread.cc")], ["threads created and joined", "number of runs"], SCHED, MCN)
prop("C04", "Manual executor runs tasks only when driven, in order, with exact counts",
 "A manual executor runs a task only inside a loop call, in the order of posting and exactly once, and every loop, wait, clear and size call returns the count or answer that the queue's history implies. Waiters are woken by a task, a timeout or a shutdown, and never sleep through either.",
 ["schedules", "programs", "histories"], "every operation sequence up to the bound, and every interleaving of posters, loopers, waiters and shutdown",
 "Tests check a handful of call sequences and sleep instead of exploring wake-up races.",
 [E + "manual.cc", EH + "manual.h"], [("task deque under lock and condition", E + "manual.cc")], ["return values", "order of execution"], SCHED, MCN)
prop("C05", "Shutdown is final, joins everything and strands nobody",
 "Shutting an executor down returns, leaves no thread of it running, and from then on every post, submit or loop on it fails with an error instead of being silently accepted or run later. Work that was accepted but not run is destroyed once and anyone waiting for its result gets an interruption error rather than waiting forever.",
 ["schedules"], "every interleaving of shutdown (also repeated) with posts, submits, bulk submits, resumptions and waits, on every kind of executor",
 TST + "a post that passes the shutdown check just before the queue is torn down.",
 [E + "thread_pool.cc", E + "worker_thread.cc", E + "thread.cc", E + "manual.cc", "framework/core/src/concurrency/task.cc", RH + "resume_on.h"],
 [("abort flags, queue drain, join", E + "*.cc (shutdown)"), ("interrupted awaiters", "framework/core/include/plain/concurrency/result/detail/config.h, " + EH + "basic.h")],
 ["return of shutdown", "errors at post/submit/get", "destruction of callables"], SCHED, MCN)
prop("C06", "Every submitted callable delivers its own result exactly once",
 "The result of each submit or bulk submit becomes ready exactly once with the value or the exception of exactly that callable, in the position it was submitted, on every kind of executor and from any thread. The callable is run at most once and destroyed exactly once.",
 ["schedules", "programs"], "every interleaving of submitters, workers and readers; every executor kind",
 "Tests submit many tasks in one uncontrolled schedule and cannot see a lost wake-up or a doubled resumption that needs a specific interleaving.",
 [EH + "basic.h", RH + "detail/coroutine_perthread.h", RH + "detail/promises.h", "framework/core/include/plain/concurrency/task.h"],
 [("result coroutine resumed through a Task", EH + "basic.h (submit, bulk_submit)"), ("per-thread accumulation of bulk submits", RH + "detail/promises.h")], ["result values", "runs of each callable"], SCHED, MCN)
prop("R01", "A result is handed from producer to consumer exactly once",
 "Whatever order producer and consumer act in, a result delivers the value, reference or exception that was set, or a broken-task error if the producer goes away, to its single consumer exactly once, and the consumer never hangs, misses the wake-up or reads a half-written value. Timed waits end no later than their deadline, report readiness truthfully and leave the result usable afterwards.",
 ["schedules", "programs"], "every interleaving of set/abandon with get, wait, timed wait, status, co_await, resolve and drop",
 TST + "the hand-over window of the state machine; the timed-wait path is only tested with sleeps.",
 [RH + "detail/state.h", RD + "state.cc", RD + "consumer_context.cc", RH + "promise.h", RH + "basic.h", RH + "detail/producer_context.h"],
 [("process state machine, CAS hand-off", RD + "state.cc"), ("consumer context", RD + "consumer_context.cc")], ["value or exception seen by the consumer", "number of resumptions"], SCHED, MCN,
 [("pc_state_", "who arrived first: idle, consumer set, consumer waiting, producer done", RH + "detail/state.h")])
prop("R02", "Every holder of a shared result gets the same outcome",
 "All copies of a shared result, waited for or awaited from any number of threads before or after completion, see the same value or exception, each waiter is resumed exactly once, and none is forgotten. Dropping copies at any moment, including all of them, neither loses the outcome for the others nor touches freed memory.",
 ["schedules"], "every interleaving of completion with waiting, awaiting, timed waiting and dropping by two consumers in every pair of modes",
 TST + "registration of an awaiter against the completion that empties the list.",
 [RH + "detail/shared_state.h", RD + "shared_state.cc", RH + "shared.h", RH + "shared_awaitable.h"],
 [("awaiter list exchanged for a sentinel at completion", RD + "shared_state.cc")], ["value seen by each consumer", "resumptions per waiter"], SCHED, MCN)
prop("R03", "when_all completes once, after all of its inputs, and gives them all back",
 "A when_all over any number of results becomes ready exactly once, only when every input is ready, resumes on the given executor, and hands back every input with its own value or exception in its position. An empty set is ready at once.",
 ["schedules", "configurations"], "every order and interleaving of input completions, tuple and range form",
 TST + "two inputs completing at the same time as the registration.",
 [RH + "when.h", RD + "consumer_context.cc"], [("countdown of pending inputs", RH + "when.h (when_all awaitable)")], ["readiness and position of inputs"], SCHED, MCN)
prop("R04", "when_any completes once with an input that is ready, leaving the rest usable",
 "A when_any becomes ready exactly once as soon as one input is ready, reports the index of an input that really is ready, and hands back all inputs, each of which can still be waited for and consumed normally. It never hangs although an input completed while it was registering, and never uses memory of a completed when_any.",
 ["schedules"], "every interleaving of the inputs' completions with the registration, the resumption and later use of the inputs",
 TST + "an input completing in the middle of registration or of the rewind.",
 [RH + "when.h", RD + "state.cc", RD + "consumer_context.cc"], [("when_any context: first completer wins, consumers rewound", RD + "consumer_context.cc, " + RD + "state.cc")], ["index, readiness, later values of the inputs"], SCHED, MCN)
prop("R05", "Lazy results, generators and executor hops run each step once, on demand",
 "A lazy result starts only when it is awaited or run, runs once and delivers its value or exception; a generator yields its values in order, propagates an exception at its position and then ends; a coroutine that hops to another executor continues exactly once, on that executor, or is interrupted there if it is shut down. Abandoned coroutines free their frames without running further.",
 ["schedules", "programs"], "every consumption pattern of lazy results and generators; every interleaving of hops with shutdown",
 "Tests use each object in its intended pattern once; abandonment points and shutdown during a hop are not enumerated.",
 [RH + "lazy.h", RH + "detail/lazy_state.h", RH + "generator.h", RH + "detail/generator_state.h", RH + "resume_on.h"],
 [("symmetric transfer and frame ownership", RH + "detail/lazy_state.h"), ("resume_on awaitable", RH + "resume_on.h")], ["order of side effects", "thread of each segment", "frame destruction"], SCHED, MCN)
TQ = "framework/core/src/engine/timer_queue.cc"; TM = "framework/core/src/engine/timer.cc"
prop("T01", "Timers fire on time, exactly as often as they should, on their executor",
 "A one-shot timer fires exactly once and not before its due time; a periodic timer first fires after its due time and then repeatedly until cancelled, each run handed to its executor at least its period after the one before. Callables run on the executor given, timers due earlier are not overtaken by ones due later, and no timer is lost when it is created while the queue is idle, retiring or firing others, or when the executor of another timer is gone.",
 ["schedules", "configurations"], "every interleaving of creations, the queue's thread, its idle timeout and the executors, in virtual time",
 "Tests use real sleeps with generous tolerances, so ordering and lost-wakeup races stay invisible.",
 [TQ, TM, "framework/core/include/plain/engine/timer_queue.h", "framework/core/include/plain/engine/timer.h"],
 [("request queue, deadline-ordered set, condition with idle timeout", TQ), ("deadline bookkeeping of a timer", TM)], ["virtual time and thread of each firing"], SCHED, MCN)
prop("T02", "A cancelled timer never fires again",
 "Once cancelling a timer (by calling cancel, overwriting or destroying its handle) has returned, no further run of its callable begins, even if a firing was already queued on an executor, and cancelling never blocks forever or disturbs other timers. Cancelling is safe from any thread, including from inside a timer's own callable.",
 ["schedules"], "every interleaving of cancel with arming, firing and execution of the queued firing",
 TST + "cancel between the queue's decision to fire and the run of the callable.",
 [TM, TQ], [("cancelled flag checked when the firing runs", TM), ("remove request", TQ)], ["runs after cancel returned"], SCHED, MCN)
prop("T03", "Timer queue shutdown and delays leave nobody waiting",
 "Shutting a timer queue down returns, fires nothing afterwards, and makes later timer and delay requests fail. A delay resumes its waiter exactly once, not early, on the given executor, or with an interruption error when the queue or the executor is shut down first.",
 ["schedules"], "every interleaving of shutdown with creations, firings and pending delays",
 TST + "shutdown while requests are pending whose destruction calls back into the queue.",
 [TQ, "framework/core/include/plain/engine/timer_queue.h"], [("abort flag, drained request queue", TQ + " (shutdown)"), ("delay object promise", "framework/core/include/plain/engine/timer_queue.h (make_delay_object)")], ["return of shutdown", "resumptions of delays"], SCHED, MCN)
SYS = "framework/core/include/plain/sys/thread.h"
prop("S01", "Basic thread pool, task queue and looping threads run everything once",
 "A task enqueued in the basic thread pool or in a task queue runs exactly once and its future delivers its own value or exception; while a worker of the pool is free no task is left waiting, even if the running ones wait for it; destroying the pool or the queue runs everything accepted, ends the threads, and a later enqueue is an error. A task queue may be filled and worked from several threads at once and runs its tasks in order. A thread made by thread::create repeats a function that returns true, ends after false (or after one run of a function without result), and ends after thread::stop at whatever moment that is called.",
 ["schedules", "programs"], "every interleaving of enqueuing threads, workers, destruction and stop",
 "There are no unit tests for these classes.",
 [SYS, "framework/core/src/sys/thread.cc", "framework/core/include/plain/basic/task_queue.h"],
 [("queue with mutex, condition and stop flag", SYS + " (ThreadPool)"), ("locked queue", "framework/core/include/plain/basic/task_queue.h"), ("status table and loop", SYS + " (thread::create, stop)")],
 ["runs of each task", "values of the futures", "threads left"], SCHED, MCN)
LG = "framework/core/src/basic/"
prop("L01", "Every log line reaches the log once, whole and in order",
 "Every log statement at an enabled level yields exactly one line, with its values in order (cut, but still ended by a line feed, if it exceeds the line buffer), whatever characters it contains and from however many threads, printed or not. Every line appended to the asynchronous logger before stop or destruction is in the log files when these return, once, in the order of its thread, also across full buffers (up to 25 waiting; beyond that lines may be dropped, with a note in the log), oversized lines, file rolls and repeated stops; without a stop it is there after the flush interval.",
 ["schedules", "inputs"], "every interleaving of appending threads, the writer thread, its timeout and stop; every short sequence of stream items, line lengths around the buffer sizes",
 "The unit tests only print; nothing reads a log back.",
 [LG + "async_logger.cc", LG + "logger.cc", "framework/core/include/plain/basic/logger.h", "framework/core/src/file/utility.cc", LG + "time.cc"],
 [("front and back buffers swapped under the lock", LG + "async_logger.cc (append, thread_handle, stop)"), ("line buffer", LG + "logger.cc (finish)")],
 ["contents of the log files", "lines given to the output function"], SCHED + " and of operation sequences", MCN)
FI = "framework/core/src/file/"; FH = "framework/core/include/plain/file/"
prop("F01", "An ini file gives back exactly the values written in it",
 "For every ini file, each key=value line below a [section] line is found under that section and key with exactly the text after the equals sign (without a comment after ';', blanks at the end of the line and a carriage return), as string, integer, float or variable; the first value of a repeated key counts and repeated sections are one section. Everything else is reported as missing and yields the default. Opening another file replaces the first. No line length, number of values, name or size of the receiving buffer makes it read or write outside its memory.",
 ["inputs", "histories"], "every file of up to 3 (thorough: 4) lines of a 25-line alphabet including malformed and very long lines; every receiving buffer size class; value counts across every growth of the value buffer; open/close sequences",
 "There are no unit tests for it.",
 [FI + "ini.cc", FH + "ini.h"], [("line parsing", FI + "ini.cc (open, _trimstring, _parsesection, _parsekey)"), ("value buffer with positions", FI + "ini.cc (_add_bufferstring)")], ["values returned", "found or not"], SEQ, SQN)
prop("F02", "A table file gives back every cell, also after saving and reopening",
 "For every table file, each cell of each record (comment lines, empty lines and records without a first cell left out, missing cells empty) is returned by position, by column name, by the index of an integer column and by column search, with its type; anything outside the table is reported as missing. Saved as text or binary and opened again the table is the same (floats to three decimals in text, column names only in text). Opening replaces what was there. Damaged binary files and arbitrary text are refused or read harmlessly.",
 ["inputs"], "every table of up to 2 (thorough: 3) columns and 2 records over 3 types and boundary values, with every line end and kind of junk; every truncation and every boundary change of a word of a binary file; every text of up to 6 characters of a 6-letter alphabet",
 "There are no unit tests for it.",
 [FI + "tab.cc", FH + "tab.h"], [("text and binary reader", FI + "tab.cc (open_from_memory_text, open_from_memory_binary)"), ("writer", FI + "tab.cc (save_tobinary, save_totext)"), ("index", FI + "tab.cc (create_index)")], ["cells, names, types returned"], SEQ, SQN)
prop("N01", "Ring buffers and streams are FIFO byte queues whatever the sequence",
 "Whatever sequence of writes, reads, peeks, removals and clears is applied to a ring buffer or a stream's buffer, across wrap-around and growth, what comes out is exactly what went in, in order, and every count returned is the true one. A fixed ring takes no more than its capacity, a growing one takes everything.",
 ["histories", "inputs"], "every operation sequence up to the depth, sizes around every capacity boundary",
 "Tests write and read small amounts from a fresh buffer and never grow it while wrapped.",
 ["framework/core/include/plain/basic/ring.h", N + "stream/basic.cc"], [("masked head/tail indices, resize", "framework/core/include/plain/basic/ring.h")], ["bytes read", "returned counts"], SEQ, SQN)
prop("N02", "Streams neither lose, double nor reorder bytes under partial socket I/O",
 "However the socket splits, delays or fails reads and writes, the bytes a stream takes in are exactly those received, in order, and the bytes it puts on the wire are exactly a prefix of those written, with the rest kept for later. Would-block is not an error, and a closed or reset connection is reported as one.",
 ["fault_sequences", "histories"], "every placement of short reads/writes, would-block, reset and misreported available bytes in every sequence up to the depth",
 "Loopback sockets in tests practically never return short or would-block results.",
 [N + "stream/basic.cc", N + "socket/basic.cc", N + "socket/api.cc"], [("peek-then-remove on send, count checked on receive", N + "stream/basic.cc (push, pull)")], ["bytes on the wire and in the stream", "return values"], "exhaustive enumeration of socket fault sequences on the real code against a reference model", SQN)
prop("N03", "Packets survive framing and any splitting of the byte stream",
 "Any sequence of packets encoded with the default codec and delivered in pieces cut at any position decodes to the same packets, with ids, data and call kinds intact, and incomplete input is left untouched until the rest arrives. Frames whose id or length is outside the configured limit are refused as soon as their header is there, and no header value makes the decoder read beyond the input.",
 ["inputs", "histories"], "all packet sequences, cut points, buffer offsets, limits and header values of the enumerated sets",
 "Tests decode whole packets from fresh buffers; cut points and limits are not varied.",
 [N + "stream/codec.cc", N + "stream/basic.cc", N + "packet/basic.cc"], [("header peek, length check, remove", N + "stream/codec.cc (encode, decode)")], ["decoded packets", "bytes left in the stream"], SEQ, SQN)
prop("N04", "The line codec returns exactly the lines sent and enforces its limit",
 "Lines ended by a line feed or by carriage return and line feed come back one by one unchanged, however the input is cut, and calls keep their kind and payload. A line longer than the limit is refused instead of being buffered without end, and a line within it is accepted.",
 ["inputs", "histories"], "all line sequences, cut points, limits and boundary payloads of the enumerated sets",
 "Tests send short complete lines only.",
 [N + "stream/codec.cc"], [("search for the line end, call markers", N + "stream/codec.cc (line_decode, line_encode)")], ["decoded lines", "errors"], SEQ, SQN)
prop("N05", "Packets give back the values written, and only with permission",
 "Values written to a packet are read back equal and in order, whatever their types; a packet that is not writeable takes nothing, one that is not readable gives nothing, and its flags are independent. Length prefixes that exceed the packet read nothing and never outside it.",
 ["inputs", "histories"], "all sequences of typed writes/reads, flag changes and length prefixes of the enumerated sets",
 "Tests write one sequence and read it back; flag combinations and damaged prefixes are not covered.",
 [N + "packet/basic.cc", NH + "packet/basic.h", "framework/core/include/plain/basic/endian.h"], [("offset and flag checks", N + "packet/basic.cc")], ["values read", "offset"], SEQ, SQN)
prop("N06", "RPC serialisation gives every value back unchanged",
 "Every value of the supported types (integers, floating point numbers, booleans, strings, byte arrays, sequences, maps, tuples, nested objects, time points) that is packed is unpacked equal to the original when read as the same type, whatever the target held before. Exactly the bytes of the value are consumed, so any sequence of values packed together is read back in order.",
 ["inputs"], "all 8/16 bit integers, all powers-of-two neighbourhoods of wider ones, all exponents of floating point numbers, all size classes of containers, all short sequences of value kinds",
 "Tests check about ten values per type, none negative and small, none equal to a type tag, none below 1.",
 [N + "rpc/packer.cc", N + "rpc/unpacker.cc", NH + "rpc/packer.h", NH + "rpc/unpacker.h"], [("type tags and compact encodings", N + "rpc/packer.cc, " + N + "rpc/unpacker.cc")], ["unpacked values", "bytes consumed"], "exhaustive enumeration of values and value sequences through the real packer and unpacker", SQN)
prop("N07", "Malformed bytes from the network are errors, never damage",
 "Decoding or unpacking truncated or arbitrary bytes never reads or writes outside its buffers, crashes, hangs or builds values out of proportion to the input. Every truncated value sequence is reported as an error.",
 ["inputs"], "every truncation of every value pair; every input up to 2 (thorough: 3) bytes and every first byte with boundary size fields, into every supported type; boundary frame headers and prefixes",
 "One test unpacks one truncated object.",
 [NH + "rpc/unpacker.h", N + "rpc/unpacker.cc", N + "stream/codec.cc", N + "packet/basic.cc"], [("range-checked cursor", NH + "rpc/unpacker.h (data, increment)")], ["error flag", "sanitizer reports"], "exhaustive enumeration of malformed inputs through the real decoders under ASan/UBSan", SQN)
prop("N08", "RPC calls reach the bound function with their arguments and answer its result",
 "A call names a bound function: exactly that function runs once with the caller's arguments and its return value is what the caller unpacks. Calls to unbound or empty names run nothing and are errors, and a name cannot be bound twice until it is unbound.",
 ["histories", "inputs"], "every sequence of bind, unbind and call up to the depth",
 "No unit test exercises the dispatcher's bookkeeping.",
 [NH + "rpc/dispatcher.h", N + "rpc/dispatcher.cc"], [("name to adaptor map", NH + "rpc/dispatcher.h")], ["function run", "result"], SEQ, SQN)
NETN = "Bounded: all schedules of the scenarios (real Connector/Listener/Manager/connection code on a virtual network) up to the bounds in the evidence, with deadlocks, crashes, use-after-free and data races as violations. Trusts the checker's runtime and its virtual network (mcnet/)."
CM = N + "connection/manager.cc"; CB = N + "connection/basic.cc"
prop("N09", "Every remote call ends with its own answer or an error",
 "Each RPC call on a connection completes exactly once: with the answer the peer gave to that very call, whatever order answers come in and whichever threads call, or with an error if the peer reports one, the timeout passes, the connection ends or the network component is stopped. No answer, duplicate, late or unknown, reaches another call or harms the process, and a server answers each request once, with the request's index.",
 ["schedules", "fault_sequences"], "every interleaving of callers, answers, disconnects and stop; every order, duplication and failure of answers",
 "Tests call once over loopback with a well-behaved server; disconnects and races with pending calls never occur.",
 [CB, NH + "connection/basic.h", CM, N + "rpc/dispatcher.cc", NH + "rpc/unpacker.h"],
 [("pending call table under the connection lock", CB + " (send_call, handle_rpc_response, break_calls)"), ("request handling", CB + " (handle_rpc_request)")],
 ["value or exception of each call", "responses on the wire"], SCHED + " on a virtual network", NETN)
prop("N10", "Packets sent on a live connection arrive whole, once and in order",
 "What one side of a live connection sends reaches the other side completely, unmodified, exactly once and in the order sent, with concurrent senders' packets not interleaved, and is dispatched once in that order, also when it arrives in pieces, together with the peer's close, while earlier input is being handled, or on a multi-threaded executor. No wake-up is missed: nothing sent or received stays unprocessed, whichever polling mechanism is used, and broadcasts reach every connected client.",
 ["schedules", "fault_sequences"], "every interleaving of senders, the polling worker, executor threads and the peer; partial sends and reads, would-block, signals",
 "Tests echo a few packets over loopback with sleeps; flag and edge-trigger races need specific interleavings.",
 [CB, CM, N + "connection/epoll.cc", N + "connection/select.cc", N + "stream/basic.cc"],
 [("work flags of a connection", CB + " (process_input, process_output, enqueue_work)"), ("balanced work queue", CM + " (enqueue, work)"), ("edge triggered polling", N + "connection/epoll.cc")],
 ["bytes at the peer", "dispatched packets"], SCHED + " on a virtual network", NETN)
prop("N11", "Connections come and go without loss, leak or inheritance",
 "Every accepted or established connection is reported once when it is there and once when it is gone, whether the peer closes, aborts or is refused by a dispatcher; its slot and descriptor are then free again, other connections are unaffected, and the next connection on the slot starts fresh without name, callbacks, dispatcher or leftovers of the earlier one. Clients beyond the maximum are turned away, failed connects leave nothing behind, and a kept-alive connection works fully again after a reconnect.",
 ["schedules", "histories"], "every interleaving of connects, closes, aborts, packets and reconnects of the scenarios",
 "Tests connect and close in one order with sleeps in between; slot reuse and aborts are not covered.",
 [CM, CB, N + "connector.cc", N + "listener.cc", N + "connection/epoll.cc", N + "connection/select.cc"],
 [("id and slot bookkeeping", CM + " (new_conn, remove)"), ("reset of a reused connection", CB + " (init, clear_work)")],
 ["connect and disconnect callbacks", "open descriptors", "per-connection settings"], SCHED + " on a virtual network", NETN)
prop("N12", "Stopping a network component always returns and is final",
 "Stopping or destroying a connector or listener at any moment - idle, in the middle of sends, receives, accepts or calls, from two threads at once - returns, ends its threads, lets the peers see the end of their connections, runs no dispatcher afterwards, and leaks no descriptor. Sends and calls that race with it fail or are dropped without crashing or hanging the caller.",
 ["schedules"], "every interleaving of stop with senders, incoming data, connecting clients, outstanding calls and a second stop",
 "Tests stop after everything has settled.",
 [CM, N + "connector.cc", N + "listener.cc", CB], [("running flag, control socket, worker join, executor shutdown", CM + " (stop, start, wait_work)")],
 ["return of stop", "dispatches after stop", "open descriptors"], SCHED + " on a virtual network", NETN)
B = "framework/core/src/basic/"; BH = "framework/core/include/plain/basic/"
prop("U01", "The text and path utilities do what they say for every string",
 "Trimming removes exactly the characters of the mask from the ends asked for; replacing replaces every (or the first n) non-overlapping occurrences, of every search text given; quoting with slashes is undone by unquoting; escaping never writes beyond its output and says whether all of it fits; splitting gives every part, with or without the empty ones; directory names, completed and converted paths and created directories are those of the path, with the requested mode; sizes are shown to three digits; numbers survive being split in halves or written as text. None of them hangs or touches memory outside its arguments, also for views that are not followed by a zero byte.",
 ["inputs"], "every string up to 5-7 characters of an alphabet that contains every special character, every mask, key, count and output size; every unit boundary of sizes",
 "There are no unit tests for these functions.",
 [B + "utility.cc", BH + "utility.h"], [("string functions", B + "utility.cc (ltrim, rtrim, str_replace, explode, getescape)"), ("directories", B + "utility.cc (makedir, dirname, complementpath)")], ["results", "sanitizer reports"], SEQ, SQN)
prop("U02", "Every encoding gives back what was encoded, and MD5 is MD5",
 "base64 is that of RFC 4648 and decodes to what was encoded; MD5 is that of RFC 1321 whatever the pieces the data is fed in; bytes written as hexadecimal text are read back; a password (up to 20 printable characters) that the password cipher accepts is decrypted again; a number hidden in a text comes out with the text for every number, text and random seed. Arbitrary or damaged input to the decoders is refused or decoded without touching memory outside it.",
 ["inputs"], "every string up to 2 (thorough: 3) bytes and every length around the block sizes; every split of a message in up to three pieces; every password of up to 2 characters, every length; every number class, every seed of a window; every damaged text of up to 6 characters or one edit",
 "There are no unit tests for these functions.",
 [B + "base64.cc", B + "md5.cc", B + "utility.cc"], [("base64", B + "base64.cc"), ("block buffer of MD5", B + "md5.cc (update, finalize)"), ("ciphers", B + "utility.cc (encrypt, decrypt)")], ["encoded and decoded text", "sanitizer reports"], SEQ, SQN)
VH = "framework/core/include/plain/basic/type/variable.h"
prop("V01", "A variable behaves like its value and can be shared by threads",
 "A variable gives back the value of the type put in it and no other type; arithmetic with a number or another variable is that of floating point numbers on both values, incrementing and decrementing that of integers; all six comparisons agree with those of the values; copies and assignments are equal and independent. From several threads every operation takes effect at one moment: no update is lost, no text is seen half written, and no combination of operations on the same variables blocks forever.",
 ["inputs", "schedules"], "every pair of 17 values over all 12 types under every operation; every interleaving of two threads using the same variables in either direction",
 "One unit test adds and compares a few integers in one thread.",
 [VH, B + "type/variable.cc"], [("variant under a mutex", VH)], ["values", "data races", "deadlocks"], SCHED + " and of operation sequences", MCN)
prop("A01", "Network addresses mean what their text says",
 "An address made from a text (IPv4 or IPv6 host, with brackets and port or as two arguments) has exactly that family, host and port, with the unspecified and loopback hosts meaning any address when listening and loopback when connecting; anything else - bad hosts, bad or too large ports - is refused. The text of an address reads back as the same address, equal addresses have equal bytes, and socket addresses given as bytes are accepted only if their size fits their family. Nothing beyond the given text or bytes is read.",
 ["inputs"], "every combination of 26 hosts, 18 ports, 4 forms, 2 purposes and what follows the text in memory; every family with every size up to 139 bytes",
 "Tests check families and ports of six valid texts.",
 [N + "address.cc", NH + "address.h", N + "detail/socket.cc"], [("parsing", N + "address.cc (parse_address, to_addr)"), ("validity by family and size", N + "address.cc (is_valid_addr)")], ["family, host, port, text, bytes"], SEQ, SQN)
EK = "framework/core/src/engine/kernel.cc"
prop("K01", "The kernel owns its executors, its components' names and its console",
 "Each executor of a kernel has the options meant for it, and when the kernel ends all of them and its timer queue are shut down, every thread has ended and every accepted task has run or been dropped. A running network component has its name alone; a second one is refused without harm and the name is free after a stop. The console answers every complete command line with that command's answer, from the moment it listens, ends the connection on unknown commands, and lists, stops and describes exactly what is named, while components come and go and commands are registered or replaced.",
 ["schedules", "histories"], "every interleaving of the kernel's end with posting threads, of starting and stopping components, and of console commands with registrations and stops",
 "No unit test uses the console or the component list, and kernels are only created and destroyed.",
 [EK, "framework/core/include/plain/engine/kernel.h", CM], [("registered executors", EK + " (Kernel, ~Kernel)"), ("name table", EK + " (add, remove_net)"), ("console dispatcher", EK + " (enable_console)")], ["answers on the wire", "running components", "threads left"], SCHED + " on a virtual network", NETN)
MP = "framework/core/include/plain/sys/memory/pool.h"
prop("M01", "A memory pool block belongs to one owner, and what is returned can be had again",
 "Every block a memory pool hands out is aligned for any type, as large as asked for, overlaps no other block in use and keeps its contents until it is given back, whichever threads take and return blocks at the same time. When everything has been returned the whole capacity can be handed out again. check_access is true exactly for ranges inside the block; blocks of somebody else are refused, sizes that cannot be served give no block (or the exception chosen). Containers and the stack on a pool keep their elements and destroy each once.",
 ["schedules", "histories"], "every interleaving of taking, returning and passing on blocks; every operation sequence to a depth over sizes around the limits",
 TST + "a leaf being reset while another thread takes or returns a block, and never look at the contents of a block.",
 [MP, "framework/core/include/plain/sys/memory/stack_allocator.h"], [("leaf state: unused and used space in one atomic", MP + " (malloc, free)"), ("block header with owner tag", MP + " (free, check_access)"), ("linked nodes", "framework/core/include/plain/sys/memory/stack_allocator.h")], ["addresses and contents of blocks", "answers of check_access", "constructions and destructions"], SCHED + "; " + SEQ, MCN)

def main():
    have = [x for x in P if x["p"]["id"] in plan.PLAN]
    with open(V + "/properties.jsonl", "w") as f:
        for x in P: f.write(json.dumps(x["p"]) + "\n")
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
         "hooks": {"guard": "PLAIN_VERIF", "enable": "no hooks were needed: bin/build.py compiles /repo's sources with -DPLAIN_VERIF and links them with the checker's runtime, which interposes the thread, clock and socket functions", "source_commits": []},
         "checks": [{"property": x["p"]["id"], "quick_cmd": f"python3 bin/check.py {x['p']['id']} quick", "thorough_cmd": f"python3 bin/check.py {x['p']['id']} thorough",
                     "evidence_file": f"evidence/{x['p']['id']}.json", "technique": x["tech"], "level": "model_checking", "level_note": x["note"]} for x in have],
         "not_applicable": [{"property": x["p"]["id"], "reason": x.get("na", "no check yet")} for x in P if x not in have],
         "notes": "Every check explores the implementation itself; there is no separate model to keep in step. See DESIGN.md."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]
if __name__ == "__main__": main()
