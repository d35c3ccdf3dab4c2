#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

CB = "kanon/net/connection/connection_base.cc"
p("K01", "Every task handed to an event loop runs exactly once, in order, on its thread",
  "Every task handed to a running event loop, from any thread or from inside a callback, runs exactly once and on the loop's own thread, with tasks queued by one thread running in the order that thread queued them. A task submitted with the run-immediately call from the loop's own thread runs before that call returns; a queued task never runs inside the queuing call. A loop that is idle (or not yet started) wakes up for a queued task without waiting for unrelated I/O or timers, including a task queued by the destructor of an object that a finished task owned.",
  ["schedules", "programs"], "All interleavings of submitters with the loop, all nesting depths of tasks queuing tasks, tasks queued before the loop starts.",
  "The event-loop tests are not in the stable set and only print; they submit a handful of tasks on one schedule, so lost wake-ups, duplicated or reordered tasks go unnoticed.",
  ["kanon/net/event_loop.cc", "kanon/net/event_loop.h"],
  [("pending functor queue + eventfd wake-up", "EventLoop::QueueToLoop / RunInLoop / CallFunctors / Wakeup")],
  ["task bodies recording (submitter, sequence, thread id)"],
  [("pending tasks", "tasks queued but not yet executed", "kanon/net/event_loop.h")])
p("K02", "Event loops stop when asked, and loop threads and pools tear down cleanly",
  "Asking an event loop to quit, from any thread or from inside any of its callbacks, makes its run call return within a bounded number of iterations even when it is idle. Starting a loop thread returns a loop that is running or about to run on a different thread; destroying the owner at any later moment stops that loop, joins the thread and leaves no thread, descriptor or memory behind; tasks and timers the loop never ran are destroyed while it can still be used by the objects they own. A pool of loop threads hands out its loops in strict rotation over exactly the configured number of distinct loops (the base loop when that number is zero).",
  ["schedules", "configurations", "histories"], "Every relative timing of quit, start, task submission and destruction; any pool size.",
  "The stable event_loop_thread_test covers one start/stop order; leaks and races in teardown leave no trace in its assertions.",
  ["kanon/net/event_loop.cc", "kanon/net/event_loop_thread.cc", "kanon/net/event_loop_pool.cc"],
  [("quit flag + wake-up", "EventLoop::Quit"), ("start hand-shake and join", "EventLoopThread::StartRun, ~EventLoopThread"), ("round robin", "EventLoopPool::GetNextLoop")],
  ["/proc/self/fd and /proc/self/task counts, LeakSanitizer, loop thread ids"])
p("K03", "Timers never fire early and fire the promised number of times",
  "A one-shot timer created from any thread or from inside a callback runs its action exactly once, on the loop thread, and not before its due time; a repeating timer keeps running until cancelled, its n-th run no earlier than n intervals after it was started. Timers are run in order of due time whenever two are due in the same wake-up or in different ones. Pending timers fire without needing unrelated events to wake the loop.",
  ["schedules", "inputs", "histories"], "Any set of delays/intervals (including zero, past and equal due times), any creating thread, timers created inside timer actions.",
  "timer_test is excluded from the stable set and only prints; it never checks due times, counts or order.",
  ["kanon/linux/net/timer/timer_queue.cc", "kanon/net/timer/timer.h", "kanon/net/event_loop.h"],
  [("expiry set ordered by time and timerfd re-arm", "TimerQueue::AddTimer, ProcessAllExpiredTimers, SetTimerfd")],
  ["timer actions recording (id, steady time, thread)"])
p("K04", "A cancelled timer never runs again and cancelling is always harmless",
  "Once a cancellation has taken effect on the loop thread, the timer's action never starts again; this includes a repeating timer cancelled from inside its own action and a timer cancelled by another action of the same wake-up. Cancelling from any thread, cancelling twice, or cancelling a timer that has already fired has no other effect: it never touches freed memory, disturbs no other timer and leaks nothing, also when the object that cancels is owned by the timer's own action or the loop is being destroyed.",
  ["schedules", "histories"], "All orders of create / fire / cancel, from the loop thread, from timer actions and from other threads.",
  "No stable test cancels a timer; use-after-free of a fired timer needs the allocator to reuse memory to be seen without a sanitizer.",
  ["kanon/linux/net/timer/timer_queue.cc", "kanon/net/timer/timer_id.h"],
  [("cancel in loop + cancelled-while-running set", "TimerQueue::CancelTimer, ProcessAllExpiredTimers")],
  ["timer actions after cancel, ASan/LSan"])
p("K05", "Bytes sent on a connection arrive completely, in order and unmodified",
  "For every connection, the byte stream the peer reads is exactly the concatenation of everything the application sent, in submission order per sending thread, each message contiguous, whichever send variant is used (raw bytes, string, buffer, chunk list) and however they are mixed. This holds whatever the kernel accepts per write (partial writes, would-block, interruption), however slowly the peer reads, and for sends made from other threads or from inside callbacks, until the connection is closed.",
  ["schedules", "fault_sequences", "histories", "inputs"], "All sequences of sends of any sizes and kinds, all partial-write/EAGAIN/EINTR schedules, all sender threads.",
  "No stable test opens a TCP connection at all; partial writes need a slow peer or a full socket buffer.",
  [CB, "kanon/net/connection/connection_base.h", "kanon/linux/net/chunk_list.cc", "kanon/net/sock_api.cc"],
  [("direct write then buffer the rest and enable writing", "ConnectionBase::SendInLoop*, HandleLtWrite/HandleEtWrite"), ("gather write", "ChunkListWriteFd")],
  ["peer socket byte stream", "fault-injected write/send/writev/sendmsg"],
  [("output buffer", "bytes accepted from the user and not yet taken by the kernel", CB)])
p("K06", "Bytes received on a connection reach the application completely and in order",
  "The bytes presented to the message callback, plus those left unread in the input buffer, are exactly the bytes the peer sent, in order, with nothing lost, duplicated or altered, whatever the sizes and timing of the peer's writes, the kernel's short reads, would-block and interruption results, and however much of the buffer the callback consumes each time. Data the peer sent before closing is delivered before the connection is reported down.",
  ["inputs", "fault_sequences", "histories"], "All segmentations, bursts larger than the buffer and the read limit, all consume patterns, level- and edge-triggered modes.",
  "No stable test opens a TCP connection; segmentation and short reads vary with timing.",
  [CB, "kanon/linux/net/buffer.cc", "kanon/buffer/buffer.h"],
  [("scatter read into buffer + stack overflow area", "BufferReadFromFd"), ("read loop", "ConnectionBase::HandleLtRead/HandleEtRead")],
  ["message callback contents vs. bytes written by a raw peer"])
p("K07", "Shutting down writing flushes first; closing is prompt, idempotent and complete",
  "After the application shuts down the write side, the peer receives every byte sent before that call and then end-of-stream, while data from the peer keeps being delivered until it closes too. Forcing a close makes the application see exactly one down notification and, once the application has dropped its references, the peer see the connection end. Any combination and repetition of shutdown, forced close, peer close or peer reset, from any thread or callback, never crashes and never produces a second down notification.",
  ["schedules", "histories", "fault_sequences"], "All sequences of send/shutdown/force-close/peer-close/peer-reset from any thread, with data still queued or not.",
  "No stable test closes a connection; the flush-then-FIN path only runs when the peer is slow.",
  [CB],
  [("deferred shutdown until output drained", "ConnectionBase::ShutdownWrite, HandleLtWrite, SendInLoop"), ("close", "ConnectionBase::HandleClose, ForceClose")],
  ["peer read() results, connection callback counts"])
p("K08", "Connection callbacks: one up, one down, messages only in between, on one thread",
  "For every connection the application sees exactly one up notification, then messages, then exactly one down notification and nothing after it, all on the thread of the loop that owns that connection. The connection object is released after its last user reference is dropped, and it is never used after that; no descriptor or memory of a finished connection is retained.",
  ["schedules", "histories", "fault_sequences"], "All connection lifetimes, with the user keeping references past the down notification, sending after it, or dropping them inside callbacks.",
  "tcp_server/tcp_client tests are not in the stable set and assert nothing about callback order or object lifetime.",
  [CB, "kanon/net/tcp_server.cc", "kanon/net/tcp_client.cc", "kanon/linux/net/channel.cc"],
  [("state machine kConnecting..kDisconnected", "ConnectionBase::ConnectionEstablished, HandleClose, ConnectionDestroyed"), ("owner map + weak tie", "TcpServer/TcpClient close callback, Channel tie")],
  ["callback trace per connection, weak references, /proc/self/fd"])
p("K09", "Write-complete and high-water-mark notifications reflect the output backlog",
  "When the last unsent byte of a connection has been handed to the kernel the write-complete callback runs on the loop thread at least once after it and never while bytes sent earlier are still unsent; every burst of sends that drains on an open connection is followed by one. The high-water-mark callback runs exactly when a send makes the backlog go from below the configured mark to at or above it, and is given the backlog size of that moment; without a crossing it does not run.",
  ["histories", "inputs", "fault_sequences"], "All send sizes and kinds, marks, drain speeds, partial writes.",
  "No test installs these callbacks on a connection whose peer is slow, so neither path runs.",
  [CB, "kanon/net/connection/connection_base.h"],
  [("backlog accounting and callbacks", "ConnectionBase::SendInLoop*, HandleLtWrite, CallWriteCompleteCallback")],
  ["callback trace against a shadow backlog derived from intercepted writes"])
p("K10", "A TCP server accepts every client, dispatches in rotation and shuts down cleanly",
  "Every client that connects to a listening server gets exactly one connection, with correct local and peer addresses, assigned to the I/O loops in strict rotation (the base loop when there are none). Running out of descriptors or a connection aborted before it is accepted neither stops the server nor spins or crashes it: later clients are still served. Destroying the server on its base loop's thread, at any time outside its own connection-up callback, closes the listening socket and all its connections, reporting each one down exactly once, and leaves no thread, descriptor or memory behind.",
  ["schedules", "fault_sequences", "configurations", "histories"], "Any number of clients and I/O loops, accept errors at any point, destruction with or without live connections, with or without connection pooling.",
  "tcp_server_test and acceptor_test are not in the stable set; nothing injects accept errors or destroys a busy server.",
  ["kanon/net/tcp_server.cc", "kanon/net/acceptor.cc", "kanon/net/event_loop_pool.cc"],
  [("accept loop and reserve descriptor", "Acceptor ctor read callback"), ("connection map, round robin", "TcpServer ctor new-connection callback"), ("teardown", "~TcpServer")],
  ["client sockets, callback trace, injected accept4 errors"])
p("K11", "A TCP client connects, retries, stops and reconnects as asked and dies cleanly",
  "A started client reports its connection up as soon as the server is reachable: while it is not, it keeps retrying with growing, bounded pauses and never gives up or holds more than one connection. After a stop it makes no further attempts; after a disconnect the peer receives everything sent and then end-of-stream; with reconnecting enabled a lost connection is re-established, otherwise not. Destroying the client or stopping it in any phase (idle, connecting, waiting to retry, connected, disconnecting) crashes nothing and leaks nothing.",
  ["schedules", "fault_sequences", "histories"], "All connect outcomes (refused, delayed, EINTR, self-connect, late success), all times of Stop/Disconnect/destruction.",
  "connector_test in the stable set makes one attempt; retry, stop-while-retrying and destruction are never driven.",
  ["kanon/net/tcp_client.cc", "kanon/net/connector.cc", "kanon/linux/net/connector.cc"],
  [("non-blocking connect state machine and back-off timer", "Connector::Connect, CompleteConnect, Retry"), ("ownership", "TcpClient ctor/dtor")],
  ["connection callback trace, intercepted connect() calls, ASan/LSan, fd counts"])
p("K12", "The poller reports exactly the readiness that descriptors have and channels ask for",
  "For every registered descriptor and every sequence of interest changes and removals, with either back end, the loop dispatches to a channel's callback only events the channel is interested in (besides hang-up and error) and that the descriptor really has, and it does dispatch every such event that persists. A channel whose interest is disabled or that was removed gets no further callbacks, also when this happens inside a callback of the same wake-up; it can be enabled or registered again later and then works normally. Hang-up or error on a descriptor never crashes or busy-locks the loop.",
  ["histories", "configurations", "schedules"], "All sequences of enable/disable/remove/re-add over many channels, epoll and poll back ends, level- and edge-triggered.",
  "poller tests are not part of the stable set and use a single descriptor.",
  ["kanon/linux/net/epoller.cc", "kanon/linux/net/poller.cc", "kanon/linux/net/channel.cc"],
  [("interest registration", "Epoller::UpdateChannel/RemoveChannel, Poller::UpdateChannel/RemoveChannel"), ("event dispatch", "Channel::HandleEvents")],
  ["channel callback trace vs. a reference model of descriptor readiness"])
p("K13", "The byte buffer behaves as a FIFO queue of bytes",
  "For every sequence of operations, the contents and reported sizes of a buffer are those of an abstract byte queue: appending adds at the end, prepending at the front, removing takes from the front, peeking and searching do not change it, and fixed-width integers are written and read in network byte order. Growing, shrinking, swapping, copying and moving preserve contents, and no operation within its documented preconditions touches memory outside the buffer.",
  ["histories", "inputs"], "All operation sequences with all sizes, including zero, larger than capacity, and after shrinking.",
  "buffer_test makes a handful of fixed calls; shrink/prepend/move and growth boundaries are not reached.",
  ["kanon/buffer/buffer.h", "kanon/buffer/buffer.cc", "kanon/linux/net/buffer.cc"],
  [("index-based byte array with reserved prefix", "Buffer::Append/AdvanceRead/Prepend/ReserveWriteSpace/Shrink")],
  ["every public accessor compared with std::string model, ASan"])
p("K14", "The chunked output buffer behaves as a FIFO queue of bytes",
  "For every sequence of appends, prepends, merges, moves, reads from and writes to descriptors and removals, the bytes of a chunk list read from front to back are those of an abstract byte queue and the reported readable size is their number. Writing the list to a descriptor hands the kernel its bytes from the front, reports exactly how many the kernel accepted and any error, and leaves the list itself unchanged. No operation leaks or shares chunks or touches memory outside them.",
  ["histories", "inputs", "fault_sequences"], "All operation sequences, thousands of chunks, partially filled chunks anywhere, partial and failing writes.",
  "chunk_list_test makes a few appends and never merges partially filled lists or injects write errors.",
  ["kanon/buffer/chunk_list.cc", "kanon/buffer/chunk_list.h", "kanon/linux/net/chunk_list.cc"],
  [("list of fixed chunks with free list", "ChunkList::Append/Prepend/AdvanceRead/AppendChunkList"), ("gather I/O", "ChunkListWriteFd, ChunkListReadFd")],
  ["iterated contents compared with std::string model, ASan/LSan"])
p("K15", "The forward list is a correct sequence container for every operation sequence",
  "For every sequence of operations (insertion, erasure, splice, merge, sort, reverse, unique, remove, resize, assign, swap, copy, move and node extraction) the list holds the same elements in the same order as the standard singly linked list would, and every element is constructed and destroyed exactly once. No operation leaks nodes or touches freed ones.",
  ["histories", "inputs"], "All operation sequences on lists of any length including 0, 1, 2, and self/alias arguments where permitted.",
  "forward_list_test checks fixed examples, mostly of length above three.",
  ["kanon/algo/forward_list.h", "kanon/algo/forward_list/forward_list_impl.h", "kanon/algo/forward_list/algorithm.cc"],
  [("singly linked nodes behind a sentinel", "ForwardList::*, algorithm.cc")],
  ["iterated contents vs std::forward_list, live-instance counters, ASan/LSan"])
p("K16", "The reserved array stores its elements intact through growth and shrinking",
  "For every sequence of operations, a reserved array holds the same elements as a standard vector would; growing, shrinking, copying, moving and resizing preserve them, and every element is constructed and destroyed exactly once. No memory is leaked or touched out of bounds, for trivially and non-trivially copyable elements alike.",
  ["histories", "inputs"], "All operation sequences and element kinds, capacities from zero up.",
  "reserved_array_test makes few fixed calls and checks no lifetimes.",
  ["kanon/algo/reserved_array.h", "kanon/algo/libc_allocator_with_realloc.h"],
  [("geometric growth with realloc fast path", "ReservedArray::Grow/Reallocate/Shrink")],
  ["contents vs std::vector, live-instance counters, ASan/LSan"])
p("K17", "Memory pools hand out disjoint, aligned, stable blocks and recycle them",
  "Every block a pool hands out is large enough, suitably aligned and overlaps no other block currently handed out, and its contents stay as the user left them until it is given back, however the pool grows, reserves or shrinks. Blocks given back are reused before the pool grows further, reported usage figures match what was handed out, and destroying the pool releases everything exactly once.",
  ["histories", "inputs", "configurations"], "All allocate/free/reserve/shrink sequences and block sizes/counts.",
  "The pool tests allocate a few objects in order; overlaps and recycling after shrink are not looked for.",
  ["kanon/mem/fixed_chunk_memory_pool.cc", "kanon/mem/fixed_chunk_memory_pool.h", "kanon/mem/linear_fixed_memory_pool.h", "kanon/mem/object_pool_allocator.h"],
  [("intrusive free list over malloced blocks", "FixedChunkMemoryPool::Malloc/Free/Shrink")],
  ["interval map of live blocks with fill patterns, ASan/LSan"])
p("K18", "The asynchronous log writes every accepted record exactly once, whole and in order",
  "Every record appended to a running asynchronous log, from any number of threads, ends up in the log files exactly once, unbroken, with each thread's records in its order, for every flush interval and however full the buffers are; when overloaded it may drop records only by its announced policy and says so. Stopping or destroying the log writes everything appended before it and then returns; appending never blocks on disk I/O and is free of data races.",
  ["schedules", "histories", "inputs"], "All thread counts, record sizes up to and over the buffer size, flush timings, stop times.",
  "async_log_test is not in the stable set and only produces files for a human to look at.",
  ["kanon/log/async_log.cc", "kanon/log/async_log.h"],
  [("double buffering with a background thread", "AsyncLog::Append, StartRun, Stop")],
  ["contents of all produced files vs. records appended (unique ids)"])
p("K19", "Log files are complete and roll, flush and expire by their configuration",
  "Every record written to a log file object appears completely and in order in the sequence of files it creates, no record being split over two files. A new file is started when the configured size is exceeded, and when the configured period begins, and not otherwise; file names are distinct and ordered by creation; with a limit on the number of files only the newest ones within that limit are kept and no other file is deleted. Flushing makes everything written so far visible in the file, and unflushed data is written on destruction.",
  ["histories", "inputs", "configurations"], "All record sizes, roll sizes, flush intervals, periods, numbers of files, clocks.",
  "log_file_test is not in the stable set and asserts nothing about contents or numbers of files.",
  ["kanon/log/log_file.h", "kanon/log/log_file.cc", "kanon/log/append_file.cc"],
  [("roll by size/time", "LogFile::Append, RollFile"), ("file limit", "LogFile remove thread"), ("buffered append", "AppendFile")],
  ["directory contents after each step, with virtual time"])
p("K20", "Log statements produce exactly one whole record each, filtered by level",
  "Every enabled log statement hands its output function exactly one record, consisting of level, time, thread, message, and source position followed by one newline, with the message text intact (long messages are truncated, never corrupted); statements below the current level evaluate nothing and output nothing. Concurrent threads' records never mix, and the system-error variants append the text of the error number in force. A fatal statement outputs its record, flushes and then aborts the process.",
  ["inputs", "schedules", "configurations"], "All levels, value types, message lengths, threads, error numbers.",
  "logger_test is compared by eye; nothing checks interleaving, truncation or the fatal path.",
  ["kanon/log/logger.h", "kanon/log/logger.cc", "kanon/string/lexical_stream.h"],
  [("per-statement stream in a fixed buffer", "Logger ctor/dtor"), ("level check macros", "LOG_* macros")],
  ["records captured by an installed output function; stderr/stdout of forked children for fatal"])
p("K21", "Locks exclude, conditions wake, latches open exactly at zero",
  "At most one thread is ever inside a section protected by the same mutex (or write lock), readers exclude only writers, a non-blocking acquire succeeds exactly when the lock is free, and a mutex reports itself held by the calling thread exactly when it is. A thread waiting on a condition releases the mutex, holds it again on return, and wakes for a notification; a timed wait returns by its deadline, telling truthfully whether it timed out. A count-down latch lets every waiter go exactly when the count reaches zero and its count never goes negative.",
  ["schedules"], "All interleavings of any number of threads over lock/unlock/try/wait/notify/count-down.",
  "The mutex and latch tests run a few threads once with printouts; condition_test is excluded.",
  ["kanon/thread/mutex_lock.h", "kanon/thread/condition.h", "kanon/thread/condition.cc", "kanon/thread/count_down_latch.h", "kanon/thread/rw_lock.h"],
  [("pthread wrappers with owner bookkeeping", "MutexLock, Condition, CountDownLatch, RWLock")],
  ["in-section counters, shadow state, TSan"])
p("K22", "Threads run their function once and thread pools run every task once",
  "A started thread runs its function exactly once, start does not return before the thread exists, join returns after the function returned, and moving or destroying the thread object at any time is safe. A thread pool runs every task pushed to it exactly once, on its own threads, however many tasks there are compared with threads and whether they are pushed before or after it starts, and no task waits while one of its threads is free; destroying it first runs everything pushed, wakes all its threads and leaves none behind.",
  ["schedules", "configurations", "histories"], "Any number of threads and tasks, any order of start/push/destroy.",
  "thread_pool_test pushes exactly as many tasks as there are threads, once.",
  ["kanon/thread/thread.cc", "kanon/thread/thread.h", "kanon/thread/thread_pool.cc", "kanon/thread/thread_pool.h"],
  [("start hand-shake via latch", "Thread::StartRun"), ("blocking task queue", "ThreadPool::Push, StartRun, StopAll")],
  ["task bodies recording (id, thread), /proc/self/task"])
p("K23", "String views and string helpers agree with the standard library on all inputs",
  "For every text, including embedded NULs, empty texts and positions past the end, the searching, comparing, sub-view, prefix/suffix, trimming and removal operations of a string view return what the standard string view's would, case-insensitive comparison agrees with lower-casing both sides, concatenation equals appending the parts, and splitting returns the pieces between separators. Every call terminates and reads nothing outside the text.",
  ["inputs"], "All texts, patterns, positions and counts.",
  "string_view_test/string_util_test check a few printable examples.",
  ["kanon/string/string_view.h", "kanon/string/string_view.cc", "kanon/string/string_util.h"],
  [("pointer + length view", "StringView::find/rfind/find_first_of/..."), ("helpers", "StrCat, StrAppend, StrSplit")],
  ["results compared with std::string / std::string_view, ASan with exact-size heap texts"])
p("K24", "Text to number conversions are exact or refuse",
  "Converting text to a number yields the value if and only if the whole text is a number of the requested kind within the range of the result type, and otherwise reports failure; converting a number to text and back yields the same number for every integer and every finite float. Conversions never crash, hang or read outside the text, for input of any length and content, and are safe to run on many threads at once.",
  ["inputs", "schedules"], "All byte strings, all numbers, all result types, concurrent callers.",
  "The tests convert a few well-formed short numbers.",
  ["kanon/string/string_view_util.h", "kanon/string/string_view_util.cc", "kanon/string/lexical_cast.h"],
  [("strto* on a bounded copy with range checks", "StringViewTo*"), ("traits-driven casts", "lexical_cast")],
  ["results vs. an independent parser, ASan, TSan"])
p("K25", "Formatting streams write exactly the text of the values, within their capacity",
  "Streaming any sequence of integers, floats, booleans, characters, pointers, strings and views into a stream yields the concatenation of their decimal (or documented) texts, and format-string output replaces each placeholder in turn by its argument. Content that does not fit the fixed buffer is left out without writing past its end or corrupting what is there, and the buffer's length, remaining space and contents always agree.",
  ["inputs", "histories"], "All value sequences, including extreme numbers and any remaining capacity, all format strings.",
  "The stream tests print a few values into an almost empty buffer.",
  ["kanon/string/lexical_stream.h", "kanon/string/fixed_buffer.h", "kanon/string/fmt_stream.h", "kanon/string/lexical_stream_common.h"],
  [("bounded append", "FixedBuffer::Append*"), ("operator<<", "LexicalStream, FmtStream")],
  ["buffer contents vs. std formatting, ASan with exact-size buffers"])
p("K26", "Internet addresses convert between text, number and socket form without loss",
  "Every valid IPv4 or IPv6 address and port survives conversion to socket form and back to text, in the documented notation (with brackets and port), and the address family is recognised from the text; resolving a numeric host gives that address. Texts that are not an address or have a bad port are refused or reported rather than crashing, reading outside the text or silently yielding another address.",
  ["inputs"], "All addresses, ports and malformed texts, given as views without terminator.",
  "inet_addr_test prints a few addresses and is not in the stable set.",
  ["kanon/net/inet_addr.cc", "kanon/net/inet_addr.h", "kanon/net/sock_api.cc"],
  [("inet_pton/ntop wrappers", "InetAddr ctors, sock::FromIpPort/ToIpPort/ToStringIp"), ("resolution", "InetAddr::GetAddress")],
  ["round trips and inet_pton/getaddrinfo as oracle, ASan"])
p("K27", "Value holders and time stamps keep exactly what was put in",
  "An any/unique-any/optional holder reports a value exactly when it has one, gives back the stored value only as its own type (an error or null otherwise), and copies, moves, swaps, resets and destroys it exactly once without leaking, including when empty or assigned to itself. Time stamps order, add, subtract and convert between seconds, milliseconds, microseconds and text consistently, so that converting to text and back or adding and subtracting the same interval gives the original. The pointer helpers (down casts, borrowed keys, deferred deletion) refer to the very same object and delete it exactly as often as they own it.",
  ["histories", "inputs"], "All operation sequences over holders and element types, all times and intervals.",
  "any_test/optional_test store a few values; empty sources and self-assignment are not driven.",
  ["kanon/util/any.h", "kanon/util/unique_any.h", "kanon/util/optional.h", "kanon/util/raw_any.h", "kanon/util/ptr.h", "kanon/util/time_stamp.h", "kanon/util/time_stamp.cc"],
  [("type-erased holder", "Any, UniqueAny"), ("in-place storage", "optional"), ("microsecond counter", "TimeStamp")],
  ["contents vs. model, live-instance counters, ASan/UBSan/LSan"])
p("K28", "Operations documented as callable from any thread are free of data races",
  "Any mixture of the operations offered for use from any thread - submitting tasks and timers to loops, cancelling timers, quitting loops, sending, shutting down and closing connections, querying connection state, starting servers and clients, logging, locking and using thread pools - executed concurrently contains no data race, no use of freed memory and no deadlock.",
  ["schedules", "programs"], "All interleavings of all mixtures of the thread-safe operations.",
  "No existing test runs under a race detector and few are multi-threaded.",
  ["kanon/net/event_loop.cc", CB, "kanon/net/tcp_client.cc", "kanon/net/tcp_server.cc", "kanon/linux/net/timer/timer_queue.cc", "kanon/log/async_log.cc"],
  [("run-in-loop confinement", "EventLoop::RunInLoop users"), ("mutex/atomics", "state_, quit_, functors_")],
  ["ThreadSanitizer reports over randomized multi-threaded programs"])
p("K29", "Length-prefixed protobuf framing delivers exactly the messages sent",
  "Every message encoded by the codec and fed to the decoder, in any segmentation and with any number of messages back to back, is delivered exactly once, in order and equal to the original. Input that is truncated, corrupted, of the wrong tag, or claims an invalid or excessive length is never delivered as a message: it is reported as the matching error (or waits for more data) without crashing or reading outside the input.",
  ["inputs", "histories"], "All messages, segmentations, and corruptions of the byte stream.",
  "The protobuf tests need network peers and are not in the stable set.",
  ["kanon/protobuf/generic_pb_codec.cc", "kanon/protobuf/generic_pb_codec.h", "kanon/protobuf/protobuf_codec.h", "kanon/protobuf/chunk_stream.h"],
  [("length + tag + payload + checksum", "GenericPbCodec::Send, Parse, OnMessage")],
  ["decoder callbacks vs. messages encoded; bytes on the wire; ASan"])
p("K30", "Every RPC call completes at most once, with the response to that very call",
  "For every remote call made on a connected channel, from any thread, with any number of calls outstanding and responses in any order, the server runs the named method once with that very request and deadline and answers once under the call's id: with the method's response, or with the matching error for an unknown service or method, a malformed request or an incomplete message. The caller's completion runs exactly once, after the response object holds the response, if the response arrives before the call's deadline (if it has one); it never runs for a call answered by an error or only after its deadline. Unsolicited, duplicated, late and malformed responses have no effect on any other call and do not end the process, the controller is optional and may go away once the call is made, connections, channels and servers that end with calls in progress do no harm, and the library leaks nothing.",
  ["schedules", "histories", "inputs"], "All numbers of concurrent calls, response orders, deadlines, and peer misbehaviours.",
  "The RPC examples need a server and check nothing automatically.",
  ["kanon/rpc/rpc_channel.cc", "kanon/rpc/rpc_channel.h", "kanon/rpc/rpc_server.cc", "kanon/rpc/rpc_controller.cc"],
  [("id -> outstanding call map", "RpcChannel::CallMethod, OnMessage"), ("deadline timer", "RpcChannel timeout handling")],
  ["completion trace per call id, ASan/LSan"])
p("K31", "Threads know who they are, keep their own values, and never lose an exception",
  "In every thread, whether it is the main one, belongs to a thread object, pool or loop, or was made otherwise, the current-thread queries give that thread's own kernel id (as a number and as text of the reported length), the name it was given, and whether it is the main one, a loop says it is in its thread exactly there, and the process queries give this process's id and host name - whatever other threads ask at the same time and even after the thread object was moved or destroyed. A thread-local value is made on a thread's first use with the arguments given then, is that very object on every later use in this thread and never another thread's, and is destroyed when the thread ends, by that thread. An exception that leaves a function run by a thread, a thread pool or a loop thread ends the process by abort, with its reason on standard error for threads, pools and loop tasks; one that leaves a callback of a loop run by the user reaches the caller of the loop unchanged.",
  ["schedules", "programs"], "All threads of every origin, orders of queries, thread-local keys and types, and places and types of exceptions.",
  "thread_test and current_thread tests print ids and names of single threads; thread-local values and exceptions are not tested.",
  ["kanon/thread/current_thread.h", "kanon/thread/thread.cc", "kanon/thread/thread_local.h", "kanon/process/process_info.cc", "kanon/net/event_loop.cc", "kanon/linux/net/timer/timer_queue.cc"],
  [("thread-local caches", "CurrentThread::cacheTid, t_name, PidString"), ("thread-specific data", "ThreadLocal::value, Destructor"), ("catch and abort", "detail::Run"), ("rethrow", "EventLoop::CallFunctors, RunInLoop, TimerQueue::ProcessAllExpiredTimers")],
  ["answers vs. gettid/prctl/getpid/gethostname, values vs. what the thread made with live-instance counters, child processes' status and standard error, ASan/TSan"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
