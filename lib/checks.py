"""The registry: property id -> how its jobs are made."""
from vlib import *

REG = {}


MODEL = "runtime monitoring: randomized operation sequences against a reference model, under ASan+UBSan+LSan"
NOTE = ("Refutes, does not prove: holds on every case executed (counted in the evidence). Trusts the compiler's sanitizers "
        "and the reference model in the harness.")


def check(pid, level="exploration", rule="", assumptions=(), min_distinct=2, min_counts=None, technique=MODEL, note=NOTE):
    def deco(fn):
        REG[pid] = dict(fn=fn, level=level, rule=rule, assumptions=list(assumptions),
                        min_distinct=min_distinct, min_counts=min_counts, technique=technique, note=note)
        return fn
    return deco


class T:
    """Tier/seed context handed to a check's job builder."""
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.thorough = tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def shards(self, name, exe, cases, nshard, args=(), flavor="asan", base=0, **kw):
        """nshard jobs, each with its own seed derived from VERIF_SEED."""
        js = []
        for i in range(nshard):
            s = (self.seed * 7919 + base * 104729 + i * 31 + 17) & 0x7fffffff
            js.append(Job("%s#%d" % (name, i), exe,
                          ["--seed", s, "--cases", max(1, cases // nshard)] + list(args),
                          flavor=flavor, **kw))
        return js


@check("K13", rule="random sequences of 5-64 public Buffer operations on one or two buffers, sizes 0..140000, "
       "compared with a byte-string model after every operation; a case is the hash of its operations and sizes",
       min_counts={"ops": 5000, "fd_reads": 100})
def k13(t):
    exe = build_exe("asan", "h_buffer.cc")
    return t.shards("buffer", exe, t.n(360000, 4000000), 8, timeout=t.n(200, 1500))


@check("K16", rule="random sequences of 4-33 ReservedArray operations over six element kinds (trivial, string, "
       "instance-counted, realloc-able class, throwing), compared with std::vector after every step; a case is the "
       "hash of element kind, operations and sizes", min_counts={"ops": 5000, "injected_throws": 50})
def k16(t):
    exe = build_exe("asan", "h_array.cc")
    return t.shards("array", exe, t.n(400000, 6000000), 8, timeout=t.n(250, 1500))


@check("K15", rule="random sequences of 3-37 ForwardList operations on two lists (plus extracted nodes), compared with a "
       "vector model, live-instance counts after every step, copy operations that throw; a case is the hash of operations "
       "and positions", min_counts={"ops": 5000, "injected_throws": 20})
def k15(t):
    exe = build_exe("asan", "h_flist.cc")
    return t.shards("flist", exe, t.n(400000, 6000000), 8, timeout=t.n(250, 1500))


@check("K14", rule="random sequences of 4-53 ChunkList operations on two lists (sizes 0..10 MB, >1024 chunks), compared "
       "with a byte-string model after every step, descriptor writes under injected short counts and errors; a case is the "
       "hash of operations and sizes", min_counts={"ops": 5000, "fd_writes": 500, "write_errors": 20})
def k14(t):
    exe = build_exe("asan", "h_chunk.cc", wraps=("write", "writev"))
    return t.shards("chunk", exe, t.n(100000, 1200000), 8, timeout=t.n(300, 2000))


@check("K21", rule="scenarios: mutexes shared by 2-6 threads (Lock/TryLock/guard), bounded queues and timed waits on "
       "conditions, notify-one/all, latches counted down by several threads plus random latch operation sequences against "
       "a counter model, reader/writer locks, atomic counters; each under ASan and TSan; a case is the scenario with its "
       "parameters", min_counts={"mutex_sections": 2000, "cond_items": 1000, "rw_sections": 1000, "timed_waits": 20})
def k21(t):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        js += t.shards("sync-" + fl, build_exe(fl, "h_sync.cc", wraps=sched(fl)), t.n(24000, 300000), 4, ["--mode", "k21"], flavor=fl,
                       base=i, timeout=t.n(250, 1800))
    return js


@check("K22", rule="scenarios: Thread start/join/move/assign/destroy in every order, thread pools of 1-5 threads with "
       "0-120 tasks pushed before/after starting from 1-3 threads, from tasks, with resized queues and prompt destruction, "
       "weak callbacks; each under ASan and TSan; a case is the scenario with its parameters",
       min_counts={"threads": 200, "pool_tasks": 2000})
def k22(t):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        js += t.shards("thread-" + fl, build_exe(fl, "h_sync.cc", wraps=sched(fl)), t.n(32000, 500000), 4, ["--mode", "k22"], flavor=fl,
                       base=i, timeout=t.n(250, 1800))
    return js

CONC = ("runtime monitoring: hostile concurrent workloads with injected delays and interruptions, online and post-run "
        "oracles, under ASan+UBSan+LSan and ThreadSanitizer")


SCHED = ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_signal",
         "pthread_cond_broadcast", "pthread_create")
SCHED_ATOMICS = tuple("__tsan_atomic%s_%s" % (b, o) for b in ("8", "32", "64")
                      for o in ("load", "store", "exchange", "fetch_add", "fetch_sub", "compare_exchange_strong"))


def sched(flavor):
    return SCHED + (SCHED_ATOMICS if flavor == "tsan" else ())


def loop_jobs(t, mode, quick, thorough):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        js += t.shards("loop-" + fl, build_exe(fl, "h_loop.cc", wraps=("epoll_wait", "poll", "write") + sched(fl)), t.n(quick, thorough), 4,
                       ["--mode", mode], flavor=fl, base=i, timeout=t.n(300, 2400))
    return js


@check("K01", technique=CONC, rule="scenarios on both back ends: 1-4 producer threads handing over 1-60 tasks each (queue/run, nested, from "
       "channel and timer callbacks, from destructors of objects owned by tasks, before start, right before quit), ping-pong with an idle loop, self-queuing chains; "
       "injected delays around and EINTR from the poll call; a case is the scenario with the interleaving of producers that "
       "was observed", min_counts={"tasks": 10000, "idle_wakeups": 3000, "nested_runs": 500, "farewells": 500})
def k01(t):
    return loop_jobs(t, "k01", 9600, 100000)


@check("K02", technique=CONC, rule="scenarios: nine ways of quitting (other thread, task, timer, channel callback, nested, twice, before "
       "start) with idle and busy loops, EventLoopThread destroyed at seven moments, EventLoopPool of 0-5 loops with 0-20 "
       "picks; objects owned by tasks and timers that use the loop in their destructors when it ends; iterations after Quit, threads, descriptors and memory counted; a case is the scenario with its parameters",
       min_counts={"quits": 200, "loop_threads": 50, "pool_picks": 500, "sessions": 200})
def k02(t):
    return loop_jobs(t, "k02", 20000, 300000)


@check("K03", technique=CONC, rule="scenarios: one-shot timers through all creation calls from 1-3 threads, callbacks and before start, with "
       "due times in the past, equal and mixed; repeating timers observed for 2-8+ runs; bulk timers in stalled loops; a "
       "case is the scenario with the firing order that was observed", min_counts={"timers": 5000, "repeat_runs": 500},
       assumptions=["wall clock steps do not occur during a run", "tolerance of 2 us for the microsecond truncation of intervals"])
def k03(t):
    return loop_jobs(t, "k03", 7000, 100000)


@check("K04", technique=CONC, rule="scenarios: random one-shot/repeating timers that cancel themselves and each other while other threads "
       "cancel them, timers of one wake-up cancelling each other, stale ids after memory reuse, timers added and cancelled "
       "while the loop quits, objects that cancel their timers when destroyed (by the loop, too); a case is the scenario with the firing order that was observed",
       min_counts={"cancels": 5000, "timers": 5000, "same_wakeup": 100, "sessions": 200})
def k04(t):
    return loop_jobs(t, "k04", 8000, 100000)


@check("K12", technique=CONC, rule="random sequences of 4-24 steps (bursts of up to 40) over 1-45 channels on socket pairs, pipes and "
       "eventfds, back ends poll / epoll LT / epoll ET: interest changes, removal, destruction with descriptor reuse, peer "
       "data and peer close, plus the same actions on other channels inside callbacks; every callback is compared with the "
       "interest in force and with poll(2) on the descriptor, every persistent event must be dispatched, an idle loop must "
       "not spin; a case is the sequence of operations", min_counts={"callbacks": 20000, "steps": 300})
def k12(t):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        js += t.shards("poller-" + fl, build_exe(fl, "h_poller.cc", wraps=("epoll_wait", "poll")), t.n(4000, 60000), 4,
                       flavor=fl, base=i, timeout=t.n(300, 2400))
    return js


NETWRAPS = ("epoll_wait", "poll", "read", "write", "readv", "writev", "send", "recv", "sendmsg", "recvmsg")
CONN_RULE = ("scenarios: 1-3 real connections each (TcpServer with 0-2 loops, with and without the connection pool, TcpClient, "
             "UnixConnection) on the three back ends, the peer driven by raw system calls; all send variants from the loop, "
             "callbacks and 0-4 other threads; injected short counts, EAGAIN and EINTR in the library's socket calls; slow, "
             "closing, half-closing and resetting peers; ")


def conn_jobs(t, mode, quick, thorough):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        js += t.shards("conn-" + fl, build_exe(fl, "h_conn.cc", wraps=NETWRAPS + sched(fl)), t.n(quick, thorough), 4,
                       ["--mode", mode], flavor=fl, base=i, timeout=t.n(300, 2400))
    return js


@check("K05", technique=CONC, rule=CONN_RULE + "self-describing messages are parsed out of the stream the peer reads; a case is the "
       "configuration with the arrival order of the messages", min_counts={"frames": 5000, "connections": 500, "injected_faults": 500})
def k05(t):
    return conn_jobs(t, "k05", 3600, 60000)


@check("K06", technique=CONC, rule=CONN_RULE + "the bytes presented are compared with the position-coded stream the peer writes; a case is "
       "the configuration with the observed history", min_counts={"bytes_to_app": 1000000, "messages": 500, "injected_faults": 500})
def k06(t):
    return conn_jobs(t, "k06", 3200, 60000)


@check("K07", technique=CONC, rule=CONN_RULE + "endings: shutdown, forced close, peer close, peer half close and reset, repeated and combined from "
       "threads and callbacks, sends after the shutdown; a case is the configuration with the observed history",
       min_counts={"end_shutdown": 100, "end_force": 100, "end_rst": 20, "end_peer-fin": 20})
def k07(t):
    return conn_jobs(t, "k07", 3200, 60000)


@check("K08", technique=CONC, rule=CONN_RULE + "every callback's thread, order and count, the weak reference after the last release, "
       "descriptors and heap (LSan) after each scenario; a case is the configuration with the observed history",
       min_counts={"connections": 500, "messages": 500, "write_completes": 500})
def k08(t):
    return conn_jobs(t, "k08", 4000, 60000)


@check("K09", technique=CONC, rule=CONN_RULE + "bytes sent minus bytes the kernel accepted is the backlog the callbacks are judged by, bursts "
       "around the mark while the peer does not read; a case is the configuration with the observed history",
       min_counts={"bursts": 200, "hwm_crossings": 100, "write_completes": 500})
def k09(t):
    return conn_jobs(t, "k09", 1200, 30000)


@check("K10", technique=CONC, rule="scenarios: a TcpServer (three back ends, 0-5 IO loops, IPv4/IPv6, connection pool, port reuse) "
       "and 1-60 raw clients from 1-3 threads that talk, abort, reset, half close or idle; injected accept failures, descriptors "
       "really exhausted, ApplyAllPeers from another thread; the server destroyed quiet, busy, before/after start and inside its "
       "callbacks; a case is the configuration with every client's observed fate",
       min_counts={"clients": 3000, "connections": 3000, "later_clients": 300, "real_emfile": 50, "accept_faults": 500,
                   "destroyed_in_callback": 15, "destroyed_busy": 40})
def k10(t):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        js += t.shards("server-" + fl, build_exe(fl, "h_server.cc", wraps=NETWRAPS + ("accept", "accept4") + sched(fl)), t.n(6000, 60000), 4,
                       flavor=fl, base=i, timeout=t.n(300, 2400))
    return js


@check("K11", technique=CONC, rule="scenarios: a TcpClient (three back ends, retry on and off) whose connection attempts fail in 0-9 ways "
       "(refused, injected errors, self-connection, interrupted) before the server appears, connections lost by FIN, close and "
       "reset with the server gone for a while, Stop/Disconnect/destruction in six phases from the loop, other threads and "
       "callbacks, with calls pending, random calls from 1-3 threads while the server comes and goes; library time is "
       "accelerated so that whole retry schedules are seen; a case is the scenario with its observed history",
       min_counts={"attempts": 800, "ups": 300, "retries": 200, "reconnects": 60, "stops": 50, "disconnects": 40, "destructions": 60,
                   "schedules": 15, "self_connects": 30, "silences": 250},
       assumptions=["retry pauses are judged by the timer the library arms, in accelerated time"])
def k11(t):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        js += t.shards("client-" + fl, build_exe(fl, "h_client.cc", wraps=NETWRAPS + ("connect", "getsockopt", "gettimeofday", "timerfd_settime") + sched(fl)),
                       t.n(480, 8000), 4, flavor=fl, base=i, timeout=t.n(300, 2400))
    return js


@check("K17", rule="random sequences of allocate / give back / shrink / reserve / block count changes on the fixed chunk pool (1-1000 "
       "byte chunks, 0-64 per block), the object pool, the linear pool (four element types) and standard containers using the "
       "pool allocator, with exhausted memory injected; every block handed out is in an interval map, filled with its own "
       "pattern and rechecked, its address range is checked with ASan's own map; a case is the sequence of operations",
       min_counts={"fixed_mallocs": 100000, "reused": 50000, "shrunk_blocks": 5000, "reserved_with_live": 5000, "linear_overflow": 5000,
                   "alloc_ops": 100000, "alloc_failures": 5000, "huge": 1000})
def k17(t):
    exe = build_exe("asan", "h_pool.cc", wraps=("malloc", "realloc", "reallocarray"))
    return t.shards("pool", exe, t.n(320000, 4000000), 8, timeout=t.n(300, 2000))


LOGWRAPS = ("time", "gettimeofday", "fwrite", "remove", "unlink")


def log_jobs(t, mode, asan, tsan):
    js = []
    for i, (fl, n) in enumerate((("asan", asan), ("tsan", tsan))):
        js += t.shards("log-" + fl, build_exe(fl, "h_log.cc", wraps=LOGWRAPS + sched(fl)), n, 4, ["--mode", mode], flavor=fl, base=i,
                       timeout=t.n(400, 2400))
    return js


@check("K18", technique=CONC, rule="scenarios: 1-4 threads appending records of 0 bytes to 8 MB (around and over the buffer size) with flush "
       "intervals of 0 s to 30 years, stops and destructions at any moment, a disk that does not move (fwrite held) and overload beyond "
       "the bounded backlog, appends racing with and after the stop, Flush, never started logs, processes that end by exit and by a "
       "fatal statement; the files are parsed back into the records; a case is the scenario with the observed order of the threads' records",
       min_counts={"async_records": 50000, "async_stops": 200, "async_volume": 20, "async_overloads": 5, "async_stop_races": 20,
                   "async_flushes": 50, "fatal_children": 10, "exit_children": 10, "async_announced_losses": 4})
def k18(t):
    return log_jobs(t, "k18", t.n(800, 12000), t.n(240, 4000))


@check("K19", technique=CONC, rule="random sequences of 5-64 appends (0-100 KB, landing just below, on and above the roll size), clock steps (to period "
       "borders, backwards), flushes over log files with random roll size, period, flush interval, number of files, directory and time "
       "zone in virtual time; directory contents compared with a model after every step; threads sharing a locked log file or each "
       "using its own; a case is the configuration with its sequence of sizes and steps",
       min_counts={"logfile_records": 50000, "size_rolls": 5000, "period_rolls": 1500, "purges": 1500, "logfile_mt_records": 50000},
       assumptions=["the time zone has no daylight saving change during a run"])
def k19(t):
    return log_jobs(t, "k19", t.n(12000, 200000), t.n(3000, 50000))


@check("K20", technique=CONC, rule="random log statements (all macros, all value types, messages up to 12 pieces of 0-6000 bytes, error numbers) with "
       "every level setting, colour, time (virtual clock, five time zones), from 1-5 threads; the record handed to the output function "
       "is compared with the text expected; levels from the environment, fatal statements and standard output in child processes; a case "
       "is the sequence of levels, settings and message sizes",
       min_counts={"statements": 100000, "disabled_statements": 20000, "truncated_records": 5000, "thread_rounds": 1000, "logger_children": 200})
def k20(t):
    return log_jobs(t, "k20", t.n(60000, 1000000), t.n(6000, 100000))


def string_jobs(t, mode, asan, tsan=0):
    js = []
    for i, (fl, n) in enumerate((("asan", asan), ("tsan", tsan))):
        if n:
            js += t.shards("string-" + fl, build_exe(fl, "h_string.cc", std="gnu++17"), n, 8 if not tsan else 4, ["--mode", mode],
                           flavor=fl, base=i, timeout=t.n(400, 2400))
    return js


@check("K23", rule="every text of 0-4 characters over {a, B, NUL} with every pattern of 0-3 at every position in turn, and random texts of up to 2000 "
       "bytes (small and full alphabets, NUL and bytes over 127) with patterns cut out of them, at positions around and past the end; every "
       "search, comparison, sub-view, split and concatenation is compared with the standard string view's result, texts in exact-size heap "
       "blocks; a case is a batch of texts, patterns and positions", min_counts={"ops": 5000000, "enumerated": 500000, "splits": 500000, "concats": 100000})
def k23(t):
    return string_jobs(t, "k23", t.n(80000, 3000000))


@check("K24", technique=CONC, rule="numbers around every type's limits and random ones in bases 2-36, with zeros, signs, spaces, prefixes, NULs and other bytes "
       "inserted, up to 300 characters, every number of 5 digits, all conversions judged by an independent 128-bit parser; random numbers and "
       "float bit patterns to text and back; 2-5 threads converting at once; a case is a batch of texts",
       min_counts={"numbers": 1000000, "non_numbers": 1000000, "round_trips": 100000, "thread_rounds": 1000})
def k24(t):
    return string_jobs(t, "k24", t.n(48000, 2000000), t.n(12000, 400000))


@check("K25", rule="random sequences of values streamed into buffers of 1-4096 bytes on the heap (values chosen to just fit and just not fit), moved, "
       "swapped and reset; format texts with 0-3 placeholders and %% over all argument kinds, with and without terminator; the length, room, "
       "terminator and contents are compared with the printf text after every step; a case is a batch of sequences",
       min_counts={"items": 1000000, "formats": 100000, "did_not_fit": 100000, "moves": 10000, "trailing_placeholder": 10000})
def k25(t):
    return string_jobs(t, "k25", t.n(320000, 6000000))


@check("K26", rule="random IPv4/IPv6 addresses (zero runs, mapped, compatible, link local; four spellings) and ports through every constructor into "
       "dirty memory and back; texts address:port, [address]:port, *:port and name:port with good, out of range and malformed ports, mutated "
       "by 1-2 bytes, as views without terminator; names answered (or failed) by a stand-in resolver with 1-3 addresses; addresses of real "
       "loopback sockets; inet_pton/ntop is the oracle; a case is the batch of texts",
       min_counts={"addresses": 500000, "texts": 30000, "malformed": 30000, "names": 10000, "resolutions": 50000, "sockets": 300},
       assumptions=["names are resolved by a stand-in for getaddrinfo; numeric hosts and all services by the real one"])
def k26(t):
    return t.shards("addr", build_exe("asan", "h_addr.cc", wraps=("getaddrinfo",)), t.n(120000, 2000000), 8, timeout=t.n(300, 2000))


@check("K27", rule="random histories of up to 40 operations (make, copy, move, assign, swap, clear, cast, each also onto itself and while empty) over "
       "4 Any (15 element types) or UniqueAny (12 types) holders and 3 optionals (8 element types with conversions), copies that throw at random, "
       "with every cast of every holder compared to a model after each step and instance counts at the end; RawAny and pointer helpers; time "
       "stamps: random instants (around zero, negative, far) and intervals in every unit against 64-bit arithmetic, and texts in nine time "
       "zones around changes of the clock to text and back, and damaged texts",
       min_counts={"operations": 2000000, "throwing_copies": 1000, "instants": 5000000, "texts": 200000, "malformed_texts": 50000})
def k27(t):
    js = []
    exe = build_exe("asan", "h_value.cc")
    for i, (m, q, th) in enumerate((("any", 200000, 4000000), ("unique", 200000, 4000000), ("optional", 250000, 6000000), ("ts", 1600000, 40000000), ("tz", 30000, 600000))):
        js += t.shards("value-" + m, exe, t.n(q, th), 4, ["--mode", m], base=i, timeout=t.n(300, 2400))
    return js


@check("K29", rule="random messages (0 bytes to 64 MB minus one, every field kind) encoded by the real codec and by an independent one; streams of up to "
       "dozens of frames fed to the decoder whole, by single bytes and in random segments, intact or with one flipped bit, changed size, tag, "
       "payload or checksum, inserted or deleted bytes, cut off or pure noise, each judged by an independent reference decoder (outcomes, "
       "contents, bytes left); the same over real connections with short reads and writes; the zero-copy output stream alone; a case is the "
       "stream with its segmentation",
       min_counts={"messages": 20000, "segments": 300000, "stream_ops": 20000, "wire_messages": 5000, "wire_errors": 100, "big_messages": 8},
       assumptions=["the tag is not empty for Send", "libprotobuf is trusted (and not instrumented)"])
def k29(t):
    exe = build_pb_exe("asan", "h_codec.cc", wraps=NETWRAPS + sched("asan"))
    js = t.shards("codec-decode", exe, t.n(80000, 1500000), 4, ["--mode", "decode"], timeout=t.n(400, 2400))
    js += t.shards("codec-wire", exe, t.n(8000, 100000), 4, ["--mode", "wire"], base=1, timeout=t.n(400, 2400))
    js += t.shards("codec-big", exe, t.n(24, 300), 2, ["--mode", "big"], base=2, timeout=t.n(400, 2400))
    return js


@check("K30", technique=CONC, rule="1-4 threads making calls over 1-3 real connections to a real server with 0-2 extra loops whose methods finish at once, on "
       "other threads, in batches backwards or only after the deadline, with every kind of deadline (none, near, past, farthest) and closure, "
       "controllers and requests that end at once; connections, channels and servers ended in every order with calls in progress; a scripted "
       "client sending incomplete, unknown, malformed, damaged and response messages; a scripted server answering in any order, with errors, "
       "twice, malformed, unasked or never, and asking back; delays injected at polls; a case is the configuration with its counts of calls, "
       "completions and late answers",
       min_counts={"calls": 20000, "completed": 10000, "dropped": 3000, "late_responses": 800, "timely": 1500, "ended_calls": 6000, "raw_requests": 8000,
                   "raw_answers": 5000, "client_refusals": 200},
       assumptions=["a channel is destroyed in its loop after its connection ended", "methods do not complete while the server's loops are being "
                    "destroyed", "a completion that is never run is released by its owner", "libprotobuf is trusted (and not instrumented)"])
def k30(t):
    js = []
    for i, fl in enumerate(("asan", "tsan")):
        exe = build_pb_exe(fl, "h_rpc.cc", wraps=NETWRAPS + sched(fl))
        for j, (m, q, th) in enumerate((("calls", 700, 20000), ("ending", 500, 15000), ("rawclient", 500, 15000), ("rawserver", 500, 15000))):
            js += t.shards("rpc-%s-%s" % (m, fl), exe, t.n(q, th), 2, ["--mode", m], flavor=fl, base=4 * i + j, timeout=t.n(400, 2400))
    return js


@check("K28", technique=CONC, rule="random programs: 2-5 threads, tasks on 1-3 loops (some interrupted by signals or on the poll back end), timers and pool "
       "tasks all drawing from one set of operations - sends of every kind, closes, queries, tasks, timers, cancels, clients made, connected, "
       "disconnected, stopped, replaced and queried, server calls while the server is replaced, logging and its settings, locks, latches, pools, "
       "loop threads, process queries - on shared connections, clients, locks and loops, then ended in random order and by several threads; "
       "race detector and address sanitizer, plus order and integrity of what each sender sent, ups = downs, every task and timer exactly once, "
       "lock-protected counters, descriptors; a case is the program with its counts",
       min_counts={"sends": 100000, "closes": 10000, "read_controls": 10000, "queries": 50000, "tasks": 80000, "timers": 50000, "cancels": 20000,
                   "client_calls": 50000, "server_calls": 30000, "log_statements": 40000, "lock_operations": 40000, "pool_tasks": 15000,
                   "latches": 10000, "process_calls": 6000, "loop_threads": 1000, "server_restarts": 1500, "messages": 30000,
                   "log_records": 200000, "connections": 10000},
       assumptions=["a connection served by one of a server's own loops is not used once that server is being destroyed",
                    "reading is switched on and off in the loop of the connection"])
def k28(t):
    js = []
    for i, (fl, q, th) in enumerate((("tsan", 4000, 150000), ("asan", 4000, 150000))):
        js += t.shards("mix-" + fl, build_exe(fl, "h_mix.cc", wraps=NETWRAPS + sched(fl)), t.n(q, th), 4, flavor=fl, base=i, timeout=t.n(400, 2400))
    return js


@check("K31", technique=CONC, rule="scenarios: 1-5 threads of every origin (library threads named at random, moved and destroyed while running, pool "
       "threads, loop threads, foreign ones) asking who they are before and after each other, pools of loops; 1-9 thread-local keys of three types "
       "used 3-40 times by 1-5 threads in 1-3 waves, every value compared with what its thread made and counted; child processes in which a "
       "task, timer, callback or initialization throws one of four exceptions in 13 places; a case is the scenario with what was observed",
       min_counts={"identities": 20000, "identity_threads": 5000, "local_uses": 20000, "local_values": 5000, "throws": 60, "loop_pools": 100},
       assumptions=["thread-local keys outlive the threads that use them"])
def k31(t):
    js = []
    for i, (fl, q, th) in enumerate((("asan", 6000, 150000), ("tsan", 4000, 100000))):
        js += t.shards("thread-" + fl, build_exe(fl, "h_thread.cc", wraps=sched(fl)), t.n(q, th), 4, ["--mode", "k31"],
                       flavor=fl, base=i, timeout=t.n(300, 2400))
    return js
