#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script because JSON lines are hard to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

# ---------------------------------------------------------------- containers
p("C01", "Array keeps its exact sequence across any history with failing allocations",
  "After any history of add, delete (ordered, unordered, last), clear, sort and read operations, the array holds exactly the elements a reference sequence holds, in the same order, and iteration visits each once. An add whose memory request is refused, or that would exceed the largest size the array was built for, reports out of memory and changes nothing; the next add that finds room succeeds and clears the report. No operation touches memory outside the array's own blocks and terminating the array releases everything.",
  ["histories", "fault_sequences"], "every operation history over several element sizes, with any subset of allocation requests refused",
  "Tests run one fixed history and refuse at most one allocation at a fixed place; the quantifier is over histories times refused allocations.",
  ["array/sc_array.h"], [("growth and out-of-memory flag", "array/sc_array.h sc_array_add"), ("deletion", "array/sc_array.h sc_array_del*")],
  ["sc_array_size/at/last/foreach/oom after each step"])
p("C02", "Queue keeps its exact order at both ends across any history with OOM",
  "After any history of adds and deletes at either end, clears and reads, the queue holds exactly the elements a reference double-ended queue holds in order, by index, by iteration and at both ends, however often it wrapped or grew. An add whose memory request is refused, or that would exceed the largest size the queue was built for, reports out of memory and changes nothing, and once room or memory is available again adds succeed again. No operation touches memory outside the queue's blocks and terminating releases everything.",
  ["histories", "fault_sequences"], "every operation history, including wrap-around positions at the moment of growth, with any subset of allocation requests refused",
  "Tests fill and drain in a few fixed patterns with one failing allocation; growth while wrapped, and recovery after a refusal, depend on the history.",
  ["queue/sc_queue.h"], [("ring growth", "queue/sc_queue.h sc_queue_expand"), ("adds and deletes", "queue/sc_queue.h sc_queue_add_last/add_first/del_last/del_first")],
  ["sc_queue_size/at/peek/foreach/oom after each step"])
p("C03", "Map equals a reference map across any history with failing allocations",
  "After any history of put, get, delete, clear and iteration, for integer and string keys including the zero/NULL key, each result, previous value, found flag, size and the set of pairs iterated equal those of a reference map; a string key is the one most recently put, so that the text of a replaced one may be released. A put whose memory request is refused, or that would exceed the largest size the map was built for, reports out of memory and leaves every existing pair and the size as they were, and later puts that find room succeed. No lookup fails to terminate, no operation touches memory outside the map's blocks, and terminating releases everything.",
  ["histories", "configurations", "fault_sequences"], "every operation history over colliding and non-colliding keys, initial capacity, load factor and key/value type, with any subset of allocation requests refused",
  "Tests insert and remove a few key patterns; cluster repair on deletion, growth at the load limit and refused growth depend on the history of collisions.",
  ["map/sc_map.c", "map/sc_map.h"], [("growth", "map/sc_map.c sc_map_remap_*"), ("probe and insert", "map/sc_map.c sc_map_put_*"), ("backward shift on delete", "map/sc_map.c sc_map_del_*")],
  ["sc_map_put/get/del/size/found/oom/foreach"])
p("C04", "Heap pops in key order and loses nothing across any history with OOM",
  "After any history of add, peek, pop and clear, peek and pop return an element with the smallest key present, every added element is popped exactly once with its own data, and the size is right. An add whose memory request is refused, or that would exceed the largest size the heap was built for, returns false and leaves the heap exactly as it was, so that later adds and pops behave as if it had not been tried. No operation touches memory outside the heap's block and terminating releases everything.",
  ["histories", "fault_sequences"], "every operation history and initial capacity, with any subset of allocation requests refused",
  "Tests use a few sizes and do not continue after a refused allocation; the property is about what follows a refusal.",
  ["heap/sc_heap.c"], [("insert and growth", "heap/sc_heap.c sc_heap_add"), ("sift down", "heap/sc_heap.c sc_heap_pop")],
  ["sc_heap_add/peek/pop/size"])
p("C05", "String operations are all-or-nothing and exact under failing allocations",
  "Each length-prefixed string operation (create, format, duplicate, set, append, trim, substring, replace, tokenize) yields exactly the bytes and length of a reference string operation. When its memory request is refused, or the result would be longer than the longest string the library was built for, it reports failure and the string is unchanged and still usable. Tokenizing yields the same tokens as a reference splitter and leaves the string unchanged after token end, even when stopped early, and no operation touches memory outside the string's block or leaks one.",
  ["histories", "inputs", "fault_sequences"], "every history of operations over short strings with any subset of allocation requests refused",
  "Tests check fixed strings with one failing allocation; the state left behind by each refusal, followed by more operations, is not sampled.",
  ["string/sc_str.c"], [("create and format", "string/sc_str.c sc_str_create_len/sc_str_create_va"), ("replace before release", "string/sc_str.c sc_str_set/trim/substring/replace"), ("in-place tokens", "string/sc_str.c sc_str_token_begin/end")],
  ["returned strings, sc_str_len, return codes"])
p("C06", "Buffer reads back what was written across growth, limits and refusals",
  "Over any history of puts, gets, peeks, in-place sets, compaction, shrinking, moves and position changes, a buffer returns exactly the values that were written, in order, whatever growth or compaction happened in between. A put that exceeds the limit, the wrapped memory or available memory marks the buffer invalid and never changes bytes before the write position, and a put whose growth, in whole 4096-byte steps, fits the limit with memory available succeeds; after a clear the buffer is usable again. Wrapped memory is never reallocated or freed, no operation touches memory outside the buffer, and terminating releases what the buffer owns.",
  ["histories", "configurations", "fault_sequences"], "every operation history over owned and wrapped buffers, limits and initial capacities, with any subset of allocation requests refused",
  "Tests put and get fixed sequences; the boundary between fitting and not fitting moves with the history, and refused growth is tried at one or two points only.",
  ["buffer/sc_buf.c", "buffer/sc_buf.h"], [("growth and limit", "buffer/sc_buf.c sc_buf_reserve"), ("formatted puts", "buffer/sc_buf.c sc_buf_put_fmt/put_text"), ("compaction", "buffer/sc_buf.c sc_buf_compact/shrink/move")],
  ["values returned by get/peek, rpos/wpos/cap, sc_buf_valid"])
p("C07", "Decoding damaged or truncated bytes never leaves the buffer's bounds",
  "Whatever bytes a buffer holds (flipped, truncated, or lengths damaged in storage or transit) and whatever positions and lengths are asked for, read functions never touch memory outside the written bytes and write-at functions never touch memory outside the capacity. A read that does not fit marks the buffer invalid, yields zero or NULL, and leaves the read position where it was (a string may have consumed its length); the read position never moves backwards or past the write position.",
  ["inputs", "fault_sequences"], "every stored byte image, every corruption of it, and every order of reads with arbitrary positions and lengths, including near 2^64",
  "Tests decode well-formed data and a few short reads; damaged 8-byte lengths near the top of the range are never tried.",
  ["buffer/sc_buf.c"], [("range checks", "buffer/sc_buf.c sc_buf_peek_*_pos/sc_buf_set_*_pos"), ("length-prefixed reads", "buffer/sc_buf.c sc_buf_get_str/get_blob/get_data/peek_data")],
  ["returned values, sc_buf_valid, rpos; every memory access of the real code"])

# ---------------------------------------------------------------- time
p("T01", "A timer fires exactly once, never early, and never after it is cancelled",
  "A timer that was added successfully and not cancelled or cleared is delivered exactly once, with its own type, data and scheduled deadline, in a poll whose timestamp is not before the deadline; a cancelled or cleared timer is never delivered. This holds for any advance of the clock between polls, when callbacks add or cancel other timers, and when the set of timers grows meanwhile. An add whose memory request is refused, or that would exceed the largest size the timer was built for, returns the invalid id and disturbs no other timer.",
  ["histories", "schedules", "fault_sequences"], "every history of add, cancel, clear and poll with arbitrary clock advances (stalls, jumps, tiny steps), from inside and outside callbacks, with any subset of allocation requests refused",
  "Tests advance a fixed clock in fixed steps with simple callbacks; growth from inside a callback and stalls across a whole wheel turn are not sampled.",
  ["timer/sc_timer.c"], [("slot choice", "timer/sc_timer.c sc_timer_add"), ("growth that keeps ids valid", "timer/sc_timer.c expand"), ("expiry", "timer/sc_timer.c sc_timer_timeout"), ("cancel by id", "timer/sc_timer.c sc_timer_cancel")],
  ["timer callback arguments, ids returned by add"])
p("T02", "Due timers are delivered with bounded lateness and the poll wait is bounded",
  "Measured in the whole 16-unit ticks that polls consume, a timer is delivered at the latest in the first poll by which sixteen ticks have been consumed after its deadline; if no poll ever covered more than sixteen ticks, it is delivered by the poll in which its own timeout/16 + 1 ticks have been consumed. The wait a poll returns is never above 16 units, and a poll that consumed no tick returns exactly the time left to the next tick, so a loop that sleeps for the returned wait keeps ticking.",
  ["histories", "schedules"], "every history of adds and polls with arbitrary poll gaps, including late, early and stalled polls",
  "Tests poll on a regular schedule; the bound must hold for every pattern of stalls and catch-up.",
  ["timer/sc_timer.c"], [("wheel advance", "timer/sc_timer.c sc_timer_timeout"), ("slot choice", "timer/sc_timer.c sc_timer_add")],
  ["poll in which the callback runs, return value of the poll"])
p("T03", "Sleep never returns early and the clocks report the system's clocks",
  "A successful sleep of n milliseconds lasts at least n milliseconds of monotonic time however many signals interrupt it, does not start over on each interruption, and ends. The monotonic clock never goes backwards and ignores wall-clock steps, the wall clock follows them, and the millisecond and nanosecond readings of the same clock agree.",
  ["schedules", "fault_sequences"], "every pattern of signal interruptions during the sleep and of wall-clock steps, and every sleep length",
  "Tests sleep once for real without interruptions or clock steps.",
  ["time/sc_time.c"], [("resume with the remaining time", "time/sc_time.c sc_time_sleep"), ("clock choice and conversion", "time/sc_time.c sc_time_ms/ns/mono_ms/mono_ns")],
  ["simulated clock before and after each call"])

# ---------------------------------------------------------------- threads
p("M01", "A condition delivers the latest signal to one waiter and loses no wake-up",
  "The condition object behaves as a one-place mailbox: each wait returns the data of a signal not yet consumed, no signal is consumed twice, a later signal replaces an unconsumed one, and data is never torn or invented. If a signal is pending or arrives, some waiting thread returns; a spurious wake-up never makes a wait return. If initialisation or termination fails it reports a negative value with errno telling why and leaves nothing behind, and terminating it again is harmless.",
  ["schedules", "fault_sequences"], "every interleaving of any number of signalling and waiting threads at memory-access granularity, spurious wake-ups, any choice of woken waiter, and failing initialisation steps",
  "Tests run one signaller and one waiter under whatever schedule the OS picks; lost wake-ups need specific interleavings.",
  ["condition/sc_cond.c"], [("state under the mutex", "condition/sc_cond.c sc_cond_signal/sc_cond_wait"), ("unwinding", "condition/sc_cond.c sc_cond_init")],
  ["history of signal/wait calls with simulator order"])
p("M02", "A mutex excludes, and every thread that waits for it gets in",
  "Between a lock and its unlock no other thread's lock of the same mutex returns, and what was written inside one critical section is visible in the next. When holders always unlock, every lock call returns and no schedule deadlocks. If initialisation or termination is refused it reports -1, and leaves nothing behind.",
  ["schedules", "fault_sequences"], "every interleaving of several threads and mutexes at memory-access granularity and failing initialisation",
  "Tests run a few iterations on real threads; exclusion has to hold for all interleavings.",
  ["mutex/sc_mutex.c"], [("lock and unlock", "mutex/sc_mutex.c sc_mutex_lock/sc_mutex_unlock"), ("init and attribute handling", "mutex/sc_mutex.c sc_mutex_init")],
  ["non-atomic counter and ownership flag maintained inside critical sections"])
p("M03", "Thread start runs the function once; join returns its result after it ended",
  "A successful start runs the function exactly once with its argument in another thread, and join returns success with that function's return value only after it has finished, with its writes visible. A failed start reports -1 with text that names the reason, runs nothing, and leaves an object on which join and term are harmless; a refused join reports -1 with the reason; joining twice or terminating after a join is harmless and joins nothing else.",
  ["schedules", "fault_sequences"], "every interleaving of starter, started and joining code and every failing step of thread creation or join",
  "Tests start threads that start; refusals by the system are mocked once and the object is not used afterwards.",
  ["thread/sc_thread.c"], [("start", "thread/sc_thread.c sc_thread_start"), ("join once", "thread/sc_thread.c sc_thread_join")],
  ["function run count, argument, join result, order of events"])
p("M04", "Threads using separate objects never affect each other",
  "When several threads use the library at once, each with its own objects (strings, buffers, maps, queues, heaps, timers, checksums, generators, parsers, sockets, pollers), every thread gets exactly the results it would get alone, under every interleaving. Error text is per object or per thread, so one thread's failure never appears as another's, and there is no data race on hidden shared state.",
  ["schedules", "fault_sequences"], "every interleaving at memory-access granularity of threads running independent workloads, with failures injected into some of them",
  "Unit tests are single-threaded for these modules; a hidden static buffer or cache passes all of them.",
  ["string/sc_str.c", "buffer/sc_buf.c", "map/sc_map.c", "heap/sc_heap.c", "timer/sc_timer.c", "crc32/sc_crc32.c", "sc/sc.c", "ini/sc_ini.c", "uri/sc_uri.c", "option/sc_option.c", "socket/sc_sock.c", "signal/sc_signal.c"],
  [("no shared mutable statics", "all modules"), ("per-thread poll error text", "socket/sc_sock.c sc_sock_poll_errstr"), ("tables built once by init", "crc32/sc_crc32.c sc_crc32_init")],
  ["results compared with a run of the same workload alone; race detector over every access of the real code"])

# ---------------------------------------------------------------- logger
p("L01", "Each log call yields one whole line per enabled destination, in one order",
  "A log call at or above the level produces exactly one record in each enabled destination (stdout, or stderr for errors; the file; the callback) carrying its time, level, the calling thread's name and the whole message, and a call below the level produces none. Records of concurrent threads are never interleaved within a record, appear in the same relative order in every destination, and keep each thread's program order. Settings may be changed by any thread at any time and take effect for later calls.",
  ["schedules", "configurations"], "every interleaving of logging threads and threads changing level, destinations, callback and thread names, in both the C99 and C11 builds",
  "Tests log from one thread, or from several without checking the output; torn or reordered records need specific interleavings.",
  ["logger/sc_log.c", "logger/sc_log.h"], [("one lock around all destinations", "logger/sc_log.c sc_log_log"), ("record header", "logger/sc_log.c sc_log_print_header"), ("thread-local name", "logger/sc_log.c sc_name")],
  ["bytes of simulated stdout, stderr and log file; callback arguments"])
p("L02", "Log rotation loses no record and bounds the current file",
  "While file logging works, the previous file followed by the current file is always a contiguous, unbroken suffix of the records written, and no record is split or duplicated by rotation. The current file is rotated once it exceeds the size limit, so it never holds more than the limit plus one record, also when appending to a file left by an earlier run; the previous file is replaced only at a rotation.",
  ["histories", "schedules", "fault_sequences"], "every history of message sizes, reopen and restart points and logging threads across any number of rotations, including a refused rename at a rotation, after which records already on disk must survive",
  "Tests rotate on one thread with fixed messages and look only at whether files exist.",
  ["logger/sc_log.c"], [("size accounting and rotation", "logger/sc_log.c sc_log_file"), ("resume size on open", "logger/sc_log.c sc_log_set_file")],
  ["contents of the two simulated files after flush"])
p("L03", "Logger faults are reported and stay confined to the failing destination",
  "When opening, writing, renaming or clock conversion fails, or the callback returns an error, the affected call returns a negative or non-zero result, other enabled destinations still receive the record, no lock stays held, no stream is used after it was closed, and nothing leaks. Failure to initialise or to open a file is reported; afterwards logging, changing destinations and terminating still work and a later successful set of the file resumes file logging.",
  ["fault_sequences", "histories"], "every sequence of I/O, lock-initialisation and callback failures over every history of logger calls",
  "Tests mock a single failing call and stop there.",
  ["logger/sc_log.c"], [("error propagation", "logger/sc_log.c sc_log_log"), ("open and cleanup", "logger/sc_log.c sc_log_set_file/sc_log_term")],
  ["return codes, destinations, simulated stream and lock state"])

# ---------------------------------------------------------------- signals
p("S01", "The first shutdown signal requests shutdown once, a second one exits at once",
  "After initialisation the first SIGINT or SIGTERM writes exactly one byte to the shutdown descriptor and the interrupted program continues with errno unchanged; any further one, even while the first is still being handled on this or another thread, ends the process with status 1 and no second byte is written. If no shutdown descriptor is set the process exits with status 0, and if the byte cannot be written it exits with status 1. The signal that came is named, with its number, on the log descriptor, or a standard one if none is set. SIGPIPE and SIGHUP are ignored, the handlers call only async-signal-safe functions, and a refused registration makes initialisation fail.",
  ["schedules", "fault_sequences"], "every point of the interrupted code (including inside the handler and inside library calls) at which one or more signals arrive, and every failing write or registration",
  "Tests raise one signal at a quiet moment with exit stubbed out; nested delivery and real exits are never run.",
  ["signal/sc_signal.c", "signal/sc_signal.h"], [("shutdown handler", "signal/sc_signal.c sc_signal_on_shutdown"), ("registration", "signal/sc_signal.c sc_signal_init")],
  ["bytes on the simulated shutdown descriptor, exit status, errno after the handler"])
p("S02", "A fatal signal leaves a crash report and still kills the process",
  "When SIGSEGV, SIGABRT, SIGBUS, SIGFPE or SIGILL arrives, a report naming the signal and its number is written to the log descriptor if one is set and to stderr otherwise, and the process then dies by that same signal. It dies by it also when every write of the report fails or is short and at whatever point the signal struck; when the report code itself faults the process dies by that fault instead of hanging; only async-signal-safe functions are used.",
  ["schedules", "fault_sequences"], "every point at which the fault strikes (including inside a logging or shutdown handler), and every failing or short write",
  "Tests call the handler once with the kill stubbed out.",
  ["signal/sc_signal.c"], [("fatal handler", "signal/sc_signal.c sc_signal_on_fatal"), ("registration flags", "signal/sc_signal.c sc_signal_init")],
  ["bytes on the simulated log descriptor or stderr, terminating signal"])
p("S03", "Signal-safe formatting is exact, bounded, reentrant and allocation-free",
  "For the supported conversions the signal-safe formatter produces the same text as standard formatting, cut to the buffer and always terminated within it, and returns the number of characters it wrote; an unsupported conversion yields -1. It never writes outside the given buffer, calls nothing that is not async-signal-safe, and gives the same result when a signal handler formats another message in the middle of it. Signal-safe logging writes exactly that text to its descriptor.",
  ["schedules", "inputs"], "every format, argument and buffer size, every point at which a handler that formats too interrupts it",
  "Tests format a few strings without interruption or concurrent use.",
  ["signal/sc_signal.c"], [("formatter", "signal/sc_signal.c sc_signal_vsnprintf"), ("log", "signal/sc_signal.c sc_signal_log")],
  ["buffer bytes with guard zones, return values"])

# ---------------------------------------------------------------- sockets
p("N01", "Bytes sent over a socket arrive once, in order, whatever the network does",
  "The bytes a peer receives are exactly a prefix of the bytes reported as sent on that connection, in order, without loss, duplication or change, and all of them once the sender closes in an orderly way. An interrupted call never surfaces as an error or repeats data, a call that would block on a non-blocking socket reports EAGAIN, end of stream is reported as a failure distinct from EAGAIN, and a reset or broken connection is reported as an error. Every call returns when data, space, end of stream or an error is available.",
  ["schedules", "fault_sequences"], "every segmentation, delay, short read or write, interruption, full buffer, reset and close on TCP (IPv4 and IPv6) and Unix connections, blocking and non-blocking, under every interleaving of the two sides",
  "Tests exchange small messages over loopback, where short transfers, interruptions and resets do not happen.",
  ["socket/sc_sock.c"], [("send and receive with retry", "socket/sc_sock.c sc_sock_send/sc_sock_recv"), ("connection set-up", "socket/sc_sock.c sc_sock_connect/sc_sock_accept/sc_sock_finish_connect")],
  ["return values and errno of send/recv against the simulated connection's byte log"])
p("N02", "A failed socket call reports why and leaves no descriptor behind",
  "If any step of listen, connect or accept fails, the call returns a negative value with a non-empty error text, no descriptor or address list stays open, and the object can be terminated or used again. Connect succeeds if some resolved address accepts the connection, trying addresses of the requested family first; a pending non-blocking connect reports EAGAIN and finishing it reports the true outcome. After success, the local and remote address strings of the two ends name each other. An address whose listener was terminated can be listened on again at once, whatever became of its connections, and listeners of both address families can share a port.",
  ["fault_sequences", "configurations"], "every combination of failing system calls and refused, unreachable or pending addresses over every resolved address list, for each family and mode, source-bound or not",
  "Tests mock one failing call at a time over loopback with single-address hosts and do not watch descriptors.",
  ["socket/sc_sock.c"], [("address iteration and cleanup", "socket/sc_sock.c sc_sock_connect/sc_sock_bind/sc_sock_listen"), ("accept cleanup", "socket/sc_sock.c sc_sock_accept"), ("error text", "socket/sc_sock.c sc_sock_errstr")],
  ["descriptor table of the simulated kernel, return values, sc_sock_error text, address strings"])
p("N03", "The poller reports exactly the readiness and registrations in force",
  "A wait returns, with the registered user data, every registered descriptor that is ready for a requested event and reports only events requested at that time, except that a closed or failed peer is reported as both readable and writable. Adding and deleting events leaves exactly the union or difference registered, a failed add or delete leaves the previous registration in force and says so, and a fully deleted descriptor is never reported again. A wait honours its timeout, is not broken by interruptions, and is safe while other threads add or delete descriptors.",
  ["schedules", "histories", "fault_sequences"], "every history of add, delete, wait and traffic over several descriptors, level- and edge-triggered, with failing registrations, interrupted waits and concurrent threads under every interleaving",
  "Tests poll a few ready descriptors from one thread; failed registrations and concurrent changes are not followed up.",
  ["socket/sc_sock.c"], [("registration with rollback", "socket/sc_sock.c sc_sock_poll_add/sc_sock_poll_del"), ("event translation", "socket/sc_sock.c sc_sock_poll_event"), ("wait", "socket/sc_sock.c sc_sock_poll_wait")],
  ["events returned per wait against the simulated kernel's readiness"])
p("N04", "Sockets have the blocking mode asked for, on every path",
  "A socket initialised as blocking or non-blocking has that mode after listen, connect or accept for every address family (an accepted socket takes the listener's mode), and after a successful mode change. Hence a non-blocking socket never blocks in connect, accept, send or receive, and a blocking one never reports EAGAIN unless a timeout was set.",
  ["configurations", "schedules", "fault_sequences"], "every family, mode and connection path, under every network delay",
  "Tests check a few combinations where data is already there, so a socket in the wrong mode is not noticed.",
  ["socket/sc_sock.c"], [("mode switch", "socket/sc_sock.c sc_sock_set_blocking"), ("applied on set-up", "socket/sc_sock.c sc_sock_bind/sc_sock_connect/sc_sock_accept")],
  ["whether calls block in the simulated kernel; descriptor flags"])
p("N05", "The pipe carries bytes in order and interruptions stay invisible",
  "Bytes written to a pipe object are read exactly once, in order; each call returns the count transferred, blocks while it must, and never fails because a signal interrupted it. Creation either yields both ends, with the poll descriptor being the read end, or fails with error text and no descriptor open; termination closes both ends exactly once and reports a failed close.",
  ["schedules", "fault_sequences"], "every interleaving of writers and readers, short transfers, full and empty pipes, interruptions and failing system calls",
  "Tests write and read a few bytes in one thread.",
  ["socket/sc_sock.c"], [("retry on interruption", "socket/sc_sock.c sc_sock_pipe_write/sc_sock_pipe_read"), ("create and close", "socket/sc_sock.c sc_sock_pipe_init/sc_sock_pipe_term")],
  ["byte log and descriptor table of the simulated kernel"])
p("N06", "A service notification is one datagram to the named socket, or an error",
  "Notifying the service manager sends the whole message as exactly one datagram to the socket named by the environment, path or abstract, and returns success; if the name is missing or malformed, or any system call fails, it returns a negative value with errno telling the call that failed and sends nothing. No descriptor stays open, no SIGPIPE is raised, and concurrent calls from several threads do not disturb each other.",
  ["fault_sequences", "inputs", "schedules"], "every socket name, message and failing system call, and concurrent notifiers",
  "Tests only exercise failing mocks; no datagram is ever received and checked.",
  ["socket/sc_sock.c"], [("address build and send", "socket/sc_sock.c sc_sock_notify_systemd")],
  ["datagrams received by simulated sockets, descriptor table"])
p("N07", "Socket timeouts expire after the time asked for, not before",
  "After a receive or send timeout of n milliseconds is set on a blocking socket, a call that cannot make progress fails with EAGAIN no earlier than n milliseconds later and does end; data or space that appears before that is used. A zero timeout waits for ever, and a refused setting is reported.",
  ["schedules", "fault_sequences"], "every timeout value and every arrival time of data or space relative to the timeout",
  "Tests only check that setting a timeout returns success.",
  ["socket/sc_sock.c"], [("conversion to timeval", "socket/sc_sock.c sc_sock_set_rcvtimeo/sc_sock_set_sndtimeo")],
  ["simulated time spent in blocked calls"])

# ---------------------------------------------------------------- files
p("F01", "A file mapping is created whole or not at all",
  "A successful map covers exactly the requested range (the rest of the file if the length is zero) of the named file: its bytes equal the file's, stores to a shared writable map reach the file, and with write protection requested the file has at least offset plus length bytes and is never shortened or overwritten. If any step fails or the disk is full the call returns a negative value with error text, nothing stays mapped or open, and the file's existing bytes are unchanged. Terminating unmaps and closes exactly once and is harmless on an unmapped object.",
  ["fault_sequences", "configurations"], "every file size, offset, length, protection and flag combination, every failing or interrupted system call",
  "Tests map one small file and mock one failing call at a time without looking at the file or descriptors.",
  ["memory-map/sc_mmap.c"], [("open, grow, map, unwind", "memory-map/sc_mmap.c sc_mmap_init"), ("unmap and close", "memory-map/sc_mmap.c sc_mmap_term")],
  ["simulated file contents, mappings and descriptor table"])
p("F02", "Synced bytes of a mapping survive a crash",
  "When syncing a range of a shared mapping returns success, every byte stored in that range before the call is in the file after a crash at any later moment, whatever the range's alignment; bytes that were not synced hold an old or a new value, nothing else. A failed sync reports an error. Locking and unlocking a range affect exactly the pages of that range and report failures.",
  ["crash_points", "histories", "fault_sequences"], "every history of stores and syncs over arbitrary ranges, every crash point, any subset of unsynced pages written back or torn, failing syncs",
  "Tests call sync once and never crash; the page arithmetic at range ends is invisible without one.",
  ["memory-map/sc_mmap.c"], [("page alignment of the range", "memory-map/sc_mmap.c sc_mmap_msync"), ("locking", "memory-map/sc_mmap.c sc_mmap_mlock/sc_mmap_munlock")],
  ["durable file image of the simulated disk after a simulated crash"])
p("F03", "Reading an INI file yields the same items as its text, or reports the failure",
  "Parsing a file reports the same items (line, section, key, value, in order) and the same result as parsing the same text from memory, however reads are split, and lines longer than the limit are cut, not split. If a read fails, the result is not success and the items reported are a prefix of the full list with no value invented from a cut line; if the file cannot be opened the result is -1 and no item is reported. Parsing stops at the first callback that returns non-zero, and the file is always closed.",
  ["fault_sequences", "inputs", "schedules"], "every text, every split of the reads, every read or open failure and every callback that stops the parse, with concurrent parsers",
  "Tests parse well-formed small files; read errors in mid-file and split reads never happen.",
  ["ini/sc_ini.c"], [("line reader", "ini/sc_ini.c file_line/string_line"), ("parser", "ini/sc_ini.c sc_ini_parse"), ("error detection", "ini/sc_ini.c sc_ini_parse_file")],
  ["callback sequence and result code; simulated stream state"])

# ---------------------------------------------------------------- resources
p("R01", "Whatever fails, nothing leaks and nothing is released twice",
  "For every module, after any sequence of operations with any failing allocation or system call, and after terminating the objects that were created, no memory block, descriptor, mapping, stream, address list, thread or lock created by the library remains, none was released twice, and none was used after release. Creation that reports failure leaves nothing to release, and terminating an object after a failed creation is harmless where the API allows it.",
  ["fault_sequences", "histories", "schedules"], "every operation history of every module with any subset of its allocations and system calls failing",
  "Tests mock single failures and do not count resources; leaks on error paths are invisible to assertions on return codes.",
  ["array/sc_array.h", "queue/sc_queue.h", "map/sc_map.c", "heap/sc_heap.c", "string/sc_str.c", "buffer/sc_buf.c", "timer/sc_timer.c", "uri/sc_uri.c", "ini/sc_ini.c", "logger/sc_log.c", "memory-map/sc_mmap.c", "socket/sc_sock.c", "condition/sc_cond.c", "mutex/sc_mutex.c", "thread/sc_thread.c"],
  [("error-path cleanup", "every *_init/*_term/*_create pair")],
  ["resource tables of the simulated heap and kernel at the end of every run"])
p("P01", "The profiler reports the time and counts of the measured intervals only",
  "Between start and end the profiler reports as elapsed time the sum of the monotonic time between each start and the following pause (or end), unaffected by wall-clock steps, and counters are enabled exactly during those intervals; starting while it already runs continues the interval. Each counter is reported once with the count read for it, scaled up by the share of the enabled time in which it was really counted, and ending closes every counter descriptor so that a new measurement starts from zero. When a counter cannot be opened or a system call on it fails, the process ends with a message rather than printing wrong numbers.",
  ["schedules", "histories"], "every history of start, pause and end with arbitrary clock advances between them, over several measurements",
  "The counters are not available in a test sandbox, so the tests cannot run the module at all.",
  ["perf/sc_perf.c"], [("interval accounting", "perf/sc_perf.c sc_perf_start/sc_perf_pause"), ("report", "perf/sc_perf.c sc_perf_end")],
  ["printed report against simulated clock and counters"])

# ---------------------------------------------------------------- pure functions (not applicable)
p("D01", "The linked list keeps its exact order across any history of operations",
  "After any history of head, tail, before and after insertions, deletions and pops, the list holds the same elements in the same order as a reference list in both directions, and deleting an element that is in no list is harmless.",
  ["histories"], "every operation history", "Tests run fixed histories.",
  ["linked-list/sc_list.c", "linked-list/sc_list.h"], [("link updates", "linked-list/sc_list.c")], ["iteration in both directions"])
p("U01", "A URI is split into the parts of RFC 3986 and reassembles to itself",
  "For every input string, URI creation either returns NULL or yields scheme, user info, host, port, path, query and fragment that are exactly the corresponding substrings, and the full string equals the input.",
  ["inputs"], "every input string", "Tests split fixed strings.",
  ["uri/sc_uri.c"], [("splitting", "uri/sc_uri.c sc_uri_create")], ["returned parts"])
p("O01", "Command line options are matched exactly with their values",
  "For every argument vector and option table, an argument is reported as the option whose letter or long name it spells, with the value after '=' if any, and as unknown otherwise.",
  ["inputs"], "every argument vector and option table", "Tests parse fixed vectors.",
  ["option/sc_option.c"], [("matching", "option/sc_option.c sc_option_at")], ["returned letter and value"])
p("K01", "Checksums equal the standard CRC32C, in one piece or in any chunks",
  "For every byte string and every way of cutting it into chunks, the checksum computed incrementally equals the standard CRC32C of the whole, on every supported implementation path.",
  ["inputs"], "every byte string, alignment and chunking", "Tests compare a few vectors.",
  ["crc32/sc_crc32.c"], [("table and hardware paths", "crc32/sc_crc32.c sc_crc32")], ["returned checksum"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
