#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the list is kept here because it is easier to edit).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": observe or [], "hook_needed": None}})

p("C01", "Accepted events reach every handler exactly once; rejected ones reach none",
  "Every event logged from any thread that the logger's current filter accepts is handed to every handler of the logger exactly once, unaltered (severity, rendered message, attributes), and events of one thread arrive at each handler in the order that thread logged them; every sink of a handler gets the same rendered text. "
  "An event the filter rejects reaches no handler and its lazily supplied message is never computed; for an accepted event the message is computed exactly once. This holds for any number of threads sharing one logger, without data races, use of freed memory or deadlock.",
  ["schedules","histories"], "all interleavings of any number of logging threads, all message/attribute contents, all handler/sink layouts",
  "the root-logger tests log from one thread with a mock handler; the rc/* programs run threads but assert nothing about what was delivered",
  ["src/root.cpp","src/handler/blocking.cpp","include/blackhole/extensions/facade.hpp","include/blackhole/root.hpp"],
  [("root_logger_t::consume: snapshot, filter, activate, loop over handlers","src/root.cpp"),("blocking_t::handle: format once, emit to every sink","src/handler/blocking.cpp")],
  [("inner","shared_ptr to filter+handlers","include/blackhole/root.hpp")], ["sink_t::emit of a registered sink","filter function","lazy supplier"])

p("C02", "Reassigning a live logger is atomic and loses no event",
  "While other threads keep logging, a logger may be move-assigned a new configuration: each event is processed by exactly one configuration (one filter together with all of its handlers, never a mixture, none skipped), a log call that starts after the assignment returned is processed by the new (or a newer) configuration, and no accepted event is lost or duplicated. "
  "A replaced configuration is destroyed exactly once, only after every log call still using it has left, and promptly once none does, so that its sinks flush and close; no access ever touches freed memory.",
  ["schedules","histories"], "all interleavings of loggers, (several) reassigners and destruction of old configurations",
  "tests/rc/assign.cpp only checks that a few thousand reassignments do not crash under the OS scheduler; it never looks at the delivered events or at destruction",
  ["src/root.cpp","tests/rc/assign.cpp","README.md"],
  [("sync_t::load/store under a spinlock, shared_ptr snapshot kept for the whole call","src/root.cpp")],
  [("inner","current configuration","src/root.cpp")], ["sink_t::emit","sink destructor"])

p("C03", "Filter replacement is atomic and is never undone by a concurrent reassignment",
  "Replacing the filter of a live logger takes effect atomically: every event is judged by exactly one filter that was installed at some moment during that log call, a log call starting after the replacement returned is judged by the new (or a newer) filter, and a replaced filter object is not called after it has been destroyed. "
  "Filter replacements and logger reassignments running concurrently behave as if executed one after the other: an assignment that has returned is never reverted by a filter replacement.",
  ["schedules","histories"], "all interleavings of loggers, filter setters and reassigners",
  "tests/rc/filter.cpp checks only for crashes; no test runs filter() against operator= and looks at the outcome",
  ["src/root.cpp","tests/rc/filter.cpp"],
  [("inner_t::apply copies the filter under a spinlock","src/root.cpp"),("root_logger_t::filter","src/root.cpp")],
  [("filter","current filter function","src/root.cpp")], ["filter function invocation","sink_t::emit"])

p("C04", "A failing handler never disturbs the application or the other handlers",
  "Whatever a handler's formatter or sink throws (standard exception or any other type) while processing an event never propagates out of the log call, every other handler of that logger still receives that event exactly once, the failure is reported on standard output, and later events are processed normally by all handlers, including the one that failed.",
  ["fault_sequences","schedules"], "all sequences of failures (type, position, repetition) over handlers, with concurrent loggers",
  "tests have no or a single always-throwing handler; they do not combine failing and healthy handlers, non-std exceptions and concurrent loggers",
  ["src/root.cpp"], [("try/catch around each handler->handle","src/root.cpp")], None, ["log() return","sink_t::emit","standard output"])

p("C05", "Scoped and wrapper attributes attach to exactly the right events",
  "An event carries its own attributes, those of the wrappers it was logged through, and those of every scope currently open on that logger in the logging thread, most recently opened first, with their values intact; it never carries attributes of a closed scope, of another thread or of another logger. "
  "This holds when scopes are left by an exception, when handlers, filters or message suppliers throw, and while other threads open and close their own scopes on the same logger, when the logger is moved, swapped or reassigned by the thread that has the scopes open, and when wrappers are copied or moved.",
  ["schedules","histories","fault_sequences"], "all interleavings of threads opening/closing nested scopes and logging, with exceptions at any call",
  "the scope tests use one thread, one or two scopes and no exceptions",
  ["src/scope/watcher.cpp","src/scope/holder.cpp","src/wrapper.cpp","src/root.cpp","include/blackhole/scope/watcher.hpp"],
  [("thread-local watcher stack","src/root.cpp thread_manager_t"),("watcher_t ctor/dtor push/pop, collect","src/scope/watcher.cpp"),("wrapper_t::log","src/wrapper.cpp")],
  [("watcher list","per-thread stack of open scopes","src/scope/watcher.cpp")], ["record_t::attributes() in a sink"])

p("C06", "Record metadata describes the logging call, also across asynchronous delivery",
  "An event's timestamp is the system clock's reading taken during its log call, and its thread id, kernel thread id (lwp) and process id are those of the thread that logged it, no matter on which thread, how late and after which clock jumps the record is consumed by a handler or (asynchronous) sink.",
  ["schedules","fault_sequences"], "all delays between logging and consumption, forward and backward clock jumps, any number of producer threads",
  "record tests construct records on the test's own thread and read them back immediately; no clock is controlled",
  ["src/record.cpp","src/recordbuf.hpp","src/record.hpp","CHANGELOG.md"],
  [("record_t ctor / activate","src/record.cpp"),("recordbuf_t copies the record","src/recordbuf.hpp")], None, ["record_t accessors in a sink"])

p("C07", "Asynchronous sink with waiting overflow loses, duplicates and corrupts nothing",
  "With the waiting overflow policy every event accepted by an asynchronous sink is written to the wrapped sink exactly once, on one background thread at a time, each producer's events in the order they were emitted, and the wrapped sink sees the same message, formatted text, severity, timestamp, thread id and attributes (functions evaluated, values deep-copied) although the producer's data is gone by then. "
  "This holds for any number of producers, any queue size and any slowness of the wrapped sink.",
  ["schedules","histories"], "all interleavings of producers and the consumer, all queue sizes, slow/stalled wrapped sinks",
  "tests/src/unit/sink/asynchronous.cpp emits a handful of events from one thread into a queue that never fills",
  ["src/sink/asynchronous.p.cpp","src/sink/asynchronous.hpp","src/recordbuf.hpp"],
  [("enqueue_with/dequeue_with on a Vyukov cycle queue","src/sink/asynchronous.p.cpp"),("recordbuf_t","src/recordbuf.hpp")],
  [("queue","bounded ring of owned records","src/sink/asynchronous.hpp")], ["wrapped sink emit"])

p("C08", "Destroying an asynchronous sink drains it and always terminates",
  "Destroying an asynchronous sink (or the logger owning it) returns only after every event accepted before the destruction began has been written to the wrapped sink and after that sink has been destroyed, on every schedule, however full the queue is, and it always terminates provided the wrapped sink's calls return.",
  ["schedules"], "all interleavings of the last emits, the consumer loop and the destructor",
  "needs a window of a few instructions between the consumer finding the queue empty and the stop flag; no test destroys a sink with events in flight",
  ["src/sink/asynchronous.p.cpp"], [("stop flag, consumer loop exits when stopped and empty, join in the destructor","src/sink/asynchronous.p.cpp")],
  [("stopped","consumer may exit once the queue is empty","src/sink/asynchronous.hpp")], ["wrapped sink emit","destructor return"])

p("C09", "The configured overflow policy is the one in force",
  "However an asynchronous sink is configured (builder in any call style, or config), a sink set to drop never blocks or delays its caller when the queue is full and discards an event only when the queue is full, keeping all others exactly once and in order; a sink set to wait blocks its caller only while the queue is full, discards nothing, and the caller resumes once the wrapped sink makes progress.",
  ["schedules","configurations"], "both policies, all ways of selecting them, all queue sizes, all producer/consumer interleavings incl. a stalled wrapped sink",
  "tests check the policy objects in isolation, and the builder test only that something is built",
  ["src/sink/asynchronous.cpp","src/sink/asynchronous.p.cpp","include/blackhole/sink/asynchronous.hpp"],
  [("overflow_policy_t wait/drop","src/sink/asynchronous.p.cpp"),("builder and factory","src/sink/asynchronous.cpp")], None, ["emit return time","wrapped sink emit"])

p("C10", "Failures of the wrapped sink stay inside the asynchronous sink",
  "When the sink wrapped by an asynchronous sink throws anything, the application is not disturbed: emit does not fail, the process is not terminated, the background thread keeps running, every other event is still delivered exactly once and in order, and the sink can still be destroyed.",
  ["fault_sequences","schedules"], "all failure sequences of the wrapped sink, at any queue state and during shutdown",
  "no test lets the wrapped sink of an asynchronous sink throw",
  ["src/sink/asynchronous.p.cpp","include/blackhole/sink/asynchronous.hpp"], [("catch in run()","src/sink/asynchronous.p.cpp")], None, ["wrapped sink emit","process termination"])

p("C11", "File sink appends whole, unmixed lines in order",
  "Concurrent emits to a file sink append each event as one contiguous line, its text followed by a newline, exactly once, the lines of one thread in its emit order; content already in the file is preserved (files are opened for appending and created on first write only), also when several sinks or loggers append to the same file one after the other. "
  "This holds on every schedule and when the operating system completes writes only partially or interrupts them.",
  ["schedules","fault_sequences"], "all interleavings of emitting threads, short writes and EINTR at any write",
  "file tests mock the stream or write a few lines from one thread",
  ["src/sink/file.cpp","src/sink/file.hpp"], [("mutex around backend().write()","src/sink/file.cpp"),("open with app|out","src/sink/file.cpp")],
  [("backends","open streams by filename","src/sink/file.hpp")], ["bytes in the file (simulated disk)"])

p("C12", "Flush thresholds bound what a crash can lose; destruction flushes everything",
  "A file sink set to flush every N events (or every B bytes) has handed all but at most the last N-1 events (or, of the bytes written, fewer than B) to the operating system whenever emit returns, so a process crash at any instant leaves in the file a prefix of the emitted lines missing at most that much; a size-like setting means the documented number of bytes. "
  "Destroying the sink, normally or by reassigning the logger that owns it, flushes every line.",
  ["crash_points","schedules","configurations"], "all crash points, thresholds (count, bytes, automatic), message sizes and interleavings; both builder and config",
  "flusher tests check the counters in isolation; nothing looks at what has reached the operating system at an arbitrary instant",
  ["src/sink/file/flusher/repeat.hpp","src/sink/file/flusher/bytecount.hpp","src/sink/file.hpp","src/sink/file.cpp"],
  [("flusher update -> stream flush","src/sink/file.hpp backend_t::write"),("stream destructor closes","src/sink/file.hpp")],
  [("counter","events/bytes since the last flush","src/sink/file/flusher/")], ["bytes in the file at any instant"])

p("C13", "File sink reports I/O errors and recovers when they clear",
  "If the file cannot be opened or written (permission, descriptor limit, disk full, I/O error) the failing emit reports it by an exception carrying the system error instead of crashing, deadlocking or claiming success; once the condition clears, later emits succeed and each is written as a complete line, which at most a fragment of the line whose write failed may precede. "
  "Lines written before are preserved, and no line that was reported as written and flushed is lost or garbled by the failure.",
  ["fault_sequences","schedules"], "all sequences of open/write/close failures over time with concurrent emitters",
  "tests cover a single failing open; no test injects ENOSPC/EIO or lets a fault clear",
  ["src/sink/file.cpp","src/sink/file.hpp"], [("stream exceptions(failbit|badbit)","src/sink/file.cpp ofstream_factory_t"),("on-demand open per emit","src/sink/file.cpp")],
  None, ["emit exception","bytes in the file"])

p("C14", "stat-checked rotation switches to the new file and loses no line",
  "With stat-checking rotation, when the file is moved away, deleted or replaced at any instant, every emit that begins after the change writes to a file that is at the configured path (creating it if missing); every emitted line appears whole and exactly once in either the old or a newer file, and everything buffered for the old file is flushed into the old file.",
  ["schedules","fault_sequences"], "external rename/unlink/recreate at any instant relative to open, stat and write of concurrent emitters",
  "rotation tests mock stat results; no test rotates between open and stat or with several threads",
  ["src/sink/file/rotate/stat.hpp","src/sink/file.cpp"], [("inode comparison before each write","src/sink/file/rotate/stat.hpp"),("backend erase + create","src/sink/file.cpp backend()")],
  [("inode","identity of the file the stream writes","src/sink/file/rotate/stat.hpp")], ["bytes in old and new files"])

p("C15", "TCP stream carries whole messages only, in order, exactly once",
  "Every emit to a TCP sink that returns normally has put exactly its bytes, contiguous and unmixed with those of other threads, once into the byte stream of one connection, each thread's messages in order, also when the kernel accepts data only partially or blocks; a connection's byte stream is always a sequence of whole messages, except that a failed connection may end inside one.",
  ["schedules","fault_sequences"], "all interleavings of emitters, partial sends, slow peers, EINTR, resets at any byte",
  "socket tests send one message to a local server",
  ["src/sink/socket/tcp.cpp"], [("mutex + boost::asio::write","src/sink/socket/tcp.cpp emit"),("socket reset on error","src/sink/socket/tcp.cpp emit")],
  [("socket","current connection or none","src/sink/socket/tcp.hpp")], ["bytes received by the simulated peer per connection"])

p("C16", "TCP sink reports failures and reconnects by itself",
  "When resolving, connecting or sending fails, the emit that noticed reports it by an exception, and the sink never reuses the broken connection: the next emit opens a new one (trying every resolved address), so that once the peer is reachable again delivery resumes with the next emit and no restart; connections that were replaced are closed, no descriptor leaks.",
  ["fault_sequences","schedules"], "all sequences of DNS, connect and send failures and peer restarts, with concurrent emitters",
  "no test breaks an established connection",
  ["src/sink/socket/tcp.cpp"], [("reconnect on demand, reset on write error","src/sink/socket/tcp.cpp")], None, ["simulated network"])

p("C17", "UDP sink sends exactly one whole datagram per event",
  "Each emit to a UDP sink hands the operating system exactly one datagram containing exactly the event's text, addressed to the configured endpoint, or reports the error by an exception; earlier errors do not affect later emits, and concurrent emits from many threads are safe.",
  ["schedules","fault_sequences"], "all interleavings and all send errors (refused, no buffers, message too long, interrupted)",
  "socket tests send one datagram to a local socket",
  ["src/sink/socket/udp.cpp"], [("send_to","src/sink/socket/udp.cpp")], None, ["simulated network"])

p("C18", "Console output of concurrent loggers is never intermixed",
  "Events written to standard output by any combination of console sinks and development handlers, of any number of loggers and threads, appear as whole contiguous blocks, one per event, never mixed with one another, each ended by a newline and flushed; on a terminal the colour set for an event covers exactly its text and is reset before the line ends, and no control sequence is written when the output is not a terminal.",
  ["schedules","configurations"], "all interleavings of threads and sinks sharing the standard streams",
  "console tests write a few lines from one thread",
  ["src/sink/console.cpp","src/handler/dev.cpp","src/termcolor.cpp","README.md"], [("global mutex around the write","src/sink/console.cpp"),("mutex in dev_t::handle","src/handler/dev.cpp")],
  [("mutex","console access lock","src/sink/console.cpp")], ["bytes written to stdout/stderr"])

p("C19", "Syslog receives every event once with the mapped priority",
  "Each event emitted to a syslog sink results in exactly one system log entry whose text is the event's text in full and whose priority is the configured mapping of its severity (error for unmapped ones), for any number of threads, and the identity given to the system logger stays valid for as long as any syslog sink is alive, also when sinks are created and destroyed while others are logging.",
  ["schedules","configurations","histories"], "all interleavings of emitters and of creation/destruction of syslog sinks",
  "tests only inspect the sink's accessors",
  ["src/sink/syslog.cpp"], [("openlog in ctor, closelog in dtor","src/sink/syslog.cpp"),("priority lookup","src/sink/syslog.cpp emit")], [("identity","ident string handed to openlog","src/sink/syslog.hpp")], ["simulated syslog"])

p("C20", "Formatters are safe to share: concurrent output equals sequential output",
  "One formatter (pattern, JSON or TSKV, with any options) used concurrently by many threads produces for every record exactly the text it produces for that record alone, which depends on nothing but the record and the formatter's options, including records whose timestamps lie across second, minute, day and year boundaries or jump backwards; two threads formatting at the same time never influence each other and never race.",
  ["schedules"], "all interleavings of threads formatting different records with one formatter",
  "formatter tests format from one thread",
  ["src/formatter/string.cpp","src/formatter/json.cpp","src/formatter/tskv.cpp","src/datetime/generator.linux.cpp"], [("const, stateless formatters with per-call buffers","src/formatter/*.cpp")], None, ["writer result"])

p("C21", "Failures inside a log call leave the logger fully usable",
  "If memory allocation fails at any point inside a log call, or a user-supplied filter, message supplier, attribute function, formatter or sink throws there, the call either succeeds or fails without corrupting or leaking state: no lock stays held, nothing deadlocks, no queue slot is lost, no partial or foreign event appears, and all later events are delivered normally through blocking and asynchronous sinks alike.",
  ["fault_sequences","schedules"], "allocation failure or exception at every possible point of a log call, with concurrent loggers",
  "no test injects allocation failures; throwing callbacks are hardly covered",
  ["src/root.cpp","src/sink/asynchronous.p.cpp","src/recordbuf.hpp","src/sink/file.cpp"], [("RAII locks, shared_ptr snapshots","src/root.cpp"),("record copied before/while enqueueing","src/sink/asynchronous.p.cpp")], None, ["later log calls","sink output"])

p("C22", "A damaged configuration stream never yields a partial logger",
  "Building a logger from a configuration stream that ends early, fails or throws at any byte raises an exception; it never yields a logger that silently lacks part of what was configured, never opens or truncates files as a side effect of a failed build, and building again from the intact stream succeeds and yields the complete logger. A configuration that lacks a required option or names an unknown component also raises an exception (it never terminates the process); a left out option with a documented default takes that default.",
  ["fault_sequences","inputs"], "truncation, read error or exception at every byte of the configuration; failure of a component factory at any position",
  "config tests parse complete in-memory documents",
  ["src/config/json.hpp","src/config/json.cpp","src/registry.cpp","include/blackhole/config/json.hpp"], [("parse error check","src/config/json.cpp"),("builder_t::build","src/registry.cpp")], None, ["builder_t::build result"])

p("C23", "SIGHUP-style log file reopening loses no event",
  "The documented reopening procedure (rename the log file, then assign a freshly built logger over the live one while other threads keep logging) puts every accepted event exactly once, as a whole line, into exactly one of the old and new files; every line of the old logger is in the files once it is no longer in use, and each event logged after the assignment is in the new file.",
  ["schedules","histories","fault_sequences"], "all interleavings of loggers, the renaming process and the reassigner, repeated rotations, blocking and asynchronous sinks",
  "documented in the README but not tested at all",
  ["src/root.cpp","src/sink/file.cpp","README.md"], [("atomic reassignment + flush on destruction","src/root.cpp, src/sink/file.cpp")], None, ["bytes in old and new files"])

p("C24", "Pattern grammar, escaping and typed configuration are rendered as documented",
  "Pattern placeholders, format specs, JSON and TSKV escaping, severity mapping and typed configuration access yield the documented output for every input value.",
  ["inputs"], "all patterns, attribute values and configuration documents",
  "unit tests sample a handful of inputs",
  ["src/formatter/string/grammar.cpp","src/formatter/string.cpp","src/formatter/json.cpp","src/formatter/tskv.cpp","src/config/json.hpp"], [("parsers and token visitors","src/formatter/")], None, ["formatter output"])

p("C25", "Timestamps are rendered in the requested time zone for every instant",
  "A formatter asked for local time renders the event's instant in the process's local time zone including daylight saving time, and one asked for UTC renders UTC, for every instant the clock can show; microseconds and seconds since the epoch are those of the instant in either case.",
  ["inputs","configurations"], "all instants and time zones",
  "tests compare with a few instants in the zone of the build machine",
  ["src/util/time.hpp","src/formatter/string.cpp","src/formatter/json.cpp","src/formatter/tskv.cpp"], [("gmtime/localtime helpers","src/util/time.hpp")], None, ["formatter output"])

p("C26", "Console output resumes after write errors of the standard streams",
  "When writing to standard output or standard error fails for a while (full disk, a pipe that takes no more, an I/O error), log calls neither throw nor hang, and only events written during the failure may be missing or cut short there: every event logged through a console sink or a development handler while the streams work again appears whole, exactly once and flushed when its log call returns, as do the reports of failing handlers, with no restart and no help from the application.",
  ["fault_sequences","schedules"], "all moments and lengths of write failures of the standard streams, with any interleaving of the threads that write there",
  "tests never let a standard stream fail",
  ["src/sink/console.cpp","src/handler/dev.cpp","src/root.cpp","src/util/console.hpp"], [("console_guard_t restores the stream states","src/util/console.hpp"),("writes to std::cout / std::cerr","src/sink/console.cpp, src/handler/dev.cpp, src/root.cpp")],
  [("stream state","error state of std::cout and std::cerr","C++ library")], ["bytes written to stdout/stderr"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
