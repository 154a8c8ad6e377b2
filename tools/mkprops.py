#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept in one readable place).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": ["src/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

R = "reactor/"
# ---------------------------------------------------------------- event loop
p("E01", "A removed event source gets no more events",
  "Once an event source has been removed from the reactor (or closed, cleared or destroyed), its callback is never called again and its memory is never touched again by the reactor, including for events the kernel had already reported in the batch being dispatched. This holds whichever callback performs the removal and wherever the removed source sits in the batch.",
  ["schedules", "histories"], "every batch of collected events, every position of remover and removed source in it, every set of sources removed by one callback",
  "The tests close one descriptor from another's callback once (test/core race); they do not enumerate positions, several removals per callback, or re-adding.",
  [R+"core.c", R+"descriptor.c"], [("pending batch entries are neutralised on removal", "core.c reactor_delete"), ("event word re-read after every dispatch", "descriptor.c descriptor_callback")],
  [("pending batch", "events collected and not yet dispatched", "core.c reactor_core.event/event_end")], ["user callback invocations", "memory of the removed object"])
p("E02", "Every collected event reaches its own handler exactly once",
  "Every event the kernel reports for a still registered source is delivered exactly once, in the order reported, to the callback and with the state pointer that were registered for that source, and never to another source. The reactor never asks the kernel for more events than it has room for, and ends the iteration only after the whole batch has been delivered.",
  ["schedules", "inputs"], "every batch size the kernel may return and every assignment of sources to batch slots",
  "Tests only ever have one or two ready descriptors in an iteration.",
  [R+"core.c"], [("dispatch loop over the collected batch", "core.c reactor_loop_once")], None, ["user callback invocations", "epoll_wait arguments"])
p("E03", "The loop runs exactly while it is active and has event sources",
  "The main loop keeps waiting for events exactly as long as it has not been aborted and at least one event source is registered: it returns once the last source is removed or after an abort (also one raised from a callback or by SIGTERM/SIGINT), and never returns early or waits again afterwards. An interrupted wait is not an error.",
  ["histories", "fault_sequences"], "every sequence of adding, removing and aborting from callbacks, with interrupted waits",
  "Tests run a handful of fixed programs; they cannot show that no sequence of registrations leaves the count wrong (a hang or an early exit).",
  [R+"core.c", R+"descriptor.c"], [("descriptor count and active flag", "core.c reactor_loop, reactor_add, reactor_delete, reactor_abort")], [("descriptors", "number of registered sources", "core.c"), ("active", "not aborted", "core.c")], ["epoll_wait calls"])
p("E04", "Time is constant within a loop iteration and refreshed for the next",
  "All reads of the reactor's clock within one iteration return the same value, equal to seconds*10^9+nanoseconds of the first real-time clock reading taken in that iteration, and the next iteration never reuses a value obtained in an earlier one.",
  ["histories"], "every clock value and every interleaving of clock reads and iterations", "The tests read the clock at one moment.",
  [R+"core.c"], [("cached time cleared before each wait", "core.c reactor_now, reactor_loop_once")], None, ["reactor_now results", "clock_gettime calls"])
# ---------------------------------------------------------------- descriptors
p("D01", "Interest mask and event translation are exact",
  "The kernel interest for a descriptor always equals its current mask: readable iff read interest, writable iff write interest, edge triggered unless level mode was asked for, hang-up conditions always. Changing the mask takes effect immediately, and each kernel event is translated to exactly the read, write and close notifications its bits call for, in that order.",
  ["inputs", "histories"], "every mask, every sequence of mask changes, every combination of event bits",
  "The tests cover four or five mask values and single-bit events.", [R+"descriptor.c", R+"core.c"],
  [("mask to epoll events mapping, event to callback mapping", "descriptor.c descriptor_events, descriptor_callback, descriptor_mask")], None, ["epoll_ctl arguments", "user callback invocations"])
p("D02", "Every descriptor is deregistered then closed exactly once",
  "Every file descriptor opened or adopted by a library object (descriptor, event, timer, watcher, async task, stream, server, connection) is removed from the kernel event set and then closed, exactly once, when the object is closed or destroyed, whatever happened to it before. It is never closed while still registered, never closed twice, never leaked on re-opening, and closing or destroying an already closed object does nothing.",
  ["histories", "fault_sequences"], "every sequence of open, close, re-open and destroy operations, at top level and from callbacks",
  "A test sees one sequence at a time and a leaked or double-closed descriptor number usually goes unnoticed.", [R+"descriptor.c", R+"event.c", R+"timer.c", R+"notify.c", R+"async.c", R+"stream.c", R+"server.c", R+"core.c"],
  [("close protocol", "descriptor.c descriptor_close"), ("idempotence guard", "descriptor.c descriptor_is_open")], [("fd", "-1 when closed", "descriptor.c")], ["epoll_ctl and close calls"])
p("D03", "Objects may be destroyed from inside their own callbacks",
  "Any library object may be closed, destroyed, and its memory freed, from within any callback it makes: after such a callback the library touches neither the object nor anything it owned. No use after free, double free, leak or failed assertion results.",
  ["schedules", "histories"], "every callback of every object type, every combination of pending event bits, and closing versus destroying-and-freeing in it",
  "Existing tests destroy objects in one or two callbacks only, without memory freed underneath.", [R+"descriptor.c", R+"event.c", R+"timer.c", R+"notify.c", R+"async.c", R+"resolver.c", R+"stream.c", R+"server.c"],
  [("dispatch is the last access", "event.c, timer.c, async.c, stream.c callbacks"), ("cancel flag", "notify.c notify_callback"), ("event word re-read", "descriptor.c descriptor_callback"), ("reference count", "server.c")], None, ["memory accesses after the user callback returns"])
# ---------------------------------------------------------------- event / timer / notify
p("V01", "No event signal is lost or duplicated",
  "Each signal sent to an open event object is delivered as exactly one signal notification even when several signals arrive before the loop runs; no notification is delivered without a signal.",
  ["schedules", "histories"], "every number and interleaving of signals and loop iterations", "The test signals once per iteration.",
  [R+"event.c"], [("semaphore eventfd, one read per readiness report", "event.c event_open, event_callback")], None, ["EVENT_SIGNAL notifications", "eventfd counter"])
p("T01", "Timers are armed exactly and all expirations are accounted for",
  "Setting a timer arms it at precisely the requested delay and interval (split into seconds and nanoseconds, a zero delay firing at once), one expiration notification carries the total of all expirations since the previous one, and a timer re-armed or cleared by another callback after it expired neither aborts the program nor produces a notification without an expiration.",
  ["inputs", "schedules"], "every delay and interval, every interleaving of expiry, re-arming and clearing in a batch", "The test uses three fixed delays with a single timer.",
  [R+"timer.c"], [("non-blocking drain of the timerfd", "timer.c timer_callback"), ("itimerspec arithmetic", "timer.c timer_set")], None, ["timerfd_settime arguments", "TIMER_EXPIRATION notifications"])
p("W01", "File watch notifications name the right watch and are all delivered",
  "Every file system notification read from the kernel is delivered once, in order, with the id and path of the watch it belongs to, its mask and its file name, for any number of records per read and any name length; kernel queue overflow or records for unknown watches never abort the program. Clearing and re-watching never attributes events to a path that is no longer watched.",
  ["inputs", "histories", "fault_sequences"], "every sequence of kernel records and every sequence of watch/clear/destroy, also from the callback", "The tests read one or two records of a single watch.",
  [R+"notify.c"], [("record walk and watch lookup", "notify.c notify_callback"), ("watch table", "notify.c notify_watch, notify_clear")], None, ["NOTIFY_EVENT notifications"])
# ---------------------------------------------------------------- async / resolver / net
p("A01", "Background tasks are synchronised with cancellation and completion",
  "A background task runs its call callback at most once, in a thread of its own, and the done callback exactly once after it, in the loop's thread, unless it is cancelled. Once cancel or destroy has returned (or the done callback has begun) the task's thread has ended or been joined, so it never touches the task, its event or its memory afterwards, a thread handle is never used after that thread has been reaped, and no thread handle is leaked.",
  ["schedules", "histories"], "every interleaving of the thread with completion, cancel, destroy and free", "The test waits for completion; the async test is excluded as flaky.",
  [R+"async.c"], [("thread and event ownership", "async.c async_call, async_cancel, async_callback")], None, ["pthread_create/cancel/join calls", "event close relative to join"])
p("A02", "Resolver reports every outcome once and owns its results",
  "A lookup that is not cancelled ends in exactly one success (carrying a non-empty address list) or failure notification; cancelling, restarting and destroying never leak or doubly free the address list or the copies of host and service, and never free them while the background lookup may still be using them.",
  ["schedules", "histories", "fault_sequences"], "every outcome of name resolution and every sequence of lookup, cancel, restart, destroy, also from the callback", "The test makes two lookups and one cancellation.",
  [R+"resolver.c", R+"async.c", R+"net.c"], [("ownership of addrinfo and strings", "resolver.c resolver_clear, resolver_cancel, resolver_callback")], None, ["notifications", "freeaddrinfo calls"])
p("N01", "Socket creation reports failure and never leaks",
  "Creating a socket from an address list yields either a usable non-blocking descriptor (bound and listening for passive addresses, with address reuse enabled before binding; connecting otherwise) or -1; on every failure, including failure to create the socket or to bind, no descriptor is leaked and the program is not aborted, and the address list is released exactly once on every path. Loading a TLS context likewise yields a context or NULL, releasing it on failure.",
  ["fault_sequences", "inputs"], "every combination of failing system calls", "The tests cannot make socket() fail and do not check for leaked descriptors.",
  [R+"net.c"], [("error paths", "net.c net_resolve, net_socket, net_ssl_server_context")], None, ["socket/bind/listen/close/freeaddrinfo calls"])
# ---------------------------------------------------------------- streams
p("S01", "Stream output is sent completely, in order, without loss or duplication",
  "The bytes handed to the operating system (or TLS layer) for a stream, followed by those still queued, always equal exactly the concatenation of everything written, in order. This holds for every pattern of partial writes, would-block results, appends, flushes and write-readiness events.",
  ["inputs", "fault_sequences", "histories"], "every length and content written, every sequence of partial write results", "Tests use sockets that accept everything or a single large write.",
  [R+"stream.c", R+"buffer.c"], [("write loop and erase of the sent prefix", "stream.c stream_socket_write, stream_ssl_flush"), ("append", "stream.c stream_write, stream_allocate")], [("output", "bytes not sent yet", "stream.c")], ["write and SSL_write arguments"])
p("S02", "Stream input is delivered completely, in order, without loss",
  "The readable data of a stream always equals exactly the bytes received so far minus the prefix consumed, in order; consuming n bytes removes exactly the first n. This holds for every sequence of read sizes, errors and end of file, and never more is read than there is room for.",
  ["inputs", "fault_sequences", "histories"], "every sequence of read results and consume sizes", "Tests read a few short messages and one large transfer.",
  [R+"stream.c", R+"buffer.c"], [("append of received bytes", "stream.c stream_socket_read, stream_ssl_read"), ("consume", "stream.c stream_consume")], [("input", "received and not yet consumed", "stream.c")], ["read and SSL_read arguments", "stream_read results"])
p("S03", "A stream with pending output always waits for writability",
  "Whenever control is back in the event loop, an open stream that still has queued output after a flush, or an outstanding write-notification request, or a TLS layer waiting to write, is registered for write readiness; and one with none of these is not, so the loop neither stalls nor spins. Read interest always matches what the stream was opened with.",
  ["histories", "fault_sequences"], "every sequence of writes, flushes, notification requests and readiness events with any results", "Tests check completion of transfers only, not the interest registered after each step.",
  [R+"stream.c"], [("interest recomputed after each operation", "stream.c stream_socket_update, stream_ssl_update")], [("notify", "a write notification was requested", "stream.c")], ["epoll_ctl arguments"])
p("S04", "Write notification comes once per request and only after all output is sent",
  "A stream delivers a write notification only if one was requested and only when all queued output has been handed over, exactly once per request; without a request none is delivered. Plain and TLS streams behave alike.",
  ["histories", "fault_sequences"], "every sequence of requests, writes and partial write results", "Tests request notifications on streams whose output drains at once.",
  [R+"stream.c"], [("notification condition", "stream.c stream_socket_callback, stream_ssl_callback")], None, ["STREAM_WRITE notifications"])
p("S05", "TLS session is tied to the connection and released exactly once",
  "Every TLS session created for a stream is released exactly once when that stream is closed or destroyed, before its descriptor number can be reused, and never used afterwards; plain streams in a program that also uses TLS are unaffected. A stream closed and opened again, in either mode, behaves as a fresh one.",
  ["histories"], "every sequence of open (plain or TLS), close, re-open, destroy over several streams", "Tests open each stream once.",
  [R+"stream.c"], [("session ownership", "stream.c stream_ssl_open, stream_close")], [("ssl", "current session or null", "stream.c")], ["SSL_new, SSL_free and other SSL calls"])
p("S06", "TLS output and handshakes never stall",
  "When the loop waits on a TLS stream, the last TLS operation on the stream's output side has drained the queue or has reported that it must wait, and the descriptor is registered for the readiness it reported; being edge triggered, a write-ready report is always used until one of these holds. The error state consulted is that of the operation just made on that session.",
  ["fault_sequences", "histories"], "every sequence of TLS results (partial, want-read, want-write, closed, error)", "Tests send small TLS messages that fit a single record.",
  [R+"stream.c"], [("TLS flush and interest", "stream.c stream_ssl_flush, stream_ssl_mask")], None, ["SSL_write, SSL_get_error, epoll_ctl"])
p("S07", "Nothing a peer does can abort the process",
  "No behaviour of a remote peer or outcome of reading from, writing to or accepting a connection (reset, broken pipe, early close, partial transfers, garbage, TLS failures) makes the library abort the process or access memory it must not; the failure surfaces as a close notification or is left to the next event.",
  ["fault_sequences", "inputs"], "every errno from read/write/accept and every TLS error", "Tests do not inject ECONNRESET/EPIPE and similar at each call.",
  [R+"stream.c", R+"server.c"], [("error handling after write/read/accept", "stream.c stream_socket_write, stream_socket_read; server.c accept loops")], None, ["process abort", "epoll_ctl, close"])
p("S08", "Readiness of edge-triggered sources is fully used",
  "On an edge-triggered readiness report the library keeps reading (accepting) until the source reports that nothing more is available or a read comes back short, so that no data, connection or timer expiration is left waiting for an edge that never comes.",
  ["fault_sequences", "schedules"], "every sequence of read/accept results", "Tests deliver small inputs that one read drains.",
  [R+"stream.c", R+"server.c", R+"timer.c", R+"notify.c", R+"event.c"], [("drain loops", "stream.c stream_socket_read, stream_ssl_read; server.c descriptor callbacks; timer.c; notify.c")], None, ["read/SSL_read/accept4 results at return to the loop"])
# ---------------------------------------------------------------- http
p("H01", "HTTP responses are serialised exactly",
  "A response written to a stream is, byte for byte, the status line, Server and Date fields, a Content-Type field exactly if a type is given, a Content-Length equal to the body's size in decimal, an empty line and the body, appended after what was already queued. It occupies exactly the space reserved for it, for all sizes of status, date, type and body.",
  ["inputs"], "all lengths and contents of the parts", "The test compares two fixed responses.",
  [R+"http.c", R+"pointer.c", R+"utility.c", R+"stream.c"], [("size computation and pushes agree", "http.c http_write_response, http_field_push")], None, ["stream output"])
p("H02", "HTTP requests are serialised exactly",
  "A request written to a stream is, byte for byte, the request line, a Host field, Content-Type and Content-Length fields exactly if there is a body (the length in decimal), an empty line and the body, appended after what was already queued; it occupies exactly the space reserved for it for all sizes.",
  ["inputs"], "all lengths and contents of the parts", "The test writes two fixed requests.",
  [R+"http.c", R+"pointer.c", R+"utility.c", R+"stream.c"], [("size computation and pushes agree", "http.c http_write_request")], None, ["stream output"])
p("H03", "The HTTP parser never looks outside its input",
  "Parsing a request or response reads only the bytes of the given input and writes only the caller's result variables and at most the given number of header slots, whatever the bytes and wherever the input is cut off. This holds with and without the vectorised scanning code.",
  ["inputs"], "every byte sequence of every length, every header capacity, both code variants", "Tests parse a handful of well-formed messages.",
  ["picohttpparser/picohttpparser.c", R+"http.c"], [("end-of-input checks before each read", "picohttpparser.c CHECK_EOF, findchar_fast"), ("header capacity check", "picohttpparser.c parse_headers")], None, ["memory accesses of the parser"])
p("H04", "The HTTP parser's results stay within its input",
  "The parser returns -1, -2 or a length between 1 and the input size; on success method, target, status text and every header name and value lie inside that prefix of the input, method and target are non-empty, the header count does not exceed the capacity given, and the field records handed to users are the parser's. Header names are empty only for continuation lines.",
  ["inputs"], "every input and capacity", "Tests look at a few well-formed messages.",
  ["picohttpparser/picohttpparser.c", R+"http.c"], [("result computation", "picohttpparser.c parse_request, parse_response, parse_headers"), ("layout shared by field types", "http.h http_field, picohttpparser.h phr_header")], None, ["http_read_request, http_read_response results"])
p("H05", "Field lookup is by whole name, ignoring case, first match wins",
  "Looking up a field returns the value of the first field whose name has the same length and equal characters ignoring case, and the empty value when there is none; it reads no memory beyond the names.",
  ["inputs"], "all names, values and field counts", "The test looks up three names.",
  [R+"http.c"], [("comparison", "http.c http_field_lookup")], None, ["http_field_lookup results"])
# ---------------------------------------------------------------- server
p("R01", "A held request stays valid until released, and is freed exactly once",
  "A request handed to the application remains valid memory until the application's own hold ends (by responding or releasing), whatever the peer, the loop or a shutdown does meanwhile, and is freed exactly once when the last hold ends and the connection is closed. No event for it reaches the server after it is freed.",
  ["histories", "schedules"], "every interleaving of responding, holding, releasing, closing, shutting down and peer disconnects", "Tests hold one request in one order.",
  [R+"server.c"], [("reference count", "server.c server_hold, server_release, server_close, server_shutdown")], [("ref", "number of holds", "server.c")], ["memory of the request"])
p("R02", "One request at a time per connection, answered in order",
  "Requests of a connection are handed to the application one at a time, in the order received: the next is not handed over before the previous one has been responded to, and the responses are queued in that order.",
  ["histories", "schedules", "inputs"], "every pipelining depth, every mix of immediate and deferred responses", "Tests pipeline little and respond immediately.",
  [R+"server.c"], [("request state machine", "server.c server_request_update, server_request_read, server_respond")], [("state", "waiting for data, reading, handling, closed", "server.c")], ["SERVER_REQUEST notifications", "stream output"])
p("R03", "No received request bytes are lost, skipped or parsed twice",
  "Each request is parsed from exactly the bytes following the previous request on the connection: bytes after a complete request are kept and, when they contain further complete requests, these are handled as soon as the previous response is given, without waiting for more data from the peer.",
  ["inputs", "histories"], "every segmentation of the byte stream into reads and every pipelining", "Tests send one request per write.",
  [R+"server.c", R+"stream.c"], [("consume after parsing", "server.c server_request_update")], [("data", "unparsed rest of the input", "server.c")], ["bytes given to the parser"])
p("R04", "Malformed requests get one 400 and a closed connection, incomplete ones wait",
  "A request that cannot be parsed is answered with exactly one 400 response after which the connection is closed and the application is never told of it; an incomplete request produces neither response nor notification and the connection stays open.",
  ["inputs", "histories"], "every parse outcome at every point of a connection's life", "Tests send one malformed request on a fresh connection.",
  [R+"server.c"], [("dispatch on parse result", "server.c server_request_read, server_bad_request")], None, ["stream output, close"])
p("R05", "Responding to a closed request sends nothing and still ends the hold",
  "Responding (with any of the response functions) to a request whose connection is already closed sends nothing, touches no closed descriptor and still ends the application's hold, so that the request is freed; closing twice is harmless.",
  ["histories"], "every response function, every order of close and respond", "Tests respond to open connections, mostly.",
  [R+"server.c"], [("closed state check", "server.c server_respond, server_bad_request, server_close")], None, ["write calls", "memory of the request"])
p("R06", "Responses always carry a well-formed date",
  "Every response the server sends carries a 29-character IMF-fixdate in GMT with English day and month names, whatever the locale, time and moment of the server's life, including responses sent before the first timer tick.",
  ["histories", "inputs", "configurations"], "every calendar time and every point of the server's life", "Tests start the server's timer first and do not look at the date.",
  [R+"server.c"], [("date string maintenance", "server.c server_date, server_date_update")], None, ["Date field of the output"])
p("R07", "Shutting down closes every connection and listener, then leaves nothing behind",
  "Shutting down or destroying a server closes the listening descriptor, its timer and every connection, so that the loop can end; every connection's memory is freed except requests the application still holds, which are freed when it releases them. Shutting down twice or before opening is harmless.",
  ["histories"], "every set of connections in every state at shutdown, also from inside a request callback", "Tests shut down with at most one connection.",
  [R+"server.c"], [("shutdown walk", "server.c server_shutdown, server_destruct")], None, ["close calls", "memory"])
# ---------------------------------------------------------------- containers
p("C01", "Buffers hold exactly the bytes put in and never exceed their allocation",
  "For every sequence of insert, fill, erase, resize, reserve, compact and clear operations a buffer contains exactly the bytes those operations define, in place, its capacity is never below its size, every access lies within the allocation and all memory is released in the end.",
  ["inputs", "histories"], "all sizes, positions and operation sequences", "The test uses a few small sizes.",
  [R+"buffer.c"], [("insert/erase moves and capacity growth", "buffer.c")], [("size, capacity", "bytes in use and allocated", "buffer.c")], ["buffer contents", "memory"])
p("C02", "Vectors place, erase and release exactly the addressed objects",
  "Vector operations insert, erase, access and release exactly the objects at the given positions, each erased or cleared object being released once before its storage is reused, with size and capacity counted in objects, for any object size.",
  ["inputs", "histories"], "all object sizes, positions, ranges", "The test uses a vector of ints.",
  [R+"vector.c", R+"buffer.c"], [("index to byte arithmetic, release before erase", "vector.c")], None, ["vector contents", "release callbacks"])
p("C03", "Lists stay consistently linked in both directions",
  "After any sequence of insertions, splices and erasures (also from within a traversal that has already stepped past the erased element) a list contains exactly its elements in the right order, forwards and backwards, its end iterator is stable, and every erased element is released and freed exactly once.",
  ["histories"], "all operation sequences and positions", "The tests use short lists in a few orders.",
  [R+"list.c"], [("relinking", "list.c list_insert, list_splice, list_erase")], None, ["traversal results", "memory"])
p("C04", "Every inserted key stays findable until erased",
  "After any sequence of insertions, erasures, reservations and clears a map lookup finds exactly the value inserted for each present key and the empty element for every other key, whatever the hash collisions and wherever probe runs wrap around the table; lookups always terminate.",
  ["inputs", "histories"], "all hash values and operation sequences", "The tests insert and erase in one or two fixed patterns with well-distributed hashes.",
  [R+"map.c", R+"mapi.c", R+"maps.c"], [("backward-shift deletion with cyclic order test", "map.c map_erase"), ("probing", "map.c map_at"), ("load factor", "map.c map_reserve")], None, ["map_at results"])
p("C05", "Map sizes are exact and every element is released exactly once",
  "The reported map size always equals the number of present keys (re-inserting a present key and erasing an absent one change nothing), and every element removed, rejected as duplicate, cleared or destroyed is passed to the release callback exactly once while its contents are intact, as is no other element.",
  ["inputs", "histories"], "all operation sequences and collisions", "The tests count releases in one pattern.",
  [R+"map.c", R+"mapi.c", R+"maps.c"], [("count updates and release calls", "map.c map_insert, map_erase, map_release_all")], None, ["map_size", "release callbacks"])
p("C06", "Strings are values: right bytes, terminated, never corrupting or leaking",
  "Every string operation returns a string holding exactly the bytes it defines (insertion, append, prepend, erase, find, replace, replace-all, resize within contents, copy), always zero-terminated after its last byte, with all accesses inside the allocation, including for empty operands and empty results. The shared empty string is never modified or freed, and releasing a string frees its memory whatever its contents.",
  ["inputs", "histories"], "all contents, lengths and positions", "The test uses a handful of literals.",
  [R+"string.c"], [("header and capacity handling", "string.c string_allocate, string_resize, string_free")], None, ["string contents", "memory"])
p("C07", "Saving and loading strings transfers every byte",
  "Writing a string to a descriptor sends exactly its bytes in order for every pattern of partial writes and terminates; saving replaces the file's contents; reading collects all bytes up to end of file; descriptors opened on the way are closed on every path.",
  ["fault_sequences", "inputs"], "all lengths and partial write/read patterns", "Tests save a short string to a file that takes it at once.",
  [R+"string.c"], [("write loop", "string.c string_write"), ("read loop", "string.c string_read, string_load, string_save")], None, ["write/read/open/close calls"])
p("C08", "Hashing reads exactly the given bytes",
  "Hashing a string or memory block reads no byte outside it, for every length, and depends on nothing else, so that equal keys always have equal hashes.",
  ["inputs"], "every length and content", "The test hashes a few lengths.",
  [R+"hash.c"], [("length classes and block loop", "hash.c hash_data")], None, ["memory accesses"])
p("C09", "Decimal formatting is exact for every 32-bit value",
  "The decimal length of every 32-bit number is exact, and formatting it writes exactly its decimal digits (and terminator where promised) within that length.",
  ["inputs"], "all 2^32 values", "The test samples a few values.",
  [R+"utility.c"], [("length table and two-digit loop", "utility.c")], None, ["utility_u32_* results"])
p("C10", "Byte-range views are exact and cost no memory errors",
  "Comparing, prefix-testing, selecting, consuming and building byte-range views and pushing them through write cursors reads and writes exactly the addressed bytes: equality and prefix hold exactly when the bytes agree, empty ranges are handled, and a cursor advances by exactly what was written.",
  ["inputs"], "all contents and lengths", "The tests use a few literals.",
  [R+"data.c", R+"pointer.c"], [("length check before comparison", "data.c data_equal, data_prefix"), ("cursor arithmetic", "pointer.c")], None, ["results", "memory accesses"])
# ---------------------------------------------------------------- not static
p("Q01", "Latency and throughput",
  "The server answers requests with bounded latency and per-event overhead independent of the number of registered sources.",
  ["schedules", "configurations"], "all loads", "No performance test exists.", [R+"core.c", R+"server.c"], [("epoll", "core.c")])
p("Q02", "Hash values spread keys evenly",
  "Hash values of distinct keys are spread so that expected map operations take constant time.",
  ["inputs"], "all key sets", "The test compares a few constants.", [R+"hash.c", R+"map.c"], [("farmhash", "hash.c")])
p("Q03", "Timers fire on time",
  "A timer notification arrives no earlier than requested and without unbounded delay while callbacks return promptly.",
  ["schedules", "configurations"], "all delays and loads", "The test only sees that timers eventually fire.", [R+"timer.c", R+"core.c"], [("timerfd", "timer.c")])
p("Q04", "TLS confidentiality and authentication",
  "Data exchanged over a TLS stream is protected against eavesdropping and tampering and the server is authenticated by the configured certificate.",
  ["inputs", "histories"], "all attackers", "Tests run one local handshake.", [R+"stream.c", R+"net.c"], [("OpenSSL", "stream.c, net.c")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
