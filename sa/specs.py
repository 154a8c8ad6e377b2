SPECS = {}
def spec(id, rule, **kw):
    kw["rule"] = rule; SPECS[id] = kw

spec("C09", "For each decimal length the 32-bit numbers of that length form one symbolic value; the length function, the digits (each a decimal digit, their positional sum equal to the number), the terminator and the written range are checked.",
     ctx="sa_C09.c", anchors=("utility_u32_len", "utility_u32_sprint", "utility_u32_toa"))

spec("C10", "Pairs of views with symbolic sizes and contents that agree up to a symbolic position are compared; selections, cursors and allocations use symbolic sizes and offsets; results are compared with the definition and every access with the bounds of the addressed objects.",
     ctx="sa_C10.c", anchors=("data_equal", "data_prefix", "data_select", "data_consume", "pointer_push"))
spec("C01", "Sequences of operations chosen freely (insert, fill, erase, resize, reserve, compact, clear) with symbolic positions, sizes and contents are applied to a buffer next to a ghost byte sequence; after every operation size, capacity, allocation and contents are compared and every memory access is bounds checked.",
     ctx="sa_C01.c", anchors=("buffer_insert", "buffer_erase", "buffer_resize", "buffer_compact", "buffer_insert_fill", "buffer_reserve"))

NOT_APPLICABLE = {
 "Q01": "latency and throughput are quantities of a running system; no static argument in reach bounds them",
 "Q02": "the spread of hash values over real key sets is a statistical property of runtime data",
 "Q03": "when a timer fires is decided by the kernel and the machine's load, not by the source",
 "Q04": "confidentiality and authentication rest on OpenSSL and the configured certificates, outside this repository",
}

spec("C02", "Vectors of 1, 3, 8 and 24 byte objects holding a symbolic number of objects undergo every operation at symbolic positions; size, capacity, contents, placement and the objects passed to the release callback are compared with a ghost sequence.",
     ctx="sa_C02.c", anchors=("vector_insert", "vector_erase_range", "vector_clear"))
spec("C03", "Every sequence of a few list operations on lists of up to five elements is followed; forward and backward traversal, iterators, release and freeing are compared with a ghost sequence.",
     ctx="sa_C03.c", anchors=("list_insert", "list_splice", "list_erase"))
spec("C06", "Each string operation is applied to strings of symbolic length and contents (null, allocated, allocated and emptied) with symbolic operands; bytes, terminator, capacity, allocation, the shared empty string and leaks are checked.",
     ctx="sa_C06.c", anchors=("string_insert_data", "string_erase_data", "string_replace_all_data", "string_free"))
spec("C07", "Writing, saving, reading and loading of strings of symbolic length is followed through every outcome of open and every pattern of partial reads and writes; transferred bytes and descriptors are compared with the definition.",
     ctx="sa_C07.c", anchors=("string_write", "string_save", "string_load", "string_read"))

spec("E01", "Sources are registered, and callbacks remove, free and replace themselves or any other source while a batch of up to three events is dispatched; every callback must belong to a source that is still registered, and no freed memory may be touched.",
     ctx="sa_E01.c", anchors=("reactor_add", "reactor_delete", "reactor_loop_once"))
spec("E02", "Batches of up to three events with any bits and full batches around the capacity are dispatched; the callbacks made are compared one by one with the events reported, and the room for events with the number asked for.",
     ctx="sa_E02.c", anchors=("reactor_loop_once", "reactor_dispatch"))
spec("E03", "The loop is run with callbacks that remove and add sources and abort, waits that are interrupted, and termination signals; waits and returns are compared with the number of registered sources and the abort state.",
     ctx="sa_E03.c", anchors=("reactor_loop", "reactor_abort"))
spec("E04", "Callbacks of several iterations read the time any number of times with symbolic clock readings; each value is compared with the first reading taken in the iteration.",
     ctx="sa_E04.c", anchors=("reactor_now",))
spec("D01", "Every mask, every change from one mask to another (also from a callback and after opening again) and every combination of event bits is followed; the registered interest and the sequence of notifications are compared with the definition.",
     ctx="sa_D01.c", anchors=("descriptor_open", "descriptor_mask", "descriptor_close"))
spec("D02", "Every kind of object is opened, closed, opened again, used by the loop and destroyed in any order; an automaton over descriptors (open, registered, closed) rejects closing while registered, closing twice and leaking.",
     ctx="sa_D02.c", use=("phr_parse_request",), anchors=("descriptor_close", "server_shutdown", "stream_close", "async_cancel", "notify_clear", "timer_clear"))
spec("D03", "From within its own notifications, or from those of another object in the same batch, every kind of object is closed, opened again, destroyed, freed and replaced in place; every later access to the object or what it owned, every leak and failed assertion is reported.",
     ctx="sa_D03.c", use=("phr_parse_request",), anchors=("descriptor_close", "server_destruct", "stream_destruct", "async_destruct", "notify_destruct", "timer_destruct", "resolver_destruct"))
spec("V01", "Two events are signalled any number of times before, between and during iterations and from their callbacks; notifications are counted against signals and a wait while one is due is an alarm.",
     ctx="sa_V01.c", anchors=("event_signal", "event_open"))
spec("T01", "Timers are set to symbolic delays and intervals and the armed time is compared exactly; two timers expire any number of times, also during the reads, while callbacks set and clear them; the totals notified are compared with the expirations read.",
     ctx="sa_T01.c", anchors=("timer_set", "timer_clear"))
spec("W01", "Every grouping of records (of known and unknown watches, with and without names of symbolic length) into reads is followed; the notifications are compared one by one with the records, watches and paths, also when callbacks clear and watch.",
     ctx="sa_W01.c", anchors=("notify_watch", "notify_clear"))
spec("A01", "Tasks are started, cancelled, awaited and destroyed in any order, also from the done callback and from another task's; the thread's body is followed wherever the loop's thread waits; an automaton over threads (running, ended, joined, detached) and event descriptors rejects uses out of order.",
     ctx="sa_A01.c", anchors=("async_call", "async_cancel", "async_destruct"))
spec("A02", "Lookups with and without host and service are started, restarted, cancelled, awaited and destroyed in any order, also from the report; the background lookup runs wherever the loop's thread waits and succeeds or fails; reports, address lists, copies and threads are accounted for.",
     ctx="sa_A02.c", anchors=("resolver_lookup", "resolver_cancel", "resolver_destruct"))
spec("N01", "Every outcome of socket, setsockopt, bind, listen, connect, getaddrinfo and the TLS context functions is followed for passive, active and absent address lists; descriptors, address lists and contexts are accounted for and the state of the returned socket is compared with the address list's flags.",
     ctx="sa_N01.c", anchors=("net_socket", "net_resolve", "net_ssl_server_context"))
spec("C04", "Maps are filled, erased from, grown, reserved and cleared with hashes chosen close to both ends of the table (colliding, wrapping around, torn apart by growth), and all keys are looked up after every step; the integer and string maps likewise with their own hashes.",
     ctx="sa_map.c", anchors=("map_at", "map_insert", "map_erase", "map_reserve", "map_clear", "mapi_at", "maps_at"), maxunroll=80, maxunroll_t=160, opts={"detmax": 10 ** 6})
spec("C05", "The same sequences of map operations; the size is compared with the number of present keys after every step, and the elements passed to the release callback, with their contents, with those removed or rejected.",
     ctx="sa_map.c", cflags=("-DSIZES=1",), anchors=("map_size", "map_insert", "map_erase", "map_destruct", "map_clear", "mapi_erase", "maps_erase"), maxunroll=80, maxunroll_t=160)
spec("C08", "Blocks and strings of every length up to several rounds of the hash, and of unknown length, are hashed as objects of exactly their size, so that any other access is outside an object; equal blocks in different surroundings must have equal hashes.",
     ctx="sa_C08.c", anchors=("hash_data", "hash_string", "hash_uint64"), opts={"opaque": 1}, maxunroll=6, maxunroll_t=20)
spec("S01", "Streams (plain and TLS) are written to with symbolic sizes and contents, allocated from, flushed and run by the loop in any order through full, partial, refused and failing writes; what was sent is compared with what was written after every step and at the end.",
     ctx="sa_S01.c", anchors=("stream_write", "stream_flush", "stream_allocate"))
spec("S02", "Streams (plain, pipe and TLS) receive any number of bytes in any grouping into reads, ending in would-block, end of file or errors, and consume any part of them; what can be read is compared with what was received minus what was consumed after every step, every notification with what it brings.",
     ctx="sa_S02.c", anchors=("stream_read", "stream_consume"))
spec("S03", "Streams (plain, pipe and TLS, opened for reading or not) are written to, flushed, asked for notifications, run by the loop and opened again in any order, with full, partial, refused and failing writes; after every step the registered interest is compared with what the stream waits for.",
     ctx="sa_S03.c", anchors=("stream_flush", "stream_notify", "stream_open"))
spec("S04", "The same operations; every write notification is compared with the requests made and with what was written and sent.",
     ctx="sa_S03.c", cflags=("-DNOTIFY=1",), anchors=("stream_flush", "stream_notify", "stream_open"))
spec("S05", "Streams are opened in both modes, used, closed, destroyed and opened again, also twice, from their own callbacks and next to other streams; the live TLS sessions are counted against the open TLS streams after every step, and a stream opened again is compared with a new one.",
     ctx="sa_S05.c", anchors=("stream_open", "stream_close", "stream_destruct"))
spec("S06", "A TLS stream is written to, flushed, asked for notifications and run by the loop in any order while every operation of the TLS layer completes, in part, waits to read, waits to write or fails; before every wait what the layer waits for is compared with what the stream is registered for, and every question for an error with the operation and session it must concern.",
     ctx="sa_S06.c", anchors=("stream_open", "stream_flush", "stream_notify"))
spec("S07", "Streams that echo what they receive, and servers, meet every outcome of reading, writing, accepting and of the TLS layer and every combination of event bits, with the process's signal dispositions followed; every failed assertion, fatal signal and wrong memory access is reported.",
     ctx="sa_S07.c", use=("phr_parse_request",), anchors=("stream_flush", "server_accept", "reactor_loop_once", "reactor_construct"), maxunroll=6, opts={"kinds": ("abort", "mem")})
spec("S08", "Streams, listening sockets (plain and TLS), timers, watchers and events meet every outcome of reading and accepting, also long runs of full reads and up to hundreds of connections behind one event; at every wait of the loop nothing may be left in a source whose edge was used up.",
     ctx="sa_S08.c", use=("phr_parse_request",), anchors=("server_open", "stream_open", "timer_set", "notify_watch", "event_open"), maxunroll=600, maxunroll_t=1200, opts={"kinds": ("stall", "check")})
spec("R01", "A server's connections receive input in any grouping into requests (complete, incomplete, malformed), are closed by the peer, answered at once or later, closed, released and shut down in any order; every held request is accessed after every step, every access to freed memory and every leak is reported.",
     ctx="sa_server.c", cflags=("-DRULE=1",), use=("phr_parse_request",), anchors=("server_open", "server_shutdown", "server_respond", "server_release"), maxunroll=6)
spec("R02", "A server's connections receive input in any grouping into requests (complete, incomplete, malformed), are closed by the peer, answered at once or later, closed, released and shut down in any order; requests are handed over against the responses given, and the bytes sent are compared with the responses in their order.",
     ctx="sa_server.c", cflags=("-DRULE=2",), use=("phr_parse_request",), anchors=("server_open", "server_shutdown", "server_respond", "server_release"), maxunroll=6)
spec("R03", "A server's connections receive input in any grouping into requests (complete, incomplete, malformed), are closed by the peer, answered at once or later, closed, released and shut down in any order; the bytes given to the parser are compared with those following the previous request, and bytes kept must have been found incomplete.",
     ctx="sa_server.c", cflags=("-DRULE=3",), use=("phr_parse_request",), anchors=("server_open", "server_shutdown", "server_respond", "server_release"), maxunroll=6)
spec("R04", "A server's connections receive input in any grouping into requests (complete, incomplete, malformed), are closed by the peer, answered at once or later, closed, released and shut down in any order; malformed and incomplete requests are answered, closed and kept accordingly.",
     ctx="sa_server.c", cflags=("-DRULE=4",), use=("phr_parse_request",), anchors=("server_open", "server_shutdown", "server_respond", "server_release"), maxunroll=6)
spec("R05", "A server's connections receive input in any grouping into requests (complete, incomplete, malformed), are closed by the peer, answered at once or later, closed, released and shut down in any order; responses of every kind to closed requests are checked to send nothing, to touch no descriptor and to free the request.",
     ctx="sa_server.c", cflags=("-DRULE=5",), use=("phr_parse_request",), anchors=("server_open", "server_shutdown", "server_respond", "server_release"), maxunroll=6)
spec("R06", "Requests are answered in every way, at once and later, by servers that listen and that do not, before, at and after ticks of the timer, at any calendar time; the date in the bytes sent is compared character by character with the time computed, whose names must not depend on the locale.",
     ctx="sa_R06.c", use=("phr_parse_request",), anchors=("server_accept", "server_respond"), maxunroll=6)
spec("R07", "A server's connections receive input in any grouping into requests (complete, incomplete, malformed), are closed by the peer, answered at once or later, closed, released and shut down in any order; after shutting down no descriptor, connection or event of the server is left and held requests are freed when released.",
     ctx="sa_server.c", cflags=("-DRULE=6",), use=("phr_parse_request",), anchors=("server_open", "server_shutdown", "server_respond", "server_release"), maxunroll=6)
for i, c, x in (("H01", (), "response"), ("H02", ("-DREQUEST=1",), "request")):
    spec(i, "A %s is written to a stream with nothing or any number of bytes queued, with symbolic sizes and contents of all parts, the body by the number of digits of its size up to 12; the bytes appended are compared with the definition, the decimal length numerically, and every write is bounds checked." % x,
         ctx="sa_http.c", cflags=c, anchors=("http_write_%s" % x, "http_field_push"))
for i, c, w in (("H03", ("-DANYCAP=1",), "The parser's memory accesses are checked: any number of header slots; the input is an object of exactly its size."), ("H04", (), "Every result of the parser is compared with the part of the input consumed: up to two header slots, their contents followed.")):
    spec(i, "The parser is interpreted on input of any size (up to 2^31-1) and contents by abstract interpretation with joins and widening at every place where paths meet, until nothing changes, so every iteration of every loop is covered.  " + w,
         ctx="sa_H03.c", cflags=c, anchors=("http_read_request_data", "http_read_response"), join=True, timeout=400,
         opts={"kinds": ("mem",)} if i == "H03" else {}, variants=[{"cflags": c}, {"cflags": c + ("-msse4.2",), "use": ("findchar_fast",)}])
spec("H05", "Names (equal, differing in case, by one character, in characters that only look like a case difference, outside ASCII, prefixes of each other, empty) in objects of exactly their size are looked up among up to three fields, and names of symbolic different lengths; results are compared with the definition.",
     ctx="sa_H05.c", anchors=("http_field_lookup",))
