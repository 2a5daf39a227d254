#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- wire
prop("M01", "Every message crosses the wire unchanged",
 "Whatever one peer sends through the API - message type, ordered positional arguments and a property map whose keys are 1-64 characters of [A-Za-z0-9._] and whose values are arbitrary NUL-free byte strings - the other peer receives exactly once, in order and byte-identical. This includes quotes, backslashes, newlines, carriage returns, spaces, '=', control and non-ASCII bytes, empty values, and arguments or values longer than any internal buffer.",
 ["inputs", "histories"],
 "all property values/arguments over a hostile byte alphabet up to a length bound, every single byte value in every position of a short context, lengths around every internal buffer boundary, all key sets up to a bound, all short message sequences",
 "The tests send one or two fixed ASCII image paths and no property with special characters; escaping, buffer refill and re-allocation boundaries are inputs no test reaches.",
 ["src/message.c", "src/buffer.h", "src/strmap.c", "src/trax.c"],
 [("escaping writer write_message/write_buffer_escaped", "src/message.c"), ("unescaping state machine read_message", "src/message.c")],
 [("input_cache", "parser state between bytes", "src/message.h")],
 ["trax_client_*/trax_server_* on the two ends of a byte channel"])

prop("M02", "Parsing is a function of the bytes: framing, noise, fragmentation",
 "The sequence of messages a peer reads depends only on the bytes of the stream, never on how the transport splits or coalesces them. A line that does not start with the prefix @@TRAX:, names an unknown message type, or is malformed (unterminated quote, text glued to a closing quote, dangling escape) is skipped as a whole: it never delays, alters, or leaks arguments or properties into a message before or after it.",
 ["inputs", "fault_sequences"],
 "all token sequences up to a bound over an alphabet of protocol fragments (prefix pieces, types, quotes, escapes, separators, noise), and for a set of streams every way of cutting them into read() chunks",
 "Tests run over pipes where the kernel picks chunking and trackers print no adversarial noise; none feeds a malformed or interleaved line.",
 ["src/message.c", "src/buffer.h"],
 [("byte-wise state machine with explicit resynchronisation at newline", "src/message.c:read_message"), ("refill of the 4096 byte read buffer", "src/message.c:read_character")],
 [("input.state/message_type", "where in the line the parser is", "src/message.h")],
 ["type, arguments, properties returned for each message"])

prop("M03", "No byte stream from a peer can corrupt, abort or hang the process",
 "For every byte stream a peer may send, each wait or setup call of the receiving side returns after finitely many steps, with TRAX_ERROR or a well-formed result, without reading or writing outside allocated memory, using uninitialised or freed memory, failing an assertion or otherwise ending the process. All values returned can be used and released through the API.",
 ["inputs", "histories"],
 "all argument strings up to a bound over the alphabets of the region, image and integer grammars at every argument position of every message type, all short sequences of messages of every type and arity for every role/version/metadata configuration",
 "Tests use two well-behaved peers of the same build; malformed regions, images, counts or message orders never occur.",
 ["src/message.c", "src/trax.c", "src/region.c", "src/base64.c"],
 [("region_parse", "src/region.c"), ("image_decode, base64decode", "src/trax.c, src/base64.c"), ("argument count checks in wait functions", "src/trax.c")],
 [], ["process exit, AddressSanitizer, return codes"])

prop("M04", "Transport faults are retried or reported, never absorbed",
 "Short reads, short writes and interrupted (EINTR) calls do not change what either peer observes. If the stream ends or fails at any byte, the pending and every later wait returns TRAX_ERROR in finitely many steps and a message is delivered only if it was received completely up to its end of line. If a message cannot be written completely, the sending call returns TRAX_ERROR.",
 ["crash_points", "fault_sequences"],
 "every byte position of recorded client and server streams as end-of-stream or error point, every placement of up to two deviations (short read/write, EINTR, hard error) in a full session",
 "No test kills a peer in the middle of a message or interrupts a system call; a truncated region such as 1,2,3,4(0) looks valid.",
 ["src/message.c", "src/trax.c"],
 [("read_character error/EOF handling", "src/message.c"), ("write_buffer loop", "src/message.c")],
 [], ["return code, delivered message, bytes on the channel"])

prop("M05", "The log callback sees exactly the bytes of the conversation",
 "Concatenating everything passed to a handle's log callback yields exactly the bytes that handle wrote and the bytes it consumed, in the order in which messages were sent and received, for every transport behaviour. The flush notification (NULL string) is issued at the end of every sent or received message and never inside one.",
 ["histories", "fault_sequences"],
 "all API histories up to a depth for client and server, all message contents of the M01 alphabet, all chunkings",
 "The tests only run with default logging and nobody compares the log with the wire.",
 ["src/message.c", "src/message.h", "src/trax.c"],
 [("LOG_CHAR/LOG_BUFFER next to every transfer", "src/message.c")],
 [], ["log callback arguments vs bytes on the channel"])

# ---------------------------------------------------------------- session
prop("S01", "The server side follows the protocol automaton in every history",
 "For every history of peer messages and server calls, each server call returns the message type, objects, images, properties and object count that the protocol prescribes for that state and version (initialize/frame grouping, additions, empty initialize as reset, quit), and TRAX_ERROR exactly when the history is illegal in that state: wrong argument count, unsupported image kind, frame before any initialize, more than one object without multi-object support, reply with a count other than the number of tracked objects, wrong mode for the version, or any call after termination.",
 ["histories", "configurations"],
 "all event sequences up to a depth over {initialize, empty initialize, frame, quit, state, hello, malformed arities} x {wait, reply n, terminate, cleanup} for versions 1-4, single and multi object, one to three channels, against a reference automaton",
 "Tests walk one nominal session per language; they cannot enumerate orders such as frame before initialize, re-initialisation with several objects, or replies with the wrong count.",
 ["src/trax.c", "docs/protocol.rst"],
 [("trax_server_wait_sot/_mot, trax_server_reply_sot/_mot", "src/trax.c")],
 [("handle.objects", "number of objects being tracked", "include/trax.h"), ("handle.flags", "valid/server/terminated", "include/trax.h")],
 ["return codes, outputs, bytes written"])

prop("S02", "The client side follows the protocol automaton in every history",
 "For every history of client calls and server messages, each client call writes exactly the messages the protocol prescribes for the negotiated version (a single initialize before version 4; one initialize per object followed by one frame from version 4, preceded by an empty initialize on re-initialisation), waits for exactly one state per tracked object and returns them in order, and returns TRAX_ERROR exactly when the call or the server's message is illegal in that state.",
 ["histories", "configurations"],
 "all event sequences up to a depth over {initialize n, frame, frame + n new objects, wait, terminate} x {state, quit, hello, frame, initialize, malformed, silence/EOF} for versions 1-4, single and multi object, against a reference automaton",
 "Tests run one nominal session; re-initialisation, additions during tracking and illegal server messages are never sequenced.",
 ["src/trax.c", "docs/protocol.rst"],
 [("trax_client_initialize/_frame/_wait", "src/trax.c")],
 [("handle.objects", "number of states expected per frame", "include/trax.h")],
 ["return codes, outputs, bytes written"])

prop("M06", "Socket connections are established or given up cleanly",
 "A tracker started with TRAX_SOCKET=port connects to that port of the local machine: it tries again, with a pause, as long as it is refused or interrupted, and then serves the protocol over the connection; where a socket cannot be had it gets no handle (and no crash), and it does not repeat without end what cannot succeed. A client that waits on a listening socket gets a working handle if a tracker connects within the timeout, no matter which signals arrive meanwhile; otherwise it gets no handle, never later than the timeout and not before it unless a call failed. Failed calls never leave a connection open; cleanup closes the connection once and leaves the caller's listening socket open; no memory is lost.",
 ["faults", "schedules"],
 "every failing socket call x refusals and interruptions before a connection; every timeout x moment of a connection x moments of signals; C and C++ interfaces",
 "The tests use sockets only where everything goes well.",
 ["src/message.c", "src/trax.c", "src/traxpp.cpp"],
 [("create_message_stream_socket_connect, create_message_stream_socket_accept, destroy_message_stream", "src/message.c"), ("trax_server_setup_v, trax_client_setup_socket", "src/trax.c")],
 [], ["handles, open descriptors, elapsed time, bytes sent"])

prop("S03", "The handshake transfers the tracker's declared capabilities faithfully",
 "After setup the client's view of version, region formats, image formats, channels, multi-object support, name, description, family and custom properties equals what the server declared, for every declarable combination and for every legal hello message, including absent or reordered fields, for which the documented defaults apply. A hello that is malformed or names an unknown format, channel or unsupported structure makes setup fail cleanly.",
 ["configurations", "inputs"],
 "all subsets of region formats, image formats and channels, versions 1-4, multi-object flag, presence/absence of every optional field, custom property sets; hand-built hello lines with every field absent, empty, reordered or unknown",
 "Each test tracker declares one fixed metadata set.",
 ["src/trax.c", "src/traxpp.cpp", "docs/protocol.rst"],
 [("server_setup, client_setup, *_formats_encode/decode, channels_encode/decode", "src/trax.c")],
 [("handle.metadata", "declared capabilities", "include/trax.h")],
 ["client handle metadata, version and parameters"])

prop("S04", "Two real peers always agree on the session",
 "In every session between a client and a server using this library - any legal interleaving of initialisation, additions, frames, replies, re-initialisation and termination by either side, over file or socket streams - every successful call on one side is matched by exactly one result on the other with equal images, regions, per-object properties, message properties and object count, and no legal schedule leaves both sides waiting for each other.",
 ["histories", "schedules"],
 "all reachable states of the product of two real handles under all alternations of client and server actions up to a depth",
 "Tests run one scripted dialogue; they cannot show absence of deadlock or disagreement over all dialogues.",
 ["src/trax.c", "src/message.c"],
 [("object counting on both sides", "src/trax.c")],
 [("objects of both handles", "must agree whenever the channels are empty", "include/trax.h")],
 ["outputs of matching calls, blocked reads"])

prop("S05", "Termination is announced once, is final, and resources are balanced",
 "Whoever terminates, the quit message with its reason is written at most once and received as TRAX_QUIT with that reason; afterwards the handle reports not alive and every further session call returns TRAX_ERROR without any traffic. Terminating or cleaning up repeatedly is harmless, and once all handles and returned objects are released through the API no memory allocated by the library remains and nothing was released twice.",
 ["histories", "fault_sequences"],
 "all API/peer histories up to a depth including failing and refused calls, followed by release of everything, with an allocation counter and a freed-memory checker",
 "Tests do not check leaks, double release or calls after termination.",
 ["src/trax.c", "src/message.c"],
 [("trax_terminate, trax_cleanup, failure paths of wait functions", "src/trax.c")],
 [("TRAX_FLAG_TERMINATED", "session over", "include/trax.h")],
 ["live allocations after release, bytes on the channel, return codes"])

prop("S06", "A refused client or server call has no effect",
 "When a client initialize or frame call or a server reply returns TRAX_ERROR because of its arguments or the state of the session, nothing has been written to the peer, the number of tracked objects is unchanged, a later legal call behaves as if the refused one had never been made, and the error text is available.",
 ["histories", "inputs"],
 "every refusal cause (no or too many objects, missing channel image, unconvertible or empty region, wrong version mode, wrong object count, terminated handle) injected before every step of every short session, compared with the same session without it",
 "Tests never provoke a refusal.",
 ["src/trax.c"],
 [("argument checks before the first write", "src/trax.c")],
 [("handle.objects, handle.error", "session state", "include/trax.h")],
 ["bytes written, subsequent results, trax_get_error"])

prop("S07", "Sessions and values do not disturb each other",
 "What a session, region, image, property set or C++ value does depends only on what is done to it: operations on objects that have nothing in common give, in any order and when different threads carry them out at the same time, exactly what each of them gives alone - the same results, bytes written, log and error texts.",
 ["schedules"],
 "all ordered pairs of twelve kinds of operations (set up and talk over a session of either end, write and read regions, compare, rasterize, encode and decode images, properties, values of the C++ interface), the first one interrupted at every basic block by the whole of the second",
 "No test uses two sessions or threads at once; shared static buffers and parser states only show when another thread runs in between.",
 ["src/trax.c", "src/message.c", "src/region.c", "src/base64.c", "src/trax.cpp"],
 [("image_formats_decode, region_formats_decode, channels_decode", "src/trax.c"), ("read_message, write_message", "src/message.c"), ("region_parse, region_string, region_compute_overlap", "src/region.c")],
 [], ["results, bytes written, log and error texts of each operation"])

# ---------------------------------------------------------------- images
prop("I01", "Images of every kind cross the wire bit-exactly",
 "A path, URL, raw memory (gray8, gray16, RGB) or JPEG/PNG buffer image sent on any channel arrives on the same channel with the same kind, dimensions, format and exactly the same bytes and length, for every size and content.",
 ["inputs"],
 "all memory sizes up to a bound for each format, all buffer lengths up to a bound (all residues mod 3 and mod 4096), every byte value, path/URL strings over a hostile alphabet, all channel subsets and kind mixes",
 "The image tests send one small buffer and a fixed path.",
 ["src/trax.c", "src/base64.c"],
 [("image_encode/image_decode", "src/trax.c"), ("base64encode/base64decode", "src/base64.c")],
 [], ["server-side image accessors"])

prop("I02", "Image and image-list accessors address exactly the declared pixels",
 "The rows of a memory image are disjoint, consecutive, each exactly one row of pixels long and inside the image; what is written through one row is read back from that row and no other. Header, type, path, URL and buffer accessors return what the image was created from, and an image list returns for each channel exactly the image set for it and none for unset or unknown channels.",
 ["inputs", "histories"],
 "all widths/heights/formats up to a bound with every row written in every order; all set/get/clear sequences over the channels up to a depth against a reference map",
 "Tests that use memory images from C do not check row addressing.",
 ["src/trax.c"],
 [("trax_image_write_memory_row/get_memory_row, trax_image_list_*", "src/trax.c")],
 [], ["accessor results, AddressSanitizer"])

# ---------------------------------------------------------------- regions
prop("R01", "Region text encoding round-trips",
 "Decoding the encoding of any region yields the same type and values: special codes and masks exactly, rectangle and polygon coordinates exactly to the four printed decimals; encoding a decoded text again is a fixed point. Every textual form (bare numbers: one a special code, four a rectangle, an even count from six a polygon; the prefixes rect:, poly:, mask: with alternating run lengths starting with background, and special:; any NaN value: a special region, with the negated fourth value as its code if there are exactly four) decodes to the region it denotes, and texts with a number of values that fits no form, or masks with a non-positive size or a negative run, are rejected with NULL.",
 ["inputs"],
 "all masks of up to 16 pixels of every shape at several offsets, all run lengths around count boundaries, all rectangles/polygons over a coordinate grid including negatives, halves and extreme magnitudes, all special codes of a boundary set, all short strings over the grammar's alphabet",
 "region.c's test parses a handful of literals.",
 ["src/region.c", "src/trax.c"],
 [("region_string, region_parse", "src/region.c")],
 [], ["trax_region_encode/trax_region_decode and accessors"])

prop("R02", "Region conversions preserve the region's extent and pixels",
 "Conversion is defined for every pair of rectangle, polygon and mask, wherever the region lies, including negative coordinates. A rectangle becomes the polygon with corners x, y and x+width-1, y+height-1; a polygon becomes the rectangle from its least to its greatest coordinates; a mask becomes the rectangle that holds exactly its outermost foreground pixels, or the polygon through those outermost pixels (a mask without foreground: an empty rectangle at its position); and a mask made from a rectangle or polygon marks exactly the pixels that region covers. Converting to the same type, or cloning, gives an equal and fully independent copy. Every region can be converted to special (code 0, or its own code if it is special); special regions convert to nothing else (NULL).",
 ["inputs"],
 "all integer and half-integer rectangles, triangles and quadrilaterals over a small grid straddling the origin, all masks of up to 12 pixels at several offsets, converted along every pair and every two-step chain, against a reference",
 "One or two conversions of positive-coordinate regions are tested.",
 ["src/region.c", "src/trax.c"],
 [("region_convert, rasterize_polygon, region_autoconvert", "src/region.c, src/trax.c")],
 [], ["trax_region_convert, accessors"])

prop("R03", "Bounds and point containment match the region's geometry",
 "The bounds of a polygon are the least and greatest of its coordinates, those of a mask the first and last row and column with foreground, those of a rectangle x, y, x+width-1, y+height-1. A point is reported contained in a rectangle exactly when x <= px <= x+width and y <= py <= y+height, in a mask exactly when the pixel (floor(px), floor(py)) is foreground, in a polygon exactly when it lies inside by the even-odd rule (points on an edge may go either way), and never in a special region. No query reads outside the region's storage or changes the region.",
 ["inputs"],
 "all regions of a small grid straddling the origin against all query points of a finer grid (quarter pixels), including points on and outside every side, against an exact reference",
 "No test queries negative or fractional points.",
 ["src/region.c"],
 [("compute_bounds_*, point_in_polygon, point_in_mask", "src/region.c")],
 [], ["trax_region_bounds, trax_region_contains"])

prop("R04", "Overlap is the exact intersection over union of pixel sets",
 "The overlap of two regions equals |A and B| / |A or B| of their pixel sets (the foreground of a mask; the pixels whose row and column lie between the rounded limits of a rectangle; those a polygon with rounded corners covers on each row) clipped to the given bounds, edges included. It therefore lies in [0,1], is symmetric, 1 for a region with itself, 0 for disjoint regions, and invariant under common integer translation and under bounds that contain both regions. Empty and special regions, and anything clipped away, give 0; regions of any magnitude give a finite value.",
 ["inputs", "configurations"],
 "all pairs of rectangles, triangles and masks over a small grid straddling the origin, with and without bounds, at several common translations, against an independent rasteriser and the algebraic laws",
 "The region test checks a few overlaps of fixed pairs.",
 ["src/region.c", "src/trax.c"],
 [("region_compute_overlap, rasterize_polygon", "src/region.c")],
 [("legacy rasterization flag", "alternative pixel semantics", "src/region.c")],
 ["trax_region_overlap"])

# ---------------------------------------------------------------- containers
prop("C01", "A property map behaves as a string map in every history",
 "In every sequence of set, typed set, get, typed get, has, count, enumerate, clear, copy, append and release, a property map returns what a finite string-to-string map would: the last value set per key, the given default for absent or non-numeric values, each key enumerated exactly once; append overwrites existing keys only when asked to, and copies are independent.",
 ["histories", "inputs"],
 "all operation sequences up to a depth over colliding and non-colliding keys and values of growing and shrinking length on two maps, against a reference map",
 "No test uses the property map beyond single set/get.",
 ["src/strmap.c", "src/trax.c"],
 [("hash buckets, in-place value replacement", "src/strmap.c"), ("copy_properties flags", "src/trax.c")],
 [], ["trax_properties_*"])

prop("C02", "Object lists hold independent copies in every history",
 "In every sequence of create, set, get, properties, append and release, an object list of n slots returns for each slot the region last stored there (by value, unaffected by later changes to or release of the source) and its own property map; appended lists are copied element-wise in order, and out-of-range indices are ignored or return null.",
 ["histories"],
 "all operation sequences up to a depth over two lists and a pool of regions of every type, against a reference list",
 "Tests only build one-element lists.",
 ["src/trax.c"],
 [("trax_object_list_*", "src/trax.c")],
 [], ["trax_object_list_* and region accessors"])

# ---------------------------------------------------------------- C++
prop("W01", "C++ wrappers are safe values",
 "In every sequence of construction, copy, move, (self-)assignment, mutation and destruction of Region, Properties, ImageList, ObjectList, Image and Metadata objects, each object observably holds the value last given to it, mutating one through its setters never changes another, and every underlying object is released exactly once.",
 ["histories"],
 "all operation sequences up to a depth over three variables of each class, against value semantics, with allocation counting and AddressSanitizer",
 "Tests create wrappers once and never copy, self-assign or mutate shared ones.",
 ["src/traxpp.cpp", "include/trax.h"],
 [("Wrapper claim counter, ensure_unique, claims() checks", "src/traxpp.cpp")],
 [("Wrapper::pn", "number of owners", "include/trax.h")],
 ["accessors, live allocations"])

prop("W02", "The C++ client and server behave exactly like the C API",
 "For every session history, the C++ Client, ServerSOT and ServerMOT classes return the same codes, images, regions, objects, properties and metadata as the C functions and write the same bytes; per-object properties are visible in the single-region forms, and no history leaks or releases an object twice.",
 ["histories", "configurations"],
 "all session histories up to a depth driven through the C++ classes and through the C API side by side",
 "C++ tests cover one nominal session.",
 ["src/traxpp.cpp", "src/trax.c"],
 [("Client::wait/initialize/frame, ServerMOT::wait/reply, ServerSOT", "src/traxpp.cpp")],
 [], ["results and bytes of paired histories"])

# ---------------------------------------------------------------- client support library
prop("P01", "Supervised trackers: every schedule ends cleanly and in time",
 "Under every interleaving of the caller, the watchdog and the logger thread and every behaviour of the tracker process (answering, silent, exiting, crashing at any point), each TrackerProcess call returns or throws within the configured timeout (or as soon as any of the watchdog callbacks asks for it) plus the bounded stop escalation, never deadlocks, never touches a released client or process, never ends the calling program (SIGPIPE), and leaves no running child, thread or descriptor behind once the object is destroyed; the calls of a session with a tracker that answers all succeed, a tracker that answers is told to quit before it is signalled, and after a failure reset() or a new initialize() gives a working tracker.",
 ["schedules", "crash_points", "fault_sequences"],
 "all interleavings up to a preemption bound of the real client code under a controlled scheduler with virtual time and a simulated process, over all tracker behaviours of a small menu",
 "The timeout tests run one real-time schedule each.",
 ["support/client/client.cpp", "support/client/process.cpp", "support/client/threads.cpp"],
 [("process_state_mutex, watchdog_mutex, stop escalation", "support/client/client.cpp")],
 [("watchdog_timeout", "remaining ticks before the tracker is stopped", "support/client/client.cpp")],
 ["return/throw, virtual time, simulated process table, AddressSanitizer"])

prop("P02", "The tracker is started with exactly the requested command line",
 "For every command string, the spawned program and its argument vector are exactly the tokens obtained by splitting on runs of spaces, where a double quote at the start of a token groups everything up to the next one, environment variables set by the caller override inherited ones, and a command without tokens or with an open quote raises an error instead of crashing; a socket connection is announced with the port that was really bound; the child sees the requested stream connection and working directory.",
 ["inputs", "configurations"],
 "all command strings up to a bound over {letter, space, quote, other}, environment combinations, three connection modes, against a reference tokenizer",
 "Tests start trackers with one plain path.",
 ["support/client/process.cpp", "support/client/client.cpp"],
 [("parse_command/__next_token, posix_spawnp", "support/client/process.cpp")],
 [], ["arguments of posix_spawnp"])

prop("P03", "Child process bookkeeping is exact in every history",
 "In every history of start, is_alive, stop, kill, stream access and destruction interleaved with the child exiting or being killed at any point, the reported liveness and exit status are those of the child, each child is waited for exactly once, signals are never sent to a process that has been reaped, and all descriptors opened for it are closed exactly once.",
 ["histories", "fault_sequences"],
 "all operation sequences up to a depth interleaved with all child events and failures of pipe/spawn/waitpid, over a simulated process table",
 "Tests start and stop one process once.",
 ["support/client/process.cpp"],
 [("running/exit_status/pid bookkeeping, cleanup", "support/client/process.cpp")],
 [("running, pid", "lifecycle of the child", "support/client/process.h")],
 ["calls to posix_spawnp, waitpid, kill, pipe, close"])

prop("P04", "Tracker output reaches the log completely, line by line",
 "Whatever the tracker prints on its error stream (when it is connected by a socket, also on its standard output), and on the stream of the conversation up to the last message that was waited for, in whatever chunks, the log stream receives it in order with every line complete, except that a line longer than the truncation limit (255 characters) is cut there and terminated, an unfinished last line is terminated, and the following lines are unaffected; lines from the protocol conversation and from standard error are never merged into one another's lines.",
 ["inputs", "schedules"],
 "all sequences of line lengths around the truncation limit and buffer size and all chunkings around their boundaries, on both streams",
 "No test inspects the log output.",
 ["support/client/client.cpp"],
 [("line_buffer_push/flush", "support/client/client.cpp")],
 [("line_buffer", "partial line", "support/client/client.cpp")],
 ["bytes written to the log ostream"])

prop("P09", "Several trackers can be run at the same time",
 "When a program runs several trackers, one after another, alternately or from different threads, every session works as if it were alone: its tracker starts in its own directory with its own environment and receives only its own requests, its answers and output reach only its own results and log, and the failure of one tracker does not affect the others. A tracker process holds no streams or sockets of other sessions, and the working directory of the program is the same afterwards.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of the calls of two sessions in all pairs of connection modes, with one of them failing at any point; two threads with a bounded number of preemptions anywhere",
 "Tests run one tracker at a time.",
 ["support/client/client.cpp", "support/client/process.cpp", "src/message.c"],
 [("start_process, create_server_socket", "support/client/client.cpp"), ("Process::start", "support/client/process.cpp")],
 [("working directory, descriptors, next port", "shared by all sessions of a program", "support/client/client.cpp")], ["directory, environment and descriptors of the started processes, results, logs"])

prop("P05", "Locks and signals of the client library are correct primitives",
 "Under every interleaving of up to three threads, at most one thread holds a mutex at a time, a recursive lock is released exactly when its outermost holder releases it, a lock guard releases on every exit, and waiting on a signal returns when it is notified or, with a timeout, no earlier than a notification and no later than the given time, for every timeout value.",
 ["schedules", "inputs"],
 "all interleavings up to a preemption bound of 2-3 threads with 1-3 operations each over the real lock classes with a controlled scheduler and virtual clock; all timeouts of a boundary set at all sub-second clock phases",
 "No test exercises the primitives.",
 ["support/client/threads.cpp", "support/client/threads.h"],
 [("Mutex/RecursiveMutex/Lock/Signal, simple_threads_cond_wait", "support/client/threads.cpp")],
 [], ["critical-section occupancy, wake-up times"])

prop("P06", "Trajectory files round-trip",
 "Loading a saved trajectory yields the same number of regions in the same order with the same types and values (to four decimals, masks and codes exactly, empty entries kept), whatever line ending the file uses and whether or not its last line is terminated.",
 ["inputs"],
 "all sequences up to a length over a pool of regions of every type, all combinations of LF/CRLF/CR endings and of a missing final terminator",
 "Tests write output files nobody reads back.",
 ["support/client/client.cpp", "src/traxpp.cpp"],
 [("operator<< and operator>> for Region, load_trajectory/save_trajectory", "src/traxpp.cpp, support/client/client.cpp")],
 [], ["load_trajectory result"])

prop("P08", "The test utility tells whether a tracker works",
 "traxtest runs the tracker that its arguments name, with the environment, parameters, timeout and connection they ask for, and exits with code 0 exactly if the tracker started, took every request and answered every one of them until the run or the tracker ended the session; any failure, an unknown switch, or a tracker for which it has no image gives a nonzero code and never a crash. The tracker gets the built-in picture, complete and unchanged, in a form that it accepts (as a file, an encoded buffer or pixels), one object if it tracks one and several if it declares that it can, objects added during the session only in the latter case. It gets twenty frames in a session; every request follows the answer to the previous one and every answer is awaited. -I N makes N sessions, with a new process where the tracker ended the session. No tracker process is left behind.",
 ["histories", "faults", "inputs"],
 "every position of a failure or of the end of a session in up to 2 (3) sessions x kinds of image x one or many objects; every set of image formats; combinations of switches",
 "The repository uses the utility in its tests but does not test it: they cannot tell a tracker that fails from a utility that fails.",
 ["support/client/tester.cpp", "support/client/tester_resources.c"],
 [("main, get_temp_name, tester_copy_resource", "support/client/tester.cpp, support/client/tester_resources.c")],
 [], ["calls seen by the tracker, exit code"])

prop("P07", "The command line client performs the experiment it is asked for",
 "traxclient runs the tracker that its arguments name, with the environment, parameters, timeout, connection and verbosity they ask for, over the first min(images, groundtruth) frames. Frames without an initialization region (from the initialization file if given, otherwise from the groundtruth) are skipped with code 0; the tracker is initialized at the next frame that has one, receives every following frame once and in order, with exactly the channels and one of the image formats that it declares, and its answer to a frame is compared with the groundtruth of that frame. An overlap at or below the threshold, or the tracker ending the session, is a failure: code 2, then with -r N the N-1 following frames get code 0 and the tracker is restarted for the rest, without -r the rest gets code 0. The output has one entry per frame (1 for an initialization, otherwise the tracker's region) and the timings one number per frame: the time the tracker took from receiving the frame to its answer. The overlap is bounded by the image of the frame where TRAX_BOUNDED_OVERLAP asks for it and the size of the image is known. Every error (files, switches, images, tracker) ends with a nonzero exit code and never with a crash, a query prints the introduction of the tracker, an interrupt reaches the running call, and no tracker process is left behind.",
 ["histories", "faults", "inputs"],
 "all experiments of up to 5 (6) frames x missing initializations x thresholds x reinitialization offsets x answers of the tracker; all failures of its calls; all channel and format sets; all image kinds for bounded overlap; combinations of switches",
 "The tests run the client on one sequence with a tracker that never fails, and check the exit code only.",
 ["support/client/cli.cpp"],
 [("main, load_images, read_images, image_get_size", "support/client/cli.cpp")],
 [], ["calls seen by the tracker, output and timing files, exit code"])

prop("R05", "The region library gives exact masks of any window and exact parts of an overlap",
 "A region drawn into a window of any size at any position gives exactly its pixels in that window, writes every pixel of the window and nothing outside of it, and leaves the region as it was. The three parts of an overlap are the shares that belong to both regions, only to the first and only to the second within the bounds; each is between 0 and 1, whatever the coordinates. With the flag for the older rasterization set, polygons and rectangles cover the pixels of the older rule (row y from the integer part of the left to below the one of the right crossing of the edges above it), bounds and corners of rectangles reach one further and overlaps are those of these pixels; clearing the flag restores the exact rules.",
 ["inputs"],
 "all windows up to a size at all offsets around 22 regions of all kinds; all triangles and quadrilaterals on a grid cut by windows; all pairs of a pool under bounds; all legacy triangles and rectangles on a grid; all combinations of extreme values",
 "The tests print a few regions; windows, the parts of an overlap and the legacy flag are never exercised.",
 ["src/region.c", "src/region.h"],
 [("region_get_mask_offset, region_compute_overlap, rasterize_polygon, region_set_flags", "src/region.c")],
 [], ["buffers, overlap values"])

prop("L01", "Text and files do not depend on the locale of the program",
 "Whatever locale the program that uses the library has set, in C or in C++ (decimal comma, digit grouping, other rules for letters and case), everything that the library writes and reads is the same as in the standard locale: region texts, trajectory files, property values set or read as numbers, messages (types, keys, images, regions, versions), the lines that are recognized as messages, and the arguments, environment and port of a tracker that is started. Two programs with different locales understand each other.",
 ["inputs", "environment"],
 "five locales x region texts of up to 3 (4) numbers, region values of every kind, property values as text and numbers, sessions of both ends, every byte in keys and message types, command lines and environments",
 "All tests run in the standard locale, in which such an error cannot show.",
 ["src/region.c", "src/trax.c", "src/message.c", "src/buffer.h", "support/client/process.cpp"],
 [("region_string, region_parse", "src/region.c"), ("trax_properties_set_float, trax_properties_get_int, trax_properties_get_float", "src/trax.c"), ("__is_valid_key, __parse_message_type", "src/message.c"), ("Process::start, set_environment", "support/client/process.cpp")],
 [], ["texts, values, bytes sent"])

# ---------------------------------------------------------------- bindings
prop("T01", "The Python binding is a faithful view of the C library",
 "Every region, image, property map, object list and session driven through the Python package yields the same values, types and results as the C API: values set from Python are what a C peer receives and vice versa, for every combination of region and image kinds, property types and message orders, from arrays of any memory layout and byte order (arrays whose values the library cannot hold are refused with TraxException), including the properties of a reply, which reach the client with every object that does not set them itself. What a request, a reply or the set-up is refused for in C raises TraxException in Python, and so does the end of a session; ending a session more than once is harmless. A log receives exactly the messages that are exchanged, and an interrupt raised in it is raised by the call under way. Python objects stay valid as long as they are referenced, also after the session they came from, arrays are copies, and everything the library allocated is released with them.",
 ["histories", "inputs"],
 "all session histories up to a depth with a Python client and a Python server over pipes, over pools of regions, images and properties of every kind, each compared with the same history of two C peers; all small masks, arrays of every element type and layout, sequences of operations on properties, metadata of every kind, every point of interruption",
 "The Python tests cover one static tracker and a few image conversions.",
 ["support/python/trax/__init__.py", "support/python/trax/client.py", "support/python/trax/server.py", "support/python/trax/region.py", "support/python/trax/image.py"],
 [("ctypes wrappers", "support/python/trax/_ctypes.py"), ("session classes", "support/python/trax/client.py, support/python/trax/server.py"), ("ownership of C objects", "support/python/trax/__init__.py: Wrapper, OwnerRef")],
 [], ["Python values on both ends"])

prop("T02", "The OpenCV bridge converts images and regions losslessly",
 "A memory image becomes an OpenCV matrix of its size and kind (gray8: 8UC1, gray16: 16UC1, rgb: 8UC3 with the channels in OpenCV's BGR order) holding its pixels, and such a matrix, whether on its own or inside of a bigger one, becomes the memory image it stands for, so that both ways back are exact; matrices of other types are refused; encoded images and image files become the pixels they encode, images that cannot be read an empty matrix. Rectangles (rounded to whole pixels when fractional), polygons and points convert to each other coordinate by coordinate; a region without a place has an empty rectangle and no points. A mask at any offset becomes a matrix anchored at the origin whose non-zero pixels are exactly the mask's pixels at non-negative coordinates and a matrix becomes the mask of its non-zero pixels. Drawing a mask gives exactly its pixels on the canvas the colour; no drawing touches anything outside of the canvas. Results do not share memory with arguments and nothing leaks.",
 ["inputs"],
 "all image sizes up to a bound for each pixel format with position-dependent contents and matrix placement, all OpenCV element types, all rectangles, polygons and fractions of a grid, all small masks at all offsets around the origin and the canvas",
 "OpenCV conversions are only exercised by a demo tracker; no test calls them.",
 ["support/opencv/opencv.cpp"],
 [("image_to_mat, mat_to_image, region_to_rect, rect_to_region, region_to_points, points_to_region, region_to_mat, mat_to_region, draw_region", "support/opencv/opencv.cpp")],
 [], ["cv::Mat contents"])

prop("T03", "The MATLAB and Octave functions are a faithful view of the session",
 "traxserver('setup') declares exactly the formats, channels, name and custom properties of its arguments and refuses others; traxserver('wait') returns the images (paths and URLs as text, memory images as matrices of their size, kind and pixels, encoded images as structures), the region and the properties (as cell or as structure whose valid distinct field names hold the values) of what the client asked, and empty values when it ended the session; traxserver('state') delivers the rectangle, polygon or mask that its array denotes and all properties of its structure or cell with numbers exactly. A call with illegal arguments, in the wrong order or in excess raises an error, reads nothing outside of its arguments, sends nothing and leaves the session usable; after quit, a client's quit or a failure no session remains and nothing leaks. traxclient starts the tracker once with the options it was given, calls the callback with the state, properties, timing, formats and the data that its last call returned, sends what it answers (a region initializes, resetting the tracker when it is already tracking), ends on an empty image, raises an error when the callback's values are illegal or the tracker fails or the user interrupts, and in every case stops the tracker and gives the interrupt handling back.",
 ["inputs", "history"],
 "all image kinds, sizes and channel sets, all region arrays and masks of a bound at all offsets, all property values and shapes, all argument vectors of a bound out of 16 kinds, all histories of calls legal or not up to a depth, all courses of the callback up to a depth with every value in the first, every failure and interrupt point",
 "The bindings are compiled by the build at best; no test calls them.",
 ["support/matlab/helpers.cpp", "support/matlab/traxserver.cpp", "support/matlab/traxclient.cpp"],
 [("mexFunction", "support/matlab/traxserver.cpp"), ("mexFunction, call_callback", "support/matlab/traxclient.cpp"), ("image_to_array, array_to_image, region_to_array, array_to_region, parameters_to_cell, parameters_to_struct, cell_to_parameters, struct_to_parameters, get_flags", "support/matlab/helpers.cpp")],
 [], ["the values returned by the functions", "the messages on the streams"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
