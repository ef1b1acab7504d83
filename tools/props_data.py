prop("C01", "Shared mutable state is only touched under its lock",
 "Every operation on state that several threads share (the loaded plug-in table and its reference counts, the service table, the scheduler's user count and threads, a server's connection pool and listening flag, connection timers, the resource, redirect and authentication tables and caches, the user table, the shutdown flag, the file and log caches) reads and modifies it only while holding the mutex that protects it. No lock is dropped before the last use of a reference or iterator into that state.",
 ["schedules"], "all interleavings of threads calling the public interface",
 "A race needs two threads in a window of nanoseconds; the tests are single-threaded around this state.",
 ["include/pion/plugin.hpp", "src/plugin.cpp", "include/pion/plugin_manager.hpp", "src/scheduler.cpp", "include/pion/scheduler.hpp", "src/tcp_server.cpp", "src/tcp_timer.cpp", "src/http_server.cpp", "src/http_auth.cpp", "src/http_basic_auth.cpp", "src/http_cookie_auth.cpp", "include/pion/user.hpp", "src/process.cpp", "services/FileService.cpp", "services/LogService.cpp"],
 [("scoped locks on the per-class mutexes", "every listed class")],
 "interprocedural must-lockset dataflow over the CFG of every function",
 "Decides, for every program point that mentions a guarded field, that the guarding mutex is certainly held; locks are identified by member, not object instance; constructors and destructors are exempt.")
prop("C02", "No operation can deadlock on the library's own locks",
 "No operation acquires a lock its own thread already holds, directly, through a virtual call, or through a callback; locks are always nested in one order; and connection and request handlers, error handlers and completion callbacks are never invoked while a library lock is held. A thread is never joined while a lock its work may need is held.",
 ["schedules", "histories"], "all call chains and interleavings through the library",
 "Self-deadlock hides on rare branches (a second open, a missing user, a pipelined request) and order inversion needs two threads; the tests walk neither.",
 ["include/pion/plugin.hpp", "src/plugin.cpp", "include/pion/plugin_manager.hpp", "src/scheduler.cpp", "include/pion/scheduler.hpp", "src/tcp_server.cpp", "src/tcp_timer.cpp", "src/http_server.cpp", "src/http_auth.cpp", "include/pion/user.hpp", "src/process.cpp"],
 [("unlock() before calls that lock again", "src/tcp_server.cpp, src/plugin.cpp"), ("locks taken in leaf functions only", "all classes")],
 "may-lockset dataflow + transitive lock-acquisition summaries + lock-order graph",
 "Call graph includes overriders and function objects bound inside the library; code outside the repository is not modelled.")
prop("C08", "The HTTP start line and header parser implements one fixed grammar",
 "In every parser state and for every next byte, the header parser takes the transition of the HTTP/1.x grammar it documents: the same verdict, error, next state, and the same bytes appended to or cleared from the method, resource, query, version digits, status code, status message, header name and header value. It accepts CRLF and bare LF line ends, folds header continuation, ends the head at the first empty line, and consumes exactly the bytes of the head, so the result does not depend on how the input was split into reads.",
 ["inputs", "histories"], "every parser state, every byte and pair (triple in the thorough tier) of bytes, requests and responses, any earlier content of the accumulators",
 "There are hundreds of state and byte combinations and every split of the input; tests feed a few complete messages.",
 ["src/http_parser.cpp", "include/pion/http/parser.hpp"],
 [("parse_headers state machine", "src/http_parser.cpp parse_headers"), ("character classes", "include/pion/http/parser.hpp is_char/is_control/is_special")],
 "abstract interpretation of the parser's transfer function per control state; exact comparison with a grammar table",
 "Interval/equality abstract domain with symbolic strings; all 256 byte values; the limits on lengths belong to C06.")
prop("C09", "Chunked content is decoded by one fixed grammar",
 "In every state of the chunked-content parser and for every next byte: chunk sizes are hexadecimal, extensions and white space are ignored, data is exactly as many bytes as the size says, CRLF must follow it, and a zero-size chunk ends the content (with or without footers). Every data byte is, in order and once, either stored (up to the configured maximum) or given to the payload handler; the consumed and counted bytes agree with the input, wherever the reads were split. Anything else fails with a chunk error.",
 ["inputs", "histories"], "every chunk-parser state, every one and two byte input (three in the thorough tier), with and without payload handler, any remaining chunk size",
 "Chunk boundaries can fall anywhere in a read; the tests use two or three hand-written splits.",
 ["src/http_parser.cpp"],
 [("parse_chunks state machine", "src/http_parser.cpp parse_chunks")],
 "abstract interpretation of the parser's transfer function per control state; exact comparison with a grammar table",
 "Remaining chunk size, buffered content and digits are symbolic intervals; strtol is an uninterpreted base-16 conversion.")
prop("C10", "Message content is stored completely and never outside its buffer",
 "Content of known length, content read until the end of input, content handed over as chunks and content lost in transit (missing packets) are each accounted exactly: every byte of input is, in order and once, either stored at the offset it belongs to or given to the payload handler; bytes beyond the configured maximum are counted but not stored; bytes that were never received are filled with a defined value. No write leaves the content buffer for any content length, maximum and split of the input, and the buffer always holds its declared length plus a terminator.",
 ["inputs", "histories"], "every content length, maximum, amount already read and amount available (64-bit symbolic), with and without payload handler, every message state",
 "The arithmetic of lengths, limits and gaps only goes wrong at its edges; the tests use a handful of short bodies.",
 ["src/http_parser.cpp", "src/http_message.cpp", "include/pion/http/message.hpp"],
 [("consume_content, consume_content_as_next_chunk, parse_missing_data", "src/http_parser.cpp"), ("content_buffer_t", "include/pion/http/message.hpp"), ("concatenate_chunks", "src/http_message.cpp")],
 "abstract interpretation with linear symbolic sizes; every block write compared with the buffer's allocation",
 "Difference constraints between lengths, limits and counts; 64-bit wrap-around modelled by interval splits.")
prop("C12", "A message is completed exactly once with the right status",
 "The parser runs its parts in the order the message states give, continues while undecided and input remains, finishes a message exactly once, and returns the verdict of its last part with the sum of the bytes its parts consumed. Completion sets validity, status and content as the state demands; everything the head said (method, resource, query, status, cookies) reaches the message, form content is decoded exactly when it is available; the end of input completes only a message that has no other end. A gap reported as missing data completes the message exactly when it is the rest of the content, continues it when more is outstanding, and otherwise fails with its own error.",
 ["inputs", "histories"], "every message state and every sequence of up to three (thorough: four) part verdicts, with and without payload handler",
 "Truncation, missing data and the orders in which parts end are rarely produced by a test that feeds one whole message.",
 ["src/http_parser.cpp", "include/pion/http/parser.hpp"],
 [("parse, finish, compute_msg_status, check_premature_eof", "src/http_parser.cpp"), ("update_message_with_header_data", "src/http_parser.cpp")],
 "abstract interpretation of parse() under every scripted sequence of part results; exact comparison with the state diagram",
 "The part parsers are replaced by their verdicts (C08, C09 and C10 decide the parts themselves).")
prop("C13", "The message head alone decides how the body is framed",
 "After the head, the body is: chunked when the last transfer encoding says so; empty when the status code or method implies it; exactly Content-Length bytes when that header is a valid number; until the end of input for a response without length; empty for a request without length. An invalid length is an error and never a guess. The verdict and next state follow for every combination, and with headers-only parsing no body is read.",
 ["inputs"], "every combination of transfer encoding, implied length, content-length presence and value, request or response, headers-only, payload handler",
 "Request smuggling and hung connections live in the combinations nobody writes a test for.",
 ["src/http_parser.cpp", "src/http_message.cpp", "include/pion/http/message.hpp", "include/pion/http/response.hpp"],
 [("finish_header_parsing", "src/http_parser.cpp"), ("update_transfer_encoding_using_header, update_content_length_using_header", "include/pion/http/message.hpp")],
 "abstract interpretation over all header scenarios; exact comparison with a framing table",
 "Header values are symbolic; the regular expression for chunked is evaluated on representative values by its text.")
prop("C14", "Queries, cookies and multipart forms follow one fixed grammar",
 "The url-encoded, cookie and multipart parsers record, for every input, exactly the names and values their grammar gives, in order, decoded where the grammar says, fail exactly on control characters and on names or values beyond their limits, and never read outside the given range, whatever the input ends with.",
 ["inputs"], "every control state with arbitrary text accumulated, every sequence of one and two (thorough: three) further bytes; multipart layouts with arbitrary data bytes",
 "These parsers see attacker-controlled text; the tests try about a dozen strings.",
 ["src/http_parser.cpp", "include/pion/http/parser.hpp"],
 [("parse_url_encoded, parse_cookie_header, parse_multipart_form_data, is_cookie_attribute", "src/http_parser.cpp")],
 "abstract interpretation of the parsers' transfer functions from every control state; exact comparison with grammar tables and bounds of every read",
 "Control states are reached by constant prefixes whose accumulators are then replaced by arbitrary strings.")
prop("C05", "The HTTP parser never reads outside the input it was given",
 "Whatever state the parser is in and whatever the bytes are, every byte the header parser, the chunk parser and the content readers look at, copy or hand to a payload handler lies between the read position and the end of the current input, an empty input is never read, and the read position never passes the end.",
 ["inputs", "histories"], "every header, chunk and content state, every input of up to two bytes (any length for block reads)",
 "An over-read by one byte at the very end of a buffer is invisible to a functional test.",
 ["src/http_parser.cpp", "include/pion/http/parser.hpp"],
 [("m_read_ptr < m_read_end_ptr loop guards", "src/http_parser.cpp"), ("bytes_available", "include/pion/http/parser.hpp")],
 "abstract interpretation; every dereference of the input compared with the bytes available",
 "The secondary parsers (queries, cookies, multipart) are bounded by C14.")
prop("C06", "Every text the HTTP parser accumulates has an enforced limit",
 "No token of a start line or header (method, resource, query string, status message, header name, header value) and no chunk size can grow beyond its documented maximum: the byte that would exceed it makes the parser fail with the error that names that token, and a token of exactly the maximum is accepted.",
 ["inputs"], "every header-parser state with accumulated text of any length around its limit",
 "Reaching a limit needs kilobytes to megabytes of one token in one state; no test does.",
 ["src/http_parser.cpp", "include/pion/http/parser.hpp"],
 [("*_MAX comparisons before each push_back", "src/http_parser.cpp parse_headers, parse_chunks")],
 "abstract interpretation with symbolic string sizes; comparison with the limit table",
 "The number of headers is not limited by the parser and is not claimed.")
prop("C07", "A parser failure always carries its own error code, and only a failure",
 "Whenever the HTTP parser (or one of its parts) returns false, the caller's error code is set to a non-zero value of the parser's own category; it is never set when the parser does not fail, and parse() passes the error of its parts on unchanged. Every error value of the HTTP and SPDY parsers has exactly one non-empty message that no other error and no unknown value shares.",
 ["inputs"], "every verdict of every part parser from every state; every error value",
 "A failing path without an error code looks like success to callers that check the code; each path has to be looked at.",
 ["src/http_parser.cpp", "include/pion/http/parser.hpp", "include/pion/spdy/parser.hpp"],
 [("set_error before return false", "src/http_parser.cpp"), ("error_category_t::message", "include/pion/http/parser.hpp, include/pion/spdy/parser.hpp")],
 "abstract interpretation of every part parser; constant evaluation of the category over the enum",
 "Category identity is the class's own m_error_category_ptr.")
prop("C22", "The SPDY parser never reads outside the packet or header block",
 "For every packet of eight or more bytes, whatever its content and length field: every byte parse() reads lies inside the packet; the compressed header block it hands to the decompressor lies inside the packet; every byte of the decompressed block it reads lies inside the bytes the decompressor produced, for any number and length of header pairs; when it announces another frame, the next read position plus the remaining length is exactly the end of the packet and lies at least a frame header further; and it returns false exactly when it sets an error of its own category.",
 ["inputs"], "every packet length from 8 to 2^32-1, every byte, every decompressed block of 0 to 16384 bytes with any number of pairs",
 "An over-read needs a hostile length field or a truncated packet; the tests use well-formed captures.",
 ["src/spdy_parser.cpp", "include/pion/spdy/parser.hpp"],
 [("length checks before each read", "src/spdy_parser.cpp parse_spdy_frame, parse_header_payload")],
 "abstract interpretation with symbolic lengths and inductive loop states; every dereference compared with its block",
 "Packets shorter than the frame header are a recorded finding. The decompressor is replaced by any block of any size up to its buffer (C24).")
prop("C23", "SPDY frames are decoded and dispatched by one fixed table",
 "For every control bit, version, type, flags, length and stream id: parse() refuses first bytes other than 0 and 0x80, unknown types and versions above 3 with the right error; reads the 24-bit length and 31-bit stream id big-endian; advances the data offset by the frame header; sets the message type, stream id and FIN mark exactly for the frames that carry them; decompresses exactly the complete header frames, with the stream id, type, start and length of their block; inserts every header pair once with exactly its bytes; reports GOAWAY errors; and says another frame follows exactly when bytes remain. The static frame heuristics agree with the same table.",
 ["inputs"], "all frame types and representative versions and flags, every value of the length and stream id fields, blocks of up to three header pairs",
 "Bit masks and offsets only go wrong for ids and lengths with high bits set, or for frame types no capture contains.",
 ["src/spdy_parser.cpp", "include/pion/spdy/parser.hpp", "include/pion/spdy/types.hpp", "include/pion/algorithm.hpp"],
 [("populate_frame, parse_spdy_frame, parse_header_payload", "src/spdy_parser.cpp")],
 "abstract interpretation per frame kind; the symbolic field terms are compared with the big-endian reading",
 "Field terms are evaluated on assignments that separate any two byte-wise readings.")
prop("C24", "SPDY decompression uses zlib correctly for any zlib result",
 "The decompressor allocates and initialises two separate inflate streams before use and ends and frees each exactly once; every header block goes to the stream of its direction with exactly its bytes; zlib can never write beyond the output buffer; the SPDY version 2 dictionary is installed, once and whole, exactly when zlib asks for the dictionary whose checksum matches; success is reported exactly when zlib returned Z_OK and consumed the whole block, with the number of bytes produced, and every other result is a failure.",
 ["inputs", "faults"], "every zlib result (ok, end, need-dictionary, buffer, data, stream and memory errors) with and without unconsumed input, every stream parity and frame type",
 "The tests decompress valid captures only; the error results of zlib, and mixed directions, never occur.",
 ["src/spdy_decompressor.cpp", "include/pion/spdy/decompressor.hpp"],
 [("inflateInit2/inflateEnd pairs, retcode checks", "src/spdy_decompressor.cpp")],
 "typestate of the zlib streams by abstract interpretation over scripted zlib results",
 "zlib itself is assumed to honour avail_in/avail_out.")
prop("C18", "Text and byte conversions stay inside their buffers and tables",
 "For texts of any length and content, base64, URL and XML coding read only bytes of their input (or its terminator), index their tables and local buffers only inside their bounds, never throw, and use the length of the text only to find its end; each fixed-width byte reader and writer touches exactly its own bytes.",
 ["inputs"], "all five text coders with symbolic length up to 2^31 and arbitrary bytes; all 50-odd byte order functions",
 "Negative table indexes and one-past-the-end reads need bytes above 0x7F or truncated sequences at the very end of a text.",
 ["src/algorithm.cpp", "include/pion/algorithm.hpp"],
 [("table lookups and look-ahead in base64/url/xml coding", "src/algorithm.cpp")],
 "abstract interpretation with symbolic text length and inductive loop states; every array access compared with its extent",
 "The floating-point conversions are not claimed.")
prop("C19", "Base64 coding is RFC 4648 and decoding undoes encoding",
 "base64_encode() produces exactly the standard padded text of any input, including bytes above 0x7F; base64_decode() returns true with exactly the encoded bytes for such texts (a missing end of the last group is tolerated) and false as soon as it meets a character outside the alphabet.",
 ["inputs"], "all bytes in every position of a group; inputs of up to 6 (thorough: 9) bytes, i.e. more than one group",
 "Wrong table entries or masks show only for particular byte values in particular positions.",
 ["src/algorithm.cpp"],
 [("decoding_data, encoding_data", "src/algorithm.cpp")],
 "abstract interpretation to symbolic output terms, compared with the RFC 4648 reference for every byte value per position",
 "Lengths are bounded by more than one group; that the length is used only to find the end is decided by C18.")
prop("C20", "Integers are read and written most significant byte first",
 "Every to_intN/to_uintN reader (24 bits included) returns the big-endian value of its bytes, sign-extended where its type says so, and every from_intN/from_uintN writer stores those bytes, for signed and unsigned byte pointers alike, so that readers undo writers.",
 ["inputs"], "every byte value in every position for each of the functions and instantiations",
 "Sign extension of bytes above 0x7F and swapped middle bytes need specific values.",
 ["include/pion/algorithm.hpp"],
 [("to_uint16 ... from_int64", "include/pion/algorithm.hpp")],
 "abstract interpretation to symbolic terms compared with the positional value of every byte",
 "The templates are instantiated for char and unsigned char.")
prop("C21", "URL and XML coding follow one table for every byte",
 "url_encode() leaves exactly the safe characters alone and writes every other byte as %XX; url_decode() turns + into a space and % with two hexadecimal digits (other than 00) into that byte, and leaves everything else untouched, so it undoes url_encode(); xml_encode() escapes & < > quotes and apostrophes, keeps tabs, line ends, printable ASCII and well-formed multi-byte sequences, and replaces everything else by U+FFFD.",
 ["inputs"], "every byte in every position; combinations of up to four (thorough: six) bytes including truncated escapes and sequences",
 "Escaping gaps matter for one hostile byte the tests do not contain.",
 ["src/algorithm.cpp"],
 [("url_encode, url_decode, xml_encode", "src/algorithm.cpp")],
 "abstract interpretation to symbolic output terms, compared with the coding table",
 "Bounded text lengths; each character is coded independently of what precedes it except inside one escape or sequence.")
prop("C03", "Plug-in libraries are counted, shared and unloaded exactly once",
 "A plug-in library stays loaded exactly as long as some plug-in object refers to it: opening, copying, assigning (including to itself), closing and destroying plug-in objects changes the library's reference count by exactly the change in the object's own references, on success and on every failure; when the last reference to a dynamically loaded library goes, it is closed once, removed from the table and freed, and nothing touches it afterwards; a library that fails to open (missing file, missing create or destroy symbol) leaves no handle open and no entry behind; statically linked plug-ins are never unloaded; and two threads that open or release the same library at once cannot lose or resurrect it.",
 ["schedules", "histories"], "every operation from every combination of the object's state, its argument and the library table; every failure of dlopen and dlsym; every interleaving at lock boundaries",
 "A wrong count only shows after the right sequence of opens, copies and failures, usually as a crash in unloaded code much later; the tests open a few plug-ins and close them.",
 ["src/plugin.cpp", "include/pion/plugin.hpp"],
 [("open, open_file, open_plugin, release_data, grab_data, add_static_entry_point", "src/plugin.cpp"), ("copy construction, assignment, destruction", "include/pion/plugin.hpp")],
 "abstract interpretation of every operation over a heap of library records, a reference-count law checked at each exit",
 "Library map modelled with abstract keys; other threads may change everything not protected by a counted reference whenever the mutex is released.")
prop("C04", "Plug-in objects are destroyed once, by the library that made them",
 "Every plug-in object created or handed to a plug-in manager or plug-in instance pointer is disposed of exactly once: through the destroy function of the library that created it while that library is still loaded, or by delete when it belongs to no library. Removing, replacing, clearing and destroying managers, failed and concurrent loads of the same identifier, and re-creating an instance neither leak an object nor destroy it twice nor drop the library first; look-ups, clones, runs and statistics address exactly the named object (or every object once), and unknown or duplicate identifiers are reported as errors.",
 ["histories", "schedules"], "every operation from managers of up to three objects, each with or without a library; every failing create or open; another thread adding the identifier during load",
 "Whether an object is destroyed by the right library only shows under a mixed history of adds, loads, replaces and failures; the tests never remove or replace.",
 ["include/pion/plugin_manager.hpp", "include/pion/plugin.hpp"],
 [("add, remove, replace, clone, load, clear, get, run, get_statistic", "include/pion/plugin_manager.hpp"), ("plugin_instance_ptr, plugin_ptr::create, plugin_ptr::destroy", "include/pion/plugin.hpp")],
 "abstract interpretation with object and library tokens; ownership law checked at each exit",
 "Containers of up to three entries; plugin_ptr's own counting is C03.")
prop("C39", "A resource is routed to the most specific registered identifier",
 "The HTTP server's and the plug-in manager's look-up return, for every set of registered identifiers and every requested resource, the longest identifier that equals the resource or is a prefix of it followed by a slash, and report no match only when no registered identifier covers the resource.",
 ["inputs", "histories"], "every resource and every set of up to three identifiers not greater than it",
 "Whether neighbours in the table hide a shorter match depends on which other identifiers happen to be registered; the tests register one at a time.",
 ["include/pion/plugin_manager.hpp", "src/http_server.cpp"],
 [("plugin_manager::find", "include/pion/plugin_manager.hpp"), ("server::find_request_handler", "src/http_server.cpp")],
 "abstract interpretation over symbolic identifiers; the decision of every path compared with what it has established",
 "Identifiers greater than the resource cannot cover it and are left out; loops are followed over up to three entries.")
prop("C35", "The thread scheduler starts, works and stops completely",
 "Starting a scheduler that is not running starts exactly the configured number of worker threads, each bound to the scheduler's service (one_to_one: to a service of its own), with every service kept alive while running; starting a running scheduler changes nothing. A worker re-enters its service as long as the scheduler runs and no exception thrown by queued work ends it. Shutdown waits until no active user remains, then stops every service, joins every worker except the calling thread, and only then destroys services and threads; it leaves the scheduler restartable, and join() returns if and only if the scheduler has stopped. Users are counted exactly, the last one to leave releases a pending shutdown, and sleeping wakes at the requested time.",
 ["schedules", "histories"], "every interleaving at points where the mutex is free; pools of up to three threads and services; every outcome of queued work",
 "Missed wake-ups, early worker exits and wrong joins need a particular interleaving of shutdown, users and work that tests do not produce.",
 ["src/scheduler.cpp", "include/pion/scheduler.hpp"],
 [("shutdown, join, keep_running, add_active_user, remove_active_user, process_service_work, startup", "src/scheduler.cpp"), ("stop_threads, stop_services, finish_threads, finish_services, get_io_service", "include/pion/scheduler.hpp")],
 "abstract interpretation with arbitrary interference whenever the mutex is released; laws checked at each exit",
 "Pools of up to three elements; boost primitives trusted.")
prop("C36", "Process shutdown reaches every waiter; daemon set-up is complete",
 "process::shutdown() and the SIGINT and SIGTERM handlers installed by initialize() release every thread waiting in wait_for_shutdown(), which never returns before shutdown was requested and cannot miss a request made earlier or concurrently; SIGPIPE, SIGHUP, SIGCHLD and the terminal stop signals do not end or stop the process. daemonize() leaves a process that already is a daemon alone; otherwise only the forked child continues, in a session of its own, with no inherited descriptor open, standard input, output and error bound to /dev/null and a mode mask of 027; the parent exits with 0 and a failed fork with an error.",
 ["schedules", "faults"], "every interleaving of shutdown and wait; every outcome of fork and open; every signal installed",
 "Neither signals nor daemon set-up are exercised by tests; a lost wake-up needs a particular schedule.",
 ["src/process.cpp", "include/pion/process.hpp"],
 [("shutdown, wait_for_shutdown, initialize, daemonize, handle_signal", "src/process.cpp"), ("get_config", "include/pion/process.hpp")],
 "abstract interpretation with system calls as recorded events and every outcome followed",
 "Linux signal numbers; descriptor tables of 3 and 5 entries. Known finding: the signal handler locks a mutex.")
prop("C37", "Administrative rights are exclusive and the exact identity is restored",
 "An admin_rights object raises the effective user to the administrator only while it holds the process-wide lock, so at most one holder exists; releasing or destroying it returns to exactly the effective user id in force before, whatever its value, and gives the lock back exactly once; after a failed attempt nothing is changed and the lock is free; releasing twice does nothing. run_as_user and run_as_group switch the effective user or group to the id of the named account (a numeric name being the id itself) and report it, report -1 when the switch fails, and change nothing for an unknown name; the id is the third colon-separated field, empty fields counted, of the first line whose first field equals the name.",
 ["inputs", "faults", "histories"], "every outcome of the identity calls; user ids at every width boundary; construct, release, release again, destroy; system files of up to three lines",
 "Truncated ids and locks kept after failures show only for unusual accounts and failing system calls.",
 ["src/admin_rights.cpp", "include/pion/admin_rights.hpp"],
 [("constructor, release, run_as_user, run_as_group, find_system_id", "src/admin_rights.cpp")],
 "abstract interpretation through the object's life with system calls as events",
 "Ids are sampled at width boundaries; numeric texts above 2147483647 are outside the property.")

prop("C15", "Copied, assigned and cleared messages are complete and independent",
 "Copy construction and assignment of an HTTP message, request or response give the copy every property of the source (headers, cookies, query parameters, status, version, flags, content bytes and length) and leave the source unchanged; the copy owns its content, which stays null-terminated and survives assigning an object to itself; clear() leaves nothing of the former message behind, neither in the message nor in request or response members, and every newly constructed message starts in that same state.",
 ["inputs", "histories"], "every data member of every message class from arbitrary previous values; content of any length",
 "A member forgotten in one of a dozen copy or clear lists shows only when a reused message happens to have had it set; the tests copy one or two members.",
 ["include/pion/http/message.hpp", "include/pion/http/request.hpp", "include/pion/http/response.hpp"],
 [("operator=, copy constructor, clear, content_buffer_t", "include/pion/http/message.hpp"), ("clear", "include/pion/http/request.hpp, include/pion/http/response.hpp")],
 "abstract interpretation of constructors, assignment and clear; every member compared at each exit",
 "The list of members comes from the class definition at each run, so a new member is covered.")
prop("C16", "The start line always reflects the message's current members",
 "get_first_line() returns the start line built from the message's current method, resource, query string, version, status code and status text: whenever an operation changes one of them after the line has been built, the old line is discarded; the line itself is 'METHOD resource[?query] HTTP/x.y' for requests and 'HTTP/x.y code text' for responses.",
 ["histories"], "every public operation that can change a member the line depends on, from any previous state with a line already built",
 "The tests build the line once; a stale line needs building, changing and building again through the one setter that forgets.",
 ["include/pion/http/message.hpp", "include/pion/http/request.hpp", "include/pion/http/response.hpp"],
 [("get_first_line, clear_first_line, update_first_line and the setters", "message.hpp, request.hpp, response.hpp")],
 "abstract interpretation: dependency set of the cached line, then a cache-validity law at every exit of every operation",
 "Which operations can change a dependency is computed from the call graph.")

prop("C17", "A message is sent as exactly its line, headers and own content",
 "Sending or writing a message produces its start line, one 'name: value' line for every header, one header per cookie, an empty line and then, unless only headers are wanted, exactly its content: never bytes it does not hold. Connection says Keep-Alive or close as requested; chunked transfer is announced only when chunks are used and the peer supports them, otherwise Content-Length is the content length, unless suppressed; each of these headers is sent once whatever was set before. No buffer handed to the connection refers to a temporary. write() stops at the first stream error, reports it and returns the bytes written. set_content() makes the content exactly the given bytes, and a message is kept alive only for HTTP/1.1 or later without Connection: close.",
 ["inputs", "histories"], "every combination of the flags with headers absent, present, repeated or differently cased and up to two cookies, requests and responses; content lengths below, at and above what the message holds; every stream outcome",
 "Framing mistakes show only for particular flag combinations and header histories, and a dangling buffer only when the write is asynchronous; no test sends a message.",
 ["include/pion/http/message.hpp", "src/http_message.cpp", "include/pion/http/request.hpp", "include/pion/http/response.hpp"],
 [("prepare_headers_for_send, prepare_buffers_for_send, append_headers, check_keep_alive", "include/pion/http/message.hpp"), ("append_cookie_headers, set_content", "include/pion/http/request.hpp, response.hpp"), ("send, write", "src/http_message.cpp")],
 "abstract interpretation to the symbolic byte stream the buffers denote, compared with the form; storage class of every buffer checked",
 "Header names concrete, values symbolic; unordered_multimap trusted.")
prop("C40", "Header, cookie and query names are one case-insensitive key",
 "Names that differ only in letter case are one key: they hash alike and compare equal, and different names never compare equal. get returns the first value of the name or an empty text, has says whether there is one, add keeps existing values and adds one, change leaves exactly the new value, delete leaves none; entries of other names and other dictionaries are never touched, and look-ups change nothing.",
 ["inputs", "histories"], "dictionaries of up to four (thorough: six) entries with repeated and differently cased names; names over every letter and neighbouring symbols",
 "Repeated names in mixed case in particular orders are what the tests do not build, and a hash that disagrees with equality loses headers at random.",
 ["include/pion/http/message.hpp", "include/pion/http/request.hpp", "include/pion/hash_map.hpp"],
 [("get_value, change_value, delete_value and their callers", "include/pion/http/message.hpp, request.hpp"), ("ihash, iequal_to", "include/pion/hash_map.hpp")],
 "abstract interpretation of every operation over bounded dictionaries with symbolic values; hash and equality evaluated to terms over name pairs",
 "ASCII letters; boost::hash_combine uninterpreted.")
prop("C41", "Generated query strings, cookies and dates have their defined form",
 "make_query_string() joins url-encoded name=value pairs with &, in order, for any number of parameters; a Set-Cookie text is name=\"value\"; Version=1 with the path and the life time exactly when given, a deleted cookie expires at once on the given path; dates are the given time in GMT as 'Day, DD Mon YYYY HH:MM:SS GMT', an empty text if it cannot be represented, and the shared time buffer is used only under its lock; a form post carries exactly the query string as content.",
 ["inputs", "schedules", "faults"], "any texts, up to three parameters, every life time at width boundaries, every outcome of the time functions",
 "The failing conversions, extreme life times and concurrent calls are not in the tests.",
 ["src/http_types.cpp", "include/pion/http/response.hpp", "include/pion/http/request.hpp"],
 [("get_date_string, make_query_string, make_set_cookie_header", "src/http_types.cpp"), ("set_cookie, delete_cookie, set_last_modified", "include/pion/http/response.hpp"), ("use_query_params_for_*", "include/pion/http/request.hpp")],
 "abstract interpretation to symbolic texts compared with the defined form; outcomes of gmtime and strftime followed",
 "gmtime, strftime and url_encode trusted here (url_encode is C21).")

prop("C11", "A reset parser behaves exactly like a new one",
 "After reset() an HTTP parser, wherever the former message stopped, parses the next message as a newly constructed parser of the same kind would: nothing of the former message (partial texts, sizes, counters, states) can influence it or be seen through the parser's queries, while what the user configured (request or response, limits, handlers, headers-only, raw headers, read buffer) is kept.",
 ["histories"], "every control state of the header, footer, chunk and content machines for requests and responses; every data member",
 "A leftover only matters when the former message was abandoned in one particular state; tests reset, if at all, after complete messages.",
 ["include/pion/http/parser.hpp", "src/http_parser.cpp"],
 [("reset, constructor, queries", "include/pion/http/parser.hpp"), ("parse_headers, parse_chunks, finish_header_parsing, consume_content", "src/http_parser.cpp")],
 "abstract interpretation per control state to use-before-write sets, backward liveness over the state graph, reset() compared with the constructor",
 "Members are taken from the class definition at each run.")

prop("C30", "Passwords match only by their whole digest; accounts follow the table laws",
 "A user set_password() was called for accepts exactly the passwords whose SHA-256 digest equals the stored one in every byte, and shows that digest in lower case hexadecimal; after set_password_hash() with 64 or 40 hexadecimal digits it accepts exactly the passwords whose SHA-256 or SHA-1 digest they spell, and any other length is refused without changing the account; an account without a password accepts none. user_manager adds only unknown names, updates, removes and finds only the named account, and returns an account for a name and password only if that account matched that password.",
 ["inputs", "histories"], "every byte value and every single differing digest byte, every length class, up to two accounts, every outcome of look-up and match",
 "A digest compared over too few bytes, or a wrong account returned, shows for one password in billions; no test covers users at all.",
 ["include/pion/user.hpp"],
 [("user::set_password, set_password_hash, match_password; user_manager", "include/pion/user.hpp")],
 "constant propagation with an opaque digest function; abstract interpretation of the account table against its law",
 "OpenSSL digests trusted; digests given are assumed hexadecimal.")

prop("C31", "Nobody passes authentication without a confirmed password or session",
 "A request needs authentication exactly when users exist, its resource (without trailing slash) is covered by a restricted entry and by no permitted entry; an entry covers a resource that equals it or continues it with '/'. Where needed, basic_auth lets the request through exactly when the presented credentials are a remembered confirmed session or name a user whose password matches, cookie_auth exactly when the presented cookie is an open session (or the page is the configured login page); the request is attributed to that user, a refusal is answered exactly once, sessions are remembered only when confirmed and are dropped only when they have expired. A login opens a session under a random token of at least 16 bytes only for a matching password, a logout ends exactly the presented session, and no line break from the request gets into the Location header. Credentials parse as 'Basic ' base64(name:password).",
 ["inputs", "histories"], "lists of up to three entries, caches of up to two sessions, every outcome of the collaborators, expiry times left open",
 "The decisive cases are unusual inputs (prefixes, empty entries, expired sessions); the authentication code has no stable test here.",
 ["src/http_auth.cpp", "src/http_basic_auth.cpp", "src/http_cookie_auth.cpp", "include/pion/http/server.hpp"],
 [("find_resource, need_authentication", "src/http_auth.cpp"), ("handle_request, parse_*", "src/http_basic_auth.cpp"), ("handle_request, process_login, expire_cache", "src/http_cookie_auth.cpp"), ("strip_trailing_slash", "include/pion/http/server.hpp")],
 "abstract interpretation of each decision over opaque requests and collaborators, compared with the decision law on every path",
 "A remembered session outlives an update or removal of its user until it expires: outside the statement. Clock arithmetic and the random generator are trusted.")

prop("C32", "Each request gets exactly one disposition, and none before authentication",
 "http::server::handle_request: a broken request marks the connection for closing and is either answered by the bad-request handler (refused by the parser, connection open) or finished, exactly once, and nothing else happens; any other request is redirected as registered (a loop of redirections ends in a server error), put before the authenticator if there is one, dropped if refused, and otherwise answered by exactly one handler: the one found for the resource redirections produced, or the not-found handler; a handler that throws anything but bad_alloc is followed by exactly one server-error answer and the exception does not escape; every handler gets this request and connection and is called with no lock held.",
 ["inputs", "faults"], "every outcome of authenticator, look-up and handler, up to two registered redirections",
 "Each fault outcome is a separate path that the tests do not drive; the server is not part of the stable tests.",
 ["src/http_server.cpp"],
 [("server::handle_request", "src/http_server.cpp")],
 "typestate over the event sequences of every path of the abstractly interpreted dispatcher",
 "Handlers are opaque. Exceptions that derive from neither std::exception nor boost::exception are outside the statement.")

prop("C33", "Text from a request or an exception enters an HTML page only XML-encoded",
 "Wherever the library or one of its web services writes to a response that is not plain text, the text consists of constants, numbers and results of the XML encoder: no part of a request, a stored cookie or an exception message reaches a page unencoded.",
 ["inputs"], "every place in /repo/src, include and services where text is given to a response writer",
 "Only hostile inputs show a missing encoder; the services have no tests.",
 ["src/http_server.cpp", "services/CookieService.cpp", "services/FileService.cpp", "services/AllowNothingService.cpp", "services/EchoService.cpp", "services/HelloService.cpp", "services/LogService.cpp", "src/http_basic_auth.cpp", "src/http_cookie_auth.cpp"],
 [("handle_forbidden_request, handle_not_found_request, handle_server_error", "src/http_server.cpp"), ("operator()", "services/CookieService.cpp"), ("operator()", "services/FileService.cpp")],
 "flow-sensitive taint analysis: abstract interpretation of every function that makes a response writer, checking each text where it is written",
 "xml_encode itself is C21; file contents sent by FileService are not pages the server makes.")

prop("C34", "Built-in refusals and redirections are complete, correct and sent once",
 "Each built-in answer (400, 401, 302, 204, 403, 404, 405, 500) creates one response on the request's own connection that finishes that connection once sent, carries the status code and message it stands for, and is sent exactly once as the last step; a 401 of basic_auth asks for the realm, a 405 names the allowed methods, a 302 names the address, login answers hand out the new session cookie or delete it, and cookie_auth redirects a refused request exactly when a page is configured.",
 ["inputs"], "every path of the nine functions",
 "Status lines are easy to get wrong in code no stable test reaches, and a lost send leaves a connection hanging.",
 ["src/http_server.cpp", "src/http_basic_auth.cpp", "src/http_cookie_auth.cpp"],
 [("handle_bad_request, handle_not_found_request, handle_server_error, handle_forbidden_request, handle_method_not_allowed", "src/http_server.cpp"), ("handle_unauthorized", "src/http_basic_auth.cpp"), ("handle_unauthorized, handle_redirection, handle_ok", "src/http_cookie_auth.cpp")],
 "abstract interpretation with a recording response writer; the event sequence of every path is compared with the answer's definition",
 "response_writer is C17.")

prop("C25", "A message is reported once, and the bytes after it go to the next reader",
 "http::reader: a message starts with the bytes the previous reader left in the connection if it is pipelined, and with one read otherwise, and the connection is marked for closing until the message is complete. Each step parses the message once; an incomplete one is continued by exactly one read, a refused one is marked invalid and reported once with the parser's error and the connection set to close; a complete one is reported once, as the last step, after the connection was set to close (no keep-alive), keep-alive (nothing left) or pipelined (bytes left, which are saved exactly). A read's timer is cancelled and released before its result is used, exactly the bytes read are parsed, an error or end of data is reported exactly once, without error exactly when the message ends with the connection; a read with a time limit is guarded by a started timer of that connection. request_reader and response_reader hand their message, connection and result to the handler exactly once.",
 ["inputs", "histories"], "every outcome of the parser, of a read, of a timer and every state of the connection",
 "Which bytes of a pipelined stream arrive together is up to the network; no stable test reads from a connection.",
 ["src/http_reader.cpp", "include/pion/http/reader.hpp", "include/pion/http/request_reader.hpp", "include/pion/http/response_reader.hpp", "include/pion/tcp/connection.hpp", "include/pion/http/parser.hpp"],
 [("reader::receive, consume_bytes, handle_read_error, read_bytes_with_timeout", "src/http_reader.cpp"), ("finished_reading, read_bytes", "include/pion/http/request_reader.hpp"), ("finished_reading, read_bytes", "include/pion/http/response_reader.hpp"), ("save_read_pos, load_read_pos, set_lifecycle", "include/pion/tcp/connection.hpp"), ("set_read_buffer, eof", "include/pion/http/parser.hpp")],
 "abstract interpretation of each step over symbolic buffers and every outcome of its collaborators; lifecycle and read position are compared in the connection itself at the moment of the report",
 "The parser itself is C08-C10, C12, C13; keep-alive is C17; assumes asio calls each completion handler once.")

prop("C26", "A writer sends headers once, all its content in order, and chunks well framed",
 "http::writer: each piece written (text, copied bytes, referenced bytes) is added after everything written before, text still in the stream included; the content length is the sum of the pieces, copied bytes are owned until clear() or the end, which release each copy once, and clear() leaves nothing to be sent again. send(), send_chunk() and send_final_chunk() on an open connection write exactly once: the message's headers if and only if they have not been sent, then the content; in chunks, the length in hexadecimal, CRLF, the content, CRLF if there is content, and a final 0 CRLF CRLF only with send_final_chunk(); Transfer-Encoding is announced exactly when chunks are sent, the length announced otherwise is that of the content, and a peer that does not understand chunks gets the plain content and then the end of the connection. Every buffer refers to memory that lives until the write ends. On a closed connection nothing is written and the message is finished once with an error; the end of a write is reported once with its result. A writer made for a message starts with exactly the content that message holds, whatever its bytes.",
 ["inputs", "histories"], "writers with every combination of buffered pieces (arbitrary content and length), pending text, headers sent or not, chunking, peer support and open or closed connection",
 "Broken framing shows only for certain sequences of writes and sends; no stable test sends over a connection.",
 ["src/http_writer.cpp", "include/pion/http/writer.hpp", "include/pion/http/response_writer.hpp", "include/pion/http/request_writer.hpp"],
 [("prepare_write_buffers", "src/http_writer.cpp"), ("write, write_no_copy, clear, send, send_chunk, send_final_chunk, send_more_data, flush_content_stream, binary_cache_t", "include/pion/http/writer.hpp"), ("constructors, prepare_buffers_for_send, handle_write", "include/pion/http/response_writer.hpp"), ("constructors, prepare_buffers_for_send, handle_write", "include/pion/http/request_writer.hpp")],
 "abstract interpretation of each operation over symbolic pieces; the list of buffers given to the connection is compared with the specified sequence, and each buffer with who owns its memory",
 "Up to two buffered pieces; longer lists only grow at the end by the same operations. The headers themselves are C17. Memory passed to write_no_copy must stay valid, as documented.")

prop("C27", "A server accepts on, serves or forgets each connection, and stops completely",
 "tcp::server: a running server waits for exactly one new connection at any time, keeps it in its pool and gives it a handler that brings it back; each accepted connection is handed on exactly once - served, put through the handshake if it is encrypted, or finished when accepting or the handshake failed - and accepting continues exactly while the server runs. A finished connection is served again if it is kept alive and the server runs, otherwise it and only it leaves the pool, and the last one of a stopped server wakes stop(). start() opens, binds and listens in that order and counts as running only if that succeeded; stop() closes the acceptor, closes every connection when told not to wait, returns only when the pool is empty, deregisters from the scheduler once and wakes join(). Orphans are dropped exactly when nothing refers to them. A timer cuts off its connection exactly when it ends without having been cancelled.",
 ["schedules", "histories"], "every pool of up to 3 connections, state of the server, outcome of accept and handshake, exception of the acceptor",
 "Accept errors, handshake failures and connections that end during stop() cannot be provoked reliably; no stable test starts a server.",
 ["src/tcp_server.cpp", "src/tcp_timer.cpp", "include/pion/tcp/server.hpp", "include/pion/tcp/timer.hpp", "include/pion/tcp/connection.hpp"],
 [("start, stop, join, listen, handle_accept, handle_ssl_handshake, finish_connection, prune_connections", "src/tcp_server.cpp"), ("start, cancel, timer_callback", "src/tcp_timer.cpp"), ("get_keep_alive", "include/pion/tcp/connection.hpp")],
 "abstract interpretation of each member over small pools with every outcome of its collaborators; events and the pool are compared with the life cycle's definition",
 "Data races on the same members are C01, lock order C02.")

prop("C28", "The file service touches only files within its directory, as the method allows",
 "FileService: whatever path a request names, no file or directory outside of the configured directory is looked at, read, served, created, changed or removed - not a parent, not a sibling whose name begins with the directory's name, not something above a relative directory - and without a directory only the configured file is; such a request is refused. Every path given to the file system is the requested one after normalisation (or its parent, to see whether it exists), and the cache leads from a relative path only to the file found for it. GET and HEAD never change the file system and HEAD never sends content; POST, PUT and DELETE are refused without touching anything unless the service is writable; POST appends to and PUT replaces exactly the requested file with exactly the request's content, DELETE removes exactly it, never a directory, a file within the directory is not refused as outside, and every request is answered exactly once with the matching status.",
 ["inputs"], "directories and requested paths of every relation to one another after normalisation, each method, writable or not, every cache and scan setting, every outcome of the file system",
 "A traversal needs a particular relation between the directory's name and the request; the file service is not built by any stable test.",
 ["services/FileService.cpp", "services/FileService.hpp"],
 [("operator(), addCacheEntry", "services/FileService.cpp")],
 "abstract interpretation of the request handler over a table of directory/path relations with every outcome of the file system; each path handed to the file system is compared with the one that was checked",
 "Normalisation is by the text, as boost::filesystem does it; symbolic links inside the directory are the administrator's. The bytes sent are C29.")

prop("C29", "A file is sent whole and in order, or its connection is closed",
 "DiskFileSender sends, for any file size and piece limit, pieces that follow one another without gap or overlap, none longer than the limit, each from the cached content or from a buffer that holds exactly the bytes read from that position of the file; each piece is written once - a file in one piece as one response, more of them as chunks with a last chunk - and the next one only when the write of the last has succeeded, with the sender kept alive until then. The connection is finished exactly once: after the last piece, or, marked to be closed, when a write, opening or reading fails; an empty file is answered by one empty response. DiskFile: content, if there is any, is all of the file's bytes in a buffer of its size - nothing of a failed read stays to be sent later - and a file whose size or time has changed is read again before it is used, with size, time and its text updated together.",
 ["inputs", "histories"], "first and later pieces, cached or streamed, any size, position and limit, any outcome of opening, reading, examining and writing",
 "Needs files that change or fail while they are sent, and limits that do not divide their size; no stable test builds the file service.",
 ["services/FileService.cpp", "services/FileService.hpp"],
 [("DiskFileSender::send, handle_write, DiskFile::read, update, checkUpdated", "services/FileService.cpp")],
 "abstract interpretation of each step with symbolic size, position and limit; pieces are compared with the part of the file that is due, DiskFile with its invariant",
 "How pieces are framed is C26. A file that changes between two pieces without failing cannot be noticed from the source.")

prop("C38", "A URI is split into exactly its protocol, host, port, path and query",
 "parse_uri takes as the protocol what precedes the first ://, nothing if there is none; as the host what follows up to the next : or /; as the port the number after that :, or else the protocol's own - 80 for http, 443 for https, 0 otherwise; as the path what starts at the first / after the host, up to the first ? - / if there is no path - and as the query what follows that ?. Every output is set from this URI, nothing of a former one stays. It refuses exactly the URIs without a host and those whose port is not a number from 0 to 65535, and never throws.",
 ["inputs"], "every combination of parts present, with arbitrary texts for each of them",
 "The tests that parse URIs use a handful of them, each into fresh variables, and none of the stable ones does.",
 ["src/http_parser.cpp", "include/pion/http/parser.hpp"],
 [("parse_uri", "src/http_parser.cpp")],
 "abstract interpretation with URIs made of literal delimiters and arbitrary texts that lack the delimiter ending them; every output is compared with the part it is named after",
 "boost::lexical_cast<int> is trusted to accept exactly decimal numbers that fit an int. A URI with a query but no path is outside: the code takes the ? for a part of the host.")
