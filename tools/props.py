#!/usr/bin/env python3
"""Source of properties.jsonl.  `python3 tools/props.py` rewrites the file."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

VM = ["src/x/vmem_container.x.h", "src/x/vmem_iterator.x.h", "src/x/vmem_linked.x.h", "src/x/vmem_list.x.h"]

p("V01", "A persistent list or container is exactly the sequence of its operations",
  "After any history of inserts, erases, push/pop at either end and clear on a persistent list, stack or balanced container, iterating forwards and backwards yields exactly the items a plain in-memory sequence would hold, size and emptiness agree, and front and back are the first and last item. Every insert or erase returns an iterator to the inserted item, or to the item that followed the erased one. This holds whatever the item size, hence however few items fit one page and however pages split, merge or borrow.",
  ["histories", "inputs"], "all operation histories up to a depth over a page layout of 1..5 items per page and every balancing policy, plus long structured histories that build and drain many pages",
  "The tests run a handful of fixed append/insert/erase scripts with one or two item sizes; the page splits, merges and borrows depend on the whole history and on the position of each operation relative to page boundaries.",
  VM, [("insert/erase with page split, merge and rebalance", "src/x/vmem_container.x.h"), ("bidirectional item iterators that cross pages", "src/x/vmem_iterator.x.h")],
  ["begin/end/rbegin/rend iteration", "size", "empty", "front/back", "iterators returned by insert and erase"],
  [("container state", "first page, last page and item count stored in the user's page", "src/i/vmem_layout.i.h")])

p("V02", "A persistent map is a sorted dictionary with unique keys",
  "After any history of inserts, erases by key, lookups and clear, a persistent map iterates in strictly increasing key order over exactly the key/value pairs a standard ordered map would hold, and size agrees. Lookup finds every stored key and reports absence for every other key, inserting an existing key changes nothing and says so, and erasing a missing key changes nothing and says so. This holds however many index levels the map has grown or shrunk to.",
  ["histories", "inputs"], "all insert/erase/lookup histories up to a depth over a small key universe with 2..4 keys per index page, plus long ascending, descending and interleaved fill/drain histories with several index levels",
  "The tests insert a few fixed key sequences and erase a few of them; whether a key stays reachable depends on the order in which index pages were split, merged and re-keyed.",
  ["src/x/vmem_map.x.h", "src/i/vmem_map.i.h", "src/x/vmem_container.x.h"],
  [("multi-level key index kept in step with value pages", "src/x/vmem_map.x.h"), ("ordered position search", "src/x/vmem_map.x.h")],
  ["find/contains/operator[] results", "iteration order", "insert result flag", "erase result", "size"],
  [("map state", "value container and stack of key levels", "src/i/vmem_layout.i.h")])

p("V03", "A linked list of pages keeps every page, in order, across moves between lists",
  "After any history of push, pop, insert, erase, splice and clear over two page lists of one pool, each list contains exactly the pages a plain sequence would, in order, readable forwards and backwards, and the bytes stored on each page are untouched. Splicing moves all pages of the source and leaves it empty. Clearing or erasing makes the removed pages available for reuse.",
  ["histories"], "all operation histories up to a depth over two lists sharing one pool, starting with and without previously released pages",
  "The tests use one or two short scripts; emptiness of the source, the target or the pool's own list of released pages decides which code runs, and only combinations expose an unclosed chain.",
  ["src/x/vmem_linked.x.h", "src/i/vmem_linked.i.h"],
  [("front/back page positions in the list state", "src/i/vmem_layout.i.h"), ("relinking of neighbours on insert, erase and splice", "src/x/vmem_linked.x.h")],
  ["iteration in both directions", "front/back", "empty", "page bytes"])

p("V04", "Every page has exactly one owner and released pages are reused",
  "At every point of any history over one pool, no page is in use by two containers or both in use and available, and the root page and start page are never handed out. Every page released by erase, pop, clear or an explicit free is handed out again before the pool file grows. Hence repeating a fill/drain cycle never makes the file larger than its high-water mark.",
  ["histories"], "all histories of allocate, free and container operations up to a depth, each followed by a full drain and refill that counts the distinct pages obtainable without growing the file",
  "The tests check single allocate/free scripts; leaks and double ownership appear only after particular sequences of release and reuse.",
  ["src/x/vmem_pool.x.h", "src/x/vmem_linked.x.h", "src/x/vmem_container.x.h", "src/x/vmem_map.x.h"],
  [("list of released pages in the root page", "src/x/vmem_pool.x.h"), ("page release on erase/clear", "src/x/vmem_linked.x.h")],
  ["page positions handed out", "size of the pool file", "contents of other containers after reuse"])

p("V05", "Data survives closing, killing and reopening the pool",
  "Whenever the process ends between two operations, by an orderly close or by sudden death, reopening the pool file yields every container exactly as it was after the last completed operation, and the reopened containers keep working. The memory limit chosen for the pool, before or after reopening, has no influence on the contents, for every limit the pool accepts.",
  ["crash_points", "histories", "configurations"], "every operation boundary of every history up to a depth, with orderly close or abandoned pool, reopened under different memory limits",
  "The tests reopen a pool once after a fixed script; they do not cut the history at every point nor vary the mapping limit.",
  ["src/x/vmem_pool.x.h", "src/x/vmem_container.x.h", "src/x/vmem_map.x.h", "src/i/vmem_layout.i.h"],
  [("shared file mapping of every page", "src/x/vmem_pool.x.h"), ("container states stored inside pages", "src/i/vmem_layout.i.h")],
  ["contents of all containers after reopen", "result of further operations after reopen"])

p("V06", "A page in use stays mapped, unique and within the pool's memory limit",
  "While any page handle or pointer to a page is alive, the address it was given stays valid and shows the bytes last written to that page, and all handles to the same page see the same memory. The number of pages mapped at once never exceeds the pool's limit; asking for one more page while all are in use yields a null page and disturbs nothing. Bytes written through any handle are the bytes seen when the page is mapped again later.",
  ["histories", "configurations"], "all histories of acquire, copy, move, write and release of handles over more pages than the limit, for several limits",
  "The tests use large limits and orderly scopes; eviction choices depend on the order of acquisitions and releases relative to the limit.",
  ["src/x/vmem_pool.x.h", "src/i/vmem_pool.i.h"],
  [("mapped-page table with lock and keep counts", "src/x/vmem_pool.x.h"), ("reference-counted handles", "src/x/vmem_pool.x.h")],
  ["page addresses", "page bytes", "exceptions", "count of live mappings seen at the mapping calls"])

p("V07", "Opening accepts exactly the valid pool files and leaves others alone",
  "Opening a path creates a fresh pool when the file does not exist and reopens it when it is a valid pool file. A file whose identification (version, page size or signature) differs in any byte is rejected with an exception, and is neither modified nor made larger by the attempt. A rejected open leaves no file descriptor or mapping behind.",
  ["inputs", "configurations"], "every single-byte corruption of the identification part of the root page with several replacement values, every truncated length around the page boundaries, in each open mode",
  "The tests open only files the library itself produced.",
  ["src/x/vmem_pool.x.h", "src/i/vmem_layout.i.h"],
  [("root page verification", "src/x/vmem_pool.x.h")],
  ["exception or success", "file bytes before and after", "open descriptors and mappings"])

p("V08", "A failing system call is reported and never corrupts or leaks",
  "If any single call to the operating system for opening, growing, mapping, syncing or unmapping a pool fails, the running operation either completes or reports the failure by an exception or an empty result (null page, end iterator; a push without a result may leave the contents unchanged); it never crashes and never continues with an invalid mapping. The contents are afterwards those before or after the operation, also when the pool is opened again. After the pool object is gone no file descriptor and no mapping is left behind.",
  ["fault_sequences", "histories"], "every operating-system call of each scripted history made to fail once (and, for growth, to stop short), one execution per call",
  "No test injects a failure; the error paths are never executed.",
  ["src/x/vmem_pool.x.h"],
  [("error checks after each system call", "src/x/vmem_pool.x.h"), ("scope-bound release in destructors", "src/x/vmem_pool.x.h")],
  ["exceptions", "contents after reopen", "descriptor and mapping balance at the intercepted calls"])

p("V09", "Text and bytes written through a persistent string stream come back unchanged",
  "Whatever bytes are written to a persistent string, by appending or through a stream on it, reading it through a stream or iterators yields exactly those bytes in order and then the end, including byte values 0 and 255 and lengths that cross page boundaries. With writing and reading interleaved through one stream no byte is lost, repeated or invented: the end is reported only when all flushed bytes were read, and bytes appended later become readable. Moving the stream keeps its position.",
  ["inputs", "histories"], "all byte values, all short interleavings of put, read and peek, and lengths around every page boundary",
  "The tests write and read one short ASCII text.",
  ["src/x/vmem_string.x.h", "src/i/vmem_string.i.h"],
  [("stream buffer over a persistent character list", "src/x/vmem_string.x.h")],
  ["bytes read back", "end-of-stream reporting", "size"])

p("V10", "Balanced containers keep pages at least a quarter full on average",
  "After any history of inserts and erases on a container that balances on both, any two neighbouring pages together hold more than half a page of items, so pages are on average more than a quarter full and draining a large container at scattered positions releases its pages. A list that is only appended to fills its pages completely. The same holds for the pages of maps.",
  ["histories"], "all histories up to a depth for 2..6 items per page, plus long scattered drain patterns",
  "No test looks at the number of pages a container occupies.",
  ["src/x/vmem_container.x.h", "src/i/vmem_container.i.h"],
  [("balancing on insert and erase", "src/x/vmem_container.x.h")],
  ["pages newly taken from the pool relative to items stored"])

p("J01", "Reading JSON yields exactly the tokens of the document",
  "For every well-formed JSON document the reader delivers the token sequence the JSON grammar prescribes, with string escapes (\\u up to 00FF) decoded, numbers of up to 25 characters at their exact value and property names told apart from string values, and then reports the end through the stream state. A document with a broken structure is reported as an error no later than at the offending token. Tolerated are trailing commas, plus signs and leading zeros of numbers, raw control characters in strings, and several top-level values. Whitespace between tokens never changes the outcome.",
  ["inputs"], "all documents up to a length over a token-level alphabet and all character strings up to a length over a small alphabet, compared with an independent reference parser",
  "The tests parse a few dozen fixed documents.",
  ["src/json.h", "src/i/json.i.h"],
  [("token state machine with nesting stack", "src/json.h")],
  ["token kinds and values", "error state", "end of input"])

p("J02", "The JSON reader is memory-safe and terminates on any input",
  "For any byte sequence, ended at any point, and any size of the caller's token buffer, reading JSON terminates, never writes outside the caller's buffer, and leaves every delivered string terminated within it. A string or property that does not fit the buffer, or nesting deeper than the reader supports, is reported as an error.",
  ["inputs"], "all byte strings up to a length over an alphabet of JSON-significant bytes, every truncation of a set of documents, and every buffer size from the minimum to beyond the longest token",
  "The tests use generous buffers and well-formed input.",
  ["src/json.h"], [("size checks while collecting characters", "src/json.h")],
  ["bytes around the caller's buffer", "termination", "error state"])

p("J03", "JSON that is written reads back as the same values",
  "Any sequence of writer calls that forms a document produces well-formed JSON which the reader turns back into the same tokens: same structure, same property names, same strings for every character content, and exactly the same numbers. Commas and colons are inserted exactly where the grammar needs them. Writer calls that cannot lead to a well-formed document, and numbers that are not finite, are reported through the stream state, emit nothing, and the stream stays failed.",
  ["inputs", "programs"], "all writer call sequences up to a length, all one- and two-character strings, and a grid of numbers over all magnitudes",
  "The tests compare the output of a few fixed call sequences.",
  ["src/json.h"], [("separator insertion driven by the nesting state", "src/json.h")],
  ["emitted text", "tokens read back", "exceptions"])

p("J04", "Skipping a JSON value consumes exactly that value",
  "Skipping a value at any point where a value may start leaves the reader exactly where it would be after reading all tokens of that value one by one, whatever the value's kind and nesting. The tokens that follow are unaffected.",
  ["inputs"], "every value position of every document in the enumerated set",
  "The tests skip a handful of values.",
  ["src/json.h"], [("recursive skip", "src/json.h")], ["tokens delivered after the skip", "error state"])

p("H01", "Reading a valid HTTP message yields exactly its parts",
  "For every well-formed request or response in ASCII the reader delivers method, path, query parameters, protocol, status, reason, each header name and value, and the body byte for byte, each complete and terminated. Whitespace around header values is dropped, and folded lines and whitespace within them are delivered as one space; nothing leaks into neighbouring parts. The end of headers is reported exactly once, where the blank line is; a body shorter than requested ends the stream. Moving the stream keeps everything.",
  ["inputs"], "all messages assembled from a grammar with small part alphabets and every whitespace variant, compared with the parts they were assembled from",
  "The tests parse a dozen fixed messages.",
  ["src/http.h", "src/i/http.i.h"], [("part-by-part readers with an expected-next-part state", "src/http.h")],
  ["strings delivered", "counts of characters read", "stream state"])

p("H02", "The HTTP reader is memory-safe and terminates on any input",
  "For any byte sequence ended at any point and any size of the caller's buffer, every HTTP read call terminates, never writes outside the caller's buffer and leaves a terminated string in it. A part that does not fit, or input that violates the syntax (apart from surplus or missing separator whitespace), is reported through the stream state at that call, or at the next when the part itself was complete.",
  ["inputs"], "all byte strings up to a length over an alphabet of HTTP-significant bytes, every truncation of real messages, every small buffer size",
  "The tests use generous buffers and valid messages.",
  ["src/http.h"], [("size checks while collecting characters", "src/http.h")],
  ["bytes around the caller's buffer", "termination", "stream state"])

p("H03", "An HTTP message that is written reads back as the same parts",
  "Any message written part by part with valid parts is accepted by the reader and yields the same parts, for requests and responses, with any number of headers and any body including binary bytes; only whitespace before a reason phrase is dropped. Parts are separated exactly as the protocol requires. Invalid parts, including an empty method, resource, status or name and an incomplete protocol, and output that does not fit, are reported through the stream state; an invalid part never ends a line.",
  ["inputs", "programs"], "all combinations of parts from small alphabets, zero to three headers, bodies with every byte value",
  "The tests compare the output of a few fixed messages.",
  ["src/http.h"], [("part-by-part writers", "src/http.h")], ["emitted bytes", "parts read back"])

p("H04", "HTTP parts can only be read or written in protocol order",
  "On each HTTP stream, a call for a part that is not next in the protocol is rejected with an exception, consumes and emits nothing, and leaves the stream usable for the right call. Every call sequence in protocol order is accepted. Reset returns to the first part.",
  ["programs"], "all call sequences up to a length on each of the four stream kinds, against a reference state machine",
  "The tests only make calls in the right order.",
  ["src/http.h"], [("expected-next-part check", "src/http.h")], ["exceptions", "bytes emitted or consumed"])

p("H05", "Splitting a resource yields its path and query parameters exactly",
  "For any resource string, in a buffer as the reader leaves it, splitting it yields the path before the first question mark and, for any parameter name, the value given by the first parameter of that name, or none if absent. Splitting terminates, stays within the buffer, and works for empty, missing, repeated and trailing separators; empty parameters are skipped.",
  ["inputs"], "all strings up to a length over the separators and two letters, for each parameter name",
  "The tests split four fixed resources.",
  ["src/http.h", "src/i/http.i.h"], [("in-place splitting", "src/http.h")], ["path and parameter strings", "bytes around the caller's buffer"])

p("E01", "A file request is answered with exactly that file",
  "A GET request for an existing file below the configured directory is answered with status 200, the file's exact bytes, their exact count as the announced length and the content type of the file's extension, for every file size. A request for anything that is not a readable regular file is answered with 404, a method other than GET with 405, and the announced length always equals the body sent, even when the file grows meanwhile. When the file is cut while it is sent, nothing but its bytes is sent, and the connection ends.",
  ["inputs", "configurations"], "every file size around the transfer chunk boundaries, every known and unknown extension, every kind of missing or non-regular target",
  "No stable test drives the endpoint at all.",
  ["src/endpoint.h", "src/i/endpoint.i.h"], [("file request processing with chunked copy", "src/endpoint.h"), ("content type table", "src/endpoint.h")],
  ["bytes sent on the connection"])

p("E02", "Concurrent requests are each answered once, completely and separately",
  "However the handling of several simultaneous connections is interleaved, every accepted connection is closed exactly once and receives exactly one complete response to its own request (a connection handled after a shutdown request may be closed without any), and no byte of one response appears on another connection. Handling is free of data races on the server's shared state.",
  ["schedules"], "all thread interleavings of two or three requests up to a preemption bound on the real server code",
  "Tests run one schedule, and none drives the endpoint.",
  ["src/endpoint.h", "src/socket.h"], [("one thread per accepted connection", "src/endpoint.h"), ("per-request count and shutdown flag", "src/endpoint.h")],
  ["bytes on each connection", "close calls", "unsynchronised access pairs"])

p("E03", "Shutdown completes exactly once and only after running requests finished",
  "Once shutdown has been requested, the caller's completion signal is raised exactly once, after the last running request has finished, whatever the interleaving of requests, shutdown requests (by clients or by the owner) and the caller. The signal is never raised earlier, never raised twice, and never lost; no schedule terminates the process, and no response is sent after the signal.",
  ["schedules"], "all thread interleavings of up to three requests and shutdown requests up to a preemption bound",
  "No stable test starts or stops an endpoint.",
  ["src/endpoint.h"], [("in-progress counter and promise", "src/endpoint.h")],
  ["completion signal", "order of request completion and signal", "process termination"])

p("E04", "File requests never reach outside the configured directory",
  "Whatever the request path, the server serves only files inside the configured root directory: no combination of dots, slashes and repeated separators makes it deliver or reveal a file above it.",
  ["inputs"], "all request paths up to a number of segments over normal names, dot, dot-dot and empty segments, recording every path the server tries to open",
  "No test sends such a path.",
  ["src/endpoint.h"], [("construction of the file path from the configured root and the request path", "src/endpoint.h")],
  ["paths opened"])

p("E05", "A broken or malicious client cannot take the server down",
  "Whatever bytes a client sends, and at whatever byte it disconnects while sending or receiving, handling that connection terminates, the server process survives, the connection is closed, and later connections are served normally. A request line that is cut off or too long is never handled as another request. A failure to accept a connection, or an exception thrown by a request handler, does not end the server either, and an endpoint that cannot start reports that through its completion signal.",
  ["inputs", "fault_sequences"], "disconnect after every byte of the request and after every byte of the response, all short garbage requests over a small alphabet, failure of each accept",
  "No test covers a disconnect or malformed request on the server.",
  ["src/endpoint.h", "src/socket.h", "src/http.h"], [("exception containment around request processing", "src/endpoint.h"), ("stream error state on socket end", "src/socket.h")],
  ["process survival", "termination of the handler", "response to the next connection"])

p("N01", "A socket stream delivers exactly the bytes sent, then the end",
  "However the operating system splits transfers into pieces, reading a socket stream yields exactly the bytes the peer sent, of any value, and then the end of the stream, which it keeps reporting. Every byte written and flushed is sent once and in order; a send that fails or is cut short is reported as a stream error rather than lost silently, and never ends the process. Moving the stream keeps its pending bytes.",
  ["inputs", "fault_sequences"], "all splits of short byte sequences into receives and sends, the end or an error after every byte, all byte values",
  "The tests exchange short ASCII texts over loopback.",
  ["src/socket.h", "src/i/socket.i.h"], [("stream buffer over a client socket", "src/socket.h")],
  ["bytes read", "bytes sent", "stream state"])

p("N02", "Every socket descriptor is closed exactly once",
  "For every history of creating, opening, binding, connecting, accepting, moving and closing sockets, and whichever system call fails, each descriptor obtained is closed exactly once, by close or destruction of its current owner, and never used after it was closed. Binding or connecting to a host with several addresses succeeds when one of them works. Failed operations raise an exception and the socket can then be closed and used again; moved-from sockets own nothing.",
  ["histories", "fault_sequences"], "all operation histories up to a depth per socket kind, each with every intercepted call failing once",
  "The tests run fixed success scenarios.",
  ["src/socket.h", "src/i/socket.i.h"], [("descriptor ownership in socket classes", "src/socket.h")],
  ["open/close balance at the intercepted calls"])

p("N03", "TLS sockets release their TLS state exactly once and move data exactly",
  "For every history of creating, connecting, accepting, moving, closing and destroying TLS sockets, and whichever step fails, every TLS context and session is released exactly once and none is used after release; TLS never touches a descriptor that was closed. Data exchanged over a TLS connection arrives byte for byte, and the certificate, key and password reach the TLS library exactly as given.",
  ["histories", "fault_sequences"], "all short histories with every TLS and socket call failing once",
  "The tests run fixed success scenarios.",
  ["src/openssl_socket.h", "src/i/openssl_socket.i.h"], [("ownership of contexts and sessions", "src/openssl_socket.h")],
  ["create/free balance of TLS objects", "bytes exchanged"])

p("N04", "A datagram arrives whole, with the address of its sender",
  "For every datagram size, receive buffer size and address family, one receive delivers exactly one datagram, cut only where the caller's buffer ends, together with the complete address it was sent from. Sending to an address obtained this way reaches that sender.",
  ["inputs", "configurations"], "all datagram and buffer sizes up to a bound for IPv4 and IPv6",
  "The tests exchange two short datagrams over IPv4 loopback.",
  ["src/socket.h", "src/i/socket.i.h"], [("address storage passed to receive and send", "src/socket.h")],
  ["bytes and addresses at the intercepted calls"])

p("L01", "Each log or table entry becomes exactly one complete bounded line",
  "However many values are put on a line and however long they are, the line arrives at the destination as one contiguous piece, ended by exactly one newline, holding the values in order up to the line's capacity, and nothing outside the line's own memory is read or written. Overlong content is cut, never spilled into other lines.",
  ["inputs", "programs"], "all sequences of puts up to a length with value lengths around the remaining capacity, for several line capacities",
  "The tests write a few short lines into roomy buffers.",
  ["src/table.h", "src/log.h"], [("fixed-capacity line buffer", "src/table.h")], ["bytes at the destination", "memory around the line"])

p("L02", "A log filter passes exactly the entries at or above its level",
  "For every category, every severity and every filter level, an entry reaches the destination if and only if the filter accepts it, a missing filter accepts everything, and changing the level takes effect for the next entry. A filtered entry produces no output at all.",
  ["inputs", "configurations"], "all severities times all filter levels for every line format, with and without filter, including level changes",
  "The tests use one filter level.",
  ["src/log.h", "src/i/log.i.h"], [("severity comparison in the filter", "src/log.h")], ["lines at the destination"])

p("L03", "A binary dump shows every byte exactly once",
  "The lines a binary dump produces, for any non-empty buffer, contain every byte of the buffer exactly once, in order, at the right offset (modulo 65536), as hexadecimal and as printable text, and no line without bytes.",
  ["inputs"], "every length from zero to several rows, every byte value",
  "The tests dump one or two fixed buffers.",
  ["src/table.h", "src/log.h"], [("row-wise dump", "src/table.h")], ["lines at the destination"])

p("T01", "A timestamp is the correct UTC calendar date and time of its time point",
  "For every representable time point from the epoch on, the year, month, day, hour, minute, second and fraction reported are those of the proleptic Gregorian calendar in UTC, including leap years, century rules and the last instant of each day. Equality agrees with equality of the time points at the reported resolution.",
  ["inputs"], "every day of several 400-year cycles, and every second of selected days, against an independent day-counting calendar",
  "The tests check a few dates.",
  ["src/timestamp.h", "src/i/timestamp.i.h"], [("day arithmetic", "src/timestamp.h")], ["reported fields"])

p("F01", "Rotating files keep every byte, in order, in exactly one file",
  "For every sequence of writes, flushes and non-decreasing clock readings, the concatenation of the files produced, in order of their names, is exactly the bytes written. A new file is started only when flushing after the configured duration since the last opening, or the configured size of the file, was reached, and then always; within the same second the same file is continued, and nothing already written is lost. No file once finished is modified again. A failure to write or to open is reported through the stream state.",
  ["histories", "inputs"], "all histories of write, flush and clock advance up to a depth under a controlled clock, for several limits",
  "The tests check one rotation each.",
  ["src/multifile.h", "src/i/multifile.i.h"], [("reopen on sync", "src/multifile.h")], ["file names and contents"])

p("B01", "A memory stream buffer never reads or writes outside its windows",
  "For every pair of input and output windows, possibly empty or absent, a memory stream buffer yields exactly the bytes of its input window and stores exactly the bytes written into its output window, in order, then reports end or failure; it never touches memory outside. Moving it, or a stream over it, carries over positions, windows, state and counts.",
  ["inputs", "histories"], "all window sizes and offsets up to a bound with all short sequences of get, put, peek, seek-free bulk transfers and moves",
  "The tests use one window each.",
  ["src/buffer_streambuf.h"], [("window pointers", "src/buffer_streambuf.h")], ["bytes read", "memory after writing", "return values"])

p("A01", "Character classification and comparison match ASCII exactly",
  "For every character value the classification and case conversion helpers agree with the ASCII and HTTP/JSON definitions, and for every pair of strings the comparison helpers report equality exactly when the strings are equal, exactly or ignoring ASCII case, whole or up to a count, without reading past the terminator.",
  ["inputs"], "all 256 character values, all pairs of strings up to a length over a mixed-case alphabet, all counts",
  "The tests compare a few word pairs.",
  ["src/ascii.h"], [("predicates and loops", "src/ascii.h")], ["return values"])

p("G01", "Every bus transfer reaches the device it was issued for",
  "However several threads interleave transfers to different devices on one bus, each transfer is carried out while the bus is addressed to its own device, with its own register and data, and multi-byte values are transferred in the device's byte order. A failed transfer or addressing step is reported and a later transfer still addresses the right device.",
  ["schedules", "fault_sequences"], "all interleavings of two or three threads with one to two transfers each, and every bus call failing once",
  "The hardware code has no tests.",
  ["src/x/gpio_smbus.x.h"], [("address selection followed by transfer", "src/x/gpio_smbus.x.h"), ("bus lock", "src/x/gpio_smbus.x.h")],
  ["sequence of bus calls with address, register and data"])

p("G02", "Background device threads always obey start, stop and destruction",
  "For every interleaving of the owner's calls with the background thread of the pulse emulator and of the motion tracker, destruction terminates, leaves no thread behind, and leaves the output line low. A requested duty cycle takes effect within two periods and gives pulses of exactly that width until it is changed; a requested start always takes effect, a stopped tracker becomes idle with speed zero, the time it was stopped does not count as motion when it is started again, and a value set on a running tracker is never lost. Invalid construction arguments, or a thread that cannot be created, raise an exception, leave no descriptor open, and never end the process.",
  ["schedules", "inputs"], "all interleavings of construction, control calls and destruction up to a preemption bound, with all waiting made visible",
  "The hardware code has no tests.",
  ["src/x/gpio_pwm_emulator.x.h", "src/x/gpio_smbus_motion_tracker.x.h"], [("control condition variable and flags", "src/x/gpio_pwm_emulator.x.h")],
  ["termination of destruction", "line levels", "deadlocks"])

p("G03", "Device handles are opened and closed in pairs",
  "For every history of constructing, moving and destroying chips, lines, buses and the devices built on them, and whichever device call fails, each descriptor obtained, including the one a line request returns, is closed exactly once, and failure is reported by an exception or invalid result.",
  ["fault_sequences", "histories"], "every device call of every construction failing once",
  "The hardware code has no tests.",
  ["src/x/gpio_chip.x.h", "src/x/gpio_line.x.h", "src/x/gpio_smbus.x.h"], [("descriptor handling in constructors and destructors", "src/x/gpio_line.x.h")],
  ["open/close balance at the intercepted calls"])

p("G04", "Device values are converted exactly",
  "Words and bytes cross the bus unchanged in the device's byte order, and blocks are transferred whole or refused, never beyond the buffers of either side. Every valid pulse frequency, clock and pulse range is programmed with a period within one step of the requested one and a pulse width within a few ticks, and every invalid one raises an exception. Every sensor measurement becomes the right value relative to an average calibration, and a failed transfer never yields an invented measurement. A distance measurement ends within its timeout and returns the echo's distance, or the maximum distance if no echo comes in time. The motor, servo and grayscale devices use their own lines and registers.",
  ["inputs", "histories"], "all 65536 words, measurements and pulse frequencies, all block sizes and device counts, grids of clocks, pulse ranges and echo timings, and every transfer of a measurement failing once",
  "The hardware code has no tests.",
  ["src/x/gpio_smbus.x.h", "src/x/gpio_smbus_pwm.x.h", "src/x/gpio_smbus_motion.x.h", "src/x/gpio_ultrasonic.x.h", "src/x/gpio_smbus_motor.x.h", "src/x/gpio_smbus_servo.x.h", "src/x/gpio_smbus_grayscale.x.h", "src/x/gpio_line.x.h"], [("autoreload and prescaler", "src/x/gpio_smbus_pwm.x.h"), ("calibration", "src/x/gpio_smbus_motion.x.h"), ("echo timing", "src/x/gpio_ultrasonic.x.h")],
  ["register writes", "returned values", "line levels under a virtual clock"])

p("X01", "The sample board games follow their rules",
  "On both sample games, a move is accepted exactly when the rules allow it, turns alternate, and the game ends exactly when a line is completed by the mover or the board is full, with the right winner. Undoing the last move restores the position exactly. A game object accepts moves only from the player whose turn it is, and keeps them in order.",
  ["histories"], "every reachable position of the smaller game, and every position of the larger one up to a depth plus all end-game continuations of selected positions, against an independent rule implementation",
  "No test touches the samples.",
  ["samples/tictactoe/game.h", "samples/connect4/game.h"], [("board encoding and win detection", "samples/connect4/game.h"), ("board encoding and win detection", "samples/tictactoe/game.h")],
  ["accepted/rejected moves", "winner", "cell contents", "move count"])

p("X02", "The sample REST services answer every request according to their contract",
  "The sample equation service returns the right classification and solution of every 2x2 system it accepts, and a client error for every request whose method, resource, headers or body (up to the end of its top-level object) are not what it asks for. The sample game services create games, hand out each claimable player once, accept a move only from the claimed player whose turn it is, and report all accepted moves in order. Every request gets exactly one well-formed response, whatever its headers and body.",
  ["inputs", "histories"], "all small integer systems, all malformed bodies derived by one edit, every cut point of a request, all short request histories on the game services, and all bad random numbers for the IDs",
  "No test touches the samples.",
  ["samples/basic/equations.h", "samples/tictactoe/game.h", "samples/connect4/game.h", "src/endpoint.h"], [("request processing of the samples", "samples/basic/equations.h"), ("games, players and moves over REST", "samples/tictactoe/game.h"), ("simple responses", "src/endpoint.h")],
  ["responses", "board reached by the accepted moves"])

p("X04", "The engines of the sample games play legal moves and learn only from their games",
  "An engine player of either sample game makes exactly one legal move on its turn, whatever has been learned before and whichever random numbers are drawn, so a game of two engines always comes to its end. The learning engine picks a move of the best score when it knows one, and after a game only the scores of the moves it made in that game change, up for a win and down for a loss, within the score range. The calculating engine of the smaller game never loses; the one of the larger game wins when a winning move exists and prevents an immediate loss when it can.",
  ["histories", "inputs"], "every position of the smaller game and selected openings and end games of the larger one, with all small combinations of learned scores and random numbers over the whole range; games of engines with learning carried from one to the next",
  "No test touches the samples.",
  ["samples/tictactoe/game.h", "samples/connect4/game.h"], [("choice of the best move", "samples/tictactoe/game.h"), ("choice of the best move", "samples/connect4/game.h"), ("scores kept in a persistent map", "samples/tictactoe/game.i.h")],
  ["moves made by the engines", "scores in the persistent map", "result of the games"])

p("X03", "Attaching a log does not change what the library does",
  "Every component takes an optional log. Whatever log is attached (none, one that records everything, one that records nothing, one whose destination fails, throws, or is missing), the results, the data written, the errors reported, and the recovery from failed system calls are the same as without a log. In particular producing a log line never reads memory beyond what the caller passed, never fails an operation that would have succeeded, and never hides an error.",
  ["inputs", "histories", "faults"], "for each component: the inputs, call sequences and failing system calls of its own property, within smaller bounds, with each of six kinds of logs",
  "Tests attach one log, to the standard output, which succeeds; what is evaluated for a line of a severity that is filtered out, or for data without a terminating zero, is never looked at.",
  ["src/log.h", "src/json.h", "src/http.h", "src/x/vmem_pool.x.h", "src/socket.h", "src/endpoint.h"], [("lines of the parsers and writers", "src/json.h"), ("lines of the messages", "src/http.h"), ("lines of the pool", "src/x/vmem_pool.x.h"), ("filtering and writing of a line", "src/log.h")],
  ["whether the verdict on a case depends on the log", "memory accesses (ASan, UBSan)"])

p("S01", "A test suite passes only if every test of every category ran and passed",
  "Running a test suite executes every method of every category exactly once, in the order in which they were added, whatever earlier methods returned or threw. A method that returns false, throws anything, or is empty fails; a category passes only if all of its methods do, and the suite only if all of its categories do. With a log, there is one verdict per method, per category and for the suite, and they agree with the result. A run repeated with the seed it reports draws the same random numbers. Comparisons of values, strings and blobs tell equality exactly and log everything they compared, and the library's exceptions are caught as their base with their message and tag.",
  ["inputs", "histories"], "all suites of up to three categories of up to three methods, each of which passes, fails, or throws; seven kinds of outcomes for up to three methods; five logs; given and random seeds with extreme random numbers; all pairs of short and boundary-sized strings; all blob sizes to a bound with each differing byte",
  "The library's own tests are run by this framework: a framework that loses a failure makes all of them pass, and no test looks at the framework itself.",
  ["src/test.h", "src/exception.h"], [("running of a suite and its verdict", "src/test.h"), ("comparisons", "src/test.h"), ("seeding", "src/test.h"), ("typed exceptions with tags", "src/exception.h")],
  ["result of run()", "order of execution", "logged verdicts", "random numbers drawn"])

p("X06", "The sample game services serve concurrent clients one at a time",
  "When several clients of a sample game service send requests at the same time while engine players are moving, every response is one the service could have given had the requests and the moves of the engines happened one after the other. No player is handed out twice, no turn is taken twice, no accepted move is lost or misnumbered, and at most one game is in progress. Nothing blocks forever, no memory is accessed by two threads at once without order, and no engine outlives its game.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of two or three clients with one to four requests each, before, during and at the end of a game, with and without engines",
  "No test touches the samples; whether two requests collide depends on the schedule of the threads of the endpoint.",
  ["samples/tictactoe/game.h", "samples/connect4/game.h"], [("locking of a game", "samples/tictactoe/game.h"), ("engine threads", "samples/tictactoe/game.h"), ("locking of the list of games", "samples/connect4/game.h")],
  ["responses", "final list of moves", "threads alive after the service is destroyed"])

p("X05", "The sample car drives as requested, slows for obstacles, and stays stopped after shutdown",
  "After each accepted power or turn request of the sample car service, the power and direction of the four wheels are those of the requests accepted so far, in some order for concurrent ones, reduced only by the obstacle limiter. A wheel's direction is never reversed while the wheel is driven. While driving forward, each measurement of a close obstacle reduces the power by one step, down to a stop of all wheels. Once a shutdown is answered no wheel is driven and nothing drives one again. Every request, also a repeated shutdown, gets exactly one well-formed response; an invalid one gets a client error and changes nothing.",
  ["histories", "schedules", "inputs"], "all pairs (thorough: triples) of settings, all values from -130 to 130, every truncation of bodies and headers, obstacle distances on both sides of every threshold, and all interleavings up to a preemption bound of two or three clients with the background threads",
  "No test touches the samples; what the wheels do depends on the history of requests, on the moments at which the obstacle limiter works, and on devices that tests do not have.",
  ["samples/picar_4wd/car.h", "samples/picar_4wd/car.i.h"], [("power, turn and shutdown requests", "samples/picar_4wd/car.h"), ("obstacle limiter thread", "samples/picar_4wd/car.h")],
  ["responses", "PWM registers and direction lines of the wheels", "pulses of the servo", "threads and descriptors left after destruction"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
