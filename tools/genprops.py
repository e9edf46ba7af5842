#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand; the output is committed).
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": stmt,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

BODY = ["body/body.go", "body/bytes.go", "body/empty.go", "body/readerat.go", "body/seeker.go", "body/buffered.go"]
FILEKINDS = ["body/readerat.go", "body/seeker.go"]

p("B01", "A body streams exactly its source's bytes, in order, then EOF",
  "For every kind of body (in-memory, random-access, seekable, or plain stream) and every sequence of read sizes, the bytes returned are exactly the source's bytes in order starting at the cursor (limited to the declared length when one is given): nothing is skipped, repeated, invented or reordered. End-of-file is reported only once every such byte has been delivered, also when the source returns short reads, returns EOF together with its last bytes, or ends before its declared length. A read never returns more bytes than asked for, a stream source is never consumed beyond the declared length, and a non-empty read that delivers nothing reports an error unless the source itself answered with zero bytes and no error.",
  ["inputs", "histories", "fault_sequences"], "every body kind x content size x declared length x sequence of read sizes x legal answer of the source (short, joint EOF, zero) up to the stated depth and deviation bound",
  "The tests read a four-byte source with one fixed size and a source that always answers in full; chunking, block boundaries (64 KiB), short answers and wrong declared lengths are never combined.",
  BODY, [("clamping of the read to the remaining length", "body/*.go Read"), ("block read-ahead into a shared buffer", "body/buffered.go Read"), ("seek-then-read emulation", "body/seeker.go readAt")],
  [("cursor", "offset of the next byte this handle returns", "body/*.go"), ("shared length", "length known to all copies", "body/readerat.go, body/seeker.go, body/buffered.go")],
  ["return values of Read", "calls received by the backing reader"])
p("B02", "BytesRemaining is exact, or -1 when the length is unknown",
  "At every moment BytesRemaining of an open body is the exact number of bytes that reading it to the end will still deliver, or -1 when the length is not known; it is never any other negative number. For a body whose length was given or discovered it goes down by exactly the number of bytes each Read returns, follows Seek, is 0 at end-of-file and 0 after Close, and asking for it changes nothing. If the declared length was larger than the source, the value may be based on the declared length until a copy reaches the real end, and must be 0 for a handle that has reached it.",
  ["inputs", "histories"], "every body kind x declared length (absent, exact, too short, too long) x history of Read/Seek/ReadAt/Copy/Close on up to three handles, up to the stated depth",
  "The tests ask for it at three fixed moments of one history on one handle.",
  BODY, [("length minus cursor, clamped", "body/*.go BytesRemaining"), ("length discovered at EOF", "body/*.go Read")],
  [("shared length", "known length, lowered when EOF comes early", "body/readerat.go, body/seeker.go, body/buffered.go")], ["return value of BytesRemaining"])
p("B03", "Copies of a body are independent of each other",
  "A copy starts at the original's current position and represents the same remaining bytes; from then on no Read, Seek, ReadAt, WriteTo or Close on one handle changes what any other handle reads, where its cursor is, how many bytes it has left or whether it is open. This holds for every number of copies, for copies of copies, for copies taken mid-stream or at end-of-file, and also when the shared reader cannot seek and the copies have fallen far apart. A copy offers the same optional interfaces (seeking, random-access reads, writing out) as its original.",
  ["inputs", "histories"], "every interleaved history of operations over up to three handles of one source, every body kind, small and multi-block content, up to the stated depth",
  "No existing test calls Copy at all.",
  BODY, [("per-handle cursor over a shared reader", "body/*.go Copy"), ("shared buffer trimmed to the slowest copy", "body/buffered.go advance/updateStart")],
  [("handles at buffer start", "count of handles positioned at the start of the shared buffer", "body/buffered.go refcnt"), ("buffer start", "stream offset of the first buffered byte", "body/buffered.go start")], ["results of operations on the other handles"])
p("B04", "The backing reader is closed exactly once, by the last handle to close",
  "The reader given to a body is closed exactly once, at the moment the last open copy is closed, whatever the order in which copies are created and closed; the error of that close is returned by exactly that call, and every earlier close returns nil. The reader is never closed while a copy is open and never read, seeked or closed again afterwards. While a handle is open it exposes that very reader as its backing reader; after its close, or for in-memory bodies, it exposes none.",
  ["inputs", "histories", "fault_sequences"], "every history of Copy/Close/Read/Seek over up to four handles, every reader-backed kind, reader with and without Close, close succeeding or failing, up to the stated depth",
  "The tests close a single handle once; copies, close errors and use after the last close are not exercised.",
  ["body/readerat.go", "body/seeker.go", "body/buffered.go"], [("reference counting at Copy and Close", "body/readerat.go, body/seeker.go ref/unref"), ("set of live handles", "body/buffered.go ref/unref")],
  [("reference count", "number of open handles on the reader", "body/*.go")], ["Close calls received by the reader", "error returned by Close", "Unwrap"])
p("B05", "Seek moves the cursor exactly as specified and nothing else",
  "On every seekable body, Seek relative to start, current position or end moves the cursor to the computed position, limited to the end of the body, returns that position, and the next Read continues from there; a previous end-of-file or error state is cleared. An unknown whence, a negative start offset or a negative computed position is refused with its specific error carrying the offending value and leaves the cursor and the end-of-file state where they were. This holds for every position in bodies of any length, including lengths beyond 4 GiB.",
  ["inputs", "histories"], "every history of Seek (valid, clamped, invalid) mixed with Read/ReadAt/Copy, up to the stated depth, small and multi-gigabyte virtual contents, for targets that do not overflow a 64-bit integer",
  "The tests perform one fixed sequence of seeks on a four-byte body and never check where the cursor is after a refused seek.",
  ["body/bytes.go", "body/empty.go", "body/readerat.go", "body/seeker.go", "body/errors.go"], [("whence switch, sign checks, clamp", "body/*.go Seek")], None, ["Seek results", "subsequent Read"])
p("B06", "Random-access reads follow the ReaderAt contract and leave the cursor alone",
  "On every body offering random access, a read at offset o returns exactly the bytes of the source from o, fills the whole buffer or reports an error, reports end-of-file only when it really reached the end, treats offsets at or past the end as end-of-file, and refuses negative offsets with an error. It never moves the sequential cursor or changes the end-of-file state, the remaining length or any copy, also when it is emulated over a seekable reader, when that reader answers with short reads, and when the underlying read fails.",
  ["inputs", "histories", "fault_sequences"], "every (offset, size) pair around the content boundaries mixed into histories of Read/Seek/Copy, with short and failing source answers within the deviation bound",
  "The tests make four random-access reads on a freshly positioned single handle with a source that answers in full.",
  ["body/bytes.go", "body/empty.go", "body/readerat.go", "body/seeker.go"], [("clamp to length then delegate", "body/readerat.go ReadAt"), ("seek+read emulation", "body/seeker.go readAt")], None, ["ReadAt results", "later Read results"])
p("B07", "A source error is reported, never turned into EOF or lost data",
  "When the backing reader fails, the bytes it delivered before the failure are handed out first and then that same error is returned; a handle never sees a clean end-of-file before all bytes were delivered. For a stream reader every copy sees the same bytes followed by the same error, and keeps seeing it. For seekable or random-access readers a failure met by one handle stays with that handle until it seeks, after which it can read everything again, and it does not shorten, fail or otherwise affect any other copy.",
  ["inputs", "histories", "fault_sequences"], "an error (alone or with partial data) injected at every read or seek call the source receives, in every history of Read/Seek/ReadAt/Copy/BytesRemaining over up to three handles up to the stated depth",
  "No test makes the source fail with anything but EOF.",
  FILEKINDS + ["body/buffered.go"], [("sticky per-handle error", "body/readerat.go, body/seeker.go Read"), ("sticky shared error", "body/buffered.go Read")],
  [("sticky error", "error repeated by later reads", "body/*.go err")], ["Read/ReadAt errors on all handles"])
p("B08", "Building a body from a reader picks the right length and capabilities",
  "Building a body from a reader never consumes data and yields a body that starts at the beginning of the content with the right length: the declared one if non-negative, else that of the file information for a regular file, else the one found by seeking to the end, else unknown; a negative declared length means unknown. If the reader supports random access plus seeking, or random access plus the file information of a regular file, the body supports seeking and random access; if it supports seeking alone the body supports both as well; a body passed in is returned as it is. A failure of the file-information or seek call is returned as an error wrapping it, with no body, and without closing the reader.",
  ["inputs", "configurations", "fault_sequences"], "all eight combinations of file-information/seek/random-access interfaces x declared length x regular or irregular file x success or failure of each construction call, then a full read-out of the resulting body; plus real files and pipes",
  "The tests construct seven fixed combinations and only with succeeding calls and regular files.",
  ["body/body.go"], [("interface detection and length discovery", "body/body.go FromReaderAndLength")], None, ["constructor results", "calls received by the reader"])
p("B09", "Writing a body out delivers exactly its remaining bytes",
  "Copying a body to a writer, through the body's own write-out method or through io.Copy, delivers exactly the remaining bytes once and reports their number with no error, including for an empty body and for one already at end-of-file. If the writer fails part-way, its error is returned with the number of bytes it accepted; with the body's own write-out method the cursor then stands exactly after the accepted bytes, so the rest can still be read, and afterwards the body is at end-of-file only if everything was accepted.",
  ["inputs", "histories", "fault_sequences"], "every body kind x history of Read/Seek/Copy before and Read/BytesRemaining after x writer accepting k bytes then failing for every k, up to the stated depth",
  "No test writes a body out.",
  BODY, [("WriteTo", "body/bytes.go, body/empty.go, body/closed.go"), ("Read via io.Copy", "body/*.go Read")], None, ["bytes received by the writer", "later reads"])
p("B10", "A closed body is inert",
  "After a handle is closed, Read, ReadAt, Seek, WriteTo and a second Close on it return the closed-file error and no data, BytesRemaining returns 0, its backing reader is not exposed, and copying it succeeds and yields a body that is already closed in all these respects and offers random access, seeking and write-out. None of these calls touches the backing reader or any other copy. The predefined already-closed body behaves the same way.",
  ["inputs", "histories"], "every operation after Close at every point of a history, every kind, with other copies still open, up to the stated depth",
  "The tests call each operation once, in one order, after closing the only handle; copying a closed body is untested.",
  ["body/closed.go"] + BODY, [("closed flag", "body/*.go"), ("closed singleton", "body/closed.go")], None, ["results after Close", "calls received by the reader"])
p("B11", "A stream body keeps in memory only what its slowest copy still needs",
  "A body over a plain stream retains, right after data was fetched from the source and up to a fixed amount, no more memory than the distance between its slowest open copy and the furthest byte fetched: data every open copy has passed, or that only a closed copy still needed, is released no later than the next fetch. Once all copies are closed none of the data is retained, for stream and in-memory bodies alike, even while the closed handles stay referenced.",
  ["inputs", "histories"], "every history of large reads, copies and closes over up to three handles up to the stated depth, live heap measured after each operation",
  "The tests use four-byte bodies and never look at memory.",
  ["body/buffered.go", "body/bytes.go"], [("buffer trimming", "body/buffered.go advance/updateStart/unref"), ("reference dropping at Close", "body/*.go Close")],
  [("buffer start", "offset of first retained byte", "body/buffered.go")], ["live heap size"])
p("B12", "JSON and protobuf bodies carry exactly the given value",
  "A body made from a JSON value or a protobuf message decodes back to that value, compact and pretty JSON being equivalent, with non-ASCII and HTML-special characters intact and the pretty form using CRLF line endings and a final line break. Bodies made one after another or at the same time never share or overwrite each other's bytes, and the body does not change when the value is modified afterwards. The bytes of a body made from a string or a byte slice are exactly those given.",
  ["inputs", "histories"], "every JSON value from a grammar up to a depth and every sequence of constructor calls up to a length, all bodies read back at the end; protobuf messages over the well-known types",
  "One test checks one pretty-printed array and reads an internal field; compact JSON, protobuf and repeated use of the pooled buffers are untested.",
  ["body/body.go"], [("encode into pooled buffer then copy out", "body/body.go fromJSONImpl")], None, ["bytes read from the body"])
p("B13", "All kinds of body over the same content behave identically",
  "Bodies over the same content and of known length are observably interchangeable: the same sequence of Read, Seek, ReadAt, Copy, Close and BytesRemaining calls gives the same counts, bytes, positions and nil/end-of-file/closed/refused outcomes whichever kind of reader (or memory) backs them, as far as each supports the operation. A stream body of unknown length differs only in reporting -1 for its length until the end is known. A zero-length body behaves like the empty body.",
  ["inputs", "histories"], "every operation history up to the stated depth executed in lock-step on all kinds over contents of length 0 to 5 with sources that answer in full",
  "Each kind has its own hand-written expectations; nothing compares kinds over arbitrary histories.",
  BODY, [("separate implementations of one interface", "body/*.go")], None, ["results of all operations"])
p("B14", "A body asks its source only for bytes it was asked for",
  "Building a body fetches no data from its reader, and neither do asking for its remaining length or reader, copying, seeking and closing it. A read asks a seekable or random-access reader only for the bytes it was asked to deliver; with a known length no reader is ever asked for a byte beyond it; once built, a body over a random-access reader never moves that reader's own cursor; and a stream is not asked for bytes it has already delivered to some copy, nor asked again after it has ended or failed.",
  ["histories", "inputs"], "every history of operations over the full alphabet up to the stated depth, over every kind of reader and relation of declared to real length, with source deviations and failures",
  "Tests compare the calls of a few fixed scripts; what is fetched depends on the history of several copies.",
  ["body/buffered.go", "body/seeker.go", "body/readerat.go", "body/body.go"], [("requests to the reader", "body/buffered.go Read"), ("clamping", "body/seeker.go Read, body/readerat.go Read")], None, ["calls received by the reader"])
p("B15", "Closing a body releases everything it held",
  "A closed copy leaves nothing behind: while other copies stay open it can itself be freed, and once the last copy is closed - by hand or by serving - neither the closed handles nor a response or builder they passed through keep the reader, the data or any buffer alive, whatever was read, copied, seeked or failed before.",
  ["histories"], "every history of reads, copies, seeks, random-access reads, failed transfers and closes over up to three handles up to the stated depth, every kind of body; every short sequence of copying and serving responses",
  "No test looks at what stays reachable, and it depends on the order in which several copies are used and closed.",
  ["body/bytes.go", "body/buffered.go", "body/seeker.go", "body/readerat.go", "response/response.go"], [("detaching on close", "body/*.go Close, unref"), ("set of attached copies", "body/buffered.go bodies")], None, ["weak references to handles, reader, data and buffers after collection"])

p("C01", "Concurrent use of copies is linearizable",
  "When several goroutines each use their own copy of one body at the same time, every operation's result is one that some sequential order of the operations, respecting real-time order, would have produced: each copy still delivers exactly its own byte sequence, and lengths, end-of-file and close results agree with that order. No schedule makes two copies mix up positions on the shared reader or lose buffered data.",
  ["schedules", "histories"], "every interleaving within the preemption bound of 2-3 goroutines x 1-3 operations on copies of each reader-backed kind",
  "There is no concurrent test at all, and a test samples a handful of schedules.",
  ["body/readerat.go", "body/seeker.go", "body/buffered.go"], [("mutex per shared reader", "body/*.go common.mu"), ("mutex per handle", "body/*.go mu")], None, ["call/return history"],
  None)
p("C02", "Concurrent operations on one handle are atomic",
  "When several goroutines use the same handle at the same time, each Read, Seek, ReadAt, WriteTo, Copy, BytesRemaining and Close takes effect as a whole at one moment between its call and its return: concurrent reads hand out disjoint consecutive pieces whose union is the stream, a copy made meanwhile is positioned at one of those boundaries, and operations racing with Close either complete normally or report the closed-file error.",
  ["schedules", "histories"], "every interleaving within the preemption bound of 2-3 goroutines x 1-2 operations on one shared handle of every kind",
  "There is no concurrent test at all.",
  BODY, [("mutex per handle", "body/*.go mu")], None, ["call/return history"])
p("C03", "The backing reader is never used concurrently or after it was closed",
  "Under every schedule of goroutines using one handle or copies, the backing reader receives at most one call at a time, each emulated random-access read performs its seek and read as one unit, its Close is called exactly once when the last handle closes, and no call reaches it after that. The close error is returned to exactly one caller.",
  ["schedules", "histories", "fault_sequences"], "every interleaving within the preemption bound of 2-3 goroutines doing Copy, Close, Read, ReadAt, Seek on every reader-backed kind, reader calls themselves being preemption points",
  "There is no concurrent test; a reader that tolerates overlap hides the violation from ordinary runs.",
  ["body/readerat.go", "body/seeker.go", "body/buffered.go"], [("mutex held around reader calls", "body/*.go common.mu"), ("reference count", "body/*.go refcnt")], None, ["calls received by the reader"])
p("C04", "No data race and no deadlock in concurrent use of bodies",
  "Under every schedule, goroutines using the same body, copies of it or unrelated bodies through their public methods have no data race in the sense of the Go memory model, never deadlock, and never panic.",
  ["schedules"], "every interleaving within the preemption bound of pairs of operations on one handle and on copies, each execution monitored by a happens-before race detector that does not see the explorer's own hand-offs",
  "There is no concurrent test; the race detector alone sees only the schedules that happen to occur.",
  BODY, [("mutexes", "body/*.go")], None, ["race reports", "blocked threads"])
p("C05", "Copies of one response can be served at the same time",
  "Copies of a response, or of a builder, can be used from different goroutines at the same time, and one response can be copied and inspected by several goroutines at once, without data race: each is sent complete and exactly once with its own headers and body, changes that one serving makes to the outgoing headers never show up in another serving or in the response itself, and each body copy is closed.",
  ["schedules", "histories"], "every interleaving within the preemption bound of 2-3 threads serving copies of one response or copying and inspecting a shared one, through response writers that add and replace header values, each body kind, with race monitoring",
  "Package response has no tests.",
  ["response/response.go", "response/util.go", "response/builder.go"], [("header and body copying", "response/util.go")], None, ["headers and bytes received by each client", "race reports"])

p("R01", "The builder produces exactly the response it was told to",
  "After any sequence of builder calls, Build yields a response with the last given status (200 if none), the accumulated headers, the last given body and error; Content-Type is added only if absent (application/octet-stream) and Content-Length only if absent and the body's length is known, with that exact length. JSON and protobuf setters also set their documented content type, and RedirectPage and ErrorPage replace status, headers, body and error with the generator's output. Build leaves the builder empty except for its page generator, and a call with an out-of-range status, empty header name, unparseable content type or a missing body is refused by a panic.",
  ["inputs", "histories"], "every sequence of builder calls over the whole method set with small argument domains up to the stated depth, including several Builds in one sequence",
  "Package response has no tests.",
  ["response/builder.go"], [("setter methods and Build", "response/builder.go")], [("builder fields", "status, headers, body, error, generator", "response/builder.go")], ["Response accessors"])
p("R02", "Builders, responses and served headers never alias each other",
  "A copied builder or response is unaffected by any later change to the original and vice versa; headers handed to a builder are copied, so later changes by the caller have no effect; and serving a response hands the client-side writer header values it may modify or append to without changing the response, its copies or any other serving of them. A copy carries the same status, headers, error, remaining body bytes and page generator.",
  ["histories", "inputs"], "every sequence of copy, header mutation (set, add, in-place, append), body read, build and serve over up to three builders/responses up to the stated depth",
  "Package response has no tests.",
  ["response/builder.go", "response/response.go", "response/util.go"], [("deep header copy", "response/util.go copyHeaders"), ("header transfer", "response/response.go Serve")], None, ["headers of all live objects after each step"])
p("R03", "Serving sends exactly the status, headers and body of the response",
  "Serving a response sends, in this order, one push per value of its Push header if the writer supports pushing (unsupported is ignored, another push error stops the serving), all headers except Push, the status once, and exactly the body's remaining bytes. It returns nil exactly when all of this succeeded, also for an empty body, and otherwise the first error met. The writer receives nothing else.",
  ["inputs", "fault_sequences"], "every response from a grid of statuses, header sets, push lists and body kinds x writer capabilities x a failure injected at every call the writer or source receives",
  "Package response has no tests.",
  ["response/response.go"], [("Serve", "response/response.go")], None, ["calls received by the ResponseWriter"])
p("R04", "Serving always closes the response body exactly once",
  "Whatever happens while a response is served - success, push failure, header or write failure, source failure, a panic of the writer or of the source - its body has been closed exactly once when serving ends, and a close error is reported when nothing failed before it.",
  ["fault_sequences", "inputs"], "a failure or panic injected at every call the writer, pusher or source receives, for every body kind and capability set",
  "Package response has no tests.",
  ["response/response.go"], [("Close after copying", "response/response.go Serve")], None, ["Close calls received by the body and its reader"])
p("R05", "Generated redirect pages are safe and consistent for every location",
  "For every permitted status and every location, the redirect response carries the whitespace-trimmed location in its Location header, an HTML page whose link target and link text decode back to exactly that location with no character of it able to end the attribute or open a tag, and a Content-Length equal to the number of body bytes; statuses outside 300-399 and blank locations are refused.",
  ["inputs"], "every string up to the stated length over an alphabet of HTML-, URL- and control-significant characters, every status class boundary",
  "Package response has no tests; injection needs particular character combinations.",
  ["response/pagegen.go", "response/builder.go"], [("html escaping", "response/pagegen.go GenerateRedirectPage")], None, ["headers and body bytes"])
p("R06", "Generated error pages are consistent and never leak the error",
  "For every permitted status and every error, the generated error response has that status, a plain-text body consisting of the status code and its standard text, a Content-Length equal to the number of body bytes, and is not cacheable by default; the response's recorded error is the given one, and no part of the error's message appears in headers or body.",
  ["inputs"], "every status from 200 to 999 x error values whose text would be recognisable, also through the builder",
  "Package response has no tests.",
  ["response/pagegen.go", "response/builder.go"], [("status-only page", "response/pagegen.go GenerateErrorPage")], None, ["headers and body bytes"])
p("R07", "A response describes itself truthfully, and looking at it changes nothing",
  "At any time a response's status, headers, error and body are those it was built with, and its text description names its status and exactly the number of body bytes still to be sent, or says the length is unknown. Asking for any of these, in any order and any number of times, before, between or after copying, serving or closing the response or its copies, changes neither the response nor its copies nor what a client receives.",
  ["histories", "inputs"], "every interleaving, up to the stated depth, of questions with copying, serving, partial reading and closing, over responses with every body kind (built directly, from the builder and from page generators)",
  "Package response has no tests.",
  ["response/response.go"], [("accessors", "response/response.go Status/Headers/Err/Body/String")], [("body position", "shared by copies, unchanged by questions", "response/response.go")], ["answers", "bytes and headers received by a client"])

p("W01", "The wrapped writer sends one header, before any body byte, and knows it",
  "Through the wrapping writer the underlying writer receives at most one header call, before any body byte or flush, carrying the first status given explicitly, or 200 if writing or flushing came first; the conditional form never overrides it, and a repeated explicit call is rejected, flagged and not forwarded. The reported status is 0 before and that status ever after. Header changes made before it reach the client, and an out-of-range status is refused without being forwarded.",
  ["histories", "inputs"], "every sequence of header, conditional header, write, read-from, flush, push and header-map calls up to the stated depth, over underlying writers with every capability set, GET and HEAD, final statuses",
  "Package response has no tests.",
  ["response/writer.go"], [("status latch", "response/writer.go writeHeaderImpl/MaybeWriteHeader/WriteHeader")], [("status", "0 until the header was sent", "response/writer.go")], ["calls received by the underlying writer"])
p("W02", "The wrapped writer counts body bytes exactly and sends none where forbidden",
  "The number of bytes reported equals the number of body bytes the underlying writer accepted, over any mixture of writes and read-from transfers including partial and failing ones, and any failed write is remembered as an error. For HEAD requests and for statuses that forbid a body (204 and 304) no body byte reaches the underlying writer, the caller sees its data accepted in full without error, and the count stays 0.",
  ["histories", "inputs", "fault_sequences"], "every sequence of writes and read-from transfers of several sizes up to the stated depth x underlying full/partial/failing answers x method x status",
  "Package response has no tests.",
  ["response/writer.go"], [("byte accounting and suppression", "response/writer.go Write/ReadFrom")], [("bytes", "body bytes accepted downstream", "response/writer.go")], ["bytes received by the underlying writer", "BytesWritten, SawError"])
p("W03", "Wrapping a writer is transparent and idempotent",
  "Wrapping preserves what the underlying writer can do: flushing is offered exactly when the underlying writer flushes, and hijacking, close notification and read-from are offered when the underlying writer has the full set; every such call reaches it with its arguments and results unchanged, pushing is forwarded if supported and reported unsupported otherwise, and no capability is claimed that the underlying writer lacks. The underlying writer and its header map are exposed as they are, and wrapping a wrapped writer returns it unchanged.",
  ["configurations", "histories"], "all combinations of the optional interfaces of the underlying writer x each forwarded call x success or failure",
  "Package response has no tests.",
  ["response/writer.go"], [("type selection", "response/writer.go NewWriter")], None, ["interfaces of the wrapper", "calls received by the underlying writer"])

p("H01", "No handler panic or serve failure escapes, and the client always gets a status",
  "Whatever the handler or the serving of its response does - panic with an error or any other value before or after the header, return an unusable response, fail while pushing or writing - no panic leaves the adaptor, the client receives exactly one status (500 if none had been sent), and the panic hook is called exactly once with the error itself, or an error carrying the non-error value. Without failure the hook is not called and the response is sent unchanged.",
  ["inputs", "fault_sequences"], "handler behaviours x response shapes x a failure or panic injected at every call of the writer or source",
  "Package handler has no tests.",
  ["handler/adaptor.go", "handler/onpanic.go"], [("deferred recovery", "handler/adaptor.go ServeHTTP")], None, ["calls received by the writer", "panic hook calls"])
p("H02", "Every request is counted once, under the status the client received",
  "For each request, successful or failed, the request counter, latency, received and sent byte counters grow by exactly one observation under the label of the status actually sent to the client and under no other label, sent bytes grow by exactly the body bytes written, each histogram gains one observation, and the panic counter grows by one exactly when the handler or the serving failed. This holds for requests handled at the same time, too, which have no data race with each other.",
  ["inputs", "histories", "fault_sequences"], "every sequence of up to the stated number of requests over handler behaviours x statuses x injected failures, all metric families compared before and after each",
  "Package handler has no tests.",
  ["handler/adaptor.go"], [("deferred accounting", "handler/adaptor.go ServeHTTP")], [("metrics", "process-wide counters and histograms", "handler/adaptor.go")], ["metric values"])
p("H03", "Over a real HTTP connection the client gets exactly the response",
  "Served by the standard HTTP server through the adaptor, every response reaches the client with its status, its headers and exactly its body (no body for HEAD, 204 and 304), whatever the kind of body and whether or not its length is known, and a failure before the header yields a 500. A response whose body fails part-way is never mistaken for a complete one, and one response never disturbs the next one on the same connection.",
  ["inputs", "configurations", "histories"], "every pair of requests (method x status x body kind x failure) sent on one persistent connection, up to the stated sequence length",
  "Packages response and handler have no tests; the interplay with the HTTP server's framing appears only end to end.",
  ["handler/adaptor.go", "response/response.go", "response/writer.go"], [("Serve through the wrapped writer", "handler/adaptor.go ServeHTTP")], None, ["bytes on the wire"])
p("M01", "The mock reader enforces its script exactly",
  "The mock reader accepts exactly the scripted sequence of calls: each call that matches the next expectation in operation and arguments returns that expectation's scripted results and consumes it, and any other call - wrong operation, wrong size, offset or whence, wrong mark, or past the end of the script - panics with an error naming its index, the expected and the actual call. Data is delivered only up to the scripted count. When several threads share a mock, each expectation is used up by exactly one call. Each wrapper offers exactly the optional interfaces in its name and forwards them unchanged.",
  ["inputs", "histories"], "every script up to the stated length over all operations x every call sequence up to that length; all eight wrappers",
  "The mock has no tests of its own, and a mock that accepts wrong calls silently weakens every test built on it.",
  ["internal/mockreader/mockreader.go", "internal/mockreader/wrapper000.go", "internal/mockreader/wrapper111.go"], [("expectation matching", "internal/mockreader/mockreader.go Matches/next")], [("script index", "next expectation", "internal/mockreader/mockreader.go")], ["results and panics of mock calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
