#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the list stays readable and uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Every collection order yields the one correct trace tree",
  "Whatever order the spans of a trace are collected in (children before parents, no root yet, missing parents, several parentless spans, parent references that form a loop), the in-memory store's Trace returns a finite tree that contains every collected span of that trace exactly once and nothing else. "
  "A span whose parent has been collected hangs directly beneath that parent, and any other span than the top hangs directly beneath the top; only where parent references form a loop may one span of the loop be placed under the top instead. "
  "The top is a parentless span as soon as one has been collected; until then some span is the provisional top, wherever its own parent is.",
  ["histories", "inputs"], "all sets of spans (non-zero span ids) of a trace and all orders and repetitions in which they are collected, read after any prefix",
  "The store tests cover a dozen hand-picked orders of at most four or five spans; the number of shapes times orders is unbounded and re-rooting bugs need particular combinations (temporary root, orphan, late parent, second root).",
  ["store.go", "trace.go"], [("temporary root, reinsertion and reattachment of temporary children", "MemoryStore.collectNoLock / insert / reattachChildren")],
  ["MemoryStore.Collect, MemoryStore.Trace, MemoryStore.Traces"],
  [("trace trees", "tree per trace id", "store.go MemoryStore.trace"), ("span index", "span lookup per trace", "store.go MemoryStore.span")])

p("C02", "Annotations land intact, in order, on the right span only",
  "The annotations of a stored span are exactly the annotations of all Collect calls for that span, in call order, with keys and values byte for byte unchanged, including repeated keys, empty keys or values and arbitrary bytes. "
  "Collecting on one span never changes what is stored for any other span, even when callers share or reuse the annotation slice they pass to several calls, and this holds both directly on the in-memory store and through a ChunkedCollector in front of it.",
  ["histories", "inputs"], "all interleavings of Collect calls over spans and traces with arbitrary annotations, including argument slices that share a backing array",
  "Tests collect one or two short ASCII annotations per span and never reuse an argument slice, so slice aliasing, ordering across many calls and binary values are unexplored.",
  ["store.go", "collector.go", "span.go"], [("append to the stored annotations", "MemoryStore.collectNoLock"), ("append to pending annotations", "ChunkedCollector.Collect")],
  ["MemoryStore.Trace"])

p("C03", "Traces are isolated; lookup, listing and deletion are exact",
  "Trace(id) returns the trace collected under that id and ErrTraceNotFound for ids never collected or since deleted; Traces lists each existing trace exactly once, and with a non-empty TraceIDs option exactly those existing traces whose id is listed. "
  "Delete removes precisely the named traces (unknown ids are harmless), and collecting a deleted id again starts a new trace without old spans. "
  "Span ids equal across traces never mix data of different traces.",
  ["histories", "inputs"], "all sequences of collect, delete, lookup and list operations over several traces, with span ids shared between traces",
  "Existing tests delete one trace once and never list with options or reuse span ids across traces.",
  ["store.go"], [("two-level maps keyed by trace and span", "MemoryStore"), ("Delete/Traces/Trace", "store.go")],
  ["MemoryStore.Trace, Traces, Delete"])

p("C04", "Concurrent use of the store is race free and reads are snapshots",
  "Any number of goroutines may call Collect, Trace, Traces, Delete and Write on a store at the same time without data races, and afterwards the store holds exactly what the calls add up to. "
  "A trace returned by Trace or Traces is a stable snapshot: it is a well-formed tree of spans and annotations all collected before the read returned, including everything whose Collect had returned before the read began, and later store operations never change it.",
  ["schedules", "histories"], "all interleavings of concurrent collectors, readers, deleters and persisters",
  "No existing test reads a store while it is being written; the data race needs a reader that looks at the returned trace after the lock is released.",
  ["store.go"], [("store mutex", "MemoryStore.Mutex"), ("returned traces", "MemoryStore.Trace / Traces")],
  ["MemoryStore.Collect/Trace/Traces/Delete/Write from several goroutines"])

p("C05", "Persisting and reloading a store loses nothing, now or later",
  "Reading back what a store wrote gives a store with the same traces (same tree shape, ids and annotations) and the right trace count, and continuing to collect, delete and persist after the reload behaves exactly as if the store had never been reloaded; what the loading store held before is gone. "
  "A truncated or unreadable stream is rejected with an error and leaves the loading store's contents unchanged, and a failing writer is reported as an error.",
  ["histories", "fault_sequences", "crash_points"], "all store contents, all operation sequences continuing after any number of reloads, all truncation points of the stream, all points at which the writer fails",
  "The one persistence test writes and reads a tiny store once and never collects into the reloaded store.",
  ["store.go"], [("gob encoding of trees and span index", "MemoryStore.Write / ReadFrom")],
  ["MemoryStore.Write, ReadFrom, then Collect and Trace"])

p("C06", "The persisted file is always one complete snapshot",
  "While PersistEvery runs, and wherever it is interrupted or a step of it fails, the target file is either as it was before or a complete snapshot that the store wrote at one moment, never a partial or mixed one. "
  "One snapshot is produced per interval for as long as it runs, so the file reflects the store's state at most one interval ago. When the store fails to write or the file cannot be replaced, PersistEvery returns that error, the previous file survives, and no other file is left behind.",
  ["crash_points", "fault_sequences", "histories"], "every write boundary inside a snapshot as an interruption point, every failing step, all store histories between snapshots",
  "PersistEvery has no test at all; crash points inside a snapshot cannot be sampled by hand.",
  ["store.go"], [("temporary file plus rename", "PersistEvery")], ["contents of the target file at every write of the store"])

p("C07", "A limited store holds exactly the newest traces up to its capacity",
  "After any sequence of collections through a LimitStore of capacity Max, the underlying store holds exactly the most recently first-seen traces, at most Max of them: when a new trace arrives at capacity the trace first seen longest ago, and only that one, is deleted, while further spans for a held trace are stored without evicting anything. "
  "Held traces are complete since they were (re)admitted, an error from the underlying store is returned (and the limit still holds afterwards, even if the failing operation took effect), and a capacity of zero stores nothing.",
  ["histories", "configurations"], "all sequences of span collections over any trace ids (including 0 and ids above 2^63) for every capacity, with concurrent collectors",
  "The test fills one small store with sequential ids once; wrap-around, returning ids, id 0 and long histories are not reached.",
  ["store.go"], [("ring of trace ids and membership set", "LimitStore.Collect")], ["underlying store's Trace/Traces after each Collect"])

p("C08", "Age-based eviction removes old traces only, and removes them all",
  "A RecentStore never deletes a trace younger than MinEvictAge, counted from when it was first collected or collected again after an eviction. "
  "Every trace older than MinEvictAge is deleted by an eviction pass, passes being triggered by collections and at most MinEvictAge apart while collections keep arriving, so no trace stays beyond the reach of eviction however collections and evictions interleave.",
  ["histories", "configurations"], "all sequences of collections and waits of any length on a controlled clock, for every MinEvictAge",
  "The single test uses real sleeps with two traces; the bookkeeping bug needs a trace that is collected again in the same call that evicts it.",
  ["store.go"], [("first-seen times and asynchronous Delete", "RecentStore.Collect / evictBefore")], ["calls to the underlying store's Delete and Collect under a virtual clock"])

p("C09", "Combined stores and queryers act as the union of their members",
  "MultiStore forwards every collection unchanged to each member in order, stopping with the error of the first member that fails; Trace answers from the first member that has the trace, passes on an error other than ErrTraceNotFound, and returns ErrTraceNotFound when no member has it. "
  "MultiQueryer returns the union of its members' traces for the options it was given, each trace id once, from the first member that has it, or the first error.",
  ["configurations", "histories", "fault_sequences"], "all numbers of members, all distributions of traces over members, all positions of failing members and all options",
  "multi.go has no tests.",
  ["multi.go"], [("sequential delegation", "multiStore, multiQueryer")], ["MultiStore(...), MultiQueryer(...)"])

p("C10", "The chunked collector delivers everything exactly once, grouped by span",
  "Without drops or a stop, each annotation accepted by ChunkedCollector.Collect reaches the underlying collector exactly once, in the order it was collected on its span, and each flush makes exactly one underlying call per distinct span id collected since the previous flush, including spans with no annotations. "
  "Everything accepted is delivered by the next Flush, and by itself within MinInterval of being collected (plus the time flushing takes). This holds for concurrent collectors and flushes.",
  ["histories", "schedules", "configurations"], "all sequences and interleavings of collect, flush and elapsed time over spans, with a virtual clock",
  "Tests check one span with two collections and wall-clock sleeps; grouping, order, concurrency and timing are not explored.",
  ["collector.go"], [("pending map swapped under lock", "ChunkedCollector.Collect / Flush / start")], ["calls made to the underlying Collector"])

p("C11", "Bounded queueing: drops, errors and stop are always reported",
  "The pending queue never exceeds MaxQueueSize bytes (0 means unlimited): a collection that would exceed it returns ErrQueueDropped and drops the whole queue, nothing is dropped otherwise, and collecting works normally afterwards. "
  "A flush that overruns FlushTimeout gives up the rest of its batch and reports ErrQueueDropped; underlying errors are returned by Flush, and errors of automatic flushes by a later Collect, without losing other spans' data. "
  "After Stop, Collect fails and nothing more is sent automatically; Stop is safe at any time, also before the first collection and more than once.",
  ["histories", "fault_sequences", "configurations"], "all sequences of collections of any size, slow or failing underlying collectors, flushes and stops on a virtual clock",
  "The existing tests probe one overflow and one timeout with fixed sizes and real time.",
  ["collector.go"], [("queue size accounting", "ChunkedCollector.Collect"), ("timeout and error aggregation", "ChunkedCollector.Flush"), ("stop", "ChunkedCollector.Stop")], ["return values and underlying calls"])

p("C12", "What a remote collector sends is what the server's collector gets",
  "Every span id and annotation passed to RemoteCollector.Collect over a working TCP or TLS connection reaches the collector behind CollectorServer exactly once, unchanged (any 64-bit ids, any key, any value bytes, any count, up to the 1 MB message limit) and in order per client. "
  "This holds however the byte stream is split into segments, for several clients and concurrent callers at once, and with debug or trace logging switched on.",
  ["inputs", "schedules", "configurations"], "all messages up to the size limit, all stream fragmentations, all client counts and interleavings, TCP and TLS, all logging settings",
  "Tests send one or two tiny messages over a whole connection.",
  ["collector.go", "span.go", "internal/wire/collector.pb.go"], [("delimited protobuf framing", "RemoteCollector.collect / CollectorServer.handleConn"), ("wire conversion", "SpanID.wire, spanIDFromWire, Annotations.wire, annotationsFromWire")], ["collector passed to NewServer"])

p("C13", "The server survives any bytes and interoperates with other clients",
  "No byte sequence sent by a client makes the collector server crash, invent or alter data: all well-formed messages before the first malformed byte are collected, nothing after it is, and that connection ends. "
  "Other clients' connections, past and future, are unaffected. Messages from other encoders of the documented protocol are understood the same way: an absent parent means a root span, and unknown fields and field order do not matter.",
  ["inputs", "fault_sequences"], "all byte streams: valid messages in any encoding, corrupted, truncated, oversized or random data, on several connections",
  "No test sends anything but output of the Go client.",
  ["collector.go", "span.go", "internal/wire/collector.pb.go"], [("handleConn read loop", "CollectorServer.handleConn"), ("wire conversion", "spanIDFromWire / annotationsFromWire")], ["collector passed to NewServer; process liveness"])

p("C14", "Reconnection after connection loss: ordered, no duplicates, recovers",
  "When connections to the server break, are refused or are closed at any point, RemoteCollector reports unreachable servers as errors instead of crashing or hanging, and resumes delivery on a new connection once the server is reachable again. A collection that finds its connection broken is tried once more on a new one before it is reported as failed. "
  "Over all connections the server receives messages intact, in send order and at most once each, and every message sent on a connection that stays up is received.",
  ["fault_sequences", "histories"], "all sequences of sends with the server closing, resetting, refusing and returning at any point, and of Close by the client",
  "One test reconnects once after a clean close.",
  ["collector.go"], [("retry once on a fresh connection", "RemoteCollector.collectAndRetry / connect / Close")], ["bytes received by a harness-owned server; return values"])

p("C15", "A recorder delivers its events once, on its span, and reports errors",
  "Events recorded on a Recorder reach its collector in recording order, on the recorder's span, in exactly one Collect call made by Finish, and not before; annotations recorded directly are collected immediately. "
  "A second Finish delivers nothing twice and is reported. Each error (failed marshaling, failed collection, double Finish) is handed out exactly once, by Errors or the Logger, and a child recorder records on a fresh child span with the same collector.",
  ["histories", "fault_sequences"], "all sequences of record, finish, child and error-drain operations with failing events and collectors",
  "Tests record one or two events with one failing collector call.",
  ["recorder.go"], [("buffered annotations, finish flag", "Recorder.Event / Finish"), ("error list", "Recorder.error / Errors")], ["collector calls, Recorder.Errors, Logger output"])

p("C16", "Events survive the trip through annotations unchanged",
  "For every event value of a registered event type (span name, message, log, timespan, SQL, HTTP client/server) and of user-defined event structs built from booleans, integers, floats, strings, times, durations, nested structs, pointers, string-keyed maps, slices and arrays of scalars, marshaling to annotations and unmarshaling gives an equal event (times as instants, durations to the nanosecond below 2^51 ns, nil and empty collections alike). "
  "Unset (nil or empty) fields never disturb the other fields.",
  ["inputs"], "all field values of all supported kinds, including extremes, empty and nil values, and arbitrary strings",
  "Table tests use a handful of small values; float precision, duration rounding, nil pointers and empty collections are missed.",
  ["reflect.go", "event.go", "httptrace/client.go", "httptrace/server.go", "sqltrace/sql.go"], [("flattenValue / unflattenValue / parseValue", "reflect.go"), ("MarshalEvent / UnmarshalEvent", "event.go")], ["MarshalEvent, UnmarshalEvent"])

p("C17", "Unmarshaling never panics and is not confused by other annotations",
  "UnmarshalEvents on any annotations at all returns without panicking and with bounded work, ignores schemas that are not registered, and yields one event per registered schema entry. "
  "Several events of different types with distinct keys on one span, mixed with arbitrary foreign annotations in any order, are each recovered exactly; unmarshaling into an event whose schema is absent gives an EventSchemaUnmarshalError and leaves the event untouched.",
  ["inputs"], "all annotation lists: arbitrary keys and values, keys related to event fields by prefix or index, any mix of event types (foreign annotations not under the very keys of an event's own fields)",
  "Tests only unmarshal what MarshalEvent just produced.",
  ["event.go", "reflect.go", "span.go"], [("schema annotations", "Annotations.schemas"), ("unflattenValue cursor", "reflect.go")], ["UnmarshalEvents, UnmarshalEvent"])

p("C18", "IDs and span IDs round trip through text and JSON; bad input is rejected",
  "Every 64-bit ID prints as 16 lower-case hex digits and parses back to itself from text and from JSON (as hex string or integer), and every SpanID parses back to itself from its string and JSON forms, the parent being left out exactly when it is zero. "
  "Text or JSON that is not of that form is rejected with an error without panicking, and what is accepted denotes exactly the hexadecimal numbers it contains.",
  ["inputs"], "all ids and span ids, and all strings and JSON values",
  "Tests try a few literals.",
  ["id.go", "span.go"], [("String/ParseID/MarshalJSON/UnmarshalJSON", "id.go"), ("SpanID.String / ParseSpanID / Format", "span.go")], ["exported functions"])

p("C19", "Generated IDs are unique and children link to their parents",
  "Span and trace ids generated in one process by any number of goroutines never repeat (beyond random 64-bit chance) and look uniformly random in every byte; NewRootSpanID gives a root, and NewSpanID gives a span in the parent's trace whose parent is the parent's span.",
  ["schedules", "inputs"], "any number of ids generated by any number of goroutines, any parent",
  "The test generates a handful of ids sequentially.",
  ["id.go", "span.go"], [("AES-CTR keystream under a mutex", "generateID")], ["NewRootSpanID, NewSpanID"])

p("C20", "A trace answers questions about itself correctly",
  "For any trace, TimespanEvent returns the earliest start and latest end over all its own timespan events whatever their order and type, or an error when it has none (a start or end that was never set counts for nothing, and without any start there is an error); FindSpan returns the sub-tree of a span present anywhere in the trace and nil otherwise; Name is the value of the first name annotation. "
  "TreeString shows every span and annotation once at its depth, and String is JSON that decodes back to the same trace.",
  ["inputs"], "all trace trees with any mix of event types and timestamps (1678 to 2262), UTF-8 annotation keys where JSON is concerned",
  "Tests use one or two fixed traces and never mix event types.",
  ["trace.go", "span.go"], [("findTraceTimes", "trace.go"), ("FindSpan, TreeString, String", "trace.go")], ["Trace methods"])

p("C21", "Span identity propagates correctly through HTTP headers",
  "A span id set with SetSpanIDHeader is read back identically by GetSpanID; with only a parent header GetSpanID gives a new child of that span; with neither a new root span; an own-span header takes precedence over a parent header. "
  "Unparseable header values give an error and never a wrong span.",
  ["inputs"], "all span ids and all header contents, including repeated, empty, differently-cased and malformed headers",
  "Tests cover five fixed header combinations.",
  ["httptrace/header.go", "span.go"], [("getSpanID", "httptrace/header.go")], ["httptrace.GetSpanID, SetSpanIDHeader"])

p("C22", "HTTP middleware is transparent and records what really happened",
  "Behind the middleware a handler sees the same request and the client gets the same status, headers and body as without it, for every request (also with malformed tracing headers) and every way a handler may write its response. "
  "Exactly one HTTPServer event is recorded per handled request, on the span given by (or derived from) the request headers and made available to the handler, with the request's actual method, URI, host, headers and so on, the status and number of body bytes actually sent, the configured route and user (the span is named after the route or, without one, the path), and receive time not after send time.",
  ["inputs", "histories", "configurations"], "all requests and tracing headers, all handler write sequences (explicit, implicit, repeated and informational status codes, flushes), all middleware configurations",
  "Tests run four fixed GET requests with a single write.",
  ["httptrace/server.go", "httptrace/client.go", "httptrace/header.go"], [("Middleware", "httptrace/server.go"), ("responseInfoRecorder", "httptrace/server.go")], ["response as seen by a client; events in the collector"])

p("C23", "Redacted headers never reach the trace data",
  "The values of header fields named in RedactedHeaders, however their names are cased and wherever they occur (request or response header or trailer, client or server side, repeated values), never appear in any annotation sent to the collector, which shows REDACTED instead. "
  "All other header fields are recorded with all their values, and recording does not modify the request's or response's own headers.",
  ["inputs", "configurations"], "all header and trailer maps, all redaction lists, client and server side",
  "The test redacts one canonical Authorization header.",
  ["httptrace/client.go", "httptrace/server.go"], [("redactHeaders / isRedacted", "httptrace/client.go")], ["annotations of HTTPClient/HTTPServer events"])

p("C24", "The tracing transport forwards faithfully and records each round trip",
  "Transport.RoundTrip passes the caller's request to the underlying transport unchanged except for a Span-ID header naming a fresh child of the current span, returns that transport's response or error unchanged, and never modifies the caller's request. "
  "Each round trip, successful or failed and also when many run concurrently, records exactly one HTTPClient event on a fresh child of the current span, with the actual request, the response status (-1 on error), headers and length, and send time not after receive time; cancelling through it reaches the forwarded request.",
  ["inputs", "schedules", "fault_sequences"], "all requests, responses and transport errors, sequential and concurrent round trips",
  "Tests do one successful round trip at a time.",
  ["httptrace/client.go"], [("RoundTrip, cloneRequest, request table", "httptrace/client.go")], ["stub RoundTripper; collector"])

p("C25", "A distributed request becomes one trace with the true call tree",
  "When services instrumented with the HTTP middleware and transport call each other in any fan-out and depth, with recorders, chunked or remote collectors and a collector server in between, the store ends up with one trace per outer request that contains a server span for every service invocation, whose parent is the server span of its caller, and a client span for every call made, beneath the caller's span. "
  "Traces of concurrent outer requests never mix.",
  ["histories", "schedules", "configurations"], "all call trees over services, all delivery paths to the store, concurrent outer requests",
  "No test crosses more than one process boundary or combines client, server and store.",
  ["httptrace/client.go", "httptrace/server.go", "recorder.go", "collector.go", "store.go"], [("Span-ID header propagation", "httptrace"), ("tree assembly", "MemoryStore")], ["MemoryStore.Traces at the end of the run"])

p("C26", "OpenTracing spans are recorded completely, or not at all if unsampled",
  "Every finished sampled OpenTracing span is collected under its own trace, span and parent ids with its operation name, every tag, every baggage item, every log (all fields) and a timespan from its start for its duration; unsampled spans record nothing, and the sampling decision is made once per trace (in favour, if no sampling function is given) and inherited by all its spans, also across processes. "
  "Failures of the collector never reach the application and are logged (once unless verbose) without stopping later spans.",
  ["inputs", "histories", "fault_sequences", "configurations"], "all span trees, tags, baggage, logs of every field type (at most 100 logs per span, distinct UTF-8 keys per log), sampling functions and failing collectors",
  "The test records one fixed raw span.",
  ["opentracing/recorder.go", "opentracing/tracer.go", "opentracing/json.go"], [("RecordSpan", "opentracing/recorder.go"), ("materializeWithJSON", "opentracing/json.go")], ["annotations received by the collector"])

p("C27", "Profiles and timelines add up",
  "For every trace the profile lists each span once, in tree order from the top, named by its name or else its id, with the time of its longest timespan in rounded milliseconds (timespans lacking a start or an end count for nothing), the sum with its direct children's times, and the sum over its whole sub-tree. "
  "If every span of the shown tree has a name, the timeline has exactly one item for each span that has a timespan, with its name, identity, parent, annotations, durations and start and end in milliseconds since the epoch (sub-spans: one range from the earliest start to the latest end); otherwise there is no timeline.",
  ["inputs"], "all trace trees (without parent loops) with any events and times between 1678 and 2262 and durations below 292 years",
  "traceapp has no tests and is not even compiled by the existing build.",
  ["traceapp/prof.go", "traceapp/vis.go", "traceapp/app.go"], [("calcProfile", "traceapp/prof.go"), ("d3timelineInner", "traceapp/vis.go")], ["GET /traces/{trace}/profile and the timeline data on the trace page"])

p("C28", "Exported, uploaded and permalinked traces reproduce the original",
  "The JSON trace and the permalink offered on a trace page, given to another (or the same, emptied) instance by upload or by visiting the link, recreate the same trace there: same spans and ids, annotations byte for byte, and the same tree wherever it is determined by the parent ids (which of several parentless spans is the top is not). "
  "Uploading a trace whose id already exists leaves the stored trace unchanged, malformed uploads or permalinks are answered with an error and store nothing, and uploads and permalinks whose traces the store failed to look up or to store are not answered as successful.",
  ["inputs", "histories", "fault_sequences"], "all trace trees with arbitrary annotation values and UTF-8 keys, all malformed payloads, all failing calls of the store",
  "traceapp has no tests.",
  ["traceapp/app.go", "traceapp/trace.go", "id.go", "trace.go"], [("serveTrace permalink coding, uploadTraces, collectTrace", "traceapp")], ["HTTP responses and the target store"])

p("C29", "Web pages render for any stored data and cannot be injected into",
  "Every page of the web UI answers for any stored traces and any request without a panic: existing traces and spans with status 200 showing their spans and annotations, unknown or malformed ids and parameters with an error status (as may traces whose recorded events cannot be decoded). "
  "Names, keys and values recorded in traces appear only as escaped text or data: no recorded string can add or close markup, scripts or attributes of a document the server sends.",
  ["inputs"], "all stored traces with arbitrary strings, all request paths and query parameters",
  "traceapp has no tests.",
  ["traceapp/app.go", "traceapp/tmpl.go", "traceapp/handler.go", "traceapp/vis.go"], [("html/template contextual escaping", "traceapp/tmpl"), ("recover in handlerFunc", "traceapp/handler.go")], ["HTTP responses"])

p("C30", "Aggregation sums per label over exactly the selected traces",
  "The aggregate view shows, for the selected traces (or all when none are selected), one item per label whose value is the sum over the traces of their whole-tree times (trace mode), or over their spans below the top of the spans' own times, labelled by span or by trace and span (at least 1 ms), each selected trace counted once, with nothing missing, double-counted or invented. "
  "Malformed selections give an error.",
  ["inputs", "configurations"], "all sets of traces, all selections and the three view modes",
  "traceapp has no tests.",
  ["traceapp/aggregate.go", "traceapp/app.go", "traceapp/prof.go"], [("aggregate", "traceapp/aggregate.go")], ["aggregated data embedded in GET /aggregate"])

p("C31", "Links, trace lists and dashboard data resolve to what they name",
  "Every link the web UI produces for a trace, span, profile, trace list, dashboard or static file routes back to a page about exactly that trace and span (or to that list or file), also when the UI is served below a base path (by the user's router, or by a proxy in front of it); the trace list shows exactly the stored traces, or with a show parameter exactly those named in it (none if it names no stored trace). "
  "Dashboard data passes the requested time range to the aggregator (hours, offset by 72) and returns one row per result with its times in milliseconds, sample count and a link showing exactly its slowest traces; errors are reported as errors.",
  ["inputs", "configurations"], "all ids and stores, all show, start and end parameters, all aggregator results",
  "traceapp has no tests.",
  ["traceapp/router.go", "traceapp/dashboard.go", "traceapp/app.go"], [("URLTo*", "traceapp/router.go"), ("serveDashboardData", "traceapp/dashboard.go"), ("serveTraces", "traceapp/app.go")], ["HTTP responses; arguments seen by the Aggregator"])

p("C32", "With basic auth configured, only the exact credentials get in",
  "When the serve command is given user:passwd, every request to any URL of the web app without exactly these credentials is answered 401 with a Basic challenge and never reaches the app or its data, and every request with them is served as without auth; passwords containing colons or arbitrary bytes work. "
  "Credentials with an empty user or password, or without a separator, are refused at start-up.",
  ["inputs", "configurations"], "all configured credentials, all Authorization headers and URLs",
  "cmd/appdash has no tests and is not compiled by the existing build.",
  ["cmd/appdash/serve_cmd.go"], [("basicAuthHandler", "cmd/appdash/serve_cmd.go")], ["HTTP status of the running server"])

p("C33", "A served instance keeps persisted traces across crashes and restarts",
  "An appdash server that collects over TCP and persists to a store file shows every collected span in its web UI, and after being killed at any moment and restarted on the same file it starts up and shows at least every span collected before the last completed persist interval, never corrupted or invented data, and keeps collecting into old and new traces. "
  "When the store file is torn or cannot be read, the server refuses to start, with a non-zero status, and leaves the file as it is.",
  ["crash_points", "histories", "inputs"], "all collection histories with kills at any moment, repeated over several restarts, and all torn store files",
  "cmd/appdash has no tests; crash points need a real process to be killed.",
  ["cmd/appdash/serve_cmd.go", "store.go", "collector.go"], [("ReadFrom at start, PersistEvery in background", "ServeCmd.Execute")], ["trace pages of the running server before and after kills"])

p("C34", "The Python client emits the same protocol as the Go client",
  "The Python client library produces, for every span id and annotations, packets that the Go collector server decodes to the same span id and annotations.",
  ["inputs"], "all span ids and annotations",
  "The Python client has no tests.",
  ["python/appdash/collector.py", "python/appdash/spanid.py"], [("RemoteCollector", "python/appdash")], ["bytes on the wire"])

p("C35", "A served instance forgets old traces and only those",
  "An appdash server started with --delete-after keeps showing a trace at least until that time has passed since its first span was collected or uploaded (adding spans does not prolong it) and, once spans are collected after twice that time, shows no span of it anymore, on any page and after any restart; "
  "this includes traces restored from the store file, whose age may count from the restart. A deleted trace id can be collected and uploaded again and then shows only the new spans. With --delete-after 0 no trace is ever deleted.",
  ["histories", "schedules"], "all histories of collecting, uploading, waiting and restarting over several traces, and all ages",
  "cmd/appdash has no tests, and the store's own tests know neither restarts nor real time.",
  ["cmd/appdash/serve_cmd.go", "store.go"], [("RecentStore in front of the store, told of the restored traces", "ServeCmd.Execute"), ("eviction", "RecentStore.Collect / evictBefore")], ["trace list and trace pages of the running server"])

p("C36", "appdash send delivers the sample data or reports failure",
  "When 'appdash send' ends with success, all of its 60 traces (each a root and a chain of child spans, with a name and one SQL event per span) have been handed to the collector, over TCP or TLS; "
  "when the collector cannot be reached, goes away for good before everything was sent, does not speak TLS although it was asked for, presents a certificate that is not trusted, expired or not for the server name, or when the protocol is unknown, the command ends in time with a non-zero status and delivers nothing to a collector that is not the one asked for. "
  "'appdash serve --sample-data' shows the same 60 traces.",
  ["crash_points", "inputs"], "all points at which a collector may go away, and all kinds of collectors",
  "cmd/appdash has no tests.",
  ["cmd/appdash/send_cmd.go", "cmd/appdash/sample_data.go", "collector.go"], [("errors of the recorders", "sampleData"), ("connection and TLS settings", "SendCmd.Execute")], ["exit status, spans received by a collector"])

p("C37", "The demo shows every page's own trace",
  "Every request to the web app of 'appdash demo', in any order and simultaneously with others, is recorded exactly once in the trace that its page links to (the one its span headers name, otherwise a trace of its own), with its path, method, status, length and time; a page with API calls has exactly its three calls, in order and within its own time, each with its served request beneath it, and nothing else is recorded. "
  "The link leads to that trace in the demo's Appdash UI, whatever addresses the two listen on.",
  ["histories", "schedules", "inputs"], "all sequences of groups of simultaneous requests with and without span headers",
  "cmd/appdash has no tests; no test runs middleware, transport, remote collector, server, store and web app together.",
  ["cmd/appdash/example_app.go", "httptrace/server.go", "httptrace/client.go", "collector.go", "store.go", "traceapp/app.go"], [("the demo's handlers", "demoApp.ServeHTTP"), ("how the parts are connected", "DemoCmd.Execute")], ["pages of the demo, traces of its Appdash UI"])

p("C38", "With a certificate, a served instance talks TLS only",
  "Given --tls-cert and --tls-key, 'appdash serve' presents that certificate for both the web app and the collector: web pages and spans of clients that verify it are served and stored, while over plain connections no page or trace is given away and no span is stored; without them it serves plain connections, and no TLS client takes it for a TLS server. "
  "A configuration with only one of the two, or with files that are unreadable, invalid or do not belong together, ends the command with an error and nobody is served. Clients that send junk, break off or hold connections open (even in the middle of a handshake) do not keep others from being served.",
  ["configurations", "inputs", "histories"], "all kinds of certificates and broken certificate files, all sequences of clients of either protocol",
  "cmd/appdash has no tests and nothing tests a TLS server.",
  ["cmd/appdash/serve_cmd.go", "collector.go"], [("choice of listeners", "ServeCmd.Execute"), ("one goroutine per connection", "CollectorServer.Start, handleConn")], ["connections to both ports, exit status, traces shown by the web app"])

p("C39", "The pages of a served instance lead back to it", 
  "Whatever address 'appdash serve' listens on (no host, a name, an IPv4 or IPv6 address), with TLS or without, and with or without basic auth: without --url, every link, static file and base URL in its pages names this instance, so that following it gives the page or file; with --url all of them are beneath that URL, and following them at a proxy that maps that URL to the instance gives the page or file.",
  ["configurations", "inputs"], "all forms of listen addresses, certificates, --url values and stored traces",
  "cmd/appdash has no tests and is not compiled by the existing build.",
  ["cmd/appdash/serve_cmd.go", "traceapp/app.go", "traceapp/tmpl.go"], [("URL of the instance", "ServeCmd.urlOrDefault"), ("base URL of pages", "traceapp.New")], ["pages of the running instance and what their links lead to"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
