#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

prop("C01", "Single RPC: executed at most once, caller gets its own execution's answer",
     "Each single-response call is executed by at most one server and at most once, with exactly the request message its caller sent, however many calls, clients and servers run concurrently and however messages are delayed or lost. A call that succeeds returns exactly the message produced by the execution of that very request; a call that fails returns a non-nil error and no response. When a registered server is available and no message is lost or late, the call is executed exactly once and its outcome reaches the caller.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all interleavings of concurrent calls from several clients to several servers, per-message delays and losses on every channel, claim-based, queue and single-server methods, with and without topics, on the local, NATS and Redis buses",
     "The tests make a handful of calls with one or two servers on an idle local bus; they never compare executions with replies under concurrency, delay or loss.",
     ["pkg/client/rpc.go", "pkg/client/client.go", "pkg/server/rpc.go"],
     [("request ids correlate requests, claims and responses", "pkg/client/rpc.go newRPC"),
      ("claim handshake elects one server", "pkg/client/rpc.go selectServer, pkg/server/rpc.go claimRequest"),
      ("queue subscription elects one server", "pkg/server/rpc.go newRPCHandler")],
     ["handler invocations", "return values of client.RequestSingle"])

prop("C02", "Server selection obeys affinities and the caller's selection options",
     "For a claim-based call the server that runs the request is the one determined by the affinities that reach the caller and its selection options: a server below the minimum (or with a negative affinity) is never chosen, an affinity at or above a positive maximum - or any acceptable one when the caller accepts the first available - is chosen as soon as it arrives, and otherwise the highest (first on a tie), or the custom selection function's choice, wins at the selection deadline or a short-circuit delay after the first acceptable claim, whichever is first. If none qualifies by then the call fails as unavailable (or with the selection function's error) and no handler runs. The same rules pick the server of a stream.",
     ["inputs", "configurations", "schedules"],
     "all affinity assignments, claim arrival times relative to the deadlines, and selection options (minimum, maximum, first-available, deadline, short circuit, custom function)",
     "The existing tests check three fixed affinity layouts; the space of arrival times against two racing deadlines is untouched.",
     ["pkg/client/rpc.go", "pkg/client/options.go", "pkg/server/rpc.go", "pkg/server/stream.go", "client.go", "request.go"],
     [("selection loop", "pkg/client/rpc.go selectServer"), ("default options", "pkg/client/options.go getRequestOpts"),
      ("affinity functions", "pkg/server/rpc.go claimRequest, pkg/server/stream.go claimRequest")],
     ["which handler ran and when", "error of the call"])

prop("C03", "Multi RPC: one result per server, then the channel closes on time",
     "A multi-response call delivers to its caller exactly one result - that server's own response or error - for every server whose answer reaches the client before the call's timeout or its context ends (as long as the caller reads the channel or it has room), none lost, duplicated, altered or taken from another call. The result channel is then closed, once, at the timeout or when the context ends (whichever comes first), and nothing is delivered after that.",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "all numbers of servers, handler durations around the deadline, concurrent multi calls, client channel sizes, response losses and context cancellations",
     "Tests run one multi call against two immediate servers and never look at the deadline boundary, overlap of calls, errors mixed with results or the closing of the channel.",
     ["pkg/client/multi.go", "pkg/client/client.go", "pkg/server/rpc.go"],
     [("per-request response channel", "pkg/client/multi.go Send/handleResponses/Close")],
     ["values received from the result channel and its closing time"])

prop("C04", "Isolation: traffic reaches only its own service, method, topic and client",
     "A request, response, stream message or published update reaches only handlers and subscribers of exactly the same service, method and topic (every topic part, in order), and answers reach only the client that asked. Channel names are an injective function of these, whatever (valid, non-empty) Unicode text topic parts contain, so no two different destinations ever share one, on the local, Redis and NATS buses.",
     ["inputs", "histories", "configurations"],
     "all sets of services, methods, topic tuples (arbitrary Unicode parts, including separators, escape-like sequences and empty tuples) and client ids, with all kinds of traffic among them",
     "Tests pin the names of a few channels; two different names colliding, or a handler hearing a neighbour's topic, needs the right pair of names.",
     ["pkg/info/channels.go", "pkg/info/info.go", "internal/bus/bus_local.go", "internal/bus/bus_nats.go", "internal/bus/bus_redis.go", "pkg/client/client.go"],
     [("escaping of channel parts", "pkg/info/channels.go appendSanitizedChannelPart"),
      ("server/local channel split on NATS", "internal/bus/bus_nats.go natsRouter")],
     ["who receives each message", "channel names of info.RequestInfo"])

prop("C05", "Fan-out: every live subscriber gets every update exactly once, in order",
     "On every bus (local, NATS, Redis), each plain subscriber of a channel receives every message published to that channel while it is subscribed exactly once, unaltered, in the order one publisher published them, whatever other subscribers, channels, publishers and bus connections are active. Subscribing or closing one subscriber never makes another one miss, repeat or reorder messages.",
     ["histories", "schedules", "configurations"],
     "all sequences of subscribe, publish, drain and close over several channels, several bus instances and subscribers with small buffers",
     "Bus tests publish a handful of messages to fixed subscribers; the NATS and Redis ones need a docker daemon and do not run here at all.",
     ["internal/bus/bus_local.go", "internal/bus/bus_nats.go", "internal/bus/bus_redis.go", "internal/bus/subscription.go", "pkg/client/subscription.go"],
     [("dispatch to all", "internal/bus/bus_local.go dispatch, bus_redis.go dispatch, bus_nats.go natsRouter.write"),
      ("per-channel publish queues", "internal/bus/bus_redis.go redisPublishQueue")],
     ["messages read from subscriptions"])

prop("C06", "Queue subscriptions: exactly one live member handles each message",
     "On every bus (local, NATS, Redis), a message published to a channel with queue subscribers is received by exactly one of the queue subscribers live at that time - never by two, never by none - even when several messages carry identical content, members share a connection or span several, and members join and leave. (A message published while a member is leaving may be lost with that member.) A publisher's messages that go to the same member arrive there in publication order, and on one local bus the messages are spread round-robin over the members.",
     ["histories", "schedules", "configurations"],
     "all sequences of joining, leaving and publishing (equal and distinct payloads, equal and distinct channels) over several queue members on one or several bus instances",
     "Tests publish one or two distinct messages to two fixed members; equal payloads, membership changes and several members behind one connection are not reached (and the broker-backed ones do not run here).",
     ["internal/bus/bus_local.go", "internal/bus/bus_nats.go", "internal/bus/bus_redis.go", "internal/bus/serialization.go"],
     [("round robin", "internal/bus/bus_local.go dispatch, bus_redis.go dispatchQueue"),
      ("cross-process lock", "internal/bus/bus_redis.go redisSubscription.read"),
      ("queue group", "internal/bus/bus_nats.go QueueSubscribe")],
     ["messages read from queue subscriptions"])

prop("C07", "Subscriptions survive churn and broker faults, and end cleanly when closed",
     "After any sequence of subscribing, closing and re-subscribing, and once broker connection losses and failed commands are over, every live subscription again receives what is published, and the broker holds subscriptions for exactly the channels that have live subscribers. Closing a subscription ends it - nothing published afterwards is delivered and its channel closes once drained - without blocking, crashing, or disturbing publishers and other subscribers, even while messages are in flight or its buffer is full. What is asked for over a connection that has been closed for good (calls, sends, subscriptions, registrations) fails at once with an error and yields nothing else.",
     ["histories", "schedules", "fault_sequences"],
     "all interleavings of subscribe, close, publish with connection kills, refused dials and failing commands, with empty and full buffers",
     "Reconnection and reconciliation are not tested at all without a broker; closing is only tested on idle subscriptions.",
     ["internal/bus/bus_redis.go", "internal/bus/bus_nats.go", "internal/bus/bus_local.go", "internal/bus/subscription.go"],
     [("reconciliation of dirty channels", "internal/bus/bus_redis.go redisReconcileSubscriptionsOp"),
      ("read retry", "internal/bus/bus_redis.go readWorker"),
      ("router life cycle", "internal/bus/bus_nats.go subscribeRouter/unsubscribeRouter")],
     ["messages read after faults end", "subscriptions held at the broker", "closing of subscription channels"])

prop("C08", "Streams: an acknowledged message is delivered exactly once, in order",
     "On an open stream, in both directions and with any number of streams and senders at once, a send that returns nil means the peer's stream received exactly that message exactly once, and the messages one sender sends in sequence are received in that order; a message for which send reports an error is received at most once. Nothing is invented, altered or delivered to another stream, and a send never reports success for a message that a full receive buffer dropped.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all interleavings of concurrent senders on both ends of several streams over delayed and lossy channels, with small receive buffers and slow readers",
     "Stream tests exchange a few messages on one stream without loss, delay, concurrency or back-pressure.",
     ["internal/stream/stream.go", "pkg/client/stream.go", "pkg/server/stream.go", "pkg/client/client.go"],
     [("acknowledgement per message", "internal/stream/stream.go HandleStream/Ack/Send"),
      ("slow consumer drop", "internal/stream/stream.go Recv"),
      ("stream id routing", "pkg/client/client.go, pkg/server/stream.go")],
     ["messages read from stream channels", "results of Send"])

prop("C09", "Stream termination: both ends end once, with the first cause",
     "A stream ends exactly once on each end - by a close on either end, the client's context ending, the server handler returning (unless it keeps the stream), or either process closing - after which its context is done, its receive channel is closed once drained, later sends fail with the closing cause, and no later event changes that cause. The end that closes reports the cause it closed with and the other end, when the notice reaches it in time (it expires like any message), reports an error with the same code and message; messages acknowledged before the close remain readable, no operation on a stream blocks beyond its timeout, and closing never crashes.",
     ["schedules", "histories", "fault_sequences"],
     "all interleavings of closes from both ends, context cancellation, handler return, server shutdown and client close with sends and deliveries in flight",
     "Tests close an idle stream from one side; racing closes, sends blocked during a close and causes crossing on the wire are not explored.",
     ["internal/stream/stream.go", "pkg/client/stream.go", "pkg/server/stream.go"],
     [("closed flag and pending group", "internal/stream/stream.go setClosed/addPending/Close"),
      ("client watcher", "pkg/client/stream.go runClientStream"),
      ("handler return", "pkg/server/stream.go handleOpenRequest")],
     ["Err, Context and Channel of both ends", "results of Send and Close"])

prop("C10", "Errors cross the wire with their code, message and details intact",
     "Whatever error a handler returns - a psrpc error, one wrapped in other errors, a gRPC status error or a plain error, with any message (empty and non-text included) - the caller gets an error, never a success, whose code, message and details are those of the outermost psrpc error in the returned error's chain, or else those of its gRPC status (a plain error, and one without a code, arrives with the unknown code and its full text; bytes that are not valid UTF-8 are replaced). This holds for single calls, for each result of multi calls, and (code and message) for the close cause of a stream.",
     ["inputs", "configurations"],
     "all error values: every code, messages including empty, multi-line and non-UTF-8 text, any detail messages, any wrapping depth, for single, multi and stream methods",
     "Tests send two fixed errors; empty messages, arbitrary bytes, wrapping and details are sampled hardly or not at all.",
     ["pkg/server/rpc.go", "pkg/client/rpc.go", "pkg/client/multi.go", "internal/stream/stream.go", "errors.go"],
     [("error encoding", "pkg/server/rpc.go sendResponse, internal/stream/stream.go Close"),
      ("error decoding", "errors.go NewErrorFromResponse")],
     ["error returned by calls, stream Err"])

prop("C11", "Error projections to HTTP, gRPC, Twirp and errors.Is/As are coherent",
     "Every psrpc error keeps its code, message, cause and details through construction, wrapping and unwrapping: the wrapped cause and the code are found by errors.Is/As, the code of any error (psrpc, gRPC or plain, however wrapped) is recovered as documented, and its HTTP, gRPC and Twirp forms carry the message and the documented status for its code. Converting a gRPC code to a psrpc code and back is the identity, only OK maps to a success, and an unknown code is treated as an unknown server-side error in all of them.",
     ["inputs"],
     "all codes (defined and arbitrary), messages, details and wrapping chains",
     "Tests convert a couple of codes; a wrong row of the table, or wrapping that hides a cause, is only seen by going over all of them.",
     ["errors.go"],
     [("conversion tables", "errors.go ToHTTP/ToGRPC/ToTwirp/ErrorCodeFromGRPC"), ("unwrapping", "errors.go psrpcError")],
     ["results of the conversions"])

prop("C12", "Metadata and headers arrive exactly as last set, isolated per call",
     "The outgoing metadata of a context is what the sequence of set, merge and append operations on it says - the latest write of a key wins, contexts derived from a common parent never influence each other or the parent, and maps passed in or handed out can be changed without effect on the context. Handlers of calls and streams see exactly the caller's metadata at the time of the call together with the caller's client id and send time, and none of it leaks to other calls.",
     ["inputs", "histories", "schedules"],
     "all operation sequences on a tree of contexts and all concurrent calls and streams with differing metadata",
     "There is no test of metadata at all beyond its use in the tracing middleware's happy path.",
     ["pkg/metadata/metadata.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
     [("context metadata", "pkg/metadata/metadata.go"), ("header of requests", "pkg/server/rpc.go handleRequest, pkg/server/stream.go handleOpenRequest")],
     ["metadata.OutgoingContextMetadata", "metadata.IncomingHeader in handlers"])

prop("C13", "Deadlines and cancellation bound every call and travel to the handler",
     "A call (single, multi, stream open or stream send) returns no later than its effective timeout - the request's, else the client's, capped by the context's deadline; with neither, the context's deadline, and without that the default - and as soon as its context is cancelled; it then reports deadline exceeded respectively canceled (or unavailable while no server has been chosen, and the stream's cause for a send its stream's end cuts short). The handler's context carries a deadline not later than the caller's and is done once that passes, and a request that arrives at a server after its deadline is not executed.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all combinations of client, request and context deadlines, cancellation times, handler durations and message delays",
     "Tests use one timeout against an absent server; the precedence of three deadlines, cancellation at every phase and late arrival are not covered.",
     ["pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/client/options.go", "pkg/server/rpc.go", "pkg/server/stream.go", "internal/stream/stream.go"],
     [("timeout precedence", "pkg/client/options.go getRequestOpts"), ("expiry", "pkg/client/rpc.go newRPC, pkg/server/rpc.go run/handleRequest")],
     ["return time and error of calls", "handler context deadline"])

prop("C14", "Server shutdown drains accepted work; kill is immediate; both are final",
     "A graceful shutdown returns only after every execution in progress of a still registered request handler, and every request the server had already received for one, has finished and its response has been sent, while it accepts no new requests; a kill returns without waiting for handlers, even when a graceful shutdown is in progress. After either, the server runs no further request or stream, registration fails as server closed, all its streams are ended and all its subscriptions are closed; calling either again, or concurrently with registration and deregistration, never hangs, crashes or leaves a handler behind.",
     ["schedules", "histories"],
     "all interleavings of shutdown, kill, register, deregister, incoming requests and stream opens with handlers in every phase",
     "Tests close idle servers; requests and streams in flight at the moment of shutdown and racing registrations are not exercised.",
     ["pkg/server/server.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
     [("in-flight accounting", "pkg/server/rpc.go handling/close"), ("stream draining", "pkg/server/stream.go close"), ("shutdown fuse", "pkg/server/server.go Close")],
     ["handler executions and responses relative to the return of Close"])

prop("C15", "Closing a client fails new work at once and releases everything it held",
     "After a client is closed, every new call, multi call, stream open and subscription through it fails at once as client closed, without sending anything; its open streams end, its bus subscriptions are closed, and its background work stops. Closing is idempotent, never blocks, is safe at any moment concurrently with any operation, and every call in flight still returns by its own timeout.",
     ["schedules", "histories"],
     "all interleavings of close with calls, multi calls, stream opens, sends and subscriptions in every phase",
     "Tests close clients only at the end of a test and check one method afterwards.",
     ["pkg/client/client.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/client/subscription.go"],
     [("closed fuse", "pkg/client/client.go Close and main loop")],
     ["errors after close", "live bus subscriptions and goroutines after close"])

prop("C16", "Interceptors and hooks wrap every call in registration order",
     "Interceptors of each kind (server, single, multi, stream; client-wide first, then per-request ones) wrap a call in the order they were added, the first outermost, each exactly once per call and with the call's own service, method, topic and multi flag; what one passes on - context, request message, options, response, error - is what the next one, and finally the handler or caller, gets, and one that does not continue the chain short-circuits it. Request hooks run before a call is sent, and response hooks once per response or failure, with the values the caller gets (for multi calls, each response as it arrived).",
     ["inputs", "configurations", "histories"],
     "all lists of interceptors and hooks with all combinations of observing, replacing, short-circuiting, repeating and failing behaviours, for all kinds of methods",
     "The interceptor tests check the order of a fixed chain with pass-through interceptors.",
     ["internal/interceptors/interceptor.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/client/options.go", "pkg/server/rpc.go", "pkg/server/options.go", "internal/stream/stream.go", "request.go"],
     [("chaining", "internal/interceptors/interceptor.go"), ("hooks", "pkg/client/rpc.go RequestSingle, pkg/client/multi.go RequestMulti")],
     ["log of interceptor and hook invocations", "values seen by handler and caller"])

prop("C17", "Retry middleware makes exactly the attempts its policy allows",
     "A retried call or stream send is attempted until an attempt succeeds, the error is not recoverable, the attempts are used up, or the caller's context ends, and returns that last outcome (canceled when the context ended between attempts); by default exactly the timeouts, unavailability and errors without a code are recoverable. The first attempt has the configured timeout and later ones grow by the backoff, custom retry parameters (retry, next timeout, wait) are honoured exactly from the second attempt on, and concurrent calls through one configuration do not affect each other.",
     ["inputs", "histories", "schedules"],
     "all policies and all sequences of attempt outcomes, durations and cancellation times, for calls and stream sends, alone and concurrently",
     "Tests run three fixed policies; shared state between calls, cancellation during a wait and custom parameters need other histories.",
     ["pkg/middleware/retry.go"],
     [("retry loop", "pkg/middleware/retry.go retry"), ("backoff", "pkg/middleware/retry.go getRetryWithBackoffParameters")],
     ["sequence and timing of attempts, options passed, returned error"])

prop("C18", "Metrics, tracing and recovery middleware report truly and change nothing",
     "With metrics, tracing or panic-recovery middleware installed, calls and streams behave as without it. Every completed call is reported to the metrics observer exactly once on each side with its true role, method, outcome, message sizes, duration and response and error counts, and every stream reports its opening and closing once and each message sent and received; each single call yields one ended client span and every handled call one ended server span with the right name, kind, status and codes in the same trace; and a panicking handler yields an internal error for that call only, with the server serving on.",
     ["inputs", "histories", "configurations"],
     "all mixes of successful, failing and panicking single, multi and stream calls with any message sizes and durations, with the middlewares in any combination",
     "The middlewares' reports are not tested (only retry has tests).",
     ["pkg/middleware/metrics.go", "pkg/middleware/recovery.go", "pkg/middleware/otelpsrpc/otel.go"],
     [("observers", "pkg/middleware/metrics.go"), ("recovery", "pkg/middleware/recovery.go"), ("spans", "pkg/middleware/otelpsrpc/otel.go")],
     ["observer and tracer calls, results of calls"])

prop("C19", "Wire format: lossless round trips, compatible, and robust to hostile bytes",
     "Any valid message survives the envelope of every bus unaltered, envelopes carry the same fields on the wire as the published format (unknown fields and newer or older senders are tolerated), and encoding failures are reported to the publisher. Bytes that are truncated, corrupted, of an unknown or unexpected message type, or internal messages with missing, foreign or contradictory fields never crash or wedge a process: they are dropped or answered with a malformed-request or malformed-response error, and traffic after them is handled normally.",
     ["inputs", "histories", "fault_sequences"],
     "all messages and all byte strings and mutated internal messages, injected into every channel of running clients, servers, streams and subscriptions on every bus",
     "One round-trip test of one message exists; nothing feeds bad bytes to a running client or server.",
     ["internal/bus/serialization.go", "internal/bus/subscription.go", "pkg/server/rpc.go", "pkg/server/stream.go", "pkg/client/client.go", "internal/stream/stream.go", "internal/internal.proto"],
     [("envelope", "internal/bus/serialization.go"), ("typed delivery", "internal/bus/subscription.go"), ("malformed payloads", "pkg/server/rpc.go handleRequest, internal/stream/stream.go HandleStream")],
     ["process survival", "later calls", "decoded messages and raw envelopes"])

prop("C20", "Generated code: every valid service compiles and is wired as declared",
     "For every valid service definition and option combination the plugin produces Go code that compiles and declares exactly the documented client, server, implementation and topic interfaces, with each method's routing (queue, affinity, multi, stream, subscription), topic parameters, topic types, registration groups and message types as declared. The comments above services and methods appear above the interfaces and their methods. Calls, streams, updates and topic (de)registration made through it reach the right method with the right topics and messages. (Valid means that protoc and protoc-gen-go accept it, that distinct names stay distinct in Go and do not repeat the fixed ones such as Close, and that all files of a Go package are generated in one run.)",
     ["programs", "configurations"],
     "all service definitions: any number of services and methods with any combination of routing, topics (named, typed, grouped, single-server), streaming, message types from this or other packages, names and comments",
     "Nine fixed protos are compiled; most option combinations and name shapes never occur in them, and only one is run end to end.",
     ["protoc-gen-psrpc/generator.go", "protoc-gen-psrpc/go_naming.go", "protoc-gen-psrpc/options/options.proto", "protoc-gen-psrpc/internal/gen/typemap/typemap.go", "pkg/server/registration.go"],
     [("code templates", "protoc-gen-psrpc/generator.go"), ("type and import resolution", "protoc-gen-psrpc/internal/gen/typemap/typemap.go, generator.go")],
     ["go build of the output", "interfaces by exact assertion", "end-to-end calls on a local bus"])

prop("C21", "Handler registration is exclusive, all-or-nothing and reversible",
     "At most one handler is ever registered for a method and topic on a server: concurrent or repeated registration lets exactly one succeed and the others fail without disturbing it. Deregistering stops delivery to that handler only, tolerates unknown topics, and allows registering again; a group registration either registers every member or, when one fails, leaves exactly what was registered before, and group deregistration removes exactly its members.",
     ["histories", "schedules"],
     "all sequences and interleavings of register, deregister, group register and group deregister over methods and topics, with bus failures at any point, observed by calls",
     "Tests register each topic once; conflicts, bus failures midway and concurrent registrations are not covered.",
     ["pkg/server/server.go", "pkg/server/registration.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
     [("handler table", "pkg/server/server.go RegisterHandler"), ("group rollback", "pkg/server/registration.go RegistererSlice")],
     ["registration results", "which topics answer"])

prop("C22", "Plugin parameters, names and imports are handled totally and predictably",
     "The plugin's output is a deterministic function of its request: one valid, gofmt-clean file per input file with services, at the path the path parameters say, with the package (one name for all files of a request) and import paths that go_package options and import mappings say. Malformed requests, parameters, topic declarations and packages are reported as an error for protoc rather than a crash or wrong output, every valid parameter string parses to its documented meaning, and names map to valid Go identifiers and paths.",
     ["inputs", "programs", "configurations"],
     "all parameter strings, go_package shapes, import mappings, file layouts and identifiers",
     "A table of a dozen parameter strings and names exists; the interplay of paths, mappings and packages is only seen on nine fixed inputs.",
     ["protoc-gen-psrpc/command_line.go", "protoc-gen-psrpc/go_naming.go", "protoc-gen-psrpc/generator.go", "protoc-gen-psrpc/internal/gen/main.go", "protoc-gen-psrpc/internal/gen/stringutils/stringutils.go"],
     [("parameter parsing", "protoc-gen-psrpc/command_line.go"), ("naming", "protoc-gen-psrpc/go_naming.go, stringutils.go")],
     ["CodeGeneratorResponse of the plugin"])

prop("C23", "No call, however it ends, can wedge or starve its client or server",
     "Calls that are abandoned, cancelled, timed out or answered more often than expected, claims and responses that arrive late, twice or for unknown requests, result channels nobody reads, and streams with slow readers never block the client or server from serving its other traffic: an unrelated call made meanwhile or afterwards completes normally. No bookkeeping or goroutine of a finished call outlives its deadline.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "all mixes of well- and ill-behaved callers, duplicated and late internal messages, any channel sizes and numbers of servers, followed by probe calls",
     "Tests always read every answer, use the default large buffers and never check the client after an abandoned call.",
     ["pkg/client/client.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
     [("dispatch loops", "pkg/client/client.go, pkg/server/rpc.go run, pkg/server/stream.go run")],
     ["probe calls", "goroutines left after the deadline"])

prop("C24", "Generated identifiers are unique, well-formed and safe to create anywhere",
     "Every generated identifier has its kind's prefix followed by twelve characters of the documented alphabet that are safe in channel names, all characters are (nearly) equally likely in every position, and identifiers never repeat, however many goroutines create them at once. Explicitly configured client and server ids are used as given, for everything they identify.",
     ["inputs", "schedules", "histories"],
     "all kinds of identifiers, in any number and order, created by any number of goroutines; all configured ids",
     "No test looks at identifiers.",
     ["pkg/rand/id.go", "pkg/client/client.go", "pkg/server/server.go"],
     [("locked random source and rejection sampling", "pkg/rand/id.go"), ("id options", "client.go WithClientID, server.go WithServerID")],
     ["returned identifiers", "ids seen on the wire and in headers"])

prop("C25", "Test buses delay, drop and intercept exactly as configured",
     "On a test bus, publish and subscribe interceptors wrap every publish and every subscription once, first added outermost, and see the channel concerned. The laggy bus delivers every message unaltered exactly once, not before its send time plus the configured latency between its origin and destination and as soon as that has passed, in send order for equal latency; the unreliable bus passes messages unaltered, drops none at rate 0 and all at rate 1, follows rate changes, affects only the selected channel, and both end their subscriptions when closed.",
     ["inputs", "histories", "schedules"],
     "all latency functions, failure rates and filters, message histories and interceptor lists",
     "The test buses are helpers for other tests and have none themselves.",
     ["internal/bus/bus_interceptor.go", "testutils/bus.go", "testutils/laggybus.go", "testutils/unreliablebus.go"],
     [("interceptor chains", "internal/bus/bus_interceptor.go"), ("delay heap", "testutils/laggybus.go"), ("drop", "testutils/unreliablebus.go")],
     ["messages and times at subscriptions"])

prop("C26", "Everything may be used from many goroutines at once, and shared values too",
     "Clients, servers, streams, subscriptions, buses, middleware, contexts and errors of the library may be used from any number of goroutines at once - calling, sending, receiving, registering, deregistering, joining, publishing and closing (subscriptions, streams and clients also more than once) - without unsynchronised access to memory by the library, without crashing, and without one's values appearing in another's. What callers share between calls (request messages, contexts and their metadata, lists of options and interceptors, errors, responses of handlers) is only read, never written, not even behind the end of a list; what is handed out (messages received, metadata of headers) belongs to its receiver alone, and a message that was sent belongs to the caller again when the send or call has returned.",
     ["schedules", "histories", "configurations"],
     "all mixes of simultaneous operations by several goroutines on the same clients, servers, streams and subscriptions, with shared requests, contexts, options, errors and responses, with and without middleware, during closes of either side, on the local, NATS and Redis buses",
     "The tests use one goroutine per client mostly, and run without the race detector; a missing lock shows only under the right interleaving, or under a detector on a history that has both accesses.",
     ["pkg/client/client.go", "pkg/client/options.go", "pkg/server/server.go", "internal/stream/stream.go", "internal/bus/bus_local.go", "internal/bus/bus_nats.go", "internal/bus/bus_redis.go", "internal/bus/subscription.go", "pkg/info/channels.go", "pkg/metadata/metadata.go", "pkg/rand/id.go"],
     [("locks of the tables", "pkg/client/client.go mu, pkg/server/server.go mu, internal/stream/stream.go mu, internal/bus"),
      ("copies of what is shared", "pkg/client/options.go getRequestInterceptors, pkg/metadata/metadata.go, pkg/info/channels.go scratch")],
     ["race detector reports", "results of each goroutine's operations", "shared values afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
