#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/props.py)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "A single request runs on at most one server",
  "For a claim-based, queue-routed or topic-routed single RPC, at most one of the registered servers ever runs its handler for a given request, however the messages of the exchange are interleaved, delayed or lost. A caller that gets a success response can rely on exactly one server having run the handler once, and the response is the value that run returned. With a live, reachable server and no lost messages or timeouts, the request is served.",
  ["schedules", "fault_sequences"], "all interleavings of client, bus and 1-3 servers within the deviation bound, and all single/double losses of protocol messages",
  "A unit test sees one interleaving of the request/claim/grant/response exchange; double execution needs two servers' claims, the grant and timeouts to race.",
  ["pkg/client/rpc.go", "pkg/server/rpc.go", "internal/bus/bus_local.go"],
  [("claim selection", "pkg/client/rpc.go selectServer"), ("claim wait", "pkg/server/rpc.go claimRequest"), ("queue dispatch", "internal/bus/bus_local.go dispatch")],
  observe_at="handler invocations and the caller's result")
p("P02", "No cross-talk between concurrent requests and clients",
  "Each response, claim and stream message reaches only the request or stream it belongs to: concurrent requests of one client, of several clients, on several methods and topics of one bus never see each other's results, and every request receives the answer computed from its own payload. A request is only handled by handlers registered for exactly its method and topic.",
  ["schedules", "inputs"], "all interleavings of concurrent requests of several clients, methods and topics within the deviation bound",
  "Mixed-up routing shows only when several requests are in flight at the same time in particular orders.",
  ["pkg/client/client.go", "pkg/client/rpc.go", "pkg/server/rpc.go", "pkg/info/channels.go"],
  [("response routing by request id", "pkg/client/client.go dispatcher"), ("per-method channels", "pkg/info/channels.go")])
p("P03", "Every call ends by its deadline with a proper error and leaves the client usable",
  "A single request, a stream open and a stream send always return no later than their timeout (or the earlier context deadline), whatever messages are lost, duplicated or late: with a result, or with the error of what happened (timed out, canceled, no response, unavailable or internal for a failing bus). A multi request's response channel is closed by then. After a failed or abandoned call the same client still completes new calls, and no goroutine of the call stays behind.",
  ["schedules", "fault_sequences"], "all interleavings within the deviation bound and all placements of up to two lost, failing or duplicated messages and of a context cancellation",
  "Termination must hold for every placement of a loss, cancellation or late message; a test fixes one.",
  ["pkg/client/rpc.go", "pkg/client/multi.go", "pkg/client/stream.go", "pkg/client/client.go", "internal/stream/stream.go"],
  [("request timeout", "pkg/client/rpc.go newRPC"), ("dispatcher", "pkg/client/client.go"), ("stream ack wait", "internal/stream/stream.go Send")])
p("P04", "Server selection follows affinities and the selection options",
  "Among the claims received by the selection deadline the client grants the request to a server with the highest affinity, never to one below MinimumAffinity, and to one with affinity 0 only with AcceptFirstAvailable (a server with negative affinity does not even claim); AcceptFirstAvailable and MaximumAffinity end the selection at the first qualifying claim, ShortCircuitTimeout and AffinityTimeout bound it in time, and a SelectionFunc sees exactly the qualifying claims in arrival order and decides. When no server qualifies the call fails as unavailable (or no response if nobody claimed) and no server runs the handler.",
  ["inputs", "schedules", "configurations"], "all combinations of 2-3 servers' affinities from a set around the thresholds, claim arrival times around the timeouts, and option sets",
  "The outcome depends on the joint order of claims and three timers for every option combination; tests check one or two.",
  ["pkg/client/rpc.go", "pkg/client/options.go", "pkg/server/rpc.go", "pkg/server/stream.go"],
  [("selectServer", "pkg/client/rpc.go"), ("default options", "pkg/client/options.go getRequestOpts"), ("affinity evaluation", "pkg/server/rpc.go claimRequest")])
p("P05", "A multi request reaches every server and collects one response from each",
  "A multi RPC runs the handler exactly once on each server registered for its method and topic when it is published, and the caller receives exactly one response per server that answers in time: its value or its error, never merged, duplicated or misattributed. The response channel is closed exactly once, at the timeout or when the context ends, and nothing is sent on it afterwards.",
  ["schedules"], "all interleavings of one or two multi requests with 2-3 servers, cancellation and timeout within the deviation bound",
  "Lost, duplicate or post-close responses appear only when responses race with each other and with the timeout.",
  ["pkg/client/multi.go", "pkg/server/rpc.go"],
  [("response collection", "pkg/client/multi.go handleResponses"), ("channel close", "pkg/client/multi.go Close")])
p("P06", "Graceful shutdown drains, forced shutdown does not wait",
  "A graceful server close returns only after every RPC handler that was started has returned and its response has been published (unless a forced close or deregistration came first); no handler starts after the close has returned, and the callers of requests being handled get their results. Open streams are closed rather than waited for. A forced close does not wait for running handlers. Concurrent and repeated closes all return, each with these guarantees.",
  ["schedules"], "all interleavings of in-flight requests with one or two closes (graceful, forced) within the deviation bound",
  "The guarantee can only break in the windows between receiving a request, starting its handler and closing.",
  ["pkg/server/server.go", "pkg/server/rpc.go"],
  [("active/handling wait groups", "pkg/server/rpc.go close"), ("Close", "pkg/server/server.go Close")])
p("P07", "Handler registration lifecycle",
  "At most one handler is registered per method and topic: of several registrations exactly one succeeds until it is removed, and a registered handler serves requests as soon as registration returns. After deregistration or close has returned, requests made from then on are not handled, the key can be registered again, and registering on a closed server fails with the server-closed error and serves nothing. A registration group registers all of its handlers or none.",
  ["schedules", "histories", "fault_sequences"], "all operation sequences of register/deregister/close/request up to a depth, all interleavings of two of them within the deviation bound, and every subscription failure",
  "Check-then-act races and partial failures need two lifecycle operations at the same moment or a failing bus.",
  ["pkg/server/server.go", "pkg/server/rpc.go", "pkg/server/stream.go", "pkg/server/registration.go"],
  [("handler map", "pkg/server/server.go RegisterHandler"), ("rollback", "pkg/server/registration.go Register")])
p("P08", "Stream messages are delivered in order, at most once, and acknowledged",
  "Messages sent one after another on a stream, in either direction, arrive on the peer's channel in the order sent, each at most once, and none is invented or altered. A Send that returned nil was delivered into the peer's channel; when the peer's channel is full the message is dropped and the sender gets an error, the stream staying usable. Streams do not receive each other's messages.",
  ["schedules", "histories"], "all interleavings of concurrent senders and receivers in both directions within the deviation bound, including full channels and a concurrent close",
  "Order, duplication and ack matching fail only under particular overlaps of sends, acks, and closes.",
  ["internal/stream/stream.go", "pkg/client/stream.go", "pkg/server/stream.go"],
  [("Send/ack", "internal/stream/stream.go Send, HandleStream"), ("slow consumer", "internal/stream/stream.go Recv")])
p("P09", "Closing a stream ends both sides exactly once with the cause",
  "When either side closes a stream, or its handler returns (unless it hijacked the stream) or its server closes, both sides' channels close exactly once after the messages already received, their contexts end, and Err reports the cause (its code and text) on both sides; later sends fail with it, pending ones end by their timeout, and nothing panics or blocks, also when both sides close at once. Causes that are no psrpc errors arrive as Unknown with their text. A stream open that fails leaves no stream behind on the client.",
  ["schedules"], "all interleavings of closes from both sides, sends, server and client shutdown, and context cancellation within the deviation bound",
  "Close races with in-flight messages, acks and the peer's own close; tests run a few of these orders.",
  ["internal/stream/stream.go", "pkg/client/stream.go", "pkg/server/stream.go"],
  [("Close handshake", "internal/stream/stream.go Close, HandleStream"), ("server stream table", "pkg/server/stream.go")])
p("P10", "Errors keep code, message and details across the wire and map consistently",
  "An error returned by a handler (psrpc error, wrapped psrpc error, gRPC status or plain error) reaches the caller of a single or multi request as a psrpc error with the same code, message and details, for every code, and never as a success; a plain error is Unknown. The HTTP, gRPC and twirp codes of every error code are the documented ones, gRPC codes survive the round trip, and wrapped causes stay reachable through errors.Is and errors.As. Requests and responses that cannot be encoded or decoded end as malformed-request and malformed-response errors, a stream message that cannot be encoded is refused by Send, one that cannot be decoded ends its stream with a malformed-request error on both sides, and the call, client and stream that follow are unaffected.",
  ["inputs"], "all error codes, all kinds and nestings of errors, message and detail shapes, for single and multi requests",
  "Tests check a few codes; each code, wrapping shape and empty or odd message is its own path.",
  ["errors.go", "pkg/server/rpc.go", "pkg/client/rpc.go", "pkg/client/multi.go"],
  [("error encoding", "pkg/server/rpc.go sendResponse"), ("error decoding", "errors.go NewErrorFromResponse"), ("code tables", "errors.go")])
p("P11", "Deadlines propagate to the handler and bound the call",
  "The context of a handler serving a single or multi request carries a deadline that is never later than the caller's effective deadline (the earlier of request timeout and context deadline), along any chain of nested calls; a request that arrives after its expiry is not started. The request timeout is the per-request option, else the earlier of client timeout and context deadline, else the default.",
  ["inputs", "configurations", "schedules"], "all combinations of client timeout, request option, context deadline and delivery delay, and nested calls up to depth 3",
  "Every combination of the four sources of a deadline is a separate case and delays must be placed around the expiry.",
  ["pkg/client/rpc.go", "pkg/client/options.go", "pkg/server/rpc.go"],
  [("expiry clamp", "pkg/client/rpc.go newRPC"), ("timeout resolution", "pkg/client/options.go getRequestOpts"), ("server deadline", "pkg/server/rpc.go handleRequest")])
p("P12", "Request payload, response and metadata arrive unaltered; contexts are isolated",
  "The handler receives exactly the request the caller sent together with the caller's client id, send time and outgoing metadata, and the caller receives exactly the handler's response. Outgoing metadata behaves as an immutable value of its context: the last append or set in the chain that made it wins per key, a new value resets it, and neither derived contexts nor later changes to maps or slices passed in or handed out change what another context sends or what a handler reads.",
  ["inputs", "histories"], "all sequences of metadata operations up to a depth with branching contexts and mutations of the returned maps, and all payload and metadata shapes of a finite set through a real call",
  "Aliasing shows only for particular sequences of derivations and mutations.",
  ["pkg/metadata/metadata.go", "pkg/client/rpc.go", "pkg/server/rpc.go", "internal/bus/serialization.go"],
  [("context metadata", "pkg/metadata/metadata.go"), ("payload encoding", "internal/bus/serialization.go")])
p("P13", "Local bus delivers every message once, in order, to the right subscribers",
  "A message published on the local bus reaches every plain subscriber of its channel and exactly one queue subscriber (round-robin over the current ones), exactly once and in publish order per publisher; subscribers of other channels get nothing. After a subscription is closed its channel closes, it receives nothing more, and messages published later go to the remaining subscribers; a closing subscriber, even an unread one next to other unread ones, never makes a publisher or its own close panic or block for ever.",
  ["schedules", "histories"], "all operation sequences up to a depth against a reference model, and all interleavings of publish, subscribe and close within the deviation bound",
  "Slot reuse, round-robin state and close races need particular histories and overlaps.",
  ["internal/bus/bus_local.go", "internal/bus/subscription.go"],
  [("dispatch", "internal/bus/bus_local.go dispatch"), ("unsubscribe", "internal/bus/bus_local.go onUnsubscribe")])
p("P14", "Redis bus delivers like the local bus, across reconnects and several processes",
  "Once a subscription is established at the Redis server, every message published on its channel reaches every plain subscriber and exactly one queue subscriber over all processes (each process handling it within the five seconds its lock lives), in the order in which a process published on the channel, and reaches nobody else. The set of channels subscribed at the server converges to the set of channels with open subscriptions after any sequence of subscribes, closes, failed commands and lost connections. Subscribing and closing return, and never panic, also while other subscriptions are not read, and one subscription's close or error never stops delivery to the others.",
  ["schedules", "histories", "fault_sequences"], "all operation sequences up to a depth, all interleavings within the deviation bound and all placements of a failing command or connection, against a scripted Redis server",
  "Reconciliation of desired and actual subscriptions races with subscribe/close and with failing commands.",
  ["internal/bus/bus_redis.go"],
  [("reconciliation", "internal/bus/bus_redis.go redisReconcileSubscriptionsOp"), ("queue lock", "internal/bus/bus_redis.go read"), ("publish pipeline", "internal/bus/bus_redis.go worker")])
p("P15", "NATS bus routes to the right subscribers for every subscribe/close history",
  "On the NATS bus a message reaches every open plain subscriber of its channel (server subject and local method), exactly one queue subscriber per message among all processes, and nobody else, in the order in which a process published on the subject; a subscription is effective for what its process publishes after it returned. When the last local subscriber of a subject closes the server subscription is removed, and a later subscription works again. Mixing queue and plain subscriptions on one subject that has local methods is refused, and closing never panics and never blocks, also while other subscriptions are not read.",
  ["schedules", "histories"], "all operation sequences up to a depth and all interleavings within the deviation bound against a scripted NATS server",
  "Router creation and removal race with subscribe, close and delivery.",
  ["internal/bus/bus_nats.go"],
  [("router table", "internal/bus/bus_nats.go subscribeRouter, unsubscribeRouter"), ("dispatch", "internal/bus/bus_nats.go write")])
p("P16", "Different services, methods, topics and clients use different channels",
  "Two requests or subscriptions share a bus channel exactly when service, method, topic and purpose (request, claim, response, stream) are the same, for every topic text, and channel names contain only characters valid on all buses; channels of different clients differ. Handler keys are distinct for distinct method/topic pairs.",
  ["inputs"], "all services/methods/topic lists over an alphabet with separators, escapes, non-ASCII and marker words up to a length",
  "Collisions are created by separators, escapes and suffixes inside user-chosen topics; only enumeration finds them.",
  ["pkg/info/channels.go"],
  [("sanitising", "pkg/info/channels.go appendSanitizedChannelPart"), ("channel formats", "pkg/info/channels.go")])
p("P17", "Interceptors and hooks run in order, exactly once, around every call",
  "Client, multi, stream and server interceptors wrap each call in the order they were added (per-request ones innermost), each exactly once per call and per attempt, and see the RPC's info, request, response and error; what an interceptor changes or returns is what the next layer sees. Request hooks run once before a call and response hooks once per response (once per call for single requests, also on failure) with the result (for multi requests: as received).",
  ["configurations", "schedules", "inputs"], "all chains of up to 3 interceptors of several behaviours, concurrent calls, and success, error and timeout outcomes",
  "Shared chain state shows only with concurrent or repeated calls through chains of different lengths.",
  ["internal/interceptors/interceptor.go", "pkg/client/options.go", "pkg/client/rpc.go", "pkg/client/multi.go", "pkg/server/rpc.go"],
  [("chaining", "internal/interceptors/interceptor.go"), ("hooks", "pkg/client/rpc.go, multi.go")])
p("P18", "Retries: bounded attempts, only for recoverable errors, stop on cancel",
  "With retries configured, a call is attempted until it succeeds, its error is not recoverable, MaxAttempts (1 or more) attempts were made, or the caller's context ends between attempts (then it fails as canceled), and otherwise returns the last attempt's result or error; attempt n gets the timeout Timeout plus n-1 times Backoff (Timeout 0: the caller's timeout), whatever timeout option the caller passed. Custom retry parameters decide instead when given, with their wait observed, and concurrent calls do not influence each other.",
  ["inputs", "schedules", "configurations"], "all sequences of attempt outcomes up to a length for all option combinations, with cancellation at every point, for requests and stream sends",
  "The attempt count, timeout and cancel rules must hold for every outcome sequence and option combination.",
  ["pkg/middleware/retry.go"], [("retry loop", "pkg/middleware/retry.go retry"), ("backoff", "pkg/middleware/retry.go getRetryWithBackoffParameters")])
p("P19", "Metrics report every call and stream event exactly once, correctly",
  "The metrics observer gets exactly one record per unary call, per multi request that was sent (client: at its end with the counts of results and errors; server: per handled request), per stream open, close, send and receive, with the right role, method, error and duration, whatever the outcome; byte counts add up to the messages' sizes. Opened streams are eventually reported closed exactly once when closed locally.",
  ["schedules", "inputs"], "all outcomes (success, error, timeout, cancel) of unary, multi and stream calls and interleavings within the deviation bound",
  "Missing or double records depend on the order of responses, errors and closes.",
  ["pkg/middleware/metrics.go"], [("observers", "pkg/middleware/metrics.go")])
p("P20", "A panicking handler behind recovery becomes an internal error",
  "With the recovery interceptor a panic in a handler (any value, any depth, also under concurrent requests) is reported to its caller as an Internal psrpc error; other requests and the server are unaffected, graceful shutdown still completes, and a handler that does not panic is passed through unchanged.",
  ["inputs", "schedules"], "all kinds of panic values, positions and handler outcomes, single, multi and concurrent requests",
  "Each panic value kind and its interplay with concurrent requests and shutdown is a separate case.",
  ["pkg/middleware/recovery.go", "pkg/server/rpc.go"], [("recover", "pkg/middleware/recovery.go")])
p("P21", "Generated code compiles and wires every option combination consistently",
  "For every combination of method options (subscription, topics, typed topics, stream, multi, affinity, queue) the generated client and server agree on the channel and on claim, queue, affinity and multi flags, so that a call through the generated client reaches exactly the generated server's handler of that method and topic with the documented semantics.",
  ["programs", "configurations"], "all option combinations of a service definition, generated, compiled and called over the local bus",
  "The repository's tests cover one proto file; each option combination generates different code on both sides.",
  ["protoc-gen-psrpc/generator.go"], [("generator", "protoc-gen-psrpc/generator.go")])
p("P26", "Generated files go where protoc-gen-go's go and refer to its types",
  "For every request that protoc-gen-go accepts - any proto paths, proto packages and go_package options of the generated and imported files, any paths and module parameters, M parameters for imported files - the generator writes one file per file with services beside protoc-gen-go's file for it, in a package of the same name, importing each message's package by its Go import path under a name that collides with nothing, so that both outputs compile together and every method has the message types of the definition.",
  ["inputs", "configurations"], "all combinations of a finite set of proto paths, packages, go_package options and parameters, for 1-2 generated and 0-2 imported files",
  "A wrong directory, package name or import alias shows only for particular combinations of names, places and parameters of several files.",
  ["protoc-gen-psrpc/generator.go", "protoc-gen-psrpc/go_naming.go", "protoc-gen-psrpc/command_line.go"],
  [("package names and aliases", "protoc-gen-psrpc/generator.go Generate, deduceGenPkgName"), ("file names", "protoc-gen-psrpc/go_naming.go goFileName"), ("parameters", "protoc-gen-psrpc/command_line.go"), ("imports", "protoc-gen-psrpc/generator.go generateImports")])
p("P27", "Test buses delay, lose and intercept messages as configured, nothing else",
  "A test bus (testutils) runs its publish and subscribe interceptors in the order given, the first being the outermost, for every publish, subscription and queue subscription; otherwise it is the bus it wraps. On a laggy bus each message reaches every subscriber it would reach on the wrapped bus, once, unaltered, when the latency from its origin to the subscriber's end has passed since it was sent, thus in order of these times; what is due before a close is delivered, and the close ends the subscription and its goroutines. An unreliable bus loses messages of the named channel only (of all without a name), all at rate 1 and none at rate 0, the rest in order; the rate may change at any time. Calls and streams work over both, and take the latencies of their messages.",
  ["schedules", "inputs"], "all sequences of sends from two origins and closes over sets of latencies and gaps, all interleavings of senders and closes within the deviation bound, all chains of up to 3 interceptors, all sequences of rates and filters",
  "Whether the timer of a laggy subscription is set again after every push and pop depends on the order of messages, times and goroutines; users' own tests rest on it.",
  ["testutils/laggybus.go", "testutils/unreliablebus.go", "testutils/bus.go", "internal/bus/bus_interceptor.go"],
  [("timer and heap", "testutils/laggybus.go pushRead, popRead"), ("end of a subscription", "testutils/laggybus.go Copy"), ("interceptor chain", "internal/bus/bus_interceptor.go NewTestBus, chainSubscribeInterceptors"), ("loss", "testutils/unreliablebus.go")])
p("P22", "Closing a client ends its work and frees its resources",
  "After a client is closed new requests, multi requests and subscriptions fail with the client-closed error without reaching the bus, its streams close on both sides, its bus subscriptions are released and none of its goroutines remain once calls in flight have ended; calls in flight still end by their deadline. Closing twice, concurrently or because the bus ended the subscription is safe.",
  ["schedules", "fault_sequences"], "all interleavings of close with requests, streams and responses within the deviation bound, and every subscription failure during construction",
  "Close racing with dispatch and in-flight calls leaves goroutines or panics only in particular windows.",
  ["pkg/client/client.go", "pkg/client/stream.go"], [("dispatcher shutdown", "pkg/client/client.go"), ("stream shutdown", "pkg/client/stream.go runClientStream")])
p("P23", "No data races in the library",
  "No two goroutines access the same memory without synchronisation, one of them writing, in any supported concurrent use: concurrent requests, multi requests, streams sending and closing on both sides, registration, deregistration and shutdown, and subscribing, publishing and closing on the buses.",
  ["schedules"], "all explored interleavings of the concurrent scenarios within the deviation bound, under the happens-before race detector",
  "A race detector run checks one schedule; races hide in rarely taken branches and orders.",
  ["pkg/client/client.go", "pkg/server/server.go", "pkg/server/rpc.go", "pkg/server/stream.go", "internal/stream/stream.go", "internal/bus/bus_local.go", "internal/bus/bus_redis.go", "internal/bus/bus_nats.go"],
  [("locks", "internal/stream/stream.go mu; pkg/client/client.go mu; pkg/server mu")])
p("P24", "Subscriptions: every subscriber or exactly one of the queue gets each update",
  "An update published by a server reaches every client that has joined the subscription for that method and topic, or exactly one of the clients that joined it as a queue, in publish order and unaltered; clients of other methods or topics get nothing. Closing one subscription ends only that one, its channel closes, and messages of an unexpected or undecodable type are skipped without disturbing later ones.",
  ["schedules", "histories"], "all sequences of join, join-queue, publish and close over two clients, methods and topics up to a depth and interleavings within the deviation bound",
  "Delivery must hold for every join/close history and overlap with publishing.",
  ["pkg/client/subscription.go", "pkg/server/server.go", "internal/bus/subscription.go"],
  [("Join/JoinQueue", "pkg/client/subscription.go"), ("Publish", "pkg/server/server.go Publish"), ("decoding", "internal/bus/subscription.go")])
p("P25", "Tracing records every call once, in its caller's trace, and changes nothing",
  "With the OpenTelemetry options installed every unary call of a client yields exactly one client span Sent.Service.Method, whose parent is the span of the caller's context, and every request a server handles exactly one server span Recv.Service.Method, whose parent is the client span of that call (carried in the metadata) and which is the current span of the handler's context. Every span is ended exactly once and records the outcome: Ok, or Error with the error's text, the code of a psrpc error and that of an error with a gRPC status. Results, errors and the metadata set by the caller are the same as without tracing, for streams too.",
  ["inputs", "configurations", "schedules"], "all kinds of calls, outcomes, traced ends, propagators, caller spans, metadata and nestings of a finite set, retries, and concurrent calls within the deviation bound",
  "Parentage and outcome have to be right for each combination of traced ends, metadata and outcome, and for calls that overlap.",
  ["pkg/middleware/otelpsrpc/otel.go", "pkg/metadata/metadata.go"], [("spans", "pkg/middleware/otelpsrpc/otel.go"), ("propagation", "pkg/metadata/metadata.go")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
