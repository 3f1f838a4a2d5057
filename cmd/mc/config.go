package main

// instrumented are the packages of /repo that get scheduling points by default.
var instrumented = []string{
	"internal/bus", "internal/interceptors", "internal/stream",
	"pkg/client", "pkg/server",
}

type part struct {
	harness string
	only    string // regexp of scenario names
	share   float64
	race    bool
	instr   []string // instrumented packages (nil: the default list)
}

type checkCfg struct {
	parts    []part
	quick    float64
	thorough float64
	rule     string
	assume   []string
}

// all includes the middleware.
var all = append([]string{"pkg/middleware", "pkg/middleware/otelpsrpc"}, instrumented...)

func rpcAll(id, rule string, assume ...string) checkCfg {
	c := rpc(id, rule, assume...)
	c.parts[0].instr = all
	return c
}

func testBus(c checkCfg) checkCfg {
	c.parts[0].instr = append([]string{"testutils"}, instrumented...)
	return c
}

func rpc(id, rule string, assume ...string) checkCfg {
	c := checkCfg{
		parts: []part{{harness: "rpc", only: "^" + id + "[/@]", share: 1}},
		quick: 100, thorough: 700, rule: rule, assume: assume,
	}
	switch id {
	case "P02":
		c.quick = 130
	case "P07":
		c.quick = 190
	}
	return c
}

func busRule(id, rule string, assume ...string) checkCfg {
	c := rpc(id, rule, assume...)
	c.parts[0].harness = "bus"
	return c
}

var checks = map[string]checkCfg{
	"P01": rpc("P01", "every explored schedule and fault placement: handler runs per request <= 1; success implies one run and its value; no failure without a fault or elapsed time; nothing blocked or leaked at the end"),
	"P02": rpc("P02", "every answer is the one computed from its own request by a handler registered for exactly that method and topic"),
	"P03": rpc("P03", "every call returned by its deadline with a proper error, the client works afterwards, nothing is left blocked"),
	"P04": rpc("P04", "the server that runs, the time of the decision, the failure and the claims shown to a selection function equal those of the reference selection for some order of simultaneous claims"),
	"P05": rpc("P05", "every server runs the handler once; one response per server that answers in time; the channel closes once, at the end"),
	"P06": rpc("P06", "a graceful close returns after every handler and response; nothing starts afterwards; a forced close does not wait; every close returns"),
	"P07": rpc("P07", "one registration per key; served from return to removal; nothing afterwards; groups are all or nothing"),
	"P08": rpc("P08", "received messages are a prefix-ordered, duplicate-free selection of the sent ones; a send that succeeded was delivered"),
	"P09": rpc("P09", "both sides end once with the cause of the first close; later sends fail with it; nothing stays behind"),
	"P10": rpc("P10", "every error value, malformed payload and gRPC status arrives with its code and text; a failure never becomes a success"),
	"P11": rpc("P11", "every deadline and expiry seen on either side equals the reference value; an expired request is not handled"),
	"P12": rpc("P12", "every metadata map read on either side equals the reference; maps never alias"),
	"P13": rpc("P13", "every plain subscriber gets every message, one queue subscriber each in turn, in order, once, and nobody else; closing returns and ends the channel"),
	"P14": busRule("P14", "every plain subscriber of a channel gets each message, one queue subscriber over all processes; the channels subscribed at the server are those with open subscriptions, whatever failed before"),
	"P15": busRule("P15", "every plain subscriber of a channel gets each message, one queue subscriber over all processes; the subjects subscribed at the server are those with open subscriptions"),
	"P16": rpc("P16", "distinct keys never share a channel; equal keys always do; requests reach exactly the servers of their key"),
	"P17": rpc("P17", "the trace of interceptor calls, values and errors equals the reference trace of the chain"),
	"P18": rpcAll("P18", "the attempts, waits and result of a retried call equal those of the reference loop"),
	"P19": rpcAll("P19", "the records of every call equal the reference records; every opened stream is closed once"),
	"P20": rpcAll("P20", "a panic becomes one internal error of its own request; everything else is unchanged"),
	"P23": {
		parts: []part{
			{harness: "rpc", only: "^P23/|^P0[1-9]/|^P13/par|^P17/.*conc|^P19/(conc|str)|^P20/conc|^P2[24]/|^P25/conc", share: 0.75, race: true, instr: all},
			{harness: "bus", only: "/par|/fault-", share: 0.25, race: true},
		},
		quick: 180, thorough: 700,
		rule: "no report of the race detector with an access of the library, in any explored schedule",
	},
	"P24": rpc("P24", "every open subscription (or one queue member) of the key gets each update unaltered and in order; closing ends one subscription only"),
	"P25": rpcAll("P25", "the spans of every call, their parents and outcomes equal the reference; the call is the same as without tracing"),
	"P21": {
		parts:    []part{{harness: "p21", only: "^P21/", share: 1, instr: []string{"internal/stream"}}},
		quick:    60,
		thorough: 600,
		rule:     "every enumerated service generates, compiles against a driver derived from its options alone, and serves calls, streams and subscriptions as the options promise",
	},
	"P26": {
		parts:    []part{{harness: "p26gen", share: 1}},
		quick:    100,
		thorough: 700,
		rule:     "every enumerated request that protoc-gen-go accepts: the same directory and package as protoc-gen-go's file, and code that type-checks with the messages of that package and of the imported ones",
	},
	"P27": testBus(rpc("P27", "interceptors run in the order given; every message of a laggy bus arrives once, unaltered, exactly when due; an unreliable bus loses what its rate and channel say; calls take the latencies of their messages")),
	"P22": rpc("P22", "a closed client refuses everything without touching the bus; its subscriptions, streams and goroutines end"),
}
