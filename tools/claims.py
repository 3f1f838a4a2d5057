D2 = "all schedules with up to 2 deviations (thorough: all statements/2 and synchronisation points/3) of "
CHECKS = {
 "P01": (EXPL, D2 + "1-3 servers and 1-2 requests, with up to 2 lost/failing/late messages"),
 "P02": (EXPL, D2 + "2-3 concurrent calls of 1-2 clients over several methods, topics and servers"),
 "P03": (EXPL, D2 + "single, multi and stream calls with up to 2 lost, failing, duplicate or late messages, cancellations and abandoned channels, followed by new calls"),
 "P04": (ENUM, "all affinity/arrival/option combinations of a finite set for 2-3 servers against a reference selection, plus schedules with up to 2 deviations"),
 "P05": (EXPL, D2 + "1-2 multi requests to 2-3 servers with cancellation, timeouts and late answers"),
 "P06": (EXPL, D2 + "1-2 requests of every kind with 1-2 graceful and forced closes"),
 "P07": (EXPL, D2 + "two concurrent lifecycle operations, every subscription failure, and all operation sequences up to a depth against a model"),
 "P08": (EXPL, D2 + "one or two streams, 1-3 messages per direction, full channels, concurrent close"),
 "P09": (EXPL, D2 + "a stream closed by client, server, both, handler, shutdown, cancellation, with sends in flight"),
 "P10": (ENUM, "all error values, payload kinds and statuses of a finite set through every kind of call and stream against a reference"),
 "P11": (ENUM, "all combinations of a set of client, request and caller deadlines and server timeouts for every kind of call, on a virtual clock"),
 "P12": (ENUM, "all sequences of metadata operations up to a depth against a model, and all metadata sets of a finite set through every kind of call"),
 "P13": (EXPL, D2 + "2-3 subscribers with up to three goroutines publishing, subscribing, reading and closing, and all operation sequences up to a depth against a model"),
 "P23": (EXPL, "all schedules with 1 deviation (thorough: 2) of 25 concurrent uses and of the drivers of the other properties, each under the happens-before race detector"),
 "P24": (EXPL, D2 + "two members closing, joining and receiving, and all sequences of joins, updates (of right, wrong and unknown type) and closes up to a depth against a model"),
 "P14": (EXPL, D2 + "up to three goroutines publishing, subscribing and closing in 1-2 processes, all placements of up to 3 failing commands or connections in 5 histories, and all operation sequences up to a depth against a model; real go-redis over a scripted server"),
 "P15": (EXPL, D2 + "up to three goroutines publishing, subscribing and closing in 1-2 processes, and all operation sequences up to a depth against a model; real nats.go over a scripted server"),
 "P16": (ENUM, "all pairs of keys over a finite alphabet of services, methods, topics and ids, injectivity of the channel mapping, and end-to-end delivery"),
 "P17": (ENUM, "all chains up to 3 interceptors with every behaviour of a finite set for unary, multi and stream calls against a reference chain, plus schedules with up to 2 deviations"),
 "P18": (ENUM, "all outcome sequences up to a depth, retry options and deadlines on a virtual clock against a reference retry loop"),
 "P19": (ENUM, "all outcomes of unary, multi and stream calls against reference records, plus schedules with up to 2 deviations"),
 "P20": (ENUM, "all panic values, places, call kinds and chain positions of a finite set, plus schedules with up to 2 deviations"),
 "P21": (ENUM, "every combination of the options of one method, all pairs and many triples of methods, names, message types, shared files and colliding identifiers (about 2000 services) through the generator and compiler, and calls, topics, groups, streams and updates between each generated client and servers, against a driver derived from the options alone"),
 "P25": (ENUM, "5 call kinds x 10 outcomes x traced ends x metadata x propagator x caller's span x nested, retries on either side of the tracing, against the spans of a recording provider, plus schedules with up to 2 deviations of concurrent calls"),
 "P26": (ENUM, "about 46000 requests (thorough: 118000) over the paths, proto packages and go_package options of 1-2 generated and 0-2 imported files, names that are Go keywords or predeclared, and paths, module and M parameters, each run through the generator and compared with protoc-gen-go's library and the type checker"),
 "P27": (EXPL, D2 + "2-3 goroutines sending and closing over laggy buses, all sequences of 4 sends and closes over sets of latencies and gaps, all chains of up to 3 interceptors, all rates and channels, and calls of every kind over laggy and unreliable buses, against a virtual clock"),
 "P22": (EXPL, D2 + "1-3 closes with calls of every kind in flight, the bus ending a subscription, failing construction"),
}
NA = {p["id"]: "check under construction" for p in props}
