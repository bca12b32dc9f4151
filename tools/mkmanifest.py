#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]

BASE = ("Random search, not exhaustive: a PASS says no counterexample among the generated cases, whose number and shape are in the evidence file. ")
SIM = ("The real client, server and bus code runs on its real goroutines inside a testing/synctest bubble (fake clock), over the local bus and over in-process NATS and Redis brokers that speak the wire protocols to the real client libraries; the brokers, rapid and synctest are trusted. ")

# property: (technique, level note)
NOTES = {
 "C01": ("stateful property-based testing (rapid) of concurrent call histories under delays and losses, oracle: ledger of executions against outcomes", BASE + SIM + "Message delays and losses are injected at publish; the fixed schedule classes are the Go scheduler's plus the generated delays."),
 "C02": ("property-based testing (rapid) of claim arrival histories against a reference model of server selection", BASE + SIM + "Claims of distinct servers arrive at distinct instants (ties within one instant are left to either winner)."),
 "C03": ("property-based testing (rapid) of multi-call histories, oracle: set of results due before the deadline, from the logged arrivals", BASE + SIM + "Answers within a millisecond of the deadline may be in or out."),
 "C04": ("property-based testing (rapid): injectivity of channel names over generated destinations; traffic histories against a model of who may hear what", BASE + SIM + "NATS: at most one queue method per case besides the known findings."), "C05": ("stateful property-based testing (rapid) of subscribe/publish/close histories on real buses, oracle: per-subscriber must/may sets and per-publisher order", BASE + SIM + "A message published while a subscription is being opened or closed may or may not arrive."),
 "C06": ("stateful property-based testing (rapid) of queue membership and publication histories, oracle: exactly-one counts per message, order, round-robin counts", BASE + SIM + "A message published while a member leaves without a pause may be lost with it; on Redis members never lag five seconds (the lock expiry)."),
 "C07": ("stateful property-based testing (rapid) with injected broker faults, oracle: delivery model plus broker-side subscription set and liveness probes after the faults", BASE + SIM + "Faults: cut connections, refused dials, dropped or failing commands (SUBSCRIBE and UNSUBSCRIBE fail only with their connection)."),
 "C08": ("stateful property-based testing (rapid) of concurrent stream sends under delays, losses and slow readers, oracle: per-sender ledger of sends against receipts", BASE + SIM + "On the local bus with traffic in both directions buffers are kept large enough (its Publish blocks on a full subscriber)."),
 "C09": ("stateful property-based testing (rapid) of racing stream endings, oracle: model of the first ender per end, from the record of what happened and when", BASE + SIM + "Enders at the same fake instant may win in either order; a close notice that arrives after its expiry counts as lost."),
 "C10": ("property-based testing (rapid) of generated error trees, round trip through calls, multi calls and streams against a model of what arrives", BASE + SIM + "Error trees are built from the error types of psrpc, gRPC, twirp, fmt and the standard library, wrapped and joined."),
 "C11": ("property-based testing (rapid) of error conversions: round-trip, metamorphic and table relations over generated error trees", BASE + "The code tables are the documented ones, written out in the check."),
 "C12": ("stateful property-based testing (rapid) of metadata operations against a map model, and of their delivery through calls and streams", BASE + SIM),
 "C13": ("property-based testing (rapid) of calls and sends under generated timeouts, deadlines, cancellations and stalls, oracle: timing model on the fake clock", BASE + SIM + "Events at the same fake instant may win in either order."),
 "C14": ("stateful property-based testing (rapid) of shutdown schedules and of concurrent shutdowns, registrations and bursts, oracle: model of what is in progress at the shutdown", BASE + SIM + "Nothing else happens at the very instant of a shutdown, except in the parts that race operations without an order to judge by."),
 "C15": ("stateful property-based testing (rapid) of client closes among calls, streams and subscriptions, oracle: model of what was answered before the close; leak detection by the bubble's deadlock detection", BASE + SIM + "Leaked goroutines are detected on the local bus only, the broker client libraries having goroutines of their own."),
 "C16": ("property-based testing (rapid) of generated interceptor stacks and hooks over calls and streams, oracle: the trace a reference interpreter of the stack predicts", BASE + SIM),
 "C18": ("property-based testing (rapid) of generated traffic under metrics, tracing and recovery middleware, oracle: the events and spans a model of the traffic predicts", BASE + SIM + "Recorded with an in-check observer and tracer; requests are never lost here, so every call's outcome is known."),
 "C19": ("property-based testing and structured fuzzing (rapid): round trips and raw envelopes against a reference decoder, hand-written peers speaking the published format, hostile messages injected into running traffic", BASE + SIM + "On the local bus arbitrary bytes are injected as message bodies only (it has no byte-level interface)."),
 "C17": ("model-based property testing (rapid) of retry policies against a reference model of attempts on the fake clock, alone and end to end under losses", BASE + SIM),
 "C23": ("stateful property-based testing (rapid) of histories of ill-behaved calls, message faults and bursts, oracle: probe calls behave as on an idle system, and the goroutines and map entries of the client and servers return to their number before", BASE + SIM + "Goroutines are counted on the local bus only. On the local bus, where publishing waits for full subscribers, buffers are large when stream messages go both ways. Map entries are counted by reflection on whatever maps the client and servers have."),
 "C24": ("property-based testing (rapid) of identifiers created by concurrent goroutines and by separate processes: format, uniqueness, distribution of characters (chi-square); configured identifiers followed through calls on the wire", BASE + "Statistical bounds are set so far out that a uniform generator does not fail them in the number of runs made."),
 "C25": ("property-based testing (rapid) of interceptor stacks, latency schedules and drop rates of the test bus against reference models on the fake clock", BASE + SIM + "Messages sent at the same instant may be delivered in either order."),
 "C20": ("property-based testing (rapid) of generated service definitions: the plugin's output is type-checked against exactly the declared interfaces, and built and driven end to end against a model of the declared routing", BASE + "Driven on the local bus on a fake clock; requests are built as protoc builds them, and protoc-gen-go's own generator is the reference for names and paths."),
 "C22": ("property-based testing and structured fuzzing (rapid) of plugin requests: parameters, packages, mappings, file layouts and malformed input; oracle: a model of the documented parameters, the Go compiler's type checker, gofmt and protoc-gen-go's generator", BASE + "The plugin is run as protoc runs it, as a process on a serialized request; whether a name not made of ASCII letters and digits is accepted is left open, but what is accepted must compile."),
 "C26": ("property-based testing (rapid) of simultaneous operations by many goroutines on shared objects and values; oracles: Go's race detector on those cases and on generated cases of 23 other properties, and models of each goroutine's own results and of the shared values", BASE + SIM + "A data race is reported only when both accesses are the library's (or one uses a value that was handed over). The detector sees races among the accesses a case makes, whether or not they collide in that run; it can miss those ordered by accident by other synchronisation of the case."),
 "C21": ("stateful property-based testing (rapid) of sequential, concurrent, grouped and failing registrations, oracle: model of the handler table (linearizability per method and topic), observed by calls and by the open subscriptions", BASE + SIM),
}

NA_PENDING = "check not built yet"
checks = []
for i in ids:
    if i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check.py %s --tier quick" % i,
                       "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "./check.py --setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA_PENDING} for i in ids if i not in NOTES],
     "notes": "No hooks: the harness imports /repo's packages through a replace directive (harness/go.mod) and drives their public and internal interfaces."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
