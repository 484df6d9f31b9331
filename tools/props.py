"""The properties, and the generator of properties.jsonl and MANIFEST.json.

Usage: python3 tools/props.py    (rewrites both files; run it after changing this file or adding a rule)
"""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

C, T, R, E, Q = "src/codec.rs", "src/transport.rs", "src/jsonrpc/router.rs", "src/jsonrpc/error.rs", "src/jsonrpc/request.rs"
S, L, P, ST = "src/service.rs", "src/service/layers.rs", "src/service/pending.rs", "src/service/state.rs"
CL, CP, PR, SO = "src/service/client.rs", "src/service/client/pending.rs", "src/service/client/progress.rs", "src/service/client/socket.rs"
M, LIB, RS, J = "tower-lsp-macros/src/lib.rs", "src/lib.rs", "src/jsonrpc/response.rs", "src/jsonrpc.rs"

PROPS = []


def p(id, title, statement, over, text, why, files, mech):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


p("P01", "Every outgoing message is framed exactly",
  "Each message written to the output consists of one header that announces exactly the number of bytes of its JSON body, the empty line, and that body, appended after whatever is still unwritten; nothing else is ever written. This holds for every message and for both supported async runtimes.",
  "inputs configurations", "all message values that serialize, all states of the output buffer, both runtime features",
  "The tests encode two fixed ASCII messages into an empty buffer on one runtime; a wrong length for non-ASCII text, a reused buffer or a wrong reserve shows only on other inputs.",
  [C], [("encoder", C)])
p("P02", "A message is delivered whole, and only when it is complete",
  "The decoder hands over a message only once all the bytes that its header announces are there, parses exactly those bytes, and then removes exactly the header and those bytes from the input, so that the next message starts where it ended. Until then it keeps the input and waits for more.",
  "inputs schedules", "all byte streams and all ways of cutting them into reads",
  "The tests feed a handful of streams in one piece or with one cut; the guarantee ranges over every cut at every byte.",
  [C], [("decoder", C)])
p("P03", "No input can stall the decoder",
  "Whenever the decoder rejects input it has also discarded some of it or settled the length of what it will read next, so that a repeated attempt never meets the same bytes in the same state; rejected input is skipped up to the next possible header.",
  "inputs schedules", "all byte streams, well-formed or not, and all ways of cutting them into reads",
  "Tests try a few malformed streams; a decoder that loops without consuming shows only on the particular malformed input.",
  [C], [("decoder", C), ("skipping of garbage", C)])
p("P04", "A malformed message is answered, and serving goes on",
  "A message that cannot be decoded is answered with an error response whose id is null (invalid request if the body was JSON of the wrong shape, parse error otherwise), and the server goes on with the messages behind it; only a failing or ended input stops it.",
  "inputs histories", "all malformed messages at any position of a session",
  "No test drives the server loop with malformed messages between well-formed ones in every position.",
  [T, C], [("read loop", T), ("error mapping", T), ("decoder that passes errors on", C)])
p("P05", "Every LSP method reaches its own handler with its own types",
  "Each LSP method name is served by the handler of the server trait that is documented for it, as the kind of message that it is in the specification, with the parameter and result types of the specification; every handler of the trait is reachable, and no other names are served.",
  "inputs programs", "all 63 methods of the dispatch table, both directions",
  "The tests send initialize and a few others; a transposed name, type or handler in the table is met only by a message of that very method.",
  [M, LIB], [("dispatch table", M), ("LanguageServer trait", LIB)])
p("P06", "Handlers that are not overridden answer method-not-found or do nothing",
  "An optional request handler that the user did not override fails with method-not-found, and an optional notification handler does nothing. Servers behind a box or a shared pointer behave as the server itself.",
  "inputs programs", "all optional handlers; all implementations that leave any subset out",
  "No test calls the defaults; each of the sixty could differ.",
  [LIB], [("default methods", LIB)])
p("P07", "Nothing is served before initialize has succeeded",
  "Until an initialize request has succeeded, every request for another known method, built-in or custom, is answered with server-not-initialized and runs no user code, and every notification but exit (and cancellation) is dropped.",
  "inputs histories schedules", "all methods, all message histories before the end of initialize, all interleavings with other calls",
  "The tests try one request in one state; the guarantee ranges over every method and over calls that race with an initialize in progress.",
  [L, ST, M], [("layers of the methods", L), ("server state", ST), ("choice of the layer per method", M)])
p("P08", "initialize runs at most once at a time and succeeds at most once",
  "The initialize handler never runs while another initialize is in progress or after one has succeeded; such requests are answered with invalid-request. After a failed initialize the server can be initialized again; a success makes it ready before the response is given.",
  "histories schedules", "all histories of initialize requests, including overlapping ones, with all outcomes of the handler",
  "The tests send a second initialize only after the first has finished; overlap, failure and bad params need particular histories.",
  [L, ST], [("initialize layer", L), ("server state", ST)])
p("P09", "After shutdown only exit is served",
  "As soon as a shutdown request has been accepted, every later request, built-in or custom and shutdown itself included, is answered with invalid-request and runs no user code, and every notification but exit (and cancellation) is dropped.",
  "inputs histories schedules", "all methods after shutdown, including while the shutdown handler is still running",
  "The tests send one request after shutdown has finished; other methods and overlap with a running handler are not reached.",
  [L, ST, M], [("shutdown layer", L), ("layers of the methods", L)])
p("P10", "exit is terminal",
  "Once exit has been received, in whatever state, the service reports that it has exited for every later call and on its readiness, runs no user code for them, closes the channel for messages from server to client, and never leaves that state again, whatever is still in progress.",
  "histories schedules", "all methods and histories after exit, including handlers that finish after it",
  "The tests send one request after exit; a late finish of initialize or of shutdown that revives the server needs a particular interleaving.",
  [S, L, ST], [("exit layer", L), ("service call and readiness", S), ("server state", ST)])
p("P11", "One response per request with its id, none for notifications",
  "Every request that the service accepts or refuses resolves to exactly one response that carries the request's own id (exit apart), with the handler's result or error passed on whole; a notification never resolves to a response. The service reports its exit only if it has exited.",
  "inputs histories schedules", "all methods, ids, params and outcomes of handlers, in every server state",
  "The tests check a few methods in one state; each combination of method, state, kind and failure is a separate path.",
  [R, RS, L, P, S], [("method handler", R), ("responses", RS), ("layers", L), ("requests in progress", P)])
p("P12", "Unknown methods, bad params and wrong kinds never reach a handler",
  "A request for an unknown method is answered with method-not-found, naming the method; undecodable params with invalid-params; a notification method sent as a request with invalid-request; the notifications among them are dropped. None of these runs user code, and every valid message does.",
  "inputs", "all method names, params and kinds of messages",
  "The tests use a few messages; whether a method decodes its params before it runs its handler is a fact about every path of every method.",
  [R, M], [("router", R), ("decoding of params", R)])
p("P13", "Ids stay reserved while a request is in progress; duplicates are refused",
  "From its acceptance until its answer, the id of a request is reserved: another request with the same id is answered with invalid-request, runs no user code and leaves the first one alone. The id is free again once the first request is answered, however it ends.",
  "histories schedules", "all methods and all overlaps of requests with equal ids, with all outcomes",
  "The tests never send two overlapping requests with one id through the whole service for each method and outcome.",
  [P, L], [("table of requests in progress", P)])
p("P14", "Cancelling a request aborts that request, and exit aborts all",
  "Cancelling the id of a request in progress, a number or a string, stops its handler and answers the request with request-cancelled; cancelling another id has no effect; exit cancels every request in progress. Only cancelled requests are answered so.",
  "inputs histories schedules", "all ids and all points of a request's life at which the cancellation can come",
  "The tests cancel one request with a numeric id; string ids, other tables and ids in other states are not tried.",
  [P, L, M], [("cancellation", P), ("registration of the cancel method", M), ("exit layer", L)])
p("P15", "Requests from server to client have unique ids",
  "Every request that the server sends to the client carries an id that no earlier request to the client in the session had, whatever tasks send at the same time.",
  "schedules histories", "all interleavings of tasks that send requests",
  "A reused id shows only when two tasks interleave at particular points.",
  [CL], [("id counter", CL)])
p("P16", "Responses of the client reach the request that they answer",
  "A response of the client is delivered to the request with its id, even if it arrives at once, and to no other; a response with a null or unknown id, a second response, or one whose request was given up is ignored and harms nothing.",
  "schedules histories fault_sequences", "all orders of sending, answering and giving up",
  "The tests answer after the request waits; early, late, repeated and abandoned answers are separate interleavings.",
  [CL, CP], [("waiting requests", CP), ("sending", CL)])
p("P17", "The client hears nothing before initialize, but messages",
  "Before initialize has succeeded and after exit, requests and notifications of the server to the client are not sent, and such requests fail with server-not-initialized; only showing and logging messages, asking with a message, and telemetry are always possible. In between, everything is sent.",
  "programs histories schedules", "all methods of the client handle, in every server state",
  "The tests try a few of the methods in one state; each of the methods decides on its own which way to send.",
  [CL], [("gated and ungated sending", CL)])
p("P18", "Every client method sends its own LSP message with its own data",
  "Each method of the client handle sends exactly one message, of the LSP method and kind that it is documented for, carrying the arguments that it was given, and returns the client's answer to it.",
  "inputs programs", "all methods of the client handle and all arguments",
  "The tests cover the notifications; requests, and arguments dropped or swapped within a message, are not covered.",
  [CL], [("client methods", CL)])
p("P19", "The answer of the client is passed on faithfully",
  "A request to the client ends with the result decoded from the client's response, with the error that the client sent, or with an error if the result cannot be decoded; it never makes up a result.",
  "inputs", "all responses of the client",
  "Only one kind of response is tried.",
  [CL], [("sending of requests", CL)])
p("P20", "Serving ends cleanly however it ends",
  "When the input ends or fails, the output is closed or the service has exited, serving stops: what has been accepted is still answered where it can be, the sink of responses is closed, and the call returns instead of hanging or panicking.",
  "fault_sequences histories schedules", "all points at which input, output or service can end",
  "The tests end the input once; every order of the ends of the three parts is a separate schedule.",
  [T], [("serve loop", T)])
p("P21", "A broken output never makes the server panic",
  "If messages can no longer be written, the server stops serving; neither the broken output nor messages still to be sent make it panic.",
  "fault_sequences schedules", "all points at which the output can fail",
  "No test breaks the output.",
  [T], [("serve loop", T)])
p("P22", "Responses and messages share one ordered output, within the limit",
  "All messages to the client, responses as well as the server's own, pass through one writer that writes each whole and drops none; at most the configured number of requests (four by default) is in progress at once.",
  "schedules histories", "all interleavings of responses and messages",
  "The tests see one response at a time.",
  [T], [("serve loop", T)])
p("P23", "Nothing that the peer sends makes the server panic",
  "No byte sequence on the input, no message and no response of the client makes decoding, dispatch, the routing of responses or the encoding of answers panic or exhaust the stack.",
  "inputs", "all inputs of the peer",
  "A panic on unusual input is found by tests only if they have that input.",
  [C, T, R, L, P, CP, Q, RS], [("decoder", C), ("router", R), ("waiting requests", CP)])
p("P24", "No lock is held across a suspension or a nested access",
  "No lock of the tables of requests is held while a task is suspended, while code of the user is called or polled, or while the same table is accessed again, so that tasks cannot deadlock on them.",
  "schedules", "all interleavings of tasks",
  "A deadlock needs an unlucky interleaving in one shard of a table.",
  [P, CP, PR], [("table of requests in progress", P), ("waiting requests", CP)])
p("P25", "Error codes on the wire are those of the specifications",
  "Each predefined error has the code that JSON-RPC or LSP assigns to it, and every code, predefined or not, is unchanged by encoding and decoding.",
  "inputs", "all 64-bit codes",
  "The tests try a few codes.",
  [E], [("error codes", E)])
p("P26", "Messages have the JSON-RPC 2.0 shape on the wire",
  "Every message carries the version 2.0; requests carry a method, params only if there are any, and an id exactly if they expect an answer; responses carry an id, null if unknown, and exactly one of result and error; errors carry a code and a message, and data only if there is any. Messages of another version are refused.",
  "inputs", "all messages",
  "The tests serialize a few messages.",
  [Q, RS, E, J], [("serialization", J)])
p("P27", "Progress reports follow the protocol by construction",
  "Progress is reported only between its begin and its end and never after its end; bounded and unbounded, cancellable and not cancellable progress cannot be mixed; every report carries the token of its stream and the kind that it is named after. Programs that violate the order do not compile.",
  "programs histories", "all programs that use the progress interface",
  "What must not compile cannot be tested by running.",
  [PR], [("progress type states", PR)])
p("P28", "Custom methods are gated like built-in ones and cannot replace them",
  "A custom method runs its callback only on an initialized server, and a callback registered under the name of a built-in method never replaces it.",
  "programs histories", "all names of built-in methods; all server states",
  "The tests register a few names in one state.",
  [S, R], [("builder", S), ("registration", R)])
p("P29", "The loopback ends with the service and its halves agree",
  "Messages of the server to the client are delivered in the order in which they were sent while the server is running; after exit the loopback stream ends and the loopback sink refuses responses, whether or not the loopback was split in two.",
  "histories schedules", "all states of the server, joined or split loopback",
  "The tests poll the loopback in one state.",
  [SO, CL], [("client socket", SO)])
p("P30", "Telemetry data has the shape that LSP requires",
  "Telemetry data that is an object, an array or null is sent as it is, any other value as the single element of an array.",
  "inputs", "all JSON values",
  "The tests send a few values.",
  [CL], [("telemetry", CL)])

p("P31", "Incoming messages are recognised for what they are",
  "JSON with a method is decoded as a request, or without an id as a notification; JSON with a result or an error as a response; whatever the order of its members and whatever others there are, with exactly the id (a null id is one), method, params, result or error that it carries. A method or an id of another kind is refused, never replaced by a default.",
  "inputs", "all combinations and orders of members of messages; all contents",
  "The tests decode a few well-formed messages in one order of members.",
  [J, Q, RS, E], [("messages", J)])

p("P32", "Everything can be used from any task and thread",
  "The service, the futures of its calls, the serving future, the client handle and the futures of its methods, the loopback and its halves, progress and its futures, requests, responses, ids and errors can be moved between threads, and client handles and messages can be cloned and shared by them, for every backend, transport and service whose own parts can be. What can be moved is decided when programs are built; no program loses it.",
  "programs configurations", "all programs that move these values between threads or spawn these futures; all backends, transports and services; both runtime features",
  "A value that cannot be moved makes programs of users fail to build, and the tests run everything on one thread.",
  [CL, PR, SO, S, T, LIB, J], [("client handle", CL), ("serving", T), ("boxed futures of handlers", R)])
p("P33", "The library leaves the process to its user",
  "The library starts no threads or tasks and needs no particular executor; it never sleeps, waits by blocking the thread, or ends the process; it uses no files, network, standard input or standard output of its own; and it changes neither the environment, the panic hook nor the logging of the process. All its work happens in the futures that the user polls, with the input and output that the user gave it.",
  "inputs schedules fault_sequences", "all executions of all functions of the crate, generated ones included",
  "An effect on the process shows only on the path that has it, such as a failed read, an error of the service or exit.",
  [T, S, L, P, CL, CP, SO, C, R], [("serving", T), ("exit layer", L)])
p("P34", "Ids keep their kind and value",
  "Two ids are equal exactly if they are of the same kind and have the same content: a number never equals the string of its digits, and null equals null. Copies are equal to the original, and ids made from numbers, strings or the ids of LSP have the kind and the whole value of what they are made from.",
  "inputs", "all pairs of ids, all numbers and strings",
  "The tests compare and convert a few ids.",
  [J], [("ids", J)])
p("P35", "Messages keep what they are made of",
  "The method, id, params, result or error that a request or response is built from, in whatever order, is what its accessors return and what it is taken apart into, null and empty values included; of two calls of the builder for one member the last counts. Copies of messages are equal to the original, two messages are equal exactly if all their members are, and text is read as the JSON that it is.",
  "inputs", "all contents of messages and all orders of building them",
  "The tests build a few messages.",
  [Q, RS, J, E], [("requests and their builder", Q), ("responses", RS)])

p("P36", "Each service stands alone, around the one backend it was given",
  "Building a service calls the user's function once, with the client whose messages come out of the socket that is returned; all handlers, built-in and custom, run on the backend which that function made, and inner() gives access to it. The service, all its methods, its socket and its client work on one state, one set of reserved ids and one set of pending requests, which no other service in the process shares.",
  "configurations histories", "all backends, all sets of custom methods, any number of services in a process",
  "The tests build one service at a time and hardly use its socket; state that is shared between services, or not shared within one, shows only when they are used together.",
  [S, CL, SO, L, R, M], [("building a service", S), ("client and socket", CL), ("router", R)])

p("P37", "A pending poll is woken when it can go on",
  "Whenever a poll that the library implements itself is pending (readiness of the service, of its layers and handlers and of the client handle, the streams and sinks of the loopback, the steps of serving), something that it polled with the waker of its own caller is pending too and outlives that poll. None waits for a condition that wakes nobody, throws away what it polled, or polls with another waker, so no task sleeps for ever on what has already happened.",
  "schedules", "all orders of polls and events",
  "The tests poll things that are ready, in one task that is polled again anyway; a lost wake-up shows only if the awaited event comes after the poll, from another task.",
  [SO, L, S, CL, T, R], [("readiness of the service", S), ("loopback", SO), ("serving", T)])

p("P38", "Every documented use compiles, and misuse does not",
  "Programs that use the library as documented compile, for every backend, input, output, service, loopback, handler and message that the documentation admits (backends that can be neither cloned nor printed, makers that borrow, outputs that cannot be moved, services with other errors, generic handlers, closures with data of their own, any serializable telemetry), and misuse is refused by the compiler: a backend without initialize or shutdown or one that threads cannot share, copying the service or its socket, serving, splitting or finishing twice, methods added to a finished service, requests, responses, clients and exits out of nothing, handlers whose params or results have no JSON.",
  "programs", "all programs that are written against the public interface",
  "A test is one program; it says nothing about the programs of others, and a test for what must not compile cannot be part of the suite.",
  [S, T, CL, SO, P, R, Q, RS, E, L], [("building a service", S), ("serving", T), ("client", CL), ("handlers", R), ("backends", L)])

NOT = {
    "P40": ("Progress under saturation", "Whatever handlers wait for, further input (cancellations and responses of the client) is still read while the limit of requests in progress is reached.",
            "schedules histories", "all sets of blocked handlers", "needs schedules", [T],
            "Liveness under a bounded number of running handlers depends on what user handlers wait for and on queue capacities at run time; no static rule over this code decides it (the bound itself makes the claim false for handlers that wait for each other)."),
    "P41": ("Notifications take effect in the order of arrival", "Handlers of notifications run to completion in the order in which the notifications arrived.",
            "schedules", "all interleavings of handlers", "needs schedules", [T],
            "The server runs handlers concurrently on purpose, and how far each gets between suspensions is decided by user code and the executor at run time."),
    "P42": ("Typed messages survive a round trip through JSON", "Decoding the JSON of any message gives an equal message.",
            "inputs", "all message values", "needs all values", [Q, RS, E, J],
            "Equality of values after serialization quantifies over run-time values handled by generated serde code and serde_json; the structural part is decided by P25 and P26."),
    "P43": ("Memory stays bounded", "The memory used for unfinished input, unanswered requests and queued messages is bounded.",
            "histories", "all sessions", "needs histories", [C, CP],
            "The size of a message is what the peer announces and the number of waiting requests is what user code creates; neither has a bound in the source."),
}
for k, (t, s, o, x, w, fl, r) in NOT.items():
    p(k, t, s, o, x, "The tests do not reach it: " + w + ".", fl, [("see DESIGN.md", fl[0])])


def main():
    from vf.check import RULES
    root = os.path.dirname(HERE)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in PROPS:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in PROPS:
        i = x["id"]
        if i in RULES:
            g, feats, tech, assume = RULES[i]
            short = tech.split(";")[0]
            checks.append({
                "property": i,
                "quick_cmd": "python3 -m vf.check %s" % i,
                "thorough_cmd": "VERIF_TIER=thorough python3 -m vf.check %s" % i,
                "technique": "static analysis: " + short,
                "level": "other",
                "level_note": "Decided from the type-checked source of every run, for %s: %s. Trusts: rustc's MIR and %s." % (
                    " and ".join({"tokio": "the tokio runtime", "agnostic": "the runtime-agnostic feature"}[z] for z in feats), tech,
                    "; ".join(assume) if assume else "the models of library functions in vf/models.py and vf/engine.py"),
            })
        else:
            na.append({"property": i, "reason": NOT[i][6] if i in NOT else "The check for this property is not finished yet."})
    man = {
        "version": 1,
        "setup_cmd": "python3 -m vf.setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks analyse MIR extracted from /repo's working tree by the rustc driver in driver/; nothing of tower-lsp is executed. No hooks in /repo.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
