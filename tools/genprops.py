#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the file is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe, "hook_needed": hook}})

W = "web/"
p("R01", "The first registered route whose method and pattern match is the one executed",
  "For any routing table built from string, regular-expression and custom patterns, and any request method and path, a mux executes exactly the handler that trying the routes one after another in registration order would execute: the first route whose pattern matches and whose method set contains the request's method. If no route qualifies, the not-found handler (and nothing else) is executed. This stays true when routes are added after requests have already been served and whether or not the table was compiled explicitly.",
  ["inputs", "programs", "histories"], "all routing tables (any number, order, overlap and kind of pattern), all methods, all request paths, all interleavings in one goroutine of registering and serving",
  "The tests route a handful of hand-written tables; the table is sorted, turned into a pseudo-trie and lowered to a byte-code state machine whose jumps, cursor resets and prefix sharing depend on the whole set of prefixes and on the order they were added in.",
  ["web/router.go", "web/bytecode_compiler.go", "web/bytecode_runner.go", "web/mux.go"],
  [("order-preserving insertion sort on prefixes", "web/router.go: router.handle"), ("trie + byte-code compiler", "web/bytecode_compiler.go"), ("state machine interpreter", "web/bytecode_runner.go: routeMachine.route")],
  ["which handler ran (handler identity) for each request served through Mux.ServeHTTP"])
p("R02", "String patterns match and bind exactly as the pattern syntax says",
  "A string pattern matches a path iff the path is the pattern's literal text with each ':name' (introduced after one of '/', '.', ';', ',') replaced by a non-empty run of characters that contains neither '/' nor the break character that follows the name in the pattern, and, if the pattern ends in '/*', followed by an arbitrary rest. On a match every name is bound to its run (the last one wins if a name is repeated) and '*' to the unmatched tail including its leading '/'; bindings already present in the context are kept unless rebound. The prefix a pattern advertises is a prefix of every path it matches.",
  ["inputs"], "all string patterns and all request paths, including empty, non-ASCII, and adversarially similar ones",
  "The tests enumerate a few dozen pattern/path pairs; the parser and matcher must agree for every pattern and path.",
  ["web/string_pattern.go", "web/pattern.go", "web/web.go"],
  [("pattern parser", "web/string_pattern.go: parseStringPattern"), ("matcher", "web/string_pattern.go: stringPattern.match")],
  ["ParsePattern(..).Prefix/Match/Run results", "URLParams seen by handlers"])
p("R03", "Regular-expression patterns are anchored at the start and bind their groups",
  "A regular-expression pattern matches a path iff the expression, taken as a whole, matches starting at the first byte of the path. On a match, and only for the route that is executed, each capturing group is bound under its name, or under '$1', '$2', ... if it has none. The prefix the pattern advertises is a prefix of every path it matches, so putting the pattern into a routing table never hides a match.",
  ["inputs", "programs"], "all Perl-style regular expressions (alternations, flags, anchors, nested groups, classes, repetition) and all paths including ones that are not valid UTF-8",
  "The tests use five expressions, none with a top-level alternation, flags or non-UTF-8 input; anchoring and prefix extraction walk the regexp compiler's internal program, whose shape depends on the expression.",
  ["web/regexp_pattern.go"],
  [("left anchoring and prefix extraction", "web/regexp_pattern.go: sketchOnRegex"), ("matching and binding", "web/regexp_pattern.go: regexpPattern.match")],
  ["ParsePattern(..).Prefix/Match/Run results", "which handler ran and its URLParams"])
p("R04", "Routes that are not selected leave no trace in the request",
  "While a request is routed, patterns are consulted in registration order and only the selected route's pattern is run, exactly once, after its match succeeded and with the request's own context; no pattern is consulted after the selected one. The URL parameters the handler sees are exactly those present before routing overlaid with those of the selected route; routes that match the path but not the method, or do not match, contribute nothing, and the request's method and URL are unchanged.",
  ["inputs", "programs"], "all routing tables mixing pattern kinds and methods, all requests, all initial contexts",
  "Tests check parameters one pattern at a time; contamination by a rejected route needs a table where a rejected and a selected route both bind names.",
  ["web/bytecode_runner.go", "web/router.go", "web/string_pattern.go", "web/regexp_pattern.go"],
  [("match first, then method check, then run", "web/bytecode_runner.go: matchRoute"), ("side-effect-free Match", "web/*_pattern.go: Match")],
  ["call log of instrumented custom patterns", "URLParams seen by the handler"])
p("R05", "The not-found handler is told exactly which methods would have been routed",
  "When no route is selected, the environment key for valid methods holds the sorted, duplicate-free list of exactly those standard HTTP methods with which an otherwise identical request would have been routed, and is not set if there is none. Everything else in the environment is preserved. When a route is selected the key is not set by routing.",
  ["inputs", "programs"], "all routing tables, methods (including non-standard ones) and paths",
  "One test checks a fixed table of four routes; the list must be exact for every overlap of routes and methods.",
  ["web/router.go", "web/bytecode_runner.go"],
  [("method accumulation", "web/bytecode_runner.go: matchRoute"), ("list construction", "web/router.go: router.getMatch")],
  ["Env as seen by the not-found handler", "re-issuing the request with every method"])
p("R06", "Routes can be added while serving: each request sees a consistent table",
  "Registering routes, compiling the table and serving requests may happen concurrently without data races. Every request is answered as if the registrations had happened one at a time, each at some instant between its call and its return, and the request had been routed at one instant: a route whose registration has returned is visible to every request that starts later, and relative order of overlapping routes is the order in which they took effect.",
  ["schedules", "histories"], "all interleavings of concurrent registrations, explicit compilations and requests, including the first request after a registration",
  "No test registers a route while requests are in flight; correctness depends on where the lock, the atomic pointer and the copy-on-write slice updates interleave.",
  ["web/router.go", "web/atomic.go"],
  [("copy-on-write route slice under a lock", "web/router.go: router.handle"), ("atomically published compiled machine", "web/atomic.go, web/router.go: router.compile")],
  ["history of register/serve operations at the API boundary", "Go race detector"],
  hook="none in source; statement-level yield injection by a build overlay")
p("R07", "Explicit routing information agrees with what dispatch would do and is obeyed",
  "After the routing middleware has run, the environment holds a match whose handler and pattern are those plain dispatch would have selected (with no pattern and the not-found handler if none), the original pattern and handler values passed at registration can be recovered from it, URL parameters are already bound, and dispatch then executes that match's handler without routing again. Any well-formed match that middleware puts into the environment is executed instead of routing; if it is removed, or is not a well-formed match, routing happens as usual.",
  ["inputs", "programs"], "all routing tables, all kinds of patterns and handlers, all requests, all ways middleware may add, replace or remove the match",
  "One test checks a single table and three raw pattern values.",
  ["web/match.go", "web/mux.go", "web/router.go"],
  [("routing middleware", "web/mux.go: routerMiddleware"), ("match lookup at dispatch", "web/router.go: router.route"), ("raw value recovery", "web/match.go")],
  ["Env between routing middleware and handler", "handler executed", "number of times patterns are consulted"])
p("R08", "Only usable patterns, handlers and middleware can be registered",
  "Every value of a documented form (patterns: values implementing Pattern, strings, pointers to regular expressions; handlers: values implementing http.Handler or Handler and the two documented function types; middleware: the two documented function types) is accepted by every function that takes one, on a Mux and in package goji, and from then on takes part in requests as its form says. Any other value, nil and functions of merely similar or named types included, ends the process with a failure status and a logged message naming the value's type, in the registering call and never only when a request arrives, and the program cannot continue past it. Naming something unacceptable as the middleware to insert before or to remove is an ordinary error that changes nothing.",
  ["inputs", "programs", "histories"], "all values and types, all registering functions, all sequences of earlier registrations, served requests and compilations",
  "Refusing ends the process, so no existing test passes an unacceptable value anywhere; the accepted forms are tested with one example each.",
  ["web/pattern.go", "web/handler.go", "web/middleware.go", "web/mux.go", "default.go"],
  [("pattern forms", "web/pattern.go: ParsePattern"), ("handler forms", "web/handler.go: parseHandler"), ("middleware forms", "web/middleware.go: mStack.appendLayer")],
  ["exit and log output of the registering process", "responses and layers passed after accepted registrations"])
p("M01", "Middleware edits take effect exactly, in order, for every later request",
  "After any sequence of appending, inserting-before and removing middleware, each request passes through exactly the layers of the edited list, each once, outermost first, before reaching the router, and back out in reverse. Insert and remove act on the first (outermost) layer identical to the one named and report an error, changing nothing, iff there is none. Requests that were served before an edit never cause a later request to see the old stack.",
  ["histories", "programs"], "all sequences of edits (with duplicate layers, closures, method values, both function types) interleaved with requests, including requests that short-circuit or panic",
  "The tests perform a few short edit sequences; stacks are built once and cached, and slices are edited in place, so what a request sees depends on the whole history.",
  ["web/middleware.go", "web/func_equal.go", "web/cpool.go"],
  [("in-place slice edits", "web/middleware.go: mStack.Insert/Abandon"), ("pool invalidation", "web/middleware.go: mStack.invalidate/release"), ("function identity", "web/func_equal.go")],
  ["enter/leave trace of every layer per request", "returned errors"])
p("M02", "A request's context is never visible to another request",
  "Each request entering a mux starts with exactly the context it was given (empty when entered as a plain net/http handler), and every layer, pattern and handler of that request observes only that request's context for its whole duration, including after inner layers return. This holds for any number of concurrent requests, for requests handled while another one on the same mux is in progress in the same goroutine, and after requests that panicked, and involves no data race.",
  ["schedules", "histories"], "all interleavings of concurrent, nested, short-circuited and panicking requests on shared muxes",
  "One test checks a single sequential sequence of contexts and one runs requests concurrently without looking at contexts; reuse bugs need particular reuse orders.",
  ["web/middleware.go", "web/cpool.go", "web/mux.go"],
  [("pooled pre-built stacks with an embedded context", "web/middleware.go: cStack, mStack.alloc/release"), ("context reset on entry and release", "web/middleware.go: cStack.ServeHTTP, mStack.release")],
  ["tokens planted in Env/URLParams, read back at every layer", "Go race detector"],
  hook="none in source; statement-level yield injection by a build overlay")
p("M03", "Contexts and arguments reach every kind of handler through nested muxes",
  "Whatever accepted form a handler has, it is called exactly once with the very response writer and request the mux was given and, if it can take a context, with the mux's current context; values that offer both the context and the plain interface get the context. Muxes nested as handlers receive the parent's parameters and environment, and changes to that environment made inside are visible outside afterwards; when a context-aware handler is used as a plain net/http handler it receives an empty context.",
  ["inputs", "programs"], "all accepted handler forms, all nesting structures of muxes and plain handlers, all contexts",
  "One test calls each handler form once without nesting.",
  ["web/handler.go", "web/web.go", "web/mux.go", "web/middleware.go"],
  [("handler adaptors", "web/handler.go"), ("context entry point", "web/mux.go: Mux.ServeHTTPC"), ("HandlerFunc", "web/web.go")],
  ["arguments observed inside handlers at each nesting depth"])
M = "web/middleware/"
p("B01", "Sub-routing shows each level its own suffix and restores everything on exit",
  "With the sub-routing middleware, a nested mux routes on exactly the unmatched suffix its parent bound (under '*', or under '_' for regular expressions, with the same meaning), without being misled by routing information of the parent. When it returns or panics, the request path and the parent's explicit routing information are exactly what they were before. If no suffix was bound, the request is passed on unchanged.",
  ["inputs", "programs", "fault_sequences"], "all nesting depths and mixes of string and regular-expression mount points, with and without explicit routing at each level, with returning and panicking handlers",
  "One test mounts one level and only checks that it terminates.",
  ["web/middleware/subrouter.go", "web/match.go"],
  [("path and match swap with deferred restore", "web/middleware/subrouter.go: subrouter.ServeHTTP")],
  ["URL.Path and Env match before, inside and after each level"])
p("B02", "Automatic OPTIONS answers exactly the OPTIONS requests that would be 404s",
  "With the automatic-options middleware, an OPTIONS request for which no route is selected but whose path is routable with other methods, and which would be answered 404, gets status 200, an Allow header listing exactly the routable methods plus OPTIONS, and no body. Every other request, and every other response the application chooses, reaches the client exactly as without the middleware.",
  ["inputs", "programs"], "all routing tables, methods, paths, and not-found handlers (any sequence of header and body writes)",
  "Four fixed cases are tested.",
  ["web/middleware/options.go"],
  [("response proxy state machine", "web/middleware/options.go: autoOptionsProxy")],
  ["response with and without the middleware (differential)"])
p("B03", "Request IDs are unique, well-formed and stable within a request",
  "Every request passing the request-ID middleware gets an ID 'host/random-counter' with a 10-character alphanumeric random part and a counter of at least six digits; no two requests in a process ever get the same ID however they are interleaved, and different processes have different random parts. The ID can be read back through the accessor anywhere later in the same request, and the accessor yields the empty string for contexts without one.",
  ["schedules", "inputs"], "all interleavings of concurrent requests, through one or several muxes; all contexts",
  "Nothing tests it.",
  ["web/middleware/request_id.go"],
  [("atomic counter", "web/middleware/request_id.go: RequestID"), ("random process prefix", "web/middleware/request_id.go: init")],
  ["IDs collected over concurrent requests and processes"])
p("B04", "The recoverer contains every panic and answers 500 when it still can",
  "If anything inside the recovering middleware panics with any value, the panic does not propagate, the panic value (with the request ID if there is one) is logged, with a backtrace that shows where it happened in the log or on standard error, and the client receives status 500 if no response had been started, or the already chosen status otherwise. Requests that do not panic are unaffected, and later requests on the same mux behave as if the panic had not happened.",
  ["inputs", "fault_sequences"], "all panic values and all points in a response at which the panic happens",
  "Nothing tests it.",
  ["web/middleware/recoverer.go"],
  [("deferred recover", "web/middleware/recoverer.go: Recoverer")],
  ["response as seen by a client", "captured log output"])
p("B05", "The logger writes one truthful start and end line per request",
  "For every request that returns, the logging middleware writes exactly one start line, before the request is handled, with the request's method, URL and remote address, and exactly one end line, after it, whose status is the one the client received (200 if the handler chose none) and whose duration is not shorter than the handling; both carry the request ID if there is one. When standard output is a terminal the lines are in color, ending in the terminal's normal colors, and when it is not a device they contain no color codes; what they say is the same. The response is otherwise unchanged, also for concurrent requests.",
  ["inputs", "schedules"], "all requests, response patterns and interleavings of concurrent requests",
  "Nothing tests it.",
  ["web/middleware/logger.go", "web/mutil/writer_proxy_go1_8.go"],
  [("status capture by a writer proxy", "web/middleware/logger.go: Logger, web/mutil")],
  ["captured log lines against the responses clients received"])
p("B06", "The response-writer proxy is transparent and accounts exactly",
  "A proxied response writer passes every operation through so that the client receives what it would have received without the proxy (at most one final status, informational responses included), offers flushing whenever the underlying writer does, offers hijacking and streamed copying when the underlying writer offers flushing, hijacking and copying together, and never fails because the underlying writer lacks a capability. At every moment the reported status is the final status sent (0 if none), the reported byte count is the number of body bytes the underlying writer accepted whichever way they were written, and the tee'd writer has received exactly those bytes written while it was set. The underlying writer's errors take precedence and short writes are reported as they are.",
  ["inputs", "fault_sequences", "programs"], "all operation sequences, all combinations of optional interfaces of the underlying writer, HTTP/1.1 and HTTP/2, all write errors and short writes",
  "Nothing tests it.",
  ["web/mutil/writer_proxy_go1_8.go"],
  [("writer proxies", "web/mutil/writer_proxy_go1_8.go")],
  ["log of calls reaching an instrumented underlying writer", "bytes on the wire", "Status/BytesWritten/tee content after each step"])
p("B07", "Bundled header and environment middleware do what they document for any input",
  "No-cache removes every conditional-request header from the request the application sees and sets the four documented response headers to the documented values in any process time zone. Real-IP sets the remote address to the first (comma-space separated) entry of X-Forwarded-For if that header is non-empty, else to a non-empty X-Real-IP, else leaves it alone. URL-query stores the parsed query and environment-init guarantees a non-nil environment, both keeping what was there, and each passes the request on exactly once with the same writer and request.",
  ["inputs", "configurations"], "all header combinations and values, query strings, initial contexts and process time zones",
  "Two middlewares have one test each, comparing with the package's own constants.",
  ["web/middleware/nocache.go", "web/middleware/realip.go", "web/middleware/urlquery.go", "web/middleware/envinit.go"],
  [("header tables", "web/middleware/nocache.go"), ("header parsing", "web/middleware/realip.go")],
  ["request and context seen by the inner handler", "response headers"])
L = ["graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/listener/listener.go"]
p("L01", "Idle shedding closes exactly the connections its mode defines as idle",
  "A wrapped connection starts idle; it becomes in use by an explicit mark or, except in manual mode, by a read, and idle again by an explicit mark or, in deadline mode only, by setting the read deadline. Closing idle connections closes every managed connection that is idle and no other, and leaves the listener usable; draining does the same, refuses (and closes) new connections, closes each remaining connection the moment it becomes idle, and returns once none is left. Marking or disowning a connection that is not managed is reported as an error.",
  ["histories", "inputs"], "all sequences of accept, read, deadline, mark, close, disown, close-idle, drain operations over many connections in all three modes",
  "Each test drives one connection through two or three operations.",
  L, [("idle/busy state machine", "graceful/listener/conn.go"), ("idle and all sets per shard", "graceful/listener/shard.go")],
  ["closes observed on the wrapped transport after each operation"])
p("L02", "A connection that has delivered data is never shed until marked idle",
  "In automatic and deadline modes, once a read has successfully delivered data to the server, concurrent idle-shedding or draining never closes that connection until it is marked idle again; and if shedding closes a connection first, no read on it delivers data afterwards. Conversely a connection that is idle for the whole duration of a shedding call is closed when that call returns, unless another such call is just closing it. In any mode, marking a connection in use succeeds only if it has not been closed before, and protects it in the same way.",
  ["schedules"], "all interleavings of reads, marks and shedding/draining calls on many connections",
  "One ten-second randomised test samples a few interleavings, at one drain point, without a race detector and without checking late reads.",
  L, [("closed/busy handshake after read", "graceful/listener/conn.go: conn.Read"), ("re-check under the connection lock", "graceful/listener/conn.go: closeIfIdle, markIdle")],
  ["total order of read returns, mark calls and transport closes", "Go race detector"],
  hook="none in source; statement-level yield injection by a build overlay")
p("L03", "Draining returns exactly when no managed connection is left",
  "A drain does not return while any managed connection accepted before it is still open, and does return once every one has been closed or disowned, whatever else (accepts, closes, disowns, other drains) happens concurrently. From the moment a drain has returned no connection is handed out any more: each one still arriving is closed and its accept fails.",
  ["schedules", "histories"], "all interleavings of accepts, closes, disowns and concurrent drains over many connections",
  "Tests drain with one connection or once at the end of a random run; premature return or lost wake-ups need accepts and closes racing with the drain.",
  L, [("per-shard wait group and drain flag", "graceful/listener/shard.go"), ("tracking at accept", "graceful/listener/conn.go: conn.init")],
  ["transport close events against drain call/return events", "accept results", "stall detector"],
  hook="none in source; statement-level yield injection by a build overlay")
p("L04", "Forced draining closes everything except disowned connections",
  "A forced drain closes every managed connection, idle or in use, and waits for it. A connection that was successfully disowned is never closed, waited for or otherwise touched by the listener again, no matter how disowning interleaves with shedding, draining or forced draining; disowning a connection that is already closed or disowned fails.",
  ["schedules", "histories"], "all interleavings of disown, close, shedding, drain and forced drain on many connections",
  "The tests disown strictly before or after other operations.",
  L, [("forced close loop", "graceful/listener/shard.go: closeConns"), ("disown", "graceful/listener/conn.go: disown")],
  ["transport closes against successful disown events"])
p("L05", "Connection accounting stays exact under any concurrent use",
  "Under any concurrent mix of operations on a wrapped listener and its connections (repeated closes, closing while reading, disowning after closing, late marks) nothing panics, deadlocks or races, each managed connection's transport is closed exactly once, and errors and data of the wrapped listener and transport are passed through unchanged. Once a connection is closed or disowned the listener keeps no reference to it.",
  ["schedules", "histories", "fault_sequences"], "all interleavings and sequences of operations, with failing transports",
  "No test closes twice, fails a transport or looks at what stays referenced.",
  L, [("close-once state", "graceful/listener/conn.go: Close/closeIfIdle/markIdle/disown"), ("set maintenance", "graceful/listener/shard.go")],
  ["transport call counts", "panics, race reports, stalls", "reachability after garbage collection"],
  hook="none in source; statement-level yield injection by a build overlay")
G = ["graceful/signal.go", "graceful/serve13.go", "graceful/graceful.go"] + L
p("G01", "Graceful shutdown completes every request whose handler has started",
  "After a graceful shutdown begins, every request whose handler is running, or starts running, gets its complete response; idle keep-alive connections are closed and new connections are refused (or, if accepted at that very moment, closed unserved) without waiting for those requests. Serve then returns without error, and the shutdown call and the wait call return only after all connections of all served listeners are closed.",
  ["schedules", "histories"], "all mixes of idle, active, partially read, pipelining, streaming and uploading connections on one or several servers, and all instants at which shutdown may begin",
  "No test in this package compiles on current Go; the guarantee involves the interplay of the HTTP server's own states, the listener wrapper and the shutdown sequence.",
  G + ["graceful/server.go"], [("connection state hook", "graceful/serve13.go: connState.Wrap"), ("close and drain every listener", "graceful/signal.go: closeListeners"), ("peaceful accept errors", "graceful/graceful.go: peacefulError")],
  ["client-side responses, server-side handler events and return events of a child process"],
  hook="none in source; statement-level yield injection by a build overlay")
p("G02", "Shutdown hooks run once, in order, strictly around the connection teardown",
  "However many shutdowns are requested (graceful or immediate, by call or by signal, concurrently or repeatedly), every pre-hook runs exactly once, in registration order, one at a time, before any listener or connection is closed; every post-hook runs exactly once, in order, after all served connections are closed and before any wait or shutdown call returns. Hooks may use the package themselves: what they register runs too, and nothing deadlocks. Hooks that take a signal receive the one that caused the shutdown, or nil for a manual one.",
  ["schedules", "histories"], "all numbers and orders of hooks, all concurrent combinations of shutdown requests",
  "Nothing tests it.",
  ["graceful/signal.go"], [("once-guarded phases", "graceful/signal.go: shutdown")],
  ["event log of hooks, transport closes and returns in a child process"])
p("G03", "Shutdown escalates to immediate exactly when asked to",
  "An immediate shutdown, a second signal within the double-kick window, or the expiry of the timeout after a signal closes all connections including busy ones and lets waiting callers proceed; before the timeout has elapsed, with a second signal outside the window, or with these features disabled, busy connections are left alone. Only registered signals trigger a shutdown (registering none registers nothing), and none does after the registrations are reset.",
  ["histories", "configurations"], "all sequences of signals and shutdown calls, all window and timeout settings (zero and negative included)",
  "Nothing tests it.",
  ["graceful/signal.go"], [("signal loop", "graceful/signal.go: sigLoop"), ("forced drain", "graceful/signal.go: shutdown/closeListeners")],
  ["fate of a busy connection and order of events in a child process"])
p("G04", "Hijacked connections are left to their new owner",
  "Once a handler has hijacked its connection, neither graceful nor immediate shutdown closes it or waits for it; its new owner can use and close it as long as it likes. The application's own connection-state callback still sees every state change.",
  ["schedules", "histories"], "all instants of hijacking relative to graceful or immediate shutdown",
  "Nothing tests it.",
  ["graceful/serve13.go", "graceful/listener/conn.go"], [("disown on hijack", "graceful/serve13.go: connState.Wrap")],
  ["traffic over hijacked connections during and after shutdown in a child process"])
p("G05", "Serving TLS gracefully honours the whole supplied configuration",
  "A server started for TLS by this package applies every setting of the TLS configuration it was given (certificate checks and callbacks included), does not modify the caller's configuration, and without one enforces TLS 1.0 or later. Requests are served, and drained, as over plain connections, and handlers see the request's TLS state.",
  ["configurations", "inputs"], "all TLS configurations and client behaviours",
  "Nothing tests it.",
  ["graceful/server.go", "graceful/clone16.go"], [("configuration cloning", "graceful/clone16.go"), ("TLS listener under the graceful wrapper", "graceful/server.go: ListenAndServeTLS")],
  ["handshake outcomes and callback invocations seen by real TLS clients"])
p("G06", "Wrapped listeners take part in shutdowns, and Serve reports what else ends it",
  "A listener passed to WrapListener takes part in shutdowns: a graceful one closes it and its idle connections at once, each other connection as soon as it becomes idle (when its read deadline is set, or it is marked), and leaves those in use and disowned alone; an immediate one closes all but disowned ones; waiting callers return once, and not before, none is left. A listener that is already managed is returned as it is and keeps its mode. One that is registered (by WrapListener or Serve) once a shutdown has begun is closed as well. Serve returns nil if its listener's closing in a shutdown ended it, and otherwise the listener's own error.",
  ["histories", "schedules"], "all histories of connections on wrapped listeners before and during shutdowns; all errors of listeners",
  "Nothing tests WrapListener together with a shutdown.",
  ["graceful/graceful.go", "graceful/listener/conn.go", "graceful/listener/shard.go", "graceful/signal.go"], [("wrapping and registration", "graceful/graceful.go: WrapListener, appendListener"), ("error filtering", "graceful/graceful.go: peacefulError")],
  ["transports closed and callers waiting after every step of a shutdown", "what Serve returns"])
p("G07", "Until a shutdown begins, a graceful server serves exactly as net/http does",
  "Started in any of the ways this package offers and with any server configuration, a server behaves exactly as net/http's own with that configuration as long as no shutdown begins: clients get the same answers to the same conversations (malformed, oversized, pipelined, upgraded, abandoned and HTTP/2 ones included), handlers see the same requests, contexts and writer capabilities, time and header limits are enforced, state callbacks and the error log are told the same, and starting and serving fail with the same errors. The server handed in is not modified. Connections accepted by Serve from a TCP listener, or by ListenAndServe, have TCP keep-alives enabled.",
  ["inputs", "programs", "fault_sequences"], "all server configurations and ways of starting, all sequences of bytes sent by clients, all handlers",
  "The tests never start a server of this package; what net/http does depends on methods of the connections and listeners it is given, which this package replaces.",
  ["graceful/server.go", "graceful/serve13.go", "graceful/listener/conn.go", "graceful/listener/listener.go"],
  [("shadow server", "graceful/serve13.go: Server.Serve"), ("wrapped connections", "graceful/listener/conn.go"), ("keep-alives", "graceful/server.go: tcpKeepAliveListener")],
  ["bytes received by clients", "what handlers and callbacks observe", "error log", "socket options", "results of Serve and ListenAndServe"])
p("D01", "The default bind address follows the documented precedence",
  "The default socket is taken from, in order, the explicit flag, GOJI_BIND, Einhorn (only if its recorded master is this process's parent and it passed at least one socket), systemd (only if its recorded process is this one and it passed at least one socket), PORT, and the fallback; launcher values that are malformed or meant for another process are ignored.",
  ["configurations"], "all combinations of environment variables (present, absent, malformed, meant for another process) and flags",
  "Nothing tests it.",
  ["bind/bind.go", "bind/einhorn.go", "bind/systemd.go"], [("environment sniffing", "bind/bind.go: Sniff, WithFlag"), ("launcher detection", "bind/einhorn.go: einhornInit, bind/systemd.go: systemdInit")],
  ["Sniff result and bound address in child processes"])
p("D02", "Bind strings are interpreted as documented and bind the right socket",
  "A bind string containing a colon binds that TCP address; otherwise one starting with '/' or '.' binds a UNIX socket at that path, 'fd@N' adopts descriptor N and 'einhorn@N' the N-th Einhorn socket; the returned listener accepts the connections made to exactly that socket, and closing it lets go of the socket. Everything else, and anything that cannot be bound, ends the process with an error instead of returning.",
  ["inputs", "configurations"], "all bind strings and launcher environments",
  "Nothing tests it.",
  ["bind/bind.go", "bind/einhorn.go"], [("bind string dispatch", "bind/bind.go: listenTo"), ("einhorn socket lookup", "bind/einhorn.go: einhornBind")],
  ["listener address and accepted connections in child processes", "exit status and message"])
p("D03", "Launcher sockets do not leak and readiness is announced exactly once",
  "Descriptors received from Einhorn or systemd are not inherited by processes the application starts. Announcing readiness sends exactly one well-formed acknowledgement carrying this process's ID to Einhorn's control socket however often and however concurrently it is requested, and does nothing when not running under Einhorn; Einhorn's sockets can be bound after it as well as before.",
  ["schedules", "configurations"], "all numbers of passed descriptors, all concurrent calls, all launcher environments",
  "Nothing tests it.",
  ["bind/bind.go", "bind/einhorn.go", "bind/systemd.go"], [("close-on-exec marking", "bind/einhorn.go, bind/systemd.go"), ("once-guarded acknowledgement", "bind/bind.go: Ready, bind/einhorn.go: einhornAck")],
  ["descriptor table of grandchild processes", "bytes received on a control socket"])
p("A01", "The default application serves, logs, recovers and stops gracefully end to end",
  "An application using only the default mux serves its routes on the default socket behind request IDs, logging, panic recovery and automatic OPTIONS, in that order; other handlers registered with net/http keep working. Served over TLS, it applies the TLS configuration it was given. On an interrupt it stops accepting, finishes requests in progress, reports that it stopped and exits successfully; on a second interrupt within two seconds it stops at once. This holds for interrupts from the moment it announces its readiness. If its listener fails otherwise, it reports the error and exits unsuccessfully.",
  ["histories", "schedules"], "all request mixes and all instants of the interrupts",
  "Nothing tests it: the package has no tests.",
  ["default.go", "serve.go", "bind/bind.go", "graceful/signal.go"], [("default stack", "default.go: init"), ("serve sequence", "serve.go: ServeListener")],
  ["responses, log output and exit status of a child process"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
