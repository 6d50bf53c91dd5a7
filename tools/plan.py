#!/usr/bin/env python3
"""Writes plan.json: which builds and phases decide each property, and how."""
import json, os
P = {}
def p(id, technique, *phases, **kw):
    P[id] = dict(technique=technique, phases=[list(x) for x in phases], **kw)
MAIN = ("plain", "main")
p("R01", "generated routing tables served by the real mux; online oracle that tries the routes one by one", MAIN)
p("R02", "generated string patterns and paths; online oracle from an independent backtracking matcher", MAIN)
p("R03", "generated regular expressions and paths; online oracle from the regexp package's own leftmost match", MAIN)
p("R04", "instrumented patterns record every Match and Run call; trace checked online against the selection rule", MAIN)
p("R05", "generated routing tables; online oracle probing every standard method with an identical request", MAIN)
p("R06", "recorded concurrent histories checked for linearizability (porcupine) against an ordered route list; visible-after-return monitor", MAIN, ("race", "race"))
p("R07", "routing middleware observed by identity against plain dispatch; hostile matches injected", MAIN)
p("R08", "child processes register acceptable values of every form, are served, and are then given an unacceptable one; responses, exits and log output compared with the documented forms", MAIN, tags="app")
p("M01", "instrumented layers record enter and leave events; trace compared with a list model", MAIN)
p("M02", "every layer and handler checks a per-request token; concurrent, nested and panicking requests", MAIN, ("race", "race"))
p("M03", "identity of writer, request and context observed in handlers of every form", MAIN)
p("B01", "nested mux trees observed at every level against a model of suffixes; path and environment compared on return and panic", MAIN)
p("B02", "the same scripted application served with and without the middleware over real connections; responses compared by an online oracle", MAIN)
p("B03", "every ID handed out is recorded and checked for form, stability and uniqueness across requests and processes", MAIN, ("race", "race"))
p("B04", "scripted panics at every point of a response; client response and log output checked against a model", MAIN)
p("B05", "log output of scripted, concurrent requests parsed and matched with what each client received", MAIN)
p("B06", "scripted operation sequences on proxied writers mirrored on unproxied ones; response, status, count and tee compared after every step", MAIN)
p("B07", "state found by the inner handler compared with the documented one for generated requests; processes in different time zones", MAIN)
CONC = [MAIN, ("pert", "pert"), ("race", "race")]
p("L01", "operation sequences on fake transports; closed set and results compared with a sequential model after every step; stall detection when connections become idle around a drain", *CONC)
p("L02", "connections served while being shed; transport state asserted at every point of every request, and after shedding calls", *CONC)
p("L03", "event order of accepts, closes, disowns and drains recorded with a logical clock and checked against drain returns; stall detection", *CONC)
p("L04", "disowns racing with forced drains held open by gated transports; transport state checked against Disown results", *CONC)
p("L05", "chaotic concurrent use with close counters on transports, weak pointers for retention, stall detection", *CONC)
p("G01", "one logical clock over handlers, closings and returns; every handler that started is matched with what its client received", *CONC)
p("G02", "one logical clock orders hooks, transport closings and returns; trace checked against the documented order", *CONC)
p("G03", "scripted escalations; fate of a busy connection compared with what was asked for", MAIN, ("pert", "pert"))
p("G04", "traffic over hijacked connections during and after shutdowns; connection state callbacks compared with net/http's own", *CONC)
p("G05", "each TLS client also connects to a reference crypto/tls listener with an identical configuration; results, states and callbacks compared; caller's configuration compared with a snapshot; drained over TLS", *CONC)
p("G06", "connections of wrapped listeners brought into random states and shut down; transports and waiting callers compared with a model after every step; Serve's result compared with its listener's error", *CONC)
p("G07", "the same scripted conversations held with a graceful and a net/http server of identical random configuration; responses, handler observations, callbacks, logs and errors compared; socket options read from the kernel", *CONC)
p("D01", "child processes started in chosen environments as Einhorn, systemd or a shell would; which socket they serve on, found by connecting to every candidate, compared with the documented precedence", MAIN)
p("D02", "child processes binding generated strings and serving on what they get; connections made from outside, results compared with the documented forms", MAIN)
p("D03", "descriptors and environment of child processes inspected before and after; acknowledgements recorded by a fake Einhorn master and matched with calls of Ready", *CONC)
p("A01", "whole applications as child processes; responses, log lines, probes between the default middleware, signals and exits compared with the documented behaviour", *CONC, tags="app")
json.dump(P, open(os.path.join(os.path.dirname(__file__), "..", "plan.json"), "w"), indent=1)
