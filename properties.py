#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
from registry import CHECKS  # noqa: E402

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    PROPS.append({
        "line": {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                        "observe_at": observe, "hook_needed": None}},
        "technique": technique, "note": note})


prop("C01", "Breakpoint condition and watch expressions mean what they say",
     "For every expression text, the debugger accepts it exactly when it follows the expression "
     "grammar, and an accepted expression evaluates, for every assignment of 64-bit values to its "
     "symbols, to the value its operators and their precedence prescribe. Evaluation never ends "
     "the simulation: division by zero and malformed input give a defined outcome, and one "
     "expression never changes the meaning of another.",
     ["inputs", "programs"], "all expression texts, all values of the symbols",
     "the tests evaluate about a dozen fixed expressions on fixed values; precedence, "
     "associativity, number formats, symbol spelling and faulty input are combinatorial",
     ["src/eval.cc", "src/eval.hh"],
     [("PEG grammar and shunting of operators", "src/eval.cc"),
      ("DebugExpression::eval", "src/eval.cc")],
     ["DebugExpression::correct/symbols/eval"],
     "property-based testing: generated expressions against a reference evaluator and parser",
     "Random search against an independent parser and evaluator; bounded expression depth. "
     "64-bit two's complement is assumed for overflow; magnitudes above 64 bits are only checked "
     "not to crash.")

prop("C02", "Every client message is understood exactly or refused",
     "For every byte string a client sends, the debugger either understands it as the request it "
     "spells out, with every field at the value given and documented defaults for the rest, or "
     "refuses it with an error. It never aborts the simulation and never acts on a request with "
     "fields the client did not send.",
     ["inputs"], "all messages: well-formed requests with any member values, order and extra "
     "members, requests with missing or wrongly typed members, arbitrary JSON, arbitrary text",
     "the tests parse one fixed message per request type and two or three bad ones",
     ["src/proto.cc", "src/proto.hh"],
     [("Request::parse_request and the per-type parse_payload", "src/proto.cc")],
     ["Request::parse_request, status, error reason, accessors"],
     "property-based testing: generated messages against a model of the protocol",
     "Random search; the model of the protocol is written from the documentation and the parser "
     "(which fields are required, defaults). JSON number spellings are restricted to integers "
     "and simple reals.")

prop("C03", "What hgdb writes on the wire is what the other side reads back",
     "Every response to a client is one valid JSON document that carries the request's token, "
     "the status and exactly the data of the answer, whatever characters the data contains. "
     "Every query to and answer from a remote symbol table comes out the other end with the same "
     "meaning, and an answer that makes no sense is dropped without ending the simulation.",
     ["inputs"], "all response contents and symbol-table queries and answers, any strings, any "
     "64-bit ids and values, damaged and arbitrary answers",
     "the tests compare a handful of fixed answers with no special characters",
     ["src/proto.cc", "src/proto.hh"],
     [("Response::str", "src/proto.cc"), ("SymbolRequest / SymbolResponse", "src/proto.cc")],
     ["Response::str, SymbolRequest::str, SymbolResponse::parse/str"],
     "property-based testing: round trips through an independent JSON reader and writer",
     "Random search with an independent strict JSON parser as the oracle; strings are valid "
     "UTF-8.")

prop("C04", "The symbol table answers with what it says about the design",
     "For every valid JSON symbol table, each query (breakpoints by file, line and column, "
     "instances, variables in scope, generator variables, assignments, annotations, execution "
     "order, name resolution) returns exactly what the document says: every statement once per "
     "instance, with the conjunction of the enclosing conditions, the variables declared before "
     "it in scope, and a consistent set of ids. Source path mappings translate exactly the files "
     "in the mapped directories, in both directions.",
     ["inputs", "programs"], "all symbol tables that follow the schema: any nesting of scopes, "
     "modules and instances, file scopes, shared variables, loops, and all queries on them",
     "the tests load a few fixed tables and look at a few answers",
     ["src/db.cc", "src/symbol.cc", "src/db.hh"],
     [("JSON symbol table loading and queries", "src/db.cc"),
      ("path mapping and name resolution", "src/symbol.cc")],
     ["SymbolTableProvider queries"],
     "property-based testing: generated symbol tables, every query against a reference model",
     "Random search over a grammar of symbol tables; the oracle derives the answers from the "
     "generated structure. SQLite tables cannot be built here (no sqlite_orm).")

prop("C05", "Any symbol table document is loaded or refused, never fatal",
     "For every byte string offered as a symbol table, loading either succeeds or is refused; it "
     "never crashes, hangs or corrupts the simulation, and a refusal leaves nothing half loaded. "
     "The verdict and the answers are the same whether the document comes from a file or from "
     "memory.",
     ["inputs"], "all documents: valid ones with members removed, replaced, duplicated or of the "
     "wrong type, unresolved references, recursive modules, truncations, arbitrary JSON and text",
     "the tests load well-formed tables and three or four bad ones",
     ["src/db.cc", "src/db.hh", "src/symbol.cc"],
     [("schema validation and parsing of the document", "src/db.cc")],
     ["create_symbol_table, JSONSymbolTableProvider, bad(), queries"],
     "property-based testing: structure-aware mutation of generated documents under sanitizers, "
     "file and memory compared",
     "Random search; a document with a schema violation or a dangling reference must be refused, "
     "for the rest only absence of crashes and agreement between both ways of loading is judged.")

prop("C06", "A symbol table written by the generator library is read back unchanged",
     "For every table built with the C++ writer library, whatever names and values it contains, "
     "the text it writes is valid JSON that the debugger loads, and every query on it answers "
     "with what was put in. The compact form answers the same as the plain form.",
     ["inputs", "programs"], "all tables that can be built with the writer's API, any strings",
     "the tests write one or two small tables",
     ["include/json.hh", "src/db.cc"],
     [("writer classes and their serialisation", "include/json.hh"),
      ("compression of shared variables", "include/json.hh")],
     ["SymbolTable::output and the queries of the reader"],
     "property-based testing: round trip through the writer and the reader against a model",
     "Random search; the reader is the one checked by C04.")

DBG_NOTE = ("Random search: the real debugger engine (no stubs in it) runs against a simulated "
            "simulator behind the VPI interface and an in-memory symbol table; every message it "
            "sends and every point where it holds the simulation is compared with a reference "
            "model. Bounded designs, traces and histories. ")

prop("C07", "The simulation stops at exactly the breakpoints that are due, in order",
     "Whatever the design, the signal values and the breakpoints set, updated and removed so far, "
     "continuing stops the simulation exactly at those breakpoints whose statement is active and "
     "whose condition holds in the current clock cycle, in the execution order of the symbol "
     "table, in every instance and namespace. Instances of the same source line stop together "
     "unless single_thread_mode is on; the result does not depend on how many threads evaluate "
     "the conditions. Without a breakpoint due, the simulation is not held.",
     ["inputs", "histories", "schedules"],
     "all designs, clock traces and sequences of breakpoint requests and continue commands, "
     "sequential and threaded evaluation",
     "the scheduling of breakpoints depends on the combination of execution order, conditions, "
     "instances, namespaces and the history of requests; the tests follow a few fixed sessions",
     ["src/debug.cc", "src/scheduler.cc", "src/namespace.cc"],
     [("Debugger::eval and eval_breakpoints", "src/debug.cc"),
      ("Scheduler::next_breakpoints, add/remove/reorder", "src/scheduler.cc")],
     ["messages sent to the clients, points where the simulation is held"],
     "stateful property-based testing: generated designs, traces and request histories against a "
     "reference model of the scheduler; thread sanitizer for the threaded evaluation",
     DBG_NOTE + "Ties in execution order follow the order of insertion.")

prop("C08", "Stepping and going back in time visit the statements in order",
     "From every stop, step over goes to the next active statement of the cycle in execution "
     "order, step back to the previous one, and reverse continue to the previous breakpoint that "
     "is due, across clock cycles when the simulator can rewind and staying at the first one when "
     "it cannot. A jump goes to the time asked for or is refused, and continuing after any of "
     "them resumes from the statement shown.",
     ["inputs", "histories"],
     "all designs, traces and sequences of continue, step over, step back, reverse continue and "
     "jump, with simulators that can and cannot go back",
     "the mode switches interact with the position in the cycle, the evaluated breakpoints and "
     "the rewinding of the simulator; the tests follow single fixed sequences",
     ["src/scheduler.cc", "src/debug.cc", "src/rtl.cc"],
     [("evaluation modes", "src/scheduler.cc"), ("handle_command", "src/debug.cc"),
      ("reverse_last_posedge", "src/rtl.cc")],
     ["stops reported, simulation time, rewinds asked from the simulator"],
     "stateful property-based testing: generated command histories against a reference model of "
     "the evaluation modes and time", DBG_NOTE)

prop("C09", "A stop shows the true state of the design",
     "Every stop reports the time, file, line and column of the statement and, for every instance "
     "that stopped, its full name and every variable in scope with the value the signal has at "
     "that moment in that instance and namespace: current values for ordinary variables, the "
     "value the given number of cycles ago for delayed ones, the constant for constants, in the "
     "number format selected. Expressions evaluated in a frame give the value computed from the "
     "same signals, and a value set by the client is what is shown afterwards.",
     ["inputs", "histories"],
     "all designs, values, scopes, set-value and evaluation requests, option settings, with and "
     "without the signal cache",
     "the tests look at single variables of a fixed design at a fixed time",
     ["src/debug.cc", "src/monitor.cc", "src/rtl.cc"],
     [("send_breakpoint_hit, get_value_str", "src/debug.cc"),
      ("delayed variables", "src/debug.cc, src/monitor.cc"),
      ("signal cache", "src/debug.cc")],
     ["breakpoint responses, evaluation responses, values written to the simulator"],
     "stateful property-based testing: every value in every frame against the simulated design",
     DBG_NOTE + "Delayed values are not judged after the time was rewound.")

prop("C10", "Data breakpoints stop exactly when the watched variable changes",
     "A data breakpoint on a variable stops the simulation at those assignments to it whose "
     "condition holds and that give the variable a new value, in the namespace it was set in and "
     "no other. Removing one stops its watching and leaves all other breakpoints as they are, "
     "clearing removes all of them, and a query or a refused request changes nothing.",
     ["inputs", "histories"],
     "all designs, traces and sequences of adding, querying, removing and clearing data "
     "breakpoints mixed with ordinary ones and stepping",
     "the tests set a single data breakpoint on a fixed design",
     ["src/debug.cc", "src/scheduler.cc", "src/monitor.cc"],
     [("handle_data_breakpoint", "src/debug.cc"),
      ("add/remove/clear_data_breakpoint", "src/scheduler.cc"),
      ("watched values", "src/monitor.cc")],
     ["stops reported, breakpoint listing, responses"],
     "stateful property-based testing against a reference model of watched values", DBG_NOTE)

prop("C11", "Monitored signals are reported when and as they should be",
     "A signal monitored at breakpoints is reported once after every stop, one monitored at clock "
     "edges once per clock cycle, one monitored for changes in exactly those cycles in which its "
     "value differs from the last report, each with its value at that moment and the id the "
     "client was given. The same signal and kind has one id; a removed monitor is silent and "
     "disturbs no other.",
     ["inputs", "histories"],
     "all designs, traces and sequences of adding and removing monitors mixed with breakpoints, "
     "value changes by the client and stepping",
     "the tests monitor one or two signals of a fixed design",
     ["src/monitor.cc", "src/debug.cc"],
     [("Monitor::get_watched_values", "src/monitor.cc"), ("handle_monitor", "src/debug.cc")],
     ["monitor responses"],
     "stateful property-based testing against a reference model of the monitors", DBG_NOTE)

prop("C12", "Every request is answered once, and a refused one changes nothing",
     "In every state of the session, each request gets its one answer, with its token, to the "
     "client that sent it: success with the data asked for, or an error when it refers to "
     "something that does not exist or makes no sense now. A refused or purely informative "
     "request leaves breakpoints, monitors, values and the position unchanged, stop and "
     "disconnecting release the simulation, and no request or order of requests crashes or "
     "blocks the simulation.",
     ["inputs", "histories"],
     "all sequences of well-formed, faulty and ill-timed requests from several clients, including "
     "before a symbol table is loaded and after stopping",
     "the tests send each request in one fixed state",
     ["src/debug.cc", "src/server.cc"],
     [("on_message and the request handlers", "src/debug.cc")],
     ["responses per connection, later behaviour of the session"],
     "stateful property-based testing: generated request histories against a reference model",
     DBG_NOTE)

prop("C13", "Signal names lead to the right signal and its true value",
     "Wherever the debugged design sits in the simulated hierarchy, the debugger finds exactly "
     "the places where it is instantiated and takes every name of the design, however it is "
     "spelled, to the one signal, array element or bit range it names there, reads all its bits "
     "and writes all its bits. Structured variables unfold into exactly their elements. A name "
     "of something that does not exist is refused, monitoring a list of signals is all or "
     "nothing, and the simulator is never asked about an object it does not have.",
     ["inputs", "histories"], "all hierarchies, signal widths and values, arrays, packed arrays "
     "and structs, spellings of names, kinds of simulators (with and without indices in names "
     "and definition names), sequences of lookups, writes and callbacks",
     "the tests look up a dozen names in one hierarchy of 32-bit signals on one simulator",
     ["src/rtl.cc", "src/rtl.hh"],
     [("compute_instance_mapping, get_full_name", "src/rtl.cc"),
      ("get_handle, slices, array access", "src/rtl.cc"),
      ("get_value, get_str_value, set_value", "src/rtl.cc"),
      ("resolve_rtl_variable", "src/rtl.cc"),
      ("callbacks, monitor_signals", "src/rtl.cc")],
     ["RTLSimulatorClient's answers and the VPI calls it makes"],
     "stateful property-based testing: generated designs behind the VPI functions, every answer "
     "against the design",
     "Random search; the simulator is a stand-in that follows the VPI standard (one buffer for "
     "all strings, only known handles accepted) in six flavours. 32-bit signals count as signed; "
     "integers of signals above 64 bits are not judged.")

prop("C14", "Waveform files are read as written, and damaged ones cannot hang the reader",
     "For every well-formed value change dump, whatever its layout, the reader reports exactly "
     "the scopes, variables, timestamps, dump sections and value changes of the file, in the "
     "order of the file and with the time that applies. A file that is cut off or damaged at any "
     "byte is read up to the damage: everything before it is reported unchanged and reading "
     "ends.",
     ["inputs", "crash_points"], "all well-formed dumps (any white space, identifiers, 64-bit "
     "times, vectors of any width, upper case), every truncation point, token- and byte-level "
     "damage",
     "the waveform tests read two files produced by simulators",
     ["tools/vcd/vcd.cc", "tools/vcd/vcd.hh"],
     [("VCDParser::parse and its callbacks", "tools/vcd/vcd.cc")],
     ["VCDParser callbacks, result of parse"],
     "property-based testing: generated dumps against the event list they were written from",
     "Random search; real-valued and string-valued changes are only required not to disturb the "
     "rest, values are compared without case.")

prop("C15", "Messages reach exactly their addressees; holds end only by release",
     "For every history of clients that connect, send, are sent to and disconnect (properly or "
     "not), in any interleaving with the simulation, each message of a client reaches the "
     "debugger once, unchanged, in order and under that client's own identity, and each message "
     "of the debugger reaches exactly the connected clients it is addressed to (all, one, or a "
     "topic), in order; that all clients are gone is noticed each time. A held simulation goes "
     "on exactly when it is released and no release is lost. Requests that arrive while the "
     "simulation is running are answered and take effect without disturbing what was set before "
     "them, and stopping the server at any moment is harmless.",
     ["schedules", "histories"], "all sequences and interleavings of connections, "
     "disconnections, messages in both directions, topics, holds and releases, and requests at "
     "any point of the evaluation of a clock edge",
     "the tests have one client that waits for each answer; lost wake-ups, races between the "
     "simulation and the server, and ids that are mixed up show only under particular schedules",
     ["src/server.cc", "src/thread.cc", "src/debug.cc"],
     [("DebugServer", "src/server.cc"), ("RuntimeLock", "src/thread.cc"),
      ("Debugger::eval, on_message, detach, stop", "src/debug.cc")],
     ["frames on real sockets, calls of the message and disconnect handlers, stops"],
     "stateful property-based testing with real sockets and threads against a model of who "
     "receives what; requests injected at chosen points of the evaluation; thread and address "
     "sanitizers",
     "Random search over schedules; races inside websocketpp and asio are not judged. A failure "
     "that depends on the schedule counts when it happens again in reruns.")


prop("C16", "A remote symbol table answers as the table it stands for",
     "For every symbol table served over the network protocol, every query through the remote "
     "symbol table gives the answer the served table gives, whatever the texts in it and also "
     "when several threads ask at once, each getting the answer to its own question. A remote "
     "table that cannot be reached, answers something unusable, or goes away at any moment never "
     "holds up the debugger: the query gives no answer and later queries return too.",
     ["inputs", "schedules", "fault_sequences"], "all tables, all queries in any order and from any "
     "number of threads, and a connection that breaks, is refused or sends something else at any "
     "point",
     "the tests serve one table to one thread over a connection that never fails; a lost wake-up "
     "or an answer handed to the wrong thread hangs the simulation only in particular schedules",
     ["src/symbol.cc", "src/proto.cc", "src/db.cc"],
     [("NetworkSymbolTableProvider, NetworkProvider", "src/symbol.cc"),
      ("SymbolRequest, SymbolResponse", "src/proto.cc")],
     ["queries of the remote table over a real web socket, and an own server for the other end"],
     "differential property-based testing: the remote table against the table behind it, over "
     "real sockets; injected connection faults; several threads, thread and address sanitizers",
     "Random search. Web sockets only: the plain TCP scheme has no framing and never worked; "
     "delays of delayed variables are not part of the protocol.")


prop("C17", "Replaying a waveform shows what was simulated",
     "For every well-formed value change dump, the replay simulator has exactly the instances "
     "and signals of the dump (also those sharing an identifier) under their full names, and at "
     "every time their values, elements of packed arrays included, are the recorded ones. "
     "Playing the dump reports every change of a watched signal once, in order, with its time "
     "and new value while all other signals still read as before that time, and rewinding goes "
     "to the last rising clock edge before the time asked for and continues from there. A "
     "converted dump that was stored answers like the dump itself.",
     ["inputs", "histories"], "all dumps (hierarchy, identifiers, widths, shortened and unknown "
     "values, spacing of changes) and all histories of callbacks added, removed and rewound",
     "the tests replay four recorded dumps with one clock that changes every five or ten time "
     "units and no net shared between modules",
     ["tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc", "tools/hgdb-replay/vcd_db.cc",
      "tools/vcd/vcd.cc"],
     [("EmulationEngine", "tools/hgdb-replay/engine.cc"),
      ("ReplayVPIProvider", "tools/hgdb-replay/vpi.cc"),
      ("VCDDatabase", "tools/hgdb-replay/vcd_db.cc")],
     ["the waveform provider, the simulator interface (VPI) on top of it, the debugger's own "
      "simulator client, and the engine's callbacks"],
     "model-based property-based testing: generated dumps and callback histories, the generated "
     "history itself as the oracle; address and undefined behaviour sanitizers",
     "Random search. sqlite_orm is not installed: a stand-in for the part used, on the real "
     "SQLite, takes its place. FSDB files are not covered.")


prop("C18", "An SQLite symbol table answers with what was stored in it",
     "For every SQLite symbol table stored through the library's schema functions, in any order, "
     "every query (breakpoints by place and id with condition and trigger, instances, context "
     "and generator variables with their full signal names, annotations, file and array names, "
     "execution order, assignments of a variable) answers with exactly the stored rows that "
     "match. With a path mapping, questions are asked and answered in the user's paths.",
     ["inputs"], "all contents of all tables, in any order of storing, with any texts, and all "
     "questions",
     "the tests store a handful of rows whose texts and ids do not interfere, and never ask by id "
     "for a breakpoint with a trigger or with a mapping that maps onto itself",
     ["src/db.cc", "include/schema.hh", "src/symbol.cc"],
     [("DBSymbolTableProvider", "src/db.cc"), ("init_debug_db, store_*", "include/schema.hh"),
      ("create_symbol_table, path mapping", "src/symbol.cc")],
     ["a database file written by the schema functions, opened by create_symbol_table"],
     "model-based property-based testing: generated tables, the generated rows as the oracle; "
     "address and undefined behaviour sanitizers",
     "Random search. sqlite_orm is not installed: a stand-in for the part used, on the real "
     "SQLite, takes its place. The depth of delayed variables has no column in the schema and is "
     "outside.")


prop("C19", "A session starts as configured, and clients can come, leave and come again",
     "The simulation is held at its start unless this is switched off, the server listens on the "
     "configured port, and the breakpoints of the environment, those that make sense up to the "
     "first gap, are set with every symbol table that is loaded. Whenever a client connects, at "
     "the start, at a stop, between clock edges, again, or after all clients have left, it gets "
     "the symbol table it asks for with the namespaces of that table, none of the breakpoints set "
     "before, and stops that hold the simulation. A symbol table that cannot be read is refused "
     "and leaves a session in which requests are refused and the simulation runs undisturbed.",
     ["inputs", "histories"],
     "all combinations of arguments and environment, simulators, and histories of connections to "
     "good and bad symbol tables mixed with stops, requests and disconnects",
     "the tests connect once, to a table that exists, and set no option at the start",
     ["src/debug.cc", "src/namespace.cc", "src/sim.cc"],
     [("run, initialize_db, handle_connection, detach, setup_init_breakpoint_from_env", "src/debug.cc"),
      ("compute_instance_mapping", "src/namespace.cc"),
      ("initialize_hgdb_runtime_vpi", "src/sim.cc")],
     ["the port handed to the server, whether the simulation is held, answers and stops"],
     "stateful property-based testing: generated start-up options and connection histories against "
     "a reference model",
     DBG_NOTE)
prop("C20", "A rewritten waveform is the same waveform under the names of the source",
     "hgdb-rewrite-vcd writes every scope, variable, time and value change of its input, in order "
     "and with equal types, widths and identifiers, into a file the waveform reader accepts; the "
     "only change is that a variable of an instance of the design which the symbol table relates "
     "to a source name has that name, in scopes that follow its parts. Scopes outside the design "
     "and variables the table does not know keep their names. Waveforms that are damaged, and "
     "tables that do not fit, end in an error or an unchanged part, never in a crash.",
     ["inputs"],
     "all waveforms (scopes, types, widths, several roots) and symbol tables, and damaged waveforms",
     "the tests rewrite two waveforms and compare them with stored ones",
     ["tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc", "tools/vcd/vcd.cc"],
     [("VCDReWriter", "tools/hgdb-rewrite-vcd/hgdb-rewrite-vcd.cc"),
      ("VCDParser", "tools/vcd/vcd.cc")],
     ["the written file and the exit status"],
     "property-based testing: generated waveforms and tables, the output compared with the input "
     "under the names the table prescribes; damaged waveforms",
     "argparse and sqlite_orm are replaced by stand-ins. Real values are not generated: the reader "
     "drops them.")
prop("C21", "The Python bindings speak the language of the debugger",
     "Every method of the Python client sends the request its arguments mean, in the form the "
     "debugger accepts, and returns, raises or queues what the debugger answers; stops are "
     "delivered once and in order. A symbol table server in Python answers every query of the "
     "debugger with what its methods return. A symbol table built with the Python classes is "
     "accepted by the debugger and means the scopes, statements, variables and instances that were "
     "put in.",
     ["inputs", "histories"],
     "all calls of the client with all arguments, answers and stops in between; all tables; all "
     "queries",
     "the tests of the bindings use a few fixed calls and one fixed table",
     ["bindings/python/hgdb/client.py", "bindings/python/hgdb/db.py",
      "bindings/python/hgdb/symbol.py"],
     [("HGDBClient", "bindings/python/hgdb/client.py"),
      ("SymbolTableProvider", "bindings/python/hgdb/symbol.py"),
      ("JSONSymbolTable, Module, Scope, Variable", "bindings/python/hgdb/db.py")],
     ["requests as parsed by the debugger, results of the calls, queries of the written table"],
     "property-based testing: generated calls, tables and queries run by the Python code, judged "
     "by the debugger's own parser, symbol table reader and remote provider",
     "websockets and the compiled module _hgdb are not installed and replaced by pipes or left "
     "out. The order of name and module of an instance is a known finding.")

prop("C22", "A replayed session is the live one",
     "On a replayed waveform the debugger stops at the same statements, at the same times and with "
     "the same values, and sends the same monitored values, as in a live simulation with these "
     "values at its clock edges, in whatever order a client steps, goes on, goes back and jumps. The "
     "replay plays every clock edge after its start once and in order unless a client goes back, "
     "ends with stop or when nobody listens, and refuses to change values.",
     ["inputs", "histories"],
     "all designs, waveforms, start times and histories of requests",
     "the test of the tool replays one waveform with fixed requests; the database, the VPI stand-in, "
     "the engine and the debugger have to agree on what the time and the values at an edge are",
     ["tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc", "tools/hgdb-replay/vcd_db.cc",
      "tools/vcd/vcd.cc", "src/debug.cc", "src/rtl.cc", "src/sim.cc"],
     [("EmulationEngine::emulation_loop, on_rewound", "tools/hgdb-replay/engine.cc"),
      ("ReplayVPIProvider", "tools/hgdb-replay/vpi.cc"),
      ("Debugger::eval", "src/debug.cc")],
     ["every message of the debugger", "callbacks of the engine with their times"],
     "stateful property-based testing: generated designs, waveforms and client histories on the "
     "replay tool and the debugger, against the reference model of the live session",
     DBG_NOTE + " sqlite_orm is replaced by a stand-in on the installed SQLite.")

prop("C23", "hgdb-db prints what the symbol table answers",
     "For every symbol table loaded at the start or with load, each query of hgdb-db prints exactly "
     "what the table answers, in its order: the name of an instance, the list of instances, the "
     "breakpoint with an id, all breakpoints at a file, file:line or file:line:column, the variables "
     "of a breakpoint or of an instance with their values, and the assignments of a variable. A "
     "query without a table and a place that is malformed or out of range are reported, print no "
     "entry and never end the tool.",
     ["inputs", "histories"],
     "all symbol tables in JSON or SQLite and all sequences of load, menu and query commands",
     "the tool has no tests at all; its answers depend on table, query and what was loaded before",
     ["tools/hgdb-db/hgdb-db.cc", "src/symbol.cc", "src/db.cc"],
     [("get_breakpoint, get_instance, get_assign_info, render", "tools/hgdb-db/hgdb-db.cc"),
      ("create_symbol_table", "src/symbol.cc")],
     ["what the tool prints for each command", "its exit status"],
     "stateful property-based testing: generated tables and sessions typed into the tool, whose "
     "output is compared with the answers of the symbol table asked directly",
     "The command-line library (cli) is not installed and replaced by a stand-in that reads typed "
     "lines, as is sqlite_orm. Layout (indentation, colour) is not judged.")

prop("C24", "hgdb-replay debugs a waveform from the command line",
     "For every readable VCD file, symbol table and command line, hgdb-replay serves a client on the "
     "port it was given and stops, from the start time on, at every clock edge and statement where "
     "the breakpoints and steps asked for apply, with the time, place, instance and the values the "
     "waveform had before that edge, whichever way its options are written or ordered, whether or "
     "not its database is kept or found again, and however clients come and go before. The tool "
     "then ends by itself with success; a missing file, another format or unknown arguments end it "
     "with an error.",
     ["inputs", "histories", "schedules"],
     "all waveforms, tables, option orders and client sessions up to the end of the replay",
     "the tool's main program has no test; what it shows depends on waveform, table, command line "
     "and session together",
     ["tools/hgdb-replay/hgdb-replay.cc", "tools/hgdb-replay/engine.cc", "tools/hgdb-replay/vpi.cc",
      "src/debug.cc", "src/rtl.cc"],
     [("get_args, set_port, main", "tools/hgdb-replay/hgdb-replay.cc"),
      ("EmulationEngine", "tools/hgdb-replay/engine.cc"),
      ("initialize_hgdb_runtime_vpi", "src/debug.cc")],
     ["the stops, times, places and values sent to a client over its socket",
      "the exit status and diagnostics of the tool"],
     "stateful property-based testing of the whole program: generated waveforms, tables, command "
     "lines and client sessions against a reference model of the stops and values",
     "The program runs as a child process with a real socket. The argument library (argparse) is not "
     "installed and replaced by a stand-in, as is sqlite_orm; FSDB files are not built.")


def main():
    ids = [p["line"]["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["line"]) + "\n")
    checks = []
    for p in PROPS:
        i = p["line"]["id"]
        assert i in CHECKS, i
        checks.append({
            "property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    manifest = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks,
                "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    import jsonschema
    with open("/root/.vp/PROPERTIES.schema.json") as f:
        schema = json.load(f)
    for p in PROPS:
        jsonschema.validate(p["line"], schema)
        assert p["line"]["statement"].count(". ") <= 2, p["line"]["id"]
    with open("/root/.vp/MANIFEST.schema.json") as f:
        jsonschema.validate(manifest, json.load(f))


main()
