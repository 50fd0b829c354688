prop("C01", "Every client request is answered exactly once",
     "For every request a client sends, whatever its type, content and the debugger's state, the "
     "debugger sends exactly one response to it: never none and never two. The only request that "
     "may stay unanswered is a stop command, which shuts the server down.",
     ["inputs", "histories"], "every request message and every debugger state it can arrive in",
     "The debugger's request handlers are not exercised by the tests that build here, and the "
     "upstream ones sample a few well-formed requests on the success path.",
     ["src/debug.cc", "src/proto.cc"],
     [("one send per path through the handlers", "src/debug.cc Debugger::on_message, handle_*")],
     "path-sensitive dataflow: count of response sends on every path of the request dispatcher",
     "Distinguishes states by the guards the code tests.")
prop("C07", "The breakpoint list is never used by two threads at once",
     "Client requests may insert, remove, clear, list or reorder breakpoints at any moment while "
     "the simulation thread evaluates them; every access to the shared list of breakpoints and "
     "the set of inserted ids happens under the one lock that protects them.",
     ["schedules"], "all interleavings of client requests and breakpoint evaluation",
     "A race needs an unlucky schedule; the tests are single-threaded.",
     ["src/scheduler.cc", "src/scheduler.hh"],
     [("breakpoint lock", "src/scheduler.cc")],
     "interprocedural lockset analysis (guarded-by)",
     "A pointer to a breakpoint handed out to the evaluation loop is outside this property.")
prop("C08", "The server's connection tables are never used by two threads at once",
     "Clients connect, disconnect, subscribe and unsubscribe on the network thread while the "
     "simulation thread sends to them; every access to the open connections, the connection ids "
     "and the topic subscriptions happens under the connection lock.",
     ["schedules"], "all interleavings of network events and messages being sent",
     "A race needs an unlucky schedule; the tests use one client at a time.",
     ["src/server.cc", "src/server.hh"],
     [("connection lock", "src/server.cc")],
     "interprocedural lockset analysis (guarded-by)")
prop("C09", "Simulator access and shared caches are race free",
     "Evaluation threads, the network thread and simulator callbacks share the simulator "
     "interface, the signal handle, type and size caches, the signal value cache, the instance "
     "name cache, the callback table, the watched variables and the symbol table connection. "
     "Each of them is used under its own lock, and the simulator is only ever called under the "
     "simulator lock.",
     ["schedules"], "all interleavings of evaluation threads, client requests and callbacks",
     "A race needs an unlucky schedule; the tests are single-threaded.",
     ["src/rtl.cc", "src/debug.cc", "src/monitor.cc", "src/symbol.cc", "src/db.cc", "src/perf.cc"],
     [("one lock per shared structure", "src/rtl.hh, src/debug.hh, src/monitor.hh, src/db.hh")],
     "interprocedural lockset analysis (guarded-by), escape of guarded references")
prop("C10", "The debugger's threads cannot deadlock on its locks",
     "No interleaving of client requests, disconnects, breakpoint evaluation and shutdown leaves "
     "threads waiting for each other's locks: locks are taken in one global order, no thread takes "
     "a lock it already holds, every lock taken is released, and no thread blocks waiting for "
     "another one while it holds a lock that the other needs.",
     ["schedules"], "all interleavings of the debugger's threads",
     "A deadlock needs an unlucky schedule; the tests are single-threaded.",
     ["src/server.cc", "src/scheduler.cc", "src/debug.cc", "src/rtl.cc", "src/monitor.cc",
      "src/symbol.cc", "src/thread.cc"],
     [("lock order, scoped guards", "src/*.cc")],
     "lock-order graph, relock and blocking-wait analysis over the call graph")
prop("C05", "Malformed messages are refused, well-formed ones are accepted",
     "For every byte sequence a client can send: a message that is not JSON, lacks a required "
     "member, has a member of the wrong type, or uses an unknown type, action or keyword is refused "
     "with status error and a reason; a message that has every documented required member with "
     "the documented type is accepted, with or without the optional ones; and the parser never "
     "reads a JSON value as a string, number, object or member table without having established "
     "that it is one (which would abort the simulation).",
     ["inputs"], "every message text",
     "The tests feed a handful of well-formed messages and two malformed ones.",
     ["src/proto.cc", "src/proto.hh"],
     [("member access helpers and payload parsers", "src/proto.cc *::parse_payload, get_member, "
       "check_member, Request::parse_request")],
     "path-sensitive abstract interpretation of the payload parsers with a typestate for JSON "
     "values, compared with the documented member table",
     "The member table is taken from the protocol documentation at the head of src/proto.cc.")
prop("C02", "Responses go to the requester and identify the request",
     "Whatever requests arrive from however many clients, each response is sent to the connection "
     "its request came from and to no other, carries that request's token when it had one, names "
     "the type of request it answers, and is written with its header (request=false, type, "
     "status, token). Connection ids are never reused, messages are attributed to the connection "
     "they arrived on, closed connections are forgotten, and a message for a connection is "
     "written to that connection.",
     ["inputs", "histories"], "all request types, outcomes and numbers of clients",
     "The tests use one client and never look at a token.",
     ["src/debug.cc", "src/server.cc", "src/proto.cc", "src/proto.hh"],
     [("token and address through the handlers", "src/debug.cc handle_*, send_message"),
      ("connection tables", "src/server.cc"), ("response writers", "src/proto.cc *::str")],
     "path-sensitive abstract interpretation: provenance of the address, the token and the "
     "written header along every path from message to send",
     "The websocket library is trusted to deliver what is written to a connection.")
prop("C03", "Success is reported exactly when the request was carried out",
     "For every request a client can send and every way its parts can fail: a success response is "
     "sent only if everything the request asks for was done, an error response only if it was not, "
     "and an error response gives a reason. Each kind of request can succeed.",
     ["inputs", "histories"], "all request forms and outcomes of the operations they need",
     "The tests exercise few requests, and failures of the simulator or the symbol table hardly at "
     "all.",
     ["src/debug.cc"],
     [("request handlers", "src/debug.cc handle_*, add_breakpoint, send_error")],
     "path-sensitive abstract interpretation of the handlers for each request form: outcome of "
     "each operation against the status sent",
     "An operation's own report of success is taken at its word here; the operations have their "
     "own properties.")
prop("C06", "Each request does what it asks for, and nothing else",
     "For every request form in the protocol: the operations performed are the ones the request "
     "names, with the request's own file, line, column, condition, id, scope, expression, value, "
     "time, options and mapping as arguments; an operation on a location is applied to every "
     "breakpoint there; breakpoints are put back into evaluation order after being added; the new "
     "evaluation mode is set before the simulation resumes; what is sent back is what was asked "
     "for (locations, values, monitor ids, debugger information of the requested kind); and no "
     "other state-changing operation happens.",
     ["inputs", "histories"], "all request forms and paths through their handlers",
     "The tests exercise few requests, with one breakpoint and one instance.",
     ["src/debug.cc"],
     [("request handlers", "src/debug.cc handle_*, add_breakpoint")],
     "path-sensitive abstract interpretation of the handlers: provenance of the arguments of each "
     "operation, order of operations, loop coverage",
     "The per-request specification lists operations (Scheduler, SymbolTableProvider, RTL client, "
     "Monitor, options, lock); what these do is the subject of other properties.")
prop("C15", "A breakpoint pauses the simulation exactly when its condition holds",
     "For every set of inserted breakpoints and every signal history: in each evaluated clock cycle "
     "every breakpoint handed out by the scheduler is evaluated once, however the batch is split "
     "among threads, and its result is kept at its own place; a breakpoint is a hit exactly if its "
     "expression is valid, all its values could be read, the condition is not 0, one of its "
     "triggers changed since the last evaluation (or it has none) and, for a data breakpoint, the "
     "watched variable changed. The condition is the conjunction of the one in the symbol table and "
     "the one given by the user, whatever operators they contain; when stepping, the symbol table's "
     "alone. Exactly the hits of a batch are sent, the simulation pauses after they have been sent "
     "and not otherwise, and evaluation goes on until the scheduler has nothing left.",
     ["inputs", "histories", "schedules"], "all breakpoints, conditions, modes and batch sizes",
     "The tests evaluate a few breakpoints with simple conditions, hardly any triggers, and never "
     "enough breakpoints for several threads.",
     ["src/debug.cc", "src/scheduler.cc"],
     [("evaluation", "src/debug.cc eval, eval_breakpoints, eval_breakpoint, should_trigger, "
       "set_expr_values"), ("conditions", "src/scheduler.cc add_breakpoint")],
     "path-sensitive abstract interpretation of the evaluation functions (truth of the result "
     "against what the path established), symbolic text of the composed condition, index "
     "arithmetic of the batch ranges",
     "What the expression evaluator computes and which breakpoints the scheduler hands out are "
     "separate matters.")
prop("C16", "Conditions are evaluated with the simulation's current values",
     "Whatever the options, and whatever the user does while the simulation is paused (set a value, "
     "reverse, jump): breakpoint conditions and triggers are evaluated with the values their own "
     "signals have at that moment, in the breakpoint's own namespace. Values are only remembered "
     "while the user has the value cache turned on, only for the signal they were read from, and "
     "are dropped at the start of every clock cycle, when the simulation may have been moved to "
     "another time, and when the user sets the signal. Delayed values move on once per cycle.",
     ["inputs", "histories"], "all option settings and request histories",
     "The value cache is off by default and no test combines it with setting values or moving in "
     "time.",
     ["src/debug.cc"],
     [("value lookup", "src/debug.cc get_signal_value"),
      ("cycle start and evaluation loop", "src/debug.cc start_breakpoint_evaluation, eval"),
      ("set value", "src/debug.cc handle_set_value")],
     "typestate of the remembered values (fresh, possibly stale) along every path of the evaluation "
     "cycle, provenance of keys and values",
     "The simulator is trusted to report the values it has at the time it is asked.")
prop("C17", "Breakpoints are visited in the execution order of the symbol table",
     "For every symbol table, every set of inserted breakpoints and every history of commands: the "
     "breakpoint list is kept in the execution order of the symbol table. Within a cycle, continue "
     "visits the inserted breakpoints after the last one evaluated, each at most once, until none is "
     "left, and reverse-continue those before the current one, going back to the previous cycle "
     "before the first; step over goes to the statement right after the current one in the order "
     "(the first at the start of a cycle) and ends the cycle after the last, step back goes to the "
     "one right before and from the first to the end of the previous cycle. What stops together are "
     "consecutive breakpoints of one source location (file, line and column) and enable condition in "
     "different instances, never with a data breakpoint, and only if the user did not ask for one at "
     "a time. Every cycle starts with nothing evaluated; a change of the mode does too. A breakpoint "
     "carries the id, location, instance and namespace it was made from. Removing takes away "
     "exactly the breakpoints of that id, and of one needed for something else only that part.",
     ["inputs", "histories"], "all symbol tables, breakpoint sets and command histories",
     "The tests step through three statements of one design, hardly ever in reverse, and never with "
     "several breakpoints per line.",
     ["src/scheduler.cc", "src/debug.cc"],
     [("what comes next", "src/scheduler.cc next_*_breakpoints, scan_breakpoints"),
      ("bookkeeping", "src/scheduler.cc add_breakpoint, remove_breakpoint, reorder_breakpoints, "
       "start_breakpoint_evaluation"), ("insertion", "src/debug.cc handle_breakpoint*")],
     "path-sensitive abstract interpretation with a symbolic position in the execution order: which "
     "element relative to the current one each path returns, what it knows about the bounds, what "
     "it marks and remembers",
     "That the symbol table's order is the order in which the statements take effect is up to the "
     "generator. Step back at the very first statement of a simulation that cannot be reversed stays "
     "there.")
prop("C20", "Watched variables are reported truthfully",
     "Every watched variable has an id of its own, which the client that asked gets back; asking "
     "again for the same signal watched in the same way gives the same id, and removing takes away "
     "only the given one. Of every variable watched at breakpoints its own current value is sent "
     "under its own id and namespace whenever a breakpoint is hit, before the simulation stands "
     "still; of those watched at clock edges at the end of each evaluation, whether or not anything "
     "was hit. A variable counts as changed exactly if the value differs from the one known before, "
     "or none was known; values that cannot be read are no change. A delayed variable has the value "
     "of the requested number of cycles ago, from its own namespace, and none before that is known.",
     ["inputs", "histories"], "all sets of watched variables, values over time and request histories",
     "The tests watch one or two variables in one namespace, never remove one and add another, and "
     "hardly ever use delays.",
     ["src/monitor.cc", "src/debug.cc"],
     [("the table of watched variables", "src/monitor.cc add_monitor_variable, is_monitored, "
       "remove_monitor_variable"), ("values", "src/monitor.cc get_watched_values, var_changed, "
                                    "WatchVariableBuffer"),
      ("sending", "src/debug.cc send_monitor_values, eval, update_delayed_values")],
     "path-sensitive abstract interpretation: provenance of ids, handles and values per iteration "
     "and per way of watching, order of reading and remembering, symbolic size of the history",
     "Several data breakpoints on one source variable share the known value by design. Messages go "
     "to all clients (topics are not used by the code).")
prop("C26", "Signals are read and written as asked for",
     "A signal's name means one signal: the design's top is replaced by where the design is in the "
     "simulated hierarchy, a name under $root only loses its root, any other is left alone; an index "
     "or slice takes every part of the name into account, and what does not exist is not taken for "
     "something else of a similar name. What is remembered about a name or a handle belongs to that "
     "name or handle. A value is read from exactly that signal; of a slice exactly the bits between "
     "its bounds (in either order, both included; none beyond the signal), as a number as well as "
     "in text, and its width is the number of its bits. The simulator is never given a handle that "
     "it did not make. A value is put on exactly the signal asked for, and what is refused is "
     "reported; slices are refused. The simulation time is complete.",
     ["inputs"], "all names, slice bounds, signal widths and values",
     "The tests read a few signals of one mock design and slices within its bounds.",
     ["src/rtl.cc"],
     [("values", "src/rtl.cc get_value, get_str_value, get_slice, set_value, get_signal_width"),
      ("names", "src/rtl.cc get_handle, get_handle_raw, access_arrays, get_full_name, "
       "add_mock_slice_vpi"), ("remembered answers", "src/rtl.cc get_vpi_type, get_vpi_size")],
     "path-sensitive abstract interpretation with a bit-window domain for the numbers, linear "
     "arithmetic for positions in text and in the name, and the provenance of every handle given to "
     "the simulator",
     "Integer values have 32 bits because the code asks for vpiIntVal. The conversion of the bits of "
     "a slice to hexadecimal digits is not covered.")
prop("C13", "An expression means what it says",
     "A breakpoint's condition, a watch and an expression to evaluate mean what they mean in C: "
     "every operator of the documented set is read as itself, binds with C's precedence, groups "
     "from the left and is computed with its own operation on its own operands in their order, at "
     "the full width of a value and with its sign; a division never stops the simulator, whatever "
     "the design's values are. A number is its digits in its base, a dotted, indexed or sliced "
     "name is one symbol, brackets group. A name has one symbol, and an expression is always "
     "computed with the values last set for its names, all of them. A text that is not wholly an "
     "expression is an error and has no value, and it asks for the value of exactly those names "
     "that have no static one.",
     ["inputs"], "all expressions over the grammar and all values of the names in them",
     "The tests parse some thirty expressions and compute a few of them with small values.",
     ["src/eval.cc", "src/eval.hh"],
     [("evaluation", "src/eval.cc Expr::eval, divide_, mod_"),
      ("grammar", "src/eval.cc the rules in hgdb::expr and action<...>::apply"),
      ("building", "src/eval.cc ParserStack, ParserState, parse"),
      ("names", "src/eval.cc DebugExpression")],
     "grammar analysis over the types of the parser's rules (levels, first sets, inclusion of "
     "regular languages) joined with path-sensitive abstract interpretation of each rule's action "
     "for every operator it can match, of the evaluator for every operator, and of the tables of "
     "names",
     "The behaviour of pegtl's own combinators is taken from its documentation. Numbers that do not "
     "fit 64 bits and the depth of nesting are not covered.")
prop("C11", "The simulation stands still until it is allowed to go on",
     "The simulation is held at its start, until a client lets it go, unless that is turned off; "
     "and at the beginning of every evaluation if a client asked for that. Whoever waits goes on "
     "only with a permission, which is used up by one waiter. A permission that is given before the "
     "simulation stands still is not lost, and one that is given afterwards wakes it. Only a "
     "client's command and the debugger's leaving give a permission, and no thread that takes "
     "requests ever waits for one.",
     ["schedules", "histories"], "all interleavings of a waiting simulation with permissions, all "
     "callers",
     "The tests run one order of waiting and resuming; a lost wake-up needs one particular order.",
     ["src/thread.cc", "src/debug.cc"],
     [("lock", "src/thread.cc RuntimeLock::wait, ready"),
      ("holding", "src/debug.cc Debugger::run, eval"),
      ("resuming", "src/debug.cc Debugger::handle_command, detach")],
     "path-sensitive abstract interpretation of the lock (typestate of the permission, guard "
     "scopes, predicate of the wait) and call-graph reachability for who waits and who resumes",
     "A permission that is given while the simulation is running is used by its next stop; the "
     "debugger is built that way and this is not a part of the property.")
prop("C12", "Connecting hooks the debugger in, leaving takes it out and lets go",
     "A client that connects with a symbol table gets the evaluation hooked to every clock, at its "
     "rising edge, and the debugger counts as running; without a symbol table nothing is hooked. "
     "When the debugger leaves - on request, at the end of the simulation, or when the last client "
     "has gone and that is asked for, not before - every hook of the evaluation is removed from "
     "the simulator and forgotten, so that it can be added again, no breakpoint stops the "
     "simulation any more, and only then a waiting simulation is let go.",
     ["histories", "schedules"], "all histories of connections, commands and disconnections",
     "The tests connect once and end; they do not look at what is left in the simulator.",
     ["src/debug.cc", "src/server.cc", "src/rtl.cc", "src/sim.cc"],
     [("leaving", "src/debug.cc Debugger::detach, stop; src/sim.cc teardown_hgdb_debugger"),
      ("disconnecting", "src/server.cc DebugServer::DebugServer (on_disconnect)"),
      ("connecting", "src/debug.cc handle_connection, add_cb_clocks, eval_hgdb_on_clk"),
      ("hooks", "src/rtl.cc monitor_signals, remove_call_back")],
     "path-sensitive abstract interpretation of connecting and leaving, with the names under which "
     "hooks are added checked against those under which they are removed, and event ordering on "
     "every path",
     "What the simulator does with a removed callback is trusted. Connections that break without a "
     "close are not covered.")
prop("C18", "A symbol table that is not what it claims to be is refused",
     "A symbol table file is used only if it has the documented form; what it cannot mean is "
     "reported when it is loaded and not found out by a wrong answer or a crash later.",
     ["inputs"], "all files", "The tests load a few well-formed tables and a few malformed ones.",
     ["src/symbol.cc", "src/db.cc"], [("loading", "src/symbol.cc JSONSymbolTableProvider")],
     na="The documented form is a JSON schema that is not part of the sources, and which of a "
        "table's facts the lookups rely on is decided by data; a rule over the loader's paths could "
        "only repeat the loader.")
prop("C22", "No request and no design makes the simulator end with an exception",
     "Whatever a client sends and whatever the design's values and names are, no exception leaves "
     "the debugger's callbacks and its server thread.",
     ["inputs"], "all requests, designs and symbol tables",
     "The tests send well-formed requests and some malformed ones.",
     ["src/debug.cc", "src/proto.cc", "src/rtl.cc", "src/util.cc"],
     [("containment", "src/debug.cc Debugger::on_message, eval")],
     na="Every string and container operation may throw in principle; which of them can is a "
        "matter of values (numbers in text, map contents) that no static argument in reach bounds. "
        "The conversions of client text are covered by C05; the rest was searched by hand and the "
        "defects found were repaired.")
prop("C25", "Going back in time restores the values of the design",
     "After a reverse request the values a client sees are those the design had at the time it went "
     "back to.",
     ["histories"], "all histories of forward and reverse steps",
     "The tests use a mock simulator whose time can be set.",
     ["src/rtl.cc", "src/debug.cc", "tools/hgdb-replay"],
     [("rewind", "src/rtl.cc rewind, reverse_last_posedge; tools/hgdb-replay")],
     na="The values are the simulator's or the trace's, supplied at run time through a function the "
        "simulator registers; the source only forwards the request. That cached values are not "
        "kept over a change of time is decided under C16.")
prop("C28", "A nested input does not exhaust the stack",
     "An expression or a symbol table of any depth of nesting is answered or refused.",
     ["inputs"], "all depths of nesting", "The tests use nesting of at most three.",
     ["src/eval.cc", "src/symbol.cc"], [("recursion", "src/eval.cc the grammar's bracketed rule")],
     na="The depth of the recursion is that of the input and the parser library's; how deep the "
        "stack is, is not in the source.")
