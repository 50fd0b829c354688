"""C03/C06: what the debugger does for each kind of request, and whether the response tells."""
from c01 import enum_name, show
from dbg import DEBUGGER, class_type_const
from engine import Interp, NULL, State, is_const, subterms
from extract import AnalysisBroken
from handlers import REQ, SEND, frozen, run_request, type_name
from parsing import CASES, case_matches, fmt, holds, state_of, type_classes
from paths import lookup, strip
from payload import parse_exits

S, D, M, R = ("hgdb::Scheduler::", "hgdb::SymbolTableProvider::", "hgdb::Monitor::",
              "hgdb::RTLSimulatorClient::")
G = DEBUGGER + "::"


def path_term(path):
    t = ("deref", REQ)
    for q in path:
        t = ("f", t, q)
    return t


class Case:
    """one documented form of a request, run through the debugger"""

    def __init__(self, P, kw, case, rtype, cls, events, queries=()):
        self.P, self.kw, self.case = P, kw, case
        self.name = kw + (" " + fmt(case[0]) if case[0] else "")
        f, ex, pc = parse_exits(P, cls)
        good = [e for e in ex if not e.error() and case_matches(e, case) is True and
                all(state_of(e, m, k) is True for m, k in case[1].items())]
        if not good:
            raise AnalysisBroken("no path of the parser accepts " + self.name)
        self.good = good
        # constants that this form of the request always has
        sub = {}
        for path, v in good[0].fields().items():
            if len(path) == 1 and v[0] in ("e",) and all(
                    e.fields().get(path) == v for e in good):
                sub[path[0]] = v
        self.sub = sub
        self.paths = {}
        for m, k in list(case[1].items()) + list(case[2].items()):
            ps = None
            for e in good:
                if state_of(e, m, k) is True:
                    h = set(holds(e, m, k))
                    ps = h if ps is None else ps & h
            self.paths[m] = sorted(ps or ())
        self.events = events
        short = {}
        for e in events:
            short[e] = e.split("::")[-1]
        cl, I, root, exits = run_request(P, rtype, list(sub.items()),
                                         lambda q, n: short.get(q),
                                         query=lambda q, n: q.split("::")[-1]
                                         if q in queries else None,
                                         watch_terms=[x for m in case[2]
                                                      for x in self.member(m)])
        self.cl, self.I, self.root, self.exits = cl, I, root, exits

    def member(self, m):
        """terms that hold the member of the request"""
        return [path_term(p) for p in self.paths[m]]

    def is_member(self, t, m):
        """the value is exactly that member (possibly taken out of an optional)"""
        return frozen(strip(t)) in [frozen(x) for x in self.member(m)]

    def has_member(self, t, m):
        sub = subterms(frozen(t))
        return any(frozen(x) in sub for x in self.member(m))

    def holder(self, m):
        """the object inside the request that holds the member"""
        return {path_term(p[:-1]) for p in self.paths[m] if len(p) > 1}


class Run:
    """one path"""

    def __init__(self, case, s):
        self.case, self.s = case, s
        self.evs = s.auto[0]
        self.iters = s.auto[2]
        sends = [e for e in self.evs if e[0] == "send"]
        self.send = sends[-1] if sends else None

    def of(self, name, ok="any"):
        return [e for e in self.evs if e[0] == name and (ok == "any" or e[2] is ok)]

    def status(self):
        """True: a success response; False: an error response; None: no response"""
        if self.send is None:
            return None
        p = self.send[1]
        if p[0] != "payload":
            return None
        v = p[3]
        if v[0] == "e":
            return v[2] == 0
        # responses other than generic ones start out as success
        return True

    def field(self, q):
        """what a field of the response holds when it is written"""
        return dict(self.send[1][5]).get(q)

    def why(self):
        """known facts that say that something did not work"""
        res = []
        for t, b in self.s.facts.items():
            if t[0] in ("ev", "req"):
                if not b:
                    res.append(show(t))
            elif not b and t[0] in ("f", "call", "v", "p", "deref", "some", "opaque", "or", "and"):
                res.append(show(t))
            elif b and t[0] == "p" and t[1] == "empty":
                res.append(show(t))
        return res


def cases(P):
    pf, _, classes = type_classes(P)
    for kw, cs in CASES.items():
        cls = sorted(classes.get(kw, ()))
        if len(cls) != 1:
            raise AnalysisBroken("request type '%s' is not produced by the parser" % kw)
        rtype = class_type_const(P, cls[0])
        for c in cs or [({}, {}, {})]:
            yield kw, c, rtype, cls[0]



# ---------------------------------------------------------------------------------------------
class Spec:
    def __init__(self, P, rep, prop):
        self.P, self.rep, self.prop = P, rep, prop
        self.case = None

    def check(self, prop, cond, where, rule, what, key):
        if prop != self.prop:
            return cond
        return self.rep.check(cond, where, rule, what, key="%s|%s|%s" % (rule, self.case.name, key))

    def run(self, kw, c, rtype, cls, events, queries, body):
        C = Case(self.P, kw, c, rtype, cls, events, queries)
        self.case = C
        C.cls = cls
        self.rep.count("request_forms")
        runs = [Run(C, s) for s, _ in C.exits]
        self.rep.count("paths", len(runs))
        good = [r for r in runs if r.status() is True]
        self.check("C03", bool(good), C.root.loc(), "possible",
                   "no path answers '%s' with success" % C.name, "possible")
        for r in runs:
            if r.status() is False:
                self.reason(r)
        body(self, C, runs)
        return C

    def where(self, r):
        return r.send[3] if r.send else self.case.root.loc()

    def reason(self, r):
        from c02 import _fields
        fld = _fields(self.P).get("reason")
        if fld is None:
            raise AnalysisBroken("the reason of a generic response is not recognised")
        v = r.field(fld)
        self.check("C03", v is not None and v != ("str", ""), self.where(r), "reason",
                   "'%s' may be refused without a reason" % self.case.name, "reason")

    def done(self, r, done, what):
        """success is reported exactly when it was done"""
        st = r.status()
        if st is None:
            return
        n = self.case.name
        if st:
            self.check("C03", done, self.where(r), "success-means-done",
                       "'%s' is answered with success on a path where %s did not happen" %
                       (n, what), "success")
        else:
            self.check("C03", not done, self.where(r), "done-means-success",
                       "'%s' is answered with an error on a path where %s happened" % (n, what),
                       "error")

    def every(self, runs, name, container=None, n=None):
        """a loop that does `name` does it in each of its iterations and to the end"""
        loops = {l for r in runs for l, names, how in r.iters if name in names}
        for r in runs:
            for e in r.of(name):
                self.check("C06", any(name in names for l, names, how in r.iters), e[3], "all",
                           "'%s': %s is done for one of them only" % (self.case.name, name),
                           "one|" + name)
            if r.status() is not True:
                continue
            for l, names, how in r.iters:
                if l not in loops:
                    continue
                self.check("C06", how == "next" and name in names or how == "left" and
                           not names and False, self.P.funcs[l[0]].loc(), "all",
                           "'%s': %s is not done for each of them on a path in %s" % (
                               self.case.name, name, self.P.funcs[l[0]].q), "all|" + name)
        return loops

    def only(self, runs, allowed):
        """nothing else is changed"""
        for r in runs:
            for e in r.evs:
                if e[0] != "send":
                    self.check("C06", e[0] in allowed, e[3], "only",
                               "'%s' also does %s" % (self.case.name, e[0]), "only|" + e[0])

    def arg(self, e, i, m, what=None):
        """argument i of the event is the request's member m"""
        ok = len(e[1]) > i and self.case.is_member(e[1][i], m)
        self.check("C06", ok, e[3], "as-asked", "'%s': %s is called with %s instead of the "
                   "request's %s" % (self.case.name, e[0],
                                     show(e[1][i])[:60] if len(e[1]) > i else "nothing", m),
                   "arg|%s|%s" % (e[0], m))
        return ok

    def opt(self, e, t, m):
        """the value is the request's optional member m, or nothing when it is absent"""
        C = self.case
        ok = C.is_member(t, m)
        if not ok and (t == NULL or is_const(t)):
            ok = any(x in e[5] for x in C.member(m)) or not C.member(m)
        return ok


def is_q(t, name):
    t = strip(t)
    return t[0] == "q" and t[1] == name


def elem(t):
    """container of which t is (part of) an arbitrary element"""
    for x in subterms(t):
        if x[0] == "it" and len(x) == 2:
            return x[1]
        if x[0] == "idx":
            return x[1]
        if x[0] == "p" and x[1] in ("at", "operator[]", "front", "back"):
            return x[2]
    return None


def spec_breakpoint(sp, C, runs):
    add = C.case[0]["action"] == "add"
    bp = C.holder("filename")
    normal = [e for e in sp.P.enum("hgdb::DebugBreakPoint::Type")["c"] if e["n"] == "normal"]
    normal = ("e", "hgdb::DebugBreakPoint::Type", normal[0]["v"])

    def from_query(t, e):
        q = elem(t)
        q = strip(q) if q is not None else None
        ok = q is not None and is_q(q, "get_breakpoints") and len(q) == 5
        sp.check("C06", ok, e[3], "as-asked", "'%s': %s does not get the breakpoints found at the "
                 "requested location (%s)" % (C.name, e[0], show(t)[:60]), "elem|" + e[0])
        if ok:
            for i, m in ((2, "filename"), (3, "line_num"), (4, "column_num")):
                sp.check("C06", C.is_member(q[i], m), e[3], "as-asked",
                         "'%s' looks for breakpoints with %s as %s" % (
                             C.name, show(q[i])[:40], m), "query|" + m)
    for r in runs:
        if add:
            adds = r.of("add_breakpoint")
            sp.done(r, bool(adds) and not r.of("add_breakpoint", False), "adding the breakpoints")
            for e in adds:
                sp.check("C06", strip(e[1][0]) in bp, e[3], "as-asked",
                         "a breakpoint is not added with the request's condition", "cond")
                from_query(e[1][1], e)
                sp.check("C06", e[1][2] == normal, e[3], "as-asked",
                         "a breakpoint request adds another kind of breakpoint", "type")
            if adds and not r.of("add_breakpoint", False):
                ordered(sp, C, r, adds)
        else:
            for e in r.of("remove_breakpoint"):
                from_query(e[1][0], e)
                sp.check("C06", e[1][1] == normal, e[3], "as-asked",
                         "removing a breakpoint removes data breakpoints too", "type")
    name = "add_breakpoint" if add else "remove_breakpoint"
    loops = sp.every(runs, name)
    sp.check("C06", any(r.of(name) for r in runs), C.root.loc(), "as-asked",
             "'%s' never does %s" % (C.name, name), "never")
    sp.only(runs, {"add_breakpoint", "reorder_breakpoints"} if add else
            {"remove_breakpoint", "reorder_breakpoints"})


def ordered(sp, C, r, adds):
    names = [e[0] for e in r.evs]
    last = max(i for i, e in enumerate(r.evs) if e in adds)
    sp.check("C06", "reorder_breakpoints" in names[last:], adds[-1][3], "as-asked",
             "'%s' leaves the breakpoints in the order in which they were added" % C.name,
             "reorder")


def spec_breakpoint_id(sp, C, runs):
    add = C.case[0]["action"] == "add"
    bp = C.holder("id")
    for r in runs:
        if add:
            adds = r.of("add_breakpoint")
            sp.done(r, bool(adds) and not r.of("add_breakpoint", False), "adding the breakpoint")
            for e in adds:
                sp.check("C06", strip(e[1][0]) in bp, e[3], "as-asked",
                         "a breakpoint is not added with the request's condition", "cond")
                q = strip(e[1][1])
                sp.check("C06", is_q(q, "get_breakpoint") and C.is_member(q[2], "id"), e[3],
                         "as-asked", "the breakpoint added is not the one with the requested id",
                         "id")
                if not r.of("add_breakpoint", False):
                    ordered(sp, C, r, adds)
        else:
            rs = r.of("remove_breakpoint")
            if r.status():
                sp.check("C06", len(rs) == 1, sp.where(r), "as-asked",
                         "the breakpoint is not removed", "remove")
            for e in rs:
                sp.check("C06", strip(e[1][0]) in bp or
                         is_q(e[1][0], "get_breakpoint") and
                         C.is_member(strip(e[1][0])[2], "id"), e[3], "as-asked",
                         "the breakpoint removed is not the one with the requested id", "id")
    sp.only(runs, {"add_breakpoint", "reorder_breakpoints"} if add else
            {"remove_breakpoint", "reorder_breakpoints"})


def spec_bp_location(sp, C, runs):
    for r in runs:
        gs = r.of("get_breakpoints")
        sp.done(r, bool(gs), "looking up the breakpoints")
        for e in gs:
            sp.arg(e, 0, "filename")
            if len(e[1]) == 1:
                sp.check("C06", sp.opt(e, NULL, "line_num"), e[3], "as-asked",
                         "the requested line is ignored", "line")
            else:
                sp.arg(e, 1, "line_num")
                if len(e[1]) > 2:
                    sp.check("C06", sp.opt(e, e[1][2], "column_num"), e[3], "as-asked",
                             "the requested column is ignored", "column")
        if r.status() is True:
            answered(sp, C, r, "hgdb::BreakPointLocationResponse")


def answered(sp, C, r, cls):
    sp.check("C06", resp_class(r) == cls, sp.where(r), "as-asked",
             "'%s' is answered with a %s" % (C.name, resp_class(r)), "class")


def resp_class(r):
    """class of the response object"""
    return r.send[1][4]


MODE = {"continue": "BreakPointOnly", "step_over": "StepOver", "step_back": "StepBack",
        "reverse_continue": "ReverseBreakpointOnly", "stop": "None"}


def spec_command(sp, C, runs):
    k = C.case[0]["command"]
    enum = sp.P.enum("hgdb::Scheduler::EvaluationMode")["c"]
    sched = any(r.of("set_evaluation_mode") for r in runs)
    for r in runs:
        modes = r.of("set_evaluation_mode")
        ready = r.of("ready")
        names = [e[0] for e in r.evs]
        if k in MODE:
            want = [e["v"] for e in enum if e["n"] == MODE[k]]
            for e in modes:
                sp.check("C06", want and e[1][0] == ("e", "hgdb::Scheduler::EvaluationMode",
                                                     want[0]), e[3], "as-asked",
                         "'%s' puts the scheduler in mode %s" % (C.name, enum_name(sp.P, e[1][0])
                                                                 if e[1][0][0] == "e" else "?"),
                         "mode")
            # without a scheduler there is no mode to set
            none = any(not b and t[0] == "f" and "Scheduler" in sp.fields.get(t[2], "")
                       for t, b in r.s.facts.items())
            sp.check("C06", bool(modes) or none, C.root.loc(), "as-asked",
                     "'%s' does not change how breakpoints are evaluated" % C.name, "nomode")
        if k == "stop":
            sp.check("C06", "finish_sim" in names and "stop" in names, C.root.loc(), "as-asked",
                     "stopping does not end the simulation or the server", "stop")
            if "finish_sim" in names and modes:
                sp.check("C06", names.index("set_evaluation_mode") < names.index("finish_sim"),
                         C.root.loc(), "as-asked", "stopping ends the simulation while breakpoints "
                         "may still be evaluated", "stop-order")
            continue
        if k == "jump":
            rw = r.of("rewind")
            sp.done(r, bool(r.of("rewind", True)), "moving the simulation time")
            for e in rw:
                ok = sp.case.has_member(e[1][0], "time")
                sp.check("C06", ok, e[3], "as-asked", "the simulation is not moved to the "
                         "requested time", "time")
            continue
        sp.done(r, bool(ready), "resuming the simulation")
        if ready and modes:
            sp.check("C06", max(i for i, x in enumerate(names) if x == "set_evaluation_mode") <
                     names.index("ready"), ready[0][3], "as-asked",
                     "the simulation is resumed before the new mode is set", "order")
    if k in MODE:
        sp.check("C06", sched, C.root.loc(), "as-asked",
                 "'%s' never changes how breakpoints are evaluated" % C.name, "mode")
    if k == "jump":
        sp.check("C06", any(r.of("rewind") for r in runs), C.root.loc(), "as-asked",
                 "a jump never moves the simulation time", "jump")
    allowed = {"stop": {"clear", "set_evaluation_mode", "finish_sim", "stop", "ready"},
               "jump": {"rewind", "ready"}}.get(k, {"set_evaluation_mode", "ready"})
    sp.only(runs, allowed)


SOURCE = {"breakpoints": "get_current_breakpoints", "options": "get_options",
          "design": "get_top_mapping", "filename": "get_filenames", "status": "get_argv"}


def spec_info(sp, C, runs):
    k = C.case[0]["command"]
    want = [v for q, v in C.sub.items() if "CommandType" in v[1]]
    fld = [fd["q"] for fd in sp.P.record("hgdb::DebuggerInformationResponse")["fields"]
           if "CommandType" in fd["t"]]
    if not fld or not want:
        raise AnalysisBroken("the kind of a debugger information response is not recognised")
    for r in runs:
        if r.status() is True:
            answered(sp, C, r, "hgdb::DebuggerInformationResponse")
            v = r.field(fld[0]) or ("none",)
            sp.check("C06", v == want[0], sp.where(r), "as-asked",
                     "'%s' is answered with %s" % (C.name, enum_name(sp.P, v) if v[0] == "e"
                                                   else show(v)[:40]), "kind")
            sp.check("C06", bool(r.of(SOURCE[k])), sp.where(r), "as-asked",
                     "'%s' is answered without %s" % (C.name, SOURCE[k]), "source")


def spec_mapping(sp, C, runs):
    for r in runs:
        ms = r.of("set_src_mapping")
        sp.done(r, bool(ms), "changing the mapping")
        for e in ms:
            sp.check("C06", REQ in subterms(e[1][0]), e[3], "as-asked",
                     "the mapping set is not the request's", "arg")


def spec_connection(sp, C, runs):
    for r in runs:
        init = r.of("initialize_db", True)
        if any(b and t[0] == "q" and t[1] == "has_cli_flag" for t, b in r.s.facts.items()):
            continue
        sp.done(r, bool(init) and not r.of("initialize_db", False), "loading the symbol table")
        for e in r.of("initialize_db"):
            sp.check("C06", C.has_member(e[1][0], "db_filename") or
                     any(x[0] == "q" and x[1] == "create_symbol_table" and
                         C.has_member(x, "db_filename") for x in subterms(e[1][0])), e[3],
                     "as-asked", "the symbol table loaded is not the requested one (%s)" %
                     show(e[1][0])[:60], "file")
        if r.status() is True:
            sp.check("C06", bool(r.of("add_cb_clocks")), sp.where(r), "as-asked",
                     "breakpoints are not evaluated after a client connected", "clock")
            ms = r.of("set_src_mapping")
            sp.check("C06", bool(ms) or any(
                not b and "SymbolTableProvider" in sp.fields.get(t[2], "")
                for t, b in r.s.facts.items() if t[0] == "f"), sp.where(r), "as-asked",
                "the client's path mapping is ignored", "mapping")
            for e in ms:
                sp.check("C06", REQ in subterms(e[1][0]), e[3], "as-asked",
                         "the mapping set is not the request's", "mapping-arg")


def spec_evaluation(sp, C, runs):
    for r in runs:
        sets = r.of("set_expr_values")
        sp.done(r, bool(r.of("set_expr_values", True)) and not r.of("set_expr_values", False) and
                bool(r.of("eval")), "evaluating the expression")
        for e in r.of("DebugExpression"):
            sp.arg(e, 0, "expression")
        for e in r.of("validate_expr"):
            for i, m in ((3, "breakpoint_id"), (4, "instance_id")):
                sp.check("C06", sp.opt(e, e[1][i], m), e[3], "as-asked",
                         "the expression's names are not resolved in the requested %s" % m,
                         "scope|" + m)
        if r.status() is True:
            answered(sp, C, r, "hgdb::EvaluationResponse")
            vals = [v for q, v in r.send[1][5]]
            sp.check("C06", any(x[0] == "ev" and x[1] == "eval" for v in vals
                                for x in subterms(v)), sp.where(r), "as-asked",
                     "the result sent is not the value of the expression", "value")
            names = [e[0] for e in r.evs]
            sp.check("C06", "validate_expr" in names and "set_expr_values" in names and
                     names.index("set_expr_values") < names.index("eval") and
                     names.index("validate_expr") < names.index("set_expr_values"), sp.where(r),
                     "as-asked", "an expression is evaluated before its signals are read", "order")


def spec_option(sp, C, runs):
    maps = [fd["q"] for fd in sp.P.record(C.cls)["fields"] if "map<" in fd["t"]]
    seen = set()
    for r in runs:
        for e in r.of("set_option"):
            a, b = e[1][:2]
            ca, cb = elem(a), elem(b)
            ok = ca is not None and ca == cb and ca[0] == "f" and ca[2] in maps and \
                REQ in subterms(ca) and part(a) == 0 and part(b) == 1
            if ok:
                seen.add(ca[2])
            sp.check("C06", ok, e[3], "as-asked", "an option is set to something else than what "
                     "was asked (%s, %s)" % (show(a)[:40], show(b)[:40]), "option")
    for q in maps:
        sp.check("C06", q in seen, C.root.loc(), "as-asked",
                 "the options in %s are never set" % q.split("::")[-1], "map|" + q)
    sp.every(runs, "set_option")


def part(t):
    """0 / 1: the key / the value of a map element"""
    t = strip(t)
    if t[0] == "f":
        if t[2] == "#0" or t[2].endswith("::first"):
            return 0
        if t[2] == "#1" or t[2].endswith("::second"):
            return 1
    return None


def resolved(sp, C, e, t):
    """the signal acted on is what the request's name resolves to, in its scope"""
    q = strip(t)
    ok = is_q(q, "resolve_var_name")
    sp.check("C06", ok, e[3], "as-asked", "'%s' acts on %s, which is not the resolved name" % (
        C.name, show(t)[:60]), "resolve")
    if not ok:
        return
    args = q[2:]
    sp.check("C06", C.is_member(args[1], "var_name"), e[3], "as-asked",
             "'%s' resolves another name than the requested one" % C.name, "resolve|name")
    for m in ("instance_id", "breakpoint_id"):
        sp.check("C06", any(C.is_member(x, m) for x in args), e[3], "as-asked",
                 "'%s' ignores the requested %s" % (C.name, m), "resolve|" + m)
    # the namespace it is resolved in is the one that is acted on
    ns = strip(args[0])
    owner = e[4]
    if ns[0] == "was" and owner is not None:
        base = ns[1]
        sp.check("C06", base in subterms(frozen(owner)), e[3], "as-asked",
                 "'%s' resolves the name in one design and acts on another" % C.name, "namespace")


def spec_monitor(sp, C, runs):
    add = C.case[0]["action_type"] == "add"
    for r in runs:
        if add:
            adds = r.of("add_monitor_variable")
            sp.done(r, bool(adds), "adding the monitor")
            for e in adds:
                resolved(sp, C, e, e[1][0])
                want = [v for q, v in C.sub.items() if "MonitorType" in v[1]]
                sp.check("C06", e[1][1] == want[0], e[3], "as-asked", "a variable is monitored "
                         "in another way than asked", "type")
            if r.status() is True:
                given = {e[1][0][1]: e[1][1] for e in r.of("set_value") if e[1][0][0] == "str"}
                t = given.get("track_id")
                sp.check("C06", t is not None and any(
                    x[0] == "ev" and x[1] == "add_monitor_variable" for x in subterms(t)),
                    sp.where(r), "as-asked", "the client is not told the id of its monitor",
                    "track_id")
                sp.check("C06", "namespace_id" in given, sp.where(r), "as-asked",
                         "the client is not told the namespace of its monitor", "namespace_id")
        else:
            rs = r.of("remove_monitor_variable")
            sp.done(r, bool(rs), "removing the monitor")
            for e in rs:
                sp.arg(e, 0, "track_id")
    sp.only(runs, {"add_monitor_variable", "set_value", "add_to_topic"} if add else
            {"remove_monitor_variable", "remove_from_topic"})


def spec_set_value(sp, C, runs):
    for r in runs:
        ss = r.of("set_value")
        sp.done(r, bool(r.of("set_value", True)) and not r.of("set_value", False),
                "setting the value")
        for e in ss:
            resolved(sp, C, e, e[1][0])
            sp.arg(e, 1, "value")
        sp.check("C06", len(ss) <= 1, sp.where(r), "as-asked", "a value is set twice", "twice")


def spec_data(sp, C, runs):
    a = C.case[0]["action"]
    for r in runs:
        if a == "clear":
            sp.done(r, bool(r.of("clear_data_breakpoints")), "clearing the data breakpoints")
        elif a == "remove":
            rs = r.of("remove_data_breakpoint")
            sp.done(r, bool(rs), "removing the data breakpoint")
            for e in rs:
                sp.arg(e, 0, "breakpoint-id")
            ms = r.of("remove_monitor_variable")
            if r.of("remove_data_breakpoint", True):
                sp.check("C06", bool(ms), sp.where(r), "as-asked", "the variable of a removed data "
                         "breakpoint stays monitored", "unwatch")
            for e in ms:
                sp.check("C06", any(x[0] == "ev" and x[1] == "remove_data_breakpoint"
                                    for x in subterms(e[1][0])), e[3], "as-asked",
                         "another variable stops being monitored", "unwatch-id")
        else:
            adds = r.of("add_data_breakpoint")
            sp.done(r, bool(adds) and not r.of("add_data_breakpoint", False) and
                    r.status() is not False or
                    bool(adds) and not r.of("add_data_breakpoint", False) and not r.why(),
                    "checking the data breakpoints" if a == "info" else
                    "adding the data breakpoints")
            for e in adds:
                q = elem(e[1][0])
                q = strip(q) if q is not None else None
                ok = q is not None and is_q(q, "get_assigned_breakpoints")
                sp.check("C06", ok, e[3], "as-asked", "a data breakpoint is not set on an "
                         "assignment of the requested variable (%s)" % show(e[1][0])[:50], "var")
                if ok:
                    sp.check("C06", C.is_member(q[2], "var_name") and
                             C.is_member(q[3], "breakpoint-id"), e[3], "as-asked",
                             "assignments of another variable are looked up", "query")
                b = strip(e[1][2])
                okb = is_q(b, "get_breakpoint")
                eb = strip(elem(b[2])) if okb and elem(b[2]) is not None else None
                sp.check("C06", okb and eb == q, e[3], "as-asked",
                         "a data breakpoint is set at a breakpoint that does not assign the "
                         "variable", "bp")
                sp.check("C06", e[1][3] == ("c", a == "info"), e[3], "as-asked",
                         "asking whether a data breakpoint is possible sets it" if a == "info" else
                         "a data breakpoint is only tried, not set", "dry")
            if a == "info":
                sp.check("C06", not r.of("add_monitor_variable"), sp.where(r), "as-asked",
                         "asking whether a data breakpoint is possible monitors the variable",
                         "dry-monitor")
            if a == "add" and r.status() is True and adds:
                ordered(sp, C, r, adds)
    if a in ("add", "info"):
        sp.every(runs, "add_data_breakpoint")
    if a == "add":
        sp.check("C06", any(r.of("add_monitor_variable") for r in runs), C.root.loc(), "as-asked",
                 "the variable of a data breakpoint is never monitored", "watch")
    if a == "remove":
        sp.check("C06", any(r.of("remove_monitor_variable") for r in runs), C.root.loc(),
                 "as-asked", "the variable of a removed data breakpoint stays monitored",
                 "unwatch")


SCH = [S + x for x in ("add_breakpoint", "remove_breakpoint", "reorder_breakpoints")]
BPQ = [D + "get_breakpoints", D + "get_breakpoint", D + "get_assigned_breakpoints",
       D + "get_instance_name_from_bp", D + "get_instance_name", G + "resolve_var_name",
       "std::to_string", "std::__cxx11::to_string"]
LOCK = "hgdb::RuntimeLock::"
NSM = "hgdb::DebuggerNamespaceManager::"
SPECS = {
    "breakpoint": (SCH, BPQ, spec_breakpoint),
    "breakpoint-id": (SCH, BPQ, spec_breakpoint_id),
    "bp-location": ([D + "get_breakpoints"], [], spec_bp_location),
    "command": ([S + "set_evaluation_mode", S + "clear", LOCK + "ready", R + "rewind",
                 R + "finish_sim", "hgdb::DebugServer::stop"], [], spec_command),
    "debugger-info": ([S + "get_current_breakpoints", G + "get_options", NSM + "get_top_mapping",
                       D + "get_filenames", R + "get_argv"], [], spec_info),
    "path-mapping": ([D + "set_src_mapping"], [], spec_mapping),
    "connection": ([G + "initialize_db", G + "add_cb_clocks", D + "set_src_mapping"],
                   ["hgdb::create_symbol_table", G + "has_cli_flag"], spec_connection),
    "evaluation": ([G + "set_expr_values", "hgdb::util::validate_expr",
                    "hgdb::DebugExpression::DebugExpression", "hgdb::DebugExpression::eval"],
                   BPQ, spec_evaluation),
    "option-change": (["hgdb::util::Options::set_option"], [], spec_option),
    "monitor": ([M + "add_monitor_variable", M + "remove_monitor_variable",
                 "hgdb::GenericResponse::set_value"], BPQ, spec_monitor),
    "set-value": ([R + "set_value"], BPQ, spec_set_value),
    "data-breakpoint": ([S + "add_data_breakpoint", S + "clear_data_breakpoints",
                         S + "remove_data_breakpoint", S + "reorder_breakpoints",
                         M + "add_monitor_variable", M + "remove_monitor_variable"], BPQ,
                        spec_data),
}


def anchors(P):
    """the operations the specification is about must exist"""
    for kw, (evs, qs, b) in SPECS.items():
        for q in evs:
            if not P.fns(q) and not any(n and n.get("q") == q for f in P.funcs.values()
                                        for n in f.nodes):
                raise AnalysisBroken("operation not found: " + q)


def run_actions(P, rep, prop):
    anchors(P)
    sp = Spec(P, rep, prop)
    sp.fields = {fd["q"]: fd["t"] for fd in P.record(DEBUGGER)["fields"]}
    for kw, c, rtype, cls in cases(P):
        evs, qs, body = SPECS[kw]
        sp.run(kw, c, rtype, cls, evs, qs, body)
    rep.need("request_forms", 25)
    rep.need("paths", 60)


def run_c03(P, rep, tier):
    rep.rule("success-means-done", "on every path of every form of request that ends in a success "
             "response, the requested operation was performed and reported no failure")
    rep.rule("done-means-success", "no path performs the requested operation without failure and "
             "answers with an error")
    rep.rule("reason", "no path answers with an error whose reason is empty")
    rep.rule("possible", "every documented form of request can succeed")
    run_actions(P, rep, "C03")


def run_c06(P, rep, tier):
    rep.rule("as-asked", "the operation performed for a request is the one its keywords name, its "
             "operands are the request's own members (or what the symbol table answers for them), "
             "and its result is what is sent")
    rep.rule("all", "an operation that concerns several objects is applied to each of them")
    rep.rule("only", "no operation of another kind is performed for the request")
    run_actions(P, rep, "C06")


if __name__ == "__main__":
    import sys
    import time
    from ir import Program
    P = Program()
    for kw, c, rtype, cls in cases(P):
        if len(sys.argv) > 1 and kw != sys.argv[1]:
            continue
        t0 = time.time()
        ev = sys.argv[2].split(",") if len(sys.argv) > 2 else []
        qs = sys.argv[4].split(",") if len(sys.argv) > 4 else []
        C = Case(P, kw, c, rtype, cls, ev, qs)
        print(C.name, len(C.exits), "%.1fs" % (time.time() - t0),
              {k.split("::")[-1]: v[2] for k, v in C.sub.items()},
              {m: [".".join(x.split("::")[-1] for x in p) for p in v] for m, v in C.paths.items()})
        for s, _ in C.exits[:int(sys.argv[3]) if len(sys.argv) > 3 else 0]:
            r = Run(C, s)
            print("    ", r.status(), [(e[0], [show(x)[:50] for x in e[1]], e[2])
                                       for e in r.evs if e[0] != "send"],
                  [(sorted(a[1]), a[2]) for a in r.iters])
