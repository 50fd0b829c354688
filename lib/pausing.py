"""C11: the simulation stands still until it is allowed to go on.
C12: connecting hooks the debugger into the simulation, leaving takes it out and lets it go."""
from c01 import show
from engine import FALSE, NULL, TRUE, Client, Interp, State, subterms
from extract import AnalysisBroken
from paths import lookup, run, strip

D = "hgdb::Debugger"
LOCK = "hgdb::RuntimeLock"
RTL = "hgdb::RTLSimulatorClient"
S = "hgdb::Scheduler::"
SERVER = "hgdb::DebugServer"


def atomic(st, f, node, n, obj, args, I):
    """the operations of std::atomic as loads and stores of the object itself: outcomes or None"""
    q = n.get("q", "")
    if not q.startswith(("std::atomic<", "std::__atomic_base<")):
        return None
    m = q.rsplit("::", 1)[1]
    if m in ("load", "test", "exchange") or m.startswith("operator "):
        val = st.load(obj)
        t = st.truth(val)
        out = []
        for b in (True, False) if t is None else (t,):
            s2 = st.copy()
            if s2.assume(val, b) is False:
                continue
            if val == obj:
                # what was there at first
                s2.assume(("q", "first", ("c", repr(obj))), b)
            if m == "exchange":
                s2.assign(obj, I._rv(s2, args[0]))
            out.append((s2, TRUE if b else FALSE))
        return out
    if m in ("store", "operator=") and args:
        st.assign(obj, I._rv(st, args[0]))
        return [(st, None)]
    return None


def the_field(P, cls, pred, what):
    r = [fd["q"] for fd in P.record(cls)["fields"] if pred(fd["t"])]
    if len(r) != 1:
        raise AnalysisBroken("%s of %s is not recognised" % (what, cls))
    return ("f", ("obj", cls), r[0])


def locking(P, rep):
    rep.rule("permission", "waiting ends with a permission, which is used up; giving one wakes the "
             "waiting thread and is never lost")
    flag = the_field(P, LOCK, lambda t: "atomic" in t or t == "bool", "the permission")
    mutex = the_field(P, LOCK, lambda t: "mutex" in t, "the mutex")
    cond = the_field(P, LOCK, lambda t: "condition_variable" in t, "the condition")
    GUARDS = ("std::unique_lock", "std::lock_guard", "std::scoped_lock")

    def watch(q, n):
        cls, _, m = q.rpartition("::")
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and \
                n.get("cls", "").split("<")[0] in GUARDS:
            return "lock"
        if cls.startswith("std::condition_variable"):
            return "block" if m.startswith("wait") else "notify" if m.startswith("notify") else None
        if cls.split("<")[0] in GUARDS and m in ("unlock", "lock"):
            return m
        if cls.startswith(("std::atomic<", "std::__atomic_base<")):
            return "atomic"
        return None

    def predicate(t):
        """the value the predicate of a wait has when the permission is there (not there)"""
        out = set()
        for key in P.lambda_bodies(t[1]) if t[0] == "lam" else ():
            f = P.funcs[key] if key in P.funcs else key
            for have in (True, False):
                for s, v, evs in run(P, f, watch, this=LOCK, value=value,
                                     facts={flag: have}):
                    out.add((have, v if v in (TRUE, FALSE) else
                             TRUE if s.truth(v) else FALSE if s.truth(v) is False else None))
        return out == {(True, TRUE), (False, FALSE)}

    log = []

    def value(name, I, st, f2, node, n, obj, args):
        if name == "atomic":
            m = n["q"].rsplit("::", 1)[1]
            if obj == flag and m in ("store", "operator=", "exchange"):
                log.append((f2, node, "store", I._rv(st, args[0])))
            return atomic(st, f2, node, n, obj, args, I)
        if name == "block":
            a = [I._rv(st, x) for x in args]
            if len(a) > 1:
                rep.check(n["q"].endswith("::wait") and predicate(a[-1]), f2.loc(node),
                          "permission", "the wait ends without a permission")
                st.assign(flag, TRUE)
            else:
                # may end for no reason: what was known of the permission is not known any more
                st.kill_loc(flag)
            return [(st, None)]
        if name in ("notify", "unlock"):
            return [(st, None)]
        return None

    def held(f2, node):
        """whether a guard of the mutex is alive at the node, by the scopes of the source"""
        par = f2.parents()
        guards = []
        for i in f2.reachable_nodes():
            n = f2.nodes[i]
            if n and n["k"] == "DeclStmt" and any(
                    v["t"].replace("const ", "").split("<")[0] in GUARDS for v in n["vars"]):
                guards.append(i)
        up = set()
        work = [node]
        while work:
            x = work.pop()
            if x in up:
                continue
            up.add(x)
            work += par.get(x, [])
        return any(p in up for g in guards for p in par.get(g, []))

    w = P.fn(LOCK + "::wait")
    got = run(P, w, watch, value=value, this=LOCK)
    if not any(e[0] == "block" for s, v, evs in got for e in evs):
        rep.bad(w.loc(), "permission", "nothing waits for the permission")
    for s, v, evs in got:
        rep.ok()
        names = [e[0] for e in evs]
        if "block" in names:
            rep.check("lock" in names and names.index("lock") < names.index("block"), w.loc(),
                      "permission", "the wait is not synchronised with the permission")
            cond_ok = all(e[1] == cond for e in evs if e[0] == "block")
            rep.check(cond_ok, w.loc(), "permission", "the wait is for something else")
        rep.check(s.store.get(flag) == FALSE, w.loc(), "permission",
                  "the permission is not used up by the wait")
    # what is left when the wait returns: it was true before it was taken away
    before = []

    def assign(I, st, f2, node, loc, val):
        if loc == flag and val == FALSE:
            before.append((f2.loc(node), st.truth(st.load(flag))))

    def value2(name, I, st, f2, node, n, obj, args):
        if name == "atomic" and obj == flag and \
                n["q"].rsplit("::", 1)[1] in ("store", "operator=", "exchange") and \
                I._rv(st, args[0]) == FALSE:
            before.append((f2.loc(node), st.truth(st.load(flag))))
            if n["q"].endswith("exchange"):
                before.pop()
        return value(name, I, st, f2, node, n, obj, args)
    run(P, w, watch, value=value2, this=LOCK, assign=assign)
    for loc, t in before:
        rep.check(t is True, loc, "permission", "the wait ends without a permission")

    r = P.fn(LOCK + "::ready")
    log.clear()
    got = run(P, r, watch, value=value, this=LOCK)
    some = False
    for s, v, evs in got:
        rep.ok()
        names = [e[0] for e in evs]
        t = s.truth(s.load(flag))
        if s.store.get(flag) == TRUE:
            some = True
            rep.check("notify" in names, r.loc(), "permission", "the waiting thread is not woken")
            rep.check("lock" in names, r.loc(), "permission", "a permission can be lost: it is given "
                      "without the lock of the waiting thread")
        else:
            rep.check(t is True, r.loc(), "permission", "no permission is given")
    rep.check(some, r.loc(), "permission", "no permission is given")
    for f2, node, what, val in log:
        rep.check(val == TRUE and held(f2, node), f2.loc(node), "permission",
                  "a permission can be lost: it is given without the lock of the waiting thread")
    rep.count("lock operations", 2)


def resuming(P, rep):
    """who lets the simulation go, and who waits"""
    rep.rule("who", "only a command, and leaving, let the simulation go; only the simulator's own "
             "thread waits")
    allowed = [f for nm in ("handle_command", "detach") for f in P.fns(D + "::" + nm)]
    allow = {f.key for f in allowed}
    callers = {}
    lock = the_field(P, D, lambda t: t == LOCK, "the lock of the simulation")

    def direct(what):
        for f in P.funcs.values():
            if not f.q.startswith("hgdb::") and "::" in f.q:
                continue
            for i in f.reachable_nodes():
                n = f.nodes[i]
                if n and n["k"] == "CXXMemberCallExpr" and n.get("q") == LOCK + "::" + what:
                    obj = [f.nodes[j] for j in f.subtree(i) if f.nodes[j] and
                           f.nodes[j]["k"] == "MemberExpr" and f.nodes[j].get("q") == lock[2]]
                    if obj:
                        yield f, i
    # a helper counts as its callers
    rev = {}
    for f in P.funcs.values():
        for i, t, k in P.callees(f):
            rev.setdefault(t.key, set()).add(f.key)

    def roots(key, seen):
        if key in allow or key in seen:
            return
        seen.add(key)
        up = rev.get(key, ())
        if not up:
            yield key
        for u in up:
            yield from roots(u, seen)
    for f, i in direct("ready"):
        rep.count("resumptions")
        rep.ok()
        others = list(roots(f.key, set()))
        rep.check(not others, f.loc(i), "who", "the simulation is let go although no command says "
                  "so")
    rep.need("resumptions", 2)
    # nothing that a message leads to waits
    msg = [P.fn(D + "::on_message")]
    reach = P.reachable(msg, follow=("call", "lam"))
    for f, i in direct("wait"):
        rep.count("waits")
        rep.check(f.key not in reach, f.loc(i), "who", "the thread that takes the requests waits for "
                  "a request")
    rep.need("waits", 2)
    run_and_eval(P, rep, lock)


EVENTS = {LOCK + "::wait": "wait", LOCK + "::ready": "ready", SERVER + "::run": "serve",
          D + "::start_breakpoint_evaluation": "start", S + "next_breakpoints": "next",
          S + "set_evaluation_mode": "mode", RTL + "::remove_call_back": "remove",
          RTL + "::callback_names": "names", RTL + "::is_verilator": "verilator",
          SERVER + "::stop": "server-stop", D + "::detach": "detach",
          RTL + "::monitor_signals": "monitor", D + "::eval": "eval", D + "::run": "run",
          D + "::stop": "stop", RTL + "::add_call_back": "add", D + "::initialize_db": "load",
          D + "::add_cb_clocks": "hook"}


def outline(P, f, special=(), follow=None, value=None, facts=None, this=None, env=None, only=None):
    """paths with the events above; special: events answered by a symbol of their own"""
    def watch(q, n):
        if q in EVENTS:
            return EVENTS[q] if only is None or EVENTS[q] in only else None
        if q.startswith(("std::atomic<", "std::__atomic_base<")):
            return "atomic"
        for k in special:
            if q == k:
                return k
        return None
    stops = {q for q, e in EVENTS.items() if only is None or e in only}
    near, names = {}, set(EVENTS.values())

    def own(t):
        return t.q.startswith("hgdb::") and (t.cls == D or t.is_lambda or t.cls == "")

    def matters(t):
        """the call may lead to an event, by functions of the debugger"""
        if t.key not in near:
            near[t.key] = False
            near[t.key] = any(EVENTS.get(u.q) in (only or names) or (own(u) and matters(u))
                              for i, u, k in P.callees(t) if k == "call")
        return near[t.key]

    def val(name, I, st, f2, node, n, obj, args):
        if name == "atomic":
            return atomic(st, f2, node, n, obj, args, I)
        if value:
            r = value(name, I, st, f2, node, n, obj, args)
            if r is not None:
                return r
        if name in special:
            return [(st, ("q", name) + tuple(I._rv(st, a) for a in args[:1]))]
        if name in ("verilator", "load"):
            return [(st, ("q", name))]
        if name == "names":
            return None
        return [(st, None)]
    out = run(P, f, watch, value=val, this=this, facts=facts, env=env,
              follow=follow or (lambda t: own(t) and t.q not in stops and matters(t)))
    return [(s, v, [e for e in evs if e[0] != "atomic"]) for s, v, evs in out]


def run_and_eval(P, rep, lock):
    rep.rule("hold", "the simulation is held at its start unless that is turned off, and at the "
             "beginning of an evaluation if that is asked for")
    f = P.fn(D + "::run")
    flagq = D + "::get_test_plus_arg"
    held = 0
    for s, v, evs in outline(P, f, special=(flagq,)):
        rep.ok()
        off = [b for ft, b in s.facts.items() if ft[:2] == ("q", flagq)]
        waits = [e for e in evs if e[0] == "wait" and e[1] == lock]
        ended = any(e[0] == "ready" for e in evs)
        if True in off:
            rep.check(not waits, f.loc(), "hold", "the simulation is held although that is turned "
                      "off")
        else:
            held += 1
            rep.check(waits, f.loc(), "hold", "the simulation is not held at its start")
        rep.check(not ended, f.loc(), "hold", "the simulation is let go at its start")
    rep.check(held, f.loc(), "hold", "the simulation is never held at its start")
    # the server is there by then
    thr = [i for i in f.reachable_nodes() if f.nodes[i] and f.nodes[i]["k"] in
           ("CXXConstructExpr", "CXXTemporaryObjectExpr") and
           f.nodes[i].get("cls", "") == "std::thread" and f.nodes[i].get("args")]
    serves = [x for x in P.reachable([f], follow=("call", "lam", "ref"))
              if any(n and n.get("q") == SERVER + "::run" for n in P.funcs[x].nodes)]
    rep.check(serves, f.loc(), "hold", "nobody listens for a client that could let it go")

    f = P.fn(D + "::eval")
    opt = option(P, "pause_at_posedge")
    seen = set()
    for s, v, evs in outline(P, f, only=("wait", "start", "next")):
        rep.ok()
        on = s.truth(opt)
        names = [e[0] for e in evs if e[0] in ("wait", "start", "next")]
        first = names[:1] == ["wait"]
        if on is None:
            rep.check(False, f.loc(), "hold", "the option to pause at every clock edge is not "
                      "looked at")
            continue
        seen.add(on)
        rep.check(first == on, f.loc(), "hold", "the simulation is not held at a clock edge although "
                  "it should be" if on else "the simulation is held at a clock edge although nothing "
                  "asks for it")
    rep.check(seen == {True, False}, f.loc(), "hold", "the option to pause at every clock edge is "
              "not looked at")


def option(P, name):
    """the field behind an option of the debugger"""
    for f in P.funcs.values():
        if not f.q.startswith(D):
            continue
        for i in f.reachable_nodes():
            n = f.nodes[i]
            if n and n["k"] == "CXXMemberCallExpr" and n.get("q", "").endswith("::add_option"):
                sub = [f.nodes[j] for j in f.subtree(i) if f.nodes[j]]
                if any(x["k"] == "StringLiteral" and x.get("v") == name for x in sub):
                    r = [x["q"] for x in sub if x["k"] == "MemberExpr" and
                         x.get("q", "").startswith(D + "::")]
                    if len(r) == 1:
                        return ("f", ("obj", D), r[0])
    raise AnalysisBroken("the option %s is not found" % name)


def run_c11(P, rep, tier):
    locking(P, rep)
    resuming(P, rep)


# ---- C12 ------------------------------------------------------------------------------------------

TEXT = {"find": "in", "contains": "in", "starts_with": "start", "rfind": "in", "compare": "?",
        "ends_with": "?"}
COLLECT = ("insert", "emplace", "emplace_back", "push_back")


def text_of(q):
    return q.startswith(("std::basic_string<", "std::basic_string_view<", "std::__cxx11::")) and \
        q.rsplit("::", 1)[1] in TEXT


def monitor_prefix(P):
    """what the names of the callbacks of watched signals begin with"""
    f = P.fn(RTL + "::monitor_signals")
    names = set()

    def watch(q, n):
        if q == RTL + "::add_call_back":
            return "add"
        if q == "std::operator+":
            return "cat"
        if q == "fmt::format" or q.startswith("fmt::") and q.endswith("::format"):
            return "cat"
        if q.startswith("fmt::basic_format_string<"):
            return "pattern"
        return None

    def value(name, I, st, f2, node, n, obj, args):
        if name == "pattern":
            return [(st, I._rv(st, args[0]))]
        if name == "cat":
            return [(st, ("q", "cat") + tuple(I._rv(st, a) for a in args[:2]))]
        if name == "add":
            t = I._rv(st, args[0])
            if t[0] == "v":
                t = st.store.get(t, t)
            while t[0] == "q" and t[1] == "cat":
                t = t[2]
            names.add(t[1].split("{")[0] if t[0] == "str" else None)
            return [(st, ("q", "added"))]
        return None
    out = run(P, f, watch, value=value,
              follow=lambda t: t.q.startswith("hgdb::") and t.q not in EVENTS and
              any(n and n.get("q") in (RTL + "::add_call_back", "std::operator+", "fmt::format")
                  for n in t.nodes) and t.q != RTL + "::get_full_name")
    if not names or None in names or "" in names:
        raise AnalysisBroken("the names of the callbacks of watched signals are not recognised")
    return f, names, out


def calls(P, fn, q):
    return fn[0] == "fnref" and fn[1] in P.funcs and \
        any(n and n.get("q") == q for n in P.funcs[fn[1]].nodes)


def callbacks(P):
    """[(function, event)] for the callbacks the startup registers"""
    r = []
    for g in P.funcs.values():
        if g.cls == RTL or not any(n and n["k"] == "CXXMemberCallExpr" and
                                   n.get("q") == RTL + "::add_call_back" for n in g.nodes):
            continue
        for s, v, evs in run(P, g, lambda q, n: "add" if q == RTL + "::add_call_back" else None,
                             follow=lambda t: False,
                             value=lambda name, I, st, f2, node, n, obj, args:
                             [(st, ("q", "added", f2.loc(node)))]):
            r += [(e[2][2], e) for e in evs if e[0] == "add"]
    return r


def taken_out(P, rep, f):
    """every hook that calls the evaluation is removed"""
    _, prefixes, _ = monitor_prefix(P)
    # with verilator the evaluation is hooked under a name of its own
    names = {e[2][0] for fn, e in callbacks(P) if calls(P, fn, D + "::eval")}
    if not names:
        raise AnalysisBroken("the callback that evaluates with verilator is not found")
    is_v = ("q", "verilator")
    for s, v, evs in outline(P, f, facts={is_v: True}):
        rep.ok()
        gone = {e[2][0] for e in evs if e[0] == "remove"}
        rep.check(names <= gone, f.loc(), "leave",
                  "the evaluation stays hooked into a verilator simulation")
    # otherwise the names of its callbacks begin with the prefix
    lits = []

    def watch(q, n):
        if q in (RTL + "::remove_call_back", RTL + "::callback_names", RTL + "::is_verilator"):
            return EVENTS[q]
        if text_of(q):
            return "text"
        if q.rsplit("::", 1)[-1] in COLLECT and q.startswith("std::"):
            return "collect"
        return None

    def value(name, I, st, f2, node, n, obj, args):
        if name == "text":
            how = n["q"].rsplit("::", 1)[1]
            a = I._rv(st, args[0])
            if a[0] != "str" or TEXT[how] == "?":
                raise AnalysisBroken("how the callbacks to remove are chosen is not recognised: " +
                                     f2.loc(node))
            ok = all((a[1] in p if TEXT[how] == "in" else p.startswith(a[1])) for p in prefixes)
            lits.append((f2.loc(node), a[1], ok))
            if how in ("find", "rfind"):
                return [(st, ("c", 0) if ok else npos)]
            return [(st, TRUE if ok else FALSE)]
        if name == "verilator":
            return [(st, is_v)]
        if name == "collect":
            return None
        return [(st, None)] if name == "remove" else None
    def own(t):
        return t.q.startswith("hgdb::") and (t.cls == D or t.is_lambda or t.cls == "") and \
            t.q not in EVENTS and (any(n and EVENTS.get(n.get("q")) in ("remove", "names")
                                       for n in t.nodes) or
                                   t.rt == "bool" and any("string" in p["t"] for p in t.params) and
                                   any(n and text_of(n.get("q", "")) for n in t.nodes))
    npos = ("g", "std::basic_string<char>::npos")
    out = run(P, f, watch, value=value, facts={is_v: False, npos: True}, follow=own)
    for loc, lit, ok in lits:
        rep.check(ok, loc, "leave", "the callbacks on the clocks are called otherwise than what is "
                  "looked for, and stay")
    some = False
    for s, v, evs in out:
        rep.ok()
        # per iteration over the callbacks: removed, or put into a collection that is gone through
        gone = [e for e in evs if e[0] == "remove"]
        direct = collected = 0
        for lid, names_, how in s.auto[2]:
            if how != "next":
                # a loop over all of them is not left early
                rep.check("remove" not in names_ and "collect" not in names_, f.loc(), "leave",
                          "only some of the callbacks on the clocks are removed")
                continue
            direct += "remove" in names_
            collected += "collect" in names_
            if not ({"remove", "collect"} & set(names_)):
                rep.bad(f.loc(), "leave", "a callback on a clock stays")
        if direct:
            some = True
            for e in gone:
                rep.check(e[2] and e[2][0][0] in ("deref", "f", "q", "v", "p"), e[3], "leave",
                          "a callback on a clock stays")
        elif collected:
            # what was collected is empty only if nothing was put into it: those paths are not real
            some = some or bool(gone)
    rep.check(some, f.loc(), "leave", "the callbacks on the clocks are not removed")


def leaving(P, rep):
    rep.rule("leave", "leaving takes every hook of the evaluation out of the simulation, stops "
             "breaking and lets a waiting simulation go")
    f = P.fn(D + "::detach")
    taken_out(P, rep, f)
    lock = the_field(P, D, lambda t: t == LOCK, "the lock of the simulation")
    running = the_field(P, D, lambda t: t == "std::atomic<bool>", "the state of the debugger")
    sched = the_field(P, D, lambda t: "Scheduler" in t and "unique_ptr" in t, "the scheduler")
    none = [("e", S + "EvaluationMode", c["v"]) for c in P.enum(S + "EvaluationMode")["c"]
            if c["n"] == "None"][0]
    seen = 0
    for s, v, evs in outline(P, f, only=("mode", "ready", "remove", "verilator")):
        names = [e[0] for e in evs]
        modes = [e for e in evs if e[0] == "mode"]
        rep.ok()
        if s.truth(sched) is not False:
            rep.check(modes and all(e[2] == (none,) for e in modes), f.loc(), "leave",
                      "the simulation can still stop at a breakpoint after the debugger left")
        was = s.facts.get(("q", "first", ("c", repr(running))))
        go = [e for e in evs if e[0] == "ready" and e[1] == lock]
        if was is not False:
            seen += 1
            rep.check(go, f.loc(), "leave", "a waiting simulation is not let go")
            rep.check(s.store.get(running) == FALSE or was is None, f.loc(), "leave",
                      "the debugger counts as running after it left")
        if go:
            last = len(names) - 1 - names[::-1].index("ready")
            rep.check(not {"mode", "remove"} & set(names[last + 1:]), go[0][3], "leave",
                      "the simulation is let go before the debugger is taken out")
    rep.check(seen, f.loc(), "leave", "a waiting simulation is not let go")
    # stopping leaves
    f = P.fn(D + "::stop")
    for s, v, evs in outline(P, f, only=("server-stop", "detach")):
        rep.ok()
        names = [e[0] for e in evs]
        rep.check("server-stop" in names, f.loc(), "leave", "the server keeps running")
        rep.check("detach" in names or
                  s.facts.get(("q", "first", ("c", repr(running)))) is False, f.loc(), "leave",
                  "the debugger stays in the simulation although it is stopped")
    # the end of the simulation stops it, and then it is gone
    ends = [f for f in P.funcs.values() if f.cls != D and not f.is_lambda and
            any(n and n.get("q") == D + "::stop" for n in f.nodes)]
    if not ends:
        rep.bad(P.fn(D + "::stop").loc(), "leave", "nothing stops the debugger at the end")
    for f in ends:
        rep.count("ends of the simulation")
        for s, v, evs in outline(P, f, only=("stop",)):
            rep.check("stop" in [e[0] for e in evs], f.loc(), "leave",
                      "the end of the simulation does not stop the debugger")


def clients_gone(P, rep):
    rep.rule("gone", "the last client's leaving is noticed, and makes the debugger leave when that "
             "is asked for")
    opt = option(P, "detach_after_disconnect")
    # what the debugger does about it
    lams = set()

    def w(q, n):
        return "set" if q.endswith("DebugServer::set_on_call_client_disconnect") else None
    for f in P.fns(D + "::Debugger"):
        def value(name, I, st, f2, node, n, obj, args):
            a = I._rv(st, args[0])
            if a[0] == "lam":
                lams.add(a[1])
            return [(st, None)]
        run(P, f, w, value=value, follow=lambda t: False)
    rep.check(lams, P.fns(D + "::Debugger")[-1].loc(), "gone", "nothing is done when all clients have "
              "left")
    for key in lams:
        for f in bodies(P, key):
            on = set()
            for s, v, evs in outline(P, f, only=("detach",), this=D):
                rep.ok()
                t = s.truth(opt)
                on.add(t)
                rep.check(("detach" in [e[0] for e in evs]) == (t is True), f.loc(), "gone",
                          "the debugger leaves although that is not asked for" if t is False else
                          "the debugger stays although all clients have left")
            rep.check(on == {True, False}, f.loc(), "gone", "the option is not looked at")
    # when the server says so
    conns = the_field(P, SERVER, lambda t: "map<" in t and "uint64_t, " in t or
                      "unordered_map<unsigned long, " in t, "the connections")
    call = the_field(P, SERVER, lambda t: "function<void ()>" in t or "function<void()>" in t,
                     "the callback for the last client")
    close = set()

    def w2(q, n):
        return "close" if q.endswith("::set_close_handler") else None
    for f in P.fns(SERVER + "::DebugServer"):
        def value2(name, I, st, f2, node, n, obj, args):
            a = I._rv(st, args[0])
            if a[0] == "lam":
                close.add(a[1])
            return [(st, None)]
        run(P, f, w2, value=value2, follow=lambda t: t.cls == SERVER)
    if not close:
        rep.bad(P.fns(SERVER + "::DebugServer")[-1].loc(), "gone", "nothing is done when a client "
                "leaves")
    for key in close:
        for f in bodies(P, key):
            rep.count("close handlers")
            kinds = set()

            def w3(q, n):
                if q.endswith("::erase"):
                    return "erase"
                if q.endswith("::empty") or q.endswith("::size"):
                    return "empty"
                if q.startswith("std::function<") and q.endswith("operator()"):
                    return "call"
                return None

            def value3(name, I, st, f2, node, n, obj, args):
                if name == "empty" and obj == conns:
                    left = any(e[0] == "erase" and e[1] == conns for e in st.auto[0])
                    t = ("q", "nobody", left)
                    if n["q"].endswith("size"):
                        r = []
                        for b in (True, False):
                            s2 = st.copy()
                            if s2.assume(t, b) is not False:
                                r.append((s2, ("c", 0 if b else 1)))
                        return r
                    return [(st, t)]
                if name == "call":
                    return [(st, None)]
                if name == "erase" and obj == conns:
                    k = I._rv(st, args[0])
                    mine = ("it", conns)
                    if mine in subterms(k):
                        # an element that was met while looking: it is the one that was closed
                        rep.check(any(t[0] == "eq" and b and mine in subterms(t) and
                                      ("end", conns) not in t for t, b in st.facts.items()),
                                  f2.loc(node), "gone", "another client is forgotten instead of the "
                                  "one that left")
                return None
            out = run(P, f, w3, this=SERVER, value=value3,
                      follow=lambda t: t.cls == SERVER or t.is_lambda)
            for s, v, evs in out:
                rep.ok()
                erased = any(e[0] == "erase" and e[1] == conns for e in evs)
                called = any(e[0] == "call" for e in evs)
                nobody = s.facts.get(("q", "nobody", True)) if erased else \
                    s.facts.get(("q", "nobody", False))
                isset = [b for t, b in s.facts.items() if strip(t) == call or t == call]
                kinds.add((erased, nobody, called))
                if called:
                    rep.check(nobody is True, f.loc(), "gone", "the debugger is told that all clients "
                              "have left although one is there")
                elif erased and nobody is not False:
                    rep.check(False in isset, f.loc(), "gone", "nobody is told that the last client "
                              "has left")
            rep.check(any(k[0] for k in kinds), f.loc(), "gone", "a client that left still counts as "
                      "connected")
            rep.check((True, True, True) in kinds, f.loc(), "gone", "nobody is told that the last "
                      "client has left")
    rep.need("close handlers", 1)


def bodies(P, key):
    if key in P.funcs:
        return [P.funcs[key]]
    return [P.funcs[k] if k in P.funcs else k for k in P.lambda_bodies(key)]


def hooking(P, rep):
    rep.rule("connect", "a connection with a symbol table hooks the evaluation to the clocks and "
             "counts as running; the evaluation takes place when the clock is high")
    running = the_field(P, D, lambda t: t == "std::atomic<bool>", "the state of the debugger")
    f = P.fn(D + "::handle_connection")
    nm = "hgdb::DebuggerNamespaceManager::"
    seen = 0
    for s, v, evs in outline(P, f, only=("load", "monitor", "verilator"),
                             special=tuple(nm + x for x in ("empty", "size", "default_rtl"))):
        rep.ok()
        fails = s.facts.get(("q", "load")) is False
        if fails:
            rep.check(s.store.get(running) != TRUE, f.loc(), "connect", "a connection without a symbol "
                      "table counts")
            continue
        seen += 1
        rep.check(s.store.get(running) == TRUE, f.loc(), "connect", "the debugger does not count as "
                  "running although a client has connected")
        hooked = any(e[0] == "monitor" for e in evs)
        verilator = s.facts.get(("q", "verilator")) is True
        nothing = s.facts.get(("q", nm + "empty")) is True or \
            s.facts.get(("q", nm + "size")) is False or \
            s.facts.get(("q", nm + "default_rtl")) is False
        if verilator:
            rep.check(not hooked, f.loc(), "connect", "with verilator the evaluation is hooked twice")
        elif not nothing:
            rep.check(hooked, f.loc(), "connect", "the evaluation is not hooked to the clocks")
    rep.check(seen, f.loc(), "connect", "no connection succeeds")
    # what is hooked
    some = False
    for s, v, evs in outline(P, f, only=("load", "monitor", "verilator")):
        for e in evs:
            if e[0] == "monitor":
                some = True
                fn = e[2][1]
                ok = fn[0] == "fnref" and any(
                    n and n.get("q") == D + "::eval" for n in P.funcs[fn[1]].nodes)
                rep.check(ok, e[3], "connect", "something else is hooked to the clocks")
                rep.check(strip(e[2][2]) == ("obj", D), e[3], "connect", "the callback of the clocks "
                          "does not get its debugger")
                if ok:
                    high(P, rep, P.funcs[fn[1]])
    rep.check(some, f.loc(), "connect", "the evaluation is not hooked to the clocks")
    # all of them
    f, _, out = monitor_prefix(P)
    for s, v, evs in out:
        rep.ok()
        if v == TRUE or s.truth(v):
            bad = s.facts.get(("q", "added")) is False or any(
                how == "next" and "add" not in names for lid, names, how in s.auto[2])
            rep.check(not bad, f.loc(), "connect", "a signal is not watched although it is said to "
                      "be")


def high(P, rep, f):
    kinds = set()
    for s, v, evs in outline(P, f, only=("eval",)):
        rep.ok()
        val = [b for t, b in s.facts.items() if t[0] == "f" and t[2].endswith("::integer")]
        on = "eval" in [e[0] for e in evs]
        kinds.add(on)
        if not val:
            rep.bad(f.loc(), "connect", "the evaluation does not look at the value of the clock")
        else:
            rep.check(on == (val[-1] is True), f.loc(), "connect", "the evaluation takes place at the "
                      "wrong edge of the clock")
    rep.check(kinds == {True, False}, f.loc(), "connect", "the evaluation does not take place")


def handles(P, rep):
    rep.rule("hooks", "a callback that is removed is removed from the simulator and forgotten")
    table = callback_table(P)
    byname = [f for f in P.fns(RTL + "::remove_call_back") if "string" in f.params[0]["t"]]
    if len(byname) != 1:
        raise AnalysisBroken("removing a callback by its name is not found")
    f = byname[0]

    def watch(q, n):
        m = q.rsplit("::", 1)[-1]
        if m == "vpi_remove_cb":
            return "remove"
        if m in ("erase", "extract"):
            return "erase"
        if m in ("contains", "count"):
            return "has"
        return None
    removed = False
    for s, v, evs in run(P, f, watch, this=RTL, frozen=(table,),
                         value=lambda name, I, st, f2, node, n, obj, args:
                         [(st, None)] if name in ("remove", "erase") else None):
        rep.ok()
        rem = [e for e in evs if e[0] == "remove"]
        if rem:
            removed = True
            for e in rem:
                x = lookup(e[2][0])
                rep.check(x and x[0] == table, e[3], "hooks", "something else is removed from the "
                          "simulator")
        else:
            # only when there is none of that name
            gone = any(t[0] == "found" and b is False or t[0] == "eq" and b is True or
                       t[0] in ("p", "q") and b is False
                       for t, b in s.facts.items() if any(u == table for u in subterms(t)))
            rep.check(gone, f.loc(), "hooks", "a callback stays in the simulator although it is to be "
                      "removed")
    rep.check(removed, f.loc(), "hooks", "a callback stays in the simulator although it is to be "
              "removed")
    erases = [e for s, v, evs in run(P, f, watch, this=RTL) for e in evs if e[0] == "erase" and
              e[1] == table]
    rep.check(erases, f.loc(), "hooks", "a callback that is removed is not forgotten, and cannot be "
              "added again")


def callback_table(P):
    """the container the handles of the callbacks are kept in"""
    f = P.fn(RTL + "::callback_names")
    r = {n["q"] for n in f.nodes if n and n["k"] == "MemberExpr" and
         n.get("q", "").startswith(RTL + "::") and "map<" in n.get("t", "")
         and n.get("field")}
    if len(r) != 1:
        raise AnalysisBroken("the table of callbacks is not recognised")
    return ("f", ("obj", RTL), r.pop())


def run_c12(P, rep, tier):
    leaving(P, rep)
    clients_gone(P, rep)
    hooking(P, rep)
    handles(P, rep)
