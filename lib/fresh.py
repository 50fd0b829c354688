"""C16: what is evaluated and reported are the values the simulation has at that moment."""
from c01 import show
from engine import FALSE, Interp, NULL, State, TRUE, subterms
from evals import APPEND, D, S, event_result, one
from extract import AnalysisBroken
from paths import Trace, lookup, run, strip

RTL = "hgdb::RTLSimulatorClient::"
MAP_READ = ("at", "find", "operator[]", "count", "contains")
MAP_STORE = ("emplace", "insert", "insert_or_assign", "try_emplace", "operator[]")


def value_cache(P):
    """the debugger's table of signal values: handle -> value"""
    import re
    return [fd["q"] for fd in P.record("hgdb::Debugger")["fields"]
            if re.match(r"std::(unordered_)?map<unsigned int \*, (long|int|unsigned long)\b", fd["t"])]


def on_cache(st, I, obj, args, caches):
    for x in ([obj] if obj is not None else []) + list(args[:1]):
        t = strip(I._rv(st, x))
        if t[0] == "f" and t[2] in caches:
            return t
        t = strip(x)
        if t[0] == "f" and len(t) == 3 and t[2] in caches:
            return t
    return None


def reads(P, rep, caches):
    f = P.fn(D + "get_signal_value")
    rep.rule("cache-use", "a remembered value is only used if the user turned the cache on, for the "
             "signal it was read from; what is remembered is what has just been read")
    ns, h = (("v", p["d"]) for p in f.params[:2])
    deld = ("v", f.params[2]["d"]) if len(f.params) > 2 else None
    opts = [fd["q"] for fd in P.record("hgdb::Debugger")["fields"] if fd["t"] == "bool"]

    class Client(Trace):
        def on_call(self, I, st, f2, node, n, obj, args):
            name = n.get("q", "").split("::")[-1]
            c = on_cache(st, I, obj, args, caches) if n.get("q", "").startswith("std::") else None
            if c is not None and name in MAP_STORE + ("at", "find", "count", "contains"):
                a = [strip(I._rv(st, x)) for x in args if strip(x) != c]
                self.ev(st, ("store" if name in MAP_STORE and name != "operator[]" else "look",
                             c, tuple(a), f2.loc(node)))
            return Trace.on_call(self, I, st, f2, node, n, obj, args)
    W = {RTL + "get_value": "read"}

    def value(name, I, st, f2, node, n, obj, args):
        if name == "namespace":
            return [(st, ("q", "namespace", I._rv(st, args[-1])))]
        if name == "default":
            return [(st, ("q", "default"))]
        if name == "read":
            return event_result(name, I, st, f2, node, n, obj, args)
        return None
    cl = Client(P, lambda q, n: W.get(q) or (
        "default" if q == "hgdb::DebuggerNamespaceManager::default_rtl" else
        "namespace" if q == "hgdb::DebuggerNamespaceManager::operator[]" else
        "store" if q == "operator[]=" else None),
        lambda t: t.is_lambda or t.q.startswith(D) and len(t.nodes) < 120, value)
    cl._assign = None
    I = Interp(P, cl)
    outs = I.run(f, State(env={"this": ("addr", ("obj", f.cls))}, auto=cl.empty_auto()))
    on = None
    n_read = 0
    for s, v in outs:
        rep.count("value lookups")
        evs = s.auto[0]
        enabled = [q for q in opts if s.truth(("f", ("obj", f.cls), q)) is True]
        src = set()
        for x in subterms(v):
            if x[0] == "ev" and x[1] == "read":
                src.add("read")
        lk = None
        for x in subterms(v):
            c = lookup(x)
            if c and strip(c[0])[0] == "f" and strip(c[0])[2] in caches:
                src.add("cache")
                lk = c
        for e in evs:
            if e[0] in ("look", "store"):
                rep.check(bool(enabled), e[3], "cache-use", "remembered values are used although "
                          "the cache has not been turned on", key="off|" + e[0])
                if e[2]:
                    rep.check(e[2][0] == h, e[3], "cache-use", "the remembered value of another "
                              "signal is used", key="key|" + e[0])
            if e[0] == "store" and len(e[2]) > 1:
                rep.check(any(x[0] == "ev" and x[1] == "read" for x in subterms(e[2][-1])), e[3],
                          "cache-use", "what is remembered is not the value read", key="stored")
            if e[0] == "read":
                n_read += 1
                rep.check(e[2] and e[2][0] == h, e[3], "cache-use",
                          "the value of another signal is read", key="read-handle")
                q = [x for x in subterms(e[1]) if x[0] == "q" and x[1] == "namespace"] \
                    if e[1] else []
                rep.check(not any(x[0] == "q" and x[1] == "default" for x in subterms(e[1])) and
                          (not q or q[0][2] == ns), e[3], "cache-use",
                          "the value is read in another namespace", key="read-ns")
        if lk is not None:
            rep.check(lk[1] == h or lk[1] == ("*",), f.loc(), "cache-use",
                      "the remembered value of another signal is returned", key="lookup")
        reads_ = [e for e in evs if e[0] == "read"]
        if not src and deld is not None and s.truth(deld) is True:
            continue
        if reads_ and v != NULL and not src:
            # nothing, if it cannot be read
            t = s.truth(v)
            known = [b for x, b in s.facts.items() if x[0] == "ev" and x[1] == "read"]
            rep.check(False in known or t is None, f.loc(), "cache-use",
                      "a signal's value is read and not returned", key="dropped")
    rep.check(n_read > 0, f.loc(), "cache-use", "no signal is ever read", key="no-read")


class CycleClient(Trace):
    """When are the remembered values dropped?"""

    def __init__(self, P, caches, rep):
        Trace.__init__(self, P, self.name_of, self.into, self.result)
        self._assign = None
        self.caches = caches
        self.rep = rep
        self.size = {}

    W = {S + "next_breakpoints": "next", D + "eval_breakpoints": "evaluate",
         D + "eval_breakpoint": "evaluate", "hgdb::RuntimeLock::wait": "wait",
         D + "update_delayed_values": "delayed", RTL + "get_simulation_time": "time",
         S + "start_breakpoint_evaluation": "restart"}

    def into(self, t):
        if t.is_lambda:
            return True
        if t.q in self.W or not t.q.startswith(D) or len(t.nodes) > 250:
            return False
        if t.key not in self.size:
            self.size[t.key] = any(
                self.W.get(self.P.funcs[k].q) in ("next", "wait", "evaluate") or
                self.clears(self.P.funcs[k]) for k in self.P.reachable([t]))
        return self.size[t.key]

    def clears(self, g):
        return any(n and n.get("q", "").split("::")[-1] in ("clear", "swap") and
                   any(m and m.get("q") in self.caches for m in (g.nodes[x] for x in g.subtree(i)))
                   for i, n in enumerate(g.nodes) if n and n["k"] == "CXXMemberCallExpr")

    def name_of(self, q, n):
        return self.W.get(q)

    def result(self, name, I, st, f, node, n, obj, args):
        if name in ("next", "evaluate", "time"):
            return event_result(name, I, st, f, node, n, obj, args)
        return None

    def ev(self, st, e):
        # only: has the cache been dropped since the simulation may have moved?
        evs, loops, iters = st.auto
        cur = set(x[0] for x in evs)
        if e[0] == "clear":
            cur.add("dropped")
        elif e[0] == "wait":
            cur -= {"dropped", "updated", "same"}
            cur.add("moved")
        elif e[0] == "delayed":
            cur.add("updated")
        elif e[0] == "restart":
            cur.add("restarted")
        st.auto = (tuple(sorted((x, None, (), "") for x in cur)), (), frozenset())

    def on_assign(self, I, st, f, node, loc, val):
        t = strip(loc)
        if t[0] == "f" and len(t) == 3 and t[2] in self.caches:
            self.ev(st, ("clear", None, (), ""))

    def on_call(self, I, st, f, node, n, obj, args):
        q = n.get("q", "")
        if q.split("::")[-1] in ("clear", "swap") and q.startswith("std::") and \
                on_cache(st, I, obj, args, self.caches) is not None:
            self.ev(st, ("clear", None, (), ""))
        name = self.W.get(q)
        if name == "evaluate":
            cur = set(x[0] for x in st.auto[0])
            same = self.same(st) or "same" in cur
            self.rep.count("evaluations in a cycle")
            if "moved" in cur:
                self.rep.check("dropped" in cur or same, f.loc(node), "fresh", "breakpoints are "
                               "evaluated with values remembered from before the simulation was "
                               "resumed and possibly moved to another time", key="moved")
            self.rep.check("dropped" in cur or "moved" in cur,
                           f.loc(node), "fresh", "breakpoints are evaluated with values remembered "
                           "from an earlier clock cycle", key="stale-cycle")
            self.rep.check("restarted" in cur or not self.has_scheduler(st), f.loc(node), "fresh",
                           "a clock cycle is evaluated without starting it over in the scheduler",
                           key="restart")
        return Trace.on_call(self, I, st, f, node, n, obj, args)

    def on_edge(self, I, st, f, b, succ):
        # found at the same time as before
        if self.same(st):
            cur = set(x[0] for x in st.auto[0]) | {"same"}
            st.auto = (tuple(sorted((x, None, (), "") for x in cur)), (), frozenset())

    @staticmethod
    def same(st):
        return any(t[0] == "eq" and b and any(x[0] == "ev" and x[1] == "time"
                                              for x in subterms(t)) for t, b in st.facts.items())

    def has_scheduler(self, st):
        return True

    def join_key(self, st):
        return st.auto


def cycle(P, rep, caches):
    f = P.fn(D + "eval")
    rep.rule("fresh", "remembered values are dropped at the start of each clock cycle, and when the "
             "simulation may have been moved to another time while it was paused")
    cl = CycleClient(P, caches, rep)
    I = Interp(P, cl)
    I.run(f, State(env={"this": ("addr", ("obj", f.cls))}, auto=cl.empty_auto()))
    # the values of the previous cycle move on once per cycle
    g = P.fn(D + "start_breakpoint_evaluation")
    cl = CycleClient(P, caches, rep)
    I = Interp(P, cl)
    outs = I.run(g, State(env={"this": ("addr", ("obj", g.cls))}, auto=cl.empty_auto()))
    for s, v in outs:
        cur = set(x[0] for x in s.auto[0])
        rep.check("dropped" in cur, g.loc(), "fresh", "starting a clock cycle does not drop the "
                  "remembered values", key="start-drop")
        rep.check("updated" in cur, g.loc(), "fresh", "starting a clock cycle does not move the "
                  "delayed values on", key="start-delayed")


def written(P, rep, caches):
    f = P.fn(D + "handle_set_value")
    rep.rule("written", "a value set by the user replaces the remembered one")
    W = {RTL + "set_value": "set", RTL + "get_handle": "handle", D + "send_message": "send",
         D + "send_error": "error"}

    class Client(Trace):
        def on_call(self, I, st, f2, node, n, obj, args):
            q = n.get("q", "")
            name = q.split("::")[-1]
            if q.startswith("std::") and name in ("erase", "clear") + MAP_STORE:
                c = on_cache(st, I, obj, args, caches)
                if c is not None:
                    a = [strip(I._rv(st, x)) for x in args if strip(x) != c]
                    self.ev(st, ("drop" if name in ("erase", "clear") else "store", c, tuple(a),
                                 f2.loc(node)))
            return Trace.on_call(self, I, st, f2, node, n, obj, args)

    def value(name, I, st, f2, node, n, obj, args):
        if name == "handle":
            return [(st, ("q", "handle") + tuple(strip(I._rv(st, a)) for a in args))]
        if name == "set":
            return event_result(name, I, st, f2, node, n, obj, args)
        return [(st, ("c", 0))]
    cl = Client(P, lambda q, n: W.get(q), lambda t: t.is_lambda, value)
    cl._assign = None
    I = Interp(P, cl)
    outs = I.run(f, State(env={"this": ("addr", ("obj", f.cls))}, auto=cl.empty_auto()))
    n = 0
    opts = [fd["q"] for fd in P.record("hgdb::Debugger")["fields"] if fd["t"] == "bool"]
    for s, v in outs:
        evs = s.auto[0]
        sets = [e for e in evs if e[0] == "set"]
        ok = [b for t, b in s.facts.items() if t[0] == "ev" and t[1] == "set"]
        if not sets or True not in ok:
            continue
        n += 1
        off = any(s.truth(("f", ("obj", f.cls), q)) is False for q in opts)
        absent = any(t[0] == "found" and not b and any(
            x[0] == "f" and len(x) == 3 and x[2] in caches for x in subterms(t))
            for t, b in s.facts.items())
        drops = [e for e in evs if e[0] in ("drop", "store")]
        rep.check(off or absent or bool(drops), f.loc(), "written", "after a value has been set the "
                  "one remembered from before is still used", key="set-keeps")
        for e in drops:
            if e[2] and e[2][0][0] == "q" and e[2][0][1] == "handle":
                rep.check(e[2][0][2] == strip(sets[0][2][0]), e[3], "written", "the remembered "
                          "value of another signal is dropped", key="set-other")
    rep.count("value changes", n)


def run_c16(P, rep, tier):
    caches = value_cache(P)
    if not caches:
        raise AnalysisBroken("the debugger's table of remembered values is not recognised")
    reads(P, rep, caches)
    cycle(P, rep, caches)
    written(P, rep, caches)
