"""C15: a breakpoint pauses the simulation exactly when its condition holds.
C16: what is evaluated are the current values."""
import re

from c01 import enum_name, show
from engine import FALSE, NULL, TRUE, is_const, subterms
from extract import AnalysisBroken
from handlers import LoopClient
from indexes import Arith, Unknown, lambdas_in, parents
from paths import Trace, lookup, run, strip
from engine import Interp, State

D = "hgdb::Debugger::"
BP = "hgdb::DebugBreakPoint::"
S = "hgdb::Scheduler::"


def one(P, q, pred):
    fs = [f for f in P.fns(q) if pred(f)]
    if len(fs) != 1:
        raise AnalysisBroken("%s: %d candidates" % (q, len(fs)))
    return fs[0]


def event_result(name, I, st, f, node, n, obj, args):
    res = ("ev", name, f.key, node)
    st.kill(lambda sub: res in sub)
    return [(st, res)]


def literal(f, i):
    for x in f.subtree(i):
        n = f.nodes[x]
        if n and n["k"] == "StringLiteral":
            return n.get("v", "")
    return None


def enum_terms(P, e):
    return {c["n"]: ("e", e, c["v"]) for c in P.enum(e)["c"]}


def consistent(s, *facts):
    """can the path be taken when these facts hold?"""
    s2 = s.copy()
    return all(s2.assume(t, b) for t, b in facts)


# ---------------------------------------------------------------- one breakpoint

NS_LOOKUP = ("hgdb::DebuggerNamespaceManager::operator[]", "hgdb::DebuggerNamespaceManager::at")
W_EVAL = {D + "set_expr_values": "values", "hgdb::DebugExpression::eval": "eval",
          "hgdb::DebugExpression::correct": "correct", D + "should_trigger": "trigger",
          "hgdb::Monitor::var_changed": "changed"}


def truth_of(s, name):
    """what the path knows about the result of an event: (evaluated, truth)"""
    res = None
    for t, b in s.facts.items():
        base = t
        while base[0] in ("f", "deref", "some"):
            base = base[1]
        if base[0] == "ev" and base[1] == name:
            if name == "changed" and base == t:
                continue
            res = b
        if t[0] == "eq" and ("c", 0) in t[1:]:
            x = t[1] if t[2] == ("c", 0) else t[2]
            if x[0] == "ev" and x[1] == name:
                res = not b
    return res


def single_breakpoint(P, rep):
    f = one(P, D + "eval_breakpoint", lambda f: len(f.params) == 1)
    bp = ("deref", ("v", f.params[0]["d"])) if f.params[0]["t"].endswith("*") \
        else ("v", f.params[0]["d"])

    def fld(n):
        return ("f", bp, BP + n)
    rep.rule("hit", "on every path of eval_breakpoint the result is true exactly if the expression "
             "is valid, its values could be read, it is not 0, the trigger fires and, for a data "
             "breakpoint, the variable changed")
    rep.rule("which-expression", "the full condition is used when running from breakpoint to "
             "breakpoint, the enable condition when stepping")
    modes = enum_terms(P, S + "EvaluationMode")
    types = enum_terms(P, BP + "Type")
    mfield = [fd["q"] for fd in P.record("hgdb::Scheduler")["fields"]
              if "EvaluationMode" in fd["t"]]
    if len(mfield) != 1:
        raise AnalysisBroken("the scheduler's evaluation mode is not recognised")
    def value(name, I, st, f, node, n, obj, args):
        if name == "namespace":
            return [(st, ("q", "namespace", I._rv(st, args[-1])))]
        return event_result(name, I, st, f, node, n, obj, args)
    outs = run(P, f, lambda q, n: W_EVAL.get(q) or ("namespace" if q in NS_LOOKUP else None),
               value=value, follow=lambda t: t.q.startswith((D, S)) and len(t.nodes) < 150)
    n_true = 0
    for s, v, evs in outs:
        rep.count("evaluation paths")
        r = s.truth(v)
        names = [e[0] for e in evs]
        where = next((e[3] for e in evs), f.loc())
        conds = {k: truth_of(s, k) for k in ("correct", "values", "eval", "trigger", "changed")}
        data = s.truth(("eq", fld("type"), types["data"]))
        if data is None:
            data = s.truth(("eq", types["data"], fld("type")))
        if r is None:
            continue      # not decided on this path
        if r:
            n_true += 1
            for k, what in (("correct", "its expression may be invalid"),
                            ("values", "its values may not have been read"),
                            ("eval", "its condition may be false"),
                            ("trigger", "none of its triggers may have changed")):
                rep.check(conds[k] is True, f.loc(), "hit",
                          "a breakpoint can pause the simulation although " + what, key="hit|" + k)
            rep.check(data is False or conds["changed"] is True, f.loc(), "hit",
                      "a data breakpoint can pause the simulation although its variable has not "
                      "changed", key="hit|changed")
            rep.check(not (data is False and "changed" in names), f.loc(), "hit",
                      "a breakpoint that is no data breakpoint consumes the change of a variable",
                      key="hit|consume")
        else:
            rep.check(any(conds[k] is False for k in ("correct", "values", "eval", "trigger")) or
                      conds["changed"] is False and data is True, f.loc(), "hit",
                      "a breakpoint whose condition holds does not pause the simulation",
                      key="miss")
        # the trigger remembers the values it has seen in each evaluation
        if conds["values"] is True and conds["correct"] is not False:
            rep.check("trigger" in names, f.loc(), "hit", "a trigger does not see every value: it "
                      "compares with the value at an earlier hit, not at the last evaluation",
                      key="trigger-seen")
        # which expression, in which mode
        for e in evs:
            if e[0] != "eval":
                continue
            obj = strip(e[1])
            for m, mt in modes.items():
                ms = [t for t in s.facts if t[0] == "eq" and any(
                    x[0] == "f" and x[2] == mfield[0] for x in t[1:] if len(x) == 3)]
                facts = []
                ok = True
                for t in ms:
                    a = next(x for x in t[1:] if not (x[0] == "f" and len(x) == 3 and
                                                      x[2] == mfield[0]))
                    if s.facts[t] != (a == mt):
                        ok = False
                if not ok:
                    continue
                full = m in ("BreakPointOnly", "ReverseBreakpointOnly")
                has = s.truth(fld("expr"))
                want = fld("expr") if full and has is not False else fld("enable_expr")
                if m == "None":
                    continue
                rep.check(obj == want, e[3], "which-expression",
                          "in mode %s a breakpoint is evaluated with its %s" % (
                              m, obj[2].split("::")[-1] if obj[0] == "f" else show(obj)[:40]),
                          key="expr|" + m)
            vals = [x for x in evs if x[0] == "values"]
            for x in vals:
                rep.check(strip(x[2][1]) == obj, x[3], "hit", "values are read into an expression "
                          "other than the one evaluated", key="values-expr")
                rep.check(x[2][0] == fld("ns_id") and x[2][2] == fld("instance_id"), x[3], "hit",
                          "values are read in a namespace or instance other than the breakpoint's",
                          key="values-ns")
        for e in evs:
            if e[0] == "changed":
                rep.check(e[2][0] == fld("watch_id"), e[3], "hit", "a data breakpoint looks at a "
                          "variable other than its own", key="watch")
                for x in subterms(e[1]):
                    if x[0] != "q" or x[1] != "namespace":
                        continue
                    rep.check(x[2] == fld("ns_id"), e[3], "hit", "a data breakpoint "
                              "looks for its variable in another namespace", key="watch-ns")
            if e[0] == "trigger":
                rep.check(e[2][0] in (("v", f.params[0]["d"]), ("addr", bp)) or
                          strip(e[2][0]) == strip(("v", f.params[0]["d"])), e[3], "hit",
                          "the trigger of another breakpoint is consulted", key="trigger-arg")
    rep.check(n_true > 0, f.loc(), "hit", "no breakpoint ever pauses the simulation", key="never")


# ---------------------------------------------------------------- triggers

def trigger(P, rep):
    f = P.fn(D + "should_trigger")
    rep.rule("trigger", "a trigger fires if one of its symbols has not been seen before, cannot be "
             "read or differs from the value remembered; the value read is remembered for each "
             "symbol")
    bp = ("deref", ("v", f.params[0]["d"]))
    vals = ("f", bp, BP + "trigger_values")
    syms = ("f", bp, BP + "trigger_symbols")

    def watch(q, n):
        if q == D + "get_signal_value":
            return "read"
        if q == "operator[]=":
            return "remember"
        if q.split("::")[-1] in ("insert_or_assign", "emplace", "insert", "try_emplace") and \
                q.startswith("std::") and "map" in q:
            return q.split("::")[-1]
        return None
    outs = run(P, f, watch, value=lambda name, *a: event_result(name, *a) if name == "read" else None,
               follow=lambda t: False)
    for s, v, evs in outs:
        rep.count("trigger paths")
        r = s.truth(v)
        reads = [e for e in evs if e[0] == "read"]
        rem = [e for e in evs if e[0] in ("remember", "insert_or_assign") and strip(e[1]) == vals]
        empty = s.truth(("p", "empty", syms))
        for e in evs:
            if e[0] in ("emplace", "insert", "try_emplace") and strip(e[1]) == vals:
                rep.bad(e[3], "trigger", "a value remembered for a trigger is never replaced",
                        key="sticky")
        failed = truth_of(s, "read") is False
        if reads and not failed:
            rep.check(bool(rem), f.loc(), "trigger", "the value of a trigger symbol is not "
                      "remembered", key="remember")
        for e in rem:
            rep.check(any(x[0] == "ev" and x[1] == "read" for x in subterms(e[2][-1])), e[3],
                      "trigger", "what is remembered for a trigger is not the value read",
                      key="remember-value")
        # what is known about the last comparison
        unseen = differs = None
        for t, b in s.facts.items():
            if t[0] == "found" and any(x == vals for x in subterms(t)):
                unseen = not b
            if t[0] == "eq" and any(x == vals for x in subterms(t)) and \
                    any(x[0] == "ev" and x[1] == "read" for x in subterms(t)):
                differs = not b
        if r is False:
            rep.check(not failed, f.loc(), "trigger", "a breakpoint whose trigger cannot be read "
                      "never fires", key="unreadable")
            rep.check(empty is not True, f.loc(), "trigger", "a breakpoint without a trigger never "
                      "fires", key="empty")
        if r is True and empty is not True and not failed and reads:
            pass
    # the flag is decided inside the loop, before the new value is remembered: look at each write
    compare_writes(P, rep, f, vals)


class TriggerClient(Trace):
    """What is known about the symbol just compared when the result becomes true, and when an
    iteration ends without it."""

    def __init__(self, P, vals, flag):
        Trace.__init__(self, P, lambda q, n: "read" if q == D + "get_signal_value" else None,
                       lambda t: False, lambda name, *a: event_result(name, *a))
        self.vals = vals
        self.flag = flag
        self._assign = None
        self.sets = []
        self.remember = []

    def known(self, st):
        unseen = differs = None
        for t, b in st.facts.items():
            if t[0] == "found" and any(x == self.vals for x in subterms(t)):
                unseen = not b
            if t[0] == "eq" and any(x == self.vals for x in subterms(t)) and \
                    any(x[0] == "ev" and x[1] == "read" for x in subterms(t)):
                differs = not b
        return unseen, differs

    def on_assign(self, I, st, f, node, loc, val):
        if loc == ("v", self.flag) and val[0] == "c":
            self.sets.append((val, self.known(st), f.loc(node)))
        if loc[0] == "idx" and strip(loc[1]) == self.vals:
            flag = st.truth(I._rv(st, ("v", self.flag)))
            self.remember.append((flag, self.known(st), f.loc(node)))


def compare_writes(P, rep, f, vals):
    rets = [f.strip(n["c"][0]) for n in f.nodes if n and n["k"] == "ReturnStmt" and n.get("c")]
    flags = {f.nodes[i].get("d") for i in rets if f.nodes[i]["k"] == "DeclRefExpr"}
    flags.discard(None)
    if len(flags) != 1:
        return
    cl = TriggerClient(P, vals, next(iter(flags)))
    I = Interp(P, cl)
    I.run(f, State(env={"this": ("addr", ("obj", f.cls))}, auto=cl.empty_auto()))
    for val, (unseen, differs), where in cl.sets:
        if val == TRUE:
            rep.check(unseen is True or differs is True, where, "trigger",
                      "a trigger fires although its value has not changed", key="fires")
        elif val == FALSE:
            rep.bad(where, "trigger", "an unchanged symbol cancels the change of another one",
                    key="cancel") if unseen is not None or differs is not None else None
    for flag, (unseen, differs), where in cl.remember:
        if unseen is True or differs is True:
            rep.check(flag is True or flag is None, where, "trigger",
                      "a trigger does not fire although its value changed", key="missed")


# ---------------------------------------------------------------- values of an expression

def expression_values(P, rep):
    f = P.fn(D + "set_expr_values")
    rep.rule("values", "set_expr_values gives each symbol of the expression the value of its own "
             "signal ($time: the simulation time, $instance: the instance), and reports failure "
             "exactly if a signal cannot be read")
    names = {"time_var_name": None, "instance_var_name": None}

    def watch(q, n):
        return {D + "get_signal_value": "read", "hgdb::DebugExpression::set_value": "set",
                "hgdb::RTLSimulatorClient::get_simulation_time": "time"}.get(q)
    ns, ex, inst = (("v", p["d"]) for p in f.params)
    outs = run(P, f, watch, value=event_result, follow=lambda t: t.q.startswith(D))
    seen = set()
    for s, v, evs in outs:
        rep.count("value paths")
        r = s.truth(v)
        fails = truth_of(s, "read") is False
        if r is True:
            rep.check(not fails, f.loc(), "values", "an expression is evaluated although one of its "
                      "signals could not be read", key="unread")
        elif r is False:
            rep.check(fails, f.loc(), "values", "an expression whose signals have been read is not "
                      "evaluated", key="refused")
        for i, e in enumerate(evs):
            if e[0] == "read":
                rep.check(e[2][0] == ns, e[3], "values", "a signal is read in another namespace "
                          "than the breakpoint's", key="read-ns")
                h = lookup_elem(e[2][1])
                rep.check(h is not None and h[0] == 1, e[3], "values",
                          "what is read is not the symbol's own signal (%s)" % show(e[2][1])[:50],
                          key="read-handle")
            if e[0] != "set":
                continue
            rep.check(strip(e[1]) == strip(ex) or strip(e[1]) == ex, e[3], "values",
                      "a value is stored in another expression", key="set-expr")
            k = lookup_elem(e[2][0])
            rep.check(k is not None and k[0] == 0, e[3], "values",
                      "a value is stored under another name", key="set-name")
            val = e[2][1]
            if any(x == inst for x in subterms(val)):
                kind = "instance"
            elif any(x[0] == "ev" and x[1] == "time" for x in subterms(val)):
                kind = "time"
            elif any(x[0] == "ev" and x[1] == "read" for x in subterms(val)):
                kind = "read"
            else:
                rep.bad(e[3], "values", "a symbol gets %s as its value" % show(val)[:50],
                        key="set-value")
                continue
            seen.add(kind)
    for k, what in (("instance", "$instance"), ("time", "$time"), ("read", "a signal")):
        rep.check(k in seen, f.loc(), "values", "%s never gets its value" % what, key="kind|" + k)
    # no signal is left out
    for s, v, evs in outs:
        if s.truth(v) is True:
            for l, names, how in s.auto[2]:
                rep.check(how == "next" and "set" in names, f.loc(), "values",
                          "a symbol of the expression keeps its old value", key="every")


def lookup_elem(t):
    """(0 for the key / 1 for the value, container) of an element of a map being walked"""
    t = strip(t)
    if t[0] == "f" and isinstance(t[2], str):
        n = t[2]
        b = strip(t[1])
        if n in ("#0",) or n.endswith("::first"):
            return 0, b
        if n in ("#1",) or n.endswith("::second"):
            return 1, b
    if t[0] == "p" and t[1] == "get" and len(t) > 2:
        return None
    return None


# ---------------------------------------------------------------- a batch

W_LOOP = {S + "next_breakpoints": "next", D + "eval_breakpoints": "evaluate",
          D + "send_breakpoint_hit": "hit", D + "send_monitor_values": "monitor",
          "hgdb::RuntimeLock::wait": "wait", "hgdb::RTLSimulatorClient::get_simulation_time": "time",
          S + "start_breakpoint_evaluation": "start"}
APPEND = ("emplace_back", "push_back")


class EvalClient(Trace):
    """The loop that schedules, evaluates and reports breakpoints."""
    max_disjuncts = 60

    def __init__(self, P, rep):
        Trace.__init__(self, P, self.name_of, self.into, self.result)
        self._assign = None
        self.rep = rep
        self.pushes = 0
        self.hits = 0
        self.size = {}

    def ev(self, st, e):
        # only what happened in the current iterations matters
        evs, loops, iters = st.auto
        if e[0] in ("next", "start"):
            evs = tuple(sorted(set(evs) | {(e[0], None, (), "")}))
        if loops:
            loops = tuple((l, s | {e[0]}) for l, s in loops)
        st.auto = (evs, loops, frozenset())

    def into(self, t):
        if t.is_lambda:
            return True
        if not t.q.startswith((D, "hgdb::perf")) or t.q in W_LOOP or len(t.nodes) > 200:
            return False
        if t.key not in self.size:
            # helpers taken out of the loop
            self.size[t.key] = any(
                W_LOOP.get(self.P.funcs[k].q) in ("next", "evaluate", "hit", "wait")
                for k in self.P.reachable([t])) \
                if t.q.startswith(D) else False
        return self.size[t.key]

    def name_of(self, q, n):
        if q.split("::")[-1] in APPEND and q.startswith("std::"):
            return "push"
        if q.split("::")[-1] in ("operator[]", "at") and q.startswith("std::"):
            return None
        return W_LOOP.get(q)

    def result(self, name, I, st, f, node, n, obj, args):
        if name in ("next", "evaluate"):
            return event_result(name, I, st, f, node, n, obj, args)
        return None

    def on_call(self, I, st, f, node, n, obj, args):
        rep = self.rep
        q = n.get("q", "")
        name = self.name_of(q, n)
        cur = frozenset().union(*[s for l, s in st.auto[1]]) if st.auto[1] else frozenset()
        if q.split("::")[-1] in ("operator[]", "at") and q.startswith("std::"):
            c = obj if obj is not None else (args[0] if args else None)
            k = args[-1] if args else None
            if c is not None and k is not None and self.is_hits(I, st, c):
                self.ev(st, ("look", I._rv(st, k), (), f.loc(node)))
                evs, loops, iters = st.auto
                st.auto = (evs, tuple((l, s | {("look", I._rv(st, k))}) for l, s in loops), iters)
        elif name == "push":
            v = strip(I._rv(st, args[0])) if args else None
            if v is not None and v[0] == "idx" and any(
                    x[0] == "ev" and x[1] == "next" for x in subterms(v)):
                self.pushes += 1
                known = [b for t, b in st.facts.items() if t[0] == "idx" and t[2] == v[2] and
                         any(x[0] == "ev" and x[1] == "evaluate" for x in subterms(t))]
                rep.check(True in known, f.loc(node), "report", "a breakpoint is reported although "
                          "its own condition may not hold", key="report-other")
        elif name == "evaluate":
            a = I._rv(st, args[0])
            rep.check(strip(a)[0] == "ev" and strip(a)[1] == "next", f.loc(node), "batch",
                      "what is evaluated is not what the scheduler returned", key="evaluate-arg")
        elif name == "hit":
            self.hits += 1
            a = I._rv(st, args[0])
            rep.check(st.truth(("p", "empty", a)) is False, f.loc(node), "report",
                      "a breakpoint hit may be sent although nothing was hit", key="empty-hit")
        elif name == "wait" and "hit" in cur:
            self.ev(st, ("paused", None, (), f.loc(node)))
        return Trace.on_call(self, I, st, f, node, n, obj, args)

    @staticmethod
    def is_hits(I, st, c):
        return any(x[0] == "ev" and x[1] == "evaluate" for x in subterms(I._rv(st, c)))

    def on_edge(self, I, st, f, b, succ):
        for head, body in f.loops().items():
            lid = (f.key, head)
            cur = dict(st.auto[1])
            if lid in cur and b in body and (succ == head or succ not in body):
                names = cur[lid]
                looks = [x[1] for x in names if isinstance(x, tuple) and x[0] == "look"]
                if len(looks) == 1 and "evaluate" not in names and "push" not in names:
                    for t, v in st.facts.items():
                        if t[0] == "idx" and t[2] == looks[0] and v and any(
                                x[0] == "ev" and x[1] == "evaluate" for x in subterms(t)):
                            self.rep.bad(f.loc(), "report", "a breakpoint whose condition holds is "
                                         "not reported", key="report-miss")
                if "next" in names:
                    self.outer(I, st, f, names, succ != head)
        Trace.on_edge(self, I, st, f, b, succ)
        evs, loops, iters = st.auto
        st.auto = (evs, loops, frozenset())

    def outer(self, I, st, f, names, left):
        rep = self.rep
        rep.count("evaluation rounds")
        none = any(t[0] == "p" and t[1] == "empty" and strip(t[2])[0] == "ev" and
                   strip(t[2])[1] == "next" and b for t, b in st.facts.items())
        if left:
            rep.check(none, f.loc(), "batch", "the evaluation of a clock cycle ends although there "
                      "may be breakpoints left", key="early-end")
        else:
            rep.check("evaluate" in names or none, f.loc(), "batch", "breakpoints are scheduled "
                      "without being evaluated", key="not-evaluated")
        rep.check(("hit" in names) == ("paused" in names) or not self.waits(names, "hit"), f.loc(),
                  "pause", "the simulation goes on after a breakpoint hit has been sent",
                  key="no-pause")
        if "wait" in names:
            rep.check("hit" in names, f.loc(), "pause", "the simulation pauses although no "
                      "breakpoint was hit", key="silent-pause")
        if "evaluate" in names and "hit" not in names:
            # nothing was pushed
            e = [b for t, b in st.facts.items() if t[0] == "p" and t[1] == "empty" and
                 t[2][0] == "v"]
            rep.check("push" not in names, f.loc(), "report",
                      "breakpoints have been hit and nothing is sent", key="unsent")
            rep.check(False not in e, f.loc(), "report",
                      "breakpoints have been hit and nothing is sent", key="unsent")

    @staticmethod
    def waits(names, what):
        return what in names or "paused" in names


def batch(P, rep):
    f = P.fn(D + "eval")
    rep.rule("batch", "each clock cycle, batches are taken from the scheduler and all of them "
             "evaluated until the scheduler has none left")
    rep.rule("report", "what is sent as hit are exactly the breakpoints of the batch that hold")
    rep.rule("pause", "the simulation pauses after a hit has been sent, and only then")
    cl = EvalClient(P, rep)
    I = Interp(P, cl)
    outs = I.run(f, State(env={"this": ("addr", ("obj", f.cls))}, auto=cl.empty_auto()))
    rep.check(cl.hits > 0, f.loc(), "report", "no breakpoint hit is ever sent", key="never-sent")
    sched = [fd["q"] for fd in P.record("hgdb::Debugger")["fields"] if "hgdb::Scheduler>" in fd["t"]]
    for s, v in outs:
        names = [e[0] for e in s.auto[0]]
        none = any(s.truth(("f", ("obj", f.cls), q)) is False for q in sched)
        rep.check(none or "next" in names, f.loc(), "batch", "a clock cycle is not evaluated",
                  key="no-round")
        rep.count("evaluation outcomes")


# ---------------------------------------------------------------- sharing a batch among threads

def sharing(P, rep):
    f = P.fn(D + "eval_breakpoints")
    ranged = [g for g in P.fns(D + "eval_breakpoint") if len(g.params) == 4]
    rep.rule("every", "every breakpoint of the batch is evaluated, and its result stored at its own "
             "place, however the batch is split among threads")
    if len(ranged) != 1:
        return
    g = ranged[0]
    # the range version
    start, end = ("v", g.params[2]["d"]), ("v", g.params[3]["d"])
    def stored(I, st, f, node, loc, val):
        if loc[0] == "idx" and val[0] == "c":
            known = [b for t, b in st.facts.items() if t[0] == "ev" and t[1] == "one"]
            rep.check(known == [val != FALSE], f.loc(node), "every",
                      "what is stored is not the result of the evaluation", key="store-what")
    outs = run(P, g, lambda q, n: "one" if q == D + "eval_breakpoint" else
               "store" if q == "operator[]=" else None, value=lambda nm, *a: event_result(nm, *a)
               if nm == "one" else None, follow=lambda t: False, assign=stored)
    n = 0
    for s, v, evs in outs:
        for e in evs:
            if e[0] == "one":
                a = strip(e[2][0])
                n += 1
                rep.check(a[0] == "idx" and strip(a[1]) == ("v", g.params[0]["d"]), e[3], "every",
                          "what is evaluated is not a breakpoint of the batch", key="range-bp")
            if e[0] == "store":
                ones = [strip(x[2][0]) for x in evs if x[0] == "one"]
                rep.check(any(x[0] == "idx" and x[2] == e[2][0] for x in ones), e[3], "every",
                          "a result is stored at the place of another breakpoint", key="store-at")
                val = e[2][1]
                rep.check(any(x[0] == "ev" and x[1] == "one" for x in subterms(val)) or
                          val[0] == "c", e[3], "every", "what is stored is not the result of the evaluation",
                          key="store-what")
        for l, names, how in s.auto[2]:
            rep.check(how == "left" or ("one" in names) and ("store" in names), g.loc(), "every",
                      "a breakpoint of the batch is skipped", key="range-skip")
            rep.check(how != "left" or not names, g.loc(), "every", "the rest of the batch is left "
                      "out", key="range-left")
    rep.check(n > 0, g.loc(), "every", "breakpoints are not evaluated", key="range-none")
    A = Arith(P, g)
    fors = [i for i, x in enumerate(g.nodes) if x and x["k"] == "ForStmt"]
    if len(fors) == 1:
        for a, b in ((0, 0), (0, 1), (0, 7), (3, 8), (5, 5)):
            env = {g.params[2]["d"]: a, g.params[3]["d"]: b}
            try:
                d, vis = A.visited(g, fors[0], env, 8)
            except Unknown:
                break
            rep.check(sorted(vis) == list(range(a, b)), g.loc(fors[0]), "every",
                      "of the range [%d, %d) the places %s are evaluated" % (a, b, vis),
                      key="range-loop")
    # the callers' ranges
    A = Arith(P, f)
    sites = []
    for h in [f] + lambdas_in(P, f):
        for i, x in enumerate(h.nodes):
            if x and x.get("fn") == g.key and x["k"] == "CXXMemberCallExpr":
                sites.append((h, i, x["args"][2], x["args"][3]))
    rep.check(bool(sites), f.loc(), "every", "breakpoints are not evaluated", key="no-range")
    pf = parents(f)
    groups = {}
    for h, i, a, b in sites:
        top = i
        if h is not f:
            top = next((k for k, x in enumerate(f.nodes) if x and x["k"] == "LambdaExpr" and
                        h in P.lambda_bodies(x["lam"])), None)
            if top is None:
                return
            # it runs on another thread: what it captured by reference must outlive the iteration
            inner = loop_vars(f, pf, top)
            for c in f.nodes[top].get("caps", []):
                if c.get("ref"):
                    rep.check(c.get("d") not in inner, f.loc(top), "every", "a thread reads the "
                              "range of the next one: %s is captured by reference" % c.get("n"),
                              key="capture-ref")
        branch, loops, j = [], [], top
        while j in pf:
            up = pf[j]
            x = f.nodes[up]
            if x["k"] == "IfStmt":
                branch.append((up, "then" if x.get("then") == j else "else"))
            if x["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                loops.append(up)
            j = up
        groups.setdefault(tuple(branch), []).append((h, a, b, loops))
    for branch, calls in groups.items():
        for size in list(range(40, 90)):
            got = []
            try:
                for h, a, b, loops in calls:
                    envs = [{}]
                    for l in reversed(loops):
                        nxt = []
                        for e in envs:
                            d, vis = A.visited(f, l, e, size)
                            nxt += [dict(e, **{d: v}) if isinstance(d, str) else {**e, d: v}
                                    for v in vis]
                        envs = nxt
                    for e in envs:
                        got += list(range(A.eval(h, a, e, size), A.eval(h, b, e, size)))
            except Unknown:
                break
            rep.count("batch sizes")
            if sorted(got) != list(range(size)):
                rep.bad(f.loc(calls[0][3][0] if calls[0][3] else None), "every",
                        "of a batch of %d breakpoints %s" % (size, "some are evaluated twice" if
                                                             len(got) != len(set(got)) else
                                                             "some are left out"), key="partition")
                break
            rep.ok()
    # threads are waited for
    if any(x and x.get("q", "").startswith("std::thread::thread") for x in f.nodes):
        rep.check(any(x and x.get("q", "").endswith("thread::join") for h in
                      [f] + lambdas_in(P, f) for x in h.nodes), f.loc(), "every",
                  "the results are used before the threads are done", key="join")


def loop_vars(f, pf, i):
    """variables that live in one iteration of the loop around node i"""
    res = set()
    j = i
    while j in pf:
        j = pf[j]
        if f.nodes[j]["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            for x in f.subtree(j):
                n = f.nodes[x]
                if n and n["k"] == "DeclStmt":
                    res |= {v["d"] for v in n.get("vars", [])}
            break
    return res


# ---------------------------------------------------------------- conditions

STRING = ("std::string", "std::basic_string")


class Texts:
    """Strings put together from others: fmt::format, +, += and conditional expressions."""

    def __init__(self, P, f, roots, extra=None, more=None):
        self.P = P
        self.f = f
        self.roots = roots        # name -> predicate on terms
        self.extra = extra or (lambda q, n: None)
        self.more = more or (lambda *a: None)

    def watch(self, q, n):
        if q == "fmt::format" or q.endswith("fmt::v8::format"):
            return "format"
        if q.split("::")[-1] == "operator+" and any(s in n.get("t", "") for s in STRING):
            return "concat"
        if q.split("::")[-1] in ("operator+=", "append") and q.startswith("std::") and \
                any(s in n.get("t", "") for s in STRING):
            return "append"
        return self.extra(q, n)

    def value(self, name, I, st, f, node, n, obj, args):
        if name == "format":
            lit = literal(f, n["args"][0])
            if lit is None:
                return None
            return [(st, ("q", "format", ("str", lit)) + tuple(
                self.resolve(st, I._rv(st, a)) for a in args[1:]))]
        if name == "concat":
            return [(st, ("q", "concat") + tuple(self.resolve(st, I._rv(st, a)) for a in args))]
        if name == "append":
            loc = obj if obj is not None else args[0]
            if obj is not None and not args or loc[0] != "v":
                return None
            v = ("q", "concat", self.resolve(st, I._rv(st, loc)),
                 self.resolve(st, I._rv(st, args[-1])))
            st.kill_loc(loc)
            I.C.ev(st, ("let", loc, (v,), f.loc(node)))
            return [(st, loc)]
        return self.more(name, I, st, f, node, n, obj, args)

    def assign(self, I, st, f, node, loc, val):
        if loc[0] == "v" and val[0] in ("str", "f", "q", "v", "tuple"):
            I.C.ev(st, ("let", loc, (self.resolve(st, val),), f.loc(node)))

    def resolve(self, st, t, depth=0):
        t = strip(t)
        if t[0] == "v" and depth < 8:
            for e in reversed(st.auto[0]):
                if e[0] == "let" and e[1] == t:
                    return e[2][0]
        return t

    def root(self, t):
        for name, pred in self.roots.items():
            if pred(t):
                return name
        return None

    def text(self, t):
        """the text, with the roots' names in place of their contents; None if unknown"""
        t = strip(t)
        r = self.root(t)
        if r:
            return r
        if t[0] == "str":
            return t[1]
        if t[0] == "q" and t[1] == "format":
            args = [self.text(a) for a in t[3:]]
            if None in args:
                return None
            out, i, auto = "", 0, 0
            for m in re.finditer(r"{(\d*)}", t[2][1]):
                out += t[2][1][i:m.start()]
                k = int(m.group(1)) if m.group(1) else auto
                auto += 1
                if k >= len(args):
                    return None
                out += args[k]
                i = m.end()
            return out + t[2][1][i:]
        if t[0] == "q" and t[1] == "concat":
            args = [self.text(a) for a in t[2:]]
            return None if None in args else "".join(args)
        if t[0] == "q" and t[1] == "expr":
            return self.text(t[2])
        return None


def same_condition(text, parts):
    """does the condition hold exactly if all parts do, whatever operators are in the parts?"""
    if text in parts and len(parts) == 1:
        return True
    if text == "":
        return False
    names = ("PARTA", "PARTB")
    py = text
    for nm in names:
        py = py.replace(nm, "%s0||%s1" % (nm, nm))
    if re.search(r"[^\w\s()|&!]", py):
        return None
    py = py.replace("&&", " and ").replace("||", " or ").replace("!", " not ")
    try:
        code = compile(py.strip(), "condition", "eval")
    except SyntaxError:
        return False
    for bits in range(16):
        env = {"%s%d" % (nm, j): bool(bits >> (2 * k + j) & 1)
               for k, nm in enumerate(names) for j in (0, 1)}
        want = all(env[nm + "0"] or env[nm + "1"] for nm in names if nm in parts)
        try:
            got = bool(eval(code, {"__builtins__": {}}, env))
        except Exception:
            return None
        if got != want:
            return False
    return True


def condition_of(base):
    return lambda t: t[0] == "f" and len(t) == 3 and t[2] == "hgdb::BreakPoint::condition" and \
        base in subterms(t)


def small_helper(P, cls):
    def follow(t):
        return t.is_lambda or (t.cls == cls or t.cls is None or t.cls == "") and \
            t.q.startswith("hgdb::") and len(t.nodes) < 90 and \
            any(s in (t.rt or "") for s in STRING) and not t.q.startswith("hgdb::log")
    return follow


def conditions(P, rep):
    f = one(P, S + "add_breakpoint", lambda f: len(f.params) > 4)
    rep.rule("condition", "an inserted breakpoint is evaluated with both its own condition in the "
             "symbol table and the one given by the user, whatever operators they contain")
    info, db = (("v", p["d"]) for p in f.params[:2])
    roots = {"PARTA": condition_of(info), "PARTB": condition_of(db)}
    FIELDS = {BP + "id": "id", BP + "instance_id": "instance_id", BP + "filename": "filename",
              BP + "line_num": "line_num", BP + "column_num": "column_num"}

    def extra(q, n):
        if q in ("std::make_unique", "hgdb::DebugExpression::DebugExpression"):
            return "mk"
        if q == "hgdb::util::validate_expr":
            return "validate"
        if q == "hgdb::DebugExpression::correct":
            return "correct"
        if q.split("::")[-1] in APPEND and q.startswith("std::"):
            return "push"
        return None

    def more(name, I, st, f, node, n, obj, args):
        if name == "mk" and "DebugExpression" in n.get("t", "") and "unique_ptr" in n.get("t", ""):
            return [(st, ("q", "expr", tx.resolve(st, I._rv(st, args[0]))))]
        if name == "correct":
            return event_result(name, I, st, f, node, n, obj, args)
        return None
    tx = Texts(P, f, roots, extra, more)

    def assign(I, st, f, node, loc, val):
        tx.assign(I, st, f, node, loc, val)
        if loc[0] == "f" and loc[2] in (BP + "expr", BP + "enable_expr"):
            I.C.ev(st, ("set", loc, (tx.resolve(st, I._rv(st, val)),), f.loc(node)))
        elif loc[0] == "f" and loc[2] in FIELDS:
            I.C.ev(st, ("field", loc, (strip(I._rv(st, val)),), f.loc(node)))
    outs = run(P, f, tx.watch, follow=small_helper(P, f.cls), value=tx.value, assign=assign,
               frozen=[info, db])
    forms = set()
    for s, v, evs in outs:
        rep.count("insertion paths")
        empty = {"PARTA": None, "PARTB": None}
        for t, b in s.facts.items():
            if t[0] == "p" and t[1] == "empty" and len(t) == 3:
                for nm, pred in roots.items():
                    if pred(t[2]):
                        empty[nm] = b
        for e in evs:
            if e[0] == "field":
                w = e[2][0]
                rep.check(db in subterms(w) and w[0] == "f" and
                          w[2] == "hgdb::BreakPoint::" + FIELDS[e[1][2]], e[3], "condition",
                          "a breakpoint is inserted with another %s than the symbol table's" %
                          FIELDS[e[1][2]], key="field|" + FIELDS[e[1][2]])
            if e[0] == "set":
                text = tx.text(e[2][0])
                kind = "enable" if e[1][2].endswith("enable_expr") else "full"
                if text is None:
                    rep.count("conditions not recognised")
                    continue
                names = ("PARTB",) if kind == "enable" else ("PARTA", "PARTB")
                if any(empty[nm] is None and nm in text for nm in names):
                    # a part that may be empty
                    ok = same_condition(text, [nm for nm in names])
                    parts = [nm for nm in names]
                    rep.check(False, e[3], "condition", "a condition that may be empty is made "
                              "part of another one", key="maybe-empty|" + kind)
                    continue
                parts = [nm for nm in names if empty[nm] is False]
                t2 = text
                if not parts and text.strip() == "1":
                    rep.ok()
                    forms.add(kind)
                    continue
                ok = same_condition(re.sub(r"\b1\b", "True", t2), parts)
                if ok is None:
                    rep.count("conditions not recognised")
                    continue
                forms.add(kind)
                desc = text.replace("PARTA", "<user>").replace("PARTB", "<table>")
                rep.check(ok, e[3], "condition", "a breakpoint with %s condition is evaluated "
                          "with '%s'" % (" and ".join({"PARTA": "a user", "PARTB": "a symbol table"}[
                              p] for p in parts) or "no", desc), key="cond|%s|%s" % (
                                  kind, "+".join(parts)))
        # nothing is inserted before its expressions have been found valid
        names = [e[0] for e in evs]
    for k in ("full", "enable"):
        rep.check(k in forms or any(tx.text(e[2][0]) is None for s, v, evs in outs for e in evs
                                    if e[0] == "set"), f.loc(), "condition",
                  "no %s condition is ever given to a breakpoint" % k, key="forms|" + k)


def run_c15(P, rep, tier):
    batch(P, rep)
    sharing(P, rep)
    single_breakpoint(P, rep)
    trigger(P, rep)
    expression_values(P, rep)
    conditions(P, rep)
