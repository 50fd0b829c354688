"""C17: breakpoints are visited in the execution order the symbol table gives."""
from c01 import show
from engine import FALSE, NULL, TRUE, is_const, subterms
from evals import APPEND, D, S, enum_terms, event_result
from extract import AnalysisBroken
from paths import lookup, run, strip

B = "hgdb::DebugBreakPoint::"
TBL = "hgdb::SymbolTableProvider::"


CUR = ("q", "current0")     # the current breakpoint id at the start


class Names:
    def __init__(self, P):
        fs = P.record("hgdb::Scheduler")["fields"]

        def one(what, pred):
            r = [x["q"] for x in fs if pred(x)]
            if len(r) != 1:
                raise AnalysisBroken("the scheduler's %s cannot be identified: %s" % (what, r))
            return r[0]
        self.mode = one("mode", lambda x: x["t"].endswith("EvaluationMode"))
        self.list = one("breakpoint list", lambda x: x["t"].startswith("std::vector") and
                        "DebugBreakPoint" in x["t"] and "unique_ptr" in x["t"])
        self.order = one("execution order", lambda x: x["t"].startswith("std::vector<unsigned int>") or
                         x["t"].startswith("std::vector<unsigned int,"))
        self.table = one("order table", lambda x: "map<unsigned int, unsigned" in x["t"])
        self.ids = one("inserted ids", lambda x: "set<unsigned" in x["t"])
        self.current = one("current id", lambda x: x["t"].startswith("std::optional<"))
        self.this = ("obj", "hgdb::Scheduler")

    def f(self, q):
        return ("f", self.this, q)


def size_of(c):
    return ("p", "size", c)


def minus1(t):
    return ("bin", "-", t, ("c", 1))


def modelled(q, n):
    if q in ("std::find", "std::distance", "std::next", "std::prev", "std::find_if"):
        return q.split("::")[-1]
    if q == "hgdb::DebugExpression::expression":
        return "text"
    if q == B + "has_type_flag":
        return "flag"
    return None


def model(name, I, st, f, node, n, obj, args):
    a = [I._rv(st, x) for x in args]
    if name == "find" and len(a) == 3 and a[0][0] == "it":
        return [(st, ("p", "find", a[0][1], a[2]))]
    if name == "distance":
        return [(st, ("q", "dist", a[1]))]
    if name in ("next", "prev"):
        return [(st, ("q", name, a[0]))]
    if name in ("text", "flag"):
        return [(st, ("q", name, strip(I._rv(st, obj))) + tuple(a))]
    return None


MODELLED = ("find", "distance", "next", "prev", "text", "flag")


def position(N, st, t, off=0):
    """(x, offset) if t is the place of the id x in the execution order, plus offset"""
    if t[0] == "bin" and t[1] in "+-" and t[3][0] == "c":
        return position(N, st, t[2], off + (t[3][1] if t[1] == "+" else -t[3][1]))
    if t[0] == "q" and t[1] == "dist":
        x = t[2]
        if x[0] == "p" and x[1] == "find" and x[2] == N.f(N.order):
            return x[3], off
    if t[0] == "bin" and t[1] == "-" and t[2][0] == "p" and t[2][1] == "find" and \
            t[2][2] == N.f(N.order):
        return t[2][3], off
    lk = lookup(t)
    if lk and lk[0] == N.f(N.table):
        return lk[1], off
    for x, b in st.facts.items():
        if b and x[0] == "eq":
            for u, w in ((x[1], x[2]), (x[2], x[1])):
                if strip(u) == ("idx", N.f(N.order), t):
                    return w, off
    return None


def element(N, st, t):
    """('first',) ('last',) or ('at', x, offset): which id of the execution order"""
    t = strip(t)
    o = N.f(N.order)
    if t == ("p", "front", o) or t in (("idx", o, ("c", 0)), ("p", "at", o, ("c", 0))):
        return ("first",)
    if t == ("p", "back", o) or t in (("idx", o, minus1(size_of(o))),):
        return ("last",)
    if t[0] == "idx" and t[1] == o or t[0] == "p" and t[1] == "at" and len(t) > 3 and t[2] == o:
        i = t[2] if t[0] == "idx" else t[3]
        p = position(N, st, i)
        return ("at",) + p if p else ("?", t)
    if t[0] == "q" and t[1] in ("next", "prev"):
        x = t[2]
        if x[0] == "p" and x[1] == "find" and x[2] == o:
            return ("at", x[3], 1 if t[1] == "next" else -1)
    return ("?", t)


def linear(t):
    """(term, constant)"""
    k = 0
    while t[0] == "bin" and t[1] in "+-" and t[3][0] == "c" and not isinstance(t[3][1], bool):
        k += t[3][1] if t[1] == "+" else -t[3][1]
        t = t[2]
    return t, k


def against_end(x, b, size, off=None):
    """(index term, True) if the fact says that the index has a successor, (.., False) if it has
    none; None if the fact is about something else; (.., None) if it is neither"""
    if x[0] not in ("eq", "lt"):
        return None
    (l, k1), (r, k2) = linear(x[1]), linear(x[2])
    if r == size and l[0] == "c" and not isinstance(l[1], bool):
        l, k1 = ("c", 0), k1 + l[1]
    if l == size and r[0] == "c" and not isinstance(r[1], bool):
        r, k2 = ("c", 0), k2 + r[1]
    if l == size and r == size:
        return (l, False) if x[0] == "lt" and k1 == k2 and b is False or \
            x[0] == "eq" and k1 == k2 and b is True else None
    if r == size and l != size:
        d = k1 - k2 - (off or {}).get(l, 0)    # index + d < size  /  index + d == size
        if x[0] == "eq":
            return l, (not b) if d == 1 else None
        return l, b if d == 1 else None
    if l == size and r != size:
        d = k2 - k1 - (off or {}).get(r, 0)
        if x[0] == "eq":
            return r, (not b) if d == 1 else None
        return r, (not b) if d == 2 else None    # size < index + d
    return None


def possible(st):
    for x, b in st.facts.items():
        if x[0] in ("lt", "eq"):
            (l, k1), (r, k2) = linear(x[1]), linear(x[2])
            if l == r and l[0] != "c" and b != (k1 < k2 if x[0] == "lt" else k1 == k2):
                return False
    return True


def bounded(N, st):
    """what the path knows about where the order begins and ends"""
    o = N.f(N.order)
    res = set()
    for x, b in st.facts.items():
        e = against_end(x, b, size_of(o))
        if x == ("p", "empty", o) or x[0] == "eq" and size_of(o) in x[1:] and ("c", 0) in x[1:]:
            res.add("empty" if b else "not empty")
        elif x == size_of(o):
            res.add("not empty" if b else "empty")
        elif e is not None:
            if e[1] is False:
                res.add("walked to the end")
            if position(N, st, e[0]) is not None:
                res.add({True: "not end", False: "end", None: "other bound"}[e[1]])
        elif x[0] == "found" and any(y[0] == "q" and y[1] in ("next", "dist")
                                     for y in subterms(x)):
            res.add("not end" if b else "end")
        elif x[0] == "found" and b is False:
            res.add("unknown id")
        elif x[0] == "first" and x[1][0] == "p" and x[1][1] == "find":
            res.add("start" if b else "not start")
        elif x[0] in ("eq", "lt") and ("c", 0) in x[1:]:
            y = x[2] if x[1] == ("c", 0) else x[1]
            if position(N, st, y) == None:
                continue
            if x[0] == "eq":
                res.add("start" if b else "not start")
            elif x[1] == ("c", 0):
                res.add("not start" if b else "start")
        else:
            p = position(N, st, x)
            if p and p[1] == 0:
                res.add("not start" if b else "start")
    return res


class Sched:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.N = Names(P)
        self.modes = enum_terms(P, S + "EvaluationMode")
        self.f = P.fn(S + "next_breakpoints")

    WATCH = {"hgdb::RTLSimulatorClient::reverse_last_posedge": "reverse",
             TBL + "get_breakpoint": "db", S + "create_next_breakpoints": "create"}

    def watch(self, q, n):
        m = modelled(q, n)
        if m:
            return m
        if q.startswith("std::") and q.split("::")[-1] in APPEND + ("emplace",):
            return "push"
        if n["k"] == "CXXConstructExpr" and n.get("cls") == "std::vector" and n["args"]:
            return "push"
        return self.WATCH.get(q)

    def value(self, name, I, st, f, node, n, obj, args):
        if name in MODELLED:
            evs, loops, iters = st.auto
            st.auto = (evs[:-1], loops, iters)
            return model(name, I, st, f, node, n, obj, args)
        if name == "reverse":
            self.ev_with(st, I.C, tuple(sorted(bounded(self.N, st))))
            return event_result(name, I, st, f, node, n, obj, args)
        if name in ("db", "create"):
            return [(st, ("q", name) + tuple(I._rv(st, a) for a in args))]
        if name == "push":
            N = self.N
            a = [strip(I._rv(st, x)) for x in args]
            if a and a[0][0] in ("idx", "p", "deref", "f") and N.f(N.list) in set(subterms(a[0])):
                evs, loops, iters = st.auto
                e = evs[-1]
                e = ("take", e[1], (a[0],) + self.group_facts(st, a[0]), e[3],
                     tuple(sorted(map(str, self.ends(st)))))
                st.auto = (tuple(x for x in evs[:-1] if x != e) + (e,), loops, iters)
        return None

    def ev_with(self, st, cl, extra):
        evs, loops, iters = st.auto
        e = evs[-1]
        st.auto = (tuple(x for x in evs[:-1] if x[:4] != e) + (e + (extra,),), loops, iters)

    def group_facts(self, st, t):
        """what is known about the breakpoint t and the others it is compared with"""
        res = []
        for x, b in st.facts.items():
            if x[0] == "eq":
                for u in x[1:]:
                    y = u
                    if y[0] == "q" and y[1] == "text":
                        y = y[2]
                    if y[0] == "f" and strip(y[1]) == t:
                        w = x[2] if u == x[1] else x[1]
                        res.append((y[2].split("::")[-1], "text" if u[0] == "q" else "", b,
                                    self.sibling(w, y[2], t) or show(w)))
            if x[0] == "q" and x[1] == "flag":
                res.append(("flag" if x[2] == t else "other flag", "", b, show(x[3])))
            if x[0] == "eq":
                for u, w in ((x[1], x[2]), (x[2], x[1])):
                    if u[0] == "f" and u[2] == B + "type" and strip(u[1]) != t and w[0] == "e":
                        res.append(("other type", "", b, w[2]))
        return tuple(sorted(set(res)))

    def sibling(self, w, field, t):
        y = w
        if y[0] == "q" and y[1] == "text":
            y = y[2]
        if y[0] == "f" and y[2] == field and strip(y[1]) != t:
            return "other"
        return None

    def assign(self, I, st, f, node, loc, val):
        N = self.N
        val = I._rv(st, val)
        if loc[0] == "f":
            I.C.ev(st, ("set", loc, (val,), f.loc(node)))
        elif loc[0] == "v" and (st.auto[1] or not is_const(strip(val))):
            val = strip(val)
            el = ("idx", N.f(N.list), val)
            ev = cur = None
            for x, b in st.facts.items():
                if x[0] == "f" and x[2] == B + "evaluated" and strip(x[1]) == el:
                    ev = b
                if x[0] == "eq":
                    for u, w in ((x[1], x[2]), (x[2], x[1])):
                        if u[0] == "f" and u[2] == B + "id" and strip(u[1]) == el and \
                                strip(w) == CUR:
                            cur = b
            if ev is not None or cur is not None:
                prior = st.truth(loc)
                if prior is None:
                    prior = st.truth(I._rv(st, loc))
                I.C.ev(st, ("pos", val, (ev, cur, prior), f.loc(node)))

    def paths(self, mode, extra=None):
        facts = {("eq", self.N.f(self.N.mode), self.modes[mode]): True}
        facts.update(extra or {})
        outs = run(self.P, self.f, self.watch,
                   follow=lambda t: t.is_lambda or t.q.startswith(S) and t.q not in self.WATCH or
                   t.q.startswith("hgdb::") and t.cls is None and len(t.nodes) < 60,
                   value=self.value, assign=self.assign, facts=facts,
                   store={self.N.f(self.N.current): CUR}, key=self.ends,
                   leave=self.leave)
        return [o for o in outs if possible(o[0]) and not any(e[0] == "never" for e in o[2])]

    def leave(self, I, st, f, val):
        """locals are about to go: what they said about the end of the list is kept"""
        if not possible(st):
            I.C.ev(st, ("never", None, (), f.loc()))
        if not f.is_lambda and any(r is False for r in self.ends(st)) and \
                not any(e[0] in ("take", "over") for e in st.auto[0]):
            I.C.ev(st, ("over", None, (), f.loc()))

    def ends(self, st):
        """kept apart: whether the list goes on"""
        off = dict(linear(e[1]) for e in st.auto[0] if e[0] == "pos")
        return frozenset(r[1] for r in (against_end(x, b, size_of(self.N.f(self.N.list)), off)
                                        for x, b in st.facts.items()) if r)


def was_none(s):
    return s.truth(CUR) is False


def nothing(v, evs):
    return not (v[0] == "q" and v[1] == "create") and not any(e[0] == "take" for e in evs)


def stepping(C):
    P, rep, N = C.P, C.rep, C.N
    rep.rule("step", "step over goes to the statement that follows the current one in the execution "
             "order (to the first one at the start of a cycle) and ends the cycle after the last; "
             "step back goes to the one before, and from the first one to the previous cycle")
    cur = N.f(N.current)
    for mode, d in (("StepOver", 1), ("StepBack", -1)):
        got = set()
        for s, v, evs in C.paths(mode):
            rep.count("stepping paths")
            w = C.f.loc()
            none = was_none(s)
            rev = next((e for e in evs if e[0] == "reverse"), None)
            ok = None
            if rev is not None:
                r = [b for x, b in s.facts.items() if x[0] == "ev" and x[1] == "reverse"]
                ok = r[0] if r else None
                w = rev[3]
                rep.check(mode == "StepBack" and "start" in rev[4], w, "step",
                          "the time is reversed although the current statement is not the first "
                          "one", key=mode + "|reverse")
            db = [e for e in evs if e[0] == "db"]
            if v[0] == "q" and v[1] == "create" and db:
                w = db[-1][3]
                el = element(N, s, db[-1][2][0])
                if el[0] == "at":
                    got.add("at")
                    rep.check(strip(el[1]) == CUR, w, "step", "the next statement is not looked up "
                              "relative to the current one", key=mode + "|rel")
                    rep.check(el[2] == d, w, "step", "%s does not go to the %s statement" % (
                        mode, "following" if d > 0 else "preceding"), key=mode + "|offset")
                    need = "not end" if d > 0 else "not start"
                    rep.check(need in bounded(N, s), w, "step", "the step may leave the execution "
                              "order", key=mode + "|bound")
                elif el[0] == "first":
                    got.add("first")
                    rep.check(none if d > 0 else ok is False, w, "step", "the first statement is "
                              "returned although there is a current one" if d > 0 else
                              "the first statement is returned although there is one before",
                              key=mode + "|first")
                elif el[0] == "last":
                    got.add("last")
                    rep.check(d < 0 and ok is True, w, "step", "the last statement is returned "
                              "without going back in time", key=mode + "|last")
                else:
                    rep.count("steps not understood")
                rep.check(any(x[0] == "q" and x[1] == "db" and len(x) > 2 and
                              strip(x[-1]) == strip(db[-1][2][0]) for x in subterms(v)) or
                          not any(x[0] == "q" and x[1] == "db" for x in subterms(v)), w, "step",
                          "the breakpoint is not made from what the symbol table has for it",
                          key=mode + "|made")
                sets = [e for e in evs if e[0] == "set" and e[1] == cur]
                rep.check(sets and strip(sets[-1][2][0]) == strip(db[-1][2][0]), w, "step",
                          "the current statement is not remembered", key=mode + "|remember")
                continue
            rep.check(v[0] != "q" and not any(e[0] == "take" for e in evs), w, "step",
                      "%s does not go by the execution order" % mode, key=mode + "|other")
            b = bounded(N, s)
            if d > 0:
                rep.check("unknown id" in b or "empty" in b or not none and ("end" in b or
                          "walked to the end" in b), w, "step",
                          "the cycle ends although there is a statement left", key=mode + "|end")
            else:
                rep.check(none or "unknown id" in b or "empty" in b, w, "step", "stepping back ends "
                          "the cycle although there is a current statement", key=mode + "|end")
        for x in ("at", "first") if d > 0 else ("at", "last"):
            rep.check(x in got or rep.counts.get("steps not understood"), C.f.loc(), "step",
                      "%s never goes to the %s statement" % (
                          mode, "adjacent" if x == "at" else x), key=mode + "|never|" + x)


def index_of(C, t):
    if t[0] == "idx" and t[1] == C.N.f(C.N.list):
        return t[2]
    if t[0] == "p" and len(t) >= 3 and t[2] == C.N.f(C.N.list):
        return {"front": ("c", 0), "back": minus1(size_of(t[2]))}.get(t[1]) or (
            t[3] if t[1] == "at" else None)
    return None


def inserted(C):
    P, rep, N = C.P, C.rep, C.N
    rep.rule("continue", "continue visits the breakpoints after the last one evaluated in this "
             "cycle, from the first one on, until none is left; reverse-continue those before, from "
             "the last one on")
    rep.rule("group", "what stops together are consecutive breakpoints of the same source location "
             "and enable condition in different instances; data breakpoints stop alone")
    rep.rule("visited", "what is returned is marked as evaluated and becomes the current location")
    cur, lst = N.f(N.current), N.f(N.list)
    for mode in ("BreakPointOnly", "ReverseBreakpointOnly"):
        fwd = mode == "BreakPointOnly"
        iters_of, taken, priors, reset, reversed_ = {}, False, [], False, None
        ascending = False
        outs = C.paths(mode)
        for s, v, evs in outs:
            rep.count("scheduling paths")
            take = [e for e in evs if e[0] == "take"]
            rev = [e for e in evs if e[0] == "reverse"]
            ok = [b for x, b in s.facts.items() if x[0] == "ev" and x[1] == "reverse"]
            ok = ok[0] if ok else None
            none = was_none(s)
            for e in evs:
                if e[0] != "pos":
                    continue
                rep.count("positions searched for")
                ascending |= e[1] == ("c", 0)
                if e[1][0] != "c":
                    priors.append((e[2][2], ("c", 0) in [x[1] for x in evs if x[0] == "pos"] or
                                   None, e[3]))
                if fwd:
                    rep.check(e[2][0] is True, e[3], "continue", "the search for the last evaluated "
                              "breakpoint stops at one that has not been", key=mode + "|pos")
                    # the list is walked from the front
                    if e[1] == ("c", 0):
                        lids = [x for x in s.auto[2] if "pos" in x[1]]
                        if lids and all(x[2] == "left" for x in lids):
                            rep.bad(e[3], "continue", "breakpoints evaluated in this cycle may be "
                                    "visited again: the first evaluated one is taken for the last",
                                    key=mode + "|firstpos")
                else:
                    rep.check(e[2][1] is True, e[3], "continue", "the current breakpoint is not "
                              "found by its id", key=mode + "|pos")
            if take:
                taken = True
                i = index_of(C, take[0][2][0])
                w = take[0][3]
                kind = None
                if i == ("c", 0):
                    kind = "first"
                elif i == ("c", 1) and any(e[0] == "pos" and e[1] == ("c", 0) for e in evs):
                    kind = "after"
                elif i == minus1(size_of(lst)):
                    kind = "last"
                elif i is not None and i[0] == "bin" and i[3] == ("c", 1):
                    kind = "after" if i[1] == "+" else "before"
                elif i is not None:
                    kind = "same"
                if i is None:
                    rep.count("schedules not understood")
                elif fwd:
                    rep.check(kind in ("first", "after"), w, "continue", "the breakpoint after the "
                              "last evaluated one is not the one visited", key=mode + "|" + kind)
                    if kind == "after":
                        rep.check("True" in take[0][4], w, "continue",
                                  "the search may leave the list of breakpoints",
                                  key=mode + "|bound")
                else:
                    rep.check(kind in ("last", "before") or kind == "first" and ok is False, w,
                              "continue", "the breakpoint before the current one is not the one "
                              "visited", key=mode + "|" + kind)
                    if kind == "last":
                        rep.check(none or ok is True, w, "continue", "the last breakpoint is "
                                  "visited although the current one is not the first",
                                  key=mode + "|last")
                sets = [e for e in evs if e[0] == "set" and e[1] == cur]
                val = strip(sets[-1][2][0]) if sets else NULL
                base = None
                if val[0] == "f" and val[2] == B + "id":
                    base = strip(val[1])
                good = False
                if base is not None:
                    end = "front" if fwd else "back"
                    i2 = index_of(C, base)
                    good = base[0] == "p" and base[1] == end and base[2] != lst or \
                        base == take[0][2][0] or \
                        base[0] == "idx" and base[1] != lst and (
                            base[2] == ("c", 0) if fwd else base[2][0] == "bin") or \
                        i2 is not None and not fwd
                    if base == take[0][2][0] and not fwd and len(take) > 1:
                        good = False
                    if base[0] == "p" and base[1] == ("back" if fwd else "front"):
                        good = False
                rep.check(good, sets[-1][3] if sets else w, "visited", "the %s of the breakpoints "
                          "visited is not remembered as the current one" % (
                              "first" if fwd else "last"), key=mode + "|current")
                for e in take[1:]:
                    group(C, s, e, fwd)
                marks = [e for e in evs if e[0] == "set" and e[1][2] == B + "evaluated" and
                         e[2][0] == TRUE]
                for e in marks:
                    iters_of.setdefault(e[3], 0)
                if marks and len(take) > 1:
                    base = [strip(e[1][1]) for e in marks]
                    rep.check(all(t[2][0] in base for t in take) or any(
                        x[0] in ("it", "opaque", "call") or x[0] == "idx" and x[2][0] != "c"
                        for x in base) or any("set" in n and h == "next" and "push" not in n
                                              for l, n, h in s.auto[2]), marks[0][3], "visited", "not all breakpoints visited are "
                        "marked as evaluated", key=mode + "|some")
                if ok is True and rev:
                    reset |= any(e[0] == "set" and e[1][2] == B + "evaluated" and
                                 e[2][0] == FALSE for e in evs[evs.index(rev[0]):])
                    reversed_ = rev[0][3]
                # a gap in a group
                by = {}
                for lid, names, how in s.auto[2]:
                    by.setdefault(lid, []).append((names, how))
                for lid, xs in by.items():
                    if any("push" in n for n, h in xs) and any(
                            "push" not in n and h == "next" for n, h in xs):
                        rep.bad(w, "group", "breakpoints behind one that does not belong to the "
                                "group are still taken along, and those in between are never "
                                "visited", key=mode + "|gap")
                single(C, s, take, w, mode)
                continue
            # nothing
            e_ = [b for x, b in s.facts.items() if x == ("p", "empty", lst) or
                  x == ("eq", size_of(lst), ("c", 0)) or x == ("eq", ("c", 0), size_of(lst))]
            if True in e_ or any(x[0] == "lt" and x[2] == size_of(lst) and b is False and
                                 linear(x[1])[0] == size_of(lst) and linear(x[1])[1] < 0
                                 for x, b in s.facts.items()):
                continue        # there is none, or the path cannot be taken
            if fwd:
                rep.check(any(e[0] == "over" for e in evs) or
                          any(x[0] == "found" for x in s.facts), C.f.loc(),
                          "continue", "no breakpoint is visited although there are some left",
                          key=mode + "|end")
            else:
                rep.check(not none and not (ok is True), C.f.loc(), "continue", "no breakpoint is "
                          "visited although there are some left", key=mode + "|end")
            if rev and fwd:
                rep.bad(rev[0][3], "continue", "continuing reverses the time", key="fwd-reverse")
        rep.check(taken or rep.counts.get("schedules not understood"), C.f.loc(), "continue",
                  "%s never visits a breakpoint" % mode, key=mode + "|never")
        # marks: made in a loop over what is returned
        rep.check(iters_of, C.f.loc(), "visited", "breakpoints visited are not marked as evaluated",
                  key=mode + "|marked")
        walks = {l for s, v, evs in outs for l, names, how in s.auto[2] if "pos" in names}
        if fwd and ascending:
            for s, v, evs in outs:
                if any(l in walks and how == "left" for l, names, how in s.auto[2]):
                    w = next(e[3] for x in outs for e in x[2] if e[0] == "pos")
                    rep.bad(w, "continue", "the search for the last evaluated breakpoint of the "
                            "cycle stops before the end of the list: those behind are visited "
                            "again", key=mode + "|stops")
                    break
        if reversed_:
            rep.check(reset, reversed_, "visited", "the breakpoints of the previous cycle stay "
                      "marked as evaluated after going back to it", key=mode + "|reset")
        if fwd and priors and all(x[0] is False for x in priors) and \
                ascending:
            rep.bad(priors[0][2], "continue", "the first evaluated breakpoint of the cycle is taken "
                    "for the last: those behind it are visited again", key=mode + "|keepfirst")


def group(C, s, e, fwd):
    rep = C.rep
    facts = e[2][1:]
    w = e[3]
    for name in ("line_num", "filename", "column_num"):
        rep.check((name, "", True, "other") in facts, w, "group", "breakpoints with another %s are "
                  "taken along" % name, key="same|" + name)
    rep.check(("instance_id", "", False, "other") in facts, w, "group", "breakpoints of the same "
              "instance are taken along", key="instance")
    rep.check(any(x[0] == "enable_expr" and x[1] == "text" and x[2] is True for x in facts), w,
              "group", "breakpoints with another enable condition are taken along", key="enable")
    rep.check(any(x[0] == "type" and x[2] is False or x[0] == "type" and x[2] is True and
                  "normal" in x[3] or x[0] == "flag" and x[2] is False or
                  x[0] == "type" and x[2] is True and x[3].endswith("#1") for x in facts), w,
              "group", "data breakpoints are taken along", key="data")


    T = enum_terms(C.P, B + "Type")
    rep.check(any(x[0] == "other flag" and x[2] is False or x[0] == "other type" and
                  (x[2] is True and x[3] == T["normal"][2] or
                   x[2] is False and x[3] == T["data"][2]) for x in facts), w,
              "group", "breakpoints are taken along with a data breakpoint", key="data-ref")


def single(C, s, take, w, mode):
    """grouping is off if the user asked for one at a time"""
    opts = [fd["q"] for fd in C.P.record("hgdb::Scheduler")["fields"] if fd["t"].endswith("bool &")]
    q = [x for x in opts if "thread" in x]
    if len(q) == 1 and len(take) > 1:
        C.rep.check(s.truth(C.N.f(q[0])) is False, w, "group", "breakpoints are grouped although "
                    "the user asked to stop for one at a time", key=mode + "|single")


def others(C):
    rep = C.rep
    for s, v, evs in C.paths("None"):
        rep.check(nothing(v, evs), C.f.loc(), "continue", "breakpoints are visited although "
                  "evaluation is off", key="none")


ERASE = ("erase", "clear", "pop_back", "extract")


def bookkeeping(C):
    """breakpoint list and inserted ids stay in step; removal"""
    P, rep, N = C.P, C.rep, C.N
    rep.rule("remove", "removing takes away exactly the breakpoints with that id, and of those only "
             "what was asked for: the entry goes when nothing else needs it, and its id is forgotten "
             "only when no entry is left")
    rep.rule("insert", "a breakpoint that is put on the list is known by its id, and one that is not "
             "is not")
    lst, ids = N.f(N.list), N.f(N.ids)

    def watch(q, n):
        m = modelled(q, n)
        if m:
            return m
        last = q.split("::")[-1]
        if q.startswith("std::") and last in ERASE + APPEND + ("emplace", "insert"):
            return "tab:" + last
        return None

    def value(name, I, st, f, node, n, obj, args):
        if name in MODELLED:
            evs, loops, iters = st.auto
            st.auto = (evs[:-1], loops, iters)
            return model(name, I, st, f, node, n, obj, args)
        evs, loops, iters = st.auto
        e = evs[-1]
        o = strip(I._rv(st, obj)) if obj is not None else None
        if o not in (lst, ids):
            st.auto = (evs[:-1], loops, iters)
            return None
        e = ("list" if o == lst else "ids", e[0][4:], e[2], e[3], known(st))
        st.auto = (tuple(x for x in evs[:-1] if x != e) + (e,), loops, iters)
        return None

    def known(st):
        same, flags = None, None
        for x, b in st.facts.items():
            if x[0] == "eq":
                for u, w in ((x[1], x[2]), (x[2], x[1])):
                    if u[0] == "f" and u[2] == B + "id":
                        same = b if same is None else same
                    if w == ("c", 0) and u[0] == "bin" and u[1] == "&":
                        flags = b
            if x[0] == "bin" and x[1] == "&" and flags is None:
                flags = not b
        return same, flags

    def assign(I, st, f, node, loc, val):
        if loc[0] == "f" and loc[2] == B + "type":
            I.C.ev(st, ("type", loc, (I._rv(st, val),), f.loc(node), known(st)))
        if loc[0] == "v" and val in (TRUE, FALSE) and st.auto[1]:
            I.C.ev(st, ("flag", loc, (val,), f.loc(node), known(st)))
    rem = [f for f in P.fns(S + "remove_breakpoint") if len(f.params) == 2 and
           any(n and n.get("q") == N.list for n in f.nodes)]
    if not rem:
        raise AnalysisBroken("the function that removes a breakpoint cannot be found")
    erased = kept = False
    for f in rem:
        ps = [("v", p["d"]) for p in f.params]
        for s, v, evs in run(P, f, watch, follow=lambda t: t.is_lambda or t.q.startswith(S),
                             value=value, assign=assign):
            rep.count("removal paths")
            for e in evs:
                if e[0] == "list":
                    erased = True
                    rep.check(e[4][0] is True, e[3], "remove", "another breakpoint than the one "
                              "asked for is taken off the list", key="erase|id")
                    rep.check(e[4][1] is True, e[3], "remove", "a breakpoint is taken off the list "
                              "although it is still needed as one of another type",
                              key="erase|type")
                if e[0] == "type":
                    kept = True
                    rep.check(e[4][0] is True, e[3], "remove", "the type of another breakpoint than "
                              "the one asked for is changed", key="type|id")
                    t = e[2][0]
                    rep.check(t[0] == "bin" and t[1] == "&" and
                              any(y[0] in ("un", "not", "bin", "q", "opaque", "p") for y in t[2:]) and
                              any(x == ps[1] for x in subterms(t)), e[3], "remove",
                              "what remains of the type is not the old one without the one removed",
                              key="type|value")
                if e[0] == "ids":
                    a = [x for x in e[2] if x == ps[0]]
                    rep.check(a, e[3], "remove", "another id is forgotten", key="ids|id")
                    rep.check(not any(y[0] == "type" for y in evs), e[3], "remove",
                              "a breakpoint's id is forgotten although an entry with it is left",
                              key="ids|left")
            if any(e[0] == "list" for e in evs) and not any(e[0] == "type" for e in evs):
                rep.check(any(e[0] == "ids" for e in evs), f.loc(), "remove", "the id of a "
                          "breakpoint that has been taken off the list is not forgotten: it cannot "
                          "be set again", key="ids|kept")
    rep.check(erased and kept, rem[0].loc(), "remove", "removal does not distinguish breakpoints "
              "that are still needed", key="shape")
    f = P.fn(S + "clear")
    for s, v, evs in run(P, f, watch, follow=lambda t: t.is_lambda, value=value, assign=assign):
        rep.check({e[0] for e in evs if e[1] == "clear"} == {"list", "ids"}, f.loc(), "insert",
                  "clearing leaves the breakpoint list and the known ids out of step", key="clear")
    # insertion: a lambda or helper that puts an entry on the list
    n = 0
    for g in P.funcs.values():
        if not (g.q.startswith(S) or g.is_lambda and "Scheduler" in g.key):
            continue
        puts = [i for i, m in enumerate(g.nodes) if m and m["k"] == "CXXMemberCallExpr" and
                m.get("q", "").split("::")[-1] in APPEND + ("emplace", "insert") and
                any(g.nodes[x] and g.nodes[x].get("q") == N.list
                    for x in g.subtree(g.nodes[m["c"][0]]["c"][0] if g.nodes[m["c"][0]].get("c")
                                       else m["c"][0]))]
        if not puts:
            continue
        env = {"this": ("addr", N.this)}
        for s, v, evs in run(P, g, watch, follow=lambda t: t.is_lambda or t.cls == "hgdb::Scheduler"
                             and len(t.nodes) < 80, value=value, assign=assign, env=env,
                             this="hgdb::Scheduler"):
            ev = [e for e in evs if e[0] in ("list", "ids") and e[1] not in ERASE]
            if not ev:
                continue
            n += 1
            rep.check({e[0] for e in ev} == {"list", "ids"}, ev[0][3], "insert",
                      "a breakpoint is put on the list but not known by its id, or the other way "
                      "round", key="step")
    rep.check(n > 0, f.loc(), "insert", "no breakpoint is ever put on the list", key="never")


def cycle(C):
    P, rep, N = C.P, C.rep, C.N
    rep.rule("cycle", "a new cycle starts with no breakpoint evaluated and no current location; so "
             "does another evaluation mode, with no breakpoint evaluated; evaluated assertions are "
             "gone by then")
    lst, cur = N.f(N.list), N.f(N.current)

    def assign(I, st, f, node, loc, val):
        if loc[0] == "f" and (loc == cur or loc[2] in (B + "evaluated", N.mode)):
            I.C.ev(st, ("set", loc, (I._rv(st, val),), f.loc(node)))

    def watch(q, n):
        if q == S + "remove_assert_breakpoints":
            return "asserts"
        return modelled(q, n)
    f = P.fn(S + "start_breakpoint_evaluation")
    fol = lambda t: t.is_lambda or t.q.startswith("hgdb::") and len(t.nodes) < 60 and \
        t.q != S + "remove_assert_breakpoints"
    outs = run(P, f, watch, follow=fol, assign=assign)
    full = over_all(P, [f], N.list, B + "evaluated")
    for s, v, evs in outs:
        sets = [e for e in evs if e[0] == "set" and e[1] == cur]
        rep.check(sets and sets[-1][2][0] == NULL, f.loc(), "cycle", "the current location of the "
                  "last cycle is kept", key="current")
        i = [k for k, e in enumerate(evs) if e[0] == "asserts"]
        rep.check(i and not any(e[0] == "set" and e[1][2] == B + "evaluated"
                                for e in evs[:i[0]]), f.loc(), "cycle", "assertions that have fired "
                  "are kept for the next cycle", key="asserts")
        if any(e[0] == "set" and e[1][2] == B + "evaluated" for e in evs):
            rep.check(all(e[2][0] == FALSE for e in evs if e[0] == "set" and
                          e[1][2] == B + "evaluated"), f.loc(), "cycle", "breakpoints start the "
                      "cycle as evaluated", key="flag")
    rep.check(any(e[0] == "set" and e[1][2] == B + "evaluated" for s, v, evs in outs for e in evs),
              f.loc(), "cycle", "breakpoints evaluated in the last cycle are not looked at again",
              key="never")
    rep.check(full is not False, f.loc(), "cycle", "some breakpoints evaluated in the last cycle are "
              "not looked at again", key="some")
    f = P.fn(S + "set_evaluation_mode")
    m = ("v", f.params[0]["d"])
    seen = False
    for s, v, evs in run(P, f, watch, follow=fol, assign=assign,
                         store={N.f(N.mode): ("q", "mode0")}):
        sets = [e for e in evs if e[0] == "set" and e[1] == N.f(N.mode)]
        same = [b for x, b in s.facts.items() if x[0] == "eq" and ("q", "mode0") in x[1:] and
                m in x[1:]]
        rep.check(sets and sets[-1][2][0] == m or True in same, f.loc(), "cycle",
                  "the evaluation mode asked for is not set", key="mode")
        seen |= any(e[0] == "set" and e[1][2] == B + "evaluated" and e[2][0] == FALSE for e in evs)
    rep.check(seen, f.loc(), "cycle", "breakpoints stay evaluated when the evaluation mode changes",
              key="mode-flags")


def over_all(P, roots, lst, field):
    """False if the loop that writes the field skips elements"""
    for g in (P.funcs[k] for k in P.reachable(roots)):
        if not g.q.startswith("hgdb::") or len(g.nodes) > 80:
            continue
        for i, n in enumerate(g.nodes):
            if n and n["k"] == "CXXForRangeStmt" and any(
                    g.nodes[x] and g.nodes[x].get("q") == field for x in g.subtree(i)):
                if any(g.nodes[x] and g.nodes[x]["k"] in ("BreakStmt", "ReturnStmt", "ContinueStmt",
                                                          "IfStmt") for x in g.subtree(i)):
                    return False
                return True
    return None


def ordering(C):
    P, rep, N = C.P, C.rep, C.N
    rep.rule("order", "the list is kept in the execution order of the symbol table: each id's place "
             "is its position in that order, the list is sorted by it, and it is sorted after every "
             "insertion before the breakpoints are used")
    order, table = N.f(N.order), N.f(N.table)
    ctor = [f for f in P.fns(S + "Scheduler") if f.nodes]
    stored = False

    def watch(q, n):
        last = q.split("::")[-1]
        if q == TBL + "execution_bp_orders":
            return "orders"
        if q.startswith("std::") and last in ("emplace", "insert", "insert_or_assign",
                                              "try_emplace"):
            return "store"
        return "store" if q == "operator[]=" else modelled(q, n)

    def value(name, I, st, f, node, n, obj, args):
        if name == "orders":
            return [(st, ("q", "orders"))]
        if name in MODELLED:
            return model(name, I, st, f, node, n, obj, args)
        return None

    def assign(I, st, f, node, loc, val):
        if loc == order:
            I.C.ev(st, ("order", loc, (I._rv(st, val),), f.loc(node)))
    for f in ctor:
        if not any(n and n.get("q") == N.table for n in f.nodes):
            continue
        for s, v, evs in run(P, f, watch, follow=lambda t: t.is_lambda, value=value,
                             assign=assign, this="hgdb::Scheduler"):
            for e in evs:
                if e[0] == "store" and e[1] is not None and strip(e[1]) == table:
                    a = e[2]
                    if len(a) == 1 and a[0][0] == "tuple":
                        a = a[0][1:]
                    if len(a) < 2:
                        continue
                    stored = True
                    k = strip(a[0])
                    src = {order, ("q", "orders")}
                    i = k[2] if k[0] == "idx" and k[1] in src else None
                    if i is not None:
                        rep.check(strip(a[1]) == i, e[3], "order", "the place of an id is not its "
                                  "position in the execution order", key="table")
                    elif k[0] == "c" or a[1][0] == "idx" and a[1][1] in src:
                        rep.bad(e[3], "order", "the place of an id is not its position in the "
                                "execution order", key="table")
                    else:
                        rep.count("order table stores not understood")
        rep.check(stored, f.loc(), "order", "the execution order is not tabulated", key="never")
    # the comparison the list is sorted by
    f = P.fn(S + "reorder_breakpoints")
    lams = [g for g in P.funcs.values() if g.is_lambda and f.key.rstrip("#") in g.key and
            len(g.params) == 2]
    n = 0
    from indexes import lambdas_in
    for g in [h for h in lambdas_in(P, f) if len(h.params) == 2]:
        l, r = (("v", p["d"]) for p in g.params)
        for s, v, evs in run(P, g, modelled, follow=lambda t: t.is_lambda, value=None,
                             this="hgdb::Scheduler",
                             env={"this": ("addr", N.this)}):
            t = v
            if t[0] != "lt":
                rep.count("sort orders not understood")
                continue
            a, b = (lookup(x) for x in t[1:])
            if not a or not b:
                if all(x[0] == "f" and x[2].startswith(B) for x in map(strip, t[1:])):
                    rep.bad(g.loc(), "order", "the list is not sorted by the places in the "
                            "execution order", key="compare")
                else:
                    rep.count("sort orders not understood")
                continue
            n += 1
            rep.check(a[0] == table and b[0] == table and l in set(subterms(a[1])) and
                      r in set(subterms(b[1])) and all(
                          strip(x[1])[0] == "f" and strip(x[1])[2] == B + "id" for x in (a, b)),
                      g.loc(), "order", "the list is not sorted by the places in the execution "
                      "order, first to last", key="compare")
    rep.count("sort orders", n)
    sorts = [i for i, m in enumerate(f.nodes) if m and m["k"] == "CallExpr" and
             m.get("q", "").startswith("std::") and "sort" in m.get("q", "")]
    for i in sorts:
        args = f.nodes[i].get("args", [])[:2]
        names = [f.nodes[x]["q"].split("::")[-1] for a in args for x in f.subtree(a)
                 if f.nodes[x] and f.nodes[x]["k"] in ("CXXMemberCallExpr", "CallExpr")
                 and f.nodes[x].get("q")]
        rep.check(names in (["begin", "end"], ["cbegin", "cend"]) and not any(
            f.nodes[x] and f.nodes[x]["k"] in ("BinaryOperator", "CXXOperatorCallExpr")
            for a in args for x in f.subtree(a)), f.loc(i), "order",
            "only a part of the list is sorted", key="whole")


def sorted_after(C):
    P, rep = C.P, C.rep
    ADD = {S + "add_breakpoint", S + "add_data_breakpoint", S + "add_assert_breakpoint"}
    SORT = S + "reorder_breakpoints"
    callers = [f for f in P.funcs.values() if f.q.startswith(D) and
               any(n and n.get("q") in ADD for n in f.nodes)]
    todo, n = [], 0
    # helpers that only add: what matters is what their callers do
    for f in callers:
        if f.is_lambda or not any(m and m.get("q") == SORT for m in f.nodes):
            up = [g for g in P.funcs.values() if g.q.startswith(D) and
                  any(m and m["k"] in ("CXXMemberCallExpr", "CallExpr") and m.get("q") == f.q
                      for m in g.nodes)]
            todo += up if up else [f]
        else:
            todo.append(f)
    names = ADD | {f.q for f in callers}
    for f in dict.fromkeys(todo):
        def watch(q, nn):
            return "sort" if q == SORT else "add" if q in ADD else None

        def value(name, I, st, g, node, nn, obj, args):
            if name != "add":
                return None
            # only a real insertion counts
            callee = P.targets(nn.get("fn"), nn.get("virt"))
            dp = [i for i, p in enumerate(callee[0].params) if p["t"] == "bool"] if callee else []
            dry_arg = args[dp[0]] if dp and dp[0] < len(args) else None
            if dry_arg is not None and st.truth(I._rv(st, dry_arg)) is True:
                evs, loops, iters = st.auto
                st.auto = (evs[:-1], loops, iters)
                return [(st, ("q", "dry"))]
            s2 = st.copy()
            evs, loops, iters = s2.auto
            s2.auto = (evs[:-1], loops, iters)
            dry = []
            if dry_arg is not None:
                d = I._rv(st, dry_arg)
                if d[0] not in ("c",):
                    s3 = s2.copy()
                    if s3.assume(d, True):
                        dry = [(s3, ("new", "dry", node))]
                    if not st.assume(d, False):
                        return dry
            return [(st, ("new", "added", node)), (s2, NULL)] + dry
        for s, v, evs in run(P, f, watch, follow=lambda t: t.is_lambda or t.q in names - ADD or
                             t.q.startswith(D) and len(t.nodes) < 60, value=value):
            add = [k for k, e in enumerate(evs) if e[0] == "add"]
            if not add:
                continue
            n += 1
            rep.check(any(e[0] == "sort" for e in evs[add[-1]:]), evs[add[-1]][3], "order",
                      "a breakpoint has been inserted and the list is not put in order",
                      key="sorted|" + f.q.split("::")[-1])
    rep.check(n > 0, "src/debug.cc", "order", "no breakpoint is ever inserted", key="sorted|never")


def identity(C):
    P, rep, N = C.P, C.rep, C.N
    rep.rule("identity", "a breakpoint on the list or made for a step carries the id, instance and "
             "source location of the symbol table's entry, and the namespace it belongs to")
    own = {x["q"].split("::")[-1]: x["q"] for x in P.record("hgdb::DebugBreakPoint")["fields"]}
    src = {x["q"].split("::")[-1]: x["q"] for x in P.record("hgdb::BreakPoint")["fields"]}
    both = [k for k in own if k in src and k in ("id", "instance_id", "filename", "line_num",
                                                 "column_num")]
    if len(both) < 5:
        raise AnalysisBroken("breakpoints carry no location")
    got = {}

    def assign(I, st, f, node, loc, val):
        if loc[0] != "f" or not isinstance(loc[2], str) or not loc[2].startswith(B):
            return
        k = loc[2].split("::")[-1]
        v = strip(I._rv(st, val))
        w = f.loc(node)
        if k in both:
            got.setdefault(k, set()).add(f.key)
            if v[0] == "f" and isinstance(v[2], str) and v[2].startswith("hgdb::BreakPoint::"):
                rep.check(v[2] == src[k], w, "identity", "the %s of a breakpoint is taken from the "
                          "%s of the symbol table's entry" % (k, v[2].split("::")[-1]),
                          key=k + "|field")
                b = strip(v[1])
                names = [p["n"] for p in f.params]
                if b[0] == "v" and own_request(P, b):
                    rep.bad(w, "identity", "the %s of a breakpoint is taken from the request" % k,
                            key=k + "|request")
            elif k == "id" and v == strip(I._rv(st, N.f(N.current))) or v == CUR:
                rep.ok()
            elif v[0] == "c":
                rep.bad(w, "identity", "the %s of a breakpoint is a constant" % k, key=k + "|const")
        if own.get("ns_id") == loc[2]:
            got.setdefault("ns_id", set()).add(f.key)
            rep.check(v[0] == "f" and v[2] == "hgdb::DebuggerNamespace::id", w, "identity",
                      "a breakpoint is attributed to another namespace", key="ns")
    reqs = {}

    def own_request(P, b):
        return b in reqs.values()
    add = P.fn(S + "add_breakpoint")
    reqs["add"] = ("v", add.params[0]["d"])
    from indexes import lambdas_in
    roots = [g for g in P.funcs.values() if (g.q.startswith(S) or g.is_lambda and
                                             "Scheduler" in g.key) and
             any(m and m.get("q") in (own["line_num"], own["filename"]) and
                 writes(g, i) for i, m in enumerate(g.nodes))]
    for g in roots:
        run(P, g, modelled, follow=lambda t: False, value=model, assign=assign,
            this="hgdb::Scheduler", env={"this": ("addr", N.this)},
            store={N.f(N.current): CUR})
        rep.count("functions that make breakpoints")
        for k in both + ["ns_id"]:
            if k in own:
                rep.check(g.key in got.get(k, ()), g.loc(), "identity", "a breakpoint is made "
                          "without its %s" % k, key=k + "|missing")
    if not roots:
        raise AnalysisBroken("no function makes breakpoints")


def writes(g, i):
    from indexes import parents
    p = parents(g)
    j = p.get(i)
    while j is not None and g.nodes[j]["k"] in ("ImplicitCastExpr", "ParenExpr"):
        i, j = j, p.get(j)
    if j is None:
        return False
    n = g.nodes[j]
    if n["k"] == "BinaryOperator" and n["op"] == "=":
        return n["c"][0] == i
    return n["k"] == "CXXOperatorCallExpr" and n.get("q", "").endswith("operator=") and \
        (n.get("args") or [None])[0] == i


def run_c17(P, rep, tier):
    C = Sched(P, rep)
    stepping(C)
    inserted(C)
    others(C)
    bookkeeping(C)
    cycle(C)
    ordering(C)
    sorted_after(C)
    identity(C)
