"""C20: a watched variable is reported under its own id, with the value it has, when it should."""
from c01 import show
from engine import FALSE, Interp, NULL, State, TRUE, subterms
from evals import D, S, event_result
from extract import AnalysisBroken
from paths import Trace, lookup, run, strip

M = "hgdb::Monitor::"
RTL = "hgdb::RTLSimulatorClient::"
ADD = ("emplace_back", "push_back")
STORE = ("emplace", "insert", "insert_or_assign", "try_emplace")


class Names:
    """The parts of the monitor, recognised by what they are."""

    def __init__(self, P):
        rec = P.record("hgdb::Monitor")
        self.P = P
        self.table = [fd["q"] for fd in rec["fields"] if "map<unsigned long, std::unique_ptr<"
                      in fd["t"]]
        self.var = sorted(c for c in P.records if c.startswith(M) and any(
            fd["q"].endswith("::handle") for fd in P.record(c)["fields"]))
        if len(self.table) != 1 or len(self.var) != 1:
            raise AnalysisBroken("the table of watched variables is not recognised")
        self.table = self.table[0]
        self.var = self.var[0]
        self.classes = [self.var] + sorted(P.derived_of(self.var))
        fl = {fd["q"]: fd["t"] for fd in P.record(self.var)["fields"]}
        one = lambda pred, what: self._one(fl, pred, what)
        self.type = one(lambda t: t.endswith("MonitorType"), "type")
        self.handle = one(lambda t: t == "unsigned int *", "handle")
        self.cond = one(lambda t: "std::function<bool" in t, "condition")
        self.name = one(lambda t: "basic_string" in t, "name")
        self.types = {c["n"]: ("e", "hgdb::MonitorRequest::MonitorType", c["v"])
                      for c in P.enum("hgdb::MonitorRequest::MonitorType")["c"]}
        self.tab = ("f", ("obj", "hgdb::Monitor"), self.table)
        self.elem = ("f", ("it", self.tab), "#1")
        self.id = ("f", ("it", self.tab), "#0")

    @staticmethod
    def _one(fl, pred, what):
        r = [q for q, t in fl.items() if pred(t)]
        if len(r) != 1:
            raise AnalysisBroken("a watched variable's %s is not recognised" % what)
        return r[0]

    def key_of(self, t):
        """the id under which the watched variable t is held, None if t is something else"""
        t = strip(t)
        while t[0] == "f" and len(t) == 3 and (t[2] == "#1" or t[2].endswith("::second")) or t[0] == "deref":
            if t[0] == "f" and strip(t[1]) == ("it", self.tab):
                return ("f", ("it", self.tab), "#0")
            if t[0] == "f":
                break
            t = strip(t[1])
        c = lookup(t)
        if c and strip(c[0]) == self.tab:
            return self.id if c[1] == ("*",) else self.norm(c[1])
        return None

    def norm(self, t):
        """the id of a watched variable, as a term that does not depend on how it is obtained"""
        t = strip(t)
        if t[0] == "f" and len(t) == 3 and (t[2] == "#0" or t[2].endswith("::first")) and \
                strip(t[1]) == ("it", self.tab):
            return self.id
        return t

    def member(self, t, q):
        """the id of the watched variable whose member q the term t is"""
        t = strip(t)
        if t[0] == "f" and len(t) == 3 and t[2] == q:
            return self.key_of(t[1])
        return None

    def call(self, q, n):
        """the kind of access to a watched variable that a call is"""
        cls, _, nm = q.rpartition("::")
        if cls in self.classes:
            return {"get_value": "stored", "set_value": "keep", "get_value_ptr": "share"}.get(nm)
        return None


def names_of(q):
    return q.split("::")[-1].split("<")[0]


class WatchClient(Trace):
    mark = None
    seen = None       # what happens is looked at right away, only the current iteration is kept

    def ev(self, st, e):
        if self.seen:
            self.seen(e, st)
            evs, loops, iters = st.auto
            st.auto = ((), tuple((l, s | {e[0]}) for l, s in loops), iters)
        else:
            Trace.ev(self, st, e)

    def on_call(self, I, st, f, node, n, obj, args):
        nm = names_of(n.get("q", ""))
        if n.get("q", "").startswith("std::") and nm == "make_pair" and len(args) == 2:
            return [(st, ("tuple",) + tuple(I._rv(st, a) for a in args))]
        return Trace.on_call(self, I, st, f, node, n, obj, args)

    def on_edge(self, I, st, f, b, succ):
        if self.mark:
            for m in self.mark(st):
                evs, loops, iters = st.auto
                st.auto = (evs, tuple((l, s | {m}) for l, s in loops), iters)
        Trace.on_edge(self, I, st, f, b, succ)
        if self.seen:
            self.iters |= st.auto[2]
            st.auto = st.auto[:2] + (frozenset(),)


def go(P, f, watch, value=None, follow=None, env=None, mark=None, facts=None, seen=None,
       cl=None):
    cl = cl or WatchClient(P, watch, None, None)
    cl._follow = follow or (lambda t: False)
    cl._value = value
    cl.watch = watch
    cl._assign = None
    cl.mark = mark
    cl.seen = seen
    cl.iters = frozenset()
    e = {"this": ("addr", ("obj", f.cls))}
    e.update(env or {})
    st = State(env=e, auto=cl.empty_auto())
    st.facts.update(facts or {})
    return [(s, v, s.auto[0]) for s, v in Interp(P, cl).run(f, st)]


def pushed(e):
    a = e[2]
    if len(a) == 1:
        t = strip(a[0])
        return t[1:] if t[0] == "tuple" and len(t) == 3 else None
    return a if len(a) == 2 else None


def origin(t, name):
    """the event of that name whose (optional) result t is"""
    t = strip(t)
    return t if t[0] == "ev" and t[1] == name else None


def values(P, rep, N):
    f = P.fn(M + "get_watched_values")
    rep.rule("reported", "of every variable watched in the requested way, and of no other, its own "
             "id and value are reported; for the ones that report changes only if it changed; a "
             "delayed one reports the value kept before, and keeps the current one")
    prm = ("v", f.params[0]["d"])
    W = {RTL + "get_value": "read", M + "var_changed": "changed"}
    info = {}

    def watch(q, n):
        nm = names_of(q)
        return W.get(q) or N.call(q, n) or (
            "push" if q.startswith("std::vector") and nm in ADD else
            "cond" if q.startswith("std::function") and nm == "operator()" else None)

    def value(name, I, st, f2, node, n, obj, args):
        if name == "changed":
            r = event_result(name, I, st, f2, node, n, obj, args)[0]
            key = N.norm(I._rv(st, args[0]))
            res = []
            for b in (True, False):
                s2 = st.copy()
                s2.facts[("f", r[1], "#0")] = b
                s2.facts[("f", r[1], "std::pair::first")] = b
                cl_.ev(s2, ("changed%d" % b, None, (key,), f2.loc(node)))
                res.append((s2, r[1]))
            return res
        if name == "cond":
            r = event_result(name, I, st, f2, node, n, obj, args)[0]
            res = []
            for b in (True, False):
                s2 = st.copy()
                cl_.ev(s2, ("cond%d" % b, None, (), f2.loc(node)))
                res.append((s2, TRUE if b else FALSE))
            return res
        if name in ("read", "stored"):
            who = N.member(I._rv(st, args[0]), N.handle) if name == "read" else \
                N.key_of(I._rv(st, obj))
            r = event_result(name, I, st, f2, node, n, obj, args)
            info[r[0][1]] = who
            kept[r[0][1]] = any("keep" in s for l, s in st.auto[1])
            return r
        return None
    kept = {}
    total = 0
    for tn, T in N.types.items():
        cl_ = WatchClient(P, watch, None, None)

        def mark(st):
            for t, b in st.facts.items():
                if t[0] == "eq" and T in t and any(
                        x[0] == "f" and len(x) == 3 and x[2] == N.type for x in t[1:]):
                    yield "mine" if b else "other"
        seen = []

        def look(e, st):
            if e[0] == "push":
                seen.append(e)
                a = pushed(e)
                if a is None:
                    raise AnalysisBroken("what is reported of a watched variable is not recognised "
                                         "at %s" % e[3])
                rep.check(N.norm(a[0]) == N.id, e[3], "reported", "a watched variable is reported "
                          "under another id (%s)" % show(a[0])[:40], key="id|" + tn)
                rd, sv = origin(a[1], "read"), origin(a[1], "stored")
                ch = [x for x in subterms(a[1]) if x[0] == "ev" and x[1] == "changed"]
                if tn in ("data", "changed"):
                    rep.check(bool(ch) or rd is not None, e[3], "reported", "the value reported as "
                              "changed is not the variable's", key="value|" + tn)
                elif tn == "delay_clock_edge":
                    rep.check(sv is not None and not kept.get(sv), e[3], "reported",
                              "a delayed variable does not report the value kept before",
                              key="value|" + tn)
                else:
                    off = any("cond0" in s for l, s in st.auto[1])
                    rep.check(rd is not None or sv is not None and off, e[3], "reported",
                              "the value reported is not the one the variable has", key="value|" + tn)
                for x in (rd, sv):
                    if x is not None:
                        rep.check(info.get(x) == N.id, e[3], "reported", "the value of another "
                                  "variable is reported", key="other|" + tn)
            if e[0] in ("changed1", "changed0"):
                rep.check(e[2][0] == N.id, e[3], "reported", "it is another variable whose "
                          "change is looked at", key="changed-id|" + tn)
            if e[0] == "keep":
                x = origin(e[2][0], "read")
                rep.check(x is not None and info.get(x) == N.id and
                          N.key_of(e[1]) == N.id, e[3], "reported", "the value kept for a "
                          "variable is not the one it has", key="keep|" + tn)
        go(P, f, watch, value, lambda t: t.q.startswith(M) and t.q not in W and
           t.cls not in N.classes or t.is_lambda, {prm[1]: T}, mark, seen=look, cl=cl_)
        total += len(seen)
        for lid, names, how in cl_.iters:
            if not names & {"mine", "other"}:
                continue
            where = f.loc()
            rep.count("watched variables looked at")
            if "other" in names and "mine" not in names:
                rep.check(not names & {"push", "keep", "changed1", "changed0"}, where, "reported",
                          "a variable watched in another way is reported as %s" % tn,
                          key="type|" + tn)
                rep.check(how == "next", where, "reported", "watched variables are left out after "
                          "one of another type", key="rest|" + tn)
                continue
            rep.check(how == "next", where, "reported", "watched variables after the first are not "
                      "reported", key="rest|" + tn)
            if tn in ("data", "changed"):
                if names & {"changed1", "changed0"}:
                    rep.check(("push" in names) == ("changed1" in names), where, "reported",
                              "a variable is reported although it has not changed"
                              if "push" in names else "a change is not reported",
                              key="changes|" + tn)
                else:
                    rep.check(("push" in names) == ("keep" in names), where, "reported",
                              "what is reported and what is remembered of a variable that reports "
                              "changes differ", key="changes|" + tn)
            else:
                rep.check("push" in names, where, "reported", "a watched variable is not reported "
                          "(%s)" % tn, key="missing|" + tn)
                if tn == "delay_clock_edge":
                    rep.check("keep" in names, where, "reported", "a delayed variable does not "
                              "keep the current value", key="no-keep")
        rep.check(bool(seen), f.loc(), "reported", "variables watched as %s are never reported" % tn,
                  key="never|" + tn)
    rep.count("values reported", total)


def changes(P, rep, N):
    f = P.fn(M + "var_changed")
    rep.rule("changed", "a variable has changed exactly if its value differs from the one known "
             "before, or none was known; the new one is remembered then; a value that cannot be "
             "read is no change")
    prm = ("v", f.params[0]["d"])
    W = {RTL + "get_value": "read"}
    objs = {}

    def value(name, I, st, f2, node, n, obj, args):
        if name in ("read", "stored"):
            r = event_result(name, I, st, f2, node, n, obj, args)
            objs[r[0][1]] = N.member(I._rv(st, args[0]), N.handle) if name == "read" else \
                N.key_of(I._rv(st, obj))
            return r
        return None
    outs = go(P, f, lambda q, n: W.get(q) or N.call(q, n), value,
              lambda t: t.is_lambda or t.q.startswith(M) and t.cls not in N.classes)
    yes = no = 0
    for s, v, evs in outs:
        v = strip(v)
        if v[0] != "tuple" or len(v) != 3:
            raise AnalysisBroken("the result of var_changed is not recognised")
        ch = s.truth(v[1]) if v[1] not in (TRUE, FALSE) else v[1] == TRUE
        for e in evs:
            if e[0] in ("read", "stored", "keep"):
                who = N.member(e[2][0], N.handle) if e[0] == "read" else N.key_of(e[1])
                rep.check(who == prm, e[3], "changed", "another variable is looked at",
                          key="who|" + e[0])
        reads = {t for t in objs if t[1] == "read"}
        readable = [b for t, b in s.facts.items() if strip(t) in reads and t[0] == "ev"]
        known = [b for t, b in s.facts.items() if t[0] == "ev" and t[1] == "stored" or
                 t[0] == "p" and t[1] == "has_value" and strip(t[2])[:2] == ("ev", "stored")]
        same = [b for t, b in s.facts.items() if t[0] == "eq" and
                {strip(x)[1] for x in t[1:] if strip(x)[0] == "ev"} == {"read", "stored"}]
        keeps = [e for e in evs if e[0] == "keep"]
        looked = any(e[0] == "read" for e in evs)
        rep.count("ways to change")
        rep.check(ch is not None, f.loc(), "changed", "whether a variable changed is not decided by "
                  "its value", key="undecided")
        if not looked or readable == [False]:
            rep.check(ch is False and not keeps, f.loc(), "changed", "a variable that cannot be "
                      "read counts as changed", key="unreadable")
            if not looked:
                gone = any(t[0] == "found" and not b for t, b in s.facts.items()) or \
                    any(t[0] == "f" and not b and "RTLSimulatorClient" in P_field(P, t[2])
                        for t, b in s.facts.items() if len(t) == 3)
                rep.check(gone, f.loc(), "changed", "a watched variable is not looked at",
                          key="not-read")
            continue
        differs = known == [False] or same == [False]
        equal = same == [True]
        rep.check(differs or equal, f.loc(), "changed", "the decision does not depend on the value "
                  "known before", key="compare")
        rep.check(ch is (True if differs else False), f.loc(), "changed",
                  "a change goes unnoticed" if differs else "an unchanged variable counts as changed",
                  key="decision|%d" % differs)
        rep.check(not ch or bool(keeps), f.loc(), "changed", "the changed value is not remembered",
                  key="keep")
        for e in keeps:
            rep.check(origin(e[2][0], "read") is not None, e[3], "changed", "what is remembered is "
                      "not the value read", key="kept")
        rep.check(origin(v[2], "read") is not None or not ch, f.loc(), "changed",
                  "the value returned is not the one read", key="returned")
        yes += ch is True
        no += ch is False
    rep.check(yes > 0 and no > 0, f.loc(), "changed", "variables never change", key="both")


def P_field(P, q):
    cls = q.rpartition("::")[0]
    if cls in P.records:
        for fd in P.record(cls)["fields"]:
            if fd["q"] == q:
                return fd["t"]
    return ""


def table(P, rep, N):
    rep.rule("ids", "each watched variable is entered under an id of its own, which is the one "
             "returned; it has the requested name, way and handle; an id found again is the one of a "
             "variable with the same handle watched in the same way; only the given id is removed")
    W = {RTL + "get_handle": "handle", M + "is_monitored": "known", RTL + "get_value": "read"}

    def watch(q, n):
        nm = names_of(q)
        return W.get(q) or N.call(q, n) or (
            "make" if nm == "make_unique" and "Watch" in n.get("t", "") else
            nm if q.startswith("std::") and nm in STORE + ("erase", "clear") else
            "store" if q == "operator[]=" else None)

    def value(name, I, st, f2, node, n, obj, args):
        if name == "handle":
            return [(st, ("q", "handle", strip(I._rv(st, args[0]))))]
        if name == "known":
            return [(st, ("q", "known") + tuple(strip(I._rv(st, a)) for a in args))]
        if name == "make":
            return [(st, ("new", f2.key, node))]
        return None
    inside = lambda t: t.is_lambda or t.q.startswith(M) and t.q not in W and t.cls not in N.classes
    ids = [fd["q"] for fd in P.record("hgdb::Monitor")["fields"]
           if fd["t"] in ("unsigned long", "unsigned int", "uint64_t")]
    n = 0
    for f in P.fns(M + "add_monitor_variable"):
        ps = [(("v", p["d"]), p["t"]) for p in f.params]
        name = [d for d, t in ps if "basic_string" in t]
        ty = [d for d, t in ps if "MonitorType" in t]
        depth = [d for d, t in ps if t in ("unsigned int", "uint32_t")]
        val = [d for d, t in ps if "shared_ptr" in t]
        want = ("q", "handle", name[0])
        for q in ids:
            counter = ("f", ("obj", "hgdb::Monitor"), q)
        st = {("f", ("obj", "hgdb::Monitor"), q): ("q", "next", q) for q in ids}
        cl = WatchClient(P, watch, inside, value)
        cl._assign = None
        s0 = State(env={"this": ("addr", ("obj", f.cls))}, auto=cl.empty_auto())
        s0.store.update(st)
        for s, v, in Interp(P, cl).run(f, s0):
            evs = s.auto[0]
            ins = [e for e in evs if e[0] in STORE + ("store",) and e[1] is not None and
                   strip(e[1]) == N.tab]
            makes = [e for e in evs if e[0] == "make"]
            v = strip(v)
            if not ins:
                if v[0] == "q" and v[1] == "known":
                    rep.check(bool(ty) and set(v[2:]) == {want, ty[0]}, f.loc(), "ids",
                              "the id returned is not the one of the requested variable watched in "
                              "the requested way", key="reuse")
                    n += 1
                else:
                    off = any(t[0] == "f" and not b and "RTLSimulatorClient" in P_field(P, t[2])
                              for t, b in s.facts.items() if len(t) == 3)
                    rep.check(off, f.loc(), "ids", "a variable is not entered", key="dropped")
                continue
            n += 1
            e = ins[-1]
            k = strip(e[2][0])
            rep.check(len(ins) == 1 and k[0] == "q" and k[1] == "next", e[3], "ids",
                      "a variable is entered under an id that may be in use", key="key")
            rep.check(v == k, e[3], "ids", "the id returned is not the one the variable is entered "
                      "under", key="return")
            if k[0] == "q":
                after = s.store.get(("f", ("obj", "hgdb::Monitor"), k[2]))
                rep.check(after is not None and after != k and k in subterms(after), e[3], "ids",
                          "the same id is used again", key="next")
            obj = strip(e[2][1])
            mk = [m for m in makes if m[3]]
            rep.check(obj[0] == "new" and len(mk) == 1, e[3], "ids", "what is entered is not the "
                      "new variable", key="object")
            if mk:
                a = [strip(x) for x in mk[0][2]]
                rep.check(want in a, mk[0][3], "ids", "the variable entered has another handle",
                          key="handle")
                rep.check(name[0] in a, mk[0][3], "ids", "the variable entered has another name",
                          key="name")
                rep.check(not ty or ty[0] in a, mk[0][3], "ids", "the variable is entered as "
                          "watched in another way", key="type")
                rep.check(not depth or depth[0] in a, mk[0][3], "ids", "the variable is entered "
                          "with another delay", key="depth")
                rep.check(not val or val[0] in a, mk[0][3], "ids", "the known value that variables "
                          "share is not passed on", key="shared")
            opt = [d for d, t in ps if t.startswith("std::optional<")]
            if opt:
                ks = [e2 for e2 in evs if e2[0] == "keep"]
                rep.check(len(ks) == 1 and ks[0][2] and strip(ks[0][2][0]) == opt[0], e[3], "ids",
                          "the initial value is not kept", key="initial")
    rep.count("ways to watch", n)
    # constructors
    for c in N.classes:
        for g in P.funcs.values():
            if not (g.ctor and g.cls == c) or len(g.params) < 3:
                continue
            cl = WatchClient(P, lambda q, n: None, lambda t: t.ctor or t.is_lambda, None)
            cl._assign = None
            obj = ("obj", c)
            for s, v in Interp(P, cl).run(g, State(env={"this": ("addr", obj)},
                                                   auto=cl.empty_auto())):
                for q, sub in ((N.handle, "unsigned int *"), (N.type, "MonitorType")):
                    p = [("v", x["d"]) for x in g.params if sub in x["t"]]
                    got = s.load(("f", obj, q))
                    if p:
                        rep.check(got == p[0], g.loc(), "ids", "a watched variable is made with "
                                  "another %s" % q.split("::")[-1], key="ctor|" + q)
                    elif q == N.type:
                        rep.check(got == N.types.get("delay_clock_edge"), g.loc(), "ids",
                                  "a delayed variable is made as something else", key="ctor-delay")
    # searches
    f = P.fn(M + "is_monitored")
    ph = [("v", p["d"]) for p in f.params if p["t"] == "unsigned int *"]
    pt = [("v", p["d"]) for p in f.params if "MonitorType" in p["t"]]
    hit = 0
    cl_facts(P, rep, N, f, lambda s, v: _found(rep, N, f, s, v, ph[0], pt[0]))
    g = P.fn(M + "get_watched_value_ptr")
    shared(P, rep, N, g)
    # removal
    f = P.fn(M + "remove_monitor_variable")
    prm = ("v", f.params[0]["d"])
    k = 0
    for s, v, evs in go(P, f, watch, value, inside):
        es = [e for e in evs if e[0] in ("erase", "clear") and strip(e[1]) == N.tab]
        absent = any(t[0] == "found" and not b or t[0] == "p" and t[1] in ("count", "contains") and
                     not b for t, b in s.facts.items())
        rep.check(bool(es) or absent, f.loc(), "ids", "a variable stays watched", key="keep")
        for e in es:
            k += 1
            a = e[2][0] if e[2] else None
            ok = a is not None and (strip(a) == prm or N.key_of(a) == prm or
                                    (lookup(a) or (0, 0))[1] == prm or
                                    a[0] == "p" and a[1] == "find" and prm in a[3:])
            rep.check(ok and e[0] == "erase", e[3], "ids", "another variable stops being watched",
                      key="erase")
    rep.check(k > 0, f.loc(), "ids", "watched variables are never removed", key="never")


def cl_facts(P, rep, N, f, each):
    """run a search; each is called with the state in which the function returns"""
    got = []

    class C(WatchClient):
        def on_exit(self, I, st, g, val, depth):
            if depth == 0:
                got.append(1)
    cl = WatchClient(P, lambda q, n: None, lambda t: t.is_lambda or t.q.startswith(M), None)
    cl._assign = None
    outs = Interp(P, cl).run(f, State(env={"this": ("addr", ("obj", f.cls))},
                                      auto=cl.empty_auto()))
    hits = misses = 0
    for s, v in outs:
        r = each(s, v)
        hits += r is True
        misses += r is False
    rep.check(hits > 0 and misses > 0, f.loc(), "ids", "the search for a watched variable always "
              "has the same result", key="search|" + f.q)


def agree(N, s, q, want):
    """does the path know that member q of the variable it found equals want?"""
    for t, b in s.facts.items():
        if t[0] == "eq" and b and want in t[1:]:
            o = t[1] if t[2] == want else t[2]
            if N.member(o, q) is not None:
                return True
    return False


def _found(rep, N, f, s, v, h, ty):
    if v == NULL:
        return False
    v = N.norm(v)
    rep.check(v == N.id, f.loc(), "ids", "what is returned is not the id of the variable found",
              key="search-id")
    rep.check(agree(N, s, N.handle, h), f.loc(), "ids", "a variable with another handle is taken "
              "for the requested one", key="search-handle")
    rep.check(agree(N, s, N.type, ty), f.loc(), "ids", "a variable watched in another way is taken "
              "for the requested one", key="search-type")
    return True


def shared(P, rep, N, f):
    ps = [("v", p["d"]) for p in f.params]
    ty = [("v", p["d"]) for p in f.params if "MonitorType" in p["t"]][0]
    names = [p for p in ps if p != ty][0]
    W = lambda q, n: N.call(q, n)

    def value(name, I, st, f2, node, n, obj, args):
        if name == "share":
            return [(st, ("q", "share", N.key_of(I._rv(st, obj)) or ("none",)))]
        return None
    hits = misses = 0
    for s, v, evs in go(P, f, W, value, lambda t: t.is_lambda):
        if v == NULL or s.truth(v) is False:
            misses += 1
            continue
        hits += 1
        v = strip(v)
        rep.check(v == ("q", "share", N.id), f.loc(), "ids", "the known value returned is not the "
                  "one of the variable found", key="share-value")
        rep.check(agree(N, s, N.type, ty), f.loc(), "ids", "the known value of a variable watched "
                  "in another way is shared", key="share-type")
        named = any(b and names in subterms(t) and any(
            N.member(x, N.name) is not None for x in subterms(t) if x[0] == "f" and len(x) == 3)
            for t, b in s.facts.items())
        rep.check(named, f.loc(), "ids", "the known value of a variable with another name is "
                  "shared", key="share-name")
    rep.check(hits > 0 and misses > 0, f.loc(), "ids", "known values are never shared",
              key="share-both")


def buffer(P, rep, N):
    rep.rule("delay", "a delayed variable with delay n has the value kept n settings ago, and none "
             "before there are that many; each setting enters one value and drops at most the "
             "oldest")
    subs = [c for c in N.classes[1:] if any("queue<" in fd["t"] or "deque<" in fd["t"]
                                            for fd in P.record(c)["fields"])]
    if len(subs) != 1:
        raise AnalysisBroken("the history of a delayed variable is not recognised")
    c = subs[0]
    qf = [fd["q"] for fd in P.record(c)["fields"] if "queue<" in fd["t"] or "deque<" in fd["t"]][0]
    df = [fd["q"] for fd in P.record(c)["fields"] if fd["t"] in ("unsigned int", "uint32_t",
                                                                 "unsigned long")][0]
    obj = ("obj", c)
    hist, depth = ("f", obj, qf), ("f", obj, df)
    size = ("p", "size", hist)

    def watch(q, n):
        nm = names_of(q)
        if not q.startswith("std::"):
            return None
        return {"emplace": "in", "push": "in", "push_back": "in", "emplace_back": "in",
                "pop": "out", "pop_front": "out", "front": "oldest", "back": "newest",
                "clear": "clear", "pop_back": "undo", "push_front": "undo"}.get(nm)

    def rel(s, less, more):
        """is size compared with the depth: known results of size < depth, depth < size, =="""
        r = {}
        for t, b in s.facts.items():
            if t[0] in ("lt", "eq"):
                a, z = t[1], t[2]
                k = None
                if t[0] == "eq" and {a, z} == {size, depth}:
                    k = "eq"
                elif t[0] == "lt" and (a, z) == (size, depth):
                    k = "lt"
                elif t[0] == "lt" and (a, z) == (depth, size):
                    k = "gt"
                if k:
                    r[k] = b
        return r
    # reading
    f = P.fn(c + "::get_value")
    some = 0
    I = None
    for s, v, evs in go(P, f, watch, None, lambda t: t.is_lambda):
        r = rel(s, 0, 0)
        full = r.get("eq") is True or r.get("lt") is False
        short = r.get("eq") is False or r.get("lt") is True
        empty = s.truth(("p", "empty", hist)) is True or s.truth(size) is False
        front = any(e[0] == "oldest" for e in evs) or any(
            x[0] == "p" and x[1] == "front" for x in subterms(v))
        rep.check(not any(e[0] == "newest" for e in evs), f.loc(), "delay", "the newest value is "
                  "used instead of the oldest", key="newest")
        if v == NULL:
            rep.check(short or empty, f.loc(), "delay", "a delayed value that is known is not "
                      "returned", key="none")
        else:
            some += 1
            rep.check(full and front, f.loc(), "delay", "a delayed value is returned before it is "
                      "as old as it should be", key="early")
    rep.check(some > 0, f.loc(), "delay", "delayed values are never returned", key="never")
    # setting: the comparison sees the size before or after the entry
    f = P.fn(c + "::set_value")
    prm = ("v", f.params[0]["d"])

    q0 = ("q", "size0")
    cl = WatchClient(P, lambda q, n: None, lambda t: t.is_lambda, None)
    cl._assign = None
    plain = cl.on_call

    def on_call(I, st, f2, node, n, obj_, args):
        q = n.get("q", "")
        name = watch(q, n)
        t = strip(I._rv(st, obj_)) if obj_ is not None else None
        if t is None or t != hist and strip(obj_) != hist:
            return plain(I, st, f2, node, n, obj_, args)
        ins, outs = st.auto[0][0] if st.auto[0] else (0, 0)
        nm = names_of(q)
        if name == "in":
            st.auto = (((ins + 1, outs),), (), frozenset())
            rep.check(strip(I._rv(st, args[0])) == prm, f2.loc(node), "delay", "what is entered is "
                      "not the new value", key="entered")
        elif name == "out":
            if not any(possible(st, q0, depth, o) for o in (-2, -1, 0)):
                return []       # the history is never longer than the delay
            st.auto = (((ins, outs + 1),), (), frozenset())
        elif name in ("clear", "undo"):
            rep.check(False, f2.loc(node), "delay", "values are dropped from the history",
                      key="dropped")
        elif nm == "size":
            return [(st, ("bin", "+", ("q", "size0"), ("c", ins - outs)))]
        return None
    cl.on_call = on_call
    outs = Interp(P, cl).run(f, State(env={"this": ("addr", obj)}, auto=((), (), frozenset())))
    pops = 0
    for s, v in outs:
        ins, out = s.auto[0][0] if s.auto[0] else (0, 0)
        # sizes before the setting for which the path is taken (depth stays symbolic: offsets)
        ok = {}
        for off in (-2, -1, 0):
            ok[off] = possible(s, q0, depth, off)
        if not any(ok.values()):
            continue
        rep.check(ins == 1 and out <= 1, f.loc(), "delay", "setting a value enters %d and drops %d"
                  % (ins, out), key="count")
        pops += out
        # a history that is full must drop; one that is not must not
        if out == 0:
            rep.check(not ok[0], f.loc(), "delay", "a full history grows", key="grows")
        else:
            rep.check(not ok[-1] and not ok[-2], f.loc(), "delay", "the history never fills",
                      key="shrinks")
    rep.check(pops > 0, f.loc(), "delay", "the history is never shortened", key="pops")


def possible(s, q0, depth, off):
    """may the path be taken when q0 = depth + off?"""
    def lin(t):
        if t == q0:
            return 1, off
        if t == depth:
            return 1, 0
        if t[0] == "c" and isinstance(t[1], int):
            return 0, t[1]
        if t[0] == "bin" and t[1] in ("+", "-"):
            a, b = lin(t[2]), lin(t[3])
            if a and b:
                g = 1 if t[1] == "+" else -1
                return a[0] + g * b[0], a[1] + g * b[1]
        return None
    for t, b in s.facts.items():
        if t[0] in ("lt", "eq"):
            a, z = lin(t[1]), lin(t[2])
            if a is None or z is None or a[0] != z[0]:
                continue
            r = a[1] < z[1] if t[0] == "lt" else a[1] == z[1]
            if r != b:
                return False
    return True


def sending(P, rep, N):
    f = P.fn(D + "send_monitor_values")
    rep.rule("sent", "every value that a namespace's monitor reports is sent, with its id, the "
             "namespace it belongs to and its value")
    prm = ("v", f.params[0]["d"])
    W = {M + "get_watched_values": "values", M + "empty": "empty", D + "send_message": "send",
         "hgdb::value_to_str": "str"}

    def watch(q, n):
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and \
                n.get("cls") == "hgdb::MonitorResponse" and len(n.get("args", n.get("c", []))) > 1:
            return "make"
        return W.get(q)

    def value(name, I, st, f2, node, n, obj, args):
        if name == "values":
            return [(st, ("q", "values", strip(I._rv(st, obj)), I._rv(st, args[0])))]
        if name == "str":
            return [(st, ("q", "str", strip(I._rv(st, args[0]))))]
        if name == "empty":
            res = []
            for b in (True, False):
                s2 = st.copy()
                Trace.ev(cl0, s2, ("empty%d" % b, None, (), f2.loc(node)))
                res.append((s2, TRUE if b else FALSE))
            return res
        return None
    cl0 = WatchClient(P, watch, None, None)
    outs = go(P, f, watch, value, lambda t: t.is_lambda)
    n = 0
    asked = False
    for s, v, evs in outs:
        for e in evs:
            if e[0] == "values":
                asked = True
                rep.check(e[2][0] == prm, e[3], "sent", "values watched in another way are sent",
                          key="type")
            if e[0] == "make":
                n += 1
                a = [strip(x) for x in e[2]]
                i = a[0]
                src = container(i)
                rep.check(i[0] == "f" and (i[2] == "#0" or i[2].endswith("::first")) and
                          is_values(src), e[3], "sent", "a value is sent under another id",
                          key="id")
                st = [x for x in a if x[0] == "q" and x[1] == "str"]
                rep.check(len(st) == 1 and st[0][2][0] == "f" and
                          (st[0][2][2] == "#1" or st[0][2][2].endswith("::second")) and
                          container(st[0][2]) == src, e[3], "sent", "what is sent under a "
                          "variable's id is not its value", key="value")
                nsq = [x for x in a[1:] if x[0] == "f" and x[2].endswith("::id")]
                ok = False
                if is_values(src) and nsq:
                    m = src[2]
                    while m[0] in ("deref", "f") and m != strip(nsq[0][1]):
                        m = strip(m[1])
                    ok = m == strip(nsq[0][1])
                rep.check(ok, e[3], "sent", "a value is sent as one of another namespace", key="ns")
        for lid, names, how in s.auto[2]:
            if "make" in names or "send" in names or "values" in names or "empty1" in names:
                rep.check(how == "next", f.loc(), "sent", "the values after the first are not sent",
                          key="rest")
            rep.check(("make" in names) == ("send" in names) or "values" in names, f.loc(), "sent",
                      "a value is not sent", key="send")
    rep.check(n > 0 and asked, f.loc(), "sent", "no value is ever sent", key="never")
    # which loops exist: each value of a namespace, each namespace
    inner = [it for s, v, evs in outs for it in s.auto[2]
             if "values" not in it[1] and "empty0" not in it[1] and "empty1" not in it[1]]
    rep.check(all("send" in it[1] for it in inner) and bool(inner), f.loc(), "sent",
              "a value is left out", key="each")
    outer = [it for s, v, evs in outs for it in s.auto[2] if it not in inner]
    rep.check(all("values" in it[1] or "empty1" in it[1] for it in outer) and bool(outer), f.loc(),
              "sent", "a namespace's values are left out", key="each-ns")
    # the moments
    f = P.fn(D + "eval")
    W2 = {D + "send_monitor_values": "monitor", D + "send_breakpoint_hit": "hit",
          "hgdb::RuntimeLock::wait": "wait", S + "next_breakpoints": "next",
          D + "eval_breakpoints": "evaluate"}
    rep.rule("moments", "values watched at breakpoints are sent after the breakpoint that was hit, "
             "before the simulation stands still; those watched at clock edges at the end of every "
             "evaluation")

    class C(Trace):
        def ev(self, st, e):
            cur = [x for x in st.auto[0]]
            if e[0] == "monitor":
                cur.append(("sent:%s" % (e[2][0][2] if e[2][0][0] == "e" else "?"),))
            elif e[0] == "hit":
                cur = [("hit",)]
            elif e[0] == "next":
                cur = []
            elif e[0] == "wait":
                rep.count("pauses")
                if ("hit",) in cur:
                    rep.check(("sent:%s" % N.types["breakpoint"][2],) in cur, e[3], "moments",
                              "the simulation stops at a breakpoint without sending the values "
                              "watched there", key="breakpoint")
                cur = []
            st.auto = (tuple(cur), (), frozenset())

        def on_edge(self, I, st, f, b, succ):
            pass

        def follow(self, I, st, t, depth):
            return t.is_lambda or t.q.startswith(D) and t.q not in W2 and P_reaches(P, t, W2)
    cl = C(P, lambda q, n: W2.get(q))
    cl._assign = None
    cl._value = lambda name, I, st, f2, node, n, obj, args: event_result(
        name, I, st, f2, node, n, obj, args) if name in ("next", "evaluate") else None
    clk = "sent:%s" % N.types["clock_edge"][2]
    ends = 0
    for s, v in Interp(P, cl).run(f, State(env={"this": ("addr", ("obj", f.cls))},
                                           auto=((), (), frozenset()))):
        ends += 1
        rep.check((clk,) in s.auto[0], f.loc(), "moments", "the values watched at clock edges are "
                  "not sent at the end of an evaluation", key="clock")


def delayed(P, rep, N):
    """what the debugger knows of delayed variables comes from the variable's own monitor"""
    f = P.fn(D + "update_delayed_values")
    rep.rule("delayed", "in each cycle a delayed variable gets the value that the monitor of its own "
             "namespace reports under its own id")
    rec = [c for c in P.records if c.startswith("hgdb::Debugger::") and any(
        fd["q"] == c + "::watch_id" or fd["t"] == "unsigned long" for fd in P.record(c)["fields"])
        and any(fd["t"] == "std::optional<long>" for fd in P.record(c)["fields"])]
    if len(rec) != 1:
        raise AnalysisBroken("the debugger's delayed variables are not recognised")
    fl = {fd["t"]: fd["q"] for fd in P.record(rec[0])["fields"]}
    val, wid, nsid = (fl.get(t) for t in ("std::optional<long>", "unsigned long", "unsigned int"))
    if not (val and wid and nsid):
        raise AnalysisBroken("the debugger's delayed variables are not recognised")

    def value(name, I, st, f2, node, n, obj, args):
        return [(st, ("q", "values", strip(I._rv(st, obj)), I._rv(st, args[0])))]

    def pairs(st, q):
        """what member q of a delayed variable is known to equal: (variable, other side, result)"""
        for t, b in st.facts.items():
            if t[0] == "eq":
                for x, y in ((t[1], t[2]), (t[2], t[1])):
                    x = strip(x)
                    if x[0] == "f" and len(x) == 3 and x[2] == q:
                        yield strip(x[1]), strip(y), b

    def owner(y, ns):
        """is y the id of the namespace whose monitor ns is?"""
        if y[0] != "f" or not y[2].endswith("::id"):
            return False
        return strip(y[1]) in {strip(x) for x in subterms(ns)}

    def first_of(y):
        return y[0] == "f" and (y[2] == "#0" or y[2].endswith("::first")) and is_values(container(y))

    def mark(st):
        mine = any(b and first_of(y) for x, y, b in pairs(st, wid))
        here = [b for x, y, b in pairs(st, nsid) if y[0] == "f" and y[2].endswith("::id")]
        if mine and True in here:
            yield "match"
    sets = []

    def assign(I, st, f2, node, loc, v):
        loc = strip(loc)
        if not (loc[0] == "f" and len(loc) == 3 and loc[2] == val):
            return
        who = strip(loc[1])
        v = strip(v)
        src = container(v)
        where = f2.loc(node)
        sets.append(where)
        cl.ev(st, ("set", None, (), where))
        ok = v[0] == "f" and (v[2] == "#1" or v[2].endswith("::second")) and is_values(src)
        rep.check(ok, where, "delayed", "a delayed variable gets a value that its monitor does not "
                  "report", key="source")
        if not ok:
            return
        rep.check(src[3] == N.types["delay_clock_edge"], where, "delayed", "a delayed variable gets "
                  "the value of one watched in another way", key="type")
        rep.check(any(x == who and b and first_of(y) and container(y) == src
                      for x, y, b in pairs(st, wid)), where, "delayed",
                  "a delayed variable gets the value reported for another one", key="id")
        rep.check(any(x == who and b and owner(y, src[2]) for x, y, b in pairs(st, nsid)), where,
                  "delayed", "a delayed variable gets a value from another namespace", key="ns")
    cl = WatchClient(P, None, None, None)

    cl.on_assign = assign
    go(P, f, lambda q, n: "values" if q == M + "get_watched_values" else None, value,
       lambda t: t.is_lambda or t.cls == "hgdb::DebuggerNamespaceManager", mark=mark,
       seen=lambda e, st: None, cl=cl)
    rep.check(bool(sets), f.loc(), "delayed", "delayed values are never updated", key="never")
    for lid, names, how in cl.iters:
        if "match" in names and how == "next" and not isinstance(lid[1], tuple):
            rep.count("delayed variables looked at")
            rep.check("set" in names, f.loc(), "delayed", "a delayed variable keeps an old value "
                      "although its monitor reports a new one", key="kept")
    # how they are made: the id and namespace noted are those of the monitor they were added to
    g = P.fn(D + "process_delayed_breakpoint")
    made = []

    def value2(name, I, st, f2, node, n, obj, args):
        return [(st, ("q", name, strip(I._rv(st, obj))) + tuple(strip(I._rv(st, a)) for a in args))]

    def assign2(I, st, f2, node, loc, v):
        loc = strip(loc)
        if loc[0] == "f" and len(loc) == 3 and loc[2] in (wid, nsid):
            v = strip(v)
            made.append(loc[2])
            if loc[2] == wid:
                rep.check(v[0] == "q" and v[1] == "add", f2.loc(node), "delayed", "the id noted for "
                          "a delayed variable is not the one its monitor gave it", key="noted-id")
            else:
                own = [x for x in st.env.values() if isinstance(x, tuple) and x[:2] == ("q", "add")] \
                    + [x for x in st.store.values() if x[:2] == ("q", "add")]
                rep.check(bool(own) and all(owner(v, x[2]) for x in own), f2.loc(node), "delayed",
                          "the namespace noted for a delayed variable is not the one whose monitor "
                          "watches it", key="noted-ns")
    cl = WatchClient(P, None, None, None)
    cl.on_assign = assign2
    go(P, g, lambda q, n: "add" if q == M + "add_monitor_variable" else None, value2,
       lambda t: t.is_lambda, seen=lambda e, st: None, cl=cl)
    rep.check(wid in made, g.loc(), "delayed", "the id under which a delayed variable is watched is "
              "not noted", key="no-id")
    rep.check(nsid in made, g.loc(), "delayed", "the namespace in which a delayed variable is "
              "watched is not noted", key="no-ns")


def P_reaches(P, t, W):
    return any(P.funcs[k].q in W for k in P.reachable([t]))


def container(t):
    """what t is an element of, or part of an element of"""
    while t[0] in ("f", "deref", "some", "addr"):
        t = t[1]
    return t[1] if t[0] in ("it", "idx") else ("none",)


def is_values(t):
    return t[0] == "q" and t[1] == "values"


def run_c20(P, rep, tier):
    N = Names(P)
    values(P, rep, N)
    changes(P, rep, N)
    table(P, rep, N)
    buffer(P, rep, N)
    sending(P, rep, N)
    delayed(P, rep, N)
