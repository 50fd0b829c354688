"""C07-C10: shared state is used under its lock; the locks cannot deadlock."""
import re
from collections import defaultdict

from extract import AnalysisBroken
from ir import CALLS, CTORS, pp
from locks import (Locks, Order, guarded_by, is_guard_type, is_mutex_type, resolve_field)

# class, field, type (used only to find a renamed field), lock, why it is shared
TABLE = {
    "C07": [
        ("hgdb::Scheduler", "breakpoints_", r"vector<std::unique_ptr<hgdb::DebugBreakPoint",
         "breakpoint_lock_", "breakpoint list: client requests against the running simulation"),
        ("hgdb::Scheduler", "inserted_breakpoints_", r"unordered_set<", "breakpoint_lock_",
         "inserted breakpoint ids: client requests against the running simulation"),
    ],
    "C08": [
        ("hgdb::DebugServer", "connections_", r"unordered_map<(unsigned long|uint64_t), *(std::)?shared",
         "connections_lock_", "open connections: network thread against the simulation thread"),
        ("hgdb::DebugServer", "connection_id_map_", r"map<.*\*, *(unsigned long|uint64_t)",
         "connections_lock_", "connection ids: network thread against the simulation thread"),
        ("hgdb::DebugServer", "channel_count_", r"^(unsigned long|uint64_t)$",
         "connections_lock_", "next connection id"),
        ("hgdb::DebugServer", "topics_", r"map<std::.*string.*set<", "connections_lock_",
         "subscriptions: network thread against the simulation thread"),
    ],
    "C09": [
        ("hgdb::Debugger", "cached_signal_values_", None, "cached_signal_values_lock_",
         "values read by the parallel breakpoint evaluation"),
        ("hgdb::Debugger", "cached_instance_name_", None, "cached_instance_name_lock_",
         "instance names read by the parallel breakpoint evaluation"),
        ("hgdb::RTLSimulatorClient", "handle_map_", None, "handle_map_lock_", "handles by name"),
        ("hgdb::RTLSimulatorClient", "mock_slice_handles_", r"tuple<", "handle_map_lock_",
         "handles of slices"),
        ("hgdb::RTLSimulatorClient", "cb_handles_", None, "cb_handles_lock_", "callbacks"),
        ("hgdb::RTLSimulatorClient", "cached_vpi_types_", None, "cached_vpi_types_lock_",
         "handle types"),
        ("hgdb::RTLSimulatorClient", "cached_vpi_size_", None, "cached_vpi_size_lock_",
         "handle sizes"),
        ("hgdb::Monitor", "watched_variables_", r"unordered_map<", "watched_variables_lock_",
         "watched variables: client requests against the simulation thread"),
        ("hgdb::Monitor", "watch_id_count_", r"^(unsigned long|uint64_t|atomic)",
         "watched_variables_lock_", "watch ids"),
        ("hgdb::perf::PerfCount", "counts_", r"map<", "count_mutex_", "performance counters"),
    ],
}
MUTEX_T = r"^std::(recursive_|shared_|timed_|recursive_timed_|shared_timed_)?mutex$"


def locks(P):
    L = getattr(P, "_locks", None)
    if L is None:
        L = P._locks = Locks(P)
        P._order = Order(P, L)
    return L, P._order


def resolve_mutex(P, L, cls, name, field):
    """the lock by name; when renamed, the mutex that is held most often at uses of the field"""
    rec = P.record(cls)
    for f in rec["fields"] + rec.get("statics", []):
        if f["q"] == cls + "::" + name:
            return f["q"]
    if cls + "::" + name in P.globals:
        return cls + "::" + name
    from collections import Counter
    c = Counter()
    for f in P.funcs.values():
        for i in f.where:
            n = f.nodes[i]
            if n.get("q") == field:
                for m in L.must_at(f, i) or ():
                    c[m] += 1
    if c:
        return c.most_common(1)[0][0]
    raise AnalysisBroken("anchor not found: the lock of " + field)


def resolve(P, cls, name, typ):
    if cls + "::" + name in P.globals:
        return cls + "::" + name
    return resolve_field(P, cls, name, typ)


def run_guarded(prop):
    def run(P, rep, tier):
        L, O = locks(P)
        rep.rule("guarded-by", "every use of a shared table, including references and iterators "
                 "obtained from it, happens where its lock is certainly held (must-lockset over "
                 "the CFG, entry locksets from all call sites)")
        for cls, name, typ, lock, what in TABLE[prop]:
            q = resolve(P, cls, name, typ)
            m = resolve_mutex(P, L, cls, lock, q)
            n = guarded_by(P, rep, L, q, m, cls, "guarded-by", what)
            rep.count("uses of %s" % name, n)
            rep.need("uses of %s" % name, 1)
            rep.count("accesses", n)
            escaping(P, rep, L, q, m, what)
        if prop == "C08":
            rep.need("accesses", 30)
        if prop == "C07":
            rep.need("accesses", 40)
        if prop == "C09":
            vpi(P, rep, L)
            bit_vectors(P, rep)
            exchange(P, rep, L)
    return run


def escaping(P, rep, L, field, mutex, what):
    """a reference or iterator into the table must not leave the region that holds the lock"""
    for f in P.funcs.values():
        if not f.blocks or f.ctor:
            continue
        rt = f.rt
        if not (rt.endswith("&") or "iterator" in rt):
            continue
        from locks import _roots_in, alias_vars
        al = alias_vars(f, field)
        for i in f.where:
            n = f.nodes[i]
            if n["k"] == "ReturnStmt" and n.get("c"):
                if _roots_in(f, n["c"][0], field, al, "iterator" in rt):
                    # fine when every caller holds the lock
                    ok = mutex in L.entry.get(f.key, ())
                    rep.check(ok, f.loc(i), "guarded-by",
                              "%s hands out a reference into %s that outlives the lock (%s)" % (
                                  f.q, field.split("::")[-1], what),
                              key="escape|%s|%s" % (field, f.q))


def vpi(P, rep, L):
    rep.rule("simulator-lock", "the simulator's own vpi_* functions are called only inside the "
             "provider class and with its lock held; reading a value is exempt when the provider "
             "was told that reads need no lock")
    base = "hgdb::AVPIProvider"
    provs = P.derived_of(base)
    sites = 0
    for f in P.funcs.values():
        if not f.blocks:
            continue
        for i in f.where:
            n = f.nodes[i]
            if n["k"] != "CallExpr":
                continue
            q = n.get("q", "")
            if not re.match(r"^(vpi_\w+|svGetScope\w*)$", q):
                continue
            if f.file.find("/tools/") >= 0:
                continue
            sites += 1
            cls = owner_class(P, f)
            if cls not in provs:
                if before_runtime(P, f, i):
                    rep.ok()
                    continue
                rep.bad(f.loc(i), "simulator-lock", "%s is called in %s, outside the provider "
                        "that serialises simulator access" % (q, f.q),
                        key="simulator-lock|%s|%s" % (q, f.q))
                continue
            held = L.must_at(f, i) or frozenset()
            mx = {x["q"] for x in P.records[cls]["fields"] if is_mutex_type(x["t"])}
            if held & mx:
                rep.ok()
                continue
            if q == "vpi_get_value" and lockfree_allowed(P, L, f, i):
                rep.ok()
                continue
            rep.bad(f.loc(i), "simulator-lock", "%s is called in %s without the provider's lock" %
                    (q, f.q), key="simulator-lock|%s|%s" % (q, f.q))
    rep.count("simulator call sites", sites)
    rep.need("simulator call sites", 12)


def before_runtime(P, f, i):
    """the call is in a function that creates the debugger, and happens before it does: no other
    thread exists yet"""
    made = [j for j in f.where if f.nodes[j]["k"] in CTORS and
            f.nodes[j].get("cls") == "hgdb::Debugger"]
    if not made or f.cls == "hgdb::Debugger":
        return False
    for j in made:
        b, k = f.where[j]
        bi, ki = f.where[i]
        if b == bi and k < ki:
            return False
        seen, st = set(), f._succ(b)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(f._succ(x))
        if bi in seen:
            return False
    return True


def owner_class(P, f):
    while f.is_lambda and f.parent and f.parent in P.funcs:
        f = P.funcs[f.parent]
    return f.cls


def lockfree_allowed(P, L, f, i):
    """only reached when the 'values are read under the lock' switch is off"""
    from engine import Client, Interp, State
    flags = set()
    seen = [0, 0]

    class C(Client):
        max_disjuncts = 64

        def on_call(self, I, st, g, node, n, obj, args):
            if g is f and node == i:
                seen[0] += 1
                if any(t[0] == "f" and str(t[2]).split("::")[-1].startswith("use_lock") and
                       v is False for t, v in st.facts.items()) or self.mx(I, st, g, node):
                    seen[1] += 1
            return None

        def mx(self, I, st, g, node):
            return False

        def follow(self, I, st, callee, depth):
            return False
    I = Interp(P, C())
    I.run(f, State(env={"this": ("addr", ("obj", f.cls))}))
    return seen[0] > 0 and seen[0] == seen[1]


def bit_vectors(P, rep):
    rep.rule("no-shared-bits", "no element of a std::vector<bool> is written by a lambda that runs "
             "on another thread (its bits share a word)")
    n = 0
    thr = thread_lambdas(P)
    for k in thr:
        for kk in P.reachable([P.funcs[k]], follow=("call", "lam")):
            f = P.funcs[kk]
            if not f.is_lambda:
                continue
            n += 1
            for i in f.where:
                m = f.nodes[i]
                tgt = None
                if m["k"] == "CXXOperatorCallExpr" and m["op"] == "=" and \
                        "_Bit_reference" in f.nodes[m["args"][0]].get("t", ""):
                    tgt = m["args"][0]
                if tgt is not None and captured_ref(P, f, tgt):
                    rep.bad(f.loc(i), "no-shared-bits", "an evaluation thread writes a bit of a "
                            "std::vector<bool> shared with the other threads (%s)" % f.q)
                elif tgt is not None:
                    rep.ok()
    rep.count("thread bodies", n)
    rep.need("thread bodies", 1)


def captured_ref(P, f, i):
    for x in f.subtree(i):
        n = f.nodes[x]
        if n["k"] == "DeclRefExpr" and n.get("d") is not None:
            if "bool" in n.get("t", "") and "vector" in n.get("t", ""):
                local = any(m and m["k"] == "DeclStmt" and
                            any(v["d"] == n["d"] for v in m["vars"]) for m in f.nodes)
                return not local
        if n["k"] == "MemberExpr" and "vector<bool" in n.get("t", ""):
            return True
    return False


def thread_lambdas(P):
    """lambdas (and functions) handed to std::thread / std::async / a thread container"""
    res = set()
    lamvar = {}
    for f in P.funcs.values():
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if v["init"] is not None and v["init"] >= 0:
                        s = f.nodes[f.strip(v["init"])]
                        if s["k"] == "LambdaExpr":
                            lamvar[v["d"]] = s["lam"]
    for f in P.funcs.values():
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            hit = False
            if n["k"] in CTORS and n.get("cls") in ("std::thread", "std::jthread"):
                hit = True
            elif n["k"] == "CallExpr" and n.get("q") in ("std::async", "std::make_unique",
                                                          "std::make_shared") and \
                    ("std::thread" in n.get("t", "") or n.get("q") == "std::async"):
                hit = True
            elif n["k"] == "CXXMemberCallExpr" and n.get("q", "").split("::")[-1] in (
                    "emplace_back", "push_back", "emplace") and \
                    "vector<std::thread" in f.nodes[f.strip(n["obj"])].get("t", ""):
                hit = True
            elif n["k"] == "CXXOperatorCallExpr" and n["op"] == "=" and \
                    f.nodes[f.strip(n["args"][0])].get("t", "") == "std::thread":
                hit = True
            if not hit:
                continue
            for a in n.get("args", []):
                for x in f.subtree(a):
                    m = f.nodes[x]
                    lam = None
                    if m["k"] == "LambdaExpr":
                        lam = m["lam"]
                    elif m["k"] == "DeclRefExpr" and m.get("d") in lamvar:
                        lam = lamvar[m["d"]]
                    elif m["k"] == "DeclRefExpr" and m.get("dk") == "fn" or \
                            m["k"] == "UnaryOperator":
                        continue
                    if lam:
                        for t in P.lambda_bodies(lam):
                            res.add(t.key)
    return res


def exchange(P, rep, L):
    rep.rule("one-exchange", "a query to the remote symbol table is sent and its answer received "
             "with one lock held throughout")
    n = 0
    for f in P.funcs.values():
        if not f.blocks:
            continue
        snd = [i for i in f.where if f.nodes[i]["k"] == "CXXMemberCallExpr" and
               f.nodes[i].get("q", "") == "hgdb::NetworkProvider::send"]
        rcv = [i for i in f.where if f.nodes[i]["k"] == "CXXMemberCallExpr" and
               f.nodes[i].get("q", "") == "hgdb::NetworkProvider::receive"]
        if not snd and not rcv:
            continue
        for i in snd + rcv:
            n += 1
        a = None
        for i in snd + rcv:
            h = L.at(f, i)
            hh = frozenset(h or ()) | frozenset((m, "entry") for m in L.entry[f.key])
            a = hh if a is None else a & hh
        rep.check(bool(a), f.loc((snd + rcv)[0]), "one-exchange",
                  "%s sends a query and receives the answer without holding one lock across both; "
                  "a concurrent query can take the answer" % f.q, key="one-exchange|" + f.q)
    rep.count("exchange sites", n)
    rep.need("exchange sites", 2)


# ------------------------------------------------------------------ C10
def run_deadlock(P, rep, tier):
    L, O = locks(P)
    rep.rule("lock-order", "the graph 'lock B is taken while lock A may be held' over all "
             "functions, callbacks and lambdas has no cycle")
    rep.rule("no-relock", "no non-recursive lock is taken where it may already be held")
    rep.rule("released", "no function returns with a lock it took by hand still held")
    rep.rule("no-wait-under-lock", "no wait for a client's command, no join and no wait on a "
             "condition variable happens while holding a lock that the waking thread may take")
    g = O.graph()
    acq = sum(len(v) for v in O.direct.values())
    rep.count("acquisitions", acq)
    rep.need("acquisitions", 40)
    adj = defaultdict(set)
    for (a, b), sites in g.items():
        f, i, via = sites[0]
        if a == b:
            rep.check(a in L.recursive, f.loc(i), "no-relock",
                      "%s takes %s%s while it may already be held" % (
                          f.q, a.split("::")[-1], " through " + via if via else ""),
                      key="no-relock|%s|%s" % (a, f.q))
            continue
        adj[a].add(b)
    rep.count("ordered lock pairs", len(g))
    # cycles
    for cyc in cycles(adj):
        where = []
        for x, y in zip(cyc, cyc[1:] + cyc[:1]):
            f, i, via = g[(x, y)][0]
            where.append("%s then %s in %s (%s)%s" % (x.split("::")[-1], y.split("::")[-1], f.q,
                                                      f.loc(i), " via " + via if via else ""))
        f, i, via = g[(cyc[0], cyc[1 % len(cyc)])][0]
        rep.bad(f.loc(i), "lock-order", "locks are taken in a cycle: " + "; ".join(where),
                key="lock-order|" + ">".join(sorted(cyc)))
    rep.ok(len(adj))
    for f in P.funcs.values():
        if not f.blocks or f.exit is None:
            continue
        st = L.may[f.key].get(("end", f.exit))
        held = [m for m, d in (st or ()) if d == "manual"]
        for m in held:
            rep.bad(f.loc(), "released", "%s may return with %s still locked" % (f.q, m),
                    key="released|%s|%s" % (f.q, m))
        rep.ok()
    waits(P, rep, L, O)


def cycles(adj):
    """one representative per strongly connected component"""
    index, low, onst, st, out = {}, {}, set(), [], []

    def dfs(v):
        index[v] = low[v] = len(index)
        st.append(v)
        onst.add(v)
        for w in adj.get(v, ()):
            if w not in index:
                dfs(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            comp = []
            while True:
                w = st.pop()
                onst.discard(w)
                comp.append(w)
                if w == v:
                    break
            if len(comp) > 1:
                out.append(comp)
    for v in list(adj):
        if v not in index:
            dfs(v)
    res = []
    for comp in out:
        # walk a cycle inside the component
        path = [comp[0]]
        while True:
            nx = [w for w in adj[path[-1]] if w in comp]
            w = nx[0]
            for cand in nx:
                if cand == path[0] and len(path) > 1:
                    w = cand
            if w in path:
                res.append(path[path.index(w):])
                break
            path.append(w)
    return res


def wait_object(f, n):
    o = f.nodes[f.strip(n["obj"])]
    if o["k"] == "MemberExpr":
        return o.get("q")
    if o["k"] == "DeclRefExpr":
        return "local:%s" % o.get("d")
    return None


def waits(P, rep, L, O):
    wclass = "hgdb::RuntimeLock"
    P.record(wclass)
    waits, notifies = defaultdict(list), defaultdict(set)
    for f in P.funcs.values():
        if not f.blocks:
            continue
        for i in f.where:
            n = f.nodes[i]
            if n["k"] == "CXXMemberCallExpr" and n.get("q", "") == wclass + "::wait":
                waits[wait_object(f, n)].append((f, i))
            elif n["k"] == "CXXMemberCallExpr" and n.get("q", "") == wclass + "::ready":
                notifies[wait_object(f, n)].add(f.key)
    rep.count("wait objects", len(waits))
    rep.need("wait objects", 2)
    rev = defaultdict(set)
    for k, es in O.edges.items():
        for _, t in es:
            rev[t].add(k)
    for k, fl in L.sites.items():
        pass

    def up(keys):
        seen, st = set(), list(keys)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(rev.get(x, ()))
            f = P.funcs[x]
        return seen
    for w, sites in waits.items():
        if not notifies.get(w):
            f, i = sites[0]
            rep.bad(f.loc(i), "no-wait-under-lock", "nothing ever wakes the wait in %s" % f.q,
                    key="never-woken|" + f.q)
            continue
        need = set()
        above = up(notifies[w])
        for k in above:
            if k in L.roots or P.funcs[k].is_lambda or not rev.get(k):
                need |= O.acq.get(k, set())
        # every function from which the wait is reached, with the locks held at the call
        wk = {f.key for f, _ in sites}
        reach = up(wk)
        for f, i in sites:
            held = L.local_may_at(f, i) or ()
            report_wait(rep, f, i, held, need, L, None)
        for k in reach:
            f = P.funcs[k]
            for i, t in O.edges.get(k, []):
                if t in reach:
                    held = L.local_may_at(f, i) or ()
                    report_wait(rep, f, i, held, need, L, P.funcs[t].q)
    # joins: the joined thread must not need a lock that is held
    bodies = thread_lambdas(P)
    need = set()
    for k in bodies:
        need |= O.acq.get(k, set())
    nj = 0
    for k, bl in O.block.items():
        f = P.funcs[k]
        for i, what, own in bl:
            if "joins" in what:
                nj += 1
                held = (L.local_may_at(f, i) or frozenset()) | L.entry_may.get(k, frozenset())
                report_wait(rep, f, i, held, need, L, None, "joins a thread")
            elif "sleep" not in what:
                held = (L.local_may_at(f, i) or frozenset()) - own
                rep.check(not held, f.loc(i), "no-wait-under-lock",
                          "%s in %s while %s is held" % (
                              what, f.q, ", ".join(x.split("::")[-1] for x in held)),
                          key="wait|%s" % f.q)
    rep.count("joins", nj)


def report_wait(rep, f, i, held, need, L, via, what="waits"):
    for h in held:
        rep.check(h not in need, f.loc(i), "no-wait-under-lock",
                  "%s %s%s while it may hold %s, which the thread that has to wake it also takes"
                  % (f.q, what, " through " + via if via else "", h.split("::")[-1]),
                  key="wait-under-lock|%s|%s" % (f.q, h))
    if not held:
        rep.ok()


run_c07 = run_guarded("C07")
run_c08 = run_guarded("C08")
run_c09 = run_guarded("C09")
