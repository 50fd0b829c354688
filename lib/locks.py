"""Lockset analysis: which mutexes are certainly / possibly held at each expression, which functions
acquire what, and the resulting guarded-by, lock-order and blocking-while-locked rules."""
import re
from collections import defaultdict

from extract import AnalysisBroken
from ir import CALLS, CTORS, pp, rel

GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
MUTEX = re.compile(r"^(const )?std::(recursive_|timed_|shared_|recursive_timed_|shared_timed_)?mutex\b")
NOW_ALGOS = {"for_each", "any_of", "all_of", "none_of", "find_if", "sort", "stable_sort",
             "transform", "count_if", "remove_if", "copy_if", "accumulate", "find_if_not",
             "partition", "lower_bound", "upper_bound", "max_element", "min_element", "erase_if",
             "for_each_n", "generate", "invoke", "remove_copy_if", "nth_element", "call_once",
             "replace_if", "minmax_element", "partial_sort", "apply", "visit", "reduce"}


def is_guard_type(t):
    t = t[6:] if t.startswith("const ") else t
    return t.startswith(GUARDS)


def is_mutex_type(t):
    return bool(MUTEX.match(t))


class Locks:
    def __init__(self, P):
        self.P = P
        self.recursive = set()
        for r in P.records.values():
            for f in r["fields"]:
                if is_mutex_type(f["t"]) and "recursive" in f["t"]:
                    self.recursive.add(f["q"])
        self.lambda_var = {}     # var decl -> lambda key (per declaration)
        self.ret_lock = {}
        for f in P.funcs.values():
            for n in f.nodes:
                if n and n["k"] == "DeclStmt":
                    for v in n["vars"]:
                        if v["init"] is not None and v["init"] >= 0:
                            s = f.nodes[f.strip(v["init"])]
                            if s["k"] == "LambdaExpr":
                                self.lambda_var[v["d"]] = s["lam"]
        for f in P.funcs.values():
            if is_guard_type(f.rt):
                self.ret_lock[f.key] = self._returned_mutexes(f)
        self.held = {}           # key -> {node: must-held frozenset (relative to entry)}
        self.may = {}
        for f in P.funcs.values():
            if f.blocks:
                self._intra(f)
        self.sites = defaultdict(list)   # callee key -> [(caller, node)]
        self.roots = set()
        self._callsites()
        self.entry = {}
        self._entry_fix()
        self.entry_may = {}
        self._entry_may_fix()

    # ---- recognising locks ----
    def mutex_of(self, f, i):
        i = f.strip(i)
        n = f.nodes[i]
        if n["k"] == "MemberExpr" and (n.get("field") or "d" in n):
            return n["q"]
        if n["k"] == "DeclRefExpr":
            if n.get("dk") == "global" or n.get("q"):
                return n.get("q") or n["n"]
            return "local:%s:%s" % (f.q, n["n"])
        if n["k"] == "UnaryOperator" and n["op"] in ("*", "&"):
            return self.mutex_of(f, n["c"][0])
        if n["k"] in CALLS and n.get("fn"):
            # accessor returning the mutex by reference
            for t in self.P.targets(n["fn"], n.get("virt", False)):
                for m in t.nodes:
                    if m and m["k"] == "ReturnStmt" and m.get("c"):
                        r = self.mutex_of(t, m["c"][0])
                        if r:
                            return r
        return None

    def _guard_mutexes(self, f, init):
        """(mutexes, deferred) a guard initialised by node `init` holds"""
        i = f.strip(init)
        n = f.nodes[i]
        if n["k"] == "InitListExpr" and n.get("c"):
            n = f.nodes[f.strip(n["c"][0])] if len(n["c"]) == 1 else n
        if n["k"] in CTORS:
            res, deferred = [], False
            for a in n.get("args", []):
                t = f.nodes[a].get("t", "")
                if "defer_lock_t" in t:
                    deferred = True
                    continue
                if "try_to_lock_t" in t:
                    deferred = True
                    continue
                if "adopt_lock_t" in t:
                    continue
                m = self.mutex_of(f, a)
                if m:
                    res.append(m)
            return res, deferred
        if n["k"] in CALLS and n.get("fn") in self.ret_lock:
            return self.ret_lock[n["fn"]], False
        if n["k"] in CALLS and n.get("fn"):
            for t in self.P.targets(n["fn"], n.get("virt", False)):
                if is_guard_type(t.rt):
                    return self._returned_mutexes(t), False
        return [], False

    def _returned_mutexes(self, f):
        res = []
        for n in f.nodes:
            if not n:
                continue
            if n["k"] in CTORS and str(n.get("cls", "")).startswith(GUARDS):
                for a in n.get("args", []):
                    m = self.mutex_of(f, a)
                    if m and not is_guard_type(f.nodes[a].get("t", "")):
                        res.append(m)
        return sorted(set(res))

    # ---- intraprocedural ----
    def _intra(self, f):
        bound = {}
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if is_guard_type(v["t"]) and v["init"] is not None and v["init"] >= 0:
                        bound[v["d"]] = self._guard_mutexes(f, v["init"])
        f._guards = bound
        for mode in ("must", "may"):
            inn = {f.entry: frozenset()}
            for d in f.try_dispatch.values():
                inn.setdefault(d, frozenset())
            work = [f.entry] + list(f.try_dispatch.values())
            at = {}
            rounds = 0
            while work:
                rounds += 1
                if rounds > 5000:
                    raise AnalysisBroken("lockset fixpoint in " + f.q)
                b = work.pop(0)
                st = inn[b]
                for e in f.blocks[b].els:
                    if isinstance(e, int):
                        at[e] = st
                    st = self._step(f, e, st, bound)
                at[("end", b)] = st
                for s in f._succ(b):
                    if s not in inn:
                        inn[s] = st
                        work.append(s)
                    else:
                        m = (inn[s] & st) if mode == "must" else (inn[s] | st)
                        if m != inn[s]:
                            inn[s] = m
                            work.append(s)
            (self.held if mode == "must" else self.may)[f.key] = at

    def _step(self, f, e, st, bound):
        if isinstance(e, dict):
            if e.get("k") == "dtor" and "d" in e:
                return frozenset(x for x in st if x[1] != e["d"])
            return st
        n = f.nodes[e]
        if n["k"] == "DeclStmt":
            for v in n["vars"]:
                if v["d"] in bound:
                    ms, deferred = bound[v["d"]]
                    if not deferred:
                        st = st | {(m, v["d"]) for m in ms}
            return st
        if n["k"] == "CXXMemberCallExpr":
            nm = n.get("q", "").split("::")[-1]
            if nm in ("lock", "unlock", "lock_shared", "unlock_shared", "release"):
                o = f.nodes[f.strip(n["obj"])]
                if o["k"] == "DeclRefExpr" and o.get("d") in bound:
                    ms, _ = bound[o["d"]]
                    if nm.startswith("lock"):
                        return st | {(m, o["d"]) for m in ms}
                    return frozenset(x for x in st if x[1] != o["d"])
                if is_mutex_type(f.nodes[f.strip(n["obj"])].get("t", "")):
                    m = self.mutex_of(f, n["obj"])
                    if m:
                        if nm.startswith("lock"):
                            return st | {(m, "manual")}
                        return frozenset(x for x in st if not (x[0] == m and x[1] == "manual"))
        return st

    # ---- call sites ----
    def _callsites(self):
        P = self.P
        lam_uses = defaultdict(list)     # lambda key -> [(f, node)] where its body may run now
        lam_escape = set()
        lam_all = {}
        for f in P.funcs.values():
            if not f.blocks:
                continue
            parents = f.parents()
            for i, n in enumerate(f.nodes):
                if not n:
                    continue
                if n["k"] in CALLS or n["k"] in CTORS:
                    k = n.get("fn")
                    if k:
                        for t in P.targets(k, n.get("virt", False)):
                            self.sites[t.key].append((f, i))
                elif n["k"] == "DeclRefExpr" and n.get("dk") == "fn":
                    # address taken (not the callee of a direct call)
                    if not self._is_callee(f, i, parents):
                        for t in P.targets(n["fn"], False):
                            self.roots.add(t.key)
                if n["k"] == "LambdaExpr":
                    lam_all[n["lam"]] = f
                    self._use(f, i, n["lam"], parents, lam_uses, lam_escape, True)
                elif n["k"] == "DeclRefExpr" and n.get("d") in self.lambda_var:
                    self._use(f, i, self.lambda_var[n["d"]], parents, lam_uses, lam_escape, False)
        self.lam_escape = lam_escape
        for lam in lam_all:
            for t in P.lambda_bodies(lam):
                if lam in lam_escape or not lam_uses.get(lam):
                    self.roots.add(t.key)
                for s in lam_uses.get(lam, []):
                    self.sites[t.key].append(s)
        for f in P.funcs.values():
            if not self.sites.get(f.key):
                self.roots.add(f.key)
        # functions run by the outside: main entry points of the class interfaces used by the
        # simulator bindings and tests keep their in-tree contexts only

    def _is_callee(self, f, i, parents):
        st = [i]
        while st:
            x = st.pop()
            for p in parents.get(x, []):
                n = f.nodes[p]
                if n["k"] in CALLS:
                    args = n.get("args", [])
                    return x not in args
                if n["k"] in ("ImplicitCastExpr", "ParenExpr"):
                    st.append(p)
        return False

    def _use(self, f, i, lam, parents, uses, escape, is_expr):
        x = i
        while True:
            ps = parents.get(x, [])
            if not ps:
                return
            p = ps[0]
            n = f.nodes[p]
            if n["k"] in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr",
                          "ExprWithCleanups", "CXXBindTemporaryExpr", "CXXFunctionalCastExpr"):
                x = p
                continue
            if n["k"] in CTORS and (n.get("copy") or n.get("move")):
                x = p
                continue
            if n["k"] == "DeclStmt":
                return            # uses of the variable decide
            if n["k"] == "CXXOperatorCallExpr" and n["op"] == "()" and n["args"] and \
                    f.strip(n["args"][0]) == f.strip(x):
                uses[lam].append((f, p))
                return
            if n["k"] == "MemberExpr":
                x = p
                continue
            if n["k"] in CALLS:
                q = n.get("q", "")
                if q.startswith("std::") and q.split("::")[-1] in NOW_ALGOS:
                    uses[lam].append((f, p))
                    return
                # condition variable predicate runs with the lock held
                if q.startswith("std::condition_variable"):
                    uses[lam].append((f, p))
                    return
                if q in ("std::move", "std::forward"):
                    x = p
                    continue
            if n["k"] == "LambdaExpr":
                return
            escape.add(lam)
            return

    def at(self, f, i):
        h = self.held.get(f.key, {})
        return h.get(i)

    def _names(self, st):
        return frozenset(x[0] for x in st)

    def _entry_fix(self):
        """greatest fixpoint: locks certainly held when a function is entered"""
        ALL = None
        ent = {k: (frozenset() if k in self.roots else ALL) for k in self.P.funcs}
        changed = True
        while changed:
            changed = False
            for k in ent:
                if k in self.roots:
                    continue
                acc = ALL
                for f, i in self.sites.get(k, []):
                    if f.ctor and f.cls == self.P.funcs[k].cls and \
                            not self.P.funcs[k].is_lambda:
                        continue          # object not shared yet
                    if ent[f.key] is ALL and f.key not in self.roots:
                        if f.key == k:
                            continue
                        continue
                    loc = self.at(f, i)
                    if loc is None:
                        continue          # not evaluated
                    h = self._names(loc) | ent[f.key]
                    acc = h if acc is ALL else acc & h
                if acc is not ALL and acc != ent[k]:
                    if ent[k] is ALL or not (ent[k] <= acc):
                        ent[k] = acc if ent[k] is ALL else ent[k] & acc
                        changed = True
        self.entry = {k: (v if v is not None else frozenset()) for k, v in ent.items()}
        self.unreached = {k for k, v in ent.items() if v is None}

    def _entry_may_fix(self):
        ent = {k: frozenset() for k in self.P.funcs}
        changed = True
        while changed:
            changed = False
            for k in ent:
                acc = ent[k]
                for f, i in self.sites.get(k, []):
                    loc = self.may.get(f.key, {}).get(i)
                    if loc is None:
                        continue
                    acc = acc | self._names(loc) | ent[f.key]
                if acc != ent[k]:
                    ent[k] = acc
                    changed = True
        self.entry_may = ent

    def must_at(self, f, i):
        loc = self.at(f, i)
        if loc is None:
            return None
        return self._names(loc) | self.entry[f.key]

    def local_may_at(self, f, i):
        loc = self.may.get(f.key, {}).get(i)
        return None if loc is None else self._names(loc)

    # ---- acquisitions ----
    def acquisitions(self, f):
        """[(node, mutex)] taken directly in f"""
        res = []
        for b in f.rpo():
            for e in f.blocks[b].els:
                if not isinstance(e, int):
                    continue
                n = f.nodes[e]
                before = self._names(self.may[f.key][e])
                after = self._names(self._step(f, e, self.may[f.key][e], f._guards))
                if n["k"] == "DeclStmt":
                    for v in n["vars"]:
                        if v["d"] in f._guards and not f._guards[v["d"]][1]:
                            for m in f._guards[v["d"]][0]:
                                res.append((e, m))
                else:
                    for m in after - before:
                        res.append((e, m))
        return res


def resolve_field(P, cls, field, typ=None):
    """The field by name, or - if it was renamed - the only field of that class with its type."""
    rec = P.records.get(cls)
    if rec is None:
        raise AnalysisBroken("anchor not found: class " + cls)
    for f in rec["fields"]:
        if f["q"] == cls + "::" + field:
            return f["q"]
    if typ:
        c = [f["q"] for f in rec["fields"] if re.search(typ, f["t"])]
        if len(c) == 1:
            return c[0]
    raise AnalysisBroken("anchor not found: field %s::%s" % (cls, field))


def guarded_by(P, rep, L, field, mutex, cls, rule, what):
    """Every access to `field` outside construction/destruction happens with `mutex` held."""
    n_acc = 0
    for f in P.funcs.values():
        if not f.blocks:
            continue
        top = f
        if f.cls == cls and (f.ctor or f.dtor) and not f.is_lambda:
            continue
        aliases = alias_vars(f, field)
        for i in f.where:
            n = f.nodes[i]
            hit = None
            if n["k"] == "MemberExpr" and n.get("q") == field:
                hit = n["n"]
            elif n["k"] == "DeclRefExpr" and n.get("q") == field:
                hit = n["n"]
            elif n["k"] == "DeclRefExpr" and n.get("d") in aliases:
                hit = n["n"] + " (into %s)" % field.split("::")[-1]
            if hit is None:
                continue
            if f.key in L.unreached and f.cls == cls and not f.is_lambda and \
                    only_from_ctor(P, L, f):
                continue
            h = L.must_at(f, i)
            if h is None:
                continue
            n_acc += 1
            rep.check(mutex in h, f.loc(i), rule,
                      "%s is used in %s without holding %s (%s)" % (
                          hit, f.q, mutex.split("::")[-1], what),
                      key="%s|%s|%s" % (rule, field, f.q))
    return n_acc


def only_from_ctor(P, L, f):
    return all(c.ctor for c, _ in L.sites.get(f.key, [])) and L.sites.get(f.key)


def alias_vars(f, field):
    """local references/iterators obtained from the field in this function"""
    cache = getattr(f, "_alias", None)
    if cache is None:
        cache = f._alias = {}
    if field in cache:
        return cache[field]
    res = set()
    changed = True
    while changed:
        changed = False
        for n in f.nodes:
            if not n or n["k"] != "DeclStmt":
                continue
            for v in n["vars"]:
                if v["d"] in res or v["init"] is None or v["init"] < 0:
                    continue
                t = v["t"]
                it = "iterator" in t
                if not (v["ref"] or it or t.endswith("*") and "unique_ptr" in t):
                    continue
                if _roots_in(f, v["init"], field, res, it):
                    res.add(v["d"])
                    for b in v.get("bind", []):
                        res.add(b["d"])
                    changed = True
    cache[field] = res
    return res


def _roots_in(f, i, field, res, it):
    while True:
        i = f.strip(i)
        if i is None or i < 0:
            return False
        n = f.nodes[i]
        k = n["k"]
        if k == "MemberExpr":
            if n.get("q") == field:
                return True
            if not n.get("c"):
                return False
            i = n["c"][0]
        elif k == "DeclRefExpr":
            return n.get("d") in res
        elif k == "CXXMemberCallExpr":
            nm = n.get("q", "").split("::")[-1]
            if nm in ("begin", "end", "find", "at", "front", "back", "cbegin", "cend", "operator[]",
                      "emplace_back", "second", "lower_bound", "insert", "emplace"):
                i = n["obj"]
            else:
                return False
        elif k == "CXXOperatorCallExpr" and n["op"] in ("[]", "*", "->"):
            if n["op"] == "->" and "unique_ptr" in f.nodes[f.strip(n["args"][0])].get("t", ""):
                return False
            i = n["args"][0]
        elif k == "CallExpr" and n.get("q", "").startswith("std::find") and n.get("args") and it:
            i = n["args"][0]
        elif k == "UnaryOperator" and n["op"] in ("*", "&"):
            i = n["c"][0]
        else:
            return False


# ---------------------------------------------------------------- lock order / blocking
def function_field_targets(P):
    """std::function-like field -> bodies that may be stored in it (via setters or directly)."""
    res = defaultdict(set)
    stores = []   # (f, field, rhs node)
    for f in P.funcs.values():
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            lhs = rhs = None
            if n["k"] == "CXXOperatorCallExpr" and n["op"] == "=" and len(n["args"]) == 2:
                lhs, rhs = n["args"]
            elif n["k"] == "BinaryOperator" and n["op"] == "=":
                lhs, rhs = n["c"]
            if lhs is None:
                continue
            ln = f.nodes[f.strip(lhs)]
            if ln["k"] == "MemberExpr" and ln.get("field") and "function<" in ln.get("t", ""):
                stores.append((f, ln["q"], rhs))
    sites = defaultdict(list)
    for f in P.funcs.values():
        for i, n in enumerate(f.nodes):
            if n and n["k"] in CALLS and n.get("fn"):
                for t in P.targets(n["fn"], n.get("virt", False)):
                    sites[t.key].append((f, i))
    lamvar = {}
    for f in P.funcs.values():
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if v["init"] is not None and v["init"] >= 0:
                        s = f.nodes[f.strip(v["init"])]
                        if s["k"] == "LambdaExpr":
                            lamvar[v["d"]] = s["lam"]

    def bodies(f, i, depth=0):
        out = set()
        i = f.strip(i)
        n = f.nodes[i]
        while n["k"] in CTORS and len(n.get("args", [])) >= 1:
            i = f.strip(n["args"][0])
            n = f.nodes[i]
        if n["k"] == "CallExpr" and n.get("q") in ("std::move", "std::forward", "std::ref"):
            return bodies(f, n["args"][0], depth)
        if n["k"] == "LambdaExpr":
            for t in P.lambda_bodies(n["lam"]):
                out.add(t.key)
        elif n["k"] == "DeclRefExpr":
            if n.get("dk") == "fn":
                for t in P.targets(n["fn"], False):
                    out.add(t.key)
            elif n.get("d") in lamvar:
                for t in P.lambda_bodies(lamvar[n["d"]]):
                    out.add(t.key)
            elif depth < 4:
                for pi, p in enumerate(f.params):
                    if p["d"] == n.get("d"):
                        for g, j in sites.get(f.key, []):
                            a = g.nodes[j].get("args", [])
                            if g.nodes[j]["k"] == "CXXOperatorCallExpr" and g.nodes[j].get("mem"):
                                a = a[1:]
                            if pi < len(a):
                                out |= bodies(g, a[pi], depth + 1)
        return out

    for f, q, rhs in stores:
        res[q] |= bodies(f, rhs)
    return res


class Order:
    """Lock-order graph and operations performed while a lock may be held."""

    def __init__(self, P, L):
        self.P, self.L = P, L
        self.fields = function_field_targets(P)
        self.direct = {}
        self.block = {}
        self.edges = {}          # f -> [(node, callee key)]
        for f in P.funcs.values():
            if not f.blocks:
                continue
            self.direct[f.key] = L.acquisitions(f)
            self.block[f.key] = self._blocking(f)
            self.edges[f.key] = self._calls(f)
        self.acq = self._closure({k: {m for _, m in v} for k, v in self.direct.items()})
        self.blk = self._closure({k: {w for _, w, _ in v} for k, v in self.block.items()})

    def _calls(self, f):
        res = []
        for i in f.where:
            n = f.nodes[i]
            if n["k"] in CALLS or n["k"] in CTORS:
                for t in self.P.targets(n.get("fn"), n.get("virt", False)):
                    res.append((i, t.key))
                if n["k"] == "CXXOperatorCallExpr" and n["op"] == "()" and n["args"]:
                    for q in self._fn_field(f, n["args"][0]):
                        for k in self.fields.get(q, ()):
                            res.append((i, k))
        for lk, sites in self._lam_sites().get(f.key, {}).items():
            for i in sites:
                res.append((i, lk))
        return res

    def _lam_sites(self):
        if not hasattr(self, "_ls"):
            self._ls = defaultdict(lambda: defaultdict(list))
            for k, ss in self.L.sites.items():
                if self.P.funcs[k].is_lambda:
                    for g, i in ss:
                        self._ls[g.key][k].append(i)
        return self._ls

    def _fn_field(self, f, i, depth=0):
        i = f.strip(i)
        n = f.nodes[i]
        if n["k"] == "MemberExpr" and n.get("field"):
            if "function<" in n.get("t", ""):
                return [n["q"]]
        if n["k"] in ("CXXOperatorCallExpr",) and n["op"] in ("*", "->"):
            return self._fn_field(f, n["args"][0])
        if n["k"] == "CXXMemberCallExpr" and n.get("q", "").endswith("::value"):
            return self._fn_field(f, n["obj"])
        if n["k"] == "UnaryOperator":
            return self._fn_field(f, n["c"][0])
        if n["k"] == "DeclRefExpr" and n.get("d") is not None and depth < 3:
            # local copy of a stored callback
            for m in f.nodes:
                if m and m["k"] == "DeclStmt":
                    for v in m["vars"]:
                        if v["d"] == n["d"] and v["init"] is not None and v["init"] >= 0:
                            return self._fn_field(f, v["init"], depth + 1)
        return []

    def _blocking(self, f):
        res = []
        for i in f.where:
            n = f.nodes[i]
            if n["k"] not in CALLS:
                continue
            q = n.get("q", "")
            nm = q.split("::")[-1]
            if q.startswith("std::condition_variable") and nm.startswith("wait"):
                own = set()
                for a in n.get("args", [])[:1]:
                    d = f.nodes[f.strip(a)].get("d")
                    if d in f._guards:
                        own = set(f._guards[d][0])
                res.append((i, "waits on a condition variable", frozenset(own)))
            elif q in ("std::thread::join", "std::jthread::join"):
                res.append((i, "joins a thread", frozenset()))
            elif q in ("std::future::get", "std::future::wait", "std::counting_semaphore::acquire",
                       "std::atomic::wait"):
                res.append((i, "waits (%s)" % nm, frozenset()))
            elif q.startswith("std::this_thread::sleep"):
                res.append((i, "sleeps", frozenset()))
        return res

    def _closure(self, base):
        res = {k: set(v) for k, v in base.items()}
        changed = True
        while changed:
            changed = False
            for k in res:
                for _, t in self.edges.get(k, []):
                    add = res.get(t, set()) - res[k]
                    if add:
                        res[k] |= add
                        changed = True
        return res

    def graph(self):
        """{(held, taken): [(f, node, via)]}"""
        g = defaultdict(list)
        for k, acqs in self.direct.items():
            f = self.P.funcs[k]
            for i, m in acqs:
                for h in self.L.local_may_at(f, i) or ():
                    g[(h, m)].append((f, i, None))
            for i, t in self.edges[k]:
                h = self.L.local_may_at(f, i)
                if not h:
                    continue
                for m in self.acq.get(t, ()):
                    for x in h:
                        g[(x, m)].append((f, i, self.P.funcs[t].q))
        return g

    def blocked(self):
        """[(held lock, f, node, what)]"""
        out = []
        for k, bl in self.block.items():
            f = self.P.funcs[k]
            for i, w, own in bl:
                for h in self.L.local_may_at(f, i) or ():
                    if h not in own:
                        out.append((h, f, i, w, None))
            for i, t in self.edges[k]:
                h = self.L.local_may_at(f, i)
                if not h:
                    continue
                for w in self.blk.get(t, ()):
                    for x in h:
                        out.append((x, f, i, w, self.P.funcs[t].q))
        return out
