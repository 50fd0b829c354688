"""Runs the message entry point for one kind of request and records, along every path, the calls
that cross a component boundary (events), how each of them ended, and the responses sent."""
from dbg import DEBUGGER, class_type_const, debugger_state, request_classes
from engine import Client, Interp, NULL, State, TRUE, FALSE, subterms, is_const
from extract import AnalysisBroken
from ir import rel

SEND = "hgdb::DebugServer::send"
REQ = ("req",)                  # what Request::parse_request returned


def frozen(t):
    """the value of a term at this moment: later writes to the fields it was read from do not
    change it"""
    if t[0] == "f" and len(t) == 3:
        return ("was", frozen(t[1]), t[2])
    return tuple(frozen(x) if isinstance(x, tuple) and x else x for x in t)


def step_iterator(I, st, f, node, n, obj, args):
    """begin()/++ on iterators: an iterator over a container denotes an arbitrary element of it"""
    q = n.get("q", "")
    nm = q.split("::")[-1].split("<")[0]
    if nm in ("begin", "cbegin") and q.startswith(("std::", "__gnu")):
        c = obj if obj is not None else (args[0] if args else None)
        if c is not None:
            v = ("it", I._rv(st, c))
            st.kill(lambda sub: v in sub)
            st.facts[("first", v)] = True
            return [(st, v)]
    if nm == "operator++" and (obj is not None or args):
        o = obj if obj is not None else args[0]
        v = I._rv(st, o)
        if v[0] == "it":
            env = dict(st.env)
            st.kill(lambda sub: v in sub)
            for d, x in env.items():
                if x == v:
                    st.env[d] = x
            return [(st, o)]
    return None


def exhausted(f, blk):
    """the branch ending this block compares an index or iterator with the end of a container"""
    if not blk.term or blk.term.get("cond") is None:
        return False
    c = f.strip(blk.term["cond"])
    n = f.nodes[c]
    while n["k"] == "BinaryOperator" and n["op"] in ("&&", "||"):
        c = f.strip(n["c"][1])
        n = f.nodes[c]
    if n.get("op") not in ("<", "!=", ">", "<=", ">="):
        return False
    return any(f.nodes[x] and (f.nodes[x].get("q", "").split("::")[-1] in (
        "size", "end", "cend", "Size", "End", "MemberEnd")) for x in f.subtree(c))


class LoopClient(Client):
    """Keeps, per active loop, the events since the current iteration began."""

    # st.auto = (events tuple, loops tuple of (loop id, frozenset), iteration set)
    def ev(self, st, e):
        evs, loops, iters = st.auto
        evs = tuple(x for x in evs if x != e) + (e,)
        if loops:
            loops = tuple((l, s | {e[0]}) for l, s in loops)
        st.auto = (evs, loops, iters)

    def on_edge(self, I, st, f, b, succ):
        lp = f.loops()
        if not lp:
            return
        evs, loops, iters = st.auto
        for head, body in lp.items():
            lid = (f.key, head)
            cur = dict(loops)
            if succ == head and b in body:
                # an iteration ended
                if lid in cur:
                    iters = iters | {(lid, cur[lid], "next")}
                    loops = tuple((l, s) if l != lid else (l, frozenset()) for l, s in loops)
            elif succ == head and lid not in cur:
                loops = loops + ((lid, frozenset()),)
            elif lid in cur and b in body and succ not in body:
                if b != head and not (not cur[lid] and exhausted(f, f.blocks[b])):
                    iters = iters | {(lid, cur[lid], "left")}
                loops = tuple((l, s) for l, s in loops if l != lid)
        st.auto = (evs, loops, iters)

    def on_algorithm(self, I, st, what, lid):
        evs, loops, iters = st.auto
        if what == "enter":
            loops = loops + ((lid, frozenset()),)
        else:
            iters = iters | {(lid, dict(loops).get(lid, frozenset()), what)}
            loops = tuple(x for x in loops if x[0] != lid)
        st.auto = (evs, loops, iters)

    def empty_auto(self):
        return ((), (), frozenset())


class HandlerClient(LoopClient):
    watch_terms = ()
    max_disjuncts = 40
    max_depth = 12
    follow_ctors = True

    def __init__(self, P, conn, rtype, sub, boundary, status_ok=True, query=None):
        self.query = query or (lambda q, n: None)   # calls whose result is a function of their
        # arguments, as long as nothing is changed
        self.P = P
        self.conn = conn
        self.rtype = rtype
        self.sub = sub                # [(field qualified name, constant)]
        self.boundary = boundary      # f(q, node, n) -> event name or None
        self.status_ok = status_ok
        self.req_classes = P.derived_of("hgdb::Request")
        self.resp_classes = P.derived_of("hgdb::Response")
        self.relevant = None
        self.sends = {}               # (fkey, node) -> list

    # -- which functions to look into: those that can reach an event, and small ones
    def _relevant(self):
        if self.relevant is None:
            rev = {}
            seeds = set()
            for f in self.P.funcs.values():
                for i, n in enumerate(f.nodes):
                    if n and n["k"] in ("CXXMemberCallExpr", "CallExpr"):
                        if n.get("q") == SEND or self.boundary(n.get("q", ""), n):
                            seeds.add(f.key)
                for i, t, k in self.P.callees(f):
                    if k == "call" or k == "lam":
                        rev.setdefault(t.key, set()).add(f.key)
            seen = set()
            work = list(seeds)
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work.extend(rev.get(x, ()))
            self.relevant = seen
        return self.relevant

    def follow(self, I, st, callee, depth):
        if callee.key in self._relevant():
            return True
        if callee.ctor:
            return callee.cls in self.resp_classes and len(callee.nodes) < 80
        if len(callee.nodes) >= 60 or callee.loops():
            return False
        if callee.rt == "void" and not I.modset(callee):
            return False        # e.g. logging
        return True

    def dyncast(self, I, st, v, t):
        cls = t.rstrip("*& ").replace("const ", "").strip()
        if cls in self.req_classes and self.rtype is not None:
            return v if self.rtype_class(cls) else NULL
        return None

    def rtype_class(self, cls):
        c = class_type_const(self.P, cls)
        return c == self.rtype

    def on_call(self, I, st, f, node, n, obj, args):
        q = n.get("q", "")
        nm = q.split("::")[-1]
        cls = n.get("cls", "") or q.rsplit("::", 1)[0]
        if q == SEND:
            pts = n.get("pt", [])
            payload = I._rv(st, args[0])
            to = None
            if len(pts) == 2:
                to = I._rv(st, args[1])
            self.on_send(I, st, f, node, payload, to, pts)
            return [(st, ("void",))]
        if q == "hgdb::Request::parse_request":
            return [(st, REQ)]
        if cls in self.req_classes:
            if nm == "type":
                if obj == ("deref", REQ):
                    return [(st, self.rtype)]
                return None
            if nm == "status" and obj == ("deref", REQ):
                return [(st, ("e", "hgdb::status_code", 0 if self.status_ok else 1))]
        if cls in self.resp_classes and nm == "str":
            tok = st.load(("f", obj, "hgdb::Response::token_"))
            stt = st.load(("f", obj, "hgdb::Response::status_"))
            if tok == ("f", obj, "hgdb::Response::token_"):
                tok = None
            snap = frozenset((l[2], v) for l, v in st.store.items()
                             if l[0] == "f" and l[1] == obj)
            return [(st, ("payload", obj, tok or ("none",), stt,
                          self.object_class(obj, cls), snap))]
        if q == "hgdb::to_string" and args:
            v = I._rv(st, args[0])
            if v[0] == "e" and v[1] == "hgdb::RequestType":
                return [(st, type_name(self.P, v))]
        name = self.query(q, n)
        if name:
            return [(st, ("q", name) + tuple(frozen(I._rv(st, a)) for a in args))]
        r = step_iterator(I, st, f, node, n, obj, args)
        if r is not None:
            return r
        if nm == "empty" and obj is not None and not args:
            v = I._rv(st, obj)
            if v[0] == "q":
                return [(st, ("p", "empty", v))]
        name = self.boundary(q, n)
        if name:
            return self.on_event(I, st, f, node, n, name, obj, args)
        return None

    def object_class(self, obj, static):
        """the class of a response object"""
        if len(obj) == 3 and obj[0] == "obj":
            return self.P.funcs[obj[1]].nodes[obj[2]].get("cls", "") or static
        if obj[0] == "v":
            t = var_types(self.P).get(obj[1], "").replace("const ", "").strip("& ")
            if t in self.resp_classes:
                return t
        return static

    def on_event(self, I, st, f, node, n, name, obj, args):
        """one state in which the call reported success and one in which it did not, if it
        reports at all."""
        vals = tuple(I._rv(st, a) for a in args)
        rt = n.get("t", "void")
        # the callee may write its own component's fields only
        targets = self.P.targets(n.get("fn"), n.get("virt", False))
        for t in targets:
            m = I.modset(t)
            if m:
                # (the request is read-only)
                st.kill(lambda sub: any(x[0] == "f" and x[2] in m and REQ not in subterms(x)
                                        for x in sub if len(x) == 3))
        res = ("ev", name, f.key, node)
        st.kill(lambda sub: res in sub)
        where = f.loc(node)
        absent = frozenset(x for x in self.watch_terms if st.truth(x) is False)
        extra = (obj, absent)
        if rt == "void" or not fallible(rt):
            self.ev(st, (name, vals, None, where) + extra)
            return [(st, res if rt != "void" else ("void",))]
        s2 = st.copy()
        out = []
        st.facts[res] = True
        self.ev(st, (name, vals, True, where) + extra)
        out.append((st, TRUE if rt == "bool" else res))
        s2.facts[res] = False
        self.ev(s2, (name, vals, False, where) + extra)
        out.append((s2, FALSE if rt == "bool" else NULL))
        return out

    def on_send(self, I, st, f, node, payload, to, pts):
        e = ("send", payload, to if to is not None else (
            ("broadcast",) if len(pts) == 1 else ("topic",)), f.loc(node),
            tuple(x.q for x in I.stack))
        self.sends.setdefault((f.key, node), []).append(e)
        self.ev(st, e)

    def join_key(self, st):
        return st.auto


def var_types(P):
    """declared types of local variables"""
    r = getattr(P, "_var_types", None)
    if r is None:
        r = P._var_types = {v["d"]: v["t"] for f in P.funcs.values() for n in f.nodes
                            if n and n["k"] == "DeclStmt" for v in n["vars"]}
    return r


def fallible(rt):
    """types whose values say whether the call worked"""
    rt = rt.replace("const ", "").strip()
    return rt == "bool" or rt.endswith("*") or rt.startswith(
        ("std::optional<", "std::unique_ptr<", "std::shared_ptr<"))


def run_request(P, rtype, sub, boundary, status_ok=True, query=None,
                watch_terms=()):
    root = P.fn(DEBUGGER + "::on_message")
    conn = ("v", root.params[1]["d"])
    cl = HandlerClient(P, conn, rtype, sub, boundary, status_ok, query)
    cl.watch_terms = watch_terms
    I = Interp(P, cl)
    st = debugger_state(P, root, auto=cl.empty_auto())
    st.facts[REQ] = True
    for q, c in sub:
        loc = ("f", ("deref", REQ), q)
        st.store[loc] = c
    exits = I.run(root, st)
    return cl, I, root, exits


def producible_types(P):
    from c01 import always_error
    made = set()
    for c in request_classes(P):
        t = class_type_const(P, c)
        if t is None:
            raise AnalysisBroken("cannot determine type() of " + c)
        if not always_error(P, c):
            made.add(t)
    return sorted(made)


_names = {}


def type_name(P, rtype):
    """the keyword of a request type, as written in messages"""
    if rtype not in _names:
        fs = [f for f in P.fns("hgdb::to_string") if f.params and
              "RequestType" in f.params[0]["t"]]
        if not fs:
            raise AnalysisBroken("no to_string for request types")
        f = fs[0]
        outs = Interp(P, Client()).run(f, State(env={f.params[0]["d"]: rtype}))
        _names[rtype] = next(iter({v for _, v in outs}))
    return _names[rtype]
