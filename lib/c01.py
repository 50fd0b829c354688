"""C01/C02: one response per request; addressed to the requester, carrying its token."""
from dbg import (DEBUGGER, always_set_fields, class_type_const, debugger_state, request_classes)
from engine import Client, Interp, NULL, State, subterms
from extract import AnalysisBroken
from ir import pp, rel

SEND = "hgdb::DebugServer::send"


class RespClient(Client):
    max_disjuncts = 40
    max_depth = 10

    def __init__(self, P, rep, conn, mode):
        self.P = P
        self.rep = rep
        self.conn = conn          # term of the requester's connection id
        self.mode = mode
        self.sends = set()
        self.bad_addr = []
        self.relevant = self._relevant()
        self.impossible = []

    def _relevant(self):
        """functions from which a send is reachable, plus small pure ones (guards)."""
        rev = {}
        for f in self.P.funcs.values():
            for i, t, k in self.P.callees(f):
                if k == "call":
                    rev.setdefault(t.key, set()).add(f.key)
        seeds = [f.key for f in self.P.fns(SEND)]
        if not seeds:
            raise AnalysisBroken("anchor not found: " + SEND)
        seen = set()
        st = list(seeds)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(rev.get(x, ()))
        return seen

    def follow(self, I, st, callee, depth):
        if callee.key in self.relevant:
            return True
        return len(callee.nodes) < 60 and not callee.ctor

    def join_key(self, st):
        return st.auto

    def on_call(self, I, st, f, node, n, obj, args):
        q = n.get("q", "")
        if q == SEND:
            pts = n.get("pt", [])
            if len(pts) == 2 and "string" not in pts[1]:
                a = I._rv(st, args[1])
                self.sends.add((f.key, node))
                if a == self.conn:
                    cnt, last = st.auto
                    st.auto = (min(cnt + 1, 2), (f.key, node))
                else:
                    self.bad_addr.append((f, node, a, [x.q for x in I.stack]))
            return [(st, ("void",))]
        if q.endswith("::type") and n.get("cls", "") in self.P.derived_of("hgdb::Request"):
            t = ("p", "type", obj)
            for c in self.impossible:
                if not st.assume(("eq", t, c), False):
                    return []
            return [(st, t)]
        if q.endswith("::status") and n.get("cls", "") in self.P.derived_of("hgdb::Request"):
            return [(st, ("p", "status", ("req",)))]
        return None


def run_count(P, rep, tier):
    rep.rule("one-response", "on every CFG path through the message entry point, including all "
             "request handlers and helpers it calls, the number of sends addressed to the "
             "requesting connection is exactly one at the exit")
    root = P.fn(DEBUGGER + "::on_message")
    conn = ("v", root.params[1]["d"])
    cl = RespClient(P, rep, conn, "count")
    # request types the parser can never hand over with a success status
    classes = request_classes(P)
    made = set()
    for c, sites in classes.items():
        t = class_type_const(P, c)
        if t is None:
            raise AnalysisBroken("cannot determine type() of " + c)
        if always_error(P, c):
            continue
        made.add(t)
    enum = P.enum("hgdb::RequestType")
    for e in enum["c"]:
        t = ("e", "hgdb::RequestType", e["v"])
        if t not in made:
            cl.impossible.append(t)
    rep.count("request_types", len(enum["c"]))
    rep.count("request_types_produced_by_parser", len(made))
    I = Interp(P, cl)
    st = debugger_state(P, root, auto=(0, None))
    exits = I.run(root, st)
    for s, v in exits:
        cnt, last = s.auto
        facts = sorted("%s=%s" % (show(t), b) for t, b in s.facts.items() if relevant_fact(t))[:6]
        if cnt == 1:
            rep.ok()
            if len(rep.samples) < 8 and last:
                rep.samples.append("path ending after the single send at %s" %
                                   P.funcs[last[0]].loc(last[1]))
        elif cnt == 0:
            tys = [t for t, b in s.facts.items() if b and t[0] == "eq" and t[2][0] == "e" and
                   t[2][1] == "hgdb::RequestType"]
            ty = enum_name(P, tys[0][2]) if tys else "?"
            rep.bad(root.loc(), "one-response",
                    "a path through %s for request type '%s' reaches the end without any response "
                    "(conditions: %s)" % (root.q, ty, "; ".join(facts)),
                    key="one-response|none|" + ty)
        else:
            f = P.funcs[last[0]]
            rep.bad(f.loc(last[1]), "one-response",
                    "a path through %s sends a second response at %s in %s" % (
                        root.q, f.loc(last[1]), f.q), key="one-response|twice|" + f.q)
    rep.count("paths_at_exit", len(exits))
    rep.count("send_sites", len(cl.sends))
    rep.count("functions_followed", len(I.analysed))
    rep.need("functions_followed", 14)
    rep.need("request_types_produced_by_parser", 10)


def relevant_fact(t):
    return True


def enum_name(P, c):
    e = P.enums.get(c[1])
    for x in e["c"]:
        if x["v"] == c[2]:
            return x["n"]
    return str(c[2])


def show(t):
    if t[0] == "f":
        return t[2].split("::")[-1] if isinstance(t[2], str) else str(t[2])
    if t[0] in ("c",):
        return str(t[1])
    if t[0] == "e":
        return "%s#%s" % (t[1].split("::")[-1], t[2])
    if t[0] == "call":
        return "call"
    if t[0] == "v":
        return "v%s" % t[1]
    return "%s(%s)" % (t[0], ",".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def always_error(P, cls):
    """every constructor of cls leaves the status at error and nothing resets it in the parser"""
    ctors = [f for f in P.funcs.values() if f.cls == cls and f.ctor and f.blocks]
    if not ctors:
        return False
    for c in ctors:
        cl = Client()
        it = Interp(P, cl)
        obj = ("obj", cls)
        outs = it.run(c, State(env={"this": ("addr", obj)}))
        for s, _ in outs:
            v = s.load(("f", obj, "hgdb::Request::status_code_"))
            if v[0] != "e" or enum_name(P, v) != "error":
                return False
    return True


if __name__ == "__main__":
    import sys
    import report
    sys.exit(report.main("C01", run_count))
