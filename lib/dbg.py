"""Facts about the repository shared by several checks (anchors)."""
from engine import Client, Interp, State, TRUE, FALSE, NULL, subterms
from extract import AnalysisBroken

DEBUGGER = "hgdb::Debugger"


def always_set_fields(P, cls):
    """Pointer-like fields of cls that every constructor sets to a fresh object and that no other
    code writes: they are never null."""
    rec = P.record(cls)
    res = set()
    ctors = [f for f in P.funcs.values() if f.cls == cls and f.ctor]
    I = Interp(P, Client())
    for fd in rec["fields"]:
        t = fd["t"]
        if not (t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<") or
                t.endswith("*")):
            continue
        writers = []
        for f in P.funcs.values():
            if fd["q"] in I.local_mods(f):
                writers.append(f)
            elif f.ctor and f.cls == cls:
                for b in f.blocks.values():
                    for e in b.els:
                        if isinstance(e, dict) and e.get("field") == fd["q"]:
                            writers.append(f)
        if not writers or any(not (w.ctor and w.cls == cls) for w in writers):
            continue
        ok = True
        for c in ctors:
            # delegating constructors leave it to their target
            if any(isinstance(e, dict) and e.get("delegate") for b in c.blocks.values()
                   for e in b.els):
                continue
            cl = Client()
            it = Interp(P, cl)
            obj = ("obj", cls)
            st = State(env={"this": ("addr", obj)})
            exits = it.run(c, st)
            for s, _ in exits:
                if s.truth(s.load(("f", obj, fd["q"]))) is not True:
                    ok = False
        if ok and ctors:
            res.add(fd["q"])
    return res


def debugger_state(P, f, auto=None):
    obj = ("obj", DEBUGGER)
    st = State(env={"this": ("addr", obj)}, auto=auto)
    for q in always_set_fields(P, DEBUGGER):
        st.facts[("f", obj, q)] = True
    return st


def request_classes(P):
    """Concrete request classes that the message parser can produce -> (type constant, always an
    error)."""
    root = P.fn("hgdb::Request::parse_request")
    reach = P.reachable([root], follow=("call", "lam"))
    derived = P.derived_of("hgdb::Request")
    res = {}
    for k in reach:
        f = P.funcs[k]
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            cls = None
            if n["k"] == "CallExpr" and n.get("q") == "std::make_unique":
                t = n.get("t", "")
                for d in derived:
                    if t.startswith("std::unique_ptr<%s>" % d) or t == "std::unique_ptr<%s>" % d or \
                            t.startswith("std::unique_ptr<%s," % d):
                        cls = d
            elif n["k"] == "CXXNewExpr" and n.get("at") in derived:
                cls = n["at"]
            if cls:
                res.setdefault(cls, []).append((f, i))
    if len(res) < 5:
        raise AnalysisBroken("the request classes built by parse_request were not recognised")
    return res


def class_type_const(P, cls, method="type"):
    """constant returned by the (overridden) method of cls, or None."""
    for c in [cls] + sorted(P.bases_of(cls)):
        for f in P.fns(c + "::" + method):
            it = Interp(P, Client())
            outs = it.run(f, State(env={"this": ("addr", ("obj", cls))}))
            vals = {v for _, v in outs}
            if len(vals) == 1:
                return next(iter(vals))
    return None
