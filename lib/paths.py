"""Which calls a function makes, in which order and with which values, along each of its paths."""
from engine import Client, Interp, NULL, State, TRUE, FALSE, subterms, is_const
from handlers import LoopClient, step_iterator


class Trace(LoopClient):
    max_disjuncts = 60
    max_depth = 8
    follow_ctors = True
    _key = _leave = None

    def __init__(self, P, watch, follow=None, value=None):
        self.P = P
        self.watch = watch        # f(q, n) -> event name or None
        self._follow = follow or (lambda t: t.q.startswith("hgdb::"))
        self._value = value       # f(name, I, st, f, node, n, obj, args) -> outcomes or None

    def follow(self, I, st, callee, depth):
        return self._follow(callee)

    def on_call(self, I, st, f, node, n, obj, args):
        r = step_iterator(I, st, f, node, n, obj, args)
        if r is not None:
            return r
        q = n.get("q", "")
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and \
                n.get("cls") == "std::pair" and len(args) == 2:
            return [(st, ("tuple",) + tuple(I._rv(st, a) for a in args))]
        if q.endswith("::operator=") and len(args) + (obj is not None) == 2:
            loc = obj if obj is not None else args[0]
            self.on_assign(I, st, f, node, loc, I._rv(st, args[-1]))
        name = self.watch(q, n)
        if name:
            vals = tuple(I._rv(st, a) for a in args)
            self.ev(st, (name, obj, vals, f.loc(node)))
            if self._value:
                return self._value(name, I, st, f, node, n, obj, args)
        return None

    def on_assign(self, I, st, f, node, loc, val):
        if self._assign:
            self._assign(I, st, f, node, loc, val)
        if loc[0] == "idx":
            # what a container holds under a key
            name = self.watch("operator[]=", f.nodes[node])
            if name:
                self.ev(st, (name, loc[1], (loc[2], val), f.loc(node)))

    def on_exit(self, I, st, f, val, depth):
        if self._leave:
            self._leave(I, st, f, val)

    def join_key(self, st):
        return (st.auto, self._key(st)) if self._key else st.auto


def run(P, f, watch, this=None, follow=None, value=None, facts=None, env=None, assign=None,
        frozen=(), store=None, key=None, leave=None):
    """[(state, return value, events)]"""
    State.frozen = frozenset(frozen)
    try:
        return _run(P, f, watch, this, follow, value, facts, env, assign, store, key, leave)
    finally:
        State.frozen = frozenset()


def _run(P, f, watch, this, follow, value, facts, env, assign, store=None, key=None, leave=None):
    cl = Trace(P, watch, follow, value)
    cl._assign = assign
    cl._key = key
    cl._leave = leave
    I = Interp(P, cl)
    e = {"this": ("addr", ("obj", this or f.cls))}
    e.update(env or {})
    st = State(env=e, auto=cl.empty_auto())
    st.facts.update(facts or {})
    st.store.update(store or {})
    return [(s, v, s.auto[0]) for s, v in I.run(f, st)]


def strip(t):
    """the object behind pointers, smart pointers and optionals"""
    while t[0] in ("deref", "some", "addr") or (t[0] == "p" and t[1] in ("get", "value") and
                                                len(t) == 3):
        t = t[1] if t[0] != "p" else t[2]
    return t


def lookup(t):
    """(container, key) if t is what a keyed container holds under a key; key ('*',) for an
    arbitrary element"""
    t = strip(t)
    if t[0] == "p" and t[1] in ("at", "operator[]") and len(t) >= 4:
        return t[2], t[3]
    if t[0] == "idx":
        return t[1], t[2]
    if t[0] == "f" and (t[2] == "#1" or t[2].endswith("::second")):
        x = strip(t[1])
        if x[0] == "p" and x[1] == "find" and len(x) >= 4:
            return x[2], x[3]
        if x[0] == "it":
            return x[1], ("*",)
        if x[0] == "f" and x[1] == ():
            return None
    if t[0] == "it":
        return t[1], ("*",)
    return None


def field_name(t):
    return t[2] if t[0] == "f" and len(t) == 3 and isinstance(t[2], str) else None
