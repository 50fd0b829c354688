"""What the message parser does: which JSON member ends up in which field, which keyword selects
which constant, and when a message is refused."""
import re

from dbg import class_type_const, request_classes
from engine import Client, Interp, NULL, State, TRUE, FALSE, subterms, is_const
from extract import AnalysisBroken
from handlers import LoopClient

STATUS = "hgdb::Request::status_code_"
REASON = "hgdb::Request::error_reason_"
TOKEN = "hgdb::Request::token_"

KINDS = {"String": "string", "Bool": "bool", "Uint64": "uint64", "Uint": "uint32",
         "Int64": "int64", "Int": "int32", "Object": "object", "Array": "array",
         "Double": "double", "Float": "float", "Number": "number"}
USR = {"l": "uint64", "i": "uint32", "L": "int64", "I": "int32", "k": "uint64", "K": "int64",
       "b": "bool", "s": "uint16", "d": "double"}
WITHIN = {"uint32": {"uint64", "int64", "double", "number"}, "int32": {"int64", "double", "number"},
          "uint64": {"double", "number"}, "int64": {"double", "number"}}


def subsumes(have, want):
    """a value checked to be `have` may be read as `want`"""
    return have == want or want in WITHIN.get(have, ())


def json_kind(n):
    """(Is/Get, kind) of a rapidjson accessor call, or None."""
    q = n.get("q", "")
    if not q.startswith(("rapidjson::GenericValue", "rapidjson::GenericDocument")):
        return None
    nm = q.split("::")[-1].split("<")[0]
    for pre in ("Is", "Get"):
        if nm == pre:
            m = re.search(r"@F@%s<#(\w)" % pre, n.get("fn", ""))
            return (pre, USR.get(m.group(1), "other")) if m else (pre, "other")
        if nm.startswith(pre) and nm[len(pre):] in KINDS:
            return pre, KINDS[nm[len(pre):]]
    return None


INSERTS = ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_back", "push_back",
           "emplace_hint")


class ParseClient(LoopClient):
    max_disjuncts = 400
    max_depth = 10
    follow_ctors = True

    def __init__(self, on_access=None):
        self.on_access = on_access
        self.accesses = 0

    def follow(self, I, st, callee, depth):
        return True

    def on_edge(self, I, st, f, b, succ):
        for t, v in st.facts.items():
            if not v and t[0] == "p" and t[1].startswith("Is:") and elem_of(t[2]):
                e = ("mistyped", t[1][3:])
                if e not in st.auto[0]:
                    self.ev(st, e)
        LoopClient.on_edge(self, I, st, f, b, succ)

    def access(self, I, st, f, node, what, base, have):
        """one typed use of a JSON value: `have` tells whether its precondition is established"""
        self.accesses += 1
        if self.on_access:
            self.on_access(I, st, f, node, what, base, have)

    def _is(self, st, x, kind):
        for t, b in st.facts.items():
            if b and t[0] == "p" and t[1].startswith("Is:") and t[2] == x and \
                    subsumes(t[1][3:], kind):
                return True
        return False

    def on_call(self, I, st, f, node, n, obj, args):
        q = n.get("q", "")
        nm = q.split("::")[-1]
        if q.startswith("rapidjson::") and obj is not None:
            base = I._rv(st, obj)
            if nm == "operator[]":
                k = I._rv(st, args[0])
                if k[0] == "str":
                    ok = st.truth(("p", "HasMember", base, k)) is True
                    self.access(I, st, f, node, "member '%s'" % k[1], base, ok)
                else:
                    self.access(I, st, f, node, "element", base, self._is(st, base, "array"))
                return [(st, ("idx", base, k))]
            if nm in ("FindMember",):
                k = I._rv(st, args[0])
                self.access(I, st, f, node, "member table", base, self._is(st, base, "object"))
                return [(st, ("member_it", base, k))]
            if nm == "MemberEnd":
                return [(st, ("member_end", base))]
            if nm == "HasMember":
                self.access(I, st, f, node, "member table", base, self._is(st, base, "object"))
                return None
            ak = json_kind(n)
            if ak and not args:
                base = self.member_value(base)
                if ak[0] == "Is":
                    return self.is_kind(st, base, ak[1])
                t = ("p", "Get:" + ak[1], base)
                is_name = ak[1] == "string" and is_member_name(base)
                self.access(I, st, f, node, ak[1], base,
                            is_name or self._is(st, base, ak[1]))
                if ak[1] in ("object", "array"):
                    return [(st, t)]
                return [(st, t)]
        if nm in ("operator==", "operator!=") and len(args) + (obj is not None) == 2:
            vs = [I._rv(st, a) for a in ([obj] if obj is not None else []) + list(args)]
            if any(is_member_name(v) for v in vs):
                # either way, without remembering: the name of an arbitrary element
                return [(st, TRUE), (st.copy(), FALSE)]
            ks = {v[0] for v in vs}
            if ks == {"member_it", "member_end"}:
                it = [v for v in vs if v[0] == "member_it"][0]
                fact = ("p", "HasMember", it[1], it[2])
                out = []
                for b in (True, False):
                    s2 = st.copy()
                    if s2.assume(fact, b):
                        out.append((s2, TRUE if b == (nm == "operator!=") else FALSE))
                return out
        if q.startswith("fmt::") or nm in ("format",):
            return [(st, ("text", f.key, node) + tuple(
                I._rv(st, a) for a in args[:1] if I._rv(st, a)[0] == "str"))]
        if nm in INSERTS and obj is not None and (n.get("cls", "") or q).startswith("std::"):
            vals = tuple(I._rv(st, a) for a in args)
            elems = {elem_of(x) for v in vals for x in subterms(v)} - {None}
            if elems:
                self.ev(st, ("collect", obj, vals, f.loc(node)))
        return None

    def is_kind(self, st, base, kind):
        known = {}
        for t, b in st.facts.items():
            if t[0] == "p" and t[1].startswith("Is:") and t[2] == base:
                known[t[1][3:]] = b
        for k, b in known.items():
            if b and subsumes(k, kind):
                return [(st, TRUE)]
            if b and not comparable(k, kind):
                return [(st, FALSE)]
            if not b and subsumes(kind, k):
                return [(st, FALSE)]
        return [(st, ("p", "Is:" + kind, base))]

    def member_value(self, base):
        # it->value
        if base[0] == "f" and base[2].endswith("::value") and base[1][0] == "deref" and \
                base[1][1][0] == "member_it":
            it = base[1][1]
            return ("idx", it[1], it[2])
        return base


def comparable(a, b):
    num = {"uint64", "uint32", "int64", "int32", "double", "float", "number"}
    return a == b or (a in num and b in num)


def elem_of(t):
    """The collection a term was taken from while walking it, if it is (part of) an element."""
    if t[0] == "f" and t[1][0] == "deref" and (
            t[2] in ("#0", "#1") or t[2].endswith(("::name", "::value"))) and \
            t[1][1][0] != "member_it":
        return t[1]
    return None


def is_member_name(t):
    return t[0] == "f" and (t[2] == "#0" or t[2].endswith("::name"))


def members_of(t):
    """JSON member names a term was read from."""
    return {x[2][1] for x in subterms(t) if len(x) == 3 and x[0] == "idx" and x[2][0] == "str"}


def origin(v):
    """(member, kind) if the value is exactly one JSON member read as one kind"""
    while v[0] in ("some",):
        v = v[1]
    if v[0] == "p" and v[1].startswith("Get:") and v[2][0] == "idx" and v[2][2][0] == "str":
        return v[2][2][1], v[1][4:]
    return None


class Exit:
    def __init__(self, st, this):
        self.facts = st.facts
        self.st = st
        self.this = this

    def field(self, q):
        return self.st.load(("f", self.this, q))

    def raw(self, q):
        return self.st.store.get(("f", self.this, q))

    def error(self):
        v = self.field(STATUS)
        return v[0] == "e" and v[2] != 0

    def fields(self):
        """{(field path): value} written below this"""
        res = {}
        for l, v in self.st.store.items():
            path = []
            x = l
            while x[0] == "f" and x != self.this:
                path.append(x[2])
                x = x[1]
            if x == self.this and path:
                res[tuple(reversed(path))] = v
        return res

    def keywords(self):
        """{member: keyword} compared equal on this path"""
        return {m: k for m, k, b in self.compared() if b}

    def compared(self):
        res = []
        for t, b in self.facts.items():
            if t[0] == "eq" and t[2][0] == "str":
                for m in members_of(t[1]):
                    res.append((m, t[2][1], b))
        return res

    def has(self, m):
        res = None
        for t, b in self.facts.items():
            if t[0] == "p" and t[1] == "HasMember" and t[3] == ("str", m):
                if res is None or not b:
                    res = b
        return res

    def kind(self, m):
        """(kinds the member is known to have, kinds it is known not to have)"""
        yes, no = set(), set()
        for t, b in self.facts.items():
            if t[0] == "p" and t[1].startswith("Is:") and t[2][0] == "idx" and \
                    t[2][2] == ("str", m):
                (yes if b else no).add(t[1][3:])
        return yes, no

    def parse_error(self):
        return any(b and t[0] == "p" and t[1] == "HasParseError" for t, b in self.facts.items())

    def not_object(self):
        return any((not b) and t[0] == "p" and t[1] == "Is:object" and t[2][0] == "v"
                   for t, b in self.facts.items())


def find_parser(P, cls):
    for c in [cls] + sorted(P.bases_of(cls), key=lambda x: -len(P.bases_of(x))):
        fs = P.fns(c + "::parse_payload")
        if fs:
            return fs[0]
    raise AnalysisBroken("no parse_payload for " + cls)


def parse_exits(P, cls, on_access=None):
    """(function, [Exit], client) of cls::parse_payload on a freshly constructed object."""
    f = find_parser(P, cls)
    cl = ParseClient(on_access)
    I = Interp(P, cl)
    obj = ("obj", cls)
    st = State(env={"this": ("addr", obj)}, auto=cl.empty_auto())
    st.store[("f", obj, STATUS)] = ("e", "hgdb::status_code", 0)
    exits = [Exit(s, obj) for s, v in I.run(f, st)]
    return f, exits, cl


def request_exits(P, on_access=None):
    """(function, [(Exit of the returned request, type keyword or None, classes)], client)."""
    f = P.fn("hgdb::Request::parse_request")

    class C(ParseClient):
        def follow(self, I, st, callee, depth):
            return not (callee.q.endswith("::parse_payload"))
    cl = C(on_access)
    I = Interp(P, cl)
    res = []
    for s, v in I.run(f, State(auto=cl.empty_auto())):
        res.append((Exit(s, ("deref", v)), v))
    return f, res, cl


def class_of_new(P, v):
    """class a ('new', function, node) term creates"""
    if v[0] != "new":
        return None
    n = P.funcs[v[1]].nodes[v[2]]
    t = n.get("at") or n.get("t", "")
    for d in P.derived_of("hgdb::Request"):
        if t == d or t.startswith("std::unique_ptr<%s>" % d) or \
                t.startswith("std::unique_ptr<%s," % d):
            return d
    return None


if __name__ == "__main__":
    from ir import Program
    from c01 import show
    P = Program()
    for cls in sorted(request_classes(P)):
        f, ex, cl = parse_exits(P, cls)
        print(cls, len(ex), cl.accesses)
        for e in ex:
            print("   ", "ERR" if e.error() else "ok ", e.keywords(),
                  {".".join(x.split("::")[-1] for x in l): (origin(v) or show(v)[:40])
                   for l, v in e.fields().items()})
