"""What a function writes as JSON: abstract contents of rapidjson values."""
from engine import Client, Interp, NULL, State, TRUE, FALSE, subterms, is_const
from extract import AnalysisBroken

CONTENT = "#json"
KINDS = {0: "null", 1: "false", 2: "true", 3: "object", 4: "array", 5: "string", 6: "number"}


class Frozen:
    """content written so far: a snapshot that later changes of the program state leave alone"""
    __slots__ = ("c", "h")

    def __init__(self, c):
        self.c = c
        self.h = hash(c)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Frozen) and self.c == o.c

    def __repr__(self):
        return repr(self.c)

    def merge(self, o):
        return Frozen(merge(self.c, o.c))


def merge(a, b):
    """what is known of a value that is either of the two; members that only one has are marked
    as not always present"""
    if a == b:
        return a
    if a[0] == "jobj" and b[0] == "jobj":
        da = {m[1]: m for m in a[1:]}
        db = {m[1]: m for m in b[1:]}
        res = []
        for k in set(da) | set(db):
            if k in da and k in db:
                res.append(("m", k, merge(da[k][2], db[k][2]), da[k][3] and db[k][3]))
            else:
                m = da.get(k) or db[k]
                res.append(("m", k, m[2], False))
        return ("jobj",) + tuple(sorted(res, key=repr))
    if a[0] == "jarr" and b[0] == "jarr":
        if len(a) == 1 or len(b) == 1:
            return a if len(b) == 1 else b
        return ("jarr", merge(a[1], b[1]))
    alts = set()
    for x in (a, b):
        alts |= set(x[1:]) if x[0] == "alt" else {x}
    return ("alt",) + tuple(sorted(alts, key=repr))


def is_value(cls):
    return cls.startswith(("rapidjson::GenericValue", "rapidjson::GenericDocument"))


class WriteClient(Client):
    max_disjuncts = 60
    max_depth = 12
    follow_ctors = True

    def follow(self, I, st, callee, depth):
        return True

    def get(self, st, v):
        """content of a JSON value term, or None"""
        for x in (v, ("deref", v)):
            c = st.store.get(("f", x, CONTENT))
            if c is not None:
                return c[1].c
        return None

    def put(self, st, loc, c):
        st.store[("f", loc, CONTENT)] = ("jc", Frozen(c))

    def content(self, I, st, a):
        c = self.get(st, a)
        if c is None:
            v = I._rv(st, a)
            c = self.get(st, v)
            if c is None:
                if v[0] in ("jobj", "jarr", "jval"):
                    return v
                return ("jval", v)
        return c

    def on_call(self, I, st, f, node, n, obj, args):
        q = n.get("q", "")
        nm = q.split("::")[-1].split("<")[0]
        k = n["k"]
        cls = n.get("cls", "")
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_value(cls):
            real = [a for a, x in zip(args, n.get("args", []))
                    if f.nodes[x]["k"] != "CXXDefaultArgExpr"]
            o = ("obj", f.key, node)
            pt = n.get("pt", [])
            if (n.get("copy") or n.get("move")) and real:
                c = self.content(I, st, real[0])
            elif not real:
                c = ("jval", ("null",))
                if cls.startswith("rapidjson::GenericDocument"):
                    c = ("jval", ("null",))
            else:
                v = I._rv(st, real[0])
                if self.get(st, real[0]) is not None or self.get(st, v) is not None:
                    c = self.content(I, st, real[0])
                elif v[0] == "e" and v[1].startswith("rapidjson::Type"):
                    c = self.empty(v[2])
                else:
                    c = ("jval", v)
            I._fresh(st, o)
            self.put(st, o, c)
            return [(st, o)]
        if nm in ("c_str", "data") and obj is not None and not args and \
                cls.startswith("std::basic_string"):
            return [(st, I._rv(st, obj))]
        if nm in ("begin", "cbegin") and not q.startswith("rapidjson::"):
            c = obj if obj is not None else (args[0] if args else None)
            if c is not None:
                return [(st, ("it", I._rv(st, c)))]
        if nm == "operator++" and (obj is not None or args):
            o = obj if obj is not None else args[0]
            v = I._rv(st, o)
            if v[0] == "it":
                # the next element: nothing is known about it
                env = dict(st.env)
                st.kill(lambda sub: v in sub)
                for d, x in env.items():
                    if x == v:
                        st.env[d] = x
                return [(st, o)]
        if not q.startswith("rapidjson::"):
            return None
        if obj is None and nm == "StringRef" and args:
            return [(st, I._rv(st, args[0]))]
        if obj is None:
            return None
        base = obj
        if nm == "Move":
            return [(st, base)]
        if nm in ("SetArray", "SetObject"):
            self.put(st, self.loc(st, base), ("jarr",) if nm == "SetArray" else ("jobj",))
            return [(st, base)]
        if nm in ("SetString", "SetUint64", "SetInt64", "SetUint", "SetInt", "SetBool",
                  "SetDouble"):
            self.put(st, self.loc(st, base), ("jval", I._rv(st, args[0])))
            return [(st, base)]
        if nm == "operator=" and is_value(cls):
            self.put(st, self.loc(st, base), self.content(I, st, args[0]))
            return [(st, base)]
        if nm == "AddMember":
            name = self.content(I, st, args[0])
            c = self.content(I, st, args[1])
            l = self.loc(st, base)
            old = self.get(st, l) or ("jobj",)
            k = name[1] if name[0] == "jval" else name
            items = {m[1]: m for m in old[1:]} if old[0] == "jobj" else {}
            if k in items:
                c = merge(items[k][2], c)
            items[k] = ("m", k, c, True)
            self.put(st, l, ("jobj",) + tuple(sorted(items.values(), key=repr)))
            return [(st, base)]
        if nm == "PushBack":
            c = self.content(I, st, args[0])
            l = self.loc(st, base)
            old = self.get(st, l) or ("jarr",)
            if old[0] == "jarr" and len(old) > 1:
                c = merge(old[1], c)
            self.put(st, l, ("jarr", c))
            return [(st, base)]
        if nm == "Accept":
            st.env["#accepted"] = ("jtext", Frozen(self.content(I, st, base)))
            return [(st, TRUE)]
        if nm == "GetString":
            if "StringBuffer" in cls:
                return [(st, st.env.get("#accepted", ("jtext", None)))]
            return [(st, self.content(I, st, base)[1])]
        if nm == "GetAllocator":
            return [(st, ("allocator",))]
        return None

    def join_key(self, st):
        # the message itself (it has a header); what goes into the payload is merged
        return tuple(sorted((repr(k), repr(v)) for k, v in st.store.items()
                            if k[0] == "f" and k[2] == CONTENT and v[1].c[0] == "jobj" and
                            any(m[1] == ("str", "status") or m[1] == ("str", "type")
                                for m in v[1].c[1:]))) + (st.env.get("#accepted"),)

    def loc(self, st, base):
        for x in (base, ("deref", base)):
            if ("f", x, CONTENT) in st.store:
                return x
        return base

    def empty(self, k):
        kind = KINDS.get(k)
        if kind == "object":
            return ("jobj",)
        if kind == "array":
            return ("jarr",)
        return ("jval", ("empty", kind))


def jshow(c, d=0):
    from c01 import show
    if c is None:
        return "?"
    if c[0] == "jobj":
        return "{" + ", ".join("%s%s: %s" % (n[1] if n[0] == "str" else "<" + show(n)[:40] + ">",
                                             "" if must else "?", jshow(x, d + 1))
                               for m, n, x, must in c[1:]) + "}"
    if c[0] == "jarr":
        return "[" + ", ".join(jshow(x, d + 1) for x in c[1:]) + "]"
    if c[0] == "alt":
        return " | ".join(jshow(x, d + 1) for x in c[1:])
    if c[0] == "jtext":
        return "TEXT " + jshow(c[1] and c[1].c)
    return show(c[1])[:60] if c[1] else "?"


if __name__ == "__main__":
    import sys
    from ir import Program
    P = Program()
    for q in sys.argv[1:]:
        f = P.fn(q)
        I = Interp(P, WriteClient())
        for s, v in I.run(f, State(env={"this": ("addr", ("obj", f.cls))})):
            print("  ", jshow(v)[:700], str(v)[:100] if v[0] != "jtext" else "")
