"""C13: an expression means what it says."""
import peg
from c01 import show
from engine import FALSE, NULL, TRUE, subterms
from extract import AnalysisBroken
from ir import rel
from paths import lookup, run, strip

NS = "hgdb::expr"
EXPR = NS + "::Expr"
OP = NS + "::Operator"
STACK = NS + "::ParserStack"
STATE = NS + "::ParserState"
DEBUG = "hgdb::DebugExpression"
# binary operators from the loosest to the tightest (C)
LEVELS = [{"||": "Or"}, {"&&": "And"}, {"|": "BOr"}, {"^": "Xor"}, {"&": "BAnd"},
          {"==": "Eq", "!=": "Neq"}, {"<": "LT", ">": "GT", "<=": "LE", ">=": "GE"},
          {"+": "Add", "-": "Minus"}, {"*": "Multiply", "/": "Divide", "%": "Mod"}]
UNARY = {"!": "Not", "~": "Invert", "+": "UAdd", "-": "UMinus"}
ARITH = {"Add": "+", "Minus": "-", "Multiply": "*", "Divide": "/", "Mod": "%", "Xor": "^",
         "BAnd": "&", "BOr": "|"}
COMMUTE = ("+", "*", "^", "&", "|")
L, R, U = ("q", "left"), ("q", "right"), ("q", "unary")


def ops_of(P):
    return {c["n"]: ("e", OP, c["v"]) for c in P.enum(OP)["c"]}


# -- evaluation ---------------------------------------------------------------------------
def norm(t):
    k = t[0]
    if k == "bin":
        a, b = norm(t[2]), norm(t[3])
        if t[1] == "-" and a == ("c", 0):
            return ("un", "-", b)
        if t[1] == "+" and b[0] == "un" and b[1] == "-":
            return ("bin", "-", a, b[2])
        if t[1] in COMMUTE and repr(b) < repr(a):
            a, b = b, a
        return ("bin", t[1], a, b)
    if k == "un":
        x = norm(t[2])
        return x if t[1] == "+" else ("un", t[1], x)
    if k in ("not", "eq", "lt", "and", "or"):
        xs = [norm(x) for x in t[1:]]
        if k == "eq" and ("c", 0) in xs:
            # compared with zero
            return ("not", xs[0] if xs[1] == ("c", 0) else xs[1])
        if k == "eq":
            xs.sort(key=repr)
        return (k,) + tuple(xs)
    return t


def truths(st, t, val):
    """the 0/1 value of a logical term: True, False or None"""
    if t == TRUE or t == ("c", 1):
        return True
    if t == FALSE or t == ("c", 0):
        return False
    return val.get(t)


def logic(t, asg):
    """evaluates a term of truths under an assignment of truth to the operands"""
    k = t[0]
    if t in asg:
        return asg[t]
    if k == "c":
        return bool(t[1])
    if k == "not":
        x = logic(t[1], asg)
        return None if x is None else not x
    if k in ("and", "or"):
        xs = [logic(x, asg) for x in t[1:]]
        if None in xs:
            return None
        return all(xs) if k == "and" else any(xs)
    return None


def facts_on(st, ts):
    out = {}
    for t in ts:
        v = st.truth(t)
        if v is not None:
            out[t] = v
    return out


def is_logical(t):
    return t[0] in ("not", "eq", "lt", "and", "or") or t in (TRUE, FALSE, ("c", 0), ("c", 1))


def zero(st, x):
    """whether x is known to be (not) zero"""
    v = st.truth(x)
    if v is not None:
        return not v
    return st.truth(("eq", x, ("c", 0))) or st.truth(("eq", ("c", 0), x))


def evaluating(P, rep):
    rep.rule("meaning", "every operator of an expression is computed with its own operation, on "
             "the values of its own operands and in their order")
    rep.rule("trap", "a division or a remainder is only computed with a divisor that is neither "
             "0 nor -1")
    ev = P.fn(EXPR + "::eval")
    ops = ops_of(P)
    fields = {}
    for fd in P.record(EXPR)["fields"]:
        fields[fd["q"].rsplit("::", 1)[1]] = fd["q"]
    operand = {}
    opf = None
    val = None
    for nm, q in fields.items():
        t = [fd["t"] for fd in P.record(EXPR)["fields"] if fd["q"] == q][0]
        if t == OP:
            opf = q
        elif EXPR in t:
            operand[q] = nm
        else:
            val = q
    if opf is None or set(operand.values()) != {"left", "right", "unary"} or val is None:
        raise AnalysisBroken("the nodes of an expression are not recognised")
    this = ("obj", EXPR)

    def which(obj):
        o = strip(obj) if obj else None
        if o and o[0] == "f" and o[1] == this and o[2] in operand:
            return ("q", operand[o[2]])
        return None

    def watch(q, n):
        if q == EXPR + "::eval":
            return "sub"
        return None

    problems = []

    def value(name, I, st, f2, node, n, obj, args):
        w = which(obj)
        if w is None:
            problems.append((f2.loc(node), "what is evaluated is not an operand of the operation"))
            return None
        return [(st, w)]

    for nm, e in sorted(ops.items()):
        rep.count("operators")
        where = ev.loc()
        problems.clear()
        traps = []

        def trap(I, st, f, b, succ=None):
            pass
        got = run(P, ev, watch, value=value, store={("f", this, opf): e},
                  env=None, frozen=(("f", this, opf),))
        for loc, what in problems:
            rep.bad(loc, "meaning", "%s: %s" % (nm, what))
        if not got:
            raise AnalysisBroken("Expr::eval has no path for %s" % nm)
        for s, v, evs in got:
            rep.ok()
            if v is None:
                rep.bad(where, "meaning", "%s has no value" % nm)
                continue
            # where the operands are evaluated
            t = norm(v)
            uses = {x for x in subterms(t) if x in (L, R, U)}
            ok = False
            if nm == "None":
                ok = t == ("f", this, val)
            elif nm == "UAdd":
                ok = t == U
            elif nm == "UMinus":
                ok = t == ("un", "-", U)
            elif nm == "Invert":
                ok = t in (("un", "~", U), ("bin", "^", ("c", -1), U), ("bin", "^", U, ("c", -1)))
            elif nm in ("Divide", "Mod"):
                z, m1 = zero(s, R), s.truth(("eq", R, ("c", -1)))
                full = ("bin", ARITH[nm], L, R)
                if any(x[0] == "bin" and x[1] in ("/", "%") for x in subterms(t)):
                    ok = t == full
                    if not (z is False and m1 is False):
                        rep.bad(where, "trap", "%s is computed although the divisor can be %s" %
                                (nm, "0" if z is not False else "-1"))
                elif z is True:
                    ok = t[0] == "c"
                elif m1 is True:
                    ok = t == (("un", "-", L) if nm == "Divide" else ("c", 0))
            elif nm in ARITH:
                ok = t == norm(("bin", ARITH[nm], L, R))
            else:
                ok = logical(nm, s, t)
            if not ok:
                rep.bad(where, "meaning", "the operator %s is computed as %s" %
                        (nm, show(v)[:160]))
    for nm, where in narrow(P, ev):
        rep.bad(where, "meaning", nm)
    rep.need("operators", 20)


def logical(nm, s, t):
    """a comparison or a connective: right for every truth of what it rests on"""
    lt, gt = ("lt", L, R), ("lt", R, L)
    eq = norm(("eq", L, R))
    # what the values of the operands can be, told apart by what the operators can see
    cases = []
    for order in ("lt", "eq", "gt"):
        for lz in (True, False):
            for rz in (True, False):
                if order == "eq" and lz != rz or order != "eq" and lz and rz:
                    continue
                asg = {lt: order == "lt", gt: order == "gt", eq: order == "eq",
                       ("eq", R, L): order == "eq", ("eq", L, R): order == "eq",
                       L: not lz, R: not rz,
                       ("bin", "-", L, R): order != "eq", norm(("bin", "^", L, R)): order != "eq",
                       norm(("bin", "|", L, R)): not (lz and rz)}
                cases.append((asg, order, not lz, not rz))
    if nm == "Not":
        cases = [({U: True}, None, None, None), ({U: False}, None, None, None)]
    want = {"Eq": lambda a, o, x, y: o == "eq", "Neq": lambda a, o, x, y: o != "eq",
            "LT": lambda a, o, x, y: o == "lt", "GT": lambda a, o, x, y: o == "gt",
            "LE": lambda a, o, x, y: o != "gt", "GE": lambda a, o, x, y: o != "lt",
            "And": lambda a, o, x, y: x and y, "Or": lambda a, o, x, y: x or y,
            "Not": lambda a, o, x, y: not a[U]}.get(nm)
    if want is None:
        return False
    seen = False
    for c in cases:
        asg = c[0]
        if any(logic(norm(ft), asg) not in (None, b) for ft, b in s.facts.items()):
            continue
        seen = True
        if logic(t, asg) != want(*c):
            return False
    return seen


WIDE = ("long", "bool", "unsigned long", "long long", "unsigned long long")
INTS = ("int", "short", "char", "signed char", "unsigned char", "unsigned short", "unsigned int",
        "float", "double")


def narrow(P, root):
    """operands that lose bits or their sign on the way, in the functions that compute"""
    out = []
    seen, work = set(), [root]
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for i, t, k in P.callees(f):
            if t.q.startswith("hgdb::"):
                work.append(t)
        if f is not root:
            for p in f.params:
                b = p["t"].replace("const ", "").replace(" &", "").strip()
                if b in INTS:
                    out.append(("an operand is taken as %s" % b, f.loc()))
            if f.rt in INTS:
                out.append(("a result is returned as %s" % f.rt, f.loc()))
        for i in f.reachable_nodes():
            n = f.nodes[i]
            if not n:
                continue
            if n["k"] == "BinaryOperator" and n.get("op") in ("/", "%", "<", ">", "<=", ">=", ">>"):
                for c in n["c"]:
                    x = f.nodes[c]
                    if x and x.get("t", "").replace("const ", "") in ("unsigned long",
                                                                      "unsigned long long"):
                        out.append(("an operand of %s is taken without its sign" % n["op"],
                                    f.loc(i)))
            if n["k"].endswith("CastExpr") and n.get("t", "").replace("const ", "") in INTS and \
                    n.get("c"):
                x = f.nodes[n["c"][0]]
                if x and x.get("t", "").replace("const ", "") in ("long", "unsigned long"):
                    out.append(("a value is narrowed to %s" % n["t"], f.loc(i)))
            if n["k"] == "DeclStmt":
                for v in n["vars"]:
                    if v["t"].replace("const ", "") in INTS:
                        out.append(("a value is kept as %s" % v["t"], f.loc(i)))
    return out


# -- what the actions of the grammar do -----------------------------------------------------
def decls(P):
    """variable -> (function, node of its initialiser)"""
    out = {}
    for f in P.funcs.values():
        if not f.q.startswith("hgdb::"):
            continue
        for n in f.nodes:
            if n and n["k"] == "DeclStmt":
                for v in n["vars"]:
                    out[v["d"]] = (f, v["init"])
    return out


def constant(f, i):
    """the constant that a node of a table is, or None"""
    lits = [f.nodes[j] for j in f.subtree(i) if f.nodes[j]]
    for n in lits:
        if n["k"] == "StringLiteral":
            return ("str", n["v"])
        if n["k"] == "CharacterLiteral":
            return ("c", n["v"])
        if n["k"] == "DeclRefExpr" and n.get("dk") == "enum":
            return ("enum", n["q"])
    return None


def table(P, D, loc, ops):
    """the contents of a constant container: {key: value} (value None for a set), or None"""
    if loc[0] != "v" or loc[1] not in D:
        return None
    f, init = D[loc[1]]
    if init is None or init < 0:
        return None
    lists = [j for j in f.subtree(init) if f.nodes[j] and f.nodes[j]["k"] == "InitListExpr"]
    if not lists:
        return None
    top = lists[0]

    def const(i):
        c = constant(f, i)
        if c and c[0] == "enum":
            nm = c[1].rsplit("::", 1)[1]
            return ops.get(nm)
        return c
    out = {}
    for c in f.nodes[top]["c"]:
        j = c
        while f.nodes[j] and len(f.nodes[j].get("args", f.nodes[j].get("c", []))) == 1:
            j = (f.nodes[j].get("args") or f.nodes[j]["c"])[0]
        n = f.nodes[j]
        kids = n.get("args") or n.get("c") or []
        if len(kids) == 2:
            k, v = const(kids[0]), const(kids[1])
            if k is None or v is None:
                return None
            out[k] = v
        else:
            k = const(c)
            if k is None:
                return None
            out[k] = None
    return out


class Text:
    """what is known of a text: ("lit", prefix, n): prefix, then n characters, the first of which
    is one that an operand begins with (n None: any number, at least one)"""

    def __init__(self, first):
        self.first = first

    def at(self, t, k):
        if t[0] == "str":
            return ("c", ord(t[1][k])) if k < len(t[1]) else None
        if t[0] == "lit" and k < len(t[1]):
            return ("c", ord(t[1][k]))
        return None

    def cut(self, t, a, n):
        """substr(a, n)"""
        if t[0] == "str":
            return ("str", t[1][a:] if n is None else t[1][a:a + n])
        p = t[1]
        if a > len(p) or t[2] is not None:
            return None
        if n is None:
            return ("lit", p[a:], None)
        if a + n <= len(p):
            return ("str", p[a:a + n])
        return ("lit", p[a:], a + n - len(p)) if a + n - len(p) == 1 else None

    def same(self, a, b):
        """whether two texts are equal: True, False, None"""
        if a[0] == "str" and b[0] == "str":
            return a[1] == b[1]
        if a[0] == "str":
            a, b = b, a
        if a[0] == "lit" and b[0] == "str":
            p, s = a[1], b[1]
            if not s.startswith(p) or len(s) == len(p):
                return False
            if a[2] is not None and len(s) != len(p) + a[2]:
                return False
            if s[len(p)] not in self.first:
                return False
        return None

    def begins(self, t, s):
        if t[0] == "str":
            return t[1].startswith(s)
        if t[1].startswith(s):
            return True
        if not s.startswith(t[1]) or s[len(t[1])] not in self.first:
            return False
        return None


def is_text(t):
    return t[0] in ("str", "lit")


TEXT = ("q", "text")
NUMBERS = {"stol": 0, "stoll": 0, "stoul": 0, "stoull": 0, "strtol": 0, "strtoll": 0,
           "strtoul": 0, "strtoull": 0}


def stream(loc, what):
    return ("f", loc, "stream " + what)


def reading(I, st, f, node, n, obj, args, a):
    """texts that are read as numbers: ("q", "number", text, base, type)"""
    q = n.get("q", "")
    m = q.rsplit("::", 1)[1]
    if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and \
            "stringstream" in n.get("cls", ""):
        if a and strip(a[0])[0] in ("q", "p"):
            return [(st, ("q", "stream", a[0]))]
        return None
    both = ([obj] if obj is not None else []) + list(args)
    if m in ("operator<<", "operator>>") and len(both) == 2 and \
            "basic_" in q + str(f.nodes[node].get("t", "")):
        loc = both[0]
        while loc[0] == "deref" or loc[0] == "addr":
            loc = loc[1]
        val = I._rv(st, both[1])
        # the stream as it stands
        here = st.env.get(loc[1]) if loc[0] == "v" else loc
        text = st.store.get(stream(loc, "text"))
        if text is None and here is not None and here[:2] == ("q", "stream"):
            text = here[2]
        base = st.store.get(stream(loc, "base"), ("c", 10))
        if val[0] == "fnref":
            for nm, b in (("hex", 16), ("dec", 10), ("oct", 8)):
                if "@F@%s#" % nm in val[1]:
                    st.store[stream(loc, "base")] = ("c", b)
            return [(st, loc)]
        if m == "operator<<":
            st.store[stream(loc, "text")] = val if text is None else ("q", "joined")
            return [(st, loc)]
        out = both[1]
        ty = f.nodes[f.strip(last_arg(f, node))].get("t", "")
        st.assign(out, ("q", "number", text or ("q", "nothing"), base, ty))
        return [(st, loc)]
    if m in NUMBERS and q.startswith("std::") and a:
        base = a[2] if len(a) > 2 else ("c", 10)
        return [(st, ("q", "number", a[0], base, n.get("t", "")))]
    return None


def last_arg(f, node):
    n = f.nodes[node]
    return (n.get("args") or n.get("c"))[-1]


def key_name(ops, e):
    for k, v in ops.items():
        if v == e:
            return k
    return None


class Actions:
    """what the action of a rule does for the text it matched"""

    def __init__(self, P, ops, first):
        self.P, self.ops = P, ops
        self.D = decls(P)
        self.text = Text(first)
        self.funcs = {}
        for f in P.funcs.values():
            for nm in ("apply", "apply0"):
                if f.q.startswith(NS + "::action<") and f.q.endswith(">::" + nm):
                    self.funcs.setdefault(f.q[len(NS + "::action<"):-len(">::" + nm)], f)
        self.kinds = {}

    def known(self, t):
        """the constant a term is"""
        if t in self.ops.values() or is_text(t) or t[0] == "c":
            return t
        c = lookup(t)
        if c:
            tb = table(self.P, self.D, c[0], self.ops)
            if tb is not None and c[1] in tb:
                return tb[c[1]]
        return t

    def perform(self, name, text):
        """[(state, events)]; text None for what is not known"""
        f = self.funcs[name]
        state = [p["d"] for p in f.params if STATE in p["t"]]
        if len(state) != 1:
            raise AnalysisBroken("the action of %s is not recognised" % name)
        inp = [p["d"] for p in f.params if p["d"] != state[0]]
        src = ("v", inp[0]) if inp else None
        T = self.text

        def watch(q, n):
            cls, _, m = q.rpartition("::")
            if q == STACK + "::push":
                t = self.P.targets(n["fn"], False)
                ty = t[0].params[0]["t"] if t and t[0].params else ""
                return "op" if ty == OP else "expr" if EXPR in ty else "any"
            if q in (STATE + "::open", STATE + "::close", DEBUG + "::set_error",
                     DEBUG + "::add_symbol", DEBUG + "::add_expression", EXPR + "::set_value"):
                return m
            if cls.startswith("std::stack<"):
                return "stack-" + m
            return "any"

        def value(name, I, st, f2, node, n, obj, args):
            q = n.get("q", "")
            m = q.rsplit("::", 1)[1]
            a = [self.known(I._rv(st, x)) for x in args]
            o = I._rv(st, obj) if obj is not None else None
            if name in ("op", "expr", "open", "close", "set_error", "set_value"):
                return [(st, None)]
            if name == "add_expression":
                return [(st, ("p", "node", a[0], ("c", node)))]
            if name == "add_symbol":
                return [(st, ("p", "symbol", a[0]))]
            if name == "stack-top":
                return [(st, ("q", "top", ("c", repr(obj)), 0))]
            if obj is not None and (obj == src or o == src) and m in ("string", "string_view"):
                return [(st, TEXT if text is None else ("lit", text, None))]
            r = reading(I, st, f2, node, n, obj, args, a)
            if r is not None:
                return r
            if text is not None and obj is not None and (obj == src or o == src) and \
                    m in ("peek_char", "begin", "size"):
                if m == "peek_char":
                    i = a[0][1] if a and a[0][0] == "c" else 0
                    x = T.at(("lit", text, None), i)
                    return [(st, x)] if x else None
                return None
            if o is not None and is_text(o):
                if m in ("at", "operator[]", "front"):
                    k = 0 if m == "front" else a[0][1] if a[0][0] == "c" else None
                    x = T.at(o, k) if k is not None else None
                    if x is None and o[0] == "lit" and k == len(o[1]):
                        # what the operand begins with
                        x = ("q", "next", ("str", o[1]))
                        for ch in "=&|<>*/%^!~+-":
                            if ch not in T.first:
                                st.assume(("eq", x, ("c", ord(ch))), False)
                    return [(st, x)] if x else None
                if m == "substr":
                    a = [x for x in a if not (x[0] == "g" and x[1].endswith("::npos"))]
                    if all(x[0] == "c" for x in a):
                        x = T.cut(o, a[0][1] if a else 0, a[1][1] if len(a) > 1 else None)
                        return [(st, x)] if x else None
                if m == "starts_with" and a[0][0] in ("str", "c"):
                    x = T.begins(o, a[0][1] if a[0][0] == "str" else chr(a[0][1]))
                    return [(st, ("c", x))] if x is not None else None
                if m.startswith("operator basic_string_view"):
                    return [(st, o)]
                if m == "size" or m == "length":
                    return [(st, ("c", len(o[1])))] if o[0] == "str" else None
                if m == "empty":
                    return [(st, FALSE)]
            if m in ("operator==", "operator!="):
                both = ([o] if o is not None else []) + a
                if len(both) == 2 and all(map(is_text, both)):
                    x = T.same(*both)
                    if x is not None:
                        return [(st, ("c", x == (m == "operator==")))]
                    return None
            if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and \
                    "basic_string" in n.get("cls", ""):
                if len(a) >= 2 and a[0][0] == "c" and a[1][0] == "c":
                    return [(st, ("str", chr(a[1][1]) * a[0][1]))]
                if a and is_text(a[0]) and len(a) == 1:
                    return [(st, a[0])]
                return None
            if m in ("find", "contains", "count", "at", "operator[]") and obj is not None and a:
                tb = table(self.P, self.D, obj, self.ops)
                if tb is None:
                    return None
                key = a[0]
                hit = None
                if key in tb:
                    hit = True
                elif key[0] in ("str", "e"):
                    hit = False
                elif key[0] == "lit":
                    sames = [T.same(key, k) for k in tb if k[0] == "str"]
                    hit = False if all(x is False for x in sames) else None
                if hit is None:
                    return None
                t = ("p", m, obj, key)
                if m == "find":
                    st.assume(("found", t), hit)
                    return [(st, t)]
                if m in ("contains", "count"):
                    return [(st, ("c", hit))]
                if hit:
                    return [(st, tb[key])] if tb[key] is not None else [(st, t)]
                return []
            return None

        got = run(self.P, f, watch, value=value, follow=lambda t: t.q.startswith(NS))
        return [(s, [(e[0], e[1], [self.known(x) for x in e[2]], e[3]) for e in evs
                     if e[0] != "any" and not e[0].startswith("stack")]) for s, v, evs in got]


def grammar(P, rep):
    rep.rule("operator", "the operator of a subexpression is the one that is written there")
    rep.rule("precedence", "the binary operators bind like those of C, each level tighter than the "
             "one before, and group from the left")
    rep.rule("choice", "an alternative of the grammar is not hidden by one that is tried before it")
    G = peg.Grammar(P, NS)
    ops = ops_of(P)
    starts = {}
    start = NS + "::grammar"
    top = G.rule(start)
    where = "src/eval.cc"
    A = Actions(P, ops, frozenset())
    keep = tuple(A.funcs)
    def at(x):
        while x[0] != "rule":
            if not isinstance(x[1], list) or not x[1]:
                return where
            x = x[1][0]
        rec = P.record(x[1])
        return "%s:%s %s" % (rel(rec.get("file", where)), rec.get("line", "?"), x[1])

    # down the levels
    if top[0] != "seq" or top[1][-1] != ("eof",):
        rep.bad(at(("rule", start)), "whole", "an expression is accepted although its text goes on")
    rep.rule("whole", "all of the text is part of the expression")
    rep.ok()
    cur = top[1][0] if top[0] == "seq" else top
    levels = []
    while True:
        name = G.name(cur, keep)
        body = G.body(cur, keep)
        if body[0] != "seq" or len(body[1]) != 2 or body[1][1][0] not in ("star", "opt") or \
                name in [x[0] for x in levels]:
            break
        nxt, rest = body[1][0], body[1][1]
        levels.append((name, nxt, rest[1], rest[0] == "star"))
        cur = nxt
    if len(levels) < 2:
        raise AnalysisBroken("the levels of the grammar are not recognised")
    operand = cur
    first = G.first(operand)
    A.text = Text(first)
    found = []
    for name, nxt, rest, many in levels:
        rep.count("levels")
        rep.ok()
        if not many:
            rep.bad(at(name), "precedence", "only one operator of this level is accepted")
        here = []
        for alt in (rest[1] if rest[0] == "alt" else [rest]):
            alt = G.name(alt, keep)
            body = G.body(alt) if alt[0] == "rule" else alt
            if body[0] != "seq" or len(body[1]) < 2:
                raise AnalysisBroken("the operators of %s are not recognised" % at(name))
            right = body[1][-1]
            if G.name(right, keep) == name:
                rep.bad(at(alt), "precedence", "the operators of this level group from the right")
            elif G.name(right, keep) != G.name(nxt, keep):
                rep.bad(at(alt), "precedence", "the right operand of this level's operators is not "
                        "of the same level as the left one")
            lead = [x for x in body[1][:-1]]
            while lead and lead[-1][0] == "star":
                lead.pop()
            texts = G.strings(peg.seq(lead)) if lead else None
            if texts is None:
                raise AnalysisBroken("the operators of %s are not finitely many" % at(alt))
            here += texts
            acts = [alt[1]] if alt[0] == "rule" and alt[1] in A.funcs else []
            if not acts:
                rep.bad(at(alt), "operator", "no operator is applied for %s" % " ".join(texts))
            for t in texts:
                rep.count("binary operators")
                want = [lv[t] for lv in LEVELS if t in lv]
                if acts:
                    applied(rep, A, ops, acts[0], t, want[0] if want else None)
            inner = [r for x in lead for r in rules_of(G, x) if r in A.funcs]
            for r in inner:
                for s, evs in A.perform(r, None):
                    if any(e[0] in ("op", "expr", "open", "close") for e in evs):
                        rep.bad(A.funcs[r].loc(), "operator", "an operator is applied before its "
                                "right operand is read")
        found.append((name, here))
    # the order of the levels
    place = {}
    for k, (name, texts) in enumerate(found):
        for i, t in enumerate(texts):
            if t in place:
                rep.bad(at(name), "precedence", "the operator %s is on two levels" % t)
            place[t] = k
            for u in texts[:i]:
                if t.startswith(u):
                    rep.bad(at(name), "choice", "%s is never read as such: %s is tried first" %
                            (t, u))
    flat = [t for lv in LEVELS for t in lv]
    for t in flat:
        rep.check(t in place, at(found[0][0]), "precedence", "the operator %s is not part of the "
                  "grammar" % t)
    for i, lv in enumerate(LEVELS):
        for t in lv:
            for lw in LEVELS[i:]:
                for u in lw:
                    if t in place and u in place:
                        good = place[t] == place[u] if lw is lv else place[t] < place[u]
                        rep.check(good, at(found[place[t]][0]), "precedence",
                                  "%s does not bind %s %s" % (u, "as" if lw is lv else
                                                              "tighter than", t))
    for t in place:
        for u in place:
            if t != u and u.startswith(t) and place[t] > place[u]:
                rep.check(u[len(t)] not in first, at(found[place[t]][0]), "choice",
                          "%s can be read as %s and what follows" % (u, t))
    # what stands between the operators
    body = G.body(operand, keep)
    alts = [G.name(x, keep) for x in (body[1] if body[0] == "alt" else [body])]
    una, val = [], []
    for x in alts:
        inner = unpad(G, x, keep)
        if inner[0] == "rule" and inner[1] in A.funcs and unary_of(G, inner):
            una.append(inner)
        else:
            val.append(x)
    if not una or not val:
        raise AnalysisBroken("the operands of the grammar are not recognised")
    seen = set()
    for x in una:
        body = G.body(x)
        again = False
        for alt in (body[1] if body[0] == "alt" else [body]):
            texts = G.strings(peg.seq(alt[1][:-1]))
            right = G.name(alt[1][-1], keep)
            if right == G.name(operand, keep):
                again = True
            elif right not in val:
                rep.bad(at(x), "precedence", "an operator before an operand takes more than the "
                        "operand")
            for t in texts:
                seen.add(t)
                rep.count("unary operators")
                applied(rep, A, ops, x[1], t, UNARY.get(t))
        rep.check(again, at(x), "precedence", "an operator cannot follow another one before an "
                  "operand")
    for t in UNARY:
        rep.check(t in seen, at(una[0]), "precedence", "the operator %s is not part of the "
                  "grammar" % t)
    rep.need("binary operators", 16)
    rep.need("unary operators", 4)
    operands(P, rep, G, A, ops, val, G.name(operand, keep), cur_top=top[1][0] if top[0] == "seq" else top, at=at,
             chars=frozenset("".join(t[0] for t in place)) | frozenset("".join(seen)), keep=keep)


def rules_of(G, x):
    if x[0] == "rule":
        return G.reachable(x[1])
    out = set()
    for y in (x[1] if isinstance(x[1], list) else [x[1]] if isinstance(x[1], tuple) else []):
        out |= rules_of(G, y)
    return out


def unpad(G, x, keep):
    """what is inside of spaces"""
    while True:
        x = G.name(x, keep)
        if x[0] == "rule" and x[1] not in keep:
            b = G.rule(x[1])
            if b[0] == "seq" and any(y[0] == "star" for y in b[1]):
                x = b
                continue
        if x[0] == "seq":
            k = [y for y in x[1] if not (y[0] == "star" and G.body(y[1])[0] == "set")]
            if len(k) == 1:
                x = k[0]
                continue
        return x


def unary_of(G, x):
    body = G.body(x)
    alts = body[1] if body[0] == "alt" else [body]
    return all(a[0] == "seq" and len(a[1]) >= 2 and G.strings(peg.seq(a[1][:-1])) for a in alts)


def applied(rep, A, ops, rule, text, want):
    f = A.funcs[rule]
    got = A.perform(rule, text)
    rep.ok()
    if not got:
        rep.bad(f.loc(), "operator", "%s is not applied" % text)
    for s, evs in got:
        put = [e for e in evs if e[0] in ("op", "expr", "open", "close", "set_error")]
        if want is None:
            continue
        if len(put) != 1 or put[0][0] != "op":
            rep.bad(put[-1][3] if put else f.loc(), "operator",
                    "%s is %s" % (text, "not applied exactly once" if put else "not applied"))
        elif put[0][2][0] != ops[want]:
            nm = key_name(ops, put[0][2][0])
            if nm is None and put[0][2][0][0] not in ("e", "c"):
                rep.bad(put[0][3], "operator", "%s is applied as something that is not known to be "
                        "%s: %s" % (text, want, show(put[0][2][0])[:80]))
            else:
                rep.bad(put[0][3], "operator", "%s is applied as %s" % (text, nm))


IDENT = peg.seq([("set", peg.ALPHA | {"_", "$"}),
                 ("star", ("set", peg.ALPHA | peg.DIGIT | {"_", "$"}))])
DEC = ("plus", ("set", peg.DIGIT))
SLICE = peg.seq([("set", frozenset("[")),
                 peg.alt([IDENT, peg.seq([DEC, ("opt", peg.seq([("set", frozenset(":")), DEC]))])]),
                 ("set", frozenset("]"))])
PART = peg.seq([IDENT, ("star", SLICE)])
NAME = peg.seq([PART, ("star", peg.seq([("set", frozenset(".")), PART]))])
HEX = peg.seq([DEC, ("set", frozenset("'")), ("set", frozenset("h")), ("plus", ("set", peg.XDIGIT))])


def operands(P, rep, G, A, ops, val, mid, cur_top, at, chars, keep):
    rep.rule("operand", "a number means its digits in its base, a name the symbol of that name, "
             "and brackets group")
    whole = G.name(cur_top, keep)
    alts = []
    for x in val:
        y = unpad(G, x, keep)
        b = G.body(y) if y[0] == "rule" and y[1] not in keep else y
        for z in (b[1] if b[0] == "alt" else [b]):
            alts.append(G.name(z, keep))
    names, numbers, brackets = [], [], []
    regular = []
    for x in alts:
        rep.count("operands")
        rep.ok()
        if x[0] != "rule":
            raise AnalysisBroken("an operand of the grammar is not recognised")
        if any(G.name(("rule", r), keep) in (whole, mid) for r in G.reachable(x[1])):
            brackets.append(x)
            continue
        regular.append(x)
        if x[1] not in A.funcs:
            rep.bad(at(x), "operand", "nothing is done for an operand that is accepted")
            continue
        got = A.perform(x[1], None)
        kinds = {"name" if any(e[0] == "add_symbol" for e in evs) else "number" for s, evs in got}
        if len(kinds) != 1:
            rep.bad(A.funcs[x[1]].loc(), "operand", "the operand is a name on some paths and a "
                    "number on others")
            continue
        (names if kinds == {"name"} else numbers).append(x)
        for s, evs in got:
            rep.ok()
            exprs = [e for e in evs if e[0] == "expr"]
            where = A.funcs[x[1]].loc()
            if len(exprs) != 1 or any(e[0] in ("op", "open", "close", "set_error") for e in evs):
                rep.bad(where, "operand", "the operand is not put on the stack exactly once")
                continue
            pushed = strip(exprs[0][2][0])
            if kinds == {"name"}:
                good = [e for e in evs if e[0] == "add_symbol" and e[2][0] == TEXT and
                        pushed == ("p", "symbol", TEXT)]
                rep.check(good, exprs[0][3], "operand", "the operand is not the symbol of the name "
                          "that is written")
                continue
            node = [e for e in evs if e[0] == "add_expression"]
            rep.check(len(node) == 1 and pushed[:2] == ("p", "node") and
                      pushed[2] == ops["None"], exprs[0][3], "operand",
                      "the operand that is put on the stack is not a plain value")
            sets = [e for e in evs if e[0] == "set_value"]
            if len(sets) != 1 or strip(sets[0][1]) != pushed:
                rep.bad(where, "operand", "the value of the number is not given to the operand")
                continue
            digits(rep, G, x, sets[0][2][0], sets[0][3])
    rep.check(names, at(val[0]), "operand", "names are not operands")
    for x in names:
        m = peg.missing(G.nfa(NAME), G.nfa(x))
        rep.check(m is None, at(x), "operand", "the name %s is not accepted" % m)
        bad = peg.letters(G.nfa(x)[2]) & (chars | peg.SPACE | {"(", ")"})
        rep.check(not bad, at(x), "operand", "a name takes the operator %s" % sorted(bad)[:1])
    for what, ref in (("number", DEC), ("hexadecimal number", HEX)):
        ms = [peg.missing(G.nfa(ref), G.nfa(x)) for x in numbers]
        rep.check(None in ms, at(val[0]), "operand", "the %s %s is not accepted" % (what, ms[:1]))
    for i, x in enumerate(regular):
        for y in regular[:i]:
            m = peg.shadows(G.nfa(y), G.nfa(x))
            rep.check(m is None, at(x), "choice", "%s is never read as such: its beginning is taken "
                      "for something else first" % m)
    rep.check(brackets, at(val[0]), "operand", "brackets are not operands")
    for x in brackets:
        body = G.body(x)
        good = body[0] == "seq" and len(body[1]) >= 3
        if good:
            for e in A.perform(x[1], None) if x[1] in A.funcs else []:
                if any(v[0] in ("op", "expr", "open", "close") for v in e[1]):
                    good = False
            inner = [i for i, y in enumerate(body[1]) if G.name(y, keep) == whole]
            good = good and len(inner) == 1
        if not good:
            rep.bad(at(x), "operand", "brackets do not hold an expression")
            continue
        for part, want, ch in ((body[1][:inner[0]], "open", "("), (body[1][inner[0] + 1:], "close",
                                                                     ")")):
            evs = []
            for y in part:
                for r in sorted(rules_of(G, y)):
                    if r in A.funcs:
                        for s, es in A.perform(r, None):
                            evs.append([e[0] for e in es if e[0] in ("op", "expr", "open",
                                                                     "close")])
            rep.check(evs and all(e == [want] for e in evs), at(x), "operand",
                      "brackets do not %s a group" % want)
            fs = G.first(peg.seq([y for y in part if G.body(y)[0] != "star"]))
            rep.check(fs - peg.SPACE == {ch}, at(x), "operand", "%s does not %s a group" %
                      (ch, want))


def digits(rep, G, x, v, where):
    if v[:2] != ("q", "number"):
        rep.bad(where, "operand", "the value of the number is not read from its digits: %s" %
                show(v)[:80])
        return
    text, base, ty = v[2], v[3], v[4]
    if ty.replace("const ", "") not in WIDE:
        rep.bad(where, "operand", "the number is read as %s" % ty)
    hexa = peg.missing(G.nfa(HEX), G.nfa(x)) is None
    if not hexa:
        rep.check(text == TEXT and base == ("c", 10), where, "operand", "the number is not read "
                  "from all of its digits in base 10")
        return
    rep.check(base == ("c", 16), where, "operand", "the hexadecimal number is read in another "
              "base")
    good = False
    if text[0] == "p" and text[1] == "substr" and text[2] == TEXT and \
            (len(text) == 4 or text[4][0] == "g"):
        o = text[3]
        if o[0] == "bin" and o[1] == "+" and o[3][0] == "c" and o[2][0] == "p" and \
                o[2][2] == TEXT and o[2][1] in ("find", "find_first_of", "rfind", "find_last_of"):
            what = o[2][3]
            what = chr(what[1]) if what[0] == "c" else what[1]
            good = (what == "'" and o[3][1] == 2) or (what == "h" and o[3][1] == 1) or \
                (what == "'h" and o[3][1] == 2 and o[2][1] in ("find", "rfind"))
    rep.check(good, where, "operand", "the hexadecimal number is not read from the digits after 'h")


# -- putting it together --------------------------------------------------------------------
POPS = ("f", ("obj", "pops"), "n")


def stacked(st, loc, m):
    """models a stack of which only what was there at the start is taken off: the k-th from the
    top is ("q", "top", stack, k)"""
    loc = ("c", repr(loc))       # a name: changing the stack does not change what was on it
    cur = st.store.get(POPS, ())
    k = sum(1 for x in cur if x == loc)
    if m == "top":
        return [(st, ("q", "top", loc, k))]
    if m == "pop":
        st.store[POPS] = cur + (loc,)
        return [(st, None)]
    return None


def building(P, rep):
    rep.rule("build", "an operator takes the subexpressions that were read last as its operands, "
             "the right one first")
    ops = ops_of(P)
    D = decls(P)
    fs = [f for f in P.fns(STACK + "::push") if f.params and f.params[0]["t"] == OP]
    if len(fs) != 1:
        raise AnalysisBroken("ParserStack::push(Operator) is not found")
    f = fs[0]
    this = ("obj", STACK)

    def watch(q, n):
        cls, _, m = q.rpartition("::")
        if cls.startswith("std::stack<"):
            return "stack-" + m
        if q == DEBUG + "::add_expression":
            return "add"
        if m in ("find", "contains", "count"):
            return "look"
        return None

    def value(name, I, st, f2, node, n, obj, args):
        a = [I._rv(st, x) for x in args]
        if name.startswith("stack-"):
            return stacked(st, obj, name[6:])
        if name == "add":
            return [(st, ("p", "node", a[0], ("c", node)))]
        tb = table(P, D, obj, ops) if obj is not None and a else None
        if tb is None or a[0][0] != "e":
            return None
        t = ("p", "find", obj, a[0])
        hit = a[0] in tb
        if n["q"].endswith("::find"):
            st.assume(("found", t), hit)
            return [(st, t)]
        return [(st, ("c", hit))]

    for nm, e in sorted(ops.items()):
        if nm == "None":
            continue
        rep.count("operators built")
        got = run(P, f, watch, value=value, env={f.params[0]["d"]: e},
                  follow=lambda t: t.q.startswith(NS), frozen=(POPS,))
        rep.ok()
        if not got:
            rep.bad(f.loc(), "build", "%s is never built" % nm)
        for s, v, evs in got:
            put = [x for x in evs if x[0] in ("stack-push", "stack-emplace")]
            add = [x for x in evs if x[0] == "add"]
            if len(put) != 1 or len(add) != 1:
                rep.bad(f.loc(), "build", "%s does not leave exactly one expression" % nm)
                continue
            node = strip(put[0][2][0])
            loc = ("c", repr(put[0][1]))
            if node[:2] != ("p", "node") or node[2] != e:
                rep.bad(put[0][3], "build", "what is left for %s is not that operation: %s" %
                        (nm, show(node)[:80]))
                continue
            kids = {}
            for k, x in s.store.items():
                if k[0] == "f" and strip(k[1]) == node and k[2].startswith(EXPR + "::"):
                    kids[k[2].rsplit("::", 1)[1]] = strip(x)
            pops = len(s.store.get(POPS, ()))
            t0, t1 = ("q", "top", loc, 0), ("q", "top", loc, 1)
            want = {"unary": t0} if nm in UNARY.values() else {"right": t0, "left": t1}
            have = {k: x for k, x in kids.items() if x != NULL and k in ("left", "right", "unary")}
            if have != want or pops != len(want):
                rep.bad(f.loc(), "build", "%s takes %s, and %d off the stack" % (
                    nm, ", ".join("%s as its %s operand" % (
                        "the last" if x == t0 else "the one before" if x == t1 else "another",
                        k) for k, x in sorted(have.items())) or "no operands", pops))
    rep.need("operators built", 20)
    creation(P, rep, ops)
    groups(P, rep)


def creation(P, rep, ops):
    """a new node carries its operator, and belongs to the expression"""
    f = P.fn(DEBUG + "::add_expression")
    par = ("v", f.params[0]["d"])

    def watch(q, n):
        m = q.rsplit("::", 1)[1]
        return m if m in ("make_unique", "emplace_back", "push_back", "back") else None

    def value(name, I, st, f2, node, n, obj, args):
        if name == "make_unique":
            return [(st, ("q", "made", I._rv(st, args[0]) if args else ()))]
        if name == "back":
            return [(st, ("q", "last", st.store.get(POPS, ())))]
        if name in ("emplace_back", "push_back"):
            v = strip(I._rv(st, args[0]))
            st.store[POPS] = v
            return [(st, ("q", "last", v))]
        return None
    for s, v, evs in run(P, f, watch, value=value, follow=lambda t: t.q.startswith(NS),
                         frozen=(POPS,)):
        rep.ok()
        t = strip(v)
        good = t == ("q", "made", par) or t == ("q", "last", ("q", "made", par))
        kept = s.store.get(POPS) == ("q", "made", par)
        rep.check(good and kept, f.loc(), "build", "a new operation is not made of the operator "
                  "that is asked for, and kept")
    for c in [x for x in P.fns(EXPR + "::Expr") if x.params and x.params[0]["t"] == OP]:
        got = run(P, c, lambda q, n: None)
        for s, v, evs in got:
            vals = [x for k, x in s.store.items() if k[0] == "f" and k[2] == EXPR + "::op"]
            rep.check(vals == [("v", c.params[0]["d"])], c.loc(), "build",
                      "a new operation does not keep its operator")


def groups(P, rep):
    """brackets: a group on a stack of its own, handed to the one below when it closes"""
    def watch(q, n):
        cls, _, m = q.rpartition("::")
        if cls.startswith("std::stack<"):
            return "stack-" + m
        if q == STACK + "::root":
            return "root"
        if q == STACK + "::push":
            return "put"
        return None

    def value(name, I, st, f2, node, n, obj, args):
        if name.startswith("stack-"):
            return stacked(st, obj, name[6:])
        if name == "root":
            return [(st, ("q", "root", strip(obj)))]
        if name == "put":
            return [(st, None)]
        return None

    def top(x, k):
        x = strip(x)
        return x[:2] == ("q", "top") and x[3] == k
    f = P.fn(STATE + "::open")
    for s, v, evs in run(P, f, watch, value=value, follow=lambda t: t.cls == STATE,
                         frozen=(POPS,)):
        rep.ok()
        names = [e[0] for e in evs]
        rep.check(names in (["stack-emplace"], ["stack-push"]), f.loc(), "build",
                  "an opening bracket does not begin a group")
    f = P.fn(STATE + "::close")
    for s, v, evs in run(P, f, watch, value=value, follow=lambda t: t.cls == STATE,
                         frozen=(POPS,)):
        rep.ok()
        put = [e for e in evs if e[0] == "put"]
        good = len(put) == 1 and top(put[0][1], 1) and put[0][2][0][:2] == ("q", "root") and \
            top(put[0][2][0][2], 0) and len(s.store.get(POPS, ())) == 1
        rep.check(good, f.loc(), "build", "a closing bracket does not hand its group to what is "
                  "around it")
    f = P.fn(STATE + "::root")
    for s, v, evs in run(P, f, watch, value=value, follow=lambda t: t.cls == STATE,
                         frozen=(POPS,)):
        rep.ok()
        rep.check(v[:2] == ("q", "root") and top(v[2], 0), f.loc(), "build",
                  "the whole expression is not the outermost group")
    f = P.fn(STACK + "::root")
    some = False
    for s, v, evs in run(P, f, watch, value=value):
        rep.ok()
        if v == NULL:
            one = [b for ft, b in s.facts.items() if ft[0] == "eq" and ("c", 1) in ft[1:] and
                   any(x[0] == "p" and x[1] == "size" for x in ft[1:])]
            none = [b for ft, b in s.facts.items() if ft[0] == "p" and ft[1] == "empty"]
            rep.check(False in one or True in none, f.loc(), "build", "a group of one expression "
                      "has no value")
        else:
            some = True
            rep.check(top(v, 0), f.loc(), "build", "the value of a group is not its expression")
    rep.check(some, f.loc(), "build", "a group never has a value")


def parsing(P, rep):
    rep.rule("failure", "a text that is not an expression is an error and has no value")
    f = P.fn(NS + "::parse")
    dbg = [p["d"] for p in f.params if DEBUG in p["t"]]
    txt = [p["d"] for p in f.params if "basic_string" in p["t"]]
    if len(dbg) != 1 or len(txt) != 1:
        raise AnalysisBroken("expr::parse is not recognised")

    def watch(q, n):
        if q == "tao::pegtl::parse":
            return "parse"
        if q == DEBUG + "::set_error":
            return "error"
        if q == STATE + "::root":
            return "root"
        if n["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and \
                "memory_input" in n.get("cls", ""):
            return "input"
        return None

    def value(name, I, st, f2, node, n, obj, args):
        if name == "parse":
            key = n.get("fn", "")
            rep.check("expr@S@grammar" in key and "action" in key, f2.loc(node), "whole",
                      "what is parsed is not an expression")
            return [(st, ("q", "parsed"))]
        if name == "root":
            return [(st, ("q", "root"))]
        if name == "error":
            return [(st, None)]
        return None
    got = run(P, f, watch, value=value, frozen=(POPS,))
    if not any(e[0] == "parse" for s, v, evs in got for e in evs):
        raise AnalysisBroken("nothing is parsed")
    for s, v, evs in got:
        rep.ok()
        names = [e[0] for e in evs]
        ins = [e for e in evs if e[0] == "input"]
        for e in ins:
            rep.check(e[2] and e[2][0] == ("v", txt[0]), e[3], "whole",
                      "what is parsed is not the whole text")
        if v is None:
            continue                    # left by an exception
        if s.truth(("q", "parsed")) is not True:
            rep.check(v == NULL and "error" in names, f.loc(), "failure",
                      "a text that is not an expression is not an error")
        else:
            rep.check(v == ("q", "root") and "error" not in names, f.loc(), "failure",
                      "the value of the text is not the expression that was read")
    this = ("obj", DEBUG)
    F = lambda x: ("f", this, DEBUG + "::" + x)
    c = [x for x in P.fns(DEBUG + "::DebugExpression") if x.params and
         "basic_string" in x.params[0]["t"]]
    if len(c) != 1:
        raise AnalysisBroken("the constructor of DebugExpression is not found")
    c = c[0]

    def value2(name, I, st, f2, node, n, obj, args):
        return [(st, ("q", "parsed", I._rv(st, args[0]), strip(I._rv(st, args[1]))))]
    for s, v, evs in run(P, c, lambda q, n: "parse" if q == NS + "::parse" else None,
                         value=value2):
        rep.ok()
        r = s.store.get(F("root_"))
        texts = [("v", c.params[0]["d"]), F("expression_")]
        rep.check(r is not None and r[:2] == ("q", "parsed") and r[2] in texts and r[3] == this,
                  c.loc(), "failure", "the expression is not what its text says")
    f = P.fn(DEBUG + "::correct")
    for s, v, evs in run(P, f, lambda q, n: None):
        rep.ok()
        for good in (True, False):
            for root in (True, False):
                asg = {F("correct_"): good, F("root_"): root, ("eq", F("root_"), NULL): not root}
                if any(logic(ft, asg) not in (None, b) for ft, b in s.facts.items()):
                    continue
                rep.check(logic(v, asg) == (good and root), f.loc(), "failure",
                          "an expression with an error is taken for a correct one"
                          if not (good and root) else "a correct expression is refused")
    f = P.fn(DEBUG + "::set_error")
    for s, v, evs in run(P, f, lambda q, n: None):
        rep.check(s.store.get(F("correct_")) == FALSE, f.loc(), "failure",
                  "an error is not remembered")


def symbols(P, rep):
    rep.rule("symbol", "a name has one symbol, whose value is the one that was set for that name")
    this = ("obj", DEBUG)
    F = lambda x: ("f", this, DEBUG + "::" + x)
    SYM = NS + "::Symbol"
    rec = {fd["q"]: fd["t"] for fd in P.record(DEBUG)["fields"]}

    def fields(pred):
        return [("f", this, q) for q, t in rec.items() if pred(t)]
    S = fields(lambda t: "map<" in t and SYM in t)
    V = fields(lambda t: "map<" in t and ", long," in t)
    H = fields(lambda t: "map<" in t and "unsigned int *" in t)
    E = fields(lambda t: "vector<" in t and EXPR in t)
    sets = fields(lambda t: "_set<" in t and "basic_string" in t)
    if not all(len(x) == 1 for x in (S, V, H, E)) or len(sets) != 2:
        raise AnalysisBroken("the tables of DebugExpression are not recognised")
    S, V, H, E = S[0], V[0], H[0], E[0]
    rep.count("tables", 6)

    def watch(q, n):
        cls, _, m = q.rpartition("::")
        if cls.startswith("std::") and m in ("emplace", "insert", "try_emplace", "emplace_back",
                                             "push_back", "insert_or_assign", "clear", "erase"):
            return "assign" if m == "insert_or_assign" else \
                "put" if m not in ("clear", "erase") else "lose"
        if m in ("make_unique", "back"):
            return m
        if q == EXPR + "::set_value":
            return "set"
        if q == EXPR + "::eval":
            return "eval"
        if m == "operator[]=":
            return "assign"
        return None

    def value(name, I, st, f2, node, n, obj, args):
        if name == "make_unique":
            return [(st, ("q", "made", I._rv(st, args[0]) if args else ()))]
        if name == "back":
            return [(st, ("q", "last"))]
        if name == "put" and obj == E:
            return [(st, ("q", "last"))]
        if name == "eval":
            return [(st, ("q", "value", strip(obj)))]
        if name == "set":
            return [(st, None)]
        return None
    own = lambda t: t.q.startswith("hgdb::expr") or t.q.startswith(DEBUG)

    # one symbol for each name
    f = P.fn(DEBUG + "::add_symbol")
    name = ("v", f.params[0]["d"])
    for s, v, evs in run(P, f, watch, value=value, follow=own):
        rep.ok()
        known = [b for ft, b in s.facts.items() for x in (ft[1] if ft[0] == "found" else ft,)
                 if x[0] == "p" and x[1] in ("find", "count", "contains") and x[3] == name]
        made = [e for e in evs if e[0] == "put" and e[1] == E]
        listed = [e for e in evs if e[0] == "put" and e[1] in sets and e[2][0] == name]
        held = [e for e in evs if e[0] in ("put", "assign") and e[1] == S and e[2][0] == name and
                strip(e[2][1]) in (("q", "last"), ("q", "made", name))]
        good = made and all(strip(e[2][0]) == ("q", "made", name) for e in made)
        if known and all(known):
            rep.check(not made, f.loc(), "symbol", "a name that is known gets another symbol")
        else:
            rep.check(good and held and listed and len(made) == 1, f.loc(), "symbol",
                      "a new name does not get a symbol of its own")
        r = lookup(v) if v else None
        rep.check((r == (S, name)) or (held and strip(v) in (("q", "last"), ("q", "made", name))),
                  f.loc(), "symbol", "the symbol of a name is not the one that is used for it")
        if held:
            used = {e[1] for e in listed}
            if len(used) == 1:
                listing = used.pop()
                rep.counts.setdefault("listing", 1)
    names = sets

    # every value that was set reaches its symbol before anything is computed
    f = P.fn(DEBUG + "::eval")
    rep.rule("values", "the values that were set are the ones an expression is computed with, all "
             "of them, each time")

    def pair(x, cont, what):
        """x is the key/value of an arbitrary element of cont"""
        x = strip(x)
        return x[0] == "f" and x[2] in (("#0", "first") if what == 0 else ("#1", "second")) or \
            x[0] == "f" and x[2].endswith("::first" if what == 0 else "::second")

    def from_(x, cont):
        return any(y[0] == "it" and y[1] == cont for y in subterms(x))
    some = False
    for s, v, evs in run(P, f, watch, value=value, follow=own):
        rep.ok()
        root = s.truth(F("root_"))
        ev = [e for e in evs if e[0] == "eval"]
        if root is False or s.truth(("eq", F("root_"), NULL)):
            rep.check(not ev, f.loc(), "values", "an expression that has an error is computed")
            continue
        some = True
        rep.check(len(ev) == 1 and v == ("q", "value", F("root_")), f.loc(), "values",
                  "the value is not that of the whole expression")
        sets_ = [e for e in evs if e[0] == "set"]
        after = [e for e in sets_ if ev and evs.index(e) > evs.index(ev[0])]
        rep.check(not after, f.loc(), "values", "values are set after they are used")
        for e in sets_:
            c = lookup(e[1])
            rep.check(c is not None and c[0] == S and pair(c[1], V, 0) and from_(c[1], V) and
                      pair(e[2][0], V, 1) and from_(e[2][0], V), e[3], "values",
                      "a name is given another value than the one that was set for it")
        full(rep, s, "set", f, "values", "not every value that was set is used", V)
    rep.check(some, f.loc(), "values", "nothing is ever computed")
    setters(P, rep, watch, value, own, S, V, H, names, pair, from_, this)


def full(rep, s, what, f, rule, text, cont):
    """the loop that does `what` does it for every element"""
    mine = {l for l, names, how in s.auto[2] if what in names}
    for l, names, how in s.auto[2]:
        if l in mine:
            rep.check(what in names and how != "left", f.loc(), rule, text)


def setters(P, rep, watch, value, own, S, V, H, sets, pair, from_, this):
    f = P.fn(DEBUG + "::set_value")
    key, val = (("v", p["d"]) for p in f.params)
    for s, v, evs in run(P, f, watch, value=value, follow=own):
        rep.ok()
        got = [e for e in evs if e[0] == "assign" and e[1] == V and e[2] == (key, val)]
        again = [e for e in evs if e[0] == "put" and e[1] == V]
        rep.check(got and not again, f.loc(), "values", "a value that is set is not the one that "
                  "is used")
    f = P.fn(DEBUG + "::set_values")
    arg = ("v", f.params[0]["d"])
    looped = False
    for s, v, evs in run(P, f, watch, value=value, follow=own):
        rep.ok()
        for e in evs:
            if e[0] == "assign" and e[1] == V:
                looped = True
                rep.check(pair(e[2][0], arg, 0) and from_(e[2][0], arg) and pair(e[2][1], arg, 1),
                          e[3], "values", "a name is given another value than its own")
        full(rep, s, "assign", f, "values", "not every value is set", arg)
    rep.check(looped, f.loc(), "values", "the values are not set")
    # static values and the handles of the rest
    f = P.fn(DEBUG + "::set_static_values")
    arg = ("v", f.params[0]["d"])
    static = None
    looped = False
    for s, v, evs in run(P, f, watch, value=value, follow=own):
        rep.ok()
        st_ = [e for e in evs if e[0] == "set"]
        pt = [e for e in evs if e[0] == "put" and e[1] in sets]
        for e in st_:
            looped = True
            c = lookup(e[1])
            rep.check(c is not None and c[0] == S and pair(c[1], arg, 0) and from_(c[1], arg) and
                      pair(e[2][0], arg, 1) and from_(e[2][0], arg), e[3], "values",
                      "a name is given another static value than its own")
        for e in pt:
            static = e[1]
            rep.check(pair(e[2][0], arg, 0) and st_, e[3], "values", "a name is taken for one with "
                      "a static value although it has none")
        for l, names, how in s.auto[2]:
            if "put" in names:
                rep.check("set" in names, f.loc(), "values", "a name is taken for one with a "
                          "static value although it has none")
            rep.check(how != "left", f.loc(), "values", "not every static value is set")
    rep.check(looped and static is not None, f.loc(), "values", "static values are not set")
    required(P, rep, watch, value, own, static, sets, pair, from_)
    f = P.fn(DEBUG + "::set_resolved_symbol_handle")
    key, h = (("v", p["d"]) for p in f.params)
    some = False
    for s, v, evs in run(P, f, watch, value=value, follow=own):
        rep.ok()
        got = [e for e in evs if e[0] in ("put", "assign") and e[1] == H]
        for e in got:
            some = True
            rep.check(e[2][:2] == (key, h), e[3], "values", "a name is given another signal than "
                      "its own")
    rep.check(some, f.loc(), "values", "the signal of a name is not kept")


def required(P, rep, watch, value, own, static, sets, pair, from_):
    """the names whose values are still needed: those without a static value"""
    f = P.fn(DEBUG + "::get_required_symbols")
    listing = [x for x in sets if x != static]
    some = False
    for s, v, evs in run(P, f, watch, value=value, follow=own):
        rep.ok()
        for e in evs:
            if e[0] == "put" and e[1] not in sets:
                some = True
                rep.check(from_(e[2][0], listing[0]), e[3], "values", "a name that is asked for is "
                          "not one of the expression")
    rep.check(some, f.loc(), "values", "no name is asked for")

    # which elements are taken: decided in the loop
    seen = set()

    class _:
        pass

    def value3(name, I, st, f2, node, n, obj, args):
        if name == "put" and obj not in sets:
            k = I._rv(st, args[0])
            for ft, b in st.facts.items():
                x = ft[1] if ft[0] == "found" else ft
                if x[0] == "p" and x[1] in ("find", "contains", "count") and x[2] == static and \
                        strip(x[3]) == strip(k):
                    seen.add(("put", b))
            if not any(y[0] == "put" for y in seen):
                seen.add(("put", None))
        return None
    run(P, f, watch, value=value3, follow=own)
    rep.check(seen == {("put", False)}, f.loc(), "values", "the names that are asked for are not "
              "those without a static value")


def run_c13(P, rep, tier):
    evaluating(P, rep)
    grammar(P, rep)
    building(P, rep)
    parsing(P, rep)
    symbols(P, rep)
