"""Interprocedural, guard-aware dataflow over the extracted CFGs.

Abstract values are access-path terms.  A state holds
  env    variable -> term            (what a local, parameter or unnamed temporary currently holds)
  store  location term -> term       (what a field or other location currently holds, if known)
  facts  boolean term -> bool        (guards established on this path)
  auto   client automaton value
Block states are kept as a bounded set of disjuncts; beyond the bound, and at loop heads, disjuncts
with the same automaton value are joined (facts intersected, differing values forgotten).  Calls to
repository functions are analysed in place with the caller's terms bound to the parameters, so a
guard or an effect moved to a helper function is seen where it is used; calls that are not followed
forget everything they may write (transitive field-based mod sets).
"""
import re
import sys
from collections import defaultdict

from ir import CALLS, CTORS, STRIP, rel, pp

sys.setrecursionlimit(20000)

TRUE = ("c", True)
FALSE = ("c", False)
NULL = ("null",)

_sub_cache = {}


def subterms(t):
    r = _sub_cache.get(t)
    if r is None:
        s = {t}
        for x in t:
            if isinstance(x, tuple):
                s |= subterms(x)
        r = frozenset(s)
        _sub_cache[t] = r
    return r


def fields_in(t):
    return {x[2] for x in subterms(t) if len(x) == 3 and x[0] == "f"}


def neg(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == "not":
        return t[1]
    return ("not", t)


def is_const(t):
    return t[0] in ("c", "null", "e")


PURE_STD = {"size", "length", "empty", "find", "end", "begin", "cend", "cbegin", "count",
            "contains", "at", "front", "back", "c_str", "data", "str", "get", "has_value",
            "value", "joinable", "load", "operator bool", "operator*", "operator->", "operator[]",
            "substr", "rfind", "find_first_of", "find_last_of", "starts_with", "first", "second",
            "owns_lock", "string", "is_open", "use_count", "lock", "compare", "value_or",
            # rapidjson const interface
            "IsObject", "IsArray", "IsString", "IsNumber", "IsBool", "IsTrue", "IsFalse", "IsNull",
            "IsUint", "IsInt", "IsUint64", "IsInt64", "IsDouble", "IsFloat", "HasMember",
            "HasParseError", "FindMember", "MemberBegin", "MemberEnd", "GetString", "GetUint",
            "GetInt", "GetUint64", "GetInt64", "GetBool", "GetDouble", "GetObject", "GetArray",
            "Size", "Empty", "Is", "Get", "Begin", "End", "operator()", "GetParseError",
            "GetErrorOffset", "MemberCount", "GetStringLength", "GetType"}
# std members that do not change what their object designates although they are not const
FORWARDING = {"emplace", "emplace_back", "emplace_front", "try_emplace", "insert_or_assign",
              "emplace_hint", "make_pair", "make_tuple", "make_unique", "make_shared",
              "make_optional"}
NONMUT_STD = PURE_STD | {"join", "detach", "notify_all", "notify_one", "wait", "unlock", "try_lock"}


class State:
    __slots__ = ("env", "store", "facts", "auto", "_h")

    def __init__(self, env=None, store=None, facts=None, auto=None):
        self.env = env or {}
        self.store = store or {}
        self.facts = facts or {}
        self.auto = auto
        self._h = None

    def copy(self):
        return State(dict(self.env), dict(self.store), dict(self.facts), self.auto)

    def sig(self):
        return (frozenset(self.env.items()), frozenset(self.store.items()),
                frozenset(self.facts.items()), self.auto)

    # ---- reading and writing locations ----
    def load(self, loc):
        seen = 0
        while loc in self.store and seen < 20:
            loc = self.store[loc]
            seen += 1
        return loc

    def truth(self, t):
        k = t[0]
        if k == "c":
            return bool(t[1])
        if k == "null":
            return False
        if k in ("new", "addr", "str", "lam"):
            return True
        if k == "not":
            r = self.truth(t[1])
            return None if r is None else not r
        if k == "and":
            a, b = self.truth(t[1]), self.truth(t[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return self.facts.get(t)
        if k == "or":
            a, b = self.truth(t[1]), self.truth(t[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return self.facts.get(t)
        if k == "eq":
            a, b = t[1], t[2]
            if a == b:
                return True
            if is_const(a) and is_const(b):
                return a == b
            r = self.facts.get(t)
            if r is None and is_const(b):
                # another constant already established for a
                for ft, v in self.facts.items():
                    if v and ft[0] == "eq" and ft[1] == a and is_const(ft[2]) and ft[2] != b:
                        return False
            return r
        if k == "some":
            return True
        if k == "e":
            return bool(t[2])
        return self.facts.get(t)

    def assume(self, t, val):
        """False if the assumption contradicts what is known."""
        r = self.truth(t)
        if r is not None:
            if r != val:
                return False
            # keep going: and/or components may still be learnt
        k = t[0]
        if k == "not":
            return self.assume(t[1], not val)
        if k == "and":
            if val:
                return self.assume(t[1], True) and self.assume(t[2], True)
            if self.truth(t[1]) is True:
                return self.assume(t[2], False)
            if self.truth(t[2]) is True:
                return self.assume(t[1], False)
            self.facts[t] = False
            return True
        if k == "or":
            if not val:
                return self.assume(t[1], False) and self.assume(t[2], False)
            if self.truth(t[1]) is False:
                return self.assume(t[2], True)
            if self.truth(t[2]) is False:
                return self.assume(t[1], True)
            self.facts[t] = True
            return True
        if k in ("c", "null", "new", "addr", "str", "lam", "e"):
            return True
        self.facts[t] = val
        return True

    def kill(self, pred):
        """Forget every term for which pred(subterm set) holds."""
        dead = [t for t in self.facts if pred(subterms(t))]
        for t in dead:
            if not (State.frozen and self._frozen(t)):
                del self.facts[t]
        for v, t in list(self.env.items()):
            if t[0] == "ref":
                if pred(subterms(t[1]) - {t[1]}):
                    self.env[v] = ("ref", ("v", v))
                continue
            if pred(subterms(t)):
                self.env[v] = ("v", v)
        for loc, t in list(self.store.items()):
            if pred(subterms(t)) or pred(subterms(loc)):
                del self.store[loc]

    # objects nobody changes while the function runs (what a const parameter refers to)
    frozen = frozenset()

    @staticmethod
    def _frozen(t):
        while t[0] in ("f", "deref", "some", "p") and len(t) >= 2:
            if t[0] == "p":
                if len(t) != 3:
                    return False
                t = t[2]
            else:
                t = t[1]
        return t in State.frozen

    def kill_loc(self, loc):
        if loc[0] == "f":
            q = loc[2]
            self.kill(lambda s: any(x[0] == "f" and x[2] == q for x in s if len(x) == 3))
        elif loc[0] in ("idx", "elem", "deref"):
            self.kill(lambda s: loc in s)
        else:
            self.kill(lambda s: loc in s)

    def assign(self, loc, val):
        if loc[0] == "v":
            self.kill_loc(loc)
            if loc in subterms(val):
                val = ("v2", loc[1], hash(val) & 0xffff)
                val = loc
            self.env[loc[1]] = val
            return
        if loc in subterms(val):
            self.kill_loc(loc)
            return
        self.kill_loc(loc)
        self.store[loc] = val


def join(states):
    """Join of states with the same automaton value."""
    a = states[0].copy()
    for b in states[1:]:
        for v in list(a.env):
            if v not in b.env:
                del a.env[v]
            elif a.env[v] != b.env[v]:
                if a.env[v][0] == "ref" or b.env[v][0] == "ref":
                    a.env[v] = ("ref", ("v", v))
                else:
                    a.env[v] = ("v", v)
        for t in list(a.facts):
            if b.facts.get(t) != a.facts[t]:
                # a fact implied by b's other knowledge is kept
                if b.truth(t) is not a.facts[t]:
                    del a.facts[t]
        for loc in list(a.store):
            va, vb = a.store[loc], b.store.get(loc)
            if vb != va:
                if vb is not None and va[0] == "jc" and vb[0] == "jc":
                    a.store[loc] = ("jc", va[1].merge(vb[1]))
                else:
                    del a.store[loc]
    return a


class Client:
    """Hooks; override what an analysis needs."""
    max_disjuncts = 24
    max_depth = 8
    inline_size = 4000

    def on_call(self, I, st, f, node, n, obj, args):
        """Return None for default handling, or a list of (state, value term)."""
        return None

    def after_call(self, I, st, f, node, n, obj, args, val):
        pass

    def on_deref(self, I, st, f, node, term, what):
        pass

    def on_node(self, I, st, f, node, n, val):
        pass

    def on_assign(self, I, st, f, node, loc, val):
        pass

    def on_exit(self, I, st, f, val, depth):
        pass

    def on_algorithm(self, I, st, what, lid):
        pass

    def on_edge(self, I, st, f, b, succ):
        """control moves from block b to block succ of f."""

    def dyncast(self, I, st, v, t):
        return None

    def follow(self, I, st, callee, depth):
        return True

    def summary_value(self, I, st, f, node, n, obj, args):
        return None

    def join_key(self, st):
        return st.auto


class Interp:
    def __init__(self, prog, client):
        self.P = prog
        self.C = client
        self.stack = []
        self.analysed = set()
        self.calls_followed = 0
        self.calls_seen = 0
        self._mods = {}

    # ---- mod sets ----
    def modset(self, f):
        """Fields (qualified names) that f may write, directly or through callees."""
        if f.key in self._mods:
            return self._mods[f.key]
        seen = self.P.reachable([f], follow=("call", "lam"))
        res = set()
        for k in seen:
            res |= self.local_mods(self.P.funcs[k])
        self._mods[f.key] = res
        return res

    def local_mods(self, f):
        key = ("local", f.key)
        if key in self._mods:
            return self._mods[key]
        res = set()
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            k = n["k"]
            tgt = None
            if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and \
                    n["op"] not in ("==", "!=", "<=", ">="):
                tgt = n["c"][0]
            elif k == "UnaryOperator" and n["op"] in ("++", "--", "&"):
                tgt = n["c"][0]
            elif k == "CXXOperatorCallExpr" and n.get("args"):
                if n["op"] in ("=", "+=", "-=", "<<=", "++", "--", "[]") and not n.get("const"):
                    tgt = n["args"][0]
            elif k == "CXXMemberCallExpr" and not n.get("const"):
                nm = n.get("q", "").split("::")[-1]
                if nm not in NONMUT_STD and not self.P.targets(n.get("fn"), n.get("virt")):
                    tgt = n["obj"]
            if tgt is not None:
                self._field_path(f, tgt, res)
            if k in CALLS or k in CTORS:
                pts = n.get("pt", [])
                args = n.get("args", [])
                if k == "CXXOperatorCallExpr" and n.get("mem"):
                    args = args[1:]
                for a, t in zip(args, pts):
                    if t.endswith("&") and not t.startswith("const "):
                        self._field_path(f, a, res)
                if n.get("q") == "std::move":
                    self._field_path(f, args[0], res)
        self._mods[key] = res
        return res

    def _field_path(self, f, i, res):
        while i is not None and i >= 0:
            i = f.strip(i)
            n = f.nodes[i]
            if n["k"] == "MemberExpr" and n.get("field"):
                res.add(n["q"])
                # writing x.y also changes what x holds
                i = n["c"][0] if n.get("c") and not n["arrow"] else None
                continue
            if n["k"] == "ArraySubscriptExpr":
                i = n["c"][0]
                continue
            if n["k"] == "CXXOperatorCallExpr" and n["op"] == "[]":
                i = n["args"][0]
                continue
            if n["k"] == "CXXMemberCallExpr" and n.get("q", "").split("::")[-1] in ("at", "back",
                                                                                   "front"):
                i = n["obj"]
                continue
            return

    # ---- running a function ----
    def run(self, f, state, depth=0):
        """Returns list of (exit state, return term)."""
        self.analysed.add(f.key)
        self.stack.append(f)
        try:
            return self._run(f, state, depth)
        finally:
            self.stack.pop()

    def _run(self, f, state, depth):
        order = {b: i for i, b in enumerate(f.rpo())}
        instates = {f.entry: {self._sigkey(state): state}}
        pending = {f.entry}
        exits = []
        exit_sigs = set()
        loop_heads = self._loop_heads(f, order)
        done = defaultdict(set)
        rounds = 0
        while pending:
            rounds += 1
            if rounds > 20000:
                raise RuntimeError("no fixpoint in " + f.q)
            b = min(pending, key=lambda x: order.get(x, 1 << 30))
            pending.discard(b)
            blk = f.blocks[b]
            sts = instates.get(b, {})
            todo = [(sig, s) for sig, s in sts.items() if sig not in done[b]]
            for sig, s in todo:
                done[b].add(sig)
                for (succ, ns) in self._block(f, blk, s.copy(), depth):
                    self.C.on_edge(self, ns, f, b, succ)
                    if succ == f.exit:
                        val = ns.env.pop(("ret", f.key), None)
                        sg = (ns.sig(), val)
                        if sg not in exit_sigs:
                            exit_sigs.add(sg)
                            exits.append((ns, val))
                        continue
                    self._add(instates, succ, ns, loop_heads, done, pending)
        # merge exits if too many
        res = []
        if len(exits) > self.C.max_disjuncts:
            groups = defaultdict(list)
            for s, v in exits:
                tv = v if v is not None and is_const(v) else None
                groups[(self.C.join_key(s), tv)].append((s, v))
            for (k, tv), g in groups.items():
                vals = {v for _, v in g}
                j = join([s for s, _ in g])
                res.append((j, g[0][1] if len(vals) == 1 else
                            ("call", f.key, "joined")))
            exits = res
        for s, v in exits:
            self.C.on_exit(self, s, f, v, depth)
        return exits

    def _sigkey(self, st):
        return st.sig()

    def _add(self, instates, b, ns, loop_heads, done, pending):
        cur = instates.setdefault(b, {})
        sg = ns.sig()
        if sg in cur:
            return
        if b in loop_heads or len(cur) >= self.C.max_disjuncts:
            key = self.C.join_key(ns)
            same = [(g, s) for g, s in cur.items() if self.C.join_key(s) == key]
            if same:
                j = join([s for _, s in same] + [ns])
                jg = j.sig()
                if any(jg == g for g, _ in same):
                    # already covered by a weaker state
                    if len(same) == 1:
                        return
                for g, _ in same:
                    del cur[g]
                cur[jg] = j
                if jg not in done[b]:
                    pending.add(b)
                return
        cur[sg] = ns
        pending.add(b)

    def _loop_heads(self, f, order):
        heads = set()
        for b in f.rpo():
            for s in f._succ(b):
                if order.get(s, 0) <= order[b]:
                    heads.add(s)
        return heads

    # ---- one block ----
    def _block(self, f, blk, st, depth):
        """Yields (successor, state)."""
        states = [st]
        vals0 = {}
        out = []
        work = [(st, vals0)]
        for el in blk.els:
            nxt = []
            for s, vals in work:
                if isinstance(el, dict):
                    self._special(f, el, s, vals, depth)
                    nxt.append((s, vals))
                    continue
                n = f.nodes[el]
                if "try" in n and (n["k"] in CALLS or n["k"] in CTORS):
                    disp = f.try_dispatch.get(n["try"])
                    if disp is not None:
                        out.append((disp, s.copy()))
                res = self._node(f, el, n, s, vals, depth)
                for s2, v2 in res:
                    nxt.append((s2, v2))
            # bound the fan-out inside a block
            if len(nxt) > self.C.max_disjuncts:
                groups = defaultdict(list)
                for s, v in nxt:
                    groups[self.C.join_key(s)].append((s, v))
                nxt = []
                for k, g in groups.items():
                    v0 = dict(g[0][1])
                    for _, v in g[1:]:
                        for kk in list(v0):
                            if v.get(kk) != v0[kk]:
                                v0[kk] = ("call", f.key, kk, "j")
                    nxt.append((join([s for s, _ in g]), v0))
            work = nxt
            if not work:
                break
        if blk.noret:
            return out
        for s, vals in work:
            self._export(f, blk, s, vals)
            out.extend(self._terminate(f, blk, s, vals))
        return out

    def _export(self, f, blk, s, vals):
        """Values used by nodes of other blocks survive in the environment."""
        cross = self._cross(f)
        for nid, v in vals.items():
            if nid in cross:
                s.env[("n", f.key, nid)] = v

    def _cross(self, f):
        c = getattr(f, "_cross_nodes", None)
        if c is None:
            c = set()
            par = f.parents()
            for nid, (b, _) in f.where.items():
                up = list(par.get(nid, []))
                while up:
                    p = up.pop()
                    if p in f.where:
                        if f.where[p][0] != b:
                            c.add(nid)
                    elif f.nodes[p] and f.nodes[p]["k"] == "ParenExpr":
                        up += par.get(p, [])
            f._cross_nodes = c
        return c

    def _leaf_cond(self, f, i):
        """The sub-condition a block really decides when a terminator names a whole && / ||."""
        while True:
            n = f.nodes[i]
            if n["k"] in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups") and n.get("c"):
                inner = f.nodes[n["c"][0]]
                j = n["c"][0]
                while inner["k"] in ("ParenExpr", "ExprWithCleanups") and inner.get("c"):
                    j = inner["c"][0]
                    inner = f.nodes[j]
                if inner["k"] == "BinaryOperator" and inner["op"] in ("&&", "||") and \
                        j not in f.where:
                    i = j
                    continue
                return i
            if n["k"] == "BinaryOperator" and n["op"] in ("&&", "||") and i not in f.where:
                i = n["c"][1]
                continue
            return i

    def _terminate(self, f, blk, s, vals):
        succ = [x for x in blk.succ]
        t = blk.term
        if t and t["k"] == "SwitchStmt":
            cond = f.nodes[t["n"]]["cond"]
            v = self._value(f, cond, s, vals)
            out = []
            seen_consts = []
            default = None
            for sc in succ:
                if sc is None or sc < 0:
                    continue
                lab = f.blocks[sc].label
                if lab and lab["k"] == "CaseStmt":
                    # several case labels may stack on one block
                    for cc in self._case_consts(f, lab["n"]):
                        seen_consts.append(cc)
                        ns = s.copy()
                        if ns.assume(("eq", v, cc), True):
                            out.append((sc, ns))
                else:
                    default = sc
            if default is not None:
                ns = s.copy()
                ok = True
                for cc in seen_consts:
                    if not ns.assume(("eq", v, cc), False):
                        ok = False
                        break
                if ok and not self._enum_exhausted(v, seen_consts):
                    out.append((default, ns))
            return out
        if t and t["k"] == "CXXTryStmt":
            return [(x, s.copy()) for x in succ if x is not None and x >= 0]
        live = [x for x in succ if x is not None and x >= 0]
        if t and len(succ) == 2 and t.get("cond") is not None and \
                t["k"] not in ("GotoStmt", "BreakStmt", "ContinueStmt"):
            node = f.nodes[t["n"]]
            if t["k"] == "BinaryOperator":
                c = node["c"][0]
            else:
                c = t["cond"]
            c = self._leaf_cond(f, c)
            v = self._value(f, c, s, vals)
            out = []
            for x, val in ((succ[0], True), (succ[1], False)):
                if x is None or x < 0:
                    continue
                ns = s.copy()
                if ns.assume(v, val):
                    out.append((x, ns))
            return out
        if t and t["k"] == "CXXForRangeStmt" and len(succ) == 2:
            out = []
            node = f.nodes[t["n"]]
            rng = node.get("range")
            cont = s.env.get(("range", f.key, t["n"]))
            for x, val in ((succ[0], True), (succ[1], False)):
                if x is not None and x >= 0:
                    out.append((x, s.copy()))
            return out
        return [(x, s.copy()) for x in live]

    def _enum_exhausted(self, v, consts):
        """A switch over an enum with a case for every enumerator has no default path (values
        outside the enumeration are not produced by the repository's own code)."""
        ets = {c[1] for c in consts if c[0] == "e"}
        if len(ets) != 1 or len(consts) == 0:
            return False
        e = self.P.enums.get(next(iter(ets)))
        return bool(e) and {x["v"] for x in e["c"]} <= {c[2] for c in consts if c[0] == "e"}

    def _case_consts(self, f, lab):
        """constants of a case label, including directly nested labels (case a: case b:)."""
        res = []
        i = lab
        while i is not None and i >= 0 and f.nodes[i]["k"] == "CaseStmt":
            res.append(self._const(f, f.nodes[i]["c"][0]))
            break
        return res

    def _const(self, f, i):
        i = f.strip(i)
        n = f.nodes[i]
        if n["k"] == "DeclRefExpr" and n.get("dk") == "enum":
            return ("e", n["et"], n["v"])
        if n["k"] == "IntegerLiteral":
            return ("c", int(n["v"]))
        if n["k"] in ("CharacterLiteral", "CXXBoolLiteralExpr"):
            return ("c", n["v"])
        if n["k"] == "UnaryOperator" and n["op"] == "-":
            c = self._const(f, n["c"][0])
            return ("c", -c[1])
        return ("caseconst", f.key, i)

    # ---- special CFG elements ----
    def _special(self, f, el, s, vals, depth):
        if el["k"] == "init":
            v = self._value(f, el["e"], s, vals)
            this = s.env.get("this")
            if "field" in el and this is not None:
                loc = ("f", self._deref(this), el["field"])
                self.C.on_assign(self, s, f, el["e"], loc, v)
                s.assign(loc, v)
        elif el["k"] == "dtor":
            h = getattr(self.C, "on_dtor", None)
            if h:
                h(self, s, f, el)

    # ---- values ----
    def _value(self, f, i, s, vals):
        """Value of node i, which has been evaluated (or is pure enough to evaluate here)."""
        if i in vals:
            return vals[i]
        k = ("n", f.key, i)
        if k in s.env:
            return s.env[k]
        # evaluate lazily without effects
        n = f.nodes[i]
        r = self._pure(f, i, n, s, vals)
        vals[i] = r
        return r

    def _deref(self, p):
        if p[0] == "addr":
            return p[1]
        if p[0] == "some":
            return p[1]
        return ("deref", p)

    def _load_var(self, s, d, is_ref=False):
        t = s.env.get(d)
        if t is None:
            return ("v", d)
        return t

    def _pure(self, f, i, n, s, vals):
        k = n["k"]
        c = n.get("c", [])
        V = lambda j: self._value(f, j, s, vals)
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr",
                 "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXDynamicCastExpr"):
            if not c:
                return ("opaque", f.key, i)
            v = V(c[0])
            ck = n.get("ck", "")
            if k == "CXXDynamicCastExpr":
                r = self.C.dyncast(self, s, self._rv(s, v), n["t"])
                return r if r is not None else ("dyncast", v, n["t"])
            if ck == "LValueToRValue":
                return self._read(s, v)
            if ck in ("NullToPointer", "NullToMemberPointer"):
                return NULL
            if ck in ("PointerToBoolean", "IntegralToBoolean"):
                return self._truthy(s, self._rv(s, v), n, f, c[0])
            if ck == "IntegralCast" and v[0] == "e":
                return ("c", v[2])
            if ck == "IntegralCast" and v[0] == "c" and isinstance(v[1], bool) and n["t"] != "bool":
                return ("c", int(v[1]))
            return v
        if k in ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
                 "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
                 "CXXDefaultArgExpr", "CXXDefaultInitExpr", "CXXStdInitializerListExpr"):
            return V(c[0]) if c else ("opaque", f.key, i)
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk == "enum":
                return ("e", n["et"], n["v"])
            if dk == "fn":
                return ("fnref", n["fn"])
            if dk in ("var", "param", "static"):
                t = s.env.get(n["d"])
                if t is not None and t[0] == "ref":
                    return t[1]
                return ("v", n["d"])
            if dk == "global":
                if n["q"].startswith("std::numeric_limits<") and n["q"].endswith(">::digits"):
                    lim = LIMITS.get(n["q"][len("std::numeric_limits<"):-len(">::digits")])
                    if lim:
                        return ("c", lim[1].bit_length())
                return ("g", n["q"])
            if dk == "binding":
                base = s.env.get(n.get("dd"))
                if base is None:
                    b = ("v", n.get("dd"))
                else:
                    b = base[1] if base[0] == "ref" else base
                return ("f", b, "#%d" % n.get("bi", 0))
            return ("opaque", f.key, i)
        if k == "CXXThisExpr":
            return s.env.get("this", ("addr", ("obj", f.cls)))
        if k == "MemberExpr":
            if n.get("field"):
                b = V(c[0])
                if n["arrow"]:
                    b = self._rv(s, b)
                    base = self._deref(b)
                else:
                    base = b
                return ("f", base, n["q"])
            if "d" in n:
                return ("g", n["q"])
            return V(c[0]) if c else ("opaque", f.key, i)
        if k in ("IntegerLiteral",):
            return ("c", int(n["v"]))
        if k in ("CXXBoolLiteralExpr", "CharacterLiteral"):
            return ("c", n["v"])
        if k == "StringLiteral":
            return ("str", n.get("v", ""))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return NULL
        if k == "UnaryOperator":
            op = n["op"]
            v = V(c[0])
            if op == "!":
                return neg(self._truthy(s, self._rv(s, v), n, f, c[0]))
            if op == "*":
                return self._deref(self._rv(s, v))
            if op == "&":
                return ("addr", v)
            if op == "-" and v[0] == "c":
                return ("c", -v[1])
            if op in ("++", "--"):
                return ("opaque", f.key, i)
            return ("un", op, self._rv(s, v))
        if k == "BinaryOperator":
            op = n["op"]
            if op in ("&&", "||"):
                return self._logical(f, i, n, s, vals)
            a, b = V(c[0]), V(c[1])
            if op == ",":
                return b
            return self._binop(s, op, self._rv(s, a), self._rv(s, b), f, n)
        if k == "CXXRewrittenBinaryOperator":
            a = self._rv(s, V(n["lhs"]))
            b = self._rv(s, V(n["rhs"]))
            return self._binop(s, n["op"], a, b, f, n)
        if k == "ConditionalOperator":
            got = []
            for j in c[1:3]:
                j = self._unparen(f, j)
                kk = ("n", f.key, j)
                if j in vals or kk in s.env:
                    got.append(vals.get(j, s.env.get(kk)))
                    s.env.pop(kk, None)
            if len(got) == 1:
                return self._rv(s, got[0]) if not n.get("lv") else got[0]
            return ("opaque", f.key, i)
        if k == "ArraySubscriptExpr":
            return ("idx", self._rv(s, V(c[0])), self._rv(s, V(c[1])))
        if k == "LambdaExpr":
            return ("lam", n["lam"])
        if k in CTORS:
            return self._construct(f, i, n, s, vals)
        if k == "InitListExpr":
            if len(c) == 0:
                return ("zero", n.get("t", ""))
            if len(c) == 1 and not n.get("fields"):
                return V(c[0])
            return ("tuple", f.key, i)
        if k == "CXXNewExpr":
            return ("new", f.key, i)
        if k == "CXXScalarValueInitExpr" or k == "ImplicitValueInitExpr":
            t = n.get("t", "")
            if t.endswith("*"):
                return NULL
            return ("c", False) if t == "bool" else ("c", 0)
        if k in CALLS:
            return ("call", f.key, i)
        return ("opaque", f.key, i)

    def _rv(self, s, v):
        """content of a location term (identity for values)."""
        return self._read(s, v)

    def _read(self, s, loc):
        for _ in range(20):
            if loc[0] == "v":
                t = s.env.get(loc[1])
                if t is None or t == loc:
                    return loc
                if t[0] == "ref":
                    loc = t[1]
                    continue
                if t[0] == "v" and t[1] == loc[1]:
                    return loc
                loc = t
                continue
            if loc in s.store:
                nl = s.store[loc]
                if nl == loc:
                    return loc
                loc = nl
                continue
            if loc[0] == "g":
                g = self.P.globals.get(loc[1])
                if g is not None and g["const"]:
                    cv = self._global_const(g)
                    if cv is not None:
                        return cv
            return loc
        return loc

    def _global_const(self, g):
        i = g["init"]
        while True:
            n = g["nodes"][i]
            if n["k"] in STRIP and n.get("c"):
                i = n["c"][0]
                continue
            break
        if n["k"] == "StringLiteral":
            return ("str", n.get("v", ""))
        if n["k"] == "IntegerLiteral":
            return ("c", int(n["v"]))
        if n["k"] == "CXXBoolLiteralExpr":
            return ("c", n["v"])
        if n["k"] == "DeclRefExpr" and n.get("dk") == "enum":
            return ("e", n["et"], n["v"])
        return None

    def _truthy(self, s, v, n, f, child):
        if v[0] == "c":
            return TRUE if v[1] else FALSE
        if v[0] == "null":
            return FALSE
        if v[0] in ("new", "addr", "str"):
            return TRUE
        if v[0] == "e":
            return TRUE if v[2] else FALSE
        # `if (v.size())`
        if v[0] == "p" and v[1] == "size":
            return neg(("p", "empty", v[2]))
        if v[0] == "p" and v[1] == "count":
            return ("found", ("p", "find", v[2], v[3]))
        return v

    @staticmethod
    def _unparen(f, i):
        while f.nodes[i]["k"] == "ParenExpr":
            i = f.nodes[i]["c"][0]
        return i

    def _logical(self, f, i, n, s, vals):
        op = n["op"]
        c = n["c"]
        c = [self._unparen(f, x) for x in c]
        rk = ("n", f.key, c[1])
        lk = ("n", f.key, c[0])
        rhs = vals.get(c[1], s.env.get(rk))
        lhs = vals.get(c[0], s.env.get(lk))
        s.env.pop(rk, None)
        s.env.pop(lk, None)
        if rhs is not None:
            return self._rv(s, rhs)
        return FALSE if op == "&&" else TRUE

    def _binop(self, s, op, a, b, f, n):
        if op in ("==", "!="):
            r = self._eq(s, a, b)
            return r if op == "==" else neg(r)
        if op in ("<", ">", "<=", ">="):
            # canonical: only '<'
            if op == ">":
                return self._lt(a, b_first=b)
            if op == "<":
                return self._lt(b, b_first=a)
            if op == "<=":
                return neg(self._lt(a, b_first=b))
            return neg(self._lt(b, b_first=a))
        if op == "=":
            return b
        if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
            try:
                if op == "+":
                    return ("c", a[1] + b[1])
                if op == "-":
                    return ("c", a[1] - b[1])
                if op == "*":
                    return ("c", a[1] * b[1])
            except Exception:
                pass
        if op == "|":
            return ("bin", op, a, b)
        return ("bin", op, a, b)

    def _lt(self, big, b_first):
        """term for  b_first < big"""
        a, b = b_first, big
        if a[0] == "c" and b[0] == "c":
            return TRUE if a[1] < b[1] else FALSE
        # 0 < size  <=> !empty ; size < 1 <=> empty
        if a == ("c", 0) and b[0] == "p" and b[1] == "size":
            return neg(("p", "empty", b[2]))
        if b == ("c", 1) and a[0] == "p" and a[1] == "size":
            return ("p", "empty", a[2])
        return ("lt", a, b)

    def _eq(self, s, a, b):
        if a == b:
            return TRUE
        if is_const(b) and not is_const(a):
            pass
        elif is_const(a) and not is_const(b):
            a, b = b, a
        elif is_const(a) and is_const(b):
            if a[0] == b[0]:
                return TRUE if a == b else FALSE
            if {a[0], b[0]} == {"e", "c"}:
                av = a[2] if a[0] == "e" else a[1]
                bv = b[2] if b[0] == "e" else b[1]
                return TRUE if av == bv else FALSE
        if b == NULL:
            if a[0] in ("new", "addr", "str", "lam"):
                return FALSE
            return neg(a)
        if b == TRUE and b[1] is True:
            return a
        if b == FALSE:
            return neg(a)
        if b[0] == "str" and not a[0] == "str":
            return ("eq", a, b)
        if a[0] == "str" and b[0] == "str":
            return TRUE if a == b else FALSE
        if a[0] == "str":
            return ("eq", b, a)
        # size() == 0
        if a[0] == "p" and a[1] == "size" and b == ("c", 0):
            return ("p", "empty", a[2])
        if a[0] == "p" and a[1] == "count" and b == ("c", 0):
            return neg(("found", ("p", "find", a[2], a[3])))
        # iterator comparisons with end()
        for x, y in ((a, b), (b, a)):
            if y[0] == "p" and y[1] == "end":
                if x[0] == "p" and x[1] == "begin" and x[2] == y[2]:
                    return ("p", "empty", x[2])
                if x[0] == "end" and x[1] == y[2]:
                    return TRUE
                if x[0] == "it" and s.facts.get(("first", x)):
                    # nothing has been taken from the container yet
                    return ("p", "empty", x[1])
                return neg(("found", x))
            if y[0] == "p" and y[1] == "MemberEnd":
                return neg(("found", x))
        # optional == value: the optional is not compared as a pointer
        if repr(a) > repr(b) and not is_const(b):
            a, b = b, a
        return ("eq", a, b)

    def _construct(self, f, i, n, s, vals):
        args = n.get("args", [])
        if (n.get("copy") or n.get("move")) and args:
            return self._rv(s, self._value(f, args[0], s, vals))
        cls = n.get("cls", "")
        real = [a for a in args if f.nodes[a]["k"] != "CXXDefaultArgExpr"]
        if cls in ("std::optional",):
            if not real:
                return NULL
            v = self._rv(s, self._value(f, real[0], s, vals))
            t = f.nodes[f.strip(real[0])].get("t", "")
            if "nullopt_t" in t:
                return NULL
            if v[0] in ("zero",) or v == NULL:
                return NULL
            src_t = f.nodes[real[0]].get("t", "")
            if src_t.startswith("std::optional") or src_t.startswith("const std::optional"):
                return v
            return ("some", v)
        if cls in ("std::unique_ptr", "std::shared_ptr"):
            if not real:
                return NULL
            return self._rv(s, self._value(f, real[0], s, vals))
        if cls in ("std::basic_string", "std::basic_string_view", "std::function",
                   "std::reference_wrapper", "std::filesystem::path",
                   "std::filesystem::__cxx11::path") and real:
            v = self._rv(s, self._value(f, real[0], s, vals))
            if len(real) == 1:
                return v
            return ("obj", f.key, i)
        if cls in ("std::basic_string",) and not real:
            return ("str", "")
        return ("obj", f.key, i)

    # ---- evaluating a node in the CFG (with effects) ----
    def _node(self, f, i, n, s, vals, depth):
        k = n["k"]
        if k in CALLS:
            return self._call(f, i, n, s, vals, depth)
        if k in CTORS:
            return self._ctor(f, i, n, s, vals, depth)
        if k == "DeclStmt":
            for v in n["vars"]:
                self._declare(f, i, v, s, vals)
            return [(s, vals)]
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and \
                n["op"] not in ("==", "!=", "<=", ">="):
            c = n["c"]
            loc = self._value(f, c[0], s, vals)
            if n["op"] == "=":
                val = self._rv(s, self._value(f, c[1], s, vals))
            else:
                rhs = self._rv(s, self._value(f, c[1], s, vals))
                val = self._bool_update(f, n, s, loc, rhs)
                if val is None and n["op"] in ("&=", "|="):
                    old = self._rv(s, loc)
                    if sum(1 for x in subterms(old)) + sum(1 for x in subterms(rhs)) < 12:
                        val = ("bin", n["op"][0], old, rhs)
                if val is None and n["op"] in ("&=", "|=", ">>=", "<<=") and not self._in_loop(f, i):
                    val = ("bin", n["op"][:-1], self._rv(s, loc), rhs)
                if val is None:
                    val = ("opaque", f.key, i)
                    self._fresh(s, val)
            self.C.on_assign(self, s, f, i, loc, val)
            s.assign(loc, val)
            vals[i] = loc
            self.C.on_node(self, s, f, i, n, loc)
            return [(s, vals)]
        if k == "UnaryOperator" and n["op"] in ("++", "--"):
            loc = self._value(f, n["c"][0], s, vals)
            old = self._rv(s, loc)
            if old[0] == "q":
                # a value that stands for what was there at the beginning
                val = ("bin", n["op"][0], old, ("c", 1))
            else:
                val = ("opaque", f.key, i)
                self._fresh(s, val)
            self.C.on_assign(self, s, f, i, loc, val)
            s.assign(loc, val)
            vals[i] = old if n.get("post") and old[0] == "q" else loc
            return [(s, vals)]
        if k == "ReturnStmt":
            c = n.get("c", [])
            v = None
            if c:
                v = self._value(f, c[0], s, vals)
                if not f.rt.endswith("&"):
                    v = self._rv(s, v)
            self.C.on_node(self, s, f, i, n, v)
            s.env[("ret", f.key)] = v if v is not None else ("void",)
            return [(s, vals)]
        v = self._pure(f, i, n, s, vals)
        vals[i] = v
        if k == "UnaryOperator" and n["op"] == "*":
            self.C.on_deref(self, s, f, i, self._rv(s, self._value(f, n["c"][0], s, vals)), "*")
        elif k == "MemberExpr" and n.get("arrow") and n.get("c"):
            self.C.on_deref(self, s, f, i, self._rv(s, self._value(f, n["c"][0], s, vals)), "->")
        self.C.on_node(self, s, f, i, n, v)
        return [(s, vals)]

    def _fresh(self, s, t):
        s.kill(lambda sub: t in sub)

    def _declare(self, f, i, v, s, vals):
        d = v["d"]
        s.kill(lambda sub: ("v", d) in sub)
        if v["static"]:
            s.env.pop(d, None)
            return
        if v["init"] is None or v["init"] < 0:
            t = v["t"]
            if t.startswith("std::optional<") or t.startswith("std::unique_ptr<") or \
                    t.startswith("std::shared_ptr<"):
                s.env[d] = NULL
            else:
                s.env.pop(d, None)
            return
        val = self._value(f, v["init"], s, vals)
        if v["ref"]:
            s.env[d] = ("ref", val)
        else:
            # a by-value copy of a container or other class: a distinct object with the same
            # known properties is not modelled; pointers/optionals/scalars copy their value term
            val = self._rv(s, val)
            t = v["t"]
            if t.startswith("const "):
                t = t[6:]
            if val == ("v", d) or (self._is_container(t) and not v.get("bind") and
                                   not t.startswith("std::basic_string<") and
                                   val[0] not in ("call", "obj", "str", "new", "tuple", "zero", "q", "ev")):
                s.env.pop(d, None)
            elif val[0] == "obj" and len(val) == 3 and any(
                    l[0] == "f" and l[1] == val for l in s.store):
                # the temporary was constructed in place: the variable is the object
                self._rename(s, val, ("v", d))
                s.env.pop(d, None)
            else:
                s.env[d] = val
        h = getattr(self.C, "on_declare", None)
        if h:
            h(self, s, f, i, v, val)

    @staticmethod
    def _own(s, o):
        """a variable that shares its value with another location is about to change"""
        if o[0] == "v":
            t = s.env.get(o[1])
            if t is not None and t[0] not in ("ref", "call", "obj", "tuple", "zero", "new", "q", "ev"):
                s.env.pop(o[1], None)

    @staticmethod
    def _rename(s, a, b):
        s.store = {_subst(l, a, b) if a in subterms(l) else l:
                   _subst(t, a, b) if a in subterms(t) else t for l, t in s.store.items()}
        s.facts = {_subst(t, a, b) if a in subterms(t) else t: v for t, v in s.facts.items()}
        for k, t in list(s.env.items()):
            if a in subterms(t):
                s.env[k] = _subst(t, a, b)

    @staticmethod
    def _is_container(t):
        return t.startswith(("std::vector<", "std::map<", "std::set<", "std::unordered_",
                             "std::basic_string<", "std::deque<", "std::list<", "std::tuple<",
                             "std::pair<", "std::array<", "std::queue<"))

    def _callargs(self, f, n, s, vals):
        args = n.get("args", [])
        obj = None
        if n["k"] == "CXXMemberCallExpr":
            obj = self._value(f, n["obj"], s, vals)
            if n.get("arrow"):
                obj = self._deref(self._rv(s, obj))
            return obj, [self._value(f, a, s, vals) for a in args], args
        if n["k"] == "CXXOperatorCallExpr" and n.get("mem"):
            obj = self._value(f, args[0], s, vals)
            return obj, [self._value(f, a, s, vals) for a in args[1:]], args[1:]
        return None, [self._value(f, a, s, vals) for a in args], args

    def _call(self, f, i, n, s, vals, depth):
        self.calls_seen += 1
        obj, args, argn = self._callargs(f, n, s, vals)
        if n["k"] == "CXXMemberCallExpr" and n.get("arrow"):
            self.C.on_deref(self, s, f, i, self._rv(s, self._value(f, n["obj"], s, vals)), "call")
        if n["k"] == "CXXOperatorCallExpr" and n["op"] in ("*", "->") and len(n["args"]) == 1:
            self.C.on_deref(self, s, f, i, self._rv(s, self._value(f, n["args"][0], s, vals)),
                            n["op"])
        r = self.C.on_call(self, s, f, i, n, obj, args)
        if r is not None:
            out = []
            for s2, v in r:
                v2 = dict(vals)
                v2[i] = v if v is not None else ("void",)
                out.append((s2, v2))
            return out
        if n.get("noret"):
            return []
        if obj is not None and n.get("q", "").startswith("std::optional") and args and \
                n["q"].endswith("::value_or"):
            return self._value_or(f, i, n, s, vals, obj, args)
        val = self._std(f, i, n, s, vals, obj, args, argn)
        if val is not None:
            vals[i] = val
            self.C.after_call(self, s, f, i, n, obj, args, val)
            return [(s, vals)]
        # repository function?
        key = n.get("fn")
        targets = self.P.targets(key, n.get("virt", False)) if key else []
        # calling a lambda or std::function object
        if not targets and n["k"] == "CXXOperatorCallExpr" and n["op"] == "()":
            lam = self._rv(s, obj) if obj is not None else None
            if lam is not None and lam[0] == "lam":
                targets = self.P.lambda_bodies(lam[1])
        if len(targets) > 1 and obj is not None and obj[0] == "obj" and len(obj) == 2:
            targets = self._devirtualise(targets, obj[1])
        if len(targets) == 1 and self._may_follow(targets[0], s, depth):
            return self._inline(f, i, n, s, vals, targets[0], obj, args, argn, depth)
        if targets:
            v = self.C.summary_value(self, s, f, i, n, obj, args)
            for t in targets:
                m = self.modset(t)
                if m:
                    s.kill(lambda sub: any(x[0] == "f" and x[2] in m for x in sub if len(x) == 3))
            self._kill_refs(f, n, s, args, argn)
        else:
            v = None
            outs = self._external(f, i, n, s, vals, obj, args, argn, depth)
            if outs is not None:
                return outs
        t = v if v is not None else ("call", f.key, i)
        if v is None:
            self._fresh(s, t)
        vals[i] = t
        self.C.after_call(self, s, f, i, n, obj, args, t)
        return [(s, vals)]

    def _devirtualise(self, targets, cls):
        """the override that runs for an object whose dynamic class is known"""
        level = [cls]
        while level:
            hit = [t for t in targets if t.cls in level]
            if hit:
                return hit
            level = [b for c in level for b in self.P.records.get(c, {}).get("bases", [])]
        return targets

    def _kill_refs(self, f, n, s, args, argn):
        pts = n.get("pt", [])
        if n.get("q", "").startswith("std::") and \
                n["q"].split("::")[-1].split("<")[0] in FORWARDING:
            return      # T&& parameters: what is passed is at most moved from
        for a, t, an in zip(args, pts, argn):
            if t.endswith("&&"):
                continue
            if (t.endswith("&") and not t.startswith("const ")) or \
                    (t.endswith("*") and not t.startswith("const ") and a[0] == "addr"):
                loc = a[1] if a[0] == "addr" else a
                self._forget(s, loc)

    @staticmethod
    def _forget(s, loc):
        s.kill_loc(loc)
        if loc[0] == "v" and s.env.get(loc[1], loc)[0] != "ref":
            s.env.pop(loc[1], None)

    def _may_follow(self, t, s, depth):
        if t in self.stack or depth >= self.C.max_depth:
            return False
        if not t.blocks or len(t.nodes) > self.C.inline_size:
            return False
        return self.C.follow(self, s, t, depth)

    def _inline(self, f, i, n, s, vals, t, obj, args, argn, depth):
        self.calls_followed += 1
        saved_this = s.env.get("this")
        if t.cls and not t.static and not t.is_lambda:
            s.env["this"] = ("addr", obj) if obj is not None else ("addr", ("obj", t.cls))
        for p, a in zip(t.params, args):
            pt = p["t"]
            if pt.endswith("&"):
                s.env[p["d"]] = ("ref", a)
                if a == ("v", p["d"]):
                    s.env.pop(p["d"])
            else:
                v = self._rv(s, a)
                s.env[p["d"]] = v
        outs = self.run(t, s, depth + 1)
        res = []
        local = self._locals(t)
        opaque = ("call", f.key, i)
        merged = {}
        for s2, v in outs:
            if saved_this is not None:
                s2.env["this"] = saved_this
            elif "this" in s2.env:
                del s2.env["this"]
            v = v if v is not None else ("void",)
            v = self._escape(s2, v, local, opaque)
            for d in local:
                s2.env.pop(d, None)
            for kk in [x for x in s2.env if isinstance(x, tuple) and x[0] in ("n", "ret") and
                       x[1] == t.key]:
                del s2.env[kk]
            if local:
                s2.kill(lambda sub: any(x[0] == "v" and x[1] in local for x in sub))
            sg = (s2.sig(), v)
            if sg in merged:
                continue
            merged[sg] = 1
            v2 = dict(vals)
            v2[i] = v
            self.C.after_call(self, s2, f, i, n, obj, args, v)
            res.append((s2, v2))
        return res

    def _escape(self, s2, v, local, opaque):
        """rename callee locals in the returned term; carry known facts about it over."""
        if any(x[0] == "v" and x[1] in local for x in subterms(v)):
            if v[0] == "some":
                return ("some", self._escape(s2, v[1], local, opaque))
            # facts directly about v survive under the new name
            keep = {}
            for ft, b in s2.facts.items():
                if v in subterms(ft):
                    keep[_subst(ft, v, opaque)] = b
            s2.kill(lambda sub: opaque in sub)
            for ft, b in keep.items():
                if not any(x[0] == "v" and x[1] in local for x in subterms(ft)):
                    s2.facts[ft] = b
            return opaque
        return v

    def _locals(self, t):
        r = getattr(t, "_local_set", None)
        if r is None:
            r = {p["d"] for p in t.params}
            for n in t.nodes:
                if n and n["k"] == "DeclStmt":
                    for v in n["vars"]:
                        if not v["static"]:
                            r.add(v["d"])
                        for b in v.get("bind", []):
                            r.add(b["d"])
            r = frozenset(r)
            t._local_set = r
        return r

    def _ctor(self, f, i, n, s, vals, depth):
        args = [self._value(f, a, s, vals) for a in n.get("args", [])]
        r = self.C.on_call(self, s, f, i, n, None, args)
        if r is not None:
            out = []
            for s2, v in r:
                v2 = dict(vals)
                v2[i] = v
                out.append((s2, v2))
            return out
        val = self._construct(f, i, n, s, vals)
        if i in self._self_inits(f) and s.env.get("this") is not None:
            # a base class or delegated constructor runs on the object itself
            val = self._deref(s.env["this"])
            targets = self.P.targets(n.get("fn"), False) if n.get("fn") else []
            if len(targets) == 1 and self._may_follow(targets[0], s, depth) and \
                    getattr(self.C, "follow_ctors", False):
                res = self._inline(f, i, n, s, vals, targets[0], val, args, n.get("args", []),
                                   depth)
                for s2, v2 in res:
                    v2[i] = val
                return res
            vals[i] = val
            self.C.after_call(self, s, f, i, n, None, args, val)
            return [(s, vals)]
        if n.get("move") and n.get("args"):
            loc = args[0]
            t = f.nodes[i].get("t", "")
            if loc[0] in ("v", "f") and (t.startswith("std::unique_ptr")):
                s.assign(loc, NULL)
        if val[0] == "obj" and len(val) == 3:
            if val[1:] == (f.key, i):
                # a copy or move yields the value of its source, which keeps its known properties
                self._fresh(s, val)
            key = n.get("fn")
            targets = self.P.targets(key, False) if key else []
            if len(targets) == 1 and self._may_follow(targets[0], s, depth) and \
                    getattr(self.C, "follow_ctors", False):
                res = self._inline(f, i, n, s, vals, targets[0], val, args, n.get("args", []),
                                   depth)
                for s2, v2 in res:
                    v2[i] = val
                return res
            self._lambda_args(f, i, n, s, vals, args, depth)
        vals[i] = val
        self.C.after_call(self, s, f, i, n, None, args, val)
        return [(s, vals)]

    def _in_loop(self, f, i):
        r = getattr(f, "_nodes_in_loops", None)
        if r is None:
            r = {e for body in f.loops().values() for b in body for e in f.blocks[b].els
                 if isinstance(e, int)}
            f._nodes_in_loops = r
        return i in r

    def _self_inits(self, f):
        r = getattr(f, "_self_init_nodes", None)
        if r is None:
            r = set()
            for b in f.blocks.values():
                for e in b.els:
                    if isinstance(e, dict) and e.get("k") == "init" and \
                            ("base" in e or e.get("delegate")):
                        r.add(f.strip(e["e"]))
            f._self_init_nodes = r
        return r

    def _lambda_args(self, f, i, n, s, vals, args, depth):
        pass

    def _external(self, f, i, n, s, vals, obj, args, argn, depth):
        """Call to a function without a body here: receiver and non-const references change."""
        q = n.get("q", "")
        nm = q.split("::")[-1]
        if obj is not None and not n.get("const") and nm not in NONMUT_STD:
            self._forget(s, obj)
        elif n["k"] == "CXXOperatorCallExpr" and n["op"] in ("++", "--", "+=", "-=") and args:
            self._forget(s, args[0])
        self._kill_refs(f, n, s, args, argn)
        # a lambda handed to an algorithm may run any number of times
        lams = []
        for a in args:
            v = self._rv(s, a)
            if v[0] == "lam":
                for t in self.P.lambda_bodies(v[1]):
                    lams.append(t)
        if lams and self._runs_lambda_now(q) and all(self._may_follow(t, s, depth) for t in lams):
            return self._algorithm(f, i, n, s, vals, obj, args, lams, depth)
        return None

    def _algorithm(self, f, i, n, s, vals, obj, args, lams, depth):
        """a library algorithm that calls lambdas: not at all, or for an arbitrary element"""
        nm = n.get("q", "").split("::")[-1]
        ends = {"all_of": FALSE, "any_of": TRUE, "none_of": FALSE}.get(nm)
        none = {"all_of": TRUE, "any_of": FALSE, "none_of": TRUE}.get(nm)
        first = self._rv(s, args[0]) if args else None
        lid = (f.key, ("alg", i))
        if nm in ("find_if", "find_if_not") and first is not None and first[0] == "it":
            none = ("end", first[1])
        done = [(s, none)]
        cur = s.copy()
        if first is not None and first[0] == "it":
            # the algorithm runs from the beginning of a container
            e = ("p", "empty", first[1])
            if not s.assume(e, True):
                done = []
            if not cur.assume(e, False):
                return [(x, {**vals, i: v if v is not None else ("call", f.key, i)})
                        for x, v in done]
        self.C.on_algorithm(self, cur, "enter", lid)
        cur = [(cur, None)]
        for t in lams:
            nxt = []
            local = self._locals(t)
            for c, _ in cur:
                if first is not None and first[0] == "it" and t.params:
                    p0 = t.params[0]
                    e = self._deref(first)
                    c.env[p0["d"]] = ("ref", e) if p0["t"].endswith("&") else self._rv(c, e)
                for s2, v in self.run(t, c, depth + 1):
                    r = None
                    if none is not None and none[0] != "end" and v is not None:
                        b = s2.truth(v)
                        if b is not None:
                            r = TRUE if b is (nm != "none_of") else FALSE
                    for d in local:
                        s2.env.pop(d, None)
                    s2.kill(lambda sub: any(x[0] == "v" and x[1] in local for x in sub))
                    if nm in ("find_if", "find_if_not") and v is not None and \
                            first is not None and first[0] == "it" and ("found", first) not in \
                            s2.facts:
                        for b in (True, False):
                            s3 = s2.copy()
                            if not s3.assume(v, b):
                                continue
                            s3.facts.pop(("first", first), None)
                            if b is (nm == "find_if"):
                                s3.facts[("found", first)] = True
                                r = first
                            else:
                                s3.kill(lambda sub: first in sub)
                                r = ("end", first[1])
                            self._leave_lambda(s3, local)
                            self.C.on_algorithm(self, s3, "left", lid)
                            nxt.append((s3, r))
                        continue
                    early = none is not None and r == ends or nm.startswith("find")
                    self.C.on_algorithm(self, s2, "left" if early else "next", lid)
                    nxt.append((s2, r))
            cur = nxt
        res = []
        seen = set()
        for s2, r in done + cur:
            t = ("call", f.key, i)
            self._fresh(s2, t)
            sg = (s2.sig(), r)
            if sg in seen:
                continue
            seen.add(sg)
            v2 = dict(vals)
            v2[i] = r if r is not None else t
            self.C.after_call(self, s2, f, i, n, obj, args, v2[i])
            res.append((s2, v2))
        return res

    @staticmethod
    def _leave_lambda(s, local):
        for d in local:
            s.env.pop(d, None)
        s.kill(lambda sub: any(x[0] == "v" and x[1] in local for x in sub))

    def _bool_update(self, f, n, s, loc, rhs):
        """x &= y and x |= y on booleans"""
        if n["op"] not in ("&=", "|=") or f.nodes[n["c"][0]].get("t") != "bool":
            return None
        old = self._rv(s, loc)
        a, b = s.truth(old), s.truth(rhs)
        stop = n["op"] == "|="
        if a is stop or b is stop:
            return TRUE if stop else FALSE
        if a is not None and b is not None:
            return FALSE if stop else TRUE
        if a is not None:
            return rhs
        if b is not None:
            return old
        return None

    def _value_or(self, f, i, n, s, vals, obj, args):
        o = self._rv(s, obj)
        known = s.truth(o)
        out = []
        for b in (True, False):
            if known is not None and known is not b:
                continue
            s2 = s.copy()
            if known is None and not s2.assume(o, b):
                continue
            v2 = dict(vals)
            v2[i] = self._rv(s2, self._deref(o)) if b else self._rv(s2, args[0])
            self.C.after_call(self, s2, f, i, n, obj, args, v2[i])
            out.append((s2, v2))
        return out

    def _runs_lambda_now(self, q):
        return q.startswith("std::") and q.split("::")[-1] in (
            "for_each", "any_of", "all_of", "none_of", "find_if", "sort", "stable_sort",
            "transform", "count_if", "remove_if", "copy_if", "accumulate", "find_if_not",
            "partition", "lower_bound", "upper_bound", "max_element", "min_element", "erase_if",
            "for_each_n", "generate")

    def _std(self, f, i, n, s, vals, obj, args, argn):
        """Values of well-known library calls; None if not known."""
        q = n.get("q", "")
        nm = q.split("::")[-1]
        k = n["k"]
        rv = lambda x: self._rv(s, x)
        if self.P.targets(n.get("fn"), False):
            return None
        if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref"):
            return args[0]
        if q in ("std::make_unique", "std::make_shared", "std::make_optional"):
            t = ("new", f.key, i)
            self._fresh(s, t)
            return t
        if k == "CXXOperatorCallExpr":
            op = n["op"]
            if op in ("*", "->") and len(n["args"]) == 1:
                p = rv(args[0] if obj is None else obj)
                if op == "->":
                    return p
                return self._deref(p)
            if op == "=" and obj is not None:
                loc = obj
                v = rv(args[0])
                at = f.nodes[argn[0]].get("t", "")
                ot = f.nodes[n["args"][0]].get("t", "")
                if "nullopt_t" in at or v == NULL:
                    v = NULL
                elif ot.startswith("std::optional") and not at.startswith("std::optional") and \
                        not at.startswith("const std::optional"):
                    v = ("some", v) if v[0] != "zero" else NULL
                elif v[0] == "zero":
                    v = NULL
                # moved-from unique_ptr
                src = f.strip(argn[0])
                self.C.on_assign(self, s, f, i, loc, v)
                moved = None
                sn = f.nodes[src]
                if sn["k"] == "CallExpr" and sn.get("q") == "std::move" and \
                        at.startswith("std::unique_ptr"):
                    moved = args[0]
                s.assign(loc, v)
                if moved is not None and moved != loc and moved[0] in ("v", "f"):
                    if v == moved or moved in subterms(v):
                        # the value now lives in loc
                        s.store.pop(loc, None)
                        nn = s.truth(v)
                        s.assign(moved, NULL)
                        if nn is not None:
                            s.assume(loc, nn)
                    else:
                        s.assign(moved, NULL)
                return loc
            if op in ("==", "!=") and len(n["args"]) == 2:
                a, b = [rv(x) for x in (([obj] if obj is not None else []) + args)]
                ta = f.nodes[n["args"][0]].get("t", "")
                tb = f.nodes[n["args"][1]].get("t", "")
                if "nullopt_t" in ta or "nullptr_t" in ta:
                    a, b = b, NULL
                elif "nullopt_t" in tb or "nullptr_t" in tb:
                    b = NULL
                elif ("optional<" in ta) != ("optional<" in tb):
                    # optional == value holds only if engaged
                    o, v = (a, b) if "optional<" in ta else (b, a)
                    r = ("and", o, self._eq(s, self._deref(o), v))
                    return r if op == "==" else neg(r)
                r = self._eq(s, a, b)
                return r if op == "==" else neg(r)
            if op == "!" and len(args) + (obj is not None) == 1:
                return neg(rv(obj if obj is not None else args[0]))
            if op == "[]" and obj is not None:
                # map[] inserts: not pure, but names a location
                return ("idx", rv(obj), rv(args[0]))
            if op in ("<", ">", "<=", ">=") and len(n["args"]) == 2:
                a, b = [rv(x) for x in (([obj] if obj is not None else []) + args)]
                return self._binop(s, op, a, b, f, n)
            if op in ("<<", ">>") and len(n["args"]) == 2:
                return n["args"] and self._value(f, n["args"][0], s, vals)
            return None
        if k == "CXXMemberCallExpr" and obj is not None:
            o = obj
            if nm == "operator bool" or nm == "has_value":
                return self._truthy(s, rv(o), n, f, n["obj"])
            if nm in ("get", "operator->") and ("_ptr" in f.nodes[n["obj"]].get("t", "")):
                return rv(o)
            if nm == "value" and "optional<" in f.nodes[n["obj"]].get("t", ""):
                return self._deref(rv(o))
            if nm == "reset":
                v = rv(args[0]) if args else NULL
                self.C.on_assign(self, s, f, i, o, v)
                s.assign(o, v)
                return ("void",)
            if nm in ("begin", "cbegin"):
                return ("p", "begin", rv(o))
            if nm in ("end", "cend"):
                return ("p", "end", rv(o))
            if nm in ("find",) and len(args) >= 1:
                return ("p", "find", rv(o), rv(args[0]))
            if nm == "contains":
                return ("found", ("p", "find", rv(o), rv(args[0])))
            if nm in ("size", "length", "Size"):
                return ("p", "size", rv(o))
            if nm in ("empty", "Empty"):
                return ("p", "empty", rv(o))
            if nm == "load" and not args or nm == "operator __int_type":
                return rv(o)
            if nm == "store" and len(args) >= 1:
                v = rv(args[0])
                self.C.on_assign(self, s, f, i, o, v)
                s.assign(o, v)
                return ("void",)
            if nm in ("clear",) and o is not None:
                self._own(s, o)
                s.kill_loc(o)
                s.facts[("p", "empty", rv(o))] = True
                return ("void",)
            if nm in ("emplace_back", "push_back", "emplace_front", "push_front", "push"):
                self._own(s, o)
                r = rv(o)
                s.kill(lambda sub: any(x[0] == "p" and x[2] == r for x in sub if len(x) > 2))
                s.facts[("p", "empty", r)] = False
                return ("idx", r, ("last",))
            if nm in PURE_STD and n.get("const"):
                return ("p", nm) + tuple([rv(o)] + [rv(a) for a in args])
            if nm in PURE_STD and nm in ("at", "front", "back", "FindMember", "MemberBegin",
                                         "MemberEnd"):
                return ("p", nm) + tuple([rv(o)] + [rv(a) for a in args])
        if q.startswith("rapidjson::") and nm in PURE_STD and obj is not None:
            return ("p", nm) + tuple([rv(o) for o in [obj] + args])
        if q.startswith("std::numeric_limits<") and nm in ("max", "min", "lowest"):
            lim = LIMITS.get(q[len("std::numeric_limits<"):].rsplit(">::", 1)[0])
            if lim:
                return ("c", lim[1] if nm == "max" else lim[0])
        if q in ("std::get",):
            m = re.search(r"@get<#Vl(\d+)#", n.get("fn", ""))
            if m and args:
                a = args[0]
                if a[0] == "tuple" and len(a) > int(m.group(1)) + 1:
                    return a[int(m.group(1)) + 1]
                return ("f", a if n.get("lv") else rv(a), "#" + m.group(1))
            return ("p", "get", rv(args[0]), ("c", n.get("rt", "")))
        if q.split("<")[0] in ("std::begin", "std::cbegin"):
            return ("p", "begin", rv(args[0]))
        if q.split("<")[0] in ("std::end", "std::cend"):
            return ("p", "end", rv(args[0]))
        if q in ("std::find", "std::find_if", "std::find_if_not", "std::lower_bound"):
            return None
        return None


LIMITS = {}
for _n, _b in (("char", 8), ("short", 16), ("int", 32), ("long", 64), ("long long", 64)):
    LIMITS[_n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    LIMITS["unsigned " + _n if _n != "char" else "unsigned char"] = (0, (1 << _b) - 1)


def _subst(t, a, b):
    if t == a:
        return b
    return tuple(_subst(x, a, b) if isinstance(x, tuple) else x for x in t)
