"""Program model on top of the extractor's dump: functions, CFGs, classes, enums, call graph."""
import re
from collections import defaultdict

from extract import REPO, AnalysisBroken, extract

STRIP = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr",
         "CXXBindTemporaryExpr", "CXXFunctionalCastExpr", "ConstantExpr", "CXXStaticCastExpr",
         "CStyleCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "SubstNonTypeTemplateParmExpr",
         "CXXDefaultArgExpr", "CXXDefaultInitExpr", "CXXStdInitializerListExpr",
         "CXXDynamicCastExpr"}
CALLS = {"CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "UserDefinedLiteral"}
CTORS = {"CXXConstructExpr", "CXXTemporaryObjectExpr"}


class Block:
    __slots__ = ("id", "els", "succ", "term", "label", "preds", "noret")

    def __init__(self, b):
        self.id = b["id"]
        self.els = b["e"]
        self.succ = [s for s in b["s"]]
        self.term = b.get("t")
        self.label = b.get("lab")
        self.noret = b.get("noret", False)
        self.preds = []


class Func:
    def __init__(self, d, tu, vbase):
        self.d = d
        self.key = d["key"]
        self.q = d["q"]
        self.n = d["n"]
        self.tu = tu
        self.file = d["file"]
        self.line = d["line"]
        self.endline = d.get("endline", self.line)
        self.params = d["params"]
        self.cls = d.get("cls")
        self.rt = d["rt"]
        self.nodes = d["nodes"]
        self.is_lambda = d.get("lambda", False)
        self.parent = d.get("parent")
        self.overrides = d.get("overrides", [])
        self.ctor = d.get("ctor", False)
        self.dtor = d.get("dtor", False)
        self.access = d.get("access")
        self.static = d.get("static", False)
        self.vbase = vbase
        self.blocks = {}
        self.entry = self.exit = None
        self.try_dispatch = {}
        if "cfg" in d:
            for b in d["cfg"]["blocks"]:
                self.blocks[b["id"]] = Block(b)
            self.entry = d["cfg"]["entry"]
            self.exit = d["cfg"]["exit"]
            for b in self.blocks.values():
                for s in b.succ:
                    if s is not None and s >= 0:
                        self.blocks[s].preds.append(b.id)
                if b.term and b.term["k"] == "CXXTryStmt":
                    self.try_dispatch[b.term["n"]] = b.id
        # where each node is evaluated
        self.where = {}
        for b in self.blocks.values():
            for i, e in enumerate(b.els):
                if isinstance(e, int):
                    self.where.setdefault(e, (b.id, i))
                elif e.get("k") == "init":
                    self.where.setdefault(e["e"], (b.id, i))
        self._rpo = None
        self._parents = None

    def rpo(self):
        if self._rpo is None:
            seen, order = set(), []
            stack = [(self.entry, iter(self._succ(self.entry)))]
            seen.add(self.entry)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self._succ(s))))
                        break
                else:
                    order.append(b)
                    stack.pop()
            for disp in self.try_dispatch.values():
                if disp not in seen:
                    st = [disp]
                    sub = []
                    while st:
                        x = st.pop()
                        if x in seen:
                            continue
                        seen.add(x)
                        sub.append(x)
                        st.extend(self._succ(x))
                    order = sub[::-1] + order if False else order
                    order = list(reversed(sub)) + order
            self._rpo = list(reversed(order))
        return self._rpo

    def _succ(self, b):
        return [s for s in self.blocks[b].succ if s is not None and s >= 0]

    def loops(self):
        """loop head -> blocks of the natural loop (head included)."""
        r = getattr(self, "_loops", None)
        if r is None:
            order = {b: i for i, b in enumerate(self.rpo())}
            preds = defaultdict(set)
            for b in order:
                for s in self._succ(b):
                    preds[s].add(b)
            r = {}
            for b in order:
                for s in self._succ(b):
                    if s in order and order[s] <= order[b]:
                        body = r.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(p for p in preds[x] if p in order)
            self._loops = r
        return r

    def strip(self, i):
        while i is not None and i >= 0:
            n = self.nodes[i]
            k = n["k"]
            if k in STRIP and n.get("c"):
                i = n["c"][0]
                continue
            if k in CTORS and (n.get("copy") or n.get("move")) and n.get("args"):
                i = n["args"][0]
                continue
            return i
        return i

    def node(self, i):
        return self.nodes[i]

    def sn(self, i):
        i = self.strip(i)
        return self.nodes[i] if i is not None and i >= 0 else None

    def line_of(self, i):
        return self.nodes[i]["l"]

    def loc(self, i=None):
        if i is None:
            return "%s:%d" % (rel(self.file), self.line)
        n = self.nodes[i]
        return "%s:%d" % (rel(n.get("f", self.file)), n["l"])

    def parents(self):
        if self._parents is None:
            p = defaultdict(list)
            for i, n in enumerate(self.nodes):
                if not n:
                    continue
                for c in n.get("c", []):
                    p[c].append(i)
            self._parents = p
        return self._parents

    def subtree(self, i):
        st, seen = [i], set()
        while st:
            x = st.pop()
            if x is None or x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            n = self.nodes[x]
            st.extend(n.get("c", []))
            for k in ("cond", "then", "else", "sub", "body", "range"):
                v = n.get(k)
                if isinstance(v, int):
                    st.append(v)

    def calls(self):
        for i, n in enumerate(self.nodes):
            if n and n["k"] in CALLS or n and n["k"] in CTORS:
                yield i, n

    def reachable_nodes(self):
        """ids of nodes evaluated in CFG blocks reachable from entry (or from a catch dispatch)."""
        res = set()
        for b in self.rpo():
            for e in self.blocks[b].els:
                if isinstance(e, int):
                    res.add(e)
                elif e.get("k") == "init":
                    res.add(e["e"])
        return res

    def __repr__(self):
        return "<%s %s:%d>" % (self.q, rel(self.file), self.line)


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


class Program:
    def __init__(self):
        dumps = extract()
        self.units = sorted(dumps)
        self.funcs = {}
        self.by_q = defaultdict(list)
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.global_by_d = {}
        self.errors = {}
        vbase = 0
        for tu, (src, d) in enumerate(sorted(dumps.items())):
            vbase = tu * 10000000
            if d["errors"]:
                self.errors[src] = d["log"][:2000]
            for f in d["functions"]:
                if f["key"] in self.funcs:
                    continue
                self._shift(f, vbase)
                fn = Func(f, tu, vbase)
                self.funcs[fn.key] = fn
                self.by_q[fn.q].append(fn)
            for r in d["records"]:
                self.records.setdefault(r["q"], r)
            for e in d["enums"]:
                self.enums.setdefault(e["q"], e)
            for g in d["globals"]:
                g["tu"] = tu
                g["d"] += vbase
                for n in g["nodes"]:
                    if n and "d" in n:
                        n["d"] += vbase
                self.globals.setdefault(g["q"], g)
                self.global_by_d[g["d"]] = g
        self.impls = defaultdict(list)
        for f in self.funcs.values():
            for o in f.overrides:
                self.impls[o].append(f.key)
        self._callees = {}
        self._modset = {}
        self.subclasses = defaultdict(set)
        for q, r in self.records.items():
            for b in r["bases"]:
                self.subclasses[b].add(q)
        bad = [f.q for f in self.funcs.values() if f.d.get("err")]
        self.unparsed = bad

    @staticmethod
    def _shift(f, vbase):
        for p in f["params"]:
            p["d"] += vbase
        for n in f["nodes"]:
            if not n:
                continue
            for k in ("d", "dd", "lv_d"):
                if k in n:
                    n[k] += vbase
            for v in n.get("vars", []):
                v["d"] += vbase
                for b in v.get("bind", []):
                    b["d"] += vbase
            for c in n.get("caps", []):
                if "d" in c:
                    c["d"] += vbase
        for b in f.get("cfg", {}).get("blocks", []):
            for e in b["e"]:
                if isinstance(e, dict) and "d" in e:
                    e["d"] += vbase

    # ---- lookups; a vanished anchor is an analysis error, never a verdict ----
    def fn(self, q, required=True):
        fs = [f for f in self.by_q.get(q, []) if f.blocks]
        if not fs:
            if required:
                raise AnalysisBroken("anchor not found: function " + q)
            return None
        return fs[0]

    def fns(self, q):
        return [f for f in self.by_q.get(q, []) if f.blocks]

    def record(self, q):
        if q not in self.records:
            raise AnalysisBroken("anchor not found: class " + q)
        return self.records[q]

    def enum(self, q):
        if q not in self.enums:
            raise AnalysisBroken("anchor not found: enum " + q)
        return self.enums[q]

    def targets(self, key, virt):
        """Functions with a body that a call to `key` may run."""
        res = []
        if key in self.funcs and self.funcs[key].blocks:
            res.append(self.funcs[key])
        if virt:
            for k in self.impls.get(key, []):
                res.append(self.funcs[k])
        return res

    def callees(self, f):
        """[(node id, callee Func)] incl. constructors and lambdas created (kind 'lam')."""
        if f.key in self._callees:
            return self._callees[f.key]
        res = []
        for i, n in enumerate(f.nodes):
            if not n:
                continue
            if n["k"] in CALLS or n["k"] in CTORS:
                k = n.get("fn")
                if k:
                    for t in self.targets(k, n.get("virt", False)):
                        res.append((i, t, "call"))
            elif n["k"] == "LambdaExpr":
                for t in self.lambda_bodies(n["lam"]):
                    res.append((i, t, "lam"))
            elif n["k"] == "DeclRefExpr" and n.get("dk") == "fn":
                for t in self.targets(n["fn"], False):
                    res.append((i, t, "ref"))
        self._callees[f.key] = res
        return res

    def lambda_bodies(self, key):
        if key in self.funcs:
            return [self.funcs[key]]
        # generic lambda: every instantiation
        pre = key.split("#")[0].split("@c:")[0]
        return [f for k, f in self.funcs.items() if k.startswith(pre + "#") or k == pre or
                k.startswith(pre + "@")]

    def reachable(self, roots, follow=("call", "lam", "ref")):
        seen = {}
        st = [(r, None) for r in roots]
        while st:
            f, via = st.pop()
            if f.key in seen:
                continue
            seen[f.key] = via
            for i, t, kind in self.callees(f):
                if kind in follow:
                    st.append((t, (f, i)))
        return seen

    def bases_of(self, q):
        res, st = set(), [q]
        while st:
            x = st.pop()
            if x in res:
                continue
            res.add(x)
            st.extend(self.records.get(x, {}).get("bases", []))
        return res

    def derived_of(self, q):
        res, st = set(), [q]
        while st:
            x = st.pop()
            if x in res:
                continue
            res.add(x)
            st.extend(self.subclasses.get(x, ()))
        return res


def pp(f, i, depth=0):
    """Readable form of an expression (for reports)."""
    if i is None or i < 0 or depth > 12:
        return "?"
    i = f.strip(i)
    n = f.nodes[i]
    k = n["k"]
    c = n.get("c", [])
    if k == "DeclRefExpr":
        return n["n"]
    if k == "MemberExpr":
        if not c:
            return n["n"]
        b = pp(f, c[0], depth + 1)
        return n["n"] if b == "this" else b + ("->" if n["arrow"] else ".") + n["n"]
    if k == "CXXThisExpr":
        return "this"
    if k in ("IntegerLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
        return str(n["v"])
    if k == "StringLiteral":
        return '"%s"' % n.get("v", "")
    if k == "CXXNullPtrLiteralExpr":
        return "nullptr"
    if k == "CXXMemberCallExpr":
        return "%s(%s)" % (pp(f, n["callee"], depth + 1),
                           ", ".join(pp(f, a, depth + 1) for a in n["args"]))
    if k == "CXXOperatorCallExpr":
        a = [pp(f, x, depth + 1) for x in n["args"]]
        if len(a) == 1:
            return "%s%s" % (n["op"], a[0])
        if n["op"] == "[]":
            return "%s[%s]" % tuple(a[:2])
        if n["op"] == "()":
            return "%s(%s)" % (a[0], ", ".join(a[1:]))
        return (" %s " % n["op"]).join(a)
    if k == "CallExpr":
        return "%s(%s)" % (n.get("q", "?"), ", ".join(pp(f, a, depth + 1) for a in n["args"]))
    if k in CTORS:
        return "%s(%s)" % (n["cls"].split("::")[-1], ", ".join(pp(f, a, depth + 1)
                                                               for a in n["args"]))
    if k in ("BinaryOperator", "CompoundAssignOperator") and len(c) == 2:
        return "%s %s %s" % (pp(f, c[0], depth + 1), n["op"], pp(f, c[1], depth + 1))
    if k == "UnaryOperator":
        return n["op"] + pp(f, c[0], depth + 1)
    if k == "ArraySubscriptExpr":
        return "%s[%s]" % (pp(f, c[0], depth + 1), pp(f, c[1], depth + 1))
    if k == "ConditionalOperator":
        return "%s ? %s : %s" % tuple(pp(f, x, depth + 1) for x in c[:3])
    if c:
        return "%s(%s)" % (k, ", ".join(pp(f, x, depth + 1) for x in c))
    return k
