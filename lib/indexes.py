"""Which indices counted loops visit: the index arithmetic of the source, evaluated symbolically
where possible and over every value of its parameters in a range otherwise (it is linear in them up
to a division by a small constant)."""


class Unknown(Exception):
    pass


class Arith:
    """integer expressions of one function (and of lambdas within it)"""

    def __init__(self, P, f):
        self.P = P
        self.f = f
        self.init = {}
        self.written = set()
        for g in [f] + lambdas_in(P, f):
            for n in g.nodes:
                if not n:
                    continue
                if n["k"] == "DeclStmt":
                    for v in n.get("vars", []):
                        self.init[v["d"]] = (g, v.get("init"))
                if n["k"] in ("BinaryOperator", "CompoundAssignOperator") and \
                        n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    t = g.nodes[g.strip(n["c"][0])]
                    if t["k"] == "DeclRefExpr":
                        self.written.add(t["d"])
                if n["k"] == "UnaryOperator" and n.get("op") in ("++", "--"):
                    t = g.nodes[g.strip(n["c"][0])]
                    if t["k"] == "DeclRefExpr":
                        self.written.add(t["d"])

    def eval(self, g, i, env, size):
        n = g.nodes[i]
        k = n["k"]
        if k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "CXXStaticCastExpr",
                 "CXXFunctionalCastExpr", "CStyleCastExpr", "MaterializeTemporaryExpr",
                 "ConstantExpr", "InitListExpr", "CXXBindTemporaryExpr") and len(n["c"]) == 1:
            return self.eval(g, n["c"][0], env, size)
        if k == "IntegerLiteral":
            return int(n["v"])
        if k == "CXXBoolLiteralExpr":
            return int(bool(n["v"]))
        if k == "DeclRefExpr":
            d = n.get("d")
            if d in env:
                return env[d]
            if d in self.init and d not in self.written and self.init[d][1] is not None:
                h, j = self.init[d]
                return self.eval(h, j, env, size)
            raise Unknown(n.get("n"))
        if k == "CXXMemberCallExpr" and n.get("q", "").split("::")[-1] == "size":
            return size
        if k == "CallExpr" and n.get("q") in ("std::min", "std::max") and len(n["args"]) == 2:
            v = [self.eval(g, a, env, size) for a in n["args"]]
            return min(v) if n["q"] == "std::min" else max(v)
        if k == "ConditionalOperator":
            c = self.eval(g, n["c"][0], env, size)
            return self.eval(g, n["c"][1 if c else 2], env, size)
        if k == "UnaryOperator" and n["op"] in ("-", "+", "!"):
            v = self.eval(g, n["c"][0], env, size)
            return {"-": -v, "+": v, "!": int(not v)}[n["op"]]
        if k == "BinaryOperator":
            op = n["op"]
            a = self.eval(g, n["c"][0], env, size)
            if op == "&&" and not a:
                return 0
            if op == "||" and a:
                return 1
            b = self.eval(g, n["c"][1], env, size)
            if op in ("/", "%") and b == 0:
                raise Unknown("/0")
            fn = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b,
                  "%": lambda: a % b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                  ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b,
                  "&&": lambda: bool(b), "||": lambda: bool(b), ">>": lambda: a >> b,
                  "<<": lambda: a << b}.get(op)
            if fn is None:
                raise Unknown(op)
            return int(fn())
        raise Unknown(k)

    def loop(self, g, i):
        """(variable, init node, condition node, step) of a counted for loop"""
        n = g.nodes[i]
        if n["k"] != "ForStmt" or len(n["c"]) != 4:
            raise Unknown(n["k"])
        d, c, s, body = n["c"]
        dn = g.nodes[d]
        if dn["k"] != "DeclStmt" or not dn.get("vars"):
            raise Unknown("loop variable")
        sn = g.nodes[g.strip(s)]
        t = g.nodes[g.strip(sn["c"][0])] if sn.get("c") else {}
        var = next((v for v in dn["vars"] if v["d"] == t.get("d")), None)
        if var is None:
            raise Unknown("step")
        # the body must not move the variable
        for x in g.subtree(body):
            m = g.nodes[x]
            if m and (m["k"] == "CompoundAssignOperator" or m["k"] == "UnaryOperator" and
                      m.get("op") in ("++", "--") or m["k"] == "BinaryOperator" and m["op"] == "="):
                if g.nodes[g.strip(m["c"][0])].get("d") == var["d"]:
                    raise Unknown("moved in the body")
        if sn["k"] == "UnaryOperator" and sn["op"] in ("++", "--"):
            step = lambda v, env, size: v + (1 if sn["op"] == "++" else -1)
        elif sn["k"] == "CompoundAssignOperator" and sn["op"] in ("+=", "-="):
            step = lambda v, env, size: v + (1 if sn["op"] == "+=" else -1) * \
                self.eval(g, sn["c"][1], env, size)
        else:
            raise Unknown("step")
        env0 = {v["d"]: v.get("init") for v in dn["vars"]}
        return var["d"], env0, c, step

    def visited(self, g, i, env, size, limit=2000):
        """values of the loop variable of the loop at i"""
        d, inits, c, step = self.loop(g, i)
        env = dict(env)
        for v, e in inits.items():
            if e is None:
                raise Unknown("init")
            env[v] = self.eval(g, e, env, size)
        res = []
        while self.eval(g, c, env, size):
            res.append(env[d])
            env[d] = step(env[d], env, size)
            if len(res) > limit:
                raise Unknown("endless")
        return d, res


def lambdas_in(P, f):
    res, todo = [], [f]
    while todo:
        g = todo.pop()
        for i, n in enumerate(g.nodes):
            if n and n["k"] == "LambdaExpr":
                for b in P.lambda_bodies(n["lam"]):
                    if b not in res:
                        res.append(b)
                        todo.append(b)
    return res


def parents(f):
    res = {}
    for i, n in enumerate(f.nodes):
        if not n:
            continue
        kids = list(n.get("c") or [])
        for k in ("cond", "then", "else", "body", "init", "range"):
            if isinstance(n.get(k), int):
                kids.append(n[k])
        for c in kids:
            if isinstance(c, int):
                res.setdefault(c, i)
    return res
