"""The PEG grammar that a set of pegtl rule types describes, read from their base classes."""
from extract import AnalysisBroken

DIGIT = frozenset("0123456789")
ALPHA = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
XDIGIT = DIGIT | frozenset("abcdefABCDEF")
SPACE = frozenset(" \t\n\r\v\f")
ALL = frozenset(map(chr, range(1, 127)))
SETS = {"digit": DIGIT, "alpha": ALPHA, "alnum": DIGIT | ALPHA, "xdigit": XDIGIT, "space": SPACE,
        "blank": frozenset(" \t"), "any": ALL, "lower": frozenset(c for c in ALPHA if c.islower()),
        "upper": frozenset(c for c in ALPHA if c.isupper()),
        "identifier_first": ALPHA | {"_"}, "identifier_other": ALPHA | DIGIT | {"_"}}
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "'": "'", "\\": "\\", "v": "\v", "f": "\f"}


def parse_type(s):
    """nested (name, [args]); a character argument is ("'", c)"""
    pos = 0

    def ty():
        nonlocal pos
        while pos < len(s) and s[pos] == " ":
            pos += 1
        if s[pos] == "'":
            pos += 1
            c = s[pos]
            if c == "\\":
                pos += 1
                c = ESC.get(s[pos])
                if c is None:
                    raise AnalysisBroken("unknown character in the rule %s" % s)
            pos += 2
            return ("'", c)
        a = pos
        while pos < len(s) and s[pos] not in "<>,":
            pos += 1
        name = s[a:pos].strip()
        args = []
        if pos < len(s) and s[pos] == "<":
            pos += 1
            while True:
                while s[pos] == " ":
                    pos += 1
                if s[pos] == ">":
                    pos += 1
                    break
                args.append(ty())
                while pos < len(s) and s[pos] == " ":
                    pos += 1
                if s[pos] == ",":
                    pos += 1
        return (name, args)
    return ty()


def seq(xs):
    out = []
    for x in xs:
        if x[0] == "seq":
            out += x[1]
        else:
            out.append(x)
    return out[0] if len(out) == 1 else ("seq", out)


def alt(xs):
    out = []
    for x in xs:
        if x[0] == "alt":
            out += x[1]
        else:
            out.append(x)
    return out[0] if len(out) == 1 else ("alt", out)


class Grammar:
    def __init__(self, P, ns):
        self.P = P
        self.ns = ns
        self.memo = {}

    def rule(self, name):
        """the body of a rule"""
        if name in self.memo:
            return self.memo[name]
        rec = self.P.records.get(name)
        if rec is None or len(rec.get("baset", ())) != 1:
            raise AnalysisBroken("the grammar rule %s is not recognised" % name)
        r = self.memo[name] = self.norm(parse_type(rec["baset"][0]))
        return r

    def norm(self, t):
        name, args = t
        if name.startswith("hgdb::") or name in self.P.records and not name.startswith("tao::"):
            return ("rule", name)
        nm = name.split("::")[-1]
        sub = lambda a=args: [self.norm(x) for x in a]
        chars = [x[1] for x in args if x[0] == "'"]
        if nm in SETS and not args:
            return ("set", SETS[nm])
        if nm == "one":
            return ("set", frozenset(chars))
        if nm == "not_one":
            return ("set", ALL - frozenset(chars))
        if nm in ("range", "ranges") and len(chars) >= 2:
            s = set()
            for i in range(0, len(chars) - 1, 2):
                s |= {chr(c) for c in range(ord(chars[i]), ord(chars[i + 1]) + 1)}
            if len(chars) % 2:
                s.add(chars[-1])
            return ("set", frozenset(s))
        if nm in ("two", "three"):
            return seq([("set", frozenset(chars))] * (2 if nm == "two" else 3))
        if nm == "string":
            return seq([("set", frozenset(c)) for c in chars])
        if nm in ("seq", "must", "if_must"):
            return seq(sub())
        if nm == "sor":
            return alt(sub())
        if nm == "star":
            return ("star", seq(sub()))
        if nm == "plus":
            return ("plus", seq(sub()))
        if nm in ("opt", "if_must_else", "opt_must"):
            return ("opt", seq(sub()))
        if nm == "star_must":
            return ("star", seq(sub()))
        if nm in ("pad", "pad_opt"):
            a = sub()
            inner = a[0] if nm == "pad" else ("opt", a[0])
            return seq([("star", a[1]), inner, ("star", a[2] if len(a) > 2 else a[1])])
        if nm in ("list", "list_must"):
            a = sub()
            if len(a) == 3:
                a[1] = seq([("star", a[2]), a[1], ("star", a[2])])
            return seq([a[0], ("star", seq([a[1], a[0]]))])
        if nm in ("eof", "eolf"):
            return ("eof",)
        if nm == "success":
            return ("seq", [])
        if nm in ("not_at", "at"):
            return (nm, seq(sub()))
        raise AnalysisBroken("the grammar construct %s is not known" % name)

    # -- rules that only rename another ------------------------------------------------
    def name(self, x, keep=()):
        """the rule behind renamings; x is a normalised body"""
        while x[0] == "rule" and x[1] not in keep:
            b = self.rule(x[1])
            if b[0] != "rule":
                return x
            x = b
        return x

    def body(self, x, keep=()):
        x = self.name(x, keep)
        return self.rule(x[1]) if x[0] == "rule" else x

    def reachable(self, name):
        seen, work = set(), [("rule", name)]
        while work:
            x = work.pop()
            if x[0] == "rule":
                if x[1] in seen:
                    continue
                seen.add(x[1])
                work.append(self.rule(x[1]))
            elif x[0] in ("seq", "alt"):
                work += x[1]
            elif x[0] in ("star", "plus", "opt", "at", "not_at"):
                work.append(x[1])
        return seen

    # -- languages ---------------------------------------------------------------------
    def strings(self, x, depth=0):
        """the finite set of texts of x in the order in which they are tried, or None"""
        if depth > 20:
            return None
        k = x[0]
        if k == "rule":
            return self.strings(self.rule(x[1]), depth + 1)
        if k == "set":
            return sorted(x[1]) if len(x[1]) < 40 else None
        if k == "seq":
            out = [""]
            for y in x[1]:
                s = self.strings(y, depth + 1)
                if s is None:
                    return None
                out = [a + b for a in out for b in s]
                if len(out) > 200:
                    return None
            return out
        if k == "alt":
            out = []
            for y in x[1]:
                s = self.strings(y, depth + 1)
                if s is None:
                    return None
                out += [z for z in s if z not in out]
            return out
        if k == "opt":
            s = self.strings(x[1], depth + 1)
            return None if s is None else s + [""]
        if k in ("at", "not_at"):
            return [""]
        return None

    def nullable(self, x, seen=()):
        k = x[0]
        if k == "rule":
            return x[1] not in seen and self.nullable(self.rule(x[1]), seen + (x[1],))
        if k == "set":
            return False
        if k == "seq":
            return all(self.nullable(y, seen) for y in x[1])
        if k == "alt":
            return any(self.nullable(y, seen) for y in x[1])
        if k == "plus":
            return self.nullable(x[1], seen)
        return True

    def first(self, x, seen=()):
        k = x[0]
        if k == "rule":
            return frozenset() if x[1] in seen else self.first(self.rule(x[1]), seen + (x[1],))
        if k == "set":
            return x[1]
        if k == "seq":
            out = frozenset()
            for y in x[1]:
                out |= self.first(y, seen)
                if not self.nullable(y):
                    break
            return out
        if k == "alt":
            return frozenset().union(*[self.first(y, seen) for y in x[1]])
        if k in ("star", "plus", "opt"):
            return self.first(x[1], seen)
        return frozenset()

    def nfa(self, x):
        """(start, accept, edges) of the texts x can match when every choice is free (what a PEG
        accepts is among them); only for rules that do not contain themselves"""
        edges = {}
        count = [0]

        def new():
            count[0] += 1
            edges[count[0]] = []
            return count[0]

        def go(x, seen):
            k = x[0]
            a, b = new(), new()
            if k == "rule":
                if x[1] in seen:
                    raise AnalysisBroken("the rule %s is recursive" % x[1])
                s, e = go(self.rule(x[1]), seen + (x[1],))
                edges[a].append((None, s))
                edges[e].append((None, b))
            elif k == "set":
                edges[a].append((x[1], b))
            elif k == "seq":
                cur = a
                for y in x[1]:
                    s, e = go(y, seen)
                    edges[cur].append((None, s))
                    cur = e
                edges[cur].append((None, b))
            elif k == "alt":
                for y in x[1]:
                    s, e = go(y, seen)
                    edges[a].append((None, s))
                    edges[e].append((None, b))
            else:
                if k in ("star", "plus", "opt"):
                    s, e = go(x[1], seen)
                    edges[a].append((None, s))
                    edges[e].append((None, b))
                    if k != "plus":
                        edges[a].append((None, b))
                    if k != "opt":
                        edges[e].append((None, s))
                else:
                    edges[a].append((None, b))
            return a, b
        s, e = go(x, ())
        return s, e, edges


def closure(edges, states):
    work, out = list(states), set(states)
    while work:
        for c, t in edges[work.pop()]:
            if c is None and t not in out:
                out.add(t)
                work.append(t)
    return frozenset(out)


def step(edges, states, ch):
    return closure(edges, {t for s in states for c, t in edges[s] if c is not None and ch in c})


def letters(edges):
    return frozenset().union(*[c for v in edges.values() for c, t in v if c is not None] or [()])


def missing(a, b):
    """a text of the automaton a that the automaton b does not have, or None"""
    cs = classes(a, b)
    start = (closure(a[2], {a[0]}), closure(b[2], {b[0]}))
    seen, work = {start: ""}, [start]
    while work:
        x = work.pop(0)
        if a[1] in x[0] and b[1] not in x[1]:
            return seen[x]
        for ch in cs:
            y = (step(a[2], x[0], ch), step(b[2], x[1], ch))
            if y[0] and y not in seen:
                seen[y] = seen[x] + ch
                work.append(y)
    return None


def shadows(a, b):
    """a text of b that begins with a text of a, or None: b is never tried for it when a comes
    first"""
    cs = classes(a, b)
    start = (closure(a[2], {a[0]}), closure(b[2], {b[0]}), False)
    seen, work = {start: ""}, [start]
    while work:
        x = work.pop(0)
        done = x[2] or a[1] in x[0]
        if done and b[1] in x[1]:
            return seen[x]
        for ch in cs:
            y = (step(a[2], x[0], ch) if not done else frozenset(), step(b[2], x[1], ch), done)
            if y[1] and (y[0] or done) and y not in seen:
                seen[y] = seen[x] + ch
                work.append(y)
    return None


def classes(a, b):
    """one character of each class that neither automaton tells apart"""
    sets = {c for m in (a, b) for v in m[2].values() for c, t in v if c is not None}
    reps = {}
    for ch in sorted(frozenset().union(*sets) if sets else ()):
        reps.setdefault(tuple(ch in s for s in sorted(sets, key=sorted)), ch)
    return sorted(reps.values())
