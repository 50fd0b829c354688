"""C26: what is read from and written to the simulator is the signal that was asked for."""
from c01 import show
from engine import FALSE, NULL, State, TRUE, subterms
from extract import AnalysisBroken
from evals import event_result
from paths import lookup, strip
from watch import WatchClient, go, names_of

RTL = "hgdb::RTLSimulatorClient"
VPI = "hgdb::AVPIProvider"
ARG = ("arg",)
TOKENS = ("tokens",)
# formats and codes of the VPI (IEEE 1800, annex K)
INT, HEX, BIN, STR = 6, 4, 1, 8 + 5
TYPE, SIZE, MODULE, NODELAY = 1, 4, 32, 1
INVALID = (1 << 64) - 1
HANDLE = "unsigned int *"


class Parts:
    def __init__(self, P):
        self.P = P
        rec = P.record(RTL)
        self.slices = self._one(rec, lambda t: "map<unsigned int *, std::tuple<" in t, "slices")
        maps = [fd["q"] for fd in rec["fields"]
                if "map<std::basic_string<" in fd["t"] and "unsigned int *" in fd["t"] and
                "map" not in fd["t"].split("map<", 1)[1]]
        if not maps:
            raise AnalysisBroken("the table of handles is not recognised")
        self.maps = [("f", ("obj", RTL), q) for q in maps]
        self.tab = ("f", ("obj", RTL), self.slices)

    @staticmethod
    def _one(rec, pred, what):
        r = [fd["q"] for fd in rec["fields"] if pred(fd["t"])]
        if len(r) != 1:
            raise AnalysisBroken("the table of %s is not recognised" % what)
        return r[0]

    def fns(self, name, types):
        r = [f for f in self.P.fns(RTL + "::" + name)
             if [p["t"] for p in f.params][:len(types)] == types]
        if len(r) != 1:
            raise AnalysisBroken("%s::%s(%s) is not found" % (RTL, name, ", ".join(types)))
        return r[0]

    def info(self, t):
        """the handle whose slice information t is"""
        t = strip(t)
        c = lookup(t)
        if c and strip(c[0]) == self.tab:
            return c[1]
        return None

    def part(self, t, i):
        """the handle whose slice's i-th member t is"""
        t = strip(t)
        if t[0] == "f" and len(t) == 3 and t[2] == "#%d" % i:
            return self.info(t[1])
        return None

    def is_slice(self, st, h):
        """whether the handle h is known to be (not) one of a slice on this path"""
        for ft, b in st.facts.items():
            if ft[0] == "found" and ft[1][0] == "p" and ft[1][1] == "find" and \
                    strip(ft[1][2]) == self.tab and ft[1][3] == h:
                return b
            if ft[0] == "p" and ft[1] in ("contains", "count") and strip(ft[2]) == self.tab and \
                    ft[3] == h:
                return b
        return None


def vpi_name(q):
    cls, _, nm = q.rpartition("::")
    return nm if cls == VPI else None


def follow(t):
    if not t.q.startswith("hgdb::") or t.cls == VPI or t.q.startswith("hgdb::log"):
        return False
    return t.q.split("::")[1] != "VPIProvider" and t.cls in (RTL, None, "")


def lin(t):
    """t as ({atom: coefficient}, constant)"""
    if t[0] == "c" and isinstance(t[1], int):
        return {}, int(t[1])
    if t[0] == "bin" and t[1] in ("+", "-"):
        a, ca = lin(t[2])
        b, cb = lin(t[3])
        g = 1 if t[1] == "+" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + g * v
        return {k: v for k, v in r.items() if v}, ca + g * cb
    return {t: 1}, 0


def sub(a, b):
    r = dict(a[0])
    for k, v in b[0].items():
        r[k] = r.get(k, 0) - v
    return {k: v for k, v in r.items() if v}, a[1] - b[1]


def below(st, t, bound, nonneg=()):
    """t < bound is known on this path (unsigned values, so that atoms are at least 0)"""
    d = sub(lin(t), lin(bound))           # wanted: d <= -1

    def le(x, y):
        """x <= y for linear terms, using that every atom is at least zero"""
        r = sub(x, y)
        return r[1] <= 0 and all(v < 0 for v in r[0].values())
    if le(d, ({}, -1)):
        return True
    for ft, b in st.facts.items():
        if ft[0] == "lt":
            a, z = lin(ft[1]), lin(ft[2])
            # true: a - z <= -1; false: z - a <= 0
            k = sub(a, z) if b else sub(z, a)
            k = (k[0], k[1] + 1) if b else k       # k <= 0
            # d = d - k + k <= d - k
            if le(sub(d, k), ({}, -1)):
                return True
    return False


class Window:
    """bits [lo, end) of a base value; end None: up to the top"""

    def __init__(self, base, lo, end):
        self.base, self.lo, self.end = base, lo, end


def window(st, t, problems):
    if t[0] == "bin" and t[1] == ">>":
        w = window(st, t[2], problems)
        if w is None:
            return None
        if not below(st, t[3], ("c", 64)):
            problems.append("a shift by %s, which is not known to be below 64" % show(t[3]))
        return Window(w.base, add(w.lo, t[3]), w.end)
    if t[0] == "bin" and t[1] == "&":
        for x, m in ((t[2], t[3]), (t[3], t[2])):
            k = mask(st, m, problems)
            if k is not None:
                w = window(st, x, problems)
                return w and Window(w.base, w.lo, add(w.lo, k))
        return None
    if t[0] == "f":
        return Window(t, ("c", 0), None)
    return None


def add(a, b):
    return b if a == ("c", 0) else a if b == ("c", 0) else ("bin", "+", a, b)


def mask(st, m, problems):
    """k if m has exactly the k lowest bits set"""
    def shift(k):
        if not below(st, k, ("c", 64)):
            problems.append("a shift by %s, which is not known to be below 64" % show(k))
        return k
    if m[0] == "un" and m[1] == "~" and m[2][0] == "bin" and m[2][1] == "<<" and \
            m[2][2] in (("c", INVALID), ("c", -1)):
        return shift(m[2][3])
    if m[0] == "bin" and m[1] == "-" and m[3] == ("c", 1) and m[2][0] == "bin" and \
            m[2][1] == "<<" and m[2][2] == ("c", 1):
        return shift(m[2][3])
    if m[0] == "bin" and m[1] == ">>" and m[2] in (("c", INVALID), ("c", -1)):
        shift(m[3])
        return ("bin", "-", ("c", 64), m[3])
    return None


def field(st, loc, suffix):
    """the member of a structure as it is set at this point"""
    for l, v in st.store.items():
        if l[0] == "f" and isinstance(l[2], str) and l[2].endswith("::" + suffix):
            b = l
            while b[0] == "f":
                b = b[1]
            if b == loc:
                return v
    return None


class Client(WatchClient):
    """looks at what is asked of the simulator when it is asked"""
    N = rep = None
    signal = None          # whether the paths that deal with signals are looked at
    done = None

    def on_call(self, I, st, f, node, n, obj, args):
        q = n.get("q", "")
        if obj is not None and I._rv(st, obj) == TOKENS and names_of(q) in (
                "begin", "cbegin", "end", "cend"):
            r = ("p", "begin", TOKENS)
            return [(st, r if names_of(q).endswith("begin") else
                     ("bin", "+", r, ("p", "size", TOKENS)))]
        if "normal_iterator<" in q and names_of(q) in ("operator+", "operator-"):
            a = [I._rv(st, x) for x in ([obj] if obj is not None else []) + list(args)]
            if len(a) == 2 and not any(x[0] in ("it", "end") for x in a[1:]):
                return [(st, ("bin", names_of(q)[-1], a[0], a[1]))]
        return WatchClient.on_call(self, I, st, f, node, n, obj, args)

    def on_exit(self, I, st, f, val, depth):
        if self.done:
            self.done(self, I, st, f, val, depth)


def at_least(st, t, bound):
    return below(st, bound, ("bin", "+", t, ("c", 1)))


def runs(P, N, f, look, extra=None, done=None, env=None, stop=()):
    """the paths of f; look(name, st, f, node, obj, args) is told what is asked of the simulator"""
    def watch(q, n):
        nm = vpi_name(q)
        if nm:
            return nm
        return extra(q, n) if extra else None

    def value(name, I, st, f2, node, n, obj, args):
        vals = tuple(I._rv(st, a) for a in args)
        r = look(name, I, st, f2, node, I._rv(st, obj) if obj is not None else None, vals)
        if name == "vpi_get_value":
            loc = strip(vals[1])
            st.kill(lambda xs: any(x[0] == "f" and len(x) == 3 and x[1] == loc and
                                   str(x[2]).endswith("::value") for x in xs))
        if name == "vpi_get_time":
            loc = strip(vals[1])
            st.kill(lambda xs: any(x[0] == "f" and len(x) == 3 and x[1] == loc for x in xs))
        if r is not None:
            return r
        if name.startswith("vpi_"):
            return event_result(name, I, st, f2, node, n, obj, args)
        return None
    cl = Client(P, watch, None, None)
    cl.done = done
    cl.max_disjuncts = 512
    return go(P, f, watch, value=value, follow=lambda t: follow(t) and t.q not in stop,
              env=env, cl=cl)


def good_handle(N, st, h, asked=None):
    """None if the simulator knows the handle h, or what h is"""
    if N.part(h, 0) is not None:
        return None
    if h == ARG:
        return None if N.is_slice(st, h) is False else "may be the made-up handle of a slice"
    o = strip(h)
    if o[0] == "ev" and o[1].startswith("vpi_"):
        return None
    c = lookup(h)
    if c and strip(c[0]) in N.maps:
        return None if N.is_slice(st, h) is False or c[1] != ("asked",) else \
            "may be the made-up handle of a slice"
    if o == NULL:
        return None
    return "is not known to be the simulator's"


HANDLE_ARG = {"vpi_get_value": 0, "vpi_get": 1, "vpi_get_str": 1, "vpi_handle_by_index": 0,
              "vpi_put_value": 0, "vpi_iterate": 1}


def formats(N, st, loc):
    v = field(st, loc, "format")
    return v[1] if v and v[0] == "c" else None


def reading(P, rep, N):
    rep.rule("own-value", "a signal's value is read from the simulator under that signal's handle; "
             "for a slice, under the handle of the signal it is a slice of; nothing is read "
             "without a handle")
    rep.rule("int-slice", "the value of a slice is exactly the bits between its bounds, and no "
             "shift is as wide as the value")
    rep.rule("text-slice", "the text of a slice is cut from exactly the positions of its bits")
    for f, want in ((N.fns("get_value", [HANDLE]), (INT,)),
                    (N.fns("get_str_value", [HANDLE]), (HEX, BIN))):
        rep.count("functions that read values")
        flag = [p["d"] for p in f.params[1:] if p["t"] == "bool"]
        text = "basic_string" in f.rt

        def look(name, I, st, f2, node, obj, args):
            where = f2.loc(node)
            if name in HANDLE_ARG:
                h = args[HANDLE_ARG[name]]
                if flag and st.truth(("v", flag[0])) is False:
                    # an argument of a system task, the handle is the simulator's
                    rep.check(h == ARG or N.part(h, 0) == ARG, where, "own-value",
                              "%s is asked for %s instead of what was requested" % (name, show(h)))
                    return None
                bad = good_handle(N, st, h)
                rep.check(bad is None, where, "own-value", "the handle that %s is given in %s %s" %
                          (name, f.q, bad))
                who = h if N.part(h, 0) is None else N.part(h, 0)
                rep.check(not (text and who != h and name == "vpi_get" and args[0] == ("c", SIZE)),
                          where, "text-slice", "the text of a slice depends on the size of the "
                          "whole signal")
                rep.check(who == ARG, where, "own-value", "%s asks the simulator about %s instead "
                          "of the handle it was given" % (f.q, show(h)))
                if name == "vpi_get_value":
                    rep.count("values asked for")
                    rep.check(st.truth(ARG) is True, where, "own-value",
                              "the simulator is asked for a value without a handle")
                    fm = formats(N, st, strip(args[1]))
                    if not text:
                        ok = fm == INT
                    elif N.is_slice(st, ARG):
                        ok = fm == BIN
                    else:
                        ok = fm == HEX
                    rep.check(ok, where, "own-value", "%s asks for the value of a %s in format %s"
                              % (f.q, "slice" if N.is_slice(st, ARG) else "signal", fm))
            elif name == "substr":
                if not any(e[0] == "vpi_get_value" for e in st.auto[0]) or \
                        any(e[0] == "substr" for e in st.auto[0][:-1]) or \
                        not N.is_slice(st, ARG):
                    return None
                cut_text(rep, N, st, where, obj, args)
            return None

        def done(cl, I, st, f2, val, depth):
            if not text or "basic_string" not in f2.rt or not N.is_slice(st, ARG) or \
                    any(e[0] in ("substr", "none") for e in st.auto[0]) or \
                    not any(e[0] == "vpi_get_value" for e in st.auto[0]) or f2.ctor or \
                    "optional" in f2.rt and depth:
                return
            if flag and st.truth(("v", flag[0])) is False or val == NULL:
                return
            rep.count("slices without bits")
            lo = slice_part(N, st, 2)
            size = sizes(st)
            rep.check(lo is not None and any(at_least(st, lo, z) for z in size), f2.loc(0),
                      "text-slice", "%s leaves a slice empty that is not known to be beyond the "
                      "signal's bits" % f2.q)
            cl.ev(st, ("none", None, (), f2.loc(0)))

        outs = runs(P, N, f, look, extra=lambda q, n: "substr" if q.startswith(
            "std::basic_string<") and names_of(q) == "substr" else None, done=done, env={
                f.params[0]["d"]: ARG})
        for s, v, evs in outs:
            rep.count("paths")
            got = [e for e in evs if e[0] == "vpi_get_value"]
            v = v or NULL
            if v == NULL:
                rep.check(not got or text, f.loc(0), "own-value",
                          "%s returns nothing although it got a value" % f.q)
                # nothing may be returned only without a handle, or for what has no value
                rep.count("paths without a value")
                continue
            where = got[0][3] if got else f.loc(0)
            if not rep.check(len(got) == 1, where, "own-value", "%s returns a value after asking "
                             "the simulator %d times" % (f.q, len(got))):
                continue
            if not text:
                loc = strip(got[0][2][1])
                result(rep, N, s, f, v, loc, where, flag)
    rep.need("values asked for", 4)
    rep.need("whole values returned", 1)
    rep.need("slices returned", 2)
    rep.need("texts cut", 2)


def slice_part(N, st, i):
    for ft in list(st.facts) + list(st.store.values()):
        for x in subterms(ft):
            if N.part(x, i) == ARG:
                return x
    h = ("f", ("f", ("deref", ("p", "find", N.tab, ARG)), "::second"), "#%d" % i)
    return h


def sizes(st):
    return {x for ft in st.facts for x in subterms(ft) if x[0] == "p" and x[1] in
            ("size", "length")}


def cut_text(rep, N, st, where, obj, args):
    rep.count("texts cut")
    size = [z for z in sizes(st) | {x for a in args for x in subterms(a) if x[0] == "p" and x[1] in
                                    ("size", "length")}]
    hi = {x for a in list(args) + list(st.facts) for x in subterms(a) if N.part(x, 1) == ARG}
    lo = {x for a in list(args) + list(st.facts) for x in subterms(a) if N.part(x, 2) == ARG}
    if not rep.check(len(size) == 1 and len(lo) == 1, where, "text-slice",
                     "the text of a slice is cut without regard to its bounds and size"):
        return
    z, l = size[0], list(lo)[0]
    rep.check(below(st, l, z), where, "text-slice",
              "the text of a slice is cut where its lowest bit may be beyond the signal's")
    pos = args[0] if args else ("c", 0)
    if hi and below(st, list(hi)[0], z):
        want = sub(sub(lin(z), ({}, 1)), lin(list(hi)[0]))
    elif hi and at_least(st, list(hi)[0], z):
        want = ({}, 0)
    else:
        rep.bad(where, "text-slice", "the text of a slice is cut where its highest bit may be "
                "beyond the signal's")
        return
    rep.check(lin(pos) == want, where, "text-slice", "the text of a slice is cut from the position "
              "%s, which is not the one of its highest bit" % show(pos))
    if len(args) > 1:
        end = lin(("bin", "-", ("bin", "+", pos, args[1]), ("c", 1)))
        rep.check(end == sub(sub(lin(z), ({}, 1)), lin(l)), where, "text-slice",
                  "the text of a slice does not end at the position of its lowest bit")
    else:
        rep.bad(where, "text-slice", "the text of a slice includes the bits below it")


def result(rep, N, s, f, v, loc, where, flag):
    """the integer that is returned"""
    t = v[1] if v[0] == "some" else v
    cut = N.is_slice(s, ARG) and not (flag and s.truth(("v", flag[0])) is False)
    if not cut:
        rep.count("whole values returned")
        rep.check(t[0] == "f" and t[2].endswith("::integer") and base_of(t) == loc, where,
                  "own-value", "%s returns %s instead of the value it got" % (f.q, show(t)))
        return
    rep.count("slices returned")
    lo = ("f", slice_of(N, s), "#2")
    hi = ("f", slice_of(N, s), "#1")
    if t == ("c", 0):
        rep.check(at_least(s, lo, ("c", 64)), where, "int-slice", "%s returns 0 for a slice that is "
                  "not known to be beyond the value" % f.q)
        return
    problems = []
    w = window(s, t, problems)
    if w is None:
        rep.bad(where, "int-slice", "%s returns %s for a slice, which is not recognised as part of "
                "the value" % (f.q, show(t)))
        return
    for p in problems:
        rep.bad(where, "int-slice", "%s computes a slice with %s" % (f.q, p))
    rep.check(base_of(w.base) == loc and w.base[2].endswith("::integer"), where, "int-slice",
              "%s cuts a slice out of something else than the value it got" % f.q)
    rep.check(lin(w.lo) == lin(lo), where, "int-slice", "%s returns a slice that begins at bit %s" %
              (f.q, show(w.lo)))
    if w.end is None:
        rep.check(at_least(s, hi, ("c", 63)), where, "int-slice", "%s returns a slice with the bits "
                  "above it" % f.q)
    else:
        rep.check(lin(w.end) == lin(("bin", "+", hi, ("c", 1))), where, "int-slice",
                  "%s returns a slice that ends before bit %s" % (f.q, show(w.end)))


def slice_of(N, st):
    """the slice information of the handle asked for"""
    for ft in list(st.facts):
        for x in subterms(ft):
            if x[0] == "f" and N.info(x) == ARG:
                return x
    return ("?",)


def base_of(t):
    while t[0] == "f":
        t = t[1]
    return t


PLACE = ("emplace", "insert", "try_emplace", "insert_or_assign")
ASKED = ("asked",)


def text_of(t):
    """the string behind the characters that are handed over"""
    t = strip(t)
    while t[0] == "p" and t[1] in ("c_str", "data"):
        t = strip(t[2])
    return t


def naming(P, rep, N):
    rep.rule("own-handle", "a handle is remembered under the name it was asked for with, and what "
             "is returned for a name is the handle of that name")
    f = [g for g in P.fns(RTL + "::get_handle") if "basic_string" in g.params[0]["t"] and
         "vector" not in g.params[0]["t"]]
    if len(f) != 1:
        raise AnalysisBroken("get_handle(name) is not found")
    f = f[0]
    by = [g for g in P.fns(RTL + "::get_handle") if g is not f]
    byq = {g.key for g in by}
    W = {RTL + "::get_full_name": "full", "hgdb::util::get_tokens": "split"}

    def extra(q, n):
        nm = names_of(q)
        if q.startswith("std::") and "map<" in q and nm in PLACE or nm == "operator[]=":
            return "store"
        if n.get("fn") in byq or any(n.get("fn", "").startswith(k) for k in byq):
            return "parts"
        return W.get(q)
    asked = {}
    FULL = ("q", "full")

    def look(name, I, st, f2, node, obj, args):
        where = f2.loc(node)
        if name == "full":
            rep.check(args == (ASKED,), where, "own-handle",
                      "%s looks up another name than the one it was given" % f2.q)
            return [(st, FULL)]
        if name == "split":
            return [(st, ("q", "split", args[0]))]
        if name == "parts":
            rep.count("names resolved part by part")
            t = strip(args[0])
            rep.check(t == ("q", "split", FULL), where, "own-handle",
                      "the parts of another name than the one asked for are resolved")
            s2 = st.copy()
            r = ("q", "parts", t)
            if st.assume(r, True):
                s2.facts[r] = False
                return [(st, r), (s2, NULL)]
            return [(s2, NULL)]
        if name == "vpi_handle_by_name":
            asked[(f2.key, node)] = text_of(args[0])
        if name == "store" and obj in N.maps:
            rep.count("handles remembered")
            k, v = stored(args)
            v = strip(v) if v else v
            ok = False
            if v and v[0] == "ev" and v[1] == "vpi_handle_by_name":
                ok = asked.get((v[2], v[3])) == strip(k)
            elif v == ("q", "parts", ("q", "split", FULL)):
                ok = strip(k) == FULL
            rep.check(ok, where, "own-handle", "%s remembers %s under the name %s" %
                      (f2.q, show(v) if v else "?", show(k) if k else "?"))
            rep.check(v is not None and st.truth(v) is True, where, "own-handle",
                      "%s remembers a name that was not found" % f2.q)
        return None
    outs = runs(P, N, f, look, extra=extra, env={f.params[0]["d"]: ASKED},
                stop=(RTL + "::get_full_name",))
    for s, v, evs in outs:
        rep.count("ways to look a name up")
        v = v or NULL
        o = strip(v)
        if o == NULL or s.truth(o) is False:
            # every way of finding it has been tried
            rep.check(any(e[0] == "parts" for e in evs) and
                      any(e[0] == "vpi_handle_by_name" for e in evs), f.loc(0), "own-handle",
                      "%s gives a name up without asking for its parts" % f.q)
            continue
        c = lookup(v)
        if c:
            ok = strip(c[0]) in N.maps and strip(c[1]) == FULL
        elif o[0] == "ev" and o[1] == "vpi_handle_by_name":
            ok = asked.get((o[2], o[3])) == FULL
        else:
            ok = o == ("q", "parts", ("q", "split", FULL))
        rep.check(ok, f.loc(0), "own-handle", "%s returns %s, which is not the handle of the name it "
                  "was given" % (f.q, show(v)))
    rep.need("handles remembered", 2)
    rep.need("names resolved part by part", 1)
    raw(P, rep, N)


def stored(args):
    if len(args) == 1:
        t = strip(args[0])
        if t[0] == "tuple" and len(t) == 3:
            return t[1], t[2]
        return None, None
    return args[0], args[1]


def raw(P, rep, N):
    """names of variables that parts are resolved from"""
    for f in P.fns(RTL + "::get_handle_raw"):
        asked = {}

        def look(name, I, st, f2, node, obj, args):
            if name == "vpi_handle_by_name":
                asked[(f2.key, node)] = text_of(args[0])
            if name == "store" and obj in N.maps:
                rep.count("handles remembered")
                k, v = stored(args)
                v = strip(v) if v else v
                rep.check(v and v[0] == "ev" and asked.get((v[2], v[3])) == strip(k), f2.loc(node),
                          "own-handle", "%s remembers %s under the name %s" %
                          (f2.q, show(v) if v else "?", show(k) if k else "?"))
                rep.check(v is not None and st.truth(v) is True, f2.loc(node), "own-handle",
                          "%s remembers a name that was not found" % f2.q)
            return None
        for s, v, evs in runs(P, N, f, look, env={f.params[0]["d"]: ASKED}, extra=lambda q, n:
                              "store" if q.startswith("std::") and "map<" in q and
                              names_of(q) in PLACE else None):
            v = v or NULL
            o = strip(v)
            c = lookup(v)
            if o == NULL or s.truth(o) is False:
                rep.check(any(e[0] == "vpi_handle_by_name" for e in evs), f.loc(0), "own-handle",
                          "%s gives a name up without asking for it" % f.q)
                continue
            ok = strip(c[0]) in N.maps and strip(c[1]) == ASKED if c else \
                o[0] == "ev" and asked.get((o[2], o[3])) == ASKED
            rep.check(ok, f.loc(0), "own-handle", "%s returns %s, which is not the handle of the "
                      "name it was given" % (f.q, show(v)))


def resolving(P, rep, N):
    rep.rule("every-part", "what a name with indices or a slice is resolved to takes every part of "
             "the name into account, and starts at a variable")
    f = [g for g in P.fns(RTL + "::get_handle") if "vector" in g.params[0]["t"]]
    if len(f) != 1:
        raise AnalysisBroken("get_handle(parts) is not found")
    f = f[0]
    W = {RTL + "::access_arrays": "access", RTL + "::add_mock_slice_vpi": "slice",
         RTL + "::get_handle_raw": "raw", RTL + "::get_vpi_type": "type", "hgdb::util::join": "join"}
    size = lin(("p", "size", TOKENS))
    begin = lin(("p", "begin", TOKENS))

    def is_slice(st):
        for ft, b in st.facts.items():
            if ft[0] == "eq" and any(x[0] == "p" and x[1].startswith("find") for x in
                                     subterms(ft)) and ("str", ":") not in ft:
                return not b
            if ft[0] == "p" and ft[1] == "contains":
                return b
        return None

    def cover(st, h):
        """how many parts the handle h stands for, or why this is not known"""
        if h[0] != "q":
            return None, "is not known"
        if h[1] == "raw":
            j = h[2][0]
            if j[:2] != ("q", "join") or lin(j[2][0]) != begin:
                return None, "is looked up with something else than the first parts of the name"
            if j[2][2] != ("str", "."):
                return None, "is looked up with its parts not joined by dots"
            return sub(lin(j[2][1]), begin), None
        if h[1] == "access":
            n, why = cover(st, h[2][2])
            if n is None:
                return None, why
            if sub(lin(h[2][0]), begin) != n:
                return None, "is indexed with other parts than the ones that follow"
            t = ("q", "type", (h[2][2],))
            if not any(ft[0] == "eq" and t in ft[1:] and ("c", MODULE) in ft[1:] and b is False
                       for ft, b in st.facts.items()):
                return None, "is indexed although it may be a module"
            return sub(lin(h[2][1]), begin), None
        if h[1] == "slice":
            n, why = cover(st, h[2][0])
            if n is None:
                return None, why
            if h[2][0][1] == "raw":
                t = ("q", "type", (h[2][0],))
                if not any(ft[0] == "eq" and t in ft[1:] and ("c", MODULE) in ft[1:] and b is False
                           for ft, b in st.facts.items()):
                    return None, "is sliced although it may be a module"
            if h[2][1] != ("p", "back", TOKENS) or n != sub(size, ({}, 1)):
                return None, "is sliced with another part than the one that follows"
            return size, None
        return None, "is not known"

    def look(name, I, st, f2, node, obj, args):
        if name in ("raw", "access", "slice"):
            r = ("q", name, args)
            s2 = st.copy()
            res = []
            if st.assume(r, True):
                res.append((st, r))
            if s2.assume(r, False):
                res.append((s2, NULL))
            if name == "slice":
                n, why = cover(st, r)
                rep.count("slices made")
                rep.check(why is None, f2.loc(node), "every-part", "a slice is made although what it "
                          "is a slice of %s" % why)
            if name == "access":
                n, why = cover(st, r)
                rep.count("arrays indexed")
                rep.check(why is None, f2.loc(node), "every-part", "an array is indexed although it "
                          "%s" % why)
            return res
        if name in ("type", "join"):
            return [(st, ("q", name, args))]
        return None
    outs = runs(P, N, f, look, extra=lambda q, n: W.get(q),
                env={f.params[0]["d"]: ("ref", TOKENS)}, stop=tuple(W))
    for s, v, evs in outs:
        v = v or NULL
        if v == NULL or s.truth(v) is False:
            continue
        rep.count("names resolved")
        n, why = cover(s, v)
        if n is None:
            rep.bad(f.loc(0), "every-part", "%s returns %s, which %s" % (f.q, show(v), why))
            continue
        rep.check(n == size, f.loc(0), "every-part", "%s returns a handle for only the first %s "
                  "parts of a name" % (f.q, " + ".join([show(k) for k in n[0]] + [str(n[1])])))
    rep.need("names resolved", 2)
    rep.need("slices made", 1)
    rep.need("arrays indexed", 1)


def setting(P, rep, N):
    rep.rule("set", "a value is put on the signal that was asked for, as it was given; a slice is "
             "refused; what the simulator refuses is reported")
    f = N.fns("set_value", [HANDLE, "long"])
    d = f.params[1]["d"]

    def look(name, I, st, f2, node, obj, args):
        where = f2.loc(node)
        if name == "vpi_put_value":
            rep.count("values put")
            h = args[0]
            bad = good_handle(N, st, h)
            rep.check(bad is None and h == ARG, where, "set", "%s puts a value on %s" %
                      (f2.q, show(h) if bad is None else "a handle that " + bad))
            rep.check(st.truth(ARG) is True, where, "set", "%s puts a value without a handle" % f2.q)
            loc = strip(args[1])
            rep.check(formats(N, st, loc) == INT, where, "set", "%s puts a value in another format "
                      "than the one it is given in" % f2.q)
            v = field(st, loc, "integer")
            rep.check(v == ("v", d), where, "set", "%s puts %s instead of the value it was given" %
                      (f2.q, show(v) if v else "nothing"))
            rep.check(args[3] == ("c", NODELAY), where, "set", "%s puts a value in another way than "
                      "at once" % f2.q)
        return None
    for s, v, evs in runs(P, N, f, look, env={f.params[0]["d"]: ARG}):
        put = [e for e in evs if e[0] == "vpi_put_value"]
        rep.count("paths")
        if not put:
            rep.check(v == FALSE, f.loc(0), "set", "%s reports success without putting the value" % f.q)
            rep.check(s.truth(ARG) is False or N.is_slice(s, ARG) is True, f.loc(0), "set",
                      "%s does not put the value on a signal" % f.q)
            continue
        rep.check(len(put) == 1, put[0][3], "set", "%s puts a value more than once" % f.q)
        # refused values are told from the others by the handle that is returned
        ok = v is not None and (v[0] == "not" and compares(v[1]) or v in (TRUE, FALSE) and any(
            compares(ft) and b is (v == FALSE) for ft, b in s.facts.items()))
        rep.check(ok, put[0][3], "set", "%s does not report whether the value was refused" % f.q)
    rep.need("values put", 1)


def compares(t):
    return t[0] == "eq" and ("c", INVALID) in t[1:] and any(
        strip(x)[0] == "ev" and strip(x)[1] == "vpi_put_value" for x in t[1:])


def names(P, rep, N):
    rep.rule("full-name", "the name a user gives is translated into the simulator's: the top of the "
             "hierarchy is replaced by where the design is, an absolute name only loses its root, "
             "and any other name is left alone")
    f = [g for g in P.fns(RTL + "::get_full_name") if "basic_string" in g.params[0]["t"]]
    if len(f) != 1:
        raise AnalysisBroken("get_full_name(name) is not found")
    f = f[0]
    rec = P.record(RTL)
    m = [fd["q"] for fd in rec["fields"] if fd["t"].startswith("std::pair<std::basic_string") and
         "vector" not in fd["t"]]
    if len(m) != 1:
        raise AnalysisBroken("where the design is in the simulated hierarchy is not recognised")
    pair = ("f", ("obj", RTL), m[0])
    first = lambda t: t[0] == "f" and t[1] == pair and (t[2] == "#0" or t[2].endswith("::first"))
    second = lambda t: t[0] == "f" and t[1] == pair and (t[2] == "#1" or t[2].endswith("::second"))
    PATH = ("q", "path")
    top = lambda t: t[0] == "f" and t[1] == PATH and (t[2] == "#0" or t[2].endswith("::first"))
    rest = lambda t: t[0] == "f" and t[1] == PATH and (t[2] == "#1" or t[2].endswith("::second"))

    def extra(q, n):
        nm = names_of(q)
        if q == RTL + "::get_path":
            return "path"
        if q.startswith("std::basic_string") and nm == "substr":
            return "substr"
        if nm == "operator+" and q.startswith("std::") and "normal_iterator" not in q:
            return "plus"
        if nm in ("starts_with",):
            return "starts"
        return None

    def look(name, I, st, f2, node, obj, args):
        if name == "path":
            rep.check(args == (ASKED,), f2.loc(node), "full-name", "another name than the one given "
                      "is split")
            return [(st, PATH)]
        if name == "substr":
            return [(st, ("q", "substr", obj) + args)]
        if name == "plus":
            a = ((obj,) if obj is not None else ()) + args
            return [(st, ("q", "plus") + a)]
        if name == "starts":
            return [(st, ("q", "starts", obj) + args)]
        return None
    for s, v, evs in runs(P, N, f, look, extra=extra, env={f.params[0]["d"]: ("ref", ASKED)},
                          stop=(RTL + "::get_path",)):
        rep.count("ways to translate a name")
        where = f.loc(0)
        root = [b for ft, b in s.facts.items() if ft[:3] == ("q", "starts", ASKED)]
        same = [b for ft, b in s.facts.items() if ft[0] == "eq" and any(first(x) for x in ft[1:]) and
                any(top(x) for x in ft[1:])]
        bare = [b for ft, b in s.facts.items() if ft[0] == "p" and ft[1] == "empty" and rest(ft[2])]
        v = v or ("?",)
        if root == [True]:
            ok = v[:3] == ("q", "substr", ASKED) and v[3] in root_sizes(P) and \
                (len(v) < 5 or v[4] == ("c", INVALID) or v[4][0] == "g" and v[4][1].endswith("npos"))
        elif same == [False]:
            ok = v == ASKED
        elif same == [True] and bare == [True]:
            ok = v[:2] == ("q", "substr") and second(v[2]) and v[3] == ("c", 0) and \
                v[4] == ("bin", "-", ("p", "size", v[2]), ("c", 1))
        elif same == [True] and bare == [False]:
            ok = v[:2] == ("q", "plus") and second(v[2]) and rest(v[3])
        else:
            ok = False
        rep.check(ok, where, "full-name", "%s translates a name%s into %s" % (
            f.q, " of the design" if same == [True] else " that is absolute" if root == [True] else
            " of no known design" if same == [False] else "", show(v)))
    rep.need("ways to translate a name", 4)


def root_sizes(P):
    g = P.globals.get(RTL + "::root_name")
    res = [("p", x, ("g", RTL + "::root_name")) for x in ("size", "length")]
    return res + [("c", 6)]


def widths(P, rep, N):
    rep.rule("width", "the width of a slice is the number of its bits, that of a signal what the "
             "simulator says")
    f = N.fns("get_signal_width", [HANDLE])

    def look(name, I, st, f2, node, obj, args):
        if name in HANDLE_ARG:
            bad = good_handle(N, st, args[HANDLE_ARG[name]])
            rep.check(bad is None, f2.loc(node), "width", "the handle that %s is given in %s %s" %
                      (name, f.q, bad))
            rep.check(name == "vpi_get" and args[0] == ("c", SIZE) and args[1] == ARG, f2.loc(node),
                      "width", "the simulator is asked for something else than the signal's size")
        return None
    for s, v, evs in runs(P, N, f, look, env={f.params[0]["d"]: ARG}):
        rep.count("widths returned")
        v = v or NULL
        if N.is_slice(s, ARG):
            sl = slice_of(N, s)
            w = sub(lin(("f", sl, "#1")), lin(("f", sl, "#2")))
            rep.check(v != NULL and lin(v[1] if v[0] == "some" else v) == (w[0], w[1] + 1), f.loc(0),
                      "width", "the width of a slice is not the number of its bits")
            continue
        if v == NULL:
            continue
        t = v[1] if v[0] == "some" else v
        c = lookup(t)
        rep.check(t[0] == "ev" and t[1] == "vpi_get" or c and c[1] == ARG, f.loc(0), "width",
                  "the width of a signal is %s instead of its size" % show(t))
    rep.need("widths returned", 3)


def cached(P, rep, N):
    rep.rule("own-answer", "what the simulator said about a handle is remembered under that handle "
             "and that question")
    for f in P.funcs.values():
        if f.cls != RTL or f.is_lambda or len(f.params) != 1 or f.params[0]["t"] != HANDLE or \
                f.ctor or "optional" in f.rt or not f.rt or f.rt.split()[-1] not in ("int", "long"):
            continue
        tabs = {}
        asked = {}

        def look(name, I, st, f2, node, obj, args):
            if name == "vpi_get":
                asked[(f2.key, node)] = args
            if name == "store" and obj is not None and obj[0] == "f":
                k, v = stored(args)
                v = strip(v) if v else v
                rep.count("answers remembered")
                q = asked.get(v[2:4]) if v and v[0] == "ev" else None
                rep.check(q is not None and q[1] == k == ARG, f2.loc(node), "own-answer",
                          "%s remembers %s under %s" % (f2.q, show(v) if v else "?",
                                                        show(k) if k else "?"))
                if q:
                    tabs.setdefault(obj, set()).add(q[0])
            return None
        outs = runs(P, N, f, look, env={f.params[0]["d"]: ARG}, extra=lambda q, n: "store" if
                    q.startswith("std::") and "map<" in q and names_of(q) in PLACE else None)
        want = {q[0] for q in asked.values()}
        for s, v, evs in outs:
            if v is None:
                continue
            c = lookup(v)
            if c:
                rep.check(c[1] == ARG and tabs.get(strip(c[0])) == want, f.loc(0), "own-answer",
                          "%s answers with what is remembered about something else" % f.q)
            elif v[0] == "ev":
                rep.check(asked.get(v[2:4], (0, 0))[1] == ARG, f.loc(0), "own-answer",
                          "%s answers for another handle" % f.q)
    rep.need("answers remembered", 2)


def timing(P, rep, N):
    rep.rule("time", "the simulation time consists of both halves the simulator gives")
    f = P.fn(RTL + "::get_simulation_time")
    for s, v, evs in runs(P, N, f, lambda *a: None):
        got = [e for e in evs if e[0] == "vpi_get_time"]
        if not rep.check(len(got) == 1 and v is not None, f.loc(0), "time",
                         "%s does not ask for the time" % f.q):
            continue
        rep.count("times")
        loc = strip(got[0][2][1])
        part = lambda t, nm: t[0] == "f" and t[1] == loc and t[2].endswith("::" + nm)
        ok = v[0] == "bin" and v[1] in ("|", "+", "^") and any(
            h[0] == "bin" and h[1] == "<<" and h[3] == ("c", 32) and part(h[2], "high") and
            part(l, "low") for h, l in ((v[2], v[3]), (v[3], v[2])))
        rep.check(ok, got[0][3], "time", "the simulation time is %s" % show(v))
    rep.need("times", 1)


def making(P, rep, N):
    rep.rule("bounds", "a slice is remembered with the signal it is a slice of, its highest and its "
             "lowest bit")
    f = P.fn(RTL + "::add_mock_slice_vpi")
    pair = [P.funcs[k] for k in P.reachable([f]) if k in P.funcs]
    pair = [g for g in pair if g.rt.startswith("std::optional<std::pair<unsigned int") or g.rt.startswith("std::pair<unsigned int")]
    keys = {g.key for g in pair}
    SL = ("q", "bounds")

    def extra(q, n):
        if n.get("fn") in keys or any(n.get("fn", "").startswith(k) for k in keys):
            return "bounds"
        if q.startswith("std::") and "map<" in q and names_of(q) in PLACE:
            return "store"
        if names_of(q) in ("make_tuple", "tuple"):
            return "tuple"
        return None

    def look(name, I, st, f2, node, obj, args):
        if name == "bounds":
            return [(st, SL)]
        if name == "tuple" and len(args) == 3:
            return [(st, ("tuple",) + args)]
        if name == "store" and obj == N.tab:
            rep.count("slices remembered")
            k, v = stored(args)
            ok = v is not None and v[0] == "tuple" and len(v) == 4 and v[1] == ARG and \
                half(v[2], SL) == 0 and half(v[3], SL) == 1
            rep.check(ok, f2.loc(node), "bounds", "%s remembers a slice as %s" %
                      (f2.q, show(v) if v else "?"))
        return None
    if pair:
        runs(P, N, f, look, extra=extra, env={f.params[0]["d"]: ARG})
        rep.need("slices remembered", 1)
    for g in pair:
        extremes(P, rep, g)


def half(t, r):
    t = strip(t)
    if t[0] == "f" and len(t) == 3 and strip(t[1]) == r:
        return 0 if t[2] == "#0" or t[2].endswith("::first") else \
            1 if t[2] == "#1" or t[2].endswith("::second") else None
    return None


def extremes(P, rep, g):
    """the first number returned only ever grows, the second one only ever shrinks"""
    sets = {}
    roles = {}

    class Grow(WatchClient):
        def on_call(self, I, st, f, node, n, obj, args):
            if f is g and names_of(n.get("q", "")) in ("make_pair", "pair") and len(args) == 2:
                roles.setdefault(tuple(args), f.loc(node))
            return WatchClient.on_call(self, I, st, f, node, n, obj, args)

        def on_assign(self, I, st, f, node, loc, val):
            if f is g and loc[0] == "v":
                old = I._rv(st, loc)
                up = ("lt", old, val)
                down = ("lt", val, old)
                sets.setdefault(loc, []).append(
                    (f.loc(node), st.facts.get(up) is True or st.facts.get(down) is False,
                     st.facts.get(down) is True or st.facts.get(up) is False))
    go(P, g, lambda q, n: None, cl=Grow(P, lambda q, n: None, None, None))
    for (hi, lo), where in roles.items():
        if hi[0] != "v" or lo[0] != "v":
            continue
        rep.count("bounds found")
        rep.check(hi != lo, where, "bounds", "both bounds of a slice are the same number")
        for loc, i, what in ((hi, 1, "highest"), (lo, 2, "lowest")):
            for e in sets.get(loc, []):
                rep.check(e[i], e[0], "bounds", "the %s bit of a slice is set to a number that is "
                          "not known to be %s" % (what, "larger" if i == 1 else "smaller"))


def validity(P, rep, N):
    f = P.fn(RTL + "::is_valid_signal")

    def look(name, I, st, f2, node, obj, args):
        if name == "handle":
            return [(st, ARG)]
        if name in HANDLE_ARG:
            bad = good_handle(N, st, args[HANDLE_ARG[name]])
            rep.count("signals validated")
            rep.check(bad is None, f2.loc(node), "own-value", "the handle that %s is given in %s %s" %
                      (name, f.q, bad))
        return None
    runs(P, N, f, look, extra=lambda q, n: "handle" if q == RTL + "::get_handle" else None)
    rep.need("signals validated", 1)


def run_c26(P, rep, tier):
    N = Parts(P)
    making(P, rep, N)
    validity(P, rep, N)
    reading(P, rep, N)
    naming(P, rep, N)
    resolving(P, rep, N)
    setting(P, rep, N)
    names(P, rep, N)
    widths(P, rep, N)
    cached(P, rep, N)
    timing(P, rep, N)
