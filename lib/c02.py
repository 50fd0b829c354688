"""C02: a response goes to the connection the request came from and identifies that request."""
from c01 import enum_name, show
from dbg import DEBUGGER
from engine import Interp, NULL, State, is_const, subterms
from extract import AnalysisBroken
from handlers import REQ, SEND, producible_types, run_request, type_name
from jsonw import WriteClient, jshow
from paths import lookup, run, strip
from payload import REASON, STATUS, TOKEN, class_of_new, origin, request_exits

SERVER = "hgdb::DebugServer"
RESP = "hgdb::Response"
WIRE = ("websocketpp::connection", "websocketpp::endpoint", "websocketpp::server")


def getter(P, q):
    """field a trivial accessor returns"""
    from engine import Client
    f = P.fn(q)
    outs = Interp(P, Client()).run(f, State(env={"this": ("addr", ("obj", f.cls))}))
    vals = {v for _, v in outs}
    if len(vals) == 1:
        v = next(iter(vals))
        if v[0] == "f":
            return v[2]
    raise AnalysisBroken("what %s returns is not recognised" % q)


def query(q, n):
    nm = q.split("::")[-1]
    return nm if q.startswith("websocketpp::") and nm in ("get_con_from_hdl", "get_payload") \
        else None


def pure(name, I, st, f, node, n, obj, args):
    """what the websocket library tells about a connection handle or a message"""
    if name == "get_con_from_hdl":
        return [(st, ("p", name, I._rv(st, args[0])))]
    if name == "get_payload":
        return [(st, ("p", name, obj))]
    return None


def wire(q, n):
    if q.split("::")[-1] == "send" and q.startswith(WIRE):
        return "wire"
    return None


def message_lambda(P, f, setter):
    """the handler a function installs in the websocket server, with the installing state"""
    got = []

    def watch(q, n):
        return "install" if q.split("::")[-1] == setter and q.startswith("websocketpp::") else None
    for s, v, evs in run(P, f, watch):
        for e in evs:
            if e[0] == "install":
                got.append((e[2][0], s))
    if not got:
        raise AnalysisBroken("%s: no call of %s" % (f.q, setter))
    lam = got[0][0]
    if lam[0] != "lam":
        raise AnalysisBroken("%s: the handler installed is not a lambda" % f.q)
    bodies = P.lambda_bodies(lam[1])
    if not bodies:
        raise AnalysisBroken("%s: the handler's body is not available" % f.q)
    return bodies[0]


def run_c02(P, rep, tier):
    rep.rule("keep-token", "every path through the message parser on which the message is an object "
             "with a string token returns a request whose token is that string")
    rep.rule("to-requester", "every send reachable from a request handler, for every request type, "
             "is addressed to the connection the message came from")
    rep.rule("echo-token", "every response sent by a request handler carries the request's token")
    rep.rule("echo-type", "every generic response names the type of the request it answers")
    rep.rule("header", "every response class writes request=false, its type, its status, and its "
             "token exactly when it has one")
    rep.rule("route", "a message for a connection id is written to the connection registered under "
             "that id, if there is one, and to no other")
    rep.rule("identity", "connection ids are never reused; a message is handed to the debugger with "
             "the id under which its own connection is registered; a closed connection is "
             "forgotten in both directions")
    parser(P, rep)
    handlers(P, rep)
    writers(P, rep)
    server(P, rep)


def parser(P, rep):
    f, exits, cl = request_exits(P)
    kept = 0
    for e, v in exits:
        rep.count("parser_paths")
        cls = class_of_new(P, v)
        raw = e.raw(TOKEN)
        o = origin(raw) if raw is not None else None
        is_str = e.has("token") is True and "string" in e.kind("token")[0]
        if e.parse_error() or e.not_object():
            continue
        if is_str:
            ok = o == ("token", "string")
            kept += ok
            rep.check(ok, f.loc(), "keep-token",
                      "a message with a token becomes a %s whose token is %s" % (
                          cls, "not set" if raw is None else show(raw)[:60]),
                      key="keep-token|" + str(cls))
        elif raw is not None and o is None and raw != ("str", ""):
            rep.bad(f.loc(), "keep-token", "a message without a token becomes a %s with token %s" %
                    (cls, show(raw)[:60]), key="keep-token|made|" + str(cls))
        elif e.has("token") is None:
            # the token was not looked at although the message could be read
            rep.bad(f.loc(), "keep-token", "a path to a %s does not look at the token" % cls,
                    key="keep-token|ignored|" + str(cls))
    rep.count("parser_paths_with_token", kept)
    rep.need("parser_paths_with_token", 5)


def handlers(P, rep):
    tok_field = getter(P, "hgdb::Request::get_token")
    tok = ("f", ("deref", REQ), tok_field)
    types = [(t, True) for t in producible_types(P)] + [
        (t, False) for t in (producible_types(P))]
    errs = [x for x in P.enum("hgdb::RequestType")["c"] if x["n"] == "error"]
    if errs:
        types.append((("e", "hgdb::RequestType", errs[0]["v"]), False))
    for rtype, ok in types:
        cl, I, root, exits = run_request(P, rtype, [], lambda q, n: None, status_ok=ok)
        name = enum_name(P, rtype)
        rep.count("request_types")
        for s, _ in exits:
            rep.count("handler_paths")
            for e in s.auto[0]:
                if e[0] != "send":
                    continue
                payload, to, where, stack = e[1:5]
                if any("init_breakpoint" in x for x in stack):
                    continue
                rep.check(to == cl.conn, where, "to-requester",
                          "while answering a '%s' request a message is sent to %s instead of the "
                          "requesting connection" % (name, show(to)[:60]),
                          key="to-requester|%s|%s" % (name, where.split(":")[0]))
                if payload[0] != "payload":
                    rep.bad(where, "echo-token", "the text sent in answer to a '%s' request is not "
                            "a response object" % name, key="echo-token|raw|" + name)
                    continue
                rep.check(payload[2] == tok, where, "echo-token",
                          "the response to a '%s' request carries %s" % (
                              name, "no token" if payload[2] == ("none",) else
                              "a token other than the request's (%s)" % show(payload[2])[:60]),
                          key="echo-token|" + name)
                rt = response_request_type(P, payload)
                if rt is not None:
                    rep.check(rt == type_name(P, rtype), where, "echo-type",
                              "the response to a '%s' request says it answers %s" % (
                                  name, show(rt)), key="echo-type|" + name)
    rep.need("handler_paths", 30)


def response_request_type(P, payload):
    """what a generic response will write as the type of the request it answers"""
    fld = _fields(P).get("request-type")
    return dict(payload[5]).get(fld) if fld else None


_cache = {}


def _fields(P):
    """{payload member: field} of the generic response"""
    if "g" not in _cache:
        res = {}
        f = P.fn("hgdb::GenericResponse::str")
        for s, v in Interp(P, WriteClient()).run(
                f, State(env={"this": ("addr", ("obj", f.cls))})):
            c = v[1].c if v[0] == "jtext" else None
            if not c or c[0] != "jobj":
                continue
            for m in c[1:]:
                if m[1] == ("str", "payload") and m[2][0] == "jobj":
                    for x in m[2][1:]:
                        if x[1][0] == "str" and x[2][0] == "jval" and x[2][1][0] == "f":
                            res[x[1][1]] = x[2][1][2]
        _cache["g"] = res
    return _cache["g"]


def writers(P, rep):
    tok_field = getter(P, RESP + "::token")
    stat = None
    classes = sorted(c for c in P.derived_of(RESP) if P.fns(c + "::str"))
    for c in classes:
        f = P.fn(c + "::str")
        this = ("obj", c)
        names = {v for _, v in Interp(P, Passive(P)).run(
            P.fn(find_method(P, c, "type")), State(env={"this": ("addr", this)}))}
        want = next(iter(names)) if len(names) == 1 else None
        n = 0
        for s, v in Interp(P, WriteClient()).run(f, State(env={"this": ("addr", this)})):
            n += 1
            body = v[1].c if v[0] == "jtext" and v[1] is not None else None
            if body is None or body[0] != "jobj":
                rep.bad(f.loc(), "header", "%s::str does not return the text of a JSON object" % c,
                        key="header|text|" + c)
                continue
            ms = {m[1][1]: m for m in body[1:] if m[1][0] == "str"}
            r = ms.get("request")
            rep.check(r and r[3] and r[2] == ("jval", ("c", False)), f.loc(), "header",
                      "%s is not written with request=false" % c, key="header|request|" + c)
            t = ms.get("type")
            rep.check(t and t[3] and want is not None and t[2] == ("jval", want), f.loc(), "header",
                      "%s is not written with its type %s" % (c, show(want) if want else ""),
                      key="header|type|" + c)
            tk = ms.get("token")
            tokv = ("f", this, tok_field)
            empty = s.truth(("p", "empty", tokv))
            if empty is None:
                rep.check(tk is not None and tk[3], f.loc(), "header",
                          "%s may be written without its token" % c, key="header|token|" + c)
            else:
                rep.check((tk is not None) == (not empty), f.loc(), "header",
                          "%s is written %s" % (c, "without its token" if not empty else
                                                "with an empty token"), key="header|token|" + c)
            if tk:
                rep.check(tk[2] == ("jval", tokv), f.loc(), "header",
                          "%s writes something else than its token" % c,
                          key="header|tokenvalue|" + c)
            st = ms.get("status")
            if not st:
                rep.bad(f.loc(), "header", "%s is written without status" % c,
                        key="header|status|" + c)
                continue
            check_status(P, rep, f, c, s, st[2])
        rep.count("response_classes")
        rep.count("writer_paths", n)
    rep.need("response_classes", 6)


def check_status(P, rep, f, c, s, content):
    """'success' exactly when the status is success"""
    fld = ("f", ("obj", c), status_field(P))
    v = s.load(fld)
    succ = s.truth(("eq", v, ("e", "hgdb::status_code", 0)))
    err = s.truth(("eq", v, ("e", "hgdb::status_code", 1)))
    if succ is None and err is not None:
        succ = not err
    if v[0] == "e":
        succ = enum_name(P, v) == "success"
    text = content[1] if content[0] == "jval" else None
    if succ is None and text is not None and text[0] == "str":
        # the status has a fixed value that was set before
        rep.bad(f.loc(), "header", "%s writes status '%s' whatever its status" % (c, text[1]),
                key="header|statusvalue|" + c)
        return
    rep.check(text == ("str", "success" if succ else "error"), f.loc(), "header",
              "%s writes status %s although its status is %s" % (
                  c, show(text) if text else "?", "success" if succ else "error"),
              key="header|statusvalue|" + c)


def status_field(P):
    if "s" not in _cache:
        ctor = [f for f in P.funcs.values() if f.cls == RESP and f.ctor and len(f.params) == 1 and
                "status_code" in f.params[0]["t"]]
        if not ctor:
            raise AnalysisBroken("no Response(status) constructor")
        from engine import Client
        obj = ("obj", RESP)
        d = ctor[0].params[0]["d"]
        for s, v in Interp(P, Client()).run(ctor[0], State(env={"this": ("addr", obj)})):
            for l, x in s.store.items():
                if l[0] == "f" and l[1] == obj and x == ("v", d):
                    _cache["s"] = l[2]
        if "s" not in _cache:
            raise AnalysisBroken("Response(status) does not store the status")
    return _cache["s"]


class Passive(WriteClient):
    def __init__(self, P):
        pass


def find_method(P, cls, name):
    for c in [cls] + sorted(P.bases_of(cls), key=lambda x: -len(P.bases_of(x))):
        if P.fns(c + "::" + name):
            return c + "::" + name
    raise AnalysisBroken("no %s in %s" % (name, cls))


def tables(P):
    """(id -> connection, connection -> id) fields"""
    a = b = None
    for fd in P.record(SERVER)["fields"]:
        t = fd["t"]
        if "map<" in t and ("connection" in t.lower()):
            args = t[t.index("<") + 1:]
            if args.startswith(("unsigned long,", "uint64_t,")):
                a = fd["q"]
            elif args.split(",")[-1].strip().startswith(("unsigned long", "uint64_t")) or \
                    ", unsigned long" in args:
                b = fd["q"]
    if not a or not b:
        raise AnalysisBroken("the server's connection tables are not recognised")
    return a, b


def server(P, rep):
    this = ("obj", SERVER)
    by_id, by_conn = tables(P)
    T_ID, T_CONN = ("f", this, by_id), ("f", this, by_conn)
    # --- sending to one connection
    sends = P.fns(SEND)
    one = [f for f in sends if len(f.params) == 2 and "basic_string" not in f.params[1]["t"]]
    every = [f for f in sends if len(f.params) == 1]
    if not one or not every:
        raise AnalysisBroken("DebugServer::send overloads not found")
    f = one[0]
    text, to = [("v", p["d"]) for p in f.params]
    for s, v, evs in run(P, f, wire, this=SERVER):
        ws = [e for e in evs if e[0] == "wire"]
        rep.count("send_paths")
        for e in ws:
            lk = lookup(e[1])
            rep.check(lk == (T_ID, to), e[3], "route",
                      "a message for one connection is written to %s" % show(strip(e[1]))[:80],
                      key="route|one|target")
            rep.check(e[2][0] == text, e[3], "route", "what is written is not the message",
                      key="route|one|text")
        if not ws:
            gone = any((t[0] == "found" and not b or t[0] == "p" and t[1] in (
                "contains", "count") and not b) and T_ID in subterms(t) and to in subterms(t)
                for t, b in s.facts.items())
            rep.check(gone, f.loc(), "route", "a message for a connection that exists is dropped",
                      key="route|one|dropped")
        rep.check(len(ws) <= 1, f.loc(), "route", "a message for one connection is written twice",
                  key="route|one|twice")
    # --- broadcast
    f = every[0]
    text = ("v", f.params[0]["d"])
    seen = False
    for s, v, evs in run(P, f, wire, this=SERVER):
        for e in evs:
            if e[0] == "wire":
                seen = True
                rep.check(lookup(e[1]) == (T_ID, ("*",)) and e[2][0] == text, e[3], "route",
                          "a broadcast does not write the message to each open connection",
                          key="route|all")
        its = [x for x in s.auto[2] if x[2] == "left"]
        rep.check(not its, f.loc(), "route", "a broadcast stops before the last connection",
                  key="route|all|left")
        for (lid, names, how) in s.auto[2]:
            rep.check(how != "next" or "wire" in names, f.loc(), "route",
                      "a broadcast skips a connection", key="route|all|skip")
    rep.check(seen, f.loc(), "route", "a broadcast writes nothing", key="route|all|none")
    # --- opening
    ctors = [g for g in P.funcs.values() if g.cls == SERVER and g.ctor and g.blocks]
    main = None
    for g in ctors:
        try:
            main = (message_lambda(P, g, "set_open_handler"),
                    message_lambda(P, g, "set_close_handler"))
            break
        except AnalysisBroken as e:
            err = e
    if main is None:
        raise err
    opened, closed = main
    table_ops = ("emplace", "insert", "try_emplace", "insert_or_assign", "erase", "clear")

    def watch(q, n):
        nm = q.split("::")[-1]
        if nm in table_ops and q.startswith("std::") or q == "operator[]=":
            return "op"
        return query(q, n)

    def value(name, I, st, f, node, n, obj, args):
        if name == "op":
            return [(st, ("op", f.key, node))]
        return pure(name, I, st, f, node, n, obj, args)
    counters = [fd["q"] for fd in P.record(SERVER)["fields"]
                if fd["t"] in ("unsigned long", "uint64_t", "unsigned int", "uint32_t", "size_t")]
    fresh = ("fresh-id",)
    moved = {}

    def assign(I, st, f, node, loc, val):
        # the counter moves on: what was read from it before stays the fresh id
        if loc[0] == "f" and loc[1] == this and loc[2] in counters:
            moved.setdefault(loc[2], set()).add(f.q)
            I._rename(st, loc, fresh)
            st.env["#moved"] = ("c", True)
            st.facts[("next", val)] = True
            I.C.ev(st, ("moved",))
            if is_const(val) or not (val[0] == "opaque" or loc in subterms(val)):
                rep.bad(f.loc(node), "identity", "the counter of connection ids is set to %s" %
                        show(val), key="identity|counter|set")
    for s, v, evs in run(P, opened, watch, this=SERVER, value=value, assign=assign):
        a = [e for e in evs if e[0] == "op" and e[1] == T_ID]
        b = [e for e in evs if e[0] == "op" and e[1] == T_CONN]
        ok = len(a) == 1 and len(b) == 1
        ida = conna = idb = connb = None
        if ok:
            (ida, conna), (connb, idb) = stored(s, a[0]), stored(s, b[0])
        seq = [e[1] if e[0] == "op" else "moved" for e in evs if e[0] == "moved" or
               e[1] in (T_ID, T_CONN)]
        if ok and "moved" in seq and seq.index("moved"):
            i = seq.index("moved")
            ok = i == len(seq) - 1
        old = [("f", this, c) for c in counters]
        ida, idb = [fresh if x in old else x for x in (ida, idb)]
        rep.check(ok and ida is not None and ida == idb, opened.loc(), "identity",
                  "a new connection is not registered under one id in both tables",
                  key="identity|open|id")
        good = (ida == fresh or s.facts.get(("next", ida))) and "#moved" in s.env
        rep.check(ok and good, opened.loc(), "identity",
                  "a new connection is registered under an id that is not fresh",
                  key="identity|open|fresh")
        rep.check(ok and conna is not None and same_conn(conna, connb), opened.loc(), "identity",
                  "a new connection's id leads to another connection", key="identity|open|conn")
    I = Interp(P, __import__("engine").Client())
    for q in counters:
        if q not in moved:
            continue
        others = sorted(g.q for g in P.funcs.values() if q in I.local_mods(g) and not g.ctor and
                        g.q not in moved[q])
        rep.check(not others, opened.loc(), "identity", "the counter of connection ids is also "
                  "changed in " + ", ".join(others), key="identity|counter")
        for g in P.funcs.values():
            if g.q in moved[q]:
                for i, n in enumerate(g.nodes):
                    if n and n["k"] in ("BinaryOperator", "UnaryOperator",
                                        "CompoundAssignOperator") and n["op"] in ("--", "-="):
                        c = n["c"][0]
                        rep.check(g.nodes[g.strip(c)].get("q") != q, g.loc(i), "identity",
                                  "the counter of connection ids moves back",
                                  key="identity|counter|back")
    # --- closing
    for s, v, evs in run(P, closed, watch, this=SERVER, value=value):
        er = [e for e in evs if e[0] == "op"]
        a = [e for e in er if e[1] == T_ID]
        b = [e for e in er if e[1] == T_CONN]
        rep.check(bool(a) == bool(b), closed.loc(), "identity",
                  "a closed connection is forgotten in one table only", key="identity|close|both")
    rep.check(any(any(e[0] == "op" and e[1] == T_ID for e in evs)
                  for s, v, evs in run(P, closed, watch, this=SERVER, value=value)),
              closed.loc(), "identity", "a closed connection is never forgotten",
              key="identity|close|never")
    # --- messages
    g = P.fn(SERVER + "::set_on_message")
    body = message_lambda(P, g, "set_message_handler")
    cb = ("v", g.params[0]["d"])

    def calls(q, n):
        if q.startswith("std::function") and q.endswith("::operator()"):
            return "callback"
        return query(q, n)
    n = 0
    hdl = ("v", body.params[0]["d"])
    msg = ("v", body.params[1]["d"])
    for s, v, evs in run(P, body, calls, this=SERVER, value=pure):
        for e in evs:
            if e[0] != "callback":
                continue
            n += 1
            txt, cid = e[2][0], e[2][1]
            rep.check(msg in subterms(txt) and any(
                x[0] == "p" and x[1] == "get_payload" for x in subterms(txt)), e[3], "identity",
                "the debugger is not given the text of the message", key="identity|msg|text")
            lk = lookup(cid)
            rep.check(lk is not None and lk[0] == T_CONN and hdl in subterms(lk[1]), e[3],
                      "identity", "a message is attributed to a connection other than its own (%s)"
                      % show(cid)[:80], key="identity|msg|id")
        cbs = [e for e in evs if e[0] == "callback"]
        if not cbs:
            gone = any(t[0] == "found" and not b and T_CONN in subterms(t)
                       for t, b in s.facts.items())
            rep.check(gone, body.loc(), "identity", "a message from an open connection is dropped",
                      key="identity|msg|dropped")
        rep.check(len(cbs) <= 1, body.loc(), "identity", "a message is handled twice",
                  key="identity|msg|twice")
    rep.count("message_handler_calls", n)
    rep.need("message_handler_calls", 1)


def stored(s, e):
    """(key, value) of a table insertion"""
    args = e[2]
    if len(args) >= 2:
        return args[:2]
    if len(args) == 1 and args[0][0] == "tuple" and len(args[0]) == 3:
        return args[0][1], args[0][2]
    return None, None


def same_conn(a, b):
    return b is not None and strip(a) == strip(b)
