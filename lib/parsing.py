"""C05: malformed messages are refused with a reason, well-formed ones are accepted, and the parser
never reads a JSON value as something it has not been checked to be."""
from c01 import show
from engine import Interp, NULL, State
from extract import AnalysisBroken
from payload import (Exit, ParseClient, REASON, STATUS, class_of_new, elem_of, find_parser,
                     is_member_name, members_of, origin, parse_exits, request_exits)

# The protocol, as documented at the head of src/proto.cc and include/schema: per request type the
# cases, each (discriminating keywords, required members, optional members).
S, U, I64, M = "string", "uint", "int", "map"
CASES = {
    "breakpoint": [
        ({"action": "add"}, {"filename": S, "line_num": U}, {"column_num": U, "condition": S}),
        ({"action": "remove"}, {"filename": S}, {"line_num": U, "column_num": U})],
    "breakpoint-id": [
        ({"action": "add"}, {"id": U}, {"condition": S}),
        ({"action": "remove"}, {"id": U}, {})],
    "connection": [({}, {"db_filename": S}, {"path-mapping": M})],
    "bp-location": [({}, {"filename": S}, {"line_num": U, "column_num": U})],
    "command": [({"command": k}, {}, {}) for k in
                ("continue", "step_over", "stop", "step_back", "reverse_continue")] +
               [({"command": "jump"}, {"time": U}, {})],
    "debugger-info": [({"command": k}, {}, {}) for k in
                      ("breakpoints", "status", "options", "design", "filename")],
    "path-mapping": [({}, {"path-mapping": M}, {})],
    "evaluation": [({}, {"expression": S},
                    {"breakpoint_id": U, "instance_id": U, "namespace_id": U})],
    "option-change": [],
    "monitor": [({"action_type": "add", "monitor_type": k}, {"var_name": S},
                 {"instance_id": U, "breakpoint_id": U, "namespace_id": U})
                for k in ("breakpoint", "clock_edge", "changed")] +
               [({"action_type": "remove"}, {"track_id": U}, {"namespace_id": U})],
    "set-value": [({}, {"var_name": S, "value": I64},
                   {"instance_id": U, "breakpoint_id": U, "namespace_id": U})],
    "data-breakpoint": [
        ({"action": "add"}, {"var_name": S, "breakpoint-id": U},
         {"condition": S, "namespace_id": U}),
        ({"action": "info"}, {"var_name": S, "breakpoint-id": U},
         {"condition": S, "namespace_id": U}),
        ({"action": "remove"}, {"breakpoint-id": U}, {"namespace_id": U}),
        ({"action": "clear"}, {}, {"namespace_id": U})],
}
FAMILY = {S: {"string"}, U: {"uint64", "uint32"}, I64: {"int64", "int32"}, M: {"object"}}


def type_classes(P):
    """{type keyword: request class} as dispatched by the message parser, plus its exits"""
    f, exits, cl = request_exits(P)
    res = {}
    for e, v in exits:
        kw = e.keywords().get("type")
        cls = class_of_new(P, v)
        if kw is not None and cls is not None:
            res.setdefault(kw, set()).add(cls)
    return f, exits, res


def state_of(e, m, kind):
    """True: the member is there with the documented type; False: it is not; None: not examined"""
    h = e.has(m)
    if h is False:
        return False
    yes, no = e.kind(m)
    if yes & FAMILY[kind]:
        return True
    if yes:
        return False
    if no:
        # refused for not being of the documented type
        return False if no & FAMILY[kind] else None
    return None


def case_matches(e, case):
    """True / False / None (undetermined) from the keyword comparisons on the path"""
    res = True
    for m, k in case[0].items():
        got = [b for mm, kk, b in e.compared() if mm == m and kk == k]
        pos = [kk for mm, kk, b in e.compared() if mm == m and b]
        if pos and k not in pos:
            return False
        if any(got):
            continue
        if got:
            return False
        res = None
    return res


def holds(e, m, kind):
    """field paths whose value is exactly the member"""
    out = []
    for path, v in e.fields().items():
        o = origin(v)
        if o and o[0] == m and o[1] in FAMILY[kind]:
            out.append(path)
    return out


def name_of(path):
    return ".".join(x.split("::")[-1] for x in path)


def run_c05(P, rep, tier):
    rep.rule("refuse", "every path through a payload parser on which a required member is missing, "
             "has the wrong type, or a keyword is unknown ends with status error and a reason")
    rep.rule("accept", "every path that ends with status error has found such a defect, and each "
             "documented form of the payload has a path ending in success")
    rep.rule("typed-read", "every read of a JSON value as a string, number, object, array or member "
             "table is dominated, on its path, by a test that it is one")
    rep.rule("whole-map", "each member of an object payload is either stored or ends the parse "
             "with an error")
    seen = {}

    def on_access(I, st, f, node, what, base, ok):
        k = (f.q, f.loc(node), what)
        seen[k] = seen.get(k, True) and ok
        if not ok:
            rep.bad(f.loc(node), "typed-read", "%s reads a JSON value as %s without having "
                    "established that it is one (%s)" % (f.q, what, show(base)[:80]),
                    key="typed-read|%s|%s" % (f.q, what))
    root, exits, cl = request_exits(P, on_access)
    pf, _, classes = type_classes(P)
    _, rexits, _ = pf, exits, None
    # the message envelope
    for e, v in exits:
        cls = class_of_new(P, v)
        if cls is None:
            raise AnalysisBroken("the request object returned by parse_request is not recognised")
        kw = e.keywords().get("type")
        ok_env = (not e.parse_error() and not e.not_object() and
                  e.kind("request")[0] == {"bool"} and
                  any(b and t[0] == "p" and t[1] == "Get:bool" and members_of(t) == {"request"}
                      for t, b in e.facts.items()) and
                  "string" in e.kind("type")[0] and e.has("payload") is True)
        is_err = cls.endswith("::ErrorRequest")
        if not is_err:
            rep.check(ok_env and kw is not None, pf.loc(), "refuse",
                      "a message is accepted as %s although it is not an object with a true "
                      "'request', a string 'type' and a 'payload'" % cls,
                      key="refuse|envelope|" + cls)
        else:
            known = [k for m, k, b in e.compared() if m == "type" and b]
            rep.check(not (ok_env and known), pf.loc(), "accept",
                      "a well-formed message of type '%s' is refused" % "".join(known),
                      key="accept|type|" + "".join(known))
    for kw in CASES:
        rep.check(kw in classes and not any(c.endswith("::ErrorRequest") for c in classes[kw]) and
                  len(classes[kw]) == 1, pf.loc(), "accept",
                  "messages of type '%s' are not recognised" % kw, key="accept|type|" + kw)
    nacc = cl.accesses
    paths = len(exits)
    # an error request always carries a reason
    for e, v in exits:
        cls = class_of_new(P, v)
        if cls.endswith("::ErrorRequest"):
            n = P.funcs[v[1]].nodes[v[2]]
            rep.count("refused_messages")
    for kw, cases in CASES.items():
        if kw not in classes:
            continue
        cls = sorted(classes[kw])[0]
        f, ex, pc = parse_exits(P, cls, on_access)
        nacc += pc.accesses
        paths += len(ex)
        if kw == "option-change":
            check_options(P, rep, f, ex)
            continue
        for e in ex:
            if e.error():
                # a reason
                r = e.raw(REASON)
                rep.check(r is not None and r != ("str", ""), f.loc(), "refuse",
                          "a malformed '%s' payload is refused without a reason" % kw,
                          key="refuse|reason|" + kw)
                why = justified(e, cases)
                rep.check(why, f.loc(), "accept",
                          "a '%s' payload is refused although all its required members are present "
                          "and well typed (%s)" % (kw, facts(e)), key="accept|refused|" + kw)
                continue
            # success
            rep.check(not e.parse_error(), f.loc(), "refuse",
                      "a '%s' payload that is not JSON is accepted" % kw, key="refuse|json|" + kw)
            ms = [(case_matches(e, c), c) for c in cases]
            poss = [c for b, c in ms if b is not False]
            undoc = any(k not in {c[0].get(m) for c in cases} for m, k in e.keywords().items())
            if not poss:
                if not undoc:
                    rep.bad(f.loc(), "refuse", "a '%s' payload with an unknown keyword is accepted"
                            " (%s)" % (kw, facts(e)), key="refuse|keyword|" + kw)
                continue
            # all the keywords that tell the possible cases apart have to be known
            if any(b is None for b, c in ms) and not any(b is True for b, c in ms):
                rep.bad(f.loc(), "refuse", "a '%s' payload is accepted without looking at its %s" %
                        (kw, " and ".join(sorted({m for c in poss for m in c[0]}))),
                        key="refuse|nokey|" + kw)
                continue
            for b, c in ms:
                if b is not True:
                    continue
                for m, kind in c[1].items():
                    rep.check(state_of(e, m, kind) is True, f.loc(), "refuse",
                              "a '%s' payload (%s) without a valid '%s' is accepted" % (
                                  kw, fmt(c[0]), m), key="refuse|member|%s|%s|%s" % (
                                      kw, fmt(c[0]), m))
        for c in cases:
            full = [e for e in ex if not e.error() and case_matches(e, c) is True and
                    all(state_of(e, m, k) is True for m, k in c[1].items())]
            rep.check(bool(full), f.loc(), "accept", "no path accepts a '%s' payload with %s" % (
                kw, fmt(c[0]) or "all its members"), key="accept|case|%s|%s" % (kw, fmt(c[0])))
            # optional members may be absent
            for m, kind in c[2].items():
                rep.check(any(state_of(e, m, kind) is not True for e in full), f.loc(), "accept",
                          "a '%s' payload without the optional '%s' is refused" % (kw, m),
                          key="accept|optional|%s|%s" % (kw, m))
        whole_map(P, rep, f, ex)
    rep.count("json_reads", nacc)
    rep.count("parser_paths", paths)
    rep.count("request_types", len(CASES))
    rep.need("json_reads", 60)
    # every JSON read of the message parsers elsewhere: the reply of a symbol server
    sp = P.fns("hgdb::SymbolResponse::parse")
    if sp:
        for extra in ("hgdb::SymbolResponse", ):
            f = sp[0]
            pc = ParseClient(on_access)
            it = Interp(P, pc)
            it.run(f, State(env={"this": ("addr", ("obj", extra))}, auto=pc.empty_auto()))
            rep.count("json_reads_symbol_reply", pc.accesses)
    for k, ok in seen.items():
        if ok:
            rep.ok()
            if len(rep.samples) < 12:
                rep.samples.append("%s: %s read as %s after a test" % (k[1], k[0], k[2]))


def facts(e):
    return ", ".join("%s%s" % ("" if b else "not ", show(t)[:50]) for t, b in
                     list(e.facts.items())[:8])


def fmt(d):
    return ", ".join("%s=%s" % kv for kv in sorted(d.items()))


def justified(e, cases):
    if e.parse_error() or e.not_object():
        return True
    for c in cases:
        b = case_matches(e, c)
        if b is False:
            continue
        bad = any(state_of(e, m, k) is False for m, k in c[1].items()) or \
            (M in c[1].values() and ("mistyped", "string") in e.st.auto[0]) or \
            any(e.has(m) is False or (e.kind(m)[1] & {"string"}) for m in c[0])
        if b is True and not bad:
            return False
        if b is None and not bad:
            return False
    return True


def whole_map(P, rep, f, ex):
    """loops that walk the members of a JSON object store each of them"""
    for e in ex:
        evs, loops, iters = e.st.auto
        cols = [x for x in evs if x[0] == "collect"]
        walked = {t[2] for t in e.facts if t[0] == "p" and t[1] == "Is:object" and e.facts[t] and
                  t[2][0] == "idx"}
        if e.error():
            continue
        for lid, sig, how in iters:
            if how == "next" and walked:
                rep.check("collect" in sig, P.funcs[lid[0]].loc(), "whole-map",
                          "%s skips members of an object without an error" % P.funcs[lid[0]].q,
                          key="whole-map|" + f.q)
        for name, obj, vals, where in cols:
            ks = [v for v in vals if v[0] == "p" and v[1].startswith("Get:")]
            if len(vals) == 2:
                rep.check(len(ks) == 2 and is_member_name(ks[0][2]) and
                          not is_member_name(ks[1][2]), where, "whole-map",
                          "a member of an object is not stored as its name and value",
                          key="whole-map|kv|" + f.q)


def check_options(P, rep, f, ex):
    ok_paths = 0
    for e in ex:
        evs, loops, iters = e.st.auto
        if e.error():
            r = e.raw(REASON)
            rep.check(r is not None and r != ("str", ""), f.loc(), "refuse",
                      "malformed options are refused without a reason", key="refuse|reason|options")
            # some member was of none of the supported kinds, or the payload is no object
            kinds = {t[1][3:] for t, b in e.facts.items() if not b and t[0] == "p" and
                     t[1].startswith("Is:") and t[2][0] != "v"}
            rep.check(e.parse_error() or e.not_object() or
                      ({"bool", "string"} <= kinds and kinds & {"int64", "int32", "number"}),
                      f.loc(), "accept", "options of a supported type are refused",
                      key="accept|refused|options")
            continue
        ok_paths += 1
        for lid, sig, how in iters:
            rep.check("collect" in sig or how != "next", f.loc(), "whole-map",
                      "an option is dropped without an error", key="whole-map|options")
        rep.check(not e.not_object() and any(
            b and t[0] == "p" and t[1] == "Is:object" and t[2][0] == "v"
            for t, b in e.facts.items()), f.loc(), "refuse",
            "options that are not an object are accepted", key="refuse|options|object")
        for x in evs:
            if x[0] == "collect":
                ks = [v for v in x[2] if v[0] == "p" and v[1].startswith("Get:")]
                rep.check(len(ks) == 2 and is_member_name(ks[0][2]) and
                          not is_member_name(ks[1][2]), x[3], "whole-map",
                          "an option is not stored as its name and value",
                          key="whole-map|options|kv")
    if not ok_paths:
        rep.bad(f.loc(), "accept", "no options are ever accepted", key="accept|case|options")


if __name__ == "__main__":
    import sys
    import report
    sys.exit(report.main("C05", run_c05))
