"""Shared anchors and engine set-up for the language-server properties."""
import absint
from absint import O, err, ok

SEND = "crossbeam_channel::channel::Sender::send"
EXTRACT_REQ = "lsp_server::msg::Request::extract"
EXTRACT_NOT = "lsp_server::msg::Notification::extract"
SHUTDOWN = "lsp_server::Connection::handle_shutdown"
EXERR = "lsp_server::error::ExtractError"
PROTO = ("lsp_server::Request", "lsp_server::Response", "lsp_server::Message", "lsp_server::RequestId",
         "lsp_server::Notification", "lsp_server::Connection", "Sender<lsp_server::Message>")


class Missing(Exception):
    pass


def entry(P, argtys, pub=True, unit="ink_lsp_server.lib"):
    """a public function of the server crate, found by its signature"""
    r = []
    for b in P.bodies.values():
        if b.unit != unit or b.kind not in ("fn",):
            continue
        if b.nargs == len(argtys) and all(b.locals[i + 1] == t for i, t in enumerate(argtys)):
            if not pub or b.d["pub"]:
                r.append(b)
    return r


def main_loop(P):
    r = entry(P, ["lsp_server::Connection", "lsp_types::ClientCapabilities"])
    if len(r) != 1:
        raise Missing("the server's public main loop (Connection, ClientCapabilities) was not found (%d)" % len(r))
    return r[0]


def reaches(P, pred):
    """ids of bodies from which a callee satisfying pred(callee dict) is reachable"""
    direct = set()
    rev = {}
    for b in P.bodies.values():
        for _, t, f in b.calls():
            if f and pred(f):
                direct.add(b.id)
        for y, _ in P.edges_cached(b):
            rev.setdefault(y, set()).add(b.id)
    seen = set(direct)
    st = list(direct)
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in seen:
                seen.add(y)
                st.append(y)
    return seen


def proto_adts(P):
    """workspace structs that (transitively) hold protocol messages or the channel"""
    hold = set()
    ch = True
    while ch:
        ch = False
        for path, a in P.adts.items():
            if path in hold or not a["local"] or not path.startswith("ink_lsp_server"):
                continue
            for v in a["variants"]:
                for _, ty, _ in v["fields"]:
                    if any(p in ty for p in PROTO) or any(h.split("::", 1)[1] in ty for h in hold):
                        hold.add(path)
                        ch = True
    return hold


def proto_inline(P, extra=()):
    rel = reaches(P, lambda f: f["fn"] in (SEND, EXTRACT_REQ, EXTRACT_NOT, SHUTDOWN) + tuple(extra))
    hold = proto_adts(P)
    names = PROTO + tuple(h.split("::", 1)[1] for h in hold)

    def inline(b):
        if b.id in rel:
            return True
        sig = b.locals[:b.nargs + 1]
        return any(n in ty for ty in sig for n in names)

    return inline


def hook_extract_req(e, st, f, args, fr, site):
    """lsp_server::Request::extract: (id, params) iff the method matches and the params deserialize; a mismatch gives
    the request back"""
    req = e.deep(st, args[0])
    m = e.deep(st, args[1])
    meth = e.project(st, req, ("f", 1, "method", ""))
    rid = e.project(st, req, ("f", 0, "id", ""))
    st.event(("extract", m, req, site))

    def g():
        for s, b in e.split_bool(st, e.eq(st, meth, m)):
            if not b:
                yield s, err(("a", EXERR, "MethodMismatch", (args[0],)))
                continue
            s1 = s.fork()
            s1.event(("matched", m, "params"))
            yield s1, ok(("t", (rid, O("params", m))))
            s2 = s.fork()
            s2.event(("matched", m, "json-error"))
            yield s2, err(("a", EXERR, "JsonError", (meth, O("jsonerror", m))))

    return g()


def hook_extract_not(e, st, f, args, fr, site):
    n = e.deep(st, args[0])
    m = e.deep(st, args[1])
    meth = e.project(st, n, ("f", 0, "method", ""))
    st.event(("extract", m, n, site))

    def g():
        for s, b in e.split_bool(st, e.eq(st, meth, m)):
            if not b:
                yield s, err(("a", EXERR, "MethodMismatch", (args[0],)))
                continue
            s1 = s.fork()
            s1.event(("matched", m, "params"))
            yield s1, ok(O("params", m))
            s2 = s.fork()
            s2.event(("matched", m, "json-error"))
            yield s2, err(("a", EXERR, "JsonError", (meth, O("jsonerror", m))))

    return g()


HOOKS = {EXTRACT_REQ: hook_extract_req, EXTRACT_NOT: hook_extract_not}


def message_kind(t):
    """classify a sent value: ('Response'|'Request'|'Notification', payload term)"""
    while True:
        if t[0] == "a" and t[1].endswith("::Message") and t[3]:
            t = t[3][0]
            continue
        break
    base = t
    while base[0] == "ov":
        base = base[1]
    if base[0] == "a" and base[1].startswith("lsp_server::"):
        return base[1].rsplit("::", 1)[1], t
    if base[0] == "o" and base[1] == "call":
        n = base[2]
        for k in ("Response", "Request", "Notification"):
            if n.startswith("lsp_server::msg::%s::new" % k):
                return k, t
    return None, t


def resp_parts(t):
    """(id, result|None, error|None) of a Response term"""
    ovs = {}
    while t[0] == "ov":
        for (var, nm), v in t[2]:
            ovs.setdefault(nm, v)
        t = t[1]
    if t[0] == "a":
        # fields: id, result, error
        p = {"id": t[3][0], "result": t[3][1], "error": t[3][2]}
    elif t[0] == "o" and t[1] == "call" and t[2].endswith("new_ok"):
        p = {"id": t[3][0], "result": absint.some(t[3][1]), "error": absint.NONE}
    elif t[0] == "o" and t[1] == "call" and t[2].endswith("new_err"):
        p = {"id": t[3][0], "result": absint.NONE, "error": absint.some(("t", t[3][1:]))}
    else:
        return None
    p.update(ovs)
    return p


def path_text(st, limit=60):
    """constraints of an abstract path, for reports"""
    out = []
    for k, v in st.cons.items():
        if k[0] == "var":
            out.append("%s is %s" % (absint.pretty(k[1]), v if isinstance(v, str) else "not " + "/".join(sorted(v))))
        elif k[0] == "eqv":
            out.append("%s %s %s" % (absint.pretty(k[1]), "==" if v[0] else "not in", absint.pretty(v[1]) if v[0] else
                                     [absint.pretty(x) for x in v[1]]))
        elif k[0] == "nonempty":
            out.append("%s %s" % (absint.pretty(k[1]), "non-empty" if v else "empty"))
        else:
            out.append("%s = %s" % (absint.pretty(k), v))
    return "\n".join(out[:limit])
