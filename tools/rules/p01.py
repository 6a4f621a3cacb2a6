"""Exactly one response per request, with the request's own id and the outcome's own kind."""
import absint
from absint import O, pretty
from rules import conform, lsp

LEVEL = "other"
EXPLANATION = (
    "Typestate over abstract traces of one iteration of the server's message loop (disjunctive abstract interpretation of "
    "MIR, every workspace function that can touch a protocol message or the channel is entered; everything else is an "
    "opaque value).  For every abstract path on which a request is received and is not the shutdown request: the number "
    "of responses put on the client channel is exactly one, its id is the id of the received request, and its body is the "
    "handler's Ok value (or null together with a workspace/applyEdit request), an internal error on handler failure, "
    "InvalidParams on undecodable params, MethodNotFound for an unrouted method.  No response is sent on a path that "
    "received anything else.")
ASSUMPTIONS = ["lsp_server::Request::extract returns the request's own id on success and the request itself on a method "
               "mismatch (documented behaviour of lsp-server)",
               "handlers terminate normally (panics are the subject of another property)"]


def traces(P):
    b = lsp.main_loop(P)
    e = absint.Engine(P, max_depth=14, max_paths=60000, inline=lsp.proto_inline(P), hooks=lsp.HOOKS)
    return b, e, e.run(b)


def run(P, ctx):
    ctx.rule("one-response", "every non-shutdown request path sends exactly one Response before continuing")
    ctx.rule("own-id", "the Response's id is the received request's id")
    ctx.rule("outcome", "the Response's body is the outcome of handling this request")
    ctx.rule("no-stray-response", "no Response is sent while handling a notification or a response")
    ctx.rule("serve-on", "the loop ends only on shutdown, exit, a closed channel or a transport error")
    b, e, rs = traces(P)
    ctx.count("abstract paths", len(rs))
    ctx.count("functions entered", len(e.analysed))
    ctx.count("abstract steps", e.steps)
    ctx.count("paths cut at the loop bound", e.cuts)
    nreq = nother = 0
    outcomes = {}
    for st, ret in rs:
        evs = st.events()
        kinds = [(k[1], v) for k, v in st.cons.items() if k[0] == "var" and k[1][:2] == ("o", "item")
                 and isinstance(v, str) and v in ("Request", "Notification", "Response")]
        if not kinds:
            continue
        msg, kind = kinds[0]
        sends = []
        send_err = False
        for ev in evs:
            if ev[0] == "call" and ev[1] == lsp.SEND:
                k, t = lsp.message_kind(ev[2][1])
                sends.append((k, t, ev))
                if st.cons.get(("var", ev[3])) == "Err":
                    send_err = True
        resps = [s for s in sends if s[0] == "Response"]
        unknown = [s for s in sends if s[0] is None]
        serve_on(ctx, st, ret, evs, msg, kind, send_err)
        for s in unknown:
            ctx.bad("one-response", "unclassified-send:%s" % s[2][4][0], "a message of unrecognised kind is put on the "
                    "channel in %s: %s" % (s[2][4][0], pretty(s[1])), lsp.path_text(st))
        if kind == "Request":
            req = O("vf", msg, "Request", "0")
            sd = [ev for ev in evs if ev[0] == "call" and ev[1] == lsp.SHUTDOWN]
            if not sd:
                if resps:
                    ctx.bad("one-response", "shutdown-not-consulted", "a request is answered without first offering it "
                            "to the shutdown handshake", lsp.path_text(st))
                else:
                    ctx.bad("one-response", "silent:no-shutdown-check", "a request path neither answers nor consults the "
                            "shutdown handshake", lsp.path_text(st))
                continue
            r = sd[0][3]
            if st.cons.get(("var", r)) == "Err":
                continue
            if st.cons.get(O("vf", r, "Ok", "0")) == 1:
                if resps:
                    ctx.bad("one-response", "shutdown-answered-twice", "the shutdown request (already answered by the "
                            "handshake) gets a further response", lsp.path_text(st))
                continue
            nreq += 1
            if len(resps) != 1:
                if send_err and len(resps) <= 1 and ret[0] == "a" and ret[2] == "Err":
                    # transport failed before the response: nothing can be delivered any more
                    if len(resps) == 0 and sends:
                        pass
                    continue
                m = [ev[1] for ev in evs if ev[0] == "matched"]
                key = "%d-responses:%s" % (len(resps), pretty(m[0]) if m else "unmatched")
                ctx.bad("one-response", key, "on a path through %s, %d responses are sent for one request" % (
                    b.path, len(resps)), "path:\n%s\n\nsends: %s" % (lsp.path_text(st), [pretty(s[1]) for s in sends]))
                continue
            ctx.ok("one-response")
            p = lsp.resp_parts(resps[0][1])
            if p is None:
                ctx.bad("own-id", "opaque-response", "cannot determine the response: %s" % pretty(resps[0][1]),
                        lsp.path_text(st))
                continue
            want = O("fld", req, "id")
            if p["id"] != want:
                ctx.bad("own-id", "id:" + pretty(p["id"])[:80], "a response carries id %s instead of the request's id" %
                        pretty(p["id"]), lsp.path_text(st))
            else:
                ctx.ok("own-id")
            check_outcome(ctx, st, evs, p, sends, outcomes, send_err)
        else:
            nother += 1
            if resps:
                ctx.bad("no-stray-response", "%s:%s" % (kind, pretty(resps[0][1])[:60]), "a response is sent while "
                        "handling a %s" % kind.lower(), lsp.path_text(st))
            else:
                ctx.ok("no-stray-response")
    ctx.count("request paths", nreq)
    ctx.count("other message paths", nother)
    ctx.floor("one-response", "abstract request paths", nreq, 20)
    ctx.floor("no-stray-response", "notification/response paths", nother, 6)
    for k in ("ok", "handler-error", "invalid-params", "method-not-found"):
        ctx.floor("outcome", "outcome " + k, outcomes.get(k, 0), 1)
    ctx.count("outcome kinds", len(outcomes))
    stdout(P, ctx)
    conform.run_region(P, ctx)


def stdout(P, ctx):
    """the transport is the process's stdout: nothing else may write to it"""
    ctx.rule("clean-transport", "nothing but the protocol is written to the standard output the client reads")
    n = 0
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        for i, t, f in b.calls():
            if not f:
                continue
            n += 1
            nm = f["r"][1] if "r" in f else f["fn"]
            if nm.startswith(("std::io::stdio::_print", "std::io::stdio::stdout", "std::io::stdio::Stdout", "std::io::_print")) \
                    or "std::io::stdio::Stdout" in nm or "StdoutLock" in nm:
                ctx.bad("clean-transport", "%s:%s" % (b.path, nm), "%s (%s) writes to the standard output, which carries the "
                        "protocol" % (b.path, b.where(t["l"])))
    ctx.ok("clean-transport", n)


def serve_on(ctx, st, ret, evs, msg, kind, send_err):
    """the loop goes on after this message unless it is shutdown/exit or the transport failed"""
    src = [ev[1] for ev in evs if ev[0] == "next" and ev[2] == msg]
    again = any(ev[0] == "exhausted" and ev[1] in src for ev in evs)
    res = ret[2] if ret[0] == "a" else None
    if again:
        ctx.ok("serve-on")
        return
    payload = O("vf", msg, kind, "0")
    if res == "Err":
        # transport failure, or (for the handshake, notifications and diagnostics) a failure other than the request's own
        errs = [k[1] for k, v in st.cons.items() if k[0] == "var" and v == "Err"]
        if send_err or any(ev[0] == "matched" and ev[2] == "json-error" for ev in evs) and kind != "Request":
            ctx.ok("serve-on")
            return
        m = [ev[1] for ev in evs if ev[0] == "matched"]
        own = [t for t in errs if m and absint.has(t, O("params", m[0]))]
        if kind == "Request" and (not errs or (own and errs[-1] in own)):
            ctx.bad("serve-on", "error-ends-loop:%s" % (pretty(m[0]) if m else "unrouted"),
                    "a failing request ends the message loop: the server stops serving the client", lsp.path_text(st))
            return
        ctx.ok("serve-on")
        return
    if kind == "Request":
        sd = [ev for ev in evs if ev[0] == "call" and ev[1] == lsp.SHUTDOWN]
        if sd and st.cons.get(O("vf", sd[0][3], "Ok", "0")) == 1:
            ctx.ok("serve-on")
            return
    if kind == "Notification":
        c = st.cons.get(("eqv", O("fld", payload, "method")))
        if c and c[0] and c[1] == ("s", "exit"):
            ctx.ok("serve-on")
            return
    ctx.bad("serve-on", "%s-ends-loop" % kind.lower(), "the message loop ends after a %s that is neither a shutdown request "
            "nor an exit notification" % kind.lower(), lsp.path_text(st))


def const_int(t):
    while t[0] == "o" and t[1] == "cast":
        t = t[3]
    return t[1] if t[0] == "i" else None


def check_outcome(ctx, st, evs, p, sends, outcomes, send_err):
    matched = [ev for ev in evs if ev[0] == "matched"]
    errterm = p["error"]
    code = None
    if errterm[0] == "a" and errterm[2] == "Some":
        x = errterm[3][0]
        if x[0] == "t":
            code = const_int(x[1][0])
        elif x[0] == "a":
            code = const_int(x[3][0])
    result = p["result"]
    if not matched:
        outcomes["method-not-found"] = outcomes.get("method-not-found", 0) + 1
        if code != -32601:
            ctx.bad("outcome", "unrouted", "a request whose method is not routed is answered with %s instead of a "
                    "MethodNotFound error" % (pretty(result) if code is None else "error code %s" % code),
                    lsp.path_text(st))
        else:
            ctx.ok("outcome")
        return
    m, how = matched[-1][1], matched[-1][2]
    if len(matched) > 1:
        ctx.bad("outcome", "routed-twice:" + pretty(m), "a request is routed to two handlers", lsp.path_text(st))
        return
    if how == "json-error":
        outcomes["invalid-params"] = outcomes.get("invalid-params", 0) + 1
        if code != -32602:
            ctx.bad("outcome", "bad-params:" + pretty(m), "undecodable params for %s are answered with %s instead of an "
                    "InvalidParams error" % (pretty(m), pretty(result) if code is None else "error code %s" % code),
                    lsp.path_text(st))
        else:
            ctx.ok("outcome")
        return
    # handler outcome: find the call that consumed params(m)
    par = O("params", m)
    calls = [ev for ev in evs if ev[0] in ("call", "icall") and par in (ev[2] if ev[0] == "call" else ev[2])]
    if len(calls) != 1:
        ctx.bad("outcome", "handler-calls:%s" % pretty(m), "%d handler invocations for one %s request" % (
            len(calls), pretty(m)), lsp.path_text(st))
        return
    h = calls[0][3] if calls[0][0] == "call" else O("icall", calls[0][1], calls[0][2])
    hv = st.cons.get(("var", h))
    if hv == "Err":
        outcomes["handler-error"] = outcomes.get("handler-error", 0) + 1
        if code is None:
            ctx.bad("outcome", "error-as-success:" + pretty(m), "a failed %s handler is answered as a success: %s" % (
                pretty(m), pretty(result)), lsp.path_text(st))
        elif not absint.has(errterm, O("vf", h, "Err", "0")):
            ctx.bad("outcome", "error-lost:" + pretty(m), "the error of a failed %s handler is not what is reported" %
                    pretty(m), lsp.path_text(st))
        else:
            ctx.ok("outcome")
        return
    outcomes["ok"] = outcomes.get("ok", 0) + 1
    if code is not None or errterm != absint.NONE:
        ctx.bad("outcome", "success-as-error:" + pretty(m), "a successful %s handler is answered with an error" %
                pretty(m), lsp.path_text(st))
        return
    val = O("vf", h, "Ok", "0")
    if result[0] == "a" and result[2] == "Some" and result[3][0] == val:
        ctx.ok("outcome")
        return
    # null result is only legitimate when the result went out as a workspace/applyEdit request
    apply = [s for s in sends if s[0] == "Request" and absint.has(s[1], ("s", "workspace/applyEdit"))]
    isnull = result[0] == "a" and result[2] == "Some" and (
        result[3][0] == ("a", "serde_json::value::Value", "Null", ()) or result[3][0] == O("default"))
    if isnull and send_err:
        return  # the transport failed before the applyEdit request could follow
    if isnull and apply and absint.has(apply[0][1], val):
        ctx.ok("outcome")
        return
    ctx.bad("outcome", "result:" + pretty(m), "the response to %s is %s, not the handler's result (and the result is not "
            "delivered through workspace/applyEdit either)" % (pretty(m), pretty(result)), lsp.path_text(st))
