"""Advertised capabilities, routed methods and analyses."""
import absint
from rules import conform

LEVEL = "other"
EXPLANATION = (
    "Constant propagation of the advertised capabilities (for every client: all paths through the client's capabilities) "
    "against the request and notification types instantiated at the routers' call sites: every advertised provider has a "
    "route and every route is advertised; resolve support is advertised only with a resolve route; and the advertised "
    "commands are exactly the command names the command handler accepts.  In addition, " + conform.TEXT + ".")
ASSUMPTIONS = ["which LSP request type serves which server capability (LSP 3.17)"]
PROVIDERS = {
    "hover_provider": "HoverRequest", "completion_provider": "Completion", "signature_help_provider": "SignatureHelpRequest",
    "code_action_provider": "CodeActionRequest", "inlay_hint_provider": "InlayHintRequest",
    "execute_command_provider": "ExecuteCommand", "definition_provider": "GotoDefinition",
    "type_definition_provider": "GotoTypeDefinition", "implementation_provider": "GotoImplementation",
    "references_provider": "References", "document_highlight_provider": "DocumentHighlightRequest",
    "document_symbol_provider": "DocumentSymbolRequest", "workspace_symbol_provider": "WorkspaceSymbolRequest",
    "code_lens_provider": "CodeLensRequest", "document_formatting_provider": "Formatting",
    "document_range_formatting_provider": "RangeFormatting", "document_on_type_formatting_provider": "OnTypeFormatting",
    "rename_provider": "Rename", "document_link_provider": "DocumentLinkRequest", "color_provider": "DocumentColor",
    "folding_range_provider": "FoldingRangeRequest", "declaration_provider": "GotoDeclaration",
    "selection_range_provider": "SelectionRangeRequest",
}
SYNC = ("DidOpenTextDocument", "DidChangeTextDocument", "DidCloseTextDocument")


def one(P, path):
    c = [b for b in P.bodies.values() if b.path == path and b.kind not in ("closure", "promoted")]
    return c[0] if len(c) == 1 else None


def routed(P):
    req, note = set(), set()
    for b in P.bodies.values():
        if not b.path.startswith("ink_lsp_server"):
            continue
        for t in (x[1] for x in b.calls()):
            f = t["f"].get("f") or {}
            if not (f.get("fn") or "").startswith("ink_lsp_server::"):
                continue
            for a in f.get("args") or []:
                for pre, s in (("lsp_types::request::", req), ("lsp_types::notification::", note)):
                    if a.startswith(pre):
                        s.add(a[len(pre):])
    return req, note


def fields(P, e, st, v):
    d = P.adts.get(v[1])
    if not d:
        return None
    names = [f["name"] if isinstance(f, dict) else f[0] if isinstance(f, (list, tuple)) else f for f in d["variants"][0]["fields"]]
    return dict(zip(names, v[3]))


def run(P, ctx):
    conform.run_region(P, ctx)
    req, note = routed(P)
    b = one(P, "ink_lsp_server::initialize::server_capabilities")
    e = absint.Engine(P, max_depth=8)
    ctx.rule("provider", "every advertised provider has a route, on every path through the client's capabilities")
    ctx.rule("advertised", "every routed request type is advertised")
    ctx.rule("sync", "opening, changing and closing documents are advertised and routed")
    ctx.rule("commands", "the advertised commands are the commands the handler accepts")
    left = 0
    try:
        rs = e.run(b, [absint.O("arg", "capabilities")]) if b is not None and b.nargs == 1 else []
    except absint.Limit:
        rs = []
    offered, commands = set(), set()
    for st, v in rs:
        v = e.deep(st, v)
        fs = fields(P, e, st, v) if v[0] == "a" else None
        if fs is None or "hover_provider" not in fs:
            left += 1
            continue
        for name, r in PROVIDERS.items():
            x = fs.get(name)
            if x is None or x[0] != "a" or x[2] != "Some":
                continue
            if x[3][0] in (absint.FALSE, ("a", "lsp_types::OneOf", "Left", (absint.FALSE,))):
                continue
            offered.add(r)
            if has_resolve(P, x[3][0]):
                offered.add({"CodeActionRequest": "CodeActionResolveRequest", "Completion": "ResolveCompletionItem",
                             "InlayHintRequest": "InlayHintResolveRequest"}.get(r, r))
        s = fs.get("text_document_sync")
        if s and s[0] == "a" and s[2] == "Some":
            o = fields(P, e, st, s[3][0][3][0]) if s[3][0][0] == "a" and s[3][0][2] == "Options" and s[3][0][3][0][0] == "a" else None
            if o is not None:
                good = o.get("open_close") == absint.some(absint.TRUE)
                kind = o.get("change")
                if good:
                    ctx.ok("sync", 1)
                else:
                    ctx.bad("sync", "open-close", "the server does not ask to be told about opened and closed documents")
                full = kind and kind[0] == "a" and kind[2] == "Some" and kind[3][0] == (
                    "a", "lsp_types::TextDocumentSyncKind", "TextDocumentSyncKind", (("i", 1),))
                if full:
                    ctx.ok("sync", 1)
                elif kind and kind[0] == "a":
                    ctx.bad("sync", "kind", "document changes are not advertised as full text, which is how they are handled")
            else:
                left += 1
        c = fs.get("execute_command_provider")
        if c and c[0] == "a" and c[2] == "Some" and c[3][0][0] == "a":
            o = fields(P, e, st, c[3][0]) or {}
            l = o.get("commands")
            if l and l[0] == "seq" and all(x[0] == "s" for x in l[2]):
                commands |= {x[1] for x in l[2]}
    if offered and req:
        for r in sorted(offered):
            if r in req:
                ctx.ok("provider", 1, r)
            else:
                ctx.bad("provider", r, "the server advertises a provider for `%s` but routes no such request" % r)
        for r in sorted(req):
            if r in offered:
                ctx.ok("advertised", 1, r)
            else:
                ctx.bad("advertised", r, "`%s` is routed but never advertised, so no client will send it" % r)
    else:
        left += 1
    for n in SYNC:
        if n in note:
            ctx.ok("sync", 1, n)
        elif note:
            ctx.bad("sync", n, "`%s` is advertised but not routed" % n)
    accepted = accepts(P, absint.Engine(P, max_depth=4, inline=lambda b: not b.path.startswith(
        ("ink_lsp_server::dispatch::handlers::command", "ink_lsp_server::translator", "ink_analyzer"))))
    if accepted and commands:
        for c in sorted(accepted | commands):
            if c in accepted and c in commands:
                ctx.ok("commands", 1, c)
            else:
                ctx.bad("commands", c, "command `%s` is %s" % (
                    c, "advertised but not accepted" if c in commands else "accepted but not advertised"))
    else:
        left += 1
    ctx.count("request types routed", len(req))
    ctx.count("paths through the advertised capabilities", len(rs))
    ctx.count("advertised values that could not be determined as constants (left to conformance)", left)


def has_resolve(P, v):
    if v[0] != "a":
        return False
    fs = fields(P, None, None, v) if v[1] in P.adts and P.adts[v[1]]["variants"][0]["name"] == v[2] else None
    x = (fs or {}).get("resolve_provider")
    if x is not None:
        return x == absint.some(absint.TRUE)
    return any(has_resolve(P, s) for s in v[3] if isinstance(s, tuple) and s)


def accepts(P, e):
    """the constants the command handler compares the command's name with"""
    b = one(P, "ink_lsp_server::dispatch::handlers::request::handle_execute_command")
    if b is None or b.nargs != 3:
        return set()
    out = set()
    try:
        rs = e.run(b, [absint.O("arg", "params"), absint.O("arg", "snapshots"), absint.O("arg", "capabilities")])
    except absint.Limit:
        return set()
    for st, v in rs:
        for x, val in st.cons.items():
            if isinstance(x, tuple) and x[0] == "eqv" and "command" in str(x[1])[:200] and val[0] and val[1][0] == "s":
                out.add(val[1][1])
    return out
