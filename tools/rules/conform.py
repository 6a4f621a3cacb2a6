"""Decision-table conformance of a property's region against the confirmed reference (see DESIGN.md, layer B)."""
import fnmatch

import equiv
import reference

TEXT = ("every function of the property's region has, on the current tree, the decision table (abstract inputs -> abstract "
        "outcome: returned value, final values of mutable arguments, externally visible effects) of the confirmed reference; "
        "functions added or removed since are inlined into their callers")
LS = "crates/lsp-server/src/"
AN = "crates/analyzer/src/"
AA = AN + "analysis/"
IR = "crates/ir/src/"

_C = None


def conformance(P):
    global _C
    if _C is None:
        _C = equiv.Conform(reference.load(), P)
    return _C


def region(c, files=(), fns=(), helpers=(), depth=1, exclude=()):
    """keys of the reference functions that lie in `files` (globs), match `fns` (path substrings), or are called (up to
    `depth` levels) from those and lie in `helpers` (globs)"""
    R = c.R
    keys = set()

    def inf(b, pats):
        return any(fnmatch.fnmatch(b.d.get("file") or "", p) for p in pats)

    for k, b in R.fns.items():
        if k[0].startswith("ink_analyzer_macro") or k[1].endswith(("core::fmt::Debug>::fmt", "::assert_fields_are_eq")):
            continue
        if inf(b, files) or any(f in k[1] for f in fns):
            if not any(x in k[1] for x in exclude):
                keys.add(k)
    front = set(keys)
    for _ in range(depth if helpers else 0):
        nxt = set()
        for k in front:
            for y in callees(R, R.fns[k]):
                o = R.owner(y)
                ky = R.keyof.get(o.id) if o is not None else None
                if ky is not None and ky not in keys and inf(R.fns[ky], helpers):
                    nxt.add(ky)
        keys |= nxt
        front = nxt
    return keys


def callees(R, b):
    out, st, seen = set(), [b], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for y, _ in R.P.edges_cached(x):
            out.add(y)
        for c in R.kids.get(x.id, ()):
            st.append(c)
    return out


def short(k):
    return k[1] if not k[2] else "%s(%s)" % (k[1], ", ".join(map(str, k[2])))


def check(P, ctx, keys, rule="conformance", text=TEXT, keep=None):
    """report every non-conforming function of the region; `keep(key, result)` may restrict to relevant differences"""
    c = conformance(P)
    ctx.rule(rule, text)
    ctx.count("functions in the property's region", len(keys))
    inreg = [k for k in keys if k in c.common]
    gone = [k for k in keys if k not in c.common]
    rep = c.report(set(inreg))
    bad = set()
    for k, r in rep:
        if keep is not None and not keep(k, r):
            continue
        bad.add(k)
        ctx.bad(rule, short(k), "%s no longer behaves as confirmed%s" % (
            short(k), "" if r["kind"] == "differs" else " (%s: %s)" % (r["kind"], r["text"][:400])), r["text"])
    ctx.ok(rule, len(inreg) - len(bad))
    for k in sorted(inreg)[:25]:
        ctx.ok(rule, 0, short(k))
    ctx.count("region functions identical to the reference", sum(1 for k in inreg if k not in set(c.changed)))
    ctx.count("region functions compared by decision table", sum(1 for k in inreg if k in set(c.changed)))
    ctx.count("region functions judged through their callers (removed or re-signed)", len(gone))
    for k, t in overrides(c):
        if k in keys or k not in c.R.fns:
            ctx.bad(rule, "override:" + short(k), t)
    return c


def overrides(c):
    """added / removed overrides of a workspace trait method that has a default body"""
    import re
    out = []
    defaults = {}
    for v in (c.R, c.C):
        for k in v.fns:
            m = re.match(r"^(.*)::(\w+)$", k[1])
            if m and "<" not in k[1]:
                defaults.setdefault(m.group(2), set()).add(m.group(1))
    for ks, what in ((c.removed, "removed"), (c.added, "added")):
        for k in ks:
            m = re.match(r"^<.* as ([\w:]+)(?:<.*>)?>::(\w+)$", k[1])
            if m and m.group(1) in defaults.get(m.group(2), ()):
                out.append((k, "the override %s was %s while the trait has a default body" % (k[1], what)))
    return out


TABLES = ["analysis::utils::" + n for n in (
    "valid_", "primary_ink", "remove_", "is_cfg", "ink_arg_insert_text", "parent_ast_item")]
# region of each property: functions by file, plus helpers they call
REGIONS = {
    "P01": dict(files=[LS + "dispatch.rs", LS + "dispatch/routers/*", LS + "main.rs", LS + "lib.rs"],
                fns=["main_loop"]),
    "P02": dict(files=[LS + "initialize.rs", LS + "dispatch/handlers/request.rs", AN + "analysis.rs"],
                fns=["dispatch::Dispatcher::handle_request", "dispatch::Dispatcher::handle_notification",
                     "server_capabilities", "code_actions_kinds", "utils::COMMAND_", "ink_lsp_server::initialize"]),
    "P03": dict(files=[LS + "memory.rs", LS + "dispatch/handlers/notification.rs", LS + "dispatch/actions.rs",
                       LS + "dispatch/routers/notification.rs"],
                fns=["dispatch::Dispatcher::process_changes", "dispatch::Dispatcher::handle_notification",
                     "dispatch::Dispatcher::publish_diagnostics", "dispatch::Dispatcher::send",
                     "dispatch::Dispatcher::refresh", "to_lsp::diagnostic"],
                helpers=[LS + "dispatch.rs", LS + "utils.rs"], depth=2),
    "P04": dict(files=[LS + "translator.rs", LS + "translator/*", LS + "initialize.rs", LS + "dispatch/actions.rs"],
                fns=["position_encoding", "dispatch::Snapshot::new", "dispatch::Dispatcher::process_changes",
                     "handlers::request::", "handlers::command::handle_"],
                helpers=[LS + "utils.rs"], depth=1),
    "P12": dict(files=[LS + "utils.rs", LS + "translator/to_lsp.rs", LS + "initialize.rs"],
                fns=["dispatch::Dispatcher", "handlers::request::"]),
    "P15": dict(files=[LS + "dispatch/handlers/command.rs", LS + "dispatch.rs"],
                fns=["handlers::request::", "ink_lsp_server::utils::", "to_lsp::"],
                helpers=[AN + "codegen.rs", AN + "codegen/*", AN + "analysis.rs"], depth=2),
    "P08": dict(fns=TABLES + ["InkArgKind", "InkMacroKind"]),
    "P09": dict(files=[IR + "attrs.rs", IR + "attrs/*", IR + "macros.rs"], helpers=[IR + "tree/*"], depth=1),
    "P10": dict(files=[IR + "*.rs", IR + "tree/*", IR + "traits/*"],
                helpers=[IR + "*"], depth=1),
    "P11": dict(files=[AA + "diagnostics.rs", AA + "diagnostics/*"], helpers=[AA + "utils.rs", AN + "resolution.rs", AA + "text_edit/*",
                                                                     IR + "*.rs", IR + "traits/*", IR + "tree/*", IR + "attrs/*"],
                depth=3, exclude=["::tests::"]),
    "P16": dict(files=[AA + "migrate.rs", AA + "migrate/*"], helpers=[AA + "utils.rs", AA + "text_edit.rs", AA + "text_edit/*", AN + "resolution.rs",
                                                                          IR + "tree/ast_ext.rs"], depth=3),
    "P17": dict(files=[AA + "text_edit.rs", AA + "text_edit/*", AA + "completions.rs", AA + "actions.rs",
                       AA + "actions/*", AN + "codegen/snippets.rs"],
                fns=["analysis::utils::" + n for n in ("item_", "ink_attribute_", "first_ink", "ink_arg_", "ink_attr",
                     "item_indent", "apply_indent", "end_offset", "affix", "find_insert", "impl_insert", "offset")]
                + ["migrate::migrate", "extract::extract"],
                helpers=[AA + "utils.rs", AN + "utils.rs"], depth=2),
    "P18": dict(files=[AA + "completions.rs"], helpers=[AA + "utils.rs", AA + "text_edit/*", IR + "tree/*"],
                depth=2),
    "P19": dict(files=[AA + "actions.rs", AA + "actions/*", AN + "analysis.rs"],
                helpers=[AA + "utils.rs", AA + "text_edit/*", IR + "tree/*"], depth=2),
    "P20": dict(files=[AA + "hover.rs", AA + "hover/*", AA + "inlay_hints.rs", AA + "signature_help.rs"],
                helpers=[AA + "utils.rs", IR + "attrs.rs", IR + "attrs/args.rs", IR + "tree/item_at_offset.rs"], depth=2),
    "P21": dict(files=[AA + "extract.rs", AN + "codegen.rs", AN + "codegen/*", LS + "dispatch/handlers/command.rs"], helpers=[AA + "utils.rs", AN + "resolution.rs"],
                depth=2),
    "P22": dict(files=[AN + "resolution.rs", IR + "tree/ast_ext.rs"], helpers=[AA + "utils.rs", IR + "tree/utils.rs"],
                depth=1),
}


def run_region(P, ctx, prop=None, **kw):
    c = conformance(P)
    return check(P, ctx, region(c, **REGIONS[prop or ctx.prop]), **kw)
