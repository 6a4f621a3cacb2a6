"""Results are a deterministic function of the text, version and position."""
import re

from rules import conform, hashorder

LEVEL = "other"
EXPLANATION = (
    "Dataflow over every workspace body: each consumer of a HashMap/HashSet iteration is enumerated and must be unable to "
    "observe the order (any/all/count/..., collection into an unordered or sorted container, or a vector that is sorted "
    "before use; a plain sort only counts when the elements' order is derived, as a hand-written `Ord` may leave ties in "
    "hash order); the few remaining consumers are confirmed by hand and must keep their confirmed decision table.  No "
    "function reads time, randomness, environment, thread identity or addresses; no static or analysed type has interior "
    "mutability (apart from lazily built regexes); every query method takes its analysis by shared reference.")
ASSUMPTIONS = ["sort keys used after hash iteration distinguish the elements they order (source positions, names)",
               "rowan refuses to mutate a tree that was not made mutable by clone_for_update, and clone_for_update copies deeply"]
# consumers whose order sensitivity was ruled out by hand: owner function -> why
CONFIRMED = {
    "ink_analyzer::resolution::is_external_crate_item_acyclic": "inserts into a map of sets",
    "ink_analyzer::resolution::external_crate_uses_and_aliases_in_scope":
        "work list until exhaustion; the set it picks an element from has at most one element",
    "ink_lsp_server::dispatch::Dispatcher::process_changes": "at most one document changes per message",
}
NONDET = ("std::time::", "std::env::", "std::thread::", "rand::", "std::process::id", "getrandom::", "fastrand::", "uuid::",
          "std::hash::random::", "std::collections::hash::map::RandomState", "core::ptr::addr", "std::random", "chrono::",
          "instant::", "time::")
MUTCELL = re.compile(r"\b(?:Cell|RefCell|Mutex|RwLock|Atomic\w+|OnceCell|OnceLock|UnsafeCell|LazyCell|ThreadLocal|LocalKey)\b")
# a tree is only mutable after `clone_for_update` (a deep copy); mutating any other tree is refused by rowan
MUTABLE = ("clone_for_update", "clone_subtree_for_update", "new_root_mut", "into_mutable")


def owners(c, b):
    """the reference functions a body belongs to: itself, or (for a helper added since) its callers"""
    C = c.C
    o = C.owner(b.id)
    seen, work, out = set(), [o.id if o else b.id], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        k = C.keyof.get(x)
        if k in c.common:
            out.add(k)
        else:
            work += list(C.callers().get(x, ()))
    return out


def sorted_later(P, b, t):
    """the collected vector is sorted in this body before anything else can look at it"""
    if len(t["p"]) != 1:
        return False
    al = {t["p"][0]}
    ch = True
    while ch:
        ch = False
        for blk in b.blocks:
            for s in blk["s"]:
                v = s["v"]
                src = None
                if v["r"] in ("ref", "addr", "rawptr", "copyref"):
                    src = v["p"][0]
                elif v["r"] in ("use", "cast") and v["o"].get("k") != "c":
                    src = v["o"]["p"][0]
                if src in al and s["p"][0] not in al:
                    al.add(s["p"][0])
                    ch = True
            tt = blk["t"]
            if tt["t"] == "call" and tt["f"].get("f") and hashorder.name(tt["f"]["f"]).rsplit("::", 1)[-1] in (
                    "deref_mut", "deref", "as_mut_slice", "as_mut", "chain", "into_iter"):
                a = tt["a"][0] if tt["a"] else {}
                if a.get("k") != "c" and a.get("p") and a["p"][0] in al and tt["p"][0] not in al:
                    al.add(tt["p"][0])
                    ch = True
    for blk in b.blocks:
        tt = blk["t"]
        if tt["t"] == "call" and tt["f"].get("f"):
            n = hashorder.name(tt["f"]["f"]).rsplit("::", 1)[-1]
            a = tt["a"][0] if tt["a"] else {}
            if n in ("sort", "sort_unstable", "sorted", "sorted_unstable") and hashorder.weak(P, [b.locals[t["p"][0]]]):
                continue
            if n.startswith(("sort", "sorted")) and a.get("k") != "c" and a.get("p") and a["p"][0] in al:
                return True
    return False


def run(P, ctx):
    ctx.rule("hash-order", "no consumer of a hash iteration can observe its order")
    ctx.rule("no-ambient-input", "no call reads time, randomness, environment or thread identity")
    ctx.rule("no-shared-state", "no static, thread-local or analysed type with interior mutability")
    ctx.rule("pure-queries", "every query takes the analysis by shared reference and the analysed tree is never made mutable")
    c = conform.conformance(P)
    need = set()
    n = 0
    for b, nm, m, dst, l, t in hashorder.sites(P):
        n += 1
        if m in ("sorted_by_key", "sorted_by", "sorted_by_cached_key", "sorted_unstable_by", "sorted_unstable_by_key"):
            need |= owners(c, b)
            ctx.ok("hash-order", 1, "%s: sorted" % b.path)
            continue
        if m in ("collect", "from_iter", "extend") and sorted_later(P, b, t):
            need |= owners(c, b)
            ctx.ok("hash-order", 1, "%s: collected and sorted" % b.path)
            continue
        ow = owners(c, b)
        if ow and all(k[1] in CONFIRMED for k in ow):
            need |= ow
            ctx.ok("hash-order", 1, "%s: confirmed, %s" % (b.path, CONFIRMED[sorted(ow)[0][1]]))
            continue
        tys = [b.locals[a["p"][0]] if a.get("k") != "c" else a.get("ty", "") for a in t["a"]]
        ctx.bad("hash-order", "%s:%s" % ("+".join(sorted(k[1] for k in ow)) or b.path, hashorder.elem(tys)), "%s (%s) lets the iteration order of a hash collection reach its "
                "result through `%s` (-> %s)" % (b.path, b.where(l), m, dst[:120]))
    ctx.count("hash iteration consumers", n)
    ctx.floor("hash-order", "hash iteration consumers", n, 3)
    if need:
        conform.check(P, ctx, need, rule="confirmed-consumers",
                      text="consumers of a hash iteration confirmed by hand, or that sort it, keep their confirmed decision table")
    calls = 0
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        for i, t, f in b.calls():
            if not f:
                continue
            calls += 1
            nm = hashorder.name(f)
            if nm.startswith(NONDET) or f["fn"].startswith(NONDET):
                if b.unit.endswith(".bin"):
                    continue
                ctx.bad("no-ambient-input", "%s:%s" % (b.path, nm), "%s (%s) calls %s" % (b.path, b.where(t["l"]), nm))
            if any(x in nm for x in MUTABLE) and not b.unit.startswith("ink_analyzer.") and not b.unit == "ink_analyzer":
                ctx.bad("pure-queries", "%s:%s" % (b.path, nm), "%s (%s) makes the analysed syntax tree mutable through %s" % (
                    b.path, b.where(t["l"]), nm))
    ctx.ok("no-ambient-input", calls)
    ctx.count("call sites", calls)
    for s in P.statics:
        if s["path"].startswith("ink_analyzer_macro"):
            continue
        lazy = re.match(r"^(?:once_cell::sync::Lazy|std::sync::LazyLock)<regex::Regex(, .*)?>$", s["ty"])
        if s["mut"] or s["tls"] or (not s["freeze"] and not lazy):
            ctx.bad("no-shared-state", s["path"], "static %s: %s is mutable shared state" % (s["path"], s["ty"]))
        else:
            ctx.ok("no-shared-state", 1, "%s: %s" % (s["path"], s["ty"]))
    adts = 0
    for k, a in P.adts.items():
        if not a.get("local") or k.startswith("ink_analyzer_macro"):
            continue
        adts += 1
        for v in a.get("variants", []):
            for fl in v.get("fields", []):
                ty = fl[1] if isinstance(fl, (list, tuple)) else fl.get("ty", "")
                if MUTCELL.search(ty):
                    ctx.bad("no-shared-state", "%s.%s" % (k, fl[0] if isinstance(fl, (list, tuple)) else fl.get("name")),
                            "%s has a field with interior mutability: %s" % (k, ty))
                else:
                    ctx.ok("no-shared-state")
    ctx.count("workspace types", adts)
    ctx.floor("no-shared-state", "workspace types", adts, 40)
    q = 0
    for b in P.bodies.values():
        if b.kind == "method" and b.nargs and re.search(r"\bAnalysis$", b.locals[1]) and b.d["pub"]:
            q += 1
            if "mut" in b.locals[1]:
                ctx.bad("pure-queries", b.path, "query %s takes its analysis by mutable reference" % b.path)
            else:
                ctx.ok("pure-queries", 1, b.path)
    ctx.floor("pure-queries", "query methods", q, 8)
