"""Path resolution."""
import absint
from rules import conform

LEVEL = "other"
EXPLANATION = (
    "Abstract interpretation of the construction of an item's full path, on zero, one and two symbolic enclosing modules: the "
    "path starts at the crate root, names every enclosing module outermost first, and ends with the item.  In addition, " +
    conform.TEXT + ".")
ASSUMPTIONS = ["the ancestors of a syntax node are enumerated innermost first (rowan's documented order)"]
ROOT = "ink_analyzer::resolution::item_path"


def names(v, out):
    """the enclosing modules (by their position among the ancestors) a term mentions"""
    if isinstance(v, tuple):
        if len(v) > 2 and v[0] == "o" and v[1] in ("item", "item2") and v[2][:2] == ("o", "call") and v[2][2].endswith("::rev"):
            src = v[2][3][0]
            if src[0] == "seq" and src[3] is None and len(src[2]) == 2:
                return names(src[2][-1 if v[1] == "item" else 0], out)
            out.add("?")
            return out
        if len(v) > 2 and v[0] == "o" and v[1] in ("item", "item2") and "ancestors" in str(v[2]):
            out.add(v[1])
            return out
        for x in v:
            names(x, out)
    return out


def run(P, ctx):
    conform.run_region(P, ctx)
    ctx.rule("item-path", "a full path goes from the crate root through the enclosing modules, outermost first, to the item")
    b = [b for b in P.bodies.values() if b.path == ROOT and b.kind not in ("closure", "promoted")]
    if len(b) != 1:
        ctx.count("path construction not found under its name (left to conformance)", 1)
        return
    e = absint.Engine(P, max_depth=6)
    e.exact, e.nrep = True, 2
    try:
        rs = e.run(b[0], [absint.O("arg", "item")])
    except absint.Limit:
        rs = []
    two = 0
    for st, v in rs:
        v = e.deep(st, v)
        if v[0] == "a" and v[2] == "None":
            continue
        f = v[3][0] if v[0] == "a" and v[2] == "Some" and v[3] else None
        if f is None or f[:2] != ("o", "fmt"):
            continue
        parts = f[2]
        mods = [m for x in parts for m in sorted(names(x, set()))]
        if not (parts[0][0] == "s" and parts[0][1].startswith("crate::")):
            ctx.bad("item-path", "root", "%s builds a path that does not start at the crate root: %s" % (ROOT, str(parts)[:300]))
        elif names(parts[-1], set()) or parts[-1][0] == "s":
            ctx.bad("item-path", "end", "%s builds a path that does not end with the item's name" % ROOT)
        elif "?" in mods:
            continue
        elif mods == ["item", "item2"]:
            ctx.bad("item-path", "order", "%s (%s) names the innermost enclosing module first" % (ROOT, b[0].where(b[0].d.get("l", 0))))
        else:
            ctx.ok("item-path", 1, "%d enclosing modules" % len(mods))
            two += len(mods) == 2
    if not two:
        ctx.count("paths through two modules not determined (left to conformance)", 1)
