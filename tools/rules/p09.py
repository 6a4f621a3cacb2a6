"""Attribute and argument recognition."""
import absint
from rules import conform, p08

LEVEL = "other"
EXPLANATION = (
    "Constant propagation, for every argument and attribute macro kind (the whole enumeration), of the name it is displayed "
    "with (or the path it is written with) and of that name back through recognition: every kind is recognised by the name "
    "it is shown with, hence no two kinds share a name; a text that equals none of the names is classified as unknown; and "
    "arguments that name an entity outrank all the others, with unknown ones last.  In addition, " + conform.TEXT + ".")
ASSUMPTIONS = []


def run(P, ctx):
    conform.run_region(P, ctx)
    T = p08.Tables(P)
    if None in (T.arg, T.mac):
        ctx.count("names that could not be determined as constants (left to conformance)", 1)
        return
    e, left = T.e, []

    def one(path):
        c = [b for b in P.bodies.values() if b.path == path and b.kind not in ("closure", "promoted")]
        return c[0] if len(c) == 1 else None

    def const(b, *args):
        """the constant a function returns for constant arguments"""
        try:
            rs = e.run(b, list(args))
        except absint.Limit:
            return None
        vs = {e.deep(st, v) for st, v in rs}
        return next(iter(vs)) if len(vs) == 1 else None

    def shown(b, v):
        """the constant text a Display implementation writes"""
        try:
            rs = e.run(b, [v, absint.O("f")])
        except absint.Limit:
            return None
        out = set()
        for st, _ in rs:
            w, ev = [], st.ev
            while ev is not None:
                ev, x = ev
                if x[0] == "call" and "Formatter::write" in x[1]:
                    w.append(x[2][-1])
            out.add(w[0] if len(w) == 1 and w[0][0] == "s" else None)
        return next(iter(out)) if len(out) == 1 else None

    ctx.rule("names", "a kind is recognised by the very name it is displayed or written with")
    ctx.rule("unknown", "a text that is none of the names is classified as unknown")
    ctx.rule("priority", "arguments that name an entity outrank all others; unknown arguments come last")
    show, read = one("<%s as core::fmt::Display>::fmt" % T.arg), one("<%s as core::convert::From<&str>>::from" % T.arg)
    if show and read:
        for k in T.variants(T.arg):
            if k == "Unknown":
                continue
            s = shown(show, ("a", T.arg, k, ()))
            r = const(read, s) if s else None
            if s is None or r is None or r[0] != "a":
                left.append(k)
            elif r[2] == k:
                ctx.ok("names", 1, "`%s` <-> %s" % (s[1], k))
            else:
                ctx.bad("names", "arg:" + k, "argument kind %s is displayed as `%s`, which is recognised as %s" % (k, s[1], r[2]))
        other(ctx, e, read, [absint.O("name")], "argument")
    else:
        left.append("InkArgKind")
    path, name, crate = (one("%s::%s" % (T.mac, n)) for n in ("path_as_str", "macro_name", "crate_name"))
    mread = one("<%s as core::convert::From<(&str, &str)>>::from" % T.mac)
    if path and name and crate and mread:
        for k in T.variants(T.mac):
            if k == "Unknown":
                continue
            v = ("a", T.mac, k, ())
            p, n, c = const(path, v), const(name, v), const(crate, v)
            r = const(mread, ("t", (c, n))) if n and c else None
            if any(x is None or x[0] != "s" for x in (p, n, c)) or r is None or r[0] != "a":
                left.append(k)
            elif r[2] == k and p[1] == c[1] + "::" + n[1]:
                ctx.ok("names", 1, "`%s` <-> %s" % (p[1], k))
            else:
                ctx.bad("names", "macro:" + k, "attribute macro kind %s is written `%s` (crate `%s`, name `%s`), which is recognised as %s"
                        % (k, p[1], c[1], n[1], r[2]))
        other(ctx, e, mread, [("t", (absint.O("crate"), absint.O("name")))], "attribute macro")
    else:
        left.append("InkMacroKind")
    rank = one("ink_analyzer_ir::attrs::args::ink_arg_kind_sort_order")
    ent, comp = one(T.arg + "::is_entity_type"), one(T.arg + "::is_complementary")
    if rank and ent and comp:
        R = {k: (const(rank, ("a", T.arg, k, ())), const(ent, ("a", T.arg, k, ())), const(comp, ("a", T.arg, k, ())))
             for k in T.variants(T.arg)}
        if all(x is not None and x[0] == "i" for t in R.values() for x in t):
            ents = [k for k in R if R[k][1][1]]
            for k in R:
                if k in ents:
                    if k not in ENTITY:
                        ctx.bad("priority", "entity:" + k, "%s is treated as naming an entity" % k)
                    else:
                        ctx.ok("priority", 1, "%s names an entity" % k)
                    continue
                if k in ENTITY:
                    ctx.bad("priority", "entity:" + k, "%s is not treated as naming an entity" % k)
                bad = [x for x in ents if R[x][0][1] >= R[k][0][1]]
                if k != "Unknown" and R[k][0][1] >= R["Unknown"][0][1]:
                    bad.append("Unknown")
                if (k != "Unknown") != bool(R[k][2][1]):
                    bad.append("is_complementary")
                if bad:
                    ctx.bad("priority", "rank:" + k, "%s is ranked wrongly against %s" % (k, ", ".join(sorted(bad))))
                else:
                    ctx.ok("priority", 1, "%s ranks below all entities" % k)
        else:
            left.append("ranks")
    else:
        left.append("ranks")
    ctx.count("names that could not be determined as constants (left to conformance)", len(left))


ENTITY = {"Constructor", "Event", "Extension", "Function", "Impl", "Message", "Storage", "Topic"}


def other(ctx, e, b, args, what):
    try:
        rs = e.run(b, args)
    except absint.Limit:
        return
    for st, v in rs:
        v = e.deep(st, v)
        # the paths on which no component equals a constant
        if any(x[0] == "eqv" and val[0] for x, val in st.cons.items() if isinstance(x, tuple) and isinstance(val, tuple)):
            continue
        if v[0] == "a" and v[2] != "Unknown":
            ctx.bad("unknown", what, "a text that is no known %s name is classified as %s" % (what, v[2]))
        elif v[0] == "a":
            ctx.ok("unknown", 1, what)
