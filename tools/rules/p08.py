"""Suggestion tables."""
import absint
from rules import conform

LEVEL = "other"
EXPLANATION = (
    "Constant propagation through the suggestion tables of the current tree, for every attribute macro, argument and item "
    "kind and both language versions (the tables are functions of enumerations, so this is the whole domain): no kind is "
    "listed for a version that does not have it, no list repeats a kind, companionship is mutual, a suggested primary "
    "attribute accepts the argument it is suggested for, and what a scope admits and what can be placed on some kind of "
    "item is the same.  In addition, " + conform.TEXT + ".")
ASSUMPTIONS = ["which attributes and arguments exist in which version of ink! (ink! 4.3 and 5.0 reference)"]
V5_ARGS = {"Backend", "Decode", "Encode", "Function", "Node", "RuntimeOnly", "Sandbox", "SignatureTopic", "TypeInfo", "Url"}
V4_ARGS = {"AdditionalContracts"}
V5_MACROS = {"Event", "ScaleDerive"}
VERSIONS = ("V4", "V5")


class Tables:
    def __init__(self, P):
        self.P = P
        self.e = absint.Engine(P, max_depth=8)
        self.arg, self.attr, self.mac, self.ver = (self.adt(n) for n in (
            "::InkArgKind", "::InkAttributeKind", "::InkMacroKind", "ink_analyzer_ir::Version"))
        self.undetermined = []

    def adt(self, suffix):
        c = [k for k in self.P.adts if k.endswith(suffix) and k.startswith("ink_analyzer_ir")]
        return c[0] if len(c) == 1 else None

    def variants(self, adt):
        return [v["name"] for v in self.P.adts[adt]["variants"]]

    def fn(self, name):
        c = [b for b in self.P.bodies.values() if b.path == "ink_analyzer::analysis::utils::" + name
             and b.kind not in ("closure", "promoted")]
        return c[0] if len(c) == 1 else None

    def kinds(self):
        for m in self.variants(self.mac):
            yield ("Macro", m), ("a", self.attr, "Macro", (("a", self.mac, m, ()),))
        for a in self.variants(self.arg):
            yield ("Arg", a), ("a", self.attr, "Arg", (("a", self.arg, a, ()),))

    def version(self, v):
        return ("a", self.ver, v, ())

    def const(self, v):
        """name of a constant kind"""
        if v[0] != "a":
            return None
        if v[1] == self.attr and len(v[3]) == 1 and v[3][0][0] == "a":
            return (v[2], v[3][0][2])
        if v[1] == self.arg:
            return ("Arg", v[2])
        if v[1] == self.mac:
            return ("Macro", v[2])
        return None

    def lists(self, b, args):
        """the constant lists returned on the paths, None if one of them is not constant"""
        try:
            rs = self.e.run(b, args)
        except absint.Limit:
            return None
        out = []
        for st, v in rs:
            v = self.e.deep(st, v)
            if v[0] != "seq":
                return None
            xs = [self.const(x) for x in v[2]]
            if any(x is None for x in xs):
                return None
            out.append(xs)
        return out

    def by_kind(self, name):
        """(version, kind) -> list of kinds"""
        b = self.fn(name)
        t = {}
        if b is None or b.nargs != 2:
            self.undetermined.append(name)
            return t
        for V in VERSIONS:
            for k, v in self.kinds():
                r = self.lists(b, [v, self.version(V)])
                if r is None or len(r) != 1:
                    self.undetermined.append("%s(%s %s, %s)" % (name, k[0], k[1], V))
                else:
                    t[V, k] = r[0]
        return t

    def by_syntax(self, name):
        """version -> list of lists, over every kind of syntax the table distinguishes"""
        b = self.fn(name)
        t = {}
        if b is None or b.nargs != 2:
            self.undetermined.append(name)
            return t
        for V in VERSIONS:
            r = self.lists(b, [absint.O("arg", "syntax_kind"), self.version(V)])
            if r is None:
                self.undetermined.append("%s(.., %s)" % (name, V))
            else:
                t[V] = r
        return t


def exists(V, k):
    if k[0] == "Macro":
        return V == "V5" or k[1] not in V5_MACROS
    return k[1] not in (V5_ARGS if V == "V4" else V4_ARGS)


def run(P, ctx):
    conform.run_region(P, ctx)
    T = Tables(P)
    if None in (T.arg, T.attr, T.mac, T.ver):
        ctx.count("tables that could not be determined as constants (left to conformance)", 6)
        return
    nm = lambda k: k[1]
    sib, desc, mdesc, prim = (T.by_kind(n) for n in (
        "valid_sibling_ink_args", "valid_quasi_direct_descendant_ink_args", "valid_quasi_direct_descendant_ink_macros",
        "primary_ink_attribute_kind_suggestions"))
    sargs, smacs = T.by_syntax("valid_ink_args_by_syntax_kind"), T.by_syntax("valid_ink_macros_by_syntax_kind")
    ctx.rule("era", "no table lists, for a language version, a kind that version does not have")
    ctx.rule("distinct", "no table lists a kind twice")
    named = [("companions", sib), ("scope arguments", desc), ("scope macros", mdesc), ("primary attributes", prim)]
    for what, t in named:
        for (V, k), xs in t.items():
            if not exists(V, k):
                continue
            entries(ctx, V, "%s of %s" % (what, nm(k)), xs)
    for what, t in (("item arguments", sargs), ("item macros", smacs)):
        for V, ls in t.items():
            for xs in ls:
                entries(ctx, V, what, xs)
    ctx.rule("mutual", "an argument that is valid next to another has that other among its own valid companions")
    for (V, k), xs in sib.items():
        for x in xs:
            if k[0] != "Arg" or (V, x) not in sib:
                continue
            if k in sib[V, x]:
                ctx.ok("mutual", 1, "%s: %s with %s" % (V, nm(k), nm(x)))
            else:
                ctx.bad("mutual", "%s:%s:%s" % (V, nm(k), nm(x)),
                        "in %s, `%s` is a valid companion of `%s` but not the other way round" % (V, nm(x), nm(k)))
    ctx.rule("primary", "a primary attribute suggested for an argument accepts that argument as a companion")
    for (V, k), xs in prim.items():
        for x in xs:
            if (V, x) not in sib:
                continue
            if k in sib[V, x]:
                ctx.ok("primary", 1, "%s: %s for %s" % (V, nm(x), nm(k)))
            else:
                ctx.bad("primary", "%s:%s:%s" % (V, nm(k), nm(x)),
                        "in %s, `%s` is suggested as the primary attribute of `%s`, which it does not accept" % (V, nm(x), nm(k)))
    ctx.rule("placeable", "what some scope admits can be placed on some kind of item, and conversely for arguments")
    for V in VERSIONS:
        for t, s, both in ((desc, sargs, True), (mdesc, smacs, False)):
            if V not in s or not any(v == V for v, _ in t):
                continue
            if len([1 for v, _ in t if v == V]) < sum(1 for _ in T.kinds()):
                continue
            adm = {x for (v, _), xs in t.items() if v == V for x in xs}
            plc = {x for xs in s[V] for x in xs}
            for x in sorted(adm - plc):
                ctx.bad("placeable", "%s:%s:admitted" % (V, nm(x)), "in %s, `%s` is admitted by a scope but valid on no kind of item" % (V, nm(x)))
            if both:
                for x in sorted(plc - adm):
                    ctx.bad("placeable", "%s:%s:placed" % (V, nm(x)), "in %s, `%s` is valid on an item but admitted by no scope" % (V, nm(x)))
            ctx.ok("placeable", len(adm & plc))
    ctx.count("table entries determined by constant propagation", sum(len(t) for _, t in named) + sum(map(len, sargs.values())) + sum(
        map(len, smacs.values())))
    ctx.count("table entries that could not be determined as constants (left to conformance)", len(T.undetermined))


def entries(ctx, V, what, xs):
    for x in xs:
        if exists(V, x):
            ctx.ok("era", 1)
        else:
            ctx.bad("era", "%s:%s:%s" % (V, what, x[1]), "`%s` is listed among the %s for %s, which does not have it" % (x[1], what, V))
    d = sorted({x for x in xs if xs.count(x) > 1})
    for x in d:
        ctx.bad("distinct", "%s:%s:%s" % (V, what, x[1]), "`%s` is listed twice among the %s for %s" % (x[1], what, V))
    ctx.ok("distinct", 1)
