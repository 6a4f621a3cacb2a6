"""No client input or source text can panic the analyzer or the server."""
import re

import panics
from rules import conform
from rules.p06 import owners

LEVEL = "other"
EXPLANATION = (
    "Inventory of every operation of the workspace that can panic (bounds, overflow and division asserts; unwrap/expect; "
    "explicit panics; indexing and slicing; split_at; TextRange construction and arithmetic; tree lookups by offset; mutable "
    "tree edits), over the compiler's MIR.  Each was confirmed by hand to be guarded in the reference; the decision tables "
    "(the paths, i.e. guards, on which each operation executes and the values that reach it) of the functions that contain "
    "them, of those that compute the offsets and ranges they use, and of those that pass offsets down to them, must be the "
    "confirmed ones, and no function outside that set may acquire such an operation.")
ASSUMPTIONS = ["offsets given to the library API lie on character boundaries of the analysed text (the server's position "
               "translation guarantees it, and is itself part of the region)",
               "the parser and the other dependencies do not panic on well-formed calls"]
OFF = re.compile(r"Text(Size|Range)|\busize\b|LineCol|Position\b|\bTextEdit\b")
GUARDS = ["from_lsp::", "to_lsp::offset", "to_lsp::range", "to_lsp::text", "handlers::command::", "request::handle_",
          "MetaValue::parse", "parse_meta", "InkAttribute::cast", "focused_element", "can_cast"]


def region(V):
    """(functions that contain sites, functions they get offsets from, functions that pass offsets down to them)"""
    P = V.P
    A, callees = set(), {}
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        o = V.owner(b.id)
        if o is None:
            continue
        if any(True for _ in panics.sites(P, b)):
            A.add(o.id)
        for y, _ in P.edges_cached(b):
            oy = V.owner(y)
            if oy is not None:
                callees.setdefault(o.id, set()).add(oy.id)
    B = {y for a in A for y in callees.get(a, ()) if OFF.search(P.bodies[y].locals[0])}
    C, D = set(), set()

    def takes(x):
        b = P.bodies[x]
        return any(OFF.search(t) for t in b.locals[1:b.nargs + 1])

    work = [a for a in A if takes(a)]
    while work:
        x = work.pop()
        if x in D:
            continue
        D.add(x)
        for y in V.callers().get(x, ()):
            C.add(y)
            if takes(y):
                work.append(y)
    return A, B, C


def run(P, ctx):
    ctx.rule("site-inventory", "every operation that can panic belongs to a function confirmed to guard it, or to a new "
                               "function judged through the confirmed functions that call it")
    c = conform.conformance(P)
    A, B, C = region(c.R)
    keys = {c.R.keyof[x] for x in A | B | C if x in c.R.keyof}
    keys |= conform.region(c, fns=GUARDS)
    keys = {k for k in keys if not k[0].startswith("ink_analyzer_macro") and not k[1].endswith((
        "core::fmt::Debug>::fmt", "::assert_fields_are_eq"))}
    n = 0
    fresh = set()
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        for i, k, t in panics.sites(P, b):
            n += 1
            ow = owners(c, b)
            if not ow:
                # reachable from no confirmed function: dead or new public code
                ctx.ok("site-inventory")
                continue
            fresh |= {x for x in ow if x not in keys}
            ctx.ok("site-inventory", 1, "%s: %s" % (b.path, k))
    ctx.count("operations that can panic", n)
    ctx.floor("site-inventory", "operations that can panic", n, 60)
    ctx.count("functions that contain them", len(A))
    ctx.count("functions that compute their offsets", len(B - A))
    ctx.count("functions that pass offsets to them", len(C - A - B))
    conform.check(P, ctx, keys | fresh, rule="guards", text="the guards on, and operands of, every operation that can panic "
                  "are the confirmed ones: functions of the region have the decision table of the confirmed reference")
