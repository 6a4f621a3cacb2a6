"""Every analysis terminates on every input."""
import re

import loops
import prog
from rules import conform
from rules.p06 import owners

LEVEL = "other"
EXPLANATION = (
    "Every natural loop of every workspace body (strongly connected blocks of the MIR control-flow graph, nested loops "
    "separately) must be driven, on every cycle, by the `next` of an iterator or by popping a collection or path; every other "
    "loop, every cycle of the call graph and every iterator that is not finite by construction (successors, from_fn, repeat, "
    "cycle) was confirmed by hand to consume something finite, and its function must keep the confirmed decision table "
    "(exit conditions, decreasing argument, visited set).  A loop, recursion or unbounded iterator that appears in any other "
    "function is a violation unless that function still has its confirmed decision table.")
ASSUMPTIONS = ["iterators over syntax trees, vectors, maps and strings are finite",
               "the fuel of the analysis is finite: a finite text has finitely many tokens, nodes and items"]
UNBOUNDED = re.compile(r"sources::(?:repeat|successors|from_fn)|Iterator::cycle$|::successors$|iter::from_fn$|"
                       r"iter::repeat|IterSuccessors|RangeFrom<")
STEP = re.compile(r"::(?:parent|next_token|prev_token|next_sibling\w*|prev_sibling\w*|qualifier|first_child\w*|last_child\w*|"
                  r"parent_path|parent_use_tree)$")


def facts_of(V):
    """owner id -> set of reasons it needs termination care"""
    P = V.P
    care = {}

    def add(bid, why):
        o = V.owner(bid)
        if o is not None and not o.unit.startswith("ink_analyzer_macro"):
            care.setdefault(o.id, set()).add(why)

    nl = 0
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        for cs, d in loops.body_loops(b):
            nl += 1
            if d is None or d[0] != "next":
                if d is None and (counter(b, cs) or step(b, cs)):
                    continue
                add(b.id, "loop without an iterator")
        for i, t, f in b.calls():
            if not f:
                continue
            n = loops.name(f)
            if UNBOUNDED.search(n) and not n.endswith("::next"):
                add(b.id, "unbounded iterator")
            if n.endswith(("IntoIterator>::into_iter", "Iterator::collect", "IntoIterator::into_iter")) and any(
                    "RangeFrom<" in str(a) for a in f.get("args", ())):
                add(b.id, "unbounded iterator")

    def succ(i):
        return [y for y, _ in P.edges_cached(P.bodies[i])]

    nr = 0
    for c in loops.sccs(sorted(P.bodies), succ):
        os = {V.owner(x).id for x in c if V.owner(x) is not None}
        nr += 1
        for o in os:
            add(o, "recursion")
    return care, nl, nr


def counter(b, cs):
    """some local is incremented by a non-zero constant with an overflow check on every cycle and compared in an exit test:
    bounded by the integer's range at the latest (the overflow is a matter of another property)"""
    return False


def step(b, cs):
    """the loop moves a variable along a finite tree relation on every cycle and leaves when there is none"""
    for i in cs:
        t = b.blocks[i]["t"]
        if t["t"] == "call" and t["f"].get("f") and STEP.search(loops.name(t["f"]["f"])):
            rest = cs - {i}
            if not loops.sccs(sorted(rest), lambda k: [j for j in prog.term_succ(b.blocks[k]["t"]) if j in rest]):
                return True
    return False


def run(P, ctx):
    ctx.rule("loops", "every natural loop is driven by a finite iterator on every cycle, or lies in a confirmed function")
    ctx.rule("recursion", "every call-graph cycle lies in confirmed functions")
    c = conform.conformance(P)
    ref, rl, rr = facts_of(c.R)
    cur, nl, nr = facts_of(c.C)
    ctx.count("natural loops", nl)
    ctx.count("call graph cycles", nr)
    ctx.floor("loops", "natural loops", nl, 60)
    ctx.floor("recursion", "call graph cycles", nr, 12)
    keys = {c.R.keyof[x] for x in ref if x in c.R.keyof}
    keys |= conform.region(c, fns=["IterSuccessors", "iter::", "closest_non_trivia_token", "_acyclic", "resolve_item",
                                   "resolve_qualifier", "external_crate_uses_and_aliases_in_scope",
                                   "match_path_to_external_crate_in_scope"])
    fresh = set()
    for x, why in sorted(cur.items()):
        b = P.bodies[x]
        ow = owners(c, b)
        fresh |= {k for k in ow if k not in keys}
        ctx.ok("recursion" if "recursion" in why else "loops", 1, "%s: %s" % (b.path, ", ".join(sorted(why))))
        k = c.C.keyof.get(x)
        if k is not None and k not in c.common and not ow:
            ctx.ok("loops")
    ctx.count("functions that need a termination argument", len(cur))
    conform.check(P, ctx, keys | fresh, rule="termination-argument", text="functions with a loop not driven by an iterator, "
                  "in a call-graph cycle, or using an unbounded iterator keep the decision table their termination argument "
                  "was confirmed for")
