"""Natural loops and recursion of the workspace's MIR."""
import prog


def sccs(nodes, succ):
    """Tarjan, iterative"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                if len(c) > 1 or v in set(succ(v)):
                    out.append(c)
    return out


def name(f):
    return f["r"][1] if "r" in f else f["fn"]


def body_loops(b):
    """strongly connected block sets of a body, refined into nested loops: each is (blocks, driver)"""
    live = {i for i, x in enumerate(b.blocks) if not x["c"]}

    def succ_in(s):
        return lambda i: [j for j in prog.term_succ(b.blocks[i]["t"]) if j in s]

    out = []

    def go(s):
        for c in sccs(sorted(s), succ_in(s)):
            cs = set(c)
            drv, cut = driver(b, cs)
            out.append((cs, drv))
            if cut:  # remove the driver's block: what is still cyclic is an inner loop of its own
                go(cs - cut)
            elif drv is None:
                pass

    go(live)
    return out


INFINITE = ("core::iter::sources::repeat", "core::iter::adapters::cycle::Cycle", "RangeFrom", "core::iter::sources::from_fn",
            "core::iter::sources::successors", "itertools::sources")


def driver(b, cs):
    """what makes the loop finish: the `next` of an iterator, on every cycle; returns (kind, blocks that carry it)"""
    nxt = {}
    for i in cs:
        t = b.blocks[i]["t"]
        if t["t"] == "call" and t["f"].get("f"):
            n = name(t["f"]["f"]).rsplit("::", 1)[-1]
            if n in ("next", "next_back", "pop", "pop_front", "pop_back", "pop_first", "pop_last"):
                exits = [j for j in cs if any(k not in cs for k in prog.term_succ(b.blocks[j]["t"]))]
                if exits:
                    nxt[i] = (n, name(t["f"]["f"]), b.place_ty(t["a"][0]) if hasattr(b, "place_ty") else t["f"]["f"]["fn"])
    for i, d in sorted(nxt.items()):
        # every cycle passes through i?
        rest = cs - {i}
        if not sccs(sorted(rest), lambda k: [j for j in prog.term_succ(b.blocks[k]["t"]) if j in rest]):
            return d, {i}
        inner = sccs(sorted(rest), lambda k: [j for j in prog.term_succ(b.blocks[k]["t"]) if j in rest])
        # the outer loop header must be i's cycle: i reaches every block and what is left are proper inner loops
        heads = entry(b, cs)
        if i in heads or dominated_entry(b, cs, i):
            return d, {i}
    return None, set()


def entry(b, cs):
    r = set()
    for i, x in enumerate(b.blocks):
        if i not in cs:
            for j in prog.term_succ(x["t"]):
                if j in cs:
                    r.add(j)
    return r


def dominated_entry(b, cs, i):
    """from the loop's entry, straight-line blocks lead to i"""
    for e in entry(b, cs):
        seen = set()
        k = e
        while k != i:
            if k in seen:
                return False
            seen.add(k)
            ss = prog.term_succ(b.blocks[k]["t"])
            if len(ss) != 1:
                return False
            k = ss[0]
    return True
