"""Hash-iteration order: where an iterator over a HashMap/HashSet is consumed, and whether the consumption can observe the
order."""
import re

ITER = re.compile(r"std::collections::hash_(?:map|set)::(?:Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|"
                  r"Drain|Union|Intersection|Difference|SymmetricDifference|ExtractIf)\b")
HASH = re.compile(r"^&*(?:'\w+ )?(?:mut )?(?:std::collections::)?Hash(?:Map|Set)<")
ORDERLESS_DST = re.compile(r"^(?:std::collections::)?(?:Hash(?:Map|Set)|BTree(?:Map|Set)|BinaryHeap)<")
ORDERED_DST = re.compile(r"^(?:std::collections::)?(?:BTree(?:Map|Set)|BinaryHeap)<")
# adapters: the result is again an iterator whose type mentions the hash iterator
ORDERLESS = {"any", "all", "count", "sum", "product", "min", "max", "size_hint", "len", "is_empty", "sorted",
             "sorted_unstable", "contains", "drop", "clone", "into_iter", "iter", "is_subset", "is_superset", "is_disjoint",
             "eq", "ne", "fmt"}
SENSITIVE_HINT = {"next", "collect", "extend", "from_iter", "find", "find_map", "fold", "for_each", "last", "nth", "position",
                  "join", "unique", "try_fold", "try_for_each", "reduce", "partition", "sorted_by", "sorted_by_key", "min_by",
                  "min_by_key", "max_by", "max_by_key", "retain", "zip", "enumerate", "peekable", "format", "into_string"}


def name(f):
    return f["r"][1] if "r" in f else f["fn"]


def elem(tys):
    """element type of the hash collection being iterated, without paths and lifetimes"""
    for x in tys:
        m = ITER.search(x) or HASH.match(x)
        if m:
            i = x.find("<", m.end() - 1)
            d, j = 0, i
            while 0 <= j < len(x):
                d += {"<": 1, ">": -1}.get(x[j], 0)
                if d == 0:
                    break
                j += 1
            t = re.sub(r"'\w+(?:, |,| )?", "", x[i + 1:j] if i >= 0 else "")
            return re.sub(r"\b(?:\w+::)+", "", t)
    return "?"


WEAK_SORT = {"sorted", "sorted_unstable", "min", "max"}


def weak_orders(P):
    """workspace types whose `Ord` is written by hand: elements that compare equal may still differ"""
    out = set()
    for b in P.bodies.values():
        m = re.match(r"<(.+) as (?:core|std)::cmp::Ord>::cmp$", b.path)
        if m and not b.d["exp"]:
            out.add(re.sub(r"<.*", "", m.group(1)))
    return out


def weak(P, tys):
    """the types mention a hand-ordered type, so sorting by that order leaves ties in their incoming order"""
    if not hasattr(P, "_weak_orders"):
        P._weak_orders = weak_orders(P)
    names = {w.rsplit("::", 1)[-1] for w in P._weak_orders}
    return any(x in names for t in tys for x in re.findall(r"\w+", ITER.sub("", t)))


def sites(P):
    """(body, callee, method, dest type, location) of every order-observing consumer of a hash iteration"""
    for b in P.bodies.values():
        if b.unit.startswith("ink_analyzer_macro"):
            continue
        for i, t, f in b.calls():
            if not f:
                continue
            n = name(f)
            m = n.rsplit("::", 1)[-1]
            dst = b.locals[t["p"][0]] if len(t["p"]) == 1 else "?"
            tys = [b.locals[a["p"][0]] if a.get("k") != "c" else a.get("ty", "") for a in t["a"]]
            it = any(ITER.search(x) for x in tys)
            raw = any(HASH.match(x) for x in tys)
            if it:
                if ITER.search(dst) and m not in ("next",):
                    if m in ("zip", "enumerate", "take", "skip", "step_by", "take_while", "skip_while", "map_while", "scan",
                             "peekable", "chunks", "windows", "dedup", "unique", "unique_by"):
                        yield b, n, m, dst, t["l"], t
                    continue  # adapter
                if (m in WEAK_SORT or ORDERED_DST.match(dst)) and weak(P, [dst]):
                    yield b, n, m, dst, t["l"], t
                    continue
                if m in ORDERLESS or ORDERLESS_DST.match(dst):
                    continue
                if m == "extend" and ORDERLESS_DST.match(re.sub(r"^&(?:'\w+ )?(?:mut )?", "", tys[0])):
                    continue
                yield b, n, m, dst, t["l"], t
            elif raw and m in ("extend", "from_iter", "collect", "from", "chain", "flat_map", "zip", "join", "sorted_by",
                               "sorted_by_key") and not n.startswith(("std::collections::hash", "<std::collections::hash")):
                if m == "extend" and ORDERLESS_DST.match(re.sub(r"^&(?:'\w+ )?(?:mut )?", "", tys[0])):
                    continue
                if ORDERLESS_DST.match(dst) or ITER.search(dst):
                    continue
                yield b, n, m, dst, t["l"], t
