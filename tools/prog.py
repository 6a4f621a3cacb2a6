"""The analysed program: bodies, call graph, ADTs, impls (loaded from the fact base)."""
import collections
import re

import facts


class Body:
    __slots__ = ("d", "id", "path", "kind", "file", "line", "blocks", "locals", "nargs", "unit", "parent_id",
                 "names", "promoted", "gen", "lcl", "_succ", "_doms", "_preds")

    def __init__(self, d, unit, parent=None, idx=None):
        self.d = d
        self.unit = unit
        self.id = d["id"] if parent is None else "%s::{promoted#%d}" % (parent.id, idx)
        self.path = d["path"] if parent is None else parent.path + "::{promoted#%d}" % idx
        self.kind = d["kind"] if parent is None else "promoted"
        self.file = d["file"] if parent is None else parent.file
        self.line = d["line"] if parent is None else parent.line
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.nargs = d["nargs"]
        self.parent_id = d.get("parent_id") if parent is None else parent.id
        self.names = d.get("names", [])
        self.gen = d.get("gen", []) if parent is None else parent.gen
        self.lcl = {int(k): v for k, v in d.get("lcl", {}).items()}
        self.promoted = []
        if parent is None:
            self.promoted = [Body(p, unit, self, i) for i, p in enumerate(d.get("promoted", []))]
        self._succ = self._doms = self._preds = None

    def succ(self):
        if self._succ is None:
            self._succ = [term_succ(b["t"]) for b in self.blocks]
        return self._succ

    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for i, s in enumerate(self.succ()):
                for t in s:
                    p[t].append(i)
            self._preds = p
        return self._preds

    def reachable(self):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for t in self.succ()[b]:
                if t not in seen:
                    seen.add(t)
                    st.append(t)
        return seen

    def doms(self):
        """dominators: block -> set of blocks (ignoring unwind edges)"""
        if self._doms is None:
            reach = self.reachable()
            order = sorted(reach)
            dom = {b: set(order) for b in order}
            dom[0] = {0}
            ch = True
            pr = self.preds()
            while ch:
                ch = False
                for b in order:
                    if b == 0:
                        continue
                    ps = [dom[p] for p in pr[b] if p in reach]
                    n = set.intersection(*ps) if ps else set()
                    n = n | {b}
                    if n != dom[b]:
                        dom[b] = n
                        ch = True
            self._doms = dom
        return self._doms

    def calls(self):
        """(block, terminator, callee dict or None)"""
        for i, b in enumerate(self.blocks):
            if b["c"]:
                continue
            t = b["t"]
            if t["t"] == "call":
                yield i, t, t["f"].get("f")

    def name_of(self, local):
        for n, p in self.names:
            if p == [local]:
                return n
        return None

    def where(self, l):
        return "%s:%s" % (self.file, l[0] if l else self.line)


def term_succ(t):
    k = t["t"]
    if k == "goto":
        return [t["to"]]
    if k == "switch":
        r = []
        for _, b in t["to"]:
            if b not in r:
                r.append(b)
        if t["else"] not in r:
            r.append(t["else"])
        return r
    if k in ("drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    return []


def operands_of_rvalue(v):
    r = v["r"]
    if r in ("use", "repeat", "cast"):
        return [v["o"]]
    if r == "bin":
        return [v["a"], v["b"]]
    if r == "un":
        return [v["a"]]
    if r == "agg":
        return v["fs"]
    return []


LOADED = []


class Program:
    def __init__(self, crates=None):
        self.crates = crates if crates is not None else facts.load()
        LOADED.append(self)
        self.bodies = {}
        self.by_path = collections.defaultdict(list)
        self.adts = {}
        self.impls = []
        self.statics = []
        self.unsafe_blocks = []
        self.traitconsts = {}
        self.trait_impl_items = collections.defaultdict(list)  # trait item id -> [impl item id]
        self.impl_of = {}  # (trait item id, self_ty) -> impl item id
        for unit, c in self.crates.items():
            is_bin = unit.endswith(".bin")
            for d in c["bodies"]:
                b = Body(d, unit)
                if is_bin:
                    b.id = "bin:" + b.id
                    if b.parent_id:
                        b.parent_id = "bin:" + b.parent_id
                self.bodies[b.id] = b
                self.by_path[b.path].append(b)
            for k, v in c["adts"].items():
                if k not in self.adts or v["local"]:
                    self.adts[k] = v
            for im in c["impls"]:
                self.impls.append(im)
                for ti, ii in im["items"]:
                    self.trait_impl_items[ti].append(ii)
                    self.impl_of[(ti, im["self_ty"])] = ii
            self.statics += c["statics"]
            self.unsafe_blocks += [(unit, u) for u in c["unsafe_blocks"]]
            for tr, st, nm, v in c.get("traitconsts", []):
                self.traitconsts[(tr + "::" + nm, st)] = v

    def body(self, ident):
        return self.bodies.get(ident)

    def find(self, path):
        """bodies with this canonical path"""
        return self.by_path.get(path, [])

    def one(self, path):
        r = self.find(path)
        return r[0] if len(r) == 1 else None

    def closure_kids(self, body):
        return [b for b in self.bodies.values() if b.parent_id == body.id and b.kind == "closure"]

    # -- call graph -----------------------------------------------------------------------------------------
    def callees(self, f):
        """workspace bodies a callee operand may invoke (CHA for unresolved trait methods)"""
        if not f:
            return []
        out = []
        if "r" in f:
            if f["r"][0] == "item" and f["r"][2] in self.bodies:
                out.append(f["r"][2])
                return out
            if f["r"][0] == "virtual":
                for i in self.trait_impl_items.get(f["r"][2], []):
                    if i in self.bodies:
                        out.append(i)
                if f["r"][2] in self.bodies:
                    out.append(f["r"][2])
                return out
            if f["r"][0] == "item":
                return []
        if f["id"] in self.bodies and "trait" not in f:
            return [f["id"]]
        if "trait" in f:
            for i in self.trait_impl_items.get(f["id"], []):
                if i in self.bodies:
                    out.append(i)
            if f["id"] in self.bodies:
                out.append(f["id"])
        return out

    def edges(self, body):
        """all bodies this body may cause to run: direct callees, function items and closures it mentions"""
        out = []
        seen = set()

        def add(x, why):
            if x in self.bodies and x not in seen:
                seen.add(x)
                out.append((x, why))

        def op(o, l):
            if o.get("k") == "c":
                if "f" in o:
                    for x in self.callees(o["f"]):
                        add(x, l)
                    for x in o["f"].get("cl", []):
                        add(x, l)
                if "closure" in o:
                    add(o["closure"], l)
                if "const" in o:
                    for b in self.by_path.get(o["const"], []):
                        add(b.id, l)
                v = o.get("v")
                if v and "static" in v:
                    for b in self.by_path.get(v["static"], []):
                        add(b.id, l)

        for b in self.all_blocks(body):
            if b["c"]:
                continue
            for s in b["s"]:
                for o in operands_of_rvalue(s["v"]):
                    op(o, s["l"])
                if s["v"]["r"] == "agg" and s["v"]["agg"] == "closure":
                    add(s["v"]["closure"], s["l"])
            t = b["t"]
            if t["t"] == "call":
                op(t["f"], t["l"])
                for a in t["a"]:
                    op(a, t["l"])
            elif t["t"] == "drop":
                for im in self.impls:
                    if im["trait"] == "core::ops::drop::Drop" and im["self"] in t["ty"]:
                        for _, ii in im["items"]:
                            add(ii, t["l"])
        return out

    def all_blocks(self, body):
        for b in body.blocks:
            yield b
        for p in body.promoted:
            for b in p.blocks:
                yield b

    def reach(self, roots):
        """ids reachable from roots (dict id -> predecessor id)"""
        seen = {}
        st = []
        for r in roots:
            seen[r] = None
            st.append(r)
        while st:
            x = st.pop()
            b = self.bodies.get(x)
            if b is None:
                continue
            for y, _ in self.edges_cached(b):
                if y not in seen:
                    seen[y] = x
                    st.append(y)
        return seen

    def edges_cached(self, b):
        c = self.__dict__.setdefault("_edges", {})
        if b.id not in c:
            c[b.id] = self.edges(b)
        return c[b.id]


def subst(ty, env):
    """replace generic parameter names in a type string"""
    if not env:
        return ty
    if ty in env:
        return env[ty]
    pat = "|".join(sorted((re.escape(k) for k in env), key=len, reverse=True))
    return re.sub(r"(?<![A-Za-z0-9_:])(%s)(?![A-Za-z0-9_])" % pat, lambda m: env[m.group(1)], ty)


_PROG = None


def program():
    global _PROG
    if _PROG is None:
        _PROG = Program()
    return _PROG
