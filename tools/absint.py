"""Disjunctive abstract interpretation of MIR bodies.

Abstract values: constants, constructor terms (enum variant / struct / tuple / finite sequence), closures, references to
abstract cells, and opaque terms that record provenance only (which accessor of which value produced it).  Branches on
opaque terms are split over the finite set of enum variants / truth values and remembered, so that correlated branches
agree (trace partitioning); collections are summarised by at most one representative element (so a `for` loop, a
`while let` and an iterator chain are the same thing); loops not governed by such a summary are cut after a fixed number
of abstract iterations.  No constraint is ever handed to a solver and no code is run: the result is a finite set of
abstract traces (events in order, with provenance of every operand), over which the rules are stated.
"""
import itertools
import sys
import time

import prog as progmod
from prog import subst

sys.setrecursionlimit(20000)

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
UNIT = ("t", ())
TRUE = ("i", 1)
FALSE = ("i", 0)
NONE = ("a", OPT, "None", ())


def some(v):
    return ("a", OPT, "Some", (v,))


def ok(v):
    return ("a", RES, "Ok", (v,))


def err(v):
    return ("a", RES, "Err", (v,))


def O(label, *subs):
    return ("o", label) + subs


DEADLINES = []


def check_time():
    if DEADLINES and time.time() > min(DEADLINES):
        raise Limit("time limit")


class within:
    """bounds the wall time of an analysis; exceeding it raises Limit"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        DEADLINES.append(time.time() + self.s)

    def __exit__(self, *a):
        DEADLINES.pop()


class Limit(Exception):
    pass


class State:
    __slots__ = ("cells", "cons", "ev", "heap", "cut")

    def __init__(self):
        self.cells = {}
        self.cons = {}
        self.ev = None
        self.heap = {}
        self.cut = False

    def fork(self):
        s = State()
        s.cells = dict(self.cells)
        s.cons = dict(self.cons)
        s.ev = self.ev
        s.heap = dict(self.heap)
        s.cut = self.cut
        return s

    def event(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        n = self.ev
        while n is not None:
            out.append(n[1])
            n = n[0]
        out.reverse()
        return out


class Frame:
    __slots__ = ("body", "env", "loc", "visits", "depth", "chain")

    def __init__(self, body, env, depth, chain):
        self.body = body
        self.env = env
        self.loc = {}
        self.visits = {}
        self.depth = depth
        self.chain = chain


DERIVED = ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne", "core::clone::Clone::clone")


# trait methods bound to another method of the trait by contract, also when the implementation is known
CONTRACTS = ("ink_analyzer_ir::traits::entity::InkEntity::can_cast",)

_RES = {}
_RES_DONE = []


def resolution(fid, args):
    """how the compiler resolved this trait method for these type arguments elsewhere in the loaded
    programs (confirmed or current); None if it never did"""
    import prog
    for P in prog.LOADED:
        if any(P is q for q in _RES_DONE):
            continue
        _RES_DONE.append(P)
        for b in P.bodies.values():
            for blk in b.blocks:
                t = blk.get("t") or {}
                c = (t.get("f") or {}).get("f") if t.get("t") == "call" else None
                if c and c.get("trait") and c.get("r") and c["r"][0] == "item" \
                        and not c["r"][2].startswith(("ink_", "bin:")):
                    _RES.setdefault((c["id"], tuple(c["args"])), tuple(c["r"]))
    return _RES.get((fid, tuple(args)))


class FnRef:
    __slots__ = ("canon", "id", "args", "rid", "rcanon", "trait", "ctor", "rkind")

    def __init__(self, f, env):
        self.canon = f["fn"]
        self.id = f["id"]
        self.args = tuple(subst(a, env) for a in f["args"])
        self.trait = f.get("trait")
        self.ctor = f.get("ctor", False)
        self.rkind = self.rid = self.rcanon = None
        if "r" in f:
            self.rkind, self.rcanon, self.rid = f["r"]
        elif self.trait and env and self.args and self.args[0] != f["args"][0]:
            # a trait method of a type parameter that the caller's instantiation makes concrete
            r = resolution(self.id, self.args)
            if r is not None:
                self.rkind, self.rcanon, self.rid = r

    def key(self):
        return ("fn", self.canon, self.id, self.args, self.rid, self.rcanon, self.trait, self.ctor, self.rkind)


def fnref_from_key(k):
    r = FnRef.__new__(FnRef)
    _, r.canon, r.id, r.args, r.rid, r.rcanon, r.trait, r.ctor, r.rkind = k
    return r


def decode_fmt(bs):
    """core::fmt::Arguments template bytes -> list of literal strings and '{}' markers"""
    out = []
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            ln = bs[i] | (bs[i + 1] << 8)
            i += 2
            out.append(bytes(bs[i:i + ln]).decode("utf-8", "replace"))
            i += ln
        else:
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            idx = None
            if b & 8:
                idx = bs[i] | (bs[i + 1] << 8)
                i += 2
            out.append(("arg", idx))
    return out


WRAPPERS = ("core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop")


def transparent(place):
    """drop projections into MaybeUninit / ManuallyDrop"""
    for e in place[1:]:
        if e != "*" and e[0] == "f" and len(e) > 3 and e[3] in WRAPPERS:
            return [x for x in place if not (isinstance(x, (list, tuple)) and x[0] == "f" and len(x) > 3 and
                                             x[3] in WRAPPERS)]
    return place


class Engine:
    def __init__(self, P, max_depth=12, max_paths=20000, loop_visits=3, stop=None, hooks=None, inline=None):
        self.P = P
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.loop_visits = loop_visits
        self.stop = stop or (lambda fr: False)
        self.hooks = hooks or {}
        self.inline = inline
        self.ncell = 0
        self.steps = 0
        self.analysed = set()
        self.cuts = 0
        self.max_steps = 3_000_000
        self.opaque_calls = {}
        self.vardom = {}
        self.nrep = 1
        self.exact = False
        import models
        self.models = models.MODELS
        self.prefix_models = models.PREFIX_MODELS

    # ---- cells and places -----------------------------------------------------------------------------------
    def alloc(self, st, v):
        self.ncell += 1
        st.cells[self.ncell] = v
        return self.ncell

    def variant_index(self, adt, name):
        a = self.P.adts.get(adt)
        if a:
            for i, v in enumerate(a["variants"]):
                if v["name"] == name:
                    return i
        return {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1}.get(name)

    def discr_of(self, adt, name):
        a = self.P.adts.get(adt)
        if a:
            for v in a["variants"]:
                if v["name"] == name:
                    return v["discr"]
        return {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Less": 255}.get(name)

    def variants(self, adt):
        a = self.P.adts.get(adt)
        if a:
            return [(v["name"], v["discr"], len(v["fields"])) for v in a["variants"]]
        if adt == OPT:
            return [("None", 0, 0), ("Some", 1, 1)]
        if adt == RES:
            return [("Ok", 0, 1), ("Err", 1, 1)]
        if adt == CF:
            return [("Continue", 0, 1), ("Break", 1, 1)]
        return None

    def field_names(self, adt, variant):
        a = self.P.adts.get(adt)
        if a:
            for v in a["variants"]:
                if v["name"] == variant or a["kind"] != "enum":
                    return [f[0] for f in v["fields"]]
        return None

    def project(self, st, v, e, variant=None):
        """one projection step on a value (no deref)"""
        if e[0] == "d":
            return v  # handled by caller through `variant`
        if e[0] == "f":
            i = e[1]
            nm = e[2] if len(e) > 2 and e[2] else i
            k = v[0]
            if k == "ref":
                v = self.read(st, v[1], v[2])
                return self.project(st, v, e, variant)
            if k == "bx":
                return v
            if k == "a":
                if i < len(v[3]):
                    return v[3][i]
                return O("bad")
            if k == "t":
                return v[1][i] if i < len(v[1]) else O("bad")
            if k == "clo":
                return v[2][i] if i < len(v[2]) else O("bad")
            if k == "ov":
                for kk, val in v[2]:
                    if kk == (variant, nm):
                        return val
                return self.project(st, v[1], e, variant)
            if k == "seq":
                # Vec internals: transparent
                return v
            if k == "o":
                t = O("vf", v, variant, nm) if variant is not None else O("fld", v, nm)
                return st.heap.get(t, t)
            return O("fld", v, nm)
        if e[0] == "i":
            return O("idx", v, None)
        if e[0] == "c":
            if v[0] == "seq" and v[3] is None and not any(x[0] == "sp" for x in v[2]):
                idx = e[1] if not e[3] else len(v[2]) - e[1]
                if 0 <= idx < len(v[2]):
                    return v[2][idx]
            return O("idx", v, ("i", e[1] if not e[3] else -e[1]))
        if e[0] == "s":
            if v[0] == "seq" and v[3] is None and not any(x[0] == "sp" for x in v[2]):
                end = len(v[2]) - e[2] if e[3] else e[2]
                return ("seq", v[1], v[2][e[1]:end], None)
            return O("sub", v, ("i", e[1]), ("i", e[2]))
        return O("proj", v)

    def read(self, st, cell, path):
        v = st.cells.get(cell, O("uninit"))
        variant = None
        for e in path:
            if e[0] == "d":
                variant = e[2]
                continue
            if e[0] == "ix":
                if v[0] == "seq" and v[3] is None and e[1][0] == "i" and 0 <= e[1][1] < len(v[2]) and not any(
                        x[0] == "sp" for x in v[2]):
                    v = v[2][e[1][1]]
                else:
                    v = O("idx", v, e[1])
                variant = None
                continue
            v = self.project(st, v, e, variant)
            variant = None
        return v

    def resolve(self, st, fr, place):
        """place -> ('loc', cell, path) | ('val', value, trailing variant)"""
        place = transparent(place)
        cell = fr.loc[place[0]]
        path = ()
        mode = "loc"
        val = None
        variant = None
        for e in place[1:]:
            if e == "*":
                if mode == "loc":
                    v = self.read(st, cell, path)
                else:
                    v = val
                while True:
                    if v[0] == "ref":
                        cell, path = v[1], v[2]
                        mode = "loc"
                        break
                    if v[0] == "bx":
                        cell, path, mode = v[1], (), "loc"
                        break
                    if v[0] == "a" and v[1].endswith("boxed::Box") and len(v[3]) >= 1:
                        v = v[3][0]
                        continue
                    if mode == "loc" and v[0] != "o":
                        break  # deref of a transparent reference held in place: stay at this location
                    mode, val, variant = "val", v, None
                    break
            elif mode == "loc":
                if e[0] == "i":
                    path = path + (("ix", self.read(st, fr.loc[e[1]], ())),)
                else:
                    path = path + (tuple(e),)
            else:
                if e[0] == "d":
                    variant = e[2]
                elif e[0] == "i":
                    ix = self.read(st, fr.loc[e[1]], ())
                    if val[0] == "seq" and val[3] is None and ix[0] == "i" and 0 <= ix[1] < len(val[2]):
                        val = val[2][ix[1]]
                    else:
                        val = O("idx", val, ix)
                        val = st.heap.get(val, val)
                    variant = None
                else:
                    val = self.project(st, val, e, variant)
                    variant = None
        if mode == "loc":
            return ("loc", cell, path)
        return ("val", val, variant)

    def read_place(self, st, fr, place):
        r = self.resolve(st, fr, place)
        if r[0] == "loc":
            return self.read(st, r[1], r[2])
        return r[1]

    def set_in(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        variant = None
        if e[0] == "d":
            variant = e[2]
            path = path[1:]
            if not path:
                return v
            e = path[0]
        if v[0] == "ref":
            inner = self.read(st, v[1], v[2])
            self.write(st, v[1], v[2], self.set_in(st, inner, ((("d", 0, variant),) if variant else ()) + path, new))
            return v
        if e[0] == "f":
            i = e[1]
            nm = e[2] if len(e) > 2 and e[2] else i
            if v[0] == "a" and i < len(v[3]):
                fs = list(v[3])
                fs[i] = self.set_in(st, fs[i], path[1:], new)
                return ("a", v[1], v[2], tuple(fs))
            if v[0] == "t" and i < len(v[1]):
                fs = list(v[1])
                fs[i] = self.set_in(st, fs[i], path[1:], new)
                return ("t", tuple(fs))
            if v[0] == "clo" and i < len(v[2]):
                fs = list(v[2])
                fs[i] = self.set_in(st, fs[i], path[1:], new)
                return ("clo", v[1], tuple(fs), v[3])
            old = self.project(st, v, e, variant)
            nv = self.set_in(st, old, path[1:], new)
            base, pairs = (v[1], v[2]) if v[0] == "ov" else (v, ())
            pairs = tuple(p for p in pairs if p[0] != (variant, nm)) + (((variant, nm), nv),)
            return ("ov", base, pairs)
        if e[0] == "ix":
            if v[0] == "seq" and e[1][0] == "i" and 0 <= e[1][1] < len(v[2]):
                es = list(v[2])
                es[e[1][1]] = self.set_in(st, es[e[1][1]], path[1:], new)
                return ("seq", v[1], tuple(es), v[3])
            return O("set", v, e[1], new)
        return O("set", v, new)

    def write(self, st, cell, path, new):
        if path:
            st.cells[cell] = self.set_in(st, st.cells.get(cell, O("uninit")), path, new)
        else:
            st.cells[cell] = new

    def write_place(self, st, fr, place, new, loc=None):
        # writing through an uninitialised aggregate happens for locals assigned field by field
        place = transparent(place)
        if len(place) == 1:
            st.cells[fr.loc[place[0]]] = new
            return
        r = self.resolve(st, fr, place[:-1])
        last = place[-1]
        if last == "*":
            r = self.resolve(st, fr, place)
            if r[0] == "loc":
                self.write(st, r[1], r[2], new)
            else:
                st.heap[r[1]] = new
                st.event(("write", self.deep(st, r[1]), None, self.deep(st, new), fr.body.id, loc))
            return
        if r[0] == "loc":
            e = tuple(last) if last[0] != "i" else ("ix", self.read(st, fr.loc[last[1]], ()))
            base = self.read(st, r[1], r[2])
            if base[0] == "o" and e[0] == "f":
                st.event(("write", self.deep(st, base), e[2] if len(e) > 2 and e[2] else e[1], self.deep(st, new),
                          fr.body.id, loc))
            self.write(st, r[1], r[2] + (e,), new)
        else:
            base = r[1]
            if last[0] == "f":
                nm = last[2] if len(last) > 2 and last[2] else last[1]
                t = O("vf", base, r[2], nm) if r[2] is not None else O("fld", base, nm)
                st.heap[t] = new
                st.event(("write", self.deep(st, base), nm, self.deep(st, new), fr.body.id, loc))
            else:
                st.event(("write", self.deep(st, base), "?", self.deep(st, new), fr.body.id, loc))

    def deep(self, st, v, n=0):
        """resolve references so that a term can be stored in the log"""
        if n > 40:
            return O("deep")
        k = v[0]
        if k == "ref":
            return self.deep(st, self.read(st, v[1], v[2]), n + 1)
        if k == "bx":
            return self.deep(st, self.read(st, v[1], ()), n + 1)
        if k == "a":
            return ("a", v[1], v[2], tuple(self.deep(st, x, n + 1) for x in v[3]))
        if k == "t":
            return ("t", tuple(self.deep(st, x, n + 1) for x in v[1]))
        if k == "seq":
            return ("seq", v[1], tuple(self.deep(st, x, n + 1) for x in v[2]),
                    self.deep(st, v[3], n + 1) if v[3] is not None else None)
        if k == "clo":
            return ("clo", v[1], tuple(self.deep(st, x, n + 1) for x in v[2]), ())
        if k == "ov":
            return ("ov", self.deep(st, v[1], n + 1), tuple((a, self.deep(st, b, n + 1)) for a, b in v[2]))
        return v

    # ---- constants ------------------------------------------------------------------------------------------
    def constval(self, v, ty):
        if "int" in v:
            return ("i", v["int"])
        if "str" in v:
            return ("s", v["str"])
        if "bytes" in v:
            return ("s", v["bytes"])
        if "static" in v:
            return O("static", v["static"])
        if "ref" in v:
            return self.constval(v["ref"], ty)
        if "fields" in v:
            fs = tuple(self.constval(x, "") for x in v["fields"])
            if "adt" in v:
                return ("a", v["adt"], v.get("variant") or "", fs)
            if ty.startswith("&"):
                ty = ty.lstrip("&")
            if ty.startswith("["):
                return ("seq", "arr", fs, None)
            if fs and all(f[0] == "i" for f in fs) and len(fs) > 2:
                return ("seq", "arr", fs, None)
            return ("t", fs)
        return O("const", v.get("s", "?"))

    def operand(self, st, fr, o):
        """returns a value, or a list of (state, value) when a promoted constant has to be evaluated"""
        if o["k"] != "c":
            return self.read_place(st, fr, o["p"])
        if "f" in o:
            return FnRef(o["f"], fr.env_d).key() if hasattr(fr, "env_d") else FnRef(o["f"], dict(fr.env)).key()
        if "closure" in o:
            return ("clo", o["closure"], (), fr.env)
        if "promoted" in o:
            b = fr.body if fr.body.kind != "promoted" else self.P.bodies[fr.body.parent_id]
            return self.eval_promoted(b, o["promoted"], fr.env)
        if "const" in o and "v" not in o:
            cargs = [subst(a, dict(fr.env)) for a in o.get("cargs", [])]
            if cargs:
                tc = self.P.traitconsts.get((o["const"], cargs[0]))
                if tc is not None:
                    return self.constval(tc, o["ty"])
            return O("const", o["const"], tuple(cargs))
        if "const" in o:
            v = self.constval(o["v"], o["ty"])
            return v
        if "v" in o:
            return self.constval(o["v"], o["ty"])
        return O("const", o.get("ty"))

    def eval_promoted(self, body, idx, env):
        p = body.promoted[idx]
        st = State()
        try:
            rs = list(self.run_body(st, p, [], env, 0, ()))
        except Limit:
            rs = []
        if len(rs) != 1:
            return O("promoted", body.id, idx)
        s, v = rs[0]
        return self.deep(s, v)

    # ---- rvalues --------------------------------------------------------------------------------------------
    def rvalue(self, st, fr, v):
        r = v["r"]
        if r == "use":
            return self.operand(st, fr, v["o"])
        if r == "ref" or r == "raw":
            x = self.resolve(st, fr, v["p"])
            if x[0] == "loc":
                cur = self.read(st, x[1], x[2])
                if cur[0] in ("ref", "o") and not v.get("mut") and not x[2]:
                    # shared reference to something opaque: transparent
                    return cur if cur[0] == "o" else ("ref", x[1], x[2])
                return ("ref", x[1], x[2])
            return x[1]
        if r == "cast":
            x = self.operand(st, fr, v["o"])
            ty = v["ty"]
            if x[0] == "i" and "IntToInt" in v["ck"]:
                bits = {"u8": 8, "u16": 16, "u32": 32, "i32": 32, "u64": 64, "usize": 64, "i64": 64}.get(ty)
                if bits and x[1] >= 0:
                    return ("i", x[1] & ((1 << bits) - 1))
                return x
            if "IntToInt" in v["ck"] and x[0] == "o":
                if x[1] == "discr":
                    return x
                return O("cast", ty, x)
            return x
        if r == "bin":
            return self.binop(st, v["op"], self.operand(st, fr, v["a"]), self.operand(st, fr, v["b"]),
                              any(v[x]["k"] == "c" and str(v[x].get("ty")) in UNSIGNED for x in "ab"))
        if r == "un":
            a = self.operand(st, fr, v["a"])
            if v["op"] == "Not":
                return self.neg(a)
            if v["op"] == "PtrMetadata":
                if a[0] == "ref":
                    a = self.read(st, a[1], a[2])
                if a[0] == "seq" and a[3] is None:
                    return ("i", len(a[2]))
                return O("len", self.deep(st, a))
            if v["op"] == "Neg" and a[0] == "i":
                return ("i", -a[1])
            return O("un", v["op"], a)
        if r == "discr":
            x = self.read_place(st, fr, v["p"])
            if x[0] == "ref":
                x = self.read(st, x[1], x[2])
            if x[0] == "a":
                d = self.discr_of(x[1], x[2])
                if d is not None:
                    return ("i", d)
            return O("discr", self.deep(st, x), v["adt"])
        if r == "agg":
            fs = tuple(self.operand(st, fr, o) for o in v["fs"])
            if v["agg"] == "adt":
                return ("a", v["adt"], v["variant"], fs)
            if v["agg"] == "tuple":
                return ("t", fs)
            if v["agg"] == "array":
                return ("seq", "arr", fs, None)
            if v["agg"] == "closure":
                return ("clo", v["closure"], fs, fr.env)
            return O("rawptr", *fs)
        if r == "repeat":
            return O("repeat", self.operand(st, fr, v["o"]))
        if r == "tls":
            return O("static", v["d"])
        return O("other")

    def neg(self, a):
        if a[0] == "i":
            return ("i", 1 - a[1]) if a[1] in (0, 1) else ("i", ~a[1])
        if a[0] == "o" and a[1] == "not":
            return a[2]
        return O("not", a)

    def binop(self, st, op, a, b, unsigned=False):
        ov = op.endswith("WithOverflow")
        if ov:
            op = op[:-len("WithOverflow")]
        if a[0] == "ref":
            a = self.deep(st, a)
        if b[0] == "ref":
            b = self.deep(st, b)
        res = None
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            f = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Eq": lambda: int(x == y),
                 "Ne": lambda: int(x != y), "Lt": lambda: int(x < y), "Le": lambda: int(x <= y),
                 "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y), "BitAnd": lambda: x & y,
                 "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}.get(op)
            if f:
                res = ("i", f())
        if res is None and self.exact:
            res = len_cmp(op, a, b)
        if res is None and unsigned:
            # comparisons of an unsigned number with 0 or 1 are zero tests
            if b[0] == "i" and (op, b[1]) in (("Gt", 0), ("Ge", 1)) or a[0] == "i" and (op, a[1]) in (("Lt", 0), ("Le", 1)):
                op, a, b = "Ne", b if a[0] == "i" else a, ("i", 0)
            elif b[0] == "i" and (op, b[1]) in (("Le", 0), ("Lt", 1)) or a[0] == "i" and (op, a[1]) in (("Ge", 0), ("Gt", 1)):
                op, a, b = "Eq", b if a[0] == "i" else a, ("i", 0)
        if res is None:
            if op in ("Eq", "Ne"):
                res = self.eq(st, a, b)
                if op == "Ne":
                    res = self.neg(res)
            elif op == "Gt":
                res = O("bin", "Lt", b, a)
            elif op == "Ge":
                res = O("not", O("bin", "Lt", a, b))
            elif op == "Le":
                res = O("not", O("bin", "Lt", b, a))
            else:
                res = O("bin", op, a, b)
        return ("t", (res, FALSE)) if ov else res

    def eq(self, st, a, b):
        a = self.deep(st, a)
        b = self.deep(st, b)
        if a == b and a[0] != "o":
            return TRUE
        r = struct_eq(a, b)
        if r is not None:
            return ("i", int(r))
        if a[0] != "o" and b[0] == "o":
            a, b = b, a
        if a[0] == "o" and b[0] == "o" and repr(b) < repr(a):
            a, b = b, a
        if b[0] == "a" and not b[3] and a[0] == "o":
            return O("isvar", a, b[1], b[2])
        if self.exact and b == ("s", "") and a[0] == "o":
            return O("not", O("nonempty", a))
        if a[0] == "o" and a[1] == "discr" and b[0] == "i":
            nm = self.variant_by_discr(a[3], b[1])
            if nm:
                return O("isvar", a[2], a[3], nm)
        return O("eq", a, b)

    def variant_by_discr(self, adt, d):
        vs = self.variants(adt)
        if vs:
            for n, dd, _ in vs:
                if dd == d:
                    return n
        return None

    # ---- branching ------------------------------------------------------------------------------------------
    def choose(self, st, alts):
        """the cases of a decision that are followed (all of them, except when sampling)"""
        return alts

    def split_bool(self, st, t):
        """yields (state, bool)"""
        return self.choose(st, self.split_bool_cases(st, t))

    def split_bool_cases(self, st, t):
        if t[0] == "ref":
            t = self.deep(st, t)
        if t[0] == "i":
            yield st, bool(t[1])
            return
        if t[0] == "o" and t[1] == "not":
            for s, b in self.split_bool(st, t[2]):
                yield s, not b
            return
        if t[0] == "o" and t[1] == "nonempty":
            from models import nonempty
            for s, xs in nonempty(self, st, t[2]):
                yield s, bool(xs)
            return
        if t[0] == "o" and t[1] == "isvar":
            for s, n in self.split_variant(st, t[2], t[3], only=t[4]):
                yield s, n == t[4]
            return
        if self.exact and t[0] == "o" and t[1] in ("more1", "just1"):
            from models import as_seq
            for s, xs in as_seq(self, st, t[2]):
                yield s, len(xs) > 1 if t[1] == "more1" else len(xs) == 1
            return
        if t[0] == "o" and t[1] == "eq" and t[3][0] in ("i", "s", "a"):
            key = ("eqv", t[2])
            cur = st.cons.get(key)
            if cur is not None:
                known, val = cur
                if known:
                    yield st, val == t[3]
                    return
                if t[3] in val:
                    yield st, False
                    return
            s2 = st.fork()
            s2.cons[key] = (True, t[3])
            yield s2, True
            s3 = st.fork()
            s3.cons[key] = (False, ((cur[1] if cur else ()) + (t[3],)))
            yield s3, False
            return
        if t in st.cons:
            yield st, bool(st.cons[t])
            return
        s2 = st.fork()
        s2.cons[t] = 1
        yield s2, True
        s3 = st.fork()
        s3.cons[t] = 0
        yield s3, False

    def split_variant(self, st, t, adt, only=None):
        """yields (state, variant name); `only` = we only care whether it is that variant"""
        return self.choose(st, self.split_variant_cases(st, t, adt, only))

    def split_variant_cases(self, st, t, adt, only=None):
        if t[0] == "ref":
            t = self.deep(st, t)
        if t[0] == "a":
            yield st, t[2]
            return
        key = ("var", t)
        cur = st.cons.get(key)
        vs = self.variants(adt)
        if vs is not None:
            self.vardom[t] = [n for n, _, _ in vs]
        if cur is not None and isinstance(cur, str):
            yield st, cur
            return
        excl = cur if cur is not None else frozenset()
        if vs is None:
            cand = ["?0", "?1"]
        else:
            cand = [n for n, _, _ in vs if n not in excl]
        if only is not None and len(cand) > 2:
            if only in cand:
                s = st.fork()
                s.cons[key] = only
                yield s, only
            rest = [c for c in cand if c != only]
            if rest:
                s = st.fork()
                if len(rest) == 1:
                    s.cons[key] = rest[0]
                else:
                    s.cons[key] = frozenset(excl | {only})
                yield s, rest[0] if len(rest) == 1 else "<not %s>" % only
            return
        for n in cand:
            s = st.fork()
            s.cons[key] = n
            yield s, n

    def payload(self, st, t, variant, idx=0):
        if t[0] == "ref":
            t2 = self.read(st, t[1], t[2])
            if t2[0] == "a" or (self.exact and t2[0] in ("o", "ov")):
                # reference to an enum held in a cell: payload reference
                return ("ref", t[1], t[2] + (("d", 0, variant), ("f", idx, str(idx))))
            t = t2
        if t[0] == "a":
            return t[3][idx] if idx < len(t[3]) else O("bad")
        if t[0] == "ov":
            for kk, val in t[2]:
                if kk == (variant, str(idx)) or kk == (variant, idx):
                    return val
            t = t[1]
        r = O("vf", self.deep(st, t), variant, str(idx))
        return st.heap.get(r, r)

    def split_opt(self, st, v):
        """Option value -> (state, None | payload value wrapped in list)"""
        for s, n in self.split_variant(st, v if v[0] != "ref" else self.deep1(st, v), OPT):
            if n == "Some":
                yield s, [self.payload(s, v, "Some")]
            else:
                yield s, None

    def deep1(self, st, v):
        while v[0] in ("ref", "bx"):
            v = self.read(st, v[1], v[2] if v[0] == "ref" else ())
        return v

    def split_res(self, st, v):
        for s, n in self.split_variant(st, v if v[0] != "ref" else self.deep1(st, v), RES):
            yield s, n, self.payload(s, v, n)

    # ---- execution ------------------------------------------------------------------------------------------
    def run(self, body, args=None, env=(), state=None):
        """list of (state, return value) over all abstract paths"""
        st = state or State()
        if args is None:
            args = []
            for i in range(1, body.nargs + 1):
                args.append(self.arg_value(st, body, i))
        out = []
        for s, v in self.run_body(st, body, args, env, 0, ()):
            out.append((s, v))
            if len(out) > self.max_paths:
                raise Limit("more than %d abstract paths in %s" % (self.max_paths, body.path))
        return out

    def arg_value(self, st, body, i, name=None):
        ty = body.locals[i]
        nm = name or body.name_of(i) or "arg%d" % i
        v = O("arg", nm)
        if ty.startswith("&mut "):
            c = self.alloc(st, v)
            return ("ref", c, ())
        return v

    def run_body(self, st, body, args, env, depth, chain):
        self.analysed.add(body.id)
        fr = Frame(body, env, depth, chain + (body.id,))
        for i in range(len(body.locals)):
            fr.loc[i] = self.alloc(st, O("uninit"))
        for i, a in enumerate(args):
            if i + 1 < len(body.locals):
                st.cells[fr.loc[i + 1]] = a
        work = [(st, 0, {})]
        while work:
            st, bi, visits = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Limit("step limit in %s" % body.path)
                if not self.steps & 63:
                    check_time()
                n = visits.get(bi, 0) + 1
                if n > self.loop_visits:
                    self.cuts += 1
                    break
                visits = dict(visits)
                visits[bi] = n
                blk = body.blocks[bi]
                for s in blk["s"]:
                    v = s["v"]
                    if v["r"] == "setdiscr":
                        continue
                    nv = self.rvalue(st, fr, v)
                    self.write_place(st, fr, s["p"], nv, s["l"])
                t = blk["t"]
                k = t["t"]
                if k == "goto" or k == "drop" or k == "assert":
                    bi = t["to"]
                    continue
                if k == "return":
                    ret = st.cells.get(fr.loc[0], UNIT)
                    if body.locals[0] == "()":
                        ret = UNIT
                    yield st, ret
                    break
                if k == "switch":
                    d = self.operand(st, fr, t["d"])
                    nxt = list(self.choose(st, self.switch(st, d, t)))
                    if not nxt:
                        break
                    for s2, b2 in nxt[1:]:
                        work.append((s2, b2, visits))
                    st, bi = nxt[0]
                    continue
                if k == "call":
                    outs = self.do_call(st, fr, t)
                    if t["to"] is None:
                        for s2, _ in outs:
                            s2.event(("diverge", t["f"].get("f", {}).get("fn"), body.id, t["l"]))
                            st2 = s2
                            if self.hooks.get("diverge"):
                                self.hooks["diverge"](st2, body, t)
                        break
                    first = True
                    nst = None
                    for s2, val in outs:
                        self.write_place(s2, fr, t["p"], val, t["l"])
                        if first:
                            nst = s2
                            first = False
                        else:
                            work.append((s2, t["to"], visits))
                    if nst is None:
                        break
                    st, bi = nst, t["to"]
                    continue
                break

    def switch(self, st, d, t):
        if d[0] == "ref":
            d = self.deep(st, d)
        if d[0] == "i":
            for v, b in t["to"]:
                if v == d[1] or (d[1] < 0 and v == d[1] & 0xFFFFFFFFFFFFFFFF):
                    yield st, b
                    return
            yield st, t["else"]
            return
        if d[0] == "o" and d[1] == "discr":
            term, adt = d[2], d[3]
            vs = self.variants(adt)
            cases = {v: b for v, b in t["to"]}
            if vs is None:
                for b in dict.fromkeys(list(cases.values()) + [t["else"]]):
                    yield st.fork(), b
                return
            self.vardom[term] = [n for n, _, _ in vs]
            listed = [n for n, dd, _ in vs if dd in cases]
            key = ("var", term)
            cur = st.cons.get(key)
            if isinstance(cur, str):
                dd = self.discr_of(adt, cur)
                yield st, cases.get(dd, t["else"])
                return
            excl = cur if cur is not None else frozenset()
            rest = []
            for n, dd, _ in vs:
                if n in excl:
                    continue
                if dd in cases:
                    s = st.fork()
                    s.cons[key] = n
                    yield s, cases[dd]
                else:
                    rest.append(n)
            if rest:
                s = st.fork()
                if len(rest) == 1:
                    s.cons[key] = rest[0]
                else:
                    s.cons[key] = frozenset(excl | set(listed))
                yield s, t["else"]
            return
        # boolean / integer opaque
        if len(t["to"]) == 1 and t["to"][0][0] == 0:
            for s, b in self.split_bool(st, d):
                yield s, (t["else"] if b else t["to"][0][1])
            return
        key = ("eqv", d)
        cur = st.cons.get(key)
        if cur and cur[0]:
            for v, b in t["to"]:
                if ("i", v) == cur[1]:
                    yield st, b
                    return
            yield st, t["else"]
            return
        excl = cur[1] if cur else ()
        for v, b in t["to"]:
            if ("i", v) in excl:
                continue
            s = st.fork()
            s.cons[key] = (True, ("i", v))
            yield s, b
        s = st.fork()
        s.cons[key] = (False, excl + tuple(("i", v) for v, _ in t["to"]))
        yield s, t["else"]

    # ---- calls ----------------------------------------------------------------------------------------------
    def do_call(self, st, fr, t):
        f = self.operand(st, fr, t["f"])
        args = [self.operand(st, fr, a) for a in t["a"]]
        muts = []
        for a in t["a"]:
            ty = ""
            if a["k"] != "c" and len(a["p"]) == 1:
                ty = fr.body.locals[a["p"][0]]
            muts.append(ty.startswith("&mut "))
        site = (fr.body.id, t["l"])
        return self.call_value(st, f, args, muts, fr, site)

    def call_value(self, st, f, args, muts, fr, site):
        """f: ('fn',..) | ('clo',..) | opaque -> iterable of (state, value)"""
        if f[0] == "ref":
            f = self.deep1(st, f)
        if f[0] == "fn":
            g = fnref_from_key(f)
            if g.canon in MUT_RECEIVER and args and args[0][0] in ("ref", "o"):
                muts = [True] + list(muts[1:])
            return self.call_fn(st, g, args, muts, fr, site)
        if f[0] == "clo":
            return self.call_closure(st, f, args, fr, site)
        st.event(("icall", self.deep(st, f), tuple(self.deep(st, a) for a in args), site))
        r = O("icall", self.deep(st, f), tuple(self.deep(st, a) for a in args))
        return [(st, r)]

    def call_closure(self, st, f, args, fr, site):
        b = self.P.bodies.get(f[1])
        if b is None and fr is not None and fr.body.unit.endswith(".bin"):
            b = self.P.bodies.get("bin:" + f[1])
        if b is None:
            return [(st, O("icall", f[1]))]
        if fr is not None and (fr.depth >= self.max_depth or fr.chain.count(b.id) > 1):
            return [(st, O("icall", f[1], tuple(self.deep(st, a) for a in args)))]
        # closure env argument: by reference or by value according to the type of local 1
        envty = b.locals[1] if len(b.locals) > 1 else ""
        if envty.startswith("&"):
            c = self.alloc(st, f)
            e = ("ref", c, ())
        else:
            e = f
        depth = fr.depth + 1 if fr is not None else 0
        chain = fr.chain if fr is not None else ()
        return self.run_body(st, b, [e] + list(args), f[3], depth, chain)

    def resolve_fn(self, fr_fn):
        """FnRef -> workspace Body or None (after substitution)"""
        P = self.P
        if fr_fn.rkind == "item" and fr_fn.rid in P.bodies:
            return P.bodies[fr_fn.rid]
        if fr_fn.rkind is None or fr_fn.rkind == "virtual":
            if fr_fn.trait:
                if fr_fn.args:
                    ii = P.impl_of.get((fr_fn.id, fr_fn.args[0]))
                    if ii is None:
                        # match on the ADT name without generics / module prefix differences
                        cands = [i for i in P.trait_impl_items.get(fr_fn.id, [])]
                        if len(cands) == 1 and fr_fn.trait.startswith("ink_"):
                            ii = cands[0]
                    if ii in P.bodies:
                        return P.bodies[ii]
            if fr_fn.id in P.bodies:
                return P.bodies[fr_fn.id]
        return None

    def env_for(self, body, f):
        """generic environment of a workspace callee"""
        g = body.gen
        if f.rkind == "item" and f.rid != f.id:
            # trait method resolved to an impl: its own generics are not the trait's; leave them symbolic,
            # except for a blanket default method where Self is the first parameter
            if body.d.get("in_trait"):
                return tuple(zip(g, f.args))
            return ()
        return tuple((k, v) for k, v in zip(g, f.args))

    def call_fn(self, st, f, args, muts, fr, site):
        if f.ctor:
            # tuple struct / variant constructor used as a function
            parts = f.canon.rsplit("::", 2)
            adt = f.canon.rsplit("::", 1)[0]
            for suffix in ("::{{Ctor}}", "::Ctor"):
                if f.canon.endswith(suffix):
                    adt = f.canon[:-len(suffix)]
            return [(st, self.ctor(f, args))]
        names = [n for n in (f.rcanon, f.canon) if n]
        if self.stop(f):
            return [(st, self.opaque(st, f, args, muts, site))]
        for n in names:
            h = self.hooks.get(n)
            if h is not None:
                r = h(self, st, f, args, fr, site)
                if r is not None:
                    return r
        body = self.resolve_fn(f)
        if f.canon in FN_CALL and (body is None or body.kind == "closure"):
            return self.models[f.canon](self, st, f, args, muts, fr, site)
        if body is not None and body.d.get("exp") and f.canon in DERIVED:
            r = self.models[f.canon](self, st, f, args, muts, fr, site)
            if r is not None:
                return r
        if body is not None and (self.inline is None or self.inline(body)):
            if (fr is None or (fr.depth < self.max_depth and fr.chain.count(body.id) < 1)):
                env = self.env_for(body, f)
                return self.run_body(st, body, args, env, fr.depth + 1 if fr else 0, fr.chain if fr else ())
            return [(st, self.opaque(st, f, args, muts, site))]
        if body is not None and f.canon in CONTRACTS:
            r = self.models[f.canon](self, st, f, args, muts, fr, site)
            if r is not None:
                return r
        if body is None:
            for n in names:
                m = self.models.get(n)
                if m is not None:
                    r = m(self, st, f, args, muts, fr, site)
                    if r is not None:
                        return r
            for pre, m in self.prefix_models:
                if any(n.startswith(pre) for n in names):
                    r = m(self, st, f, args, muts, fr, site)
                    if r is not None:
                        return r
        # unknown higher-order function: its closures may run
        clos = [a for a in args if self.deep1(st, a)[0] == "clo"] if body is None else []
        if clos:
            return self.opaque_hof(st, f, args, muts, clos, fr, site)
        return [(st, self.opaque(st, f, args, muts, site))]

    def ctor(self, f, args):
        c = f.canon
        for suffix in ("::{{Ctor}}",):
            if c.endswith(suffix):
                c = c[:-len(suffix)]
        segs = c.rsplit("::", 2)
        if c not in self.P.adts and len(segs) == 3 and segs[1] == segs[2] and (
                segs[0] in self.P.adts or segs[0] + "::" + segs[1] in self.P.adts):
            c = segs[0] + "::" + segs[1]
        if c in self.P.adts:
            v = self.P.adts[c]["variants"]
            return ("a", c, v[0]["name"] if v else "", tuple(args))
        adt, _, var = c.rpartition("::")
        return ("a", adt, var, tuple(args))

    def opaque(self, st, f, args, muts, site):
        name = f.rcanon or f.canon
        dargs = tuple(self.deep(st, a) for a in args)
        r = O("call", name, dargs, f.args if f.canon.endswith(("::into", "::parse", "::from_value")) else ())
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        for a, m, d in zip(args, muts, dargs):
            if m and a[0] == "ref":
                self.write(st, a[1], a[2], O("mut", name, d, tuple(x for x in dargs if x is not d)))
        st.event(("call", name, dargs, r, site, f.args))
        return r

    def opaque_hof(self, st, f, args, muts, clos, fr, site):
        r = self.opaque(st, f, args, muts, site)
        outs = [st]
        for c in clos:
            c = self.deep1(st, c)
            nxt = []
            for s in outs:
                nxt.append(s.fork())
                b = self.P.bodies.get(c[1])
                n = (b.nargs - 1) if b else 1
                for s2, _ in self.call_closure(s, c, [O("cbarg", r, i) for i in range(n)], fr, site):
                    nxt.append(s2)
            outs = nxt
        return [(s, r) for s in outs]


# library functions taking `&mut self` that are passed by name
MUT_RECEIVER = ("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back",
                "core::option::Option::take", "alloc::vec::Vec::pop", "alloc::vec::Vec::clear",
                "alloc::vec::Vec::drain", "alloc::string::String::pop")
FN_CALL = ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
           "core::ops::function::Fn::call")


UNSIGNED = ("u8", "u16", "u32", "u64", "u128", "usize")


def len_cmp(op, a, b):
    """comparisons of a length with 0 or 1 are emptiness tests"""
    if b[0] == "o" and b[1] in ("len", "slen") and a[0] == "i":
        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        a, b = b, a
    if not (a[0] == "o" and a[1] in ("len", "slen") and b[0] == "i"):
        return None
    ne = O("nonempty", a[2])
    if (op, b[1]) in (("Gt", 0), ("Ge", 1), ("Ne", 0)):
        return ne
    if (op, b[1]) in (("Eq", 0), ("Lt", 1), ("Le", 0)):
        return O("not", ne)
    if a[1] == "slen":
        return None
    if (op, b[1]) in (("Gt", 1), ("Ge", 2)):
        return O("more1", a[2])
    if (op, b[1]) in (("Lt", 2), ("Le", 1)):
        return O("not", O("more1", a[2]))
    if (op, b[1]) in (("Eq", 1), ("Ne", 1)):
        r = O("just1", a[2])
        return r if op == "Eq" else O("not", r)
    return None


def struct_eq(a, b):
    """structural equality where decidable"""
    if a[0] in ("i", "s") and b[0] == a[0]:
        return a[1] == b[1]
    if a[0] == "a" and b[0] == "a" and a[1] == b[1]:
        if a[2] != b[2]:
            return False
        rs = [struct_eq(x, y) for x, y in zip(a[3], b[3])]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
        return None
    if a[0] == "t" and b[0] == "t":
        rs = [struct_eq(x, y) for x, y in zip(a[1], b[1])]
        if all(r is True for r in rs):
            return True
        if any(r is False for r in rs):
            return False
    return None


# ---- term helpers -----------------------------------------------------------------------------------------------
def walk(t):
    """all sub-terms"""
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def has(t, sub):
    return any(x == sub for x in walk(t))


def pretty(t, n=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if n > 12:
        return "…"
    k = t[0]
    if k == "i":
        return str(t[1])
    if k == "s":
        return repr(t[1])
    if k == "t":
        return "(" + ", ".join(pretty(x, n + 1) for x in t[1]) + ")"
    if k == "a":
        nm = t[1].rsplit("::", 1)[-1] + ("::" + t[2] if t[2] else "")
        return nm + ("(" + ", ".join(pretty(x, n + 1) for x in t[3]) + ")" if t[3] else "")
    if k == "seq":
        if len(t) == 3:
            t = (k, None) + t[1:]
        return "[" + ", ".join(pretty(x, n + 1) for x in t[2]) + (", .." + pretty(t[3], n + 1) if t[3] else "") + "]"
    if k == "clo":
        return "|%s|" % t[1].rsplit("::", 2)[-2:]
    if k == "fn":
        return t[1]
    if k == "ov":
        return pretty(t[1], n + 1) + "{" + ", ".join("%s: %s" % (a[1], pretty(b, n + 1)) for a, b in t[2]) + "}"
    if k == "ref":
        return "&cell%d%s" % (t[1], list(t[2]) or "")
    if k == "o":
        l = t[1]
        if l == "arg":
            return t[2]
        if l == "fld":
            return pretty(t[2], n + 1) + "." + str(t[3])
        if l == "vf":
            return pretty(t[2], n + 1) + ".<%s>%s" % (t[3], t[4] if t[4] not in ("0", 0) else "")
        if l == "call":
            return t[2].rsplit("::", 2)[-2] + "::" + t[2].rsplit("::", 1)[-1] + "(" + ", ".join(
                pretty(x, n + 1) for x in t[3]) + ")" if "::" in t[2] else t[2]
        if l == "item":
            return "item(" + pretty(t[2], n + 1) + ")"
        if l == "eq":
            return "(%s == %s)" % (pretty(t[2], n + 1), pretty(t[3], n + 1))
        if l == "isvar":
            return "(%s is %s)" % (pretty(t[2], n + 1), t[4])
        if l == "not":
            return "!" + pretty(t[2], n + 1)
        return l + "(" + ", ".join(pretty(x, n + 1) for x in t[2:]) + ")"
    return "(" + ", ".join(pretty(x, n + 1) for x in t) + ")"
