"""Semantic comparison of two versions of a function over their abstract decision tables.

The decision table of a function is what absint computes: a set of disjoint abstract paths, each a conjunction of atoms
(variant of a term / truth of a predicate / emptiness of a collection) with an outcome (returned term, final value of
everything reachable through `&mut` arguments, ordered externally visible effects).  Two functions conform when their
tables denote the same function of the atoms: branch order, helper functions, closures vs loops, `match` vs `if let`
vs combinators, local names, temporaries and formatting do not matter.  Functions whose MIR is the same modulo spans
and names are trivially conformant.
"""
import hashlib
import json
import re
import sys
import time

import absint
import models
from absint import O, Limit, RES, UNIT, check_time, within

sys.setrecursionlimit(40000)

EFFECT_PREFIX = ("crossbeam_channel::channel::Sender::send", "std::fs::", "std::process::", "std::io::stdio::",
                 "std::io::Write::", "lsp_server::Connection::", "lsp_server::stdio::IoThreads::", "std::env::set",
                 "std::net::", "std::thread::")
IMPL = re.compile(r"\{impl#\d+\}")
CLO = re.compile(r"\{closure[#@][^}]*\}|Closure\([^)]*\)|\{closure\}")
CLOS = re.compile(r"\{closure@[^}]*\}")
LIFE = re.compile(r"'[a-z_]\w* ?")
FNTY = re.compile(r"(for ?<[^>]*> ?)?(unsafe )?(extern \"[^\"]*\" )?fn\(")


def normty(t):
    t = CLO.sub("closure", LIFE.sub("", t))
    # a callable as type argument: its value is among the arguments, whatever its type is called
    return "closure" if FNTY.match(t) else t


def strip(x):
    """MIR without spans"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k not in ("l", "line", "names", "lcl", "file", "exp", "span")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    if isinstance(x, str):
        return CLOS.sub("{closure}", IMPL.sub("{impl}", x))
    return x


class View:
    """one version of the program"""

    def __init__(self, P):
        self.P = P
        self.fns = {}
        self.dup = set()
        self.kids = {}
        for b in P.bodies.values():
            if b.kind == "closure":
                self.kids.setdefault(b.parent_id, []).append(b)
        for b in P.bodies.values():
            if b.kind in ("closure", "promoted"):
                continue
            k = self.key(b)
            if k in self.fns:
                self.dup.add(k)
            self.fns[k] = b
        self._dig = {}
        self.keyof = {b.id: k for k, b in self.fns.items()}
        self._callers = None
        self._eff = None

    def key(self, b):
        return (b.unit, b.path, tuple(b.locals[1:b.nargs + 1]) if self_dup(b) else ())

    def sig(self, b):
        return tuple(normty(t) for t in b.locals[:b.nargs + 1]) + tuple(b.gen)

    def digest(self, b):
        if b.id not in self._dig:
            d = strip({k: b.d[k] for k in ("blocks", "locals", "nargs", "promoted") if k in b.d})
            s = json.dumps(d, sort_keys=True)
            for c in self.kids.get(b.id, ()):
                s += self.digest(c)
            self._dig[b.id] = hashlib.sha256(s.encode()).hexdigest()[:24]
        return self._dig[b.id]

    def owner(self, ident):
        """enclosing non-closure body"""
        b = self.P.bodies.get(ident)
        while b is not None and b.kind in ("closure", "promoted"):
            b = self.P.bodies.get(b.parent_id)
        return b

    def callers(self):
        if self._callers is None:
            r = {}
            for b in self.P.bodies.values():
                o = self.owner(b.id)
                if o is None:
                    continue
                for y, _ in self.P.edges_cached(b):
                    oy = self.owner(y)
                    if oy is not None and oy.id != o.id:
                        r.setdefault(oy.id, set()).add(o.id)
            self._callers = r
        return self._callers

    def effectful(self):
        """ids of bodies from which an externally visible effect is reachable"""
        if self._eff is None:
            rev, direct = {}, set()
            for b in self.P.bodies.values():
                for _, t, f in b.calls():
                    if f and any((f["r"][1] if "r" in f else f["fn"]).startswith(EFFECT_PREFIX) or
                                 f["fn"].startswith(EFFECT_PREFIX) for _ in (0,)):
                        direct.add(b.id)
                for y, _ in self.P.edges_cached(b):
                    rev.setdefault(y, set()).add(b.id)
            seen, st = set(direct), list(direct)
            while st:
                for y in rev.get(st.pop(), ()):
                    if y not in seen:
                        seen.add(y)
                        st.append(y)
            self._eff = seen
        return self._eff


def self_dup(b):
    return b.path.startswith("<") or b.kind in ("const", "static") and False


# adapters whose meaning is settled by their arguments
UNTYPED = {"core::iter::traits::iterator::Iterator::" + n for n in """map filter filter_map flat_map flatten chain zip
enumerate skip take rev any all find find_map position next last count nth peekable skip_while take_while cloned copied
fold step_by by_ref inspect map_while scan cycle for_each""".split()} | {"itertools::Itertools::" + n for n in """unique
unique_by dedup dedup_by join sorted sorted_by sorted_by_key group_by tuple_windows""".split()} | {"std::collections::hash::%s::%s" % (t, n) for t in ("map::HashMap", "set::HashSet")
                                                  for n in ("get", "get_mut", "contains_key", "contains", "remove")}


class DEngine(absint.Engine):
    """absint with stable naming and label-preserving treatment of what the rule engines may ignore"""

    def __init__(self, V, inline, nrep, max_paths=4000, memo=None, depth=0, lazy=0, strict=False):
        super().__init__(V.P, max_depth=10, max_paths=max_paths, inline=inline)
        self.V = V
        self.nrep = nrep
        self.exact = True
        self.inl = inline
        self.vardom = {}
        self.max_steps = 3_000_000
        self.memo = memo if memo is not None else {}
        self.nest = depth
        self.lazy = lazy
        self.strict = strict

    def arg_value(self, st, body, i, name=None):
        return super().arg_value(st, body, i, "#%d" % i)

    def call_fn(self, st, f, args, muts, fr, site):
        if self.lazy == 2 and not f.canon.endswith("::for_each") and f.canon.startswith(("core::option::Option::", "core::result::Result::",
                                                  "core::iter::traits::iterator::Iterator::", "core::bool::",
                                                  "bool::")) and any(
                self.deep1(st, a)[0] in ("clo", "fn") for a in args[1:]):
            return [(st, self.opaque(st, f, args, muts, site))]
        return super().call_fn(st, f, args, muts, fr, site)

    def fname(self, f):
        b = self.resolve_fn(f)
        if b is not None:
            return b.path
        return f.rcanon or f.canon

    def opaque(self, st, f, args, muts, site):
        b = self.resolve_fn(f)
        name = b.path if b is not None else (f.rcanon or f.canon)
        if b is not None and b.locals[0].startswith(("std::result::Result<()", "core::result::Result<()")):
            UNIT_OK.add(name)
        dargs = tuple(self.lam(st, self.deep(st, a)) for a in args)
        targs = () if name in UNTYPED else tuple(normty(a) for a in f.args)
        r = O("call", name, dargs, targs)
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        for k, (a, m, d) in enumerate(zip(args, muts, dargs)):
            new = O("mut", name, k, dargs, targs)
            if m and a[0] == "ref":
                c, p = a[1], a[2]
                while True:
                    x = self.read(st, c, p)
                    if x[0] == "ref":
                        c, p = x[1], x[2]
                    else:
                        break
                self.write(st, c, p, new)
            elif m and a[0] == "o":
                st.heap[a] = new
            v = self.deep1(st, a)
            if v[0] == "clo":
                cb = self.P.bodies.get(v[1])
                caps = (cb.d.get("caps") or []) if cb else []
                for i, cv in enumerate(v[2]):
                    if i < len(caps) and "Mut" in caps[i][1] and "Immut" not in caps[i][1] and cv[0] == "ref":
                        self.write(st, cv[1], cv[2], O("mut", name, (k, i), dargs))
        st.event(("call", name, dargs, r, site, f.args))
        return r

    def opaque_hof(self, st, f, args, muts, clos, fr, site):
        return [(st, self.opaque(st, f, args, muts, site))]

    # -- function values --------------------------------------------------------------------------------------
    def lam(self, st, t):
        """replace closures / function items inside a term by the digest of their decision table"""
        if not has_fn(t):
            return t
        k = t[0]
        if k == "clo":
            return self.lam_digest(("clo", t[1], tuple(self.lam(st, x) for x in t[2])))
        if k == "fn":
            return self.lam_digest(t)
        if k == "comp":
            return self.lam_digest(("comp", tuple(
                (n, ("clo", g[1], tuple(self.lam(st, x) for x in g[2])) if g[0] == "clo" else g) for n, g in t[1])))
        return tuple(self.lam(st, x) if isinstance(x, tuple) else x for x in t)

    def lam_digest(self, t):
        key = (t, self.nrep, self.lazy)
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r[1], str) and r[1].startswith("big"):
                self.memo["big"] = True
            return r
        self.memo[key] = ("λ", "rec")
        try:
            self.memo[key] = ("λ", self.lam_table(t))
        except Limit:
            if self.strict:
                raise
            b = self.P.bodies.get(t[1]) if t[0] == "clo" else None
            self.memo["big"] = True
            self.memo[key] = ("λ", "big:" + self.V.digest(b) if b is not None else "big")
        return self.memo[key]

    def lam_table(self, t):
        if self.nest > 6:
            raise Limit("nested closures")
        nrep = 1 if self.memo.get("lamrep") else self.nrep
        lim = 600 if nrep > 1 else 4000
        e = DEngine(self.V, self.inl, nrep, lim, self.memo, self.nest + 1, self.lazy, self.strict)
        st = absint.State()
        rty = ""
        if t[0] == "comp":
            args = [O("arg", "λ%d.0" % e.nest)]
            gen = e.run_stages(st, t[1], args[0])
        elif t[0] == "clo":
            b = self.P.bodies.get(t[1])
            if b is None:
                return "?" + t[1]
            args = [e.arg_value(st, b, i, None) for i in range(2, b.nargs + 1)]
            args = [e.rename_arg(st, a, i) for i, a in enumerate(args)]
            e.used_args = args
            fr = None
            gen = e.call_closure(st, ("clo", t[1], t[2], ()), args, fr, ("λ", 0))
            rty = b.locals[0]
        else:
            f = absint.fnref_from_key(t)
            b = e.resolve_fn(f)
            if f.ctor or b is None:
                args = [O("arg", "λ%d.0" % e.nest)]
                try:
                    return mdd_digest(e, [path_of(e, s, v, args) for s, v in
                                          e.call_fn(st, f, args, [False], None, ("λ", 0))])
                except (IndexError, AttributeError, KeyError, TypeError):
                    pass
                return ("fnitem", f.rcanon or f.canon, tuple(normty(a) for a in f.args))
            args = [e.rename_arg(st, e.arg_value(st, b, i, None), i - 1) for i in range(1, b.nargs + 1)]
            gen = e.call_fn(st, f, args, [ty.startswith("&mut ") for ty in b.locals[1:b.nargs + 1]], None, ("λ", 0))
            rty = b.locals[0]
        out = []
        for s, v in gen:
            if rty == "bool" and v[0] != "i":
                out.extend((s2, ("i", int(x))) for s2, x in e.split_bool(s, v))
            elif rty.startswith(("std::option::Option<", "core::option::Option<")) and e.deep1(s, v)[0] == "o":
                out.extend((s2, absint.NONE if p is None else absint.some(p[0])) for s2, p in models.opt(e, s, v))
            else:
                out.append((s, v))
            if len(out) > lim:
                raise Limit("closure table")
        paths = [path_of(e, s, v, args) for s, v in out]
        return mdd_digest(e, paths)

    def run_stages(self, st, stages, x):
        """the composed closure of an adapter chain (see models.fuse)"""
        ks = {k for k, _ in stages}
        live = [(st, x)]
        for k, g in stages:
            nxt = []
            for s, v in live:
                for s2, r in self.call_value(s, g if g[0] == "fn" else ("clo", g[1], g[2], ()), [v], [False], None, ("λ", 0)):
                    if k == "map":
                        nxt.append((s2, r))
                    elif k == "filter":
                        for s3, b in self.split_bool(s2, r):
                            if b:
                                nxt.append((s3, v))
                            else:
                                yield s3, ("i", 0) if ks == {"filter"} else absint.NONE
                    else:
                        for s3, p in models.opt(self, s2, r):
                            if p is not None:
                                nxt.append((s3, p[0]))
                            else:
                                yield s3, absint.NONE
            live = nxt
        for s, v in live:
            yield s, ("i", 1) if ks == {"filter"} else v if ks == {"map"} else absint.some(v)

    def rename_arg(self, st, a, i):
        nv = O("arg", "λ%d.%d" % (self.nest, i))
        if a[0] == "ref":
            st.cells[a[1]] = nv
            return a
        return nv


_HF = {}


def has_fn(t):
    r = _HF.get(id(t))
    if r is not None:
        return r[1]
    if t[0] in ("clo", "fn"):
        v = True
    else:
        v = False
        for x in t:
            if isinstance(x, tuple) and x and has_fn(x):
                v = True
                break
    _HF[id(t)] = (t, v)
    return v


# ---- canonical terms and paths ------------------------------------------------------------------------------------
_CM = {}


def canon(t):
    if not t:
        return t
    r = _CM.get(id(t))
    if r is not None:
        return r[1]
    v = canon1(t)
    _CM[id(t)] = (t, v)
    return v


def canon1(t):
    k = t[0]
    if k == "seq":
        es = []
        for x in t[2]:
            x = canon(x)
            if x[0] == "sp" and x[1][0] == "seq" and x[1][2] is None:
                es.extend(x[1][1])
            else:
                es.append(x)
        if len(es) == 1 and es[0][0] == "sp" and t[3] is None:
            return es[0][1]
        if not es and t[3] is not None:
            return canon(t[3])
        return ("seq", tuple(es), canon(t[3]) if t[3] is not None else None)
    if k == "a" and len(t) == 4:
        fs = tuple(canon(x) for x in t[3])
        if len(fs) == 1 and (t[1].rsplit("::", 1)[-1], t[2]) in WRAP:
            return fs[0]  # `x.into()` and the explicit variant are the same value
        r = eta(t[1], t[2], fs)
        if r is None:
            r = update_form(t[1], fs)
        return r if r is not None else ("a", t[1], t[2], fs)
    if k == "o" and len(t) > 2 and t[1] == "promoted":
        return ("o", "promoted")
    if k == "o" and len(t) == 3 and t[1] == "default" and t[2] in FTYPES:
        # derived Default: the default of every field
        from models import default_of
        adt, tys = FTYPES[t[2]]
        return ("a", adt, adt.rsplit("::", 1)[-1], tuple(canon(default_of(x)) for x in tys))
    if k == "o" and len(t) == 4 and t[1] == "fld" and t[2][0] == "o" and len(t[2]) == 3 and t[2][1] == "default" \
            and t[2][2] in FTYPES and t[3] in FIELDS[FTYPES[t[2][2]][0]]:
        return canon(t[2])[3][FIELDS[FTYPES[t[2][2]][0]].index(t[3])]
    if k == "o" and len(t) == 5 and t[1] == "call" and t[2].endswith("AstNode>::syntax") and len(t[3]) == 1:
        # the node of an AST enum is the node of its variant's payload
        x = canon(t[3][0])
        while x[0] == "o" and len(x) == 5 and x[1] == "vf" and x[3] not in ("Some", "Ok", "Err", "Continue", "Break"):
            x = x[2]
        return ("o", "call", "AstNode::syntax", (x,), ())
    if k == "o" and len(t) == 5 and t[1] == "call":
        if t[2].endswith("TextRange::new") and len(t[3]) == 2 and canon(t[3][0]) == canon(t[3][1]):
            return ("o", "call", t[2][:-3] + "empty", (canon(t[3][0]),), ())
        if t[2].endswith("::index") and len(t[3]) == 2:
            r = canon(t[3][1])
            if r[0] == "a" and r[1].endswith("RangeTo") and len(r[3]) == 1:
                r = ("a", r[1][:-2], r[2][:-2], (("i", 0), r[3][0]))
                return ("o", "call", t[2], (canon(t[3][0]), r), ())
            if r[0] == "a" and r[1].endswith(("::Range", "RangeFrom")):
                return ("o", "call", t[2], (canon(t[3][0]), r), ())
    if k == "o" and len(t) > 2 and t[1] in ("bin", "slen", "cast"):
        r = arith(t)
        if r is not None:
            return r
    if k == "ref":
        return ("ref",)
    if k == "ov":
        base = canon(t[1])
        fs = tuple(sorted(((a, canon(b)) for a, b in t[2]), key=lambda x: repr(x[0])))
        if base[0] == "a" and base[1] in FTYPES and all(
                len(a) == 2 and a[0] is None and a[1] in FIELDS[base[1]] for a, _ in fs):
            new = {a[1]: b for a, b in fs}
            return ("a", base[1], base[2], tuple(new.get(n, x) for n, x in zip(FIELDS[base[1]], base[3])))
        return ("ov", base, fs)
    return tuple(canon(x) if isinstance(x, tuple) and x else x for x in t)


# enum variants that `From`/`Into` of their payload builds (foreign crates; `into` is the identity in this analysis)
WRAP = {("CompletionResponse", "List"), ("CodeActionOrCommand", "CodeAction"), ("CompletionTextEdit", "Edit"),
        ("Message", "Request"), ("Message", "Response"), ("Message", "Notification"),
        ("InlayHintLabel", "String"), ("InlayHintTooltip", "String"), ("Item", "Value"), ("NodeOrToken", "Node"),
        ("NodeOrToken", "Token")}
FIELDS = {}  # struct -> field names
FTYPES = {}  # foreign struct (by definition and by exported path) -> (definition, field types); Default is derived


def update_form(adt, fs):
    """S { a: v, ..x } as an update of x, like `x.a = v`"""
    names = FIELDS.get(adt)
    if not names or len(names) != len(fs) or len(fs) < 2:
        return None
    cnt = {}
    for n, f in zip(names, fs):
        if f[0] == "o" and len(f) == 4 and f[1] == "fld" and f[3] == n:
            cnt[f[2]] = cnt.get(f[2], 0) + 1
        elif f[0] == "o" and len(f) == 4 and f[1] == "fld":
            pass
    if not cnt:
        return None
    base = max(sorted(cnt, key=repr), key=lambda b: cnt[b])
    rest = tuple(sorted((((None, n), f) for n, f in zip(names, fs) if f != ("o", "fld", base, n)),
                        key=lambda x: repr(x[0])))
    return ("ov", base, rest) if rest else base


def linear(t):
    """{term: coefficient} of an integer term (key None: constant); t is canonical"""
    if t[0] == "i":
        return {None: t[1]}
    if t[0] == "o":
        if t[1] == "sum":
            d = dict(t[2])
            d[None] = t[3]
            return d
        if t[1] == "slen":
            x = t[2]
            if x[0] == "s":
                return {None: len(x[1].encode())}
            if x[0] == "o" and x[1] == "fmt":
                d = {}
                for y in x[2]:
                    for k, c in linear(("o", "slen", y)).items():
                        d[k] = d.get(k, 0) + c
                return d
    return {t: 1}


def lin_term(d):
    """the canonical term of a linear form"""
    c = d.pop(None, 0)
    ts = sorted(((k, v) for k, v in d.items() if v), key=repr)
    if not ts:
        return ("i", c)
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return ("o", "sum", tuple(ts), c)


INTS = ("u8", "u16", "u32", "u64", "usize", "i32", "i64", "u128")


def arith(t):
    """sums in one normal form; None if t is not one"""
    if t[1] == "bin" and t[2] in ("Add", "Sub") and len(t) == 5:
        a, b = linear(canon(t[3])), linear(canon(t[4]))
        s = 1 if t[2] == "Add" else -1
        for k, c in b.items():
            a[k] = a.get(k, 0) + s * c
        return lin_term(a)
    if t[1] == "slen" and len(t) == 3:
        x = canon(t[2])
        if x[0] == "s" or x[0] == "o" and x[1] == "fmt":
            return lin_term(linear(("o", "slen", x)))
    if t[1] == "cast" and len(t) == 4 and t[2] in ("u32", "u64", "usize", "u128"):
        x = canon(t[3])
        if x[0] == "o" and x[1] == "sum":
            d = {("o", "cast", t[2], k): c for k, c in x[2]}
            d[None] = x[3]
            return lin_term(d)
    return None


def eta(adt, variant, fs):
    """Some(x.<Some>) is x"""
    if not fs:
        return None
    base = None
    for i, f in enumerate(fs):
        if not (f[0] == "o" and len(f) == 5 and f[1] == "vf" and f[3] == variant and str(f[4]) == str(i)):
            return None
        if base is None:
            base = f[2]
        elif base != f[2]:
            return None
    return base


def path_of(e, st, ret, args):
    """(ordered atoms {key: allowed value set or ('not', set)}, outcome)"""
    atoms = {}
    for k, v in st.cons.items():
        if k[0] == "var":
            key = ("var", canon(k[1]))
            dom = e.vardom.get(k[1])
            if isinstance(v, str):
                val = frozenset([v])
            elif dom:
                val = frozenset(dom) - v
            else:
                val = ("not", frozenset(v))
        elif k[0] == "eqv":
            key = ("eqv", canon(k[1]))
            val = frozenset([canon(v[1])]) if v[0] else ("not", frozenset(canon(x) for x in v[1]))
        elif k[0] == "nonempty":
            key = ("ne", canon(k[1]))
            val = frozenset([v])
        else:
            key = ("b", canon(k))
            val = frozenset([int(bool(v))])
        if key in atoms:
            a = atoms[key]
            val = meet(a, val)
            if val is None:
                return None
        atoms[key] = val
    finals = []
    for i, a in enumerate(args):
        if a[0] == "ref":
            fv = e.lam(st, e.deep(st, a))
            fv = canon(fv)
            if not (fv[0] == "o" and fv[1] == "arg" and (fv[2] == "#%d" % (i + 1) or not str(fv[2]).startswith("#"))):
                finals.append((i, fv))
    heap = {}
    for k, v in st.heap.items():
        k, v = canon(k), canon(e.lam(st, e.deep(st, v)))
        adt = e.P.adts.get(v[1]) if v[0] == "a" and len(v) == 4 else None
        if adt is not None and len(adt["variants"]) == 1 and adt["variants"][0]["fields"]:
            for fd, x in zip(adt["variants"][0]["fields"], v[3]):
                heap.setdefault(O("fld", k, fd[0] if isinstance(fd, (list, tuple)) else fd), x)
        else:
            heap[k] = v
    heap = tuple(sorted(((repr(k), v) for k, v in heap.items() if k != v), key=lambda x: x[0]))
    eff = []
    for ev in st.events():
        if ev[0] == "call":
            n = ev[1]
            if n.startswith(EFFECT_PREFIX):
                eff.append((n, canon(tuple(ev[2]))))
            else:
                bs = e.P.by_path.get(n)
                if bs and bs[0].id in e.V.effectful():
                    eff.append((n, canon(tuple(ev[2]))))
        elif ev[0] == "icall":
            # a predicate whose answer decides the path is an input of the table, not an effect
            if ("b", canon(O("icall", ev[1], ev[2]))) not in atoms:
                eff.append(("icall", canon(ev[1]), canon(tuple(e.lam(st, x) for x in ev[2]))))
    return atoms, ("out", canon(e.lam(st, e.deep(st, ret))), tuple(finals), heap, tuple(eff))


def meet(a, b):
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        r = a & b
        return r if r else None
    if isinstance(a, frozenset):
        r = a - b[1]
        return r if r else None
    if isinstance(b, frozenset):
        r = b - a[1]
        return r if r else None
    return ("not", a[1] | b[1])


OTHER = "<other>"


def domain(e_dom, key, paths):
    vals = []
    seen = set()
    open_ = False
    for atoms, _ in paths:
        v = atoms.get(key)
        if v is None:
            continue
        xs = v if isinstance(v, frozenset) else v[1]
        if not isinstance(v, frozenset):
            open_ = True
        for x in xs:
            if x not in seen:
                seen.add(x)
                vals.append(x)
    vals.sort(key=repr)
    if key[0] == "b":
        return [0, 1]
    if key[0] == "eqv" or open_:
        vals.append(OTHER)
    return vals


def allows(v, x):
    if v is None:
        return True
    if isinstance(v, frozenset):
        return x in v
    return x not in v[1]


def rewrite(t, asg, memo):
    """a term under decided atoms"""
    if not isinstance(t, tuple) or not t:
        return t
    if t in memo:
        return memo[t]
    r = None
    if t[0] == "o":
        l = t[1]
        if l == "isvar":
            v = asg.get(("var", t[2]))
            if v is not None and v != OTHER:
                r = ("i", int(v == t[4]))
        elif l == "eq":
            v = asg.get(("eqv", t[2]))
            if v is not None:
                r = ("i", int(v == t[3])) if v != OTHER else None
            if r is None:
                v = asg.get(("b", t))
                if v is not None:
                    r = ("i", v)
        elif l == "not":
            x = rewrite(t[2], asg, memo)
            if x[0] == "i":
                r = ("i", 1 - x[1])
        if r is None:
            v = asg.get(("var", t))
            if v == "Ok" and l == "call" and t[2] in UNIT_OK:
                r = rewrite(("a", RES, "Ok", (UNIT,)), {}, {})
            elif v is not None and v != OTHER:
                r = ("V", v, t)
            if r is None:
                v = asg.get(("eqv", t))
                if v is not None and v != OTHER:
                    r = v
            if r is None:
                v = asg.get(("b", t))
                if v is not None:
                    r = ("i", v)
            if r is None and asg.get(("ne", t)) == 0:
                r = ("seq", (), None)
    elif t[0] == "a" and len(t) == 4 and t[3] == ():
        r = ("unit", t[2])
    if r is not None and r[0] == "V":
        # a decided enum term: a unit variant is the constant, a payload variant stays itself
        base = t
        rr = tuple(rewrite(x, asg, memo) if isinstance(x, tuple) else x for x in base)
        r = ("unit", r[1]) if r[1] in UNITS.get(None, ()) or is_unit(r[1], t) else rr
    if r is None and t[0] == "seq":
        es = []
        src = []
        for x in t[1]:
            src.append(x)
            if x[0] == "sp":
                n = asg.get(("ne", x[1]))
                v = asg.get(("var", x[1]))
                if n is not None and n != OTHER:
                    src[-1:] = (O("item", x[1]), O("item2", x[1]))[:n]
                    es.extend(rewrite(y, asg, memo) for y in (O("item", x[1]), O("item2", x[1]))[:n])
                    continue
                if v == "None":
                    continue
                if v == "Some":
                    es.append(rewrite(O("vf", x[1], "Some", "0"), asg, memo))
                    continue
            es.append(rewrite(x, asg, memo))
        r = ("seq", tuple(es), rewrite(t[2], asg, memo) if t[2] is not None else None)
        if len(es) == 1 and es[0][0] == "sp" and r[2] is None:
            r = es[0][1]
        elif src and r[2] is None and src[0][:2] == ("o", "item") and asg.get(("ne", src[0][2])) == len(src) and (
                len(src) == 1 or src[1:] == [O("item2", src[0][2])]):
            # all the elements of a sequence are that sequence
            r = rewrite(src[0][2], asg, memo)
    if r is None and t[0] == "ov":
        # a field overwritten with the value it is known to have is not a change
        base = rewrite(t[1], asg, memo)
        fs = []
        for (var, nm), x in t[2]:
            old = O("vf", t[1], var, nm) if var is not None else O("fld", t[1], nm)
            x = rewrite(x, asg, memo)
            if x != rewrite(old, asg, memo):
                fs.append(((var, nm), x))
        r = ("ov", base, tuple(fs)) if fs else base
    if r is None:
        r = tuple(rewrite(x, asg, memo) if isinstance(x, tuple) else x for x in t)
        if r[0] == "seq" and r[2] is not None and r[2] == ("seq", (), None):
            r = ("seq", r[1], None)
        if r[0] == "a" and r[2] == "Some" and len(r[3]) == 1 and r[3][0][:2] == ("o", "vf") and r[3][0][3] == "Some":
            r = r[3][0][2]
        if r[:2] == ("o", "fmt") and ("seq", (), None) in r[2]:
            # a text known to be empty adds nothing
            ps = []
            for x in r[2]:
                if x == ("seq", (), None):
                    continue
                if ps and ps[-1][0] == x[0] == "s":
                    ps[-1] = ("s", ps[-1][1] + x[1])
                else:
                    ps.append(x)
            r = r[:2] + (tuple(ps),) + r[3:] if len(ps) > 1 else ps[0] if ps else ("s", "")
    memo[t] = r
    return r


def rewrite_out(o, asg, memo):
    """an outcome under decided atoms; an argument overwritten with what it held is not changed"""
    r = rewrite(o, asg, memo)
    if o[0] != "out" or not o[2]:
        return r
    fin = []
    for (i, fv), nv in zip(o[2], r[2]):
        if not (fv[0] == "ov" and nv[1] == rewrite(fv[1], asg, memo)) and nv[1] != O("arg", "#%d" % (i + 1)):
            fin.append(nv)
    return r[:2] + (tuple(fin),) + r[3:]


UNIT_OK = set()  # functions returning Result<(), _>
UNITS = {}
UNIT_VARIANTS = set()


def is_unit(variant, t):
    return variant in UNIT_VARIANTS


def load_units(*Ps):
    pay = set()
    for P in Ps:
        for n, a in P.adts.items():
            if a["kind"] == "struct" and len(a["variants"]) == 1:
                fl = a["variants"][0]["fields"]
                if n.startswith("lsp_types::") and fl and all(
                        isinstance(f, (list, tuple)) and not f[0].isdigit() for f in fl):
                    FTYPES[n] = FTYPES["lsp_types::" + n.rsplit("::", 1)[-1]] = (n, [f[1] for f in fl])
                FIELDS[n] = [f[0] if isinstance(f, (list, tuple)) else f for f in a["variants"][0]["fields"]]
        for a in P.adts.values():
            for v in a["variants"]:
                if v["fields"]:
                    pay.add(v["name"])
                else:
                    UNIT_VARIANTS.add(v["name"])
    UNIT_VARIANTS.add("None")
    for x in pay:
        UNIT_VARIANTS.discard(x)
    UNIT_VARIANTS.add("None")


def subterms(t, out):
    if isinstance(t, tuple) and t and t not in out:
        out.add(t)
        for x in t:
            if isinstance(x, tuple) and x:
                subterms(x, out)


def bits(ix, n):
    ba = bytearray(n // 8 + 1)
    for i in ix:
        ba[i >> 3] |= 1 << (i & 7)
    return int.from_bytes(ba, "little")


class Masks:
    """a decision table as bit sets: which paths a value of an atom leaves possible"""

    def __init__(self, paths, keys, doms):
        n = len(paths)
        self.all = (1 << n) - 1
        kid = {k: i for i, k in enumerate(keys)}
        cons = {}
        outs = {}
        self.out = [p[1] for p in paths]
        self.korder = []
        for i, (atoms, o) in enumerate(paths):
            self.korder.append([kid[k] for k in atoms])
            for k, v in atoms.items():
                cons.setdefault(kid[k], {}).setdefault(v, []).append(i)
            outs.setdefault(o, []).append(i)
        self.allow = {}
        self.bound = {}
        for j, groups in cons.items():
            groups = {v: bits(ix, n) for v, ix in groups.items()}
            bound = 0
            for m in groups.values():
                bound |= m
            free = self.all & ~bound
            self.bound[j] = bound
            d = {}
            for x in doms[keys[j]]:
                m = free
                for v, g in groups.items():
                    if allows(v, x):
                        m |= g
                d[x] = m
            self.allow[j] = d
        self.om = {o: bits(ix, n) for o, ix in outs.items()}
        self.cache = {}
        self.rel = {}

    def restrict(self, ix, j, v):
        d = self.allow.get(j)
        return ix & d[v] if d is not None else ix

    def first(self, ix, todo):
        """the first open atom, in decision order, of the first path that has one"""
        while True:
            low = ix & -ix
            for j in self.korder[low.bit_length() - 1]:
                if todo >> j & 1:
                    return j
            ix ^= low

    def single(self, ix):
        """the only outcome of a set of paths, or None"""
        if not ix:
            return None
        o = self.out[(ix & -ix).bit_length() - 1]
        return o if not ix & ~self.om[o] else None

    def outs(self, ix):
        r = []
        while ix:
            o = self.out[(ix & -ix).bit_length() - 1]
            r.append(o)
            ix &= ~self.om[o]
        return r

    def info(self, ix, relof):
        """(atoms the paths constrain, atoms their outcomes mention)"""
        r = self.cache.get(ix)
        if r is None:
            m = rel = 0
            for j, bd in self.bound.items():
                if ix & bd:
                    m |= 1 << j
            for o in self.outs(ix):
                if o not in self.rel:
                    self.rel[o] = relof(o)
                rel |= self.rel[o]
            r = self.cache[ix] = (m, rel)
        return r


def relevance(keys):
    """outcome -> bit set of the atoms a rewrite of it may consult"""
    roots = {}
    for i, k in enumerate(keys):
        t = k[1]
        while True:
            roots.setdefault(t, 0)
            roots[t] |= 1 << i
            if isinstance(t, tuple) and len(t) > 2 and t[0] == "o" and t[1] in ("item", "item2", "vf"):
                t = t[2]
            else:
                break

    def f(o):
        st = set()
        subterms(o, st)
        m = 0
        for t in st:
            m |= roots.get(t, 0)
        return m

    return f


def boolify(A, B):
    """a term tested both as a truth value and by equality with 0/1 is one boolean: use one atom for it"""
    bs = {k[1] for p in A + B for k in p[0] if k[0] == "b"}
    bs = {k[1] for p in A + B for k in p[0] if k[0] == "eqv" and k[1] in bs}
    if not bs:
        return A, B

    def conv(ps):
        out = []
        for atoms, o in ps:
            na, bad = {}, False
            for k, v in atoms.items():
                if k[0] == "eqv" and k[1] in bs:
                    if isinstance(v, frozenset):
                        v = frozenset(x[1] for x in v if x[0] == "i")
                    else:
                        v = frozenset([0, 1]) - {x[1] for x in v[1] if x[0] == "i"}
                    k = ("b", k[1])
                if k in na:
                    v = meet(na[k], v)
                if not v:
                    bad = True
                    break
                na[k] = v
            if not bad:
                out.append((na, o))
        return out

    return conv(A), conv(B)


class Differ:
    def __init__(self, A, B, budget=400000, cut=(0, 0)):
        A, B = boolify(A, B)
        self.cut = cut
        self.memo = {}
        self.budget = budget
        ks = {}
        for p in A + B:
            for k in p[0]:
                ks.setdefault(k, None)
        self.keys = list(ks)
        self.doms = {k: domain(None, k, A + B) for k in self.keys}
        self.relof = relevance(self.keys)
        self.A, self.B = Masks(A, self.keys, self.doms), Masks(B, self.keys, self.doms)

    def run(self):
        """None when equal, else (assignment, outcomes A, outcomes B)"""
        return self.cmp(self.A.all, self.B.all, {}, 0)

    def cmp(self, ia, ib, asg, done):
        oa = self.A.single(ia)
        if oa is not None and oa == self.B.single(ib):
            return None
        if not ia and (not ib or self.cut[0]) or not ib and self.cut[1]:
            return None  # beyond the loop bound on one side
        self.budget -= 1
        if self.budget < 0:
            raise Limit("comparison budget")
        if not self.budget & 63:
            check_time()
        ma, ra = self.A.info(ia, self.relof)
        mb, rb = self.B.info(ib, self.relof)
        todo = (ma | mb) & ~done
        rel = (ra | rb) & done
        x, vals = rel, []
        while x:
            low = x & -x
            vals.append(asg[self.keys[low.bit_length() - 1]])
            x ^= low
        mk = (ia, ib, todo, rel, tuple(vals))
        if mk in self.memo:
            return None
        j = None
        if ma & todo:
            j = self.A.first(ia, todo)
        elif mb & todo:
            j = self.B.first(ib, todo)
        if j is None:
            m = {}
            outs, outb = set(self.A.outs(ia)), set(self.B.outs(ib))
            if outs == outb or {rewrite_out(o, asg, m) for o in outs} == {rewrite_out(o, asg, m) for o in outb}:
                self.memo[mk] = 1
                return None
            return asg, outs, outb
        key = self.keys[j]
        for v in self.doms[key]:
            xa = self.A.restrict(ia, j, v)
            xb = self.B.restrict(ib, j, v)
            if not xa and not xb:
                continue
            a2 = dict(asg)
            a2[key] = v
            r = self.cmp(xa, xb, a2, done | 1 << j)
            if r is not None:
                return r
        self.memo[mk] = 1
        return None


def mdd_digest(e, paths):
    """canonical digest of a decision table"""
    paths = [p for p in paths if p is not None]
    keys = sorted({k for p in paths for k in p[0]}, key=repr)
    doms = {k: domain(None, k, paths) for k in keys}
    M = Masks(paths, keys, doms)
    relof = relevance(keys)
    memo = {}
    budget = [40000]

    def build(ix, asg, done):
        if not ix:
            return "⊥"
        m, rel = M.info(ix, relof)
        todo = m & ~done
        rel &= done
        x, vals = rel, []
        while x:
            low = x & -x
            vals.append(asg[keys[low.bit_length() - 1]])
            x ^= low
        mk = (ix, todo, rel, tuple(vals))
        if mk in memo:
            return memo[mk]
        budget[0] -= 1
        if budget[0] < 0:
            raise Limit("closure table")
        if not budget[0] & 63:
            check_time()
        if not todo:
            mm = {}
            r = h(tuple(sorted(repr(rewrite_out(o, asg, mm)) for o in M.outs(ix))))
        else:
            j = (todo & -todo).bit_length() - 1
            k = keys[j]
            ch = []
            for v in doms[k]:
                a2 = dict(asg)
                a2[k] = v
                ch.append((repr(v), build(M.restrict(ix, j, v), a2, done | 1 << j)))
            if len({c for _, c in ch}) == 1:
                r = ch[0][1]
            else:
                dflt = dict(ch).get(repr(OTHER))
                if dflt is not None:
                    ch = [(v, c) for v, c in ch if c != dflt or v == repr(OTHER)]
                r = h((repr(k), tuple(ch)))
        memo[mk] = r
        return r

    return build(M.all, {}, 0)


def h(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:20]


PATHS = 40000


def table(V, body, inline, nrep, memo, max_paths=None, lazy=0, strict=False):
    max_paths = max_paths or PATHS
    if nrep > 1:
        max_paths = max_paths // 4
    e = DEngine(V, inline, nrep, max_paths, memo, 0, lazy, strict)
    if nrep > 1:
        e.max_steps //= 3
    if lazy == 3:
        e.loop_visits = 16
        e.max_paths = max_paths = 3000
    st = absint.State()
    args = [e.arg_value(st, body, i) for i in range(1, body.nargs + 1)]
    out = []
    for s, v in e.run_body(st, body, args, (), 0, ()):
        out.append((s, v))
        if len(out) > max_paths:
            raise Limit("paths")
    ps = [path_of(e, s, v, args) for s, v in out]
    return [p for p in ps if p is not None], e


TIME = {(1, 0): 90, (2, 0): 45, (1, 1): 45, (1, 2): 45, (1, 3): 20, "sample": 110}


def thorough():
    """larger limits on paths and time (the same rules)"""
    global PATHS
    PATHS *= 4
    for k in TIME:
        TIME[k] *= 4


class Conform:
    """compares the current program with the confirmed reference"""

    def __init__(self, ref, cur):
        self.R, self.C = View(ref), View(cur)
        load_units(ref, cur)
        self.common = set()
        for k, b in self.R.fns.items():
            c = self.C.fns.get(k)
            if c is not None and self.R.sig(b) == self.C.sig(c):
                self.common.add(k)
        self.changed = sorted(k for k in self.common if self.R.digest(self.R.fns[k]) != self.C.digest(self.C.fns[k]))
        self.removed = sorted(set(self.R.fns) - self.common)
        self.added = sorted(set(self.C.fns) - self.common)
        self.stats = {"functions in reference": len(self.R.fns), "functions in current tree": len(self.C.fns),
                      "identical modulo spans": len(self.common) - len(self.changed), "changed": len(self.changed),
                      "removed or re-signed": len(self.removed), "added or re-signed": len(self.added)}
        self.memoR, self.memoC = {}, {}
        self.cache = {}
        self.times = {}
        self.deadline = 0
        self.cuts = 0
        self.sampled = set()

    def inl(self, view, extra):
        rid = {view.fns[k].id for k in (self.removed if view is self.R else self.added) if k in view.fns}
        eid = {view.fns[k].id for k in extra if k in view.fns}

        def f(body):
            return body.kind == "closure" or body.id in rid or body.id in eid

        return f

    def diff(self, key, extra, mode, strict, lamrep=False):
        nrep, lazy = mode
        mr = self.memoR.setdefault((extra, strict, lamrep), {})
        mc = self.memoC.setdefault((extra, strict, lamrep), {})
        if lamrep:
            mr["lamrep"] = mc["lamrep"] = True
        mr.pop("big", None), mc.pop("big", None)
        A, ea = table(self.R, self.R.fns[key], self.inl(self.R, extra), nrep, mr, lazy=lazy, strict=strict)
        B, eb = table(self.C, self.C.fns[key], self.inl(self.C, extra), nrep, mc, lazy=lazy, strict=strict)
        self.cuts = max(ea.cuts, eb.cuts)
        return Differ(A, B, cut=(ea.cuts, eb.cuts)).run()

    def compare(self, key, extra=frozenset()):
        """None if conformant, else a report"""
        ck = (key, extra)
        if ck in self.cache:
            return self.cache[ck]
        rb, cb = self.R.fns[key], self.C.fns[key]
        res = None
        for mode in ((1, 0), (2, 0), (1, 3)):
            if mode == (1, 3) and not (res is None and self.cuts):
                continue
            try:
                with within(min(TIME[mode], 40) if extra else TIME[mode]):
                    d = self.diff(key, extra, mode, False)
                    if d is not None and mode == (2, 0) and (self.memoR[extra, False, False].get("big")
                                                             or self.memoC[extra, False, False].get("big")):
                        # the table of a closure is too large for two turns of its loops: take one
                        d = self.diff(key, extra, mode, False, True)
            except Limit as ex:
                if mode == (1, 3):
                    continue
                if extra and mode == (1, 0):
                    res = {"kind": "limit", "text": str(ex)}
                    break
                # too many abstract paths: explore a fixed subset of them
                self.sampled.add(key)
                s = self.sample(key, extra)
                d = s.run()
                if d is None and mode == (1, 0) and s.done < 3 * s.skipped:
                    res = {"kind": "limit", "text": str(ex)}
                if d is None:
                    break
            if d is not None:
                res = {"kind": "differs", "nrep": mode[0], "mode": mode, "asg": d[0], "ref": d[1], "cur": d[2]}
                break
        if res is not None and res["kind"] == "limit" and not extra:
            res = self.lazy(key, rb, cb)
        self.cache[ck] = res
        return res

    def sample(self, key, extra):
        import sampler
        return sampler.Sampler(self, key, extra, 2, 6000, TIME["sample"])

    def lazy(self, key, rb, cb):
        """neither enumerable nor explorable: compare with closures left opaque, else compare what is mentioned"""
        for mode in ((1, 1), (1, 2)):
            try:
                with within(TIME[mode]):
                    d = self.diff(key, frozenset(), mode, False)
            except Limit:
                continue
            if d is None:
                return None
            return {"kind": "differs", "nrep": 1, "mode": mode, "asg": d[0], "ref": d[1], "cur": d[2]}
        return self.coarse(rb, cb)

    def coarse(self, rb, cb):
        """decision table too large: compare what the function mentions"""
        a, b = mentions(self.R, rb, self.inl(self.R, frozenset())), mentions(self.C, cb, self.inl(self.C, frozenset()))
        if a == b:
            return None
        return {"kind": "mentions", "gone": sorted(a - b)[:12], "new": sorted(b - a)[:12]}

    def absorbed(self, key, extra, depth, res):
        """a differing function is harmless if every caller, with it inlined, still conforms"""
        rid, cid = self.R.fns[key].id, self.C.fns[key].id
        callers = {self.R.keyof.get(x) for x in self.R.callers().get(rid, ())} | {
            self.C.keyof.get(x) for x in self.C.callers().get(cid, ())}
        callers.discard(None)
        # look through helpers that exist on one side only
        work, seen = list(callers), set()
        real = set()
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            if c in self.common:
                real.add(c)
                continue
            for v in (self.R, self.C):
                if c in v.fns:
                    for x in v.callers().get(v.fns[c].id, ()):
                        work.append(v.keyof.get(x))
        real.discard(None)
        if res["kind"] != "differs" or not real or depth > 2 or len(real) > 12:
            return False
        ex = extra | {key}
        for c in sorted(real, key=lambda c: (c not in self.changed, c)):
            if depth == 0:
                self.deadline = time.time() + 60
            if time.time() > self.deadline:
                return False
            try:
                with within(max(1, self.deadline - time.time())):
                    d = self.diff(c, ex, res["mode"], True)
            except Limit:
                return False
            if d is not None and not self.absorbed(c, ex, depth + 1, res):
                return False
        return True

    def called(self, view, key, extra):
        """(function, number of mentions) of the workspace functions `key` calls, seen through what is inlined"""
        inl = self.inl(view, extra)
        cnt = {}
        work, seen = [view.fns[key].id], set()
        while work:
            x = work.pop()
            b = view.P.bodies.get(x)
            if b is None or x in seen:
                continue
            seen.add(x)
            for y, _ in view.P.edges_cached(b):
                yb = view.P.bodies.get(y)
                if yb is None:
                    continue
                if yb.kind in ("closure", "promoted") or inl(yb):
                    work.append(y)
                elif yb.id in view.keyof and view.keyof[yb.id] in self.common:
                    cnt[view.keyof[yb.id]] = cnt.get(view.keyof[yb.id], 0) + 1
        cnt.pop(key, None)
        return cnt

    def unfold(self, key, res):
        """the two versions call different helpers that exist on both sides: compare with those inlined"""
        extra = frozenset()
        end = time.time() + 60
        for _ in range(3):
            a, b = self.called(self.R, key, extra), self.called(self.C, key, extra)
            new = frozenset(x for x in set(a) ^ set(b) if len(self.R.fns[x].blocks) <= 80)
            if len(extra | new) > 6:
                # the implementations a generic call may reach are not helpers
                new = frozenset(x for x in new if not x[1].startswith("<"))
            if not new or len(extra | new) > 6 or time.time() > end:
                return False
            # one version calls a wrapper of what the other calls: seeing through one side suffices
            for part in (new - set(a), new - set(b)):
                if part and part != new and time.time() < end and self.compare(key, extra | part) is None:
                    return True
            extra |= new
            r = self.compare(key, extra)
            if r is None:
                return True
        return False

    def one(self, k):
        t0 = time.time()
        r = self.compare(k)
        t1 = time.time()
        if r is not None and self.unfold(k, r):
            r = None
        if r is not None and self.absorbed(k, frozenset(), 0, r):
            r = None
        return k, (None if r is None else {"kind": r["kind"], "nrep": r.get("nrep"), "text": describe(r)}), round(
            t1 - t0, 2), round(time.time() - t1, 2)

    def report(self, keys):
        """list of (key, result) for functions in `keys` that do not conform"""
        global CURRENT
        work = [k for k in self.changed if k in keys]
        CURRENT = self
        if len(work) > 1:
            self.R.callers(), self.C.callers(), self.R.effectful(), self.C.effectful()
            import multiprocessing
            with multiprocessing.get_context("fork").Pool(min(8, len(work))) as pool:
                res = pool.map(_one, work, chunksize=1)
        else:
            res = [self.one(k) for k in work]
        for k, r, a, b in res:
            self.times[k] = (a, b)
        return [(k, r) for k, r, _, _ in res if r is not None]


CURRENT = None


def _one(k):
    return CURRENT.one(k)


def mentions(V, b, inline):
    out = set()
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        for blk in V.P.all_blocks(x):
            if blk["c"]:
                continue
            t = blk["t"]
            if t["t"] == "call":
                f = t["f"].get("f")
                if f:
                    n = f["r"][1] if "r" in f else f["fn"]
                    bs = V.P.callees(f)
                    inlined = False
                    for i in bs:
                        y = V.P.bodies[i]
                        if inline(y):
                            st.append(y)
                            inlined = True
                    if not inlined and not n.startswith(("core::", "alloc::", "std::")):
                        out.add("call " + n)
            for s in blk["s"]:
                v = s["v"]
                if v["r"] == "agg" and v["agg"] == "closure":
                    c = V.P.bodies.get(v["closure"])
                    if c is not None:
                        st.append(c)
                if v["r"] == "agg" and v["agg"] == "adt" and not v["adt"].startswith(("core::", "alloc::", "std::")):
                    out.add("make %s::%s" % (v["adt"], v["variant"]))
            consts(blk, out)
        for c in V.kids.get(x.id, ()):
            st.append(c)
    return out


def consts(x, out):
    if isinstance(x, dict):
        if x.get("k") == "c" and "v" in x and isinstance(x["v"], dict):
            v = x["v"]
            if "str" in v and isinstance(v["str"], str):
                out.add("const %r" % v["str"][:80])
            elif "ref" in v and isinstance(v["ref"], dict) and "str" in v["ref"]:
                out.add("const %r" % str(v["ref"]["str"])[:80])
        for k, v in x.items():
            if k != "l":
                consts(v, out)
    elif isinstance(x, list):
        for v in x:
            consts(v, out)


def describe(r):
    from absint import pretty
    if r["kind"] == "mentions":
        return "no longer mentions %s; newly mentions %s" % (r["gone"] or "-", r["new"] or "-")
    if r["kind"] != "differs":
        return r.get("text", "")
    out = ["under:"]
    for k, v in r["asg"].items():
        out.append("  %s %s -> %s" % ({"var": "variant of", "eqv": "value of", "ne": "elements of", "b": "truth of"}[k[0]],
                                      pretty(k[1])[:300], v if not isinstance(v, tuple) else pretty(v)))
    for nm, k in (("confirmed outcome", "ref"), ("current outcome", "cur")):
        out.append("%s:" % nm)
        for o in r[k]:
            out.append("  returns %s" % pretty(o[1])[:1500])
            for i, f in o[2]:
                out.append("  final value of argument %d: %s" % (i, pretty(f)[:1500]))
            for f in o[3]:
                out.append("  writes %s := %s" % (f[0][:200], pretty(f[1])[:400]))
            for f in o[4]:
                out.append("  effect %s" % pretty(f)[:400])
        if not r[k]:
            out.append("  (does not return normally)")
    return "\n".join(out)
