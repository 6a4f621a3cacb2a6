"""Abstract transfer functions for the standard library (and a few container types) used by absint.Engine.

References are transparent: a model reads through `ref` values.  Sequences are finite lists of representative elements
(`seq`); an opaque collection has at most one representative element `item(c)`.
"""
from absint import CF, FALSE, NONE, O, OPT, RES, TRUE, UNIT, decode_fmt, err, ok, some

MODELS = {}
PREFIX_MODELS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def each(gen):
    return gen


# ---- identity-like ----------------------------------------------------------------------------------------------
IDENT = """
core::clone::Clone::clone alloc::borrow::ToOwned::to_owned alloc::string::ToString::to_string
core::convert::AsRef::as_ref core::convert::AsMut::as_mut core::borrow::Borrow::borrow core::ops::deref::Deref::deref
core::ops::deref::DerefMut::deref_mut core::convert::Into::into core::convert::From::from
alloc::string::String::as_str str::as_str core::str::as_str core::hint::must_use core::convert::identity
core::option::Option::as_ref core::option::Option::as_mut core::option::Option::as_deref
core::option::Option::as_deref_mut core::option::Option::cloned core::option::Option::copied
core::result::Result::as_ref core::result::Result::as_deref core::result::Result::as_mut
alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice alloc::boxed::Box::new alloc::slice::into_vec
core::iter::traits::iterator::Iterator::by_ref core::iter::traits::iterator::Iterator::cloned
core::iter::traits::iterator::Iterator::copied core::iter::traits::iterator::Iterator::fuse
core::iter::traits::iterator::Iterator::peekable alloc::slice::SliceExt::to_vec alloc::slice::to_vec
core::mem::drop core::fmt::rt::Argument::new_display core::fmt::rt::Argument::new_debug
alloc::string::String::into_boxed_str core::str::to_string alloc::str::to_owned core::str::as_ref
alloc::string::String::from core::cmp::Reverse core::pin::Pin::new alloc::rc::Rc::new alloc::sync::Arc::new
alloc::borrow::Cow::into_owned std::path::PathBuf::as_path alloc::boxed::box_assume_init_into_vec_unsafe
core::str::as_bytes alloc::string::String::as_bytes core::array::as_slice core::slice::as_ref
core::mem::maybe_uninit::MaybeUninit::assume_init alloc::string::String::into_bytes
url::Url::as_str alloc::string::String::as_mut_str core::str::as_mut core::option::Option::as_slice
alloc::string::String::leak alloc::borrow::Cow::to_mut alloc::boxed::Box::leak
""".split()


def ident(e, st, f, args, muts, fr, site):
    name = f.rcanon or f.canon
    a = args[0]
    if f.canon == "core::convert::Into::into" and len(f.args) >= 2:
        # resolve to a workspace From impl, if there is one
        for im in e.P.impls:
            if im["trait"] == "core::convert::From" and im["self_ty"].endswith(_short(f.args[1])):
                for ti, ii in im["items"]:
                    b = e.P.bodies.get(ii)
                    if b is not None and _short(b.locals[1]) == _short(f.args[0]):
                        if (e.inline is None or e.inline(b)) and (fr is None or fr.depth < e.max_depth):
                            return e.run_body(st, b, args, (), fr.depth + 1 if fr else 0, fr.chain if fr else ())
    if f.canon in ("core::convert::From::from", "core::convert::Into::into"):
        dst, src = (f.args[0], f.args[1:2]) if f.canon.endswith("from") else (f.args[-1] if f.args else "", f.args[:1])
        if dst.endswith("serde_json::Value") and src and src[0] in ("std::string::String", "&str"):
            return [(st, ("a", "serde_json::value::Value", "String", (a,)))]
    if f.canon in ("core::convert::From::from", "core::convert::Into::into") and a[0] == "ref":
        a = e.deep1(st, a)
    # by-value conversions of a reference to a cell: snapshot the value
    if a[0] == "ref" and f.canon in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned",
                                     "alloc::string::ToString::to_string", "core::option::Option::cloned",
                                     "core::option::Option::copied"):
        a = e.deep(st, a)
    return [(st, a)]


def _short(t):
    return t.replace("dispatch::", "").split("<")[0].rsplit("::", 1)[-1]


for n in IDENT:
    MODELS[n] = ident


# ---- Option / Result ---------------------------------------------------------------------------------------------
def opt(e, st, v):
    return e.split_opt(st, v)


def call(e, st, c, args, fr, site):
    return e.call_value(st, c, args, [False] * len(args), fr, site)


@model("core::option::Option::is_some")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    if v[0] == "a":
        return [(st, TRUE if v[2] == "Some" else FALSE)]
    return [(st, O("isvar", e.deep(st, v), OPT, "Some"))]


@model("core::option::Option::is_none")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    if v[0] == "a":
        return [(st, FALSE if v[2] == "Some" else TRUE)]
    return [(st, e.neg(O("isvar", e.deep(st, v), OPT, "Some")))]


@model("core::result::Result::is_ok")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    if v[0] == "a":
        return [(st, TRUE if v[2] == "Ok" else FALSE)]
    return [(st, O("isvar", e.deep(st, v), RES, "Ok"))]


@model("core::result::Result::is_err")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    if v[0] == "a":
        return [(st, TRUE if v[2] == "Err" else FALSE)]
    return [(st, e.neg(O("isvar", e.deep(st, v), RES, "Ok")))]


def gen_opt(some_fn, none_fn):
    def m(e, st, f, args, muts, fr, site):
        for s, p in opt(e, st, args[0]):
            if p is not None:
                yield from some_fn(e, s, p[0], args, fr, site)
            else:
                yield from none_fn(e, s, args, fr, site)

    return m


def k_none(e, s, args, fr, site):
    yield s, NONE


def wrap_some(gen):
    for s, v in gen:
        yield s, some(v)


MODELS["core::option::Option::map"] = gen_opt(
    lambda e, s, p, a, fr, site: wrap_some(call(e, s, a[1], [p], fr, site)), k_none)
MODELS["core::option::Option::and_then"] = gen_opt(
    lambda e, s, p, a, fr, site: call(e, s, a[1], [p], fr, site), k_none)
MODELS["core::option::Option::inspect"] = gen_opt(
    lambda e, s, p, a, fr, site: ((s2, some(p)) for s2, _ in call(e, s, a[1], [p], fr, site)), k_none)
MODELS["core::option::Option::is_some_and"] = gen_opt(
    lambda e, s, p, a, fr, site: call(e, s, a[1], [p], fr, site), lambda e, s, a, fr, site: [(s, FALSE)])
MODELS["core::option::Option::is_none_or"] = gen_opt(
    lambda e, s, p, a, fr, site: call(e, s, a[1], [p], fr, site), lambda e, s, a, fr, site: [(s, TRUE)])
MODELS["core::option::Option::unwrap_or"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, p)], lambda e, s, a, fr, site: [(s, a[1])])
MODELS["core::option::Option::unwrap_or_else"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, p)], lambda e, s, a, fr, site: call(e, s, a[1], [], fr, site))
def default_of(t):
    t = t.strip()
    while t.startswith("&") and not t.startswith(("&[", "&str")):
        t = t[1:].lstrip()
    if t.startswith(("std::vec::Vec", "std::collections", "&[")):
        return seq([], "vec")
    if t.startswith(("std::option::Option", "core::option::Option")):
        return NONE
    if t in ("bool", "u8", "u16", "u32", "usize", "i32", "u64", "i64", "u128"):
        return ("i", 0)
    if t in ("std::string::String", "&str", "str"):
        return ("s", "")
    if t == "()":
        return UNIT
    return O("default", t) if t else O("default")


def _unwrap_or_default(e, st, f, args, muts, fr, site):
    for s, p in opt(e, st, args[0]):
        yield s, p[0] if p is not None else default_of(f.args[0] if f.args else "")


MODELS["core::option::Option::unwrap_or_default"] = _unwrap_or_default
MODELS["core::option::Option::map_or"] = gen_opt(
    lambda e, s, p, a, fr, site: call(e, s, a[2], [p], fr, site), lambda e, s, a, fr, site: [(s, a[1])])
MODELS["core::option::Option::map_or_else"] = gen_opt(
    lambda e, s, p, a, fr, site: call(e, s, a[2], [p], fr, site),
    lambda e, s, a, fr, site: call(e, s, a[1], [], fr, site))
MODELS["core::option::Option::ok_or"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, ok(p))], lambda e, s, a, fr, site: [(s, err(a[1]))])
MODELS["core::option::Option::ok_or_else"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, ok(p))],
    lambda e, s, a, fr, site: ((s2, err(v)) for s2, v in call(e, s, a[1], [], fr, site)))
MODELS["core::option::Option::or"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, some(p))], lambda e, s, a, fr, site: [(s, a[1])])
MODELS["core::option::Option::or_else"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, some(p))], lambda e, s, a, fr, site: call(e, s, a[1], [], fr, site))
MODELS["core::option::Option::and"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, a[1])], k_none)
MODELS["core::option::Option::flatten"] = gen_opt(
    lambda e, s, p, a, fr, site: [(s, p)], k_none)


@model("core::option::Option::xor")
def _(e, st, f, args, muts, fr, site):
    for s, p in opt(e, st, args[0]):
        for s2, q in opt(e, s, args[1]):
            if p and not q:
                yield s2, some(p[0])
            elif q and not p:
                yield s2, some(q[0])
            else:
                yield s2, NONE


def _unwrap_some(e, st, f, args, muts, fr, site):
    for s, p in opt(e, st, args[0]):
        if p is not None:
            yield s, p[0]
        else:
            s.event(("panic", f.canon, site))


MODELS["core::option::Option::unwrap"] = _unwrap_some
MODELS["core::option::Option::expect"] = _unwrap_some


@model("core::option::Option::filter")
def _(e, st, f, args, muts, fr, site):
    for s, p in opt(e, st, args[0]):
        if p is None:
            yield s, NONE
            continue
        for s2, b in call(e, s, args[1], [p[0]], fr, site):
            for s3, t in e.split_bool(s2, b):
                yield s3, some(p[0]) if t else NONE


@model("core::option::Option::zip")
def _(e, st, f, args, muts, fr, site):
    for s, p in opt(e, st, args[0]):
        if p is None:
            yield s, NONE
            continue
        for s2, q in opt(e, s, args[1]):
            yield s2, some(("t", (p[0], q[0]))) if q is not None else NONE


@model("core::option::Option::take")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    v = e.deep1(st, a)
    if a[0] == "ref":
        c, p = a[1], a[2]
        # follow reference chains
        while True:
            x = e.read(st, c, p)
            if x[0] == "ref":
                c, p = x[1], x[2]
            else:
                break
        e.write(st, c, p, NONE)
    elif a[0] == "o":
        st.heap[a] = NONE
    return [(st, v)]


@model("core::option::Option::replace", "core::mem::replace")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    v = e.deep1(st, a)
    if a[0] == "ref":
        e.write(st, a[1], a[2], some(args[1]) if "Option::replace" in f.canon else args[1])
    else:
        st.event(("write", a, None, e.deep(st, args[1]), site[0], site[1]))
        st.heap[a] = args[1]
    return [(st, v)]


@model("core::option::Option::insert", "core::option::Option::get_or_insert")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    if a[0] == "ref":
        e.write(st, a[1], a[2], some(args[1]))
        return [(st, e.payload(st, a, "Some"))]
    return None


@model("core::mem::take")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    v = e.deep1(st, a)
    st.event(("call", "core::mem::take", (e.deep(st, v),), v, site, f.args))
    if a[0] == "ref":
        e.write(st, a[1], a[2], O("default", f.args[0] if f.args else ""))
    else:
        st.heap[a] = O("default", f.args[0] if f.args else "")
    return [(st, v)]


@model("core::mem::swap")
def _(e, st, f, args, muts, fr, site):
    a, b = args
    va, vb = e.deep1(st, a), e.deep1(st, b)
    if a[0] == "ref":
        e.write(st, a[1], a[2], vb)
    if b[0] == "ref":
        e.write(st, b[1], b[2], va)
    return [(st, UNIT)]


@model("core::option::Option::iter", "core::option::Option::into_iter")
def _(e, st, f, args, muts, fr, site):
    for s, p in opt(e, st, args[0]):
        yield s, ("seq", "iter", (p[0],) if p is not None else (), None)


# Result
def gen_res(ok_fn, err_fn):
    def m(e, st, f, args, muts, fr, site):
        for s, n, p in e.split_res(st, args[0]):
            if n == "Ok":
                yield from ok_fn(e, s, p, args, fr, site)
            else:
                yield from err_fn(e, s, p, args, fr, site)

    return m


MODELS["core::result::Result::map"] = gen_res(
    lambda e, s, p, a, fr, site: ((s2, ok(v)) for s2, v in call(e, s, a[1], [p], fr, site)),
    lambda e, s, p, a, fr, site: [(s, err(p))])
MODELS["core::result::Result::map_err"] = gen_res(
    lambda e, s, p, a, fr, site: [(s, ok(p))],
    lambda e, s, p, a, fr, site: ((s2, err(v)) for s2, v in call(e, s, a[1], [p], fr, site)))
MODELS["core::result::Result::and_then"] = gen_res(
    lambda e, s, p, a, fr, site: call(e, s, a[1], [p], fr, site), lambda e, s, p, a, fr, site: [(s, err(p))])
MODELS["core::result::Result::or_else"] = gen_res(
    lambda e, s, p, a, fr, site: [(s, ok(p))], lambda e, s, p, a, fr, site: call(e, s, a[1], [p], fr, site))
MODELS["core::result::Result::ok"] = gen_res(
    lambda e, s, p, a, fr, site: [(s, some(p))], lambda e, s, p, a, fr, site: [(s, NONE)])
MODELS["core::result::Result::err"] = gen_res(
    lambda e, s, p, a, fr, site: [(s, NONE)], lambda e, s, p, a, fr, site: [(s, some(p))])
MODELS["core::result::Result::unwrap_or"] = gen_res(
    lambda e, s, p, a, fr, site: [(s, p)], lambda e, s, p, a, fr, site: [(s, a[1])])
MODELS["core::result::Result::unwrap_or_else"] = gen_res(
    lambda e, s, p, a, fr, site: [(s, p)], lambda e, s, p, a, fr, site: call(e, s, a[1], [p], fr, site))
MODELS["core::result::Result::unwrap_or_default"] = gen_res(
    lambda e, s, p, a, fr, site: [(s, p)], lambda e, s, p, a, fr, site: [(s, O("default"))])
MODELS["core::result::Result::is_ok_and"] = gen_res(
    lambda e, s, p, a, fr, site: call(e, s, a[1], [p], fr, site), lambda e, s, p, a, fr, site: [(s, FALSE)])
MODELS["core::result::Result::map_or"] = gen_res(
    lambda e, s, p, a, fr, site: call(e, s, a[2], [p], fr, site), lambda e, s, p, a, fr, site: [(s, a[1])])


def _unwrap_ok(e, st, f, args, muts, fr, site):
    for s, n, p in e.split_res(st, args[0]):
        if n == "Ok":
            yield s, p
        else:
            s.event(("panic", f.canon, site))


MODELS["core::result::Result::unwrap"] = _unwrap_ok
MODELS["core::result::Result::expect"] = _unwrap_ok


@model("core::ops::try_trait::Try::branch")
def _(e, st, f, args, muts, fr, site):
    ty = f.args[0] if f.args else ""
    if ty.startswith(("std::option::Option", "core::option::Option")):
        for s, p in opt(e, st, args[0]):
            yield s, ("a", CF, "Continue", (p[0],)) if p is not None else ("a", CF, "Break", (NONE,))
    else:
        for s, n, p in e.split_res(st, args[0]):
            yield s, ("a", CF, "Continue", (p,)) if n == "Ok" else ("a", CF, "Break", (err(p),))


@model("core::ops::try_trait::FromResidual::from_residual")
def _(e, st, f, args, muts, fr, site):
    return [(st, args[0])]


# bool
@model("core::bool::then", "bool::then")
def _(e, st, f, args, muts, fr, site):
    for s, b in e.split_bool(st, args[0]):
        if b:
            for s2, v in call(e, s, args[1], [], fr, site):
                yield s2, some(v)
        else:
            yield s, NONE


@model("core::bool::then_some", "bool::then_some")
def _(e, st, f, args, muts, fr, site):
    for s, b in e.split_bool(st, args[0]):
        yield s, some(args[1]) if b else NONE


# ---- equality / ordering -----------------------------------------------------------------------------------------
@model("core::cmp::PartialEq::eq")
def _(e, st, f, args, muts, fr, site):
    if e.exact:
        return eq_cases(e, st, args[0], args[1])
    return [(st, e.eq(st, args[0], args[1]))]


def eq_cases(e, st, a, b):
    """equality with a known constructor is decided by cases (variant, then fields); yields (state, term)"""
    a, b = e.deep(st, a), e.deep(st, b)
    if a[0] != "o" and b[0] == "o":
        a, b = b, a
    if a[0] == "o" and b[0] == "a":
        for s, n in e.split_variant(st, a, b[1], only=b[2]):
            if n != b[2]:
                yield s, FALSE
            else:
                yield from eq_conj(e, s, [(O("vf", a, b[2], str(i)), x) for i, x in enumerate(b[3])])
    elif a[0] == b[0] == "a" and a[1] == b[1]:
        if a[2] != b[2]:
            yield st, FALSE
        else:
            yield from eq_conj(e, st, list(zip(a[3], b[3])))
    elif a[0] == b[0] == "t" and len(a[1]) == len(b[1]):
        yield from eq_conj(e, st, list(zip(a[1], b[1])))
    else:
        if a[0] == "o" and b[0] == "o":
            va, vb = st.cons.get(("var", a)), st.cons.get(("var", b))
            if isinstance(va, str) and isinstance(vb, str) and va != vb:
                yield st, FALSE
                return
        yield st, e.eq(st, a, b)


def eq_split(e, st, a, b):
    if not e.exact:
        yield from e.split_bool(st, e.eq(st, a, b))
        return
    for s, r in eq_cases(e, st, a, b):
        yield from e.split_bool(s, r)


def eq_conj(e, st, pairs):
    if not pairs:
        yield st, TRUE
        return
    for s, r in eq_cases(e, st, *pairs[0]):
        if len(pairs) == 1:
            yield s, r
            continue
        for s2, t in e.split_bool(s, r):
            if t:
                yield from eq_conj(e, s2, pairs[1:])
            else:
                yield s2, FALSE


@model("core::cmp::PartialEq::ne")
def _(e, st, f, args, muts, fr, site):
    if e.exact:
        return ((s, e.neg(r)) for s, r in eq_cases(e, st, args[0], args[1]))
    return [(st, e.neg(e.eq(st, args[0], args[1])))]


def _cmp(op):
    def m(e, st, f, args, muts, fr, site):
        return [(st, e.binop(st, op, e.deep(st, args[0]), e.deep(st, args[1])))]

    return m


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    MODELS["core::cmp::PartialOrd::" + _n] = _cmp(_o)


# ---- closures ----------------------------------------------------------------------------------------------------
@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
       "core::ops::function::Fn::call")
def _(e, st, f, args, muts, fr, site):
    a = e.deep1(st, args[1])
    xs = list(a[1]) if a[0] == "t" else [a]
    return e.call_value(st, args[0], xs, [False] * len(xs), fr, site)


# ---- formatting ---------------------------------------------------------------------------------------------------
@model("core::fmt::Arguments::new")
def _(e, st, f, args, muts, fr, site):
    t = e.deep(st, args[0])
    xs = e.deep(st, args[1])
    parts = []
    if t[0] == "seq":
        n = 0
        for p in decode_fmt([x[1] for x in t[2]]):
            if isinstance(p, str):
                parts.append(("s", p))
            else:
                i = p[1] if p[1] is not None else n
                n = i + 1
                el = xs[2][i] if xs[0] == "seq" and i < len(xs[2]) else O("fmtarg", xs, i)
                parts.append(el)
    return [(st, join(parts))]


def join(parts):
    out = []
    for p in parts:
        if p[0] == "o" and p[1] == "fmt":
            q = list(p[2])
        else:
            q = [p]
        for x in q:
            if x == ("s", ""):
                continue
            if out and x[0] == "s" and out[-1][0] == "s":
                out[-1] = ("s", out[-1][1] + x[1])
            else:
                out.append(x)
    if not out:
        return ("s", "")
    if len(out) == 1:
        return out[0]
    return O("fmt", tuple(out))


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "alloc::fmt::format",
       "anyhow::__private::format_err", "anyhow::error::Error::msg", "core::fmt::Arguments::as_statically_known_str")
def _(e, st, f, args, muts, fr, site):
    v = e.deep(st, args[0])
    if v[0] == "seq" and len(v[2]) == 1:
        v = v[2][0]
    return [(st, v)]


# ---- sequences ---------------------------------------------------------------------------------------------------
def as_seq(e, st, v):
    """yields (state, list of elements)"""
    r = v
    v = e.deep1(st, v)
    if v[0] == "sp":
        v = v[1]
    if v[0] == "seq":
        if any(x[0] == "sp" for x in v[2]):
            live = [(st, [])]
            for x in v[2]:
                nxt = []
                for s, acc in live:
                    if x[0] == "sp":
                        nxt.extend((s2, acc + ys) for s2, ys in as_seq(e, s, x[1]))
                    else:
                        nxt.append((s, acc + [x]))
                live = nxt
            for s, acc in live:
                if v[3] is None:
                    yield s, acc
                else:
                    for s2, t in nonempty(e, s, v[3]):
                        yield s2, acc + t
            return
        if v[3] is None:
            yield st, list(v[2])
            return
        for s, t in nonempty(e, st, v[3]):
            yield s, list(v[2]) + t
        return
    if v[0] == "a" and v[1] == OPT:
        yield st, [v[3][0]] if v[2] == "Some" else []
        return
    if v[0] == "a" and v[1].endswith("ops::range::Range"):
        lo, hi = v[3][0], v[3][1]
        if lo[0] == "i" and hi[0] == "i" and hi[1] - lo[1] < 64:
            yield st, [("i", k) for k in range(lo[1], hi[1])]
            return
        d = e.deep(st, v)
        for s, t in nonempty(e, st, O("range", d)):
            yield s, t
        return
    if v[0] == "s":
        yield from nonempty(e, st, v)
        return
    if v[0] == "t":
        yield from nonempty(e, st, O("tup", e.deep(st, v)))
        return
    yield from nonempty(e, st, e.deep(st, v))


def nonempty(e, st, t):
    return e.choose(st, nonempty_cases(e, st, t))


def nonempty_cases(e, st, t):
    key = ("nonempty", t)
    cur = st.cons.get(key)
    if cur is None and t[0] == "o" and t[1] == "default":
        cur = 0
    if cur is not None:
        yield st, [O("item", t), O("item2", t)][:cur]
        return
    s = st.fork()
    s.cons[key] = 1
    yield s, [O("item", t)]
    if e.nrep > 1:
        s = st.fork()
        s.cons[key] = 2
        yield s, [O("item", t), O("item2", t)]
    s = st.fork()
    s.cons[key] = 0
    yield s, []


def has_sp(v):
    return any(x[0] == "sp" for x in v[2])


def seq(xs, kind="iter"):
    return ("seq", kind, tuple(xs), None)


def REORDERED(v):
    """a sequence re-ordered or thinned out by a library adapter that is not looked into"""
    return v[0] == "o" and v[1] == "call" and v[2].startswith(("itertools::Itertools::sorted", "itertools::Itertools::unique",
                                                               "itertools::Itertools::dedup"))


def to_iter(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    if v[0] == "o" and (getattr(e, "lazy", False) or e.exact and REORDERED(v)):
        return [(st, v)]
    if v[0] == "a" and v[1] not in (OPT,) and not v[1].endswith("ops::range::Range"):
        return None
    if v[0] == "clo":
        return None
    if v[0] == "o" and f.args and f.args[0].startswith(("std::option::Option", "&std::option::Option")):
        return ((s, seq([p[0]] if p is not None else [])) for s, p in opt(e, st, args[0]))
    return ((s, seq(xs)) for s, xs in as_seq(e, st, args[0]))


for _n in """core::iter::traits::collect::IntoIterator::into_iter core::slice::iter alloc::vec::Vec::iter
core::slice::iter_mut alloc::vec::Vec::drain std::collections::hash::map::HashMap::iter
std::collections::hash::set::HashSet::iter alloc::collections::btree::map::BTreeMap::iter
alloc::collections::btree::set::BTreeSet::iter core::str::chars core::str::char_indices core::str::lines
itertools::Itertools::sorted""".split():
    MODELS[_n] = to_iter


def _adapt(fn):
    def m(e, st, f, args, muts, fr, site):
        # `for_each` is a loop, which is entered in every mode
        if getattr(e, "lazy", False) and fn is not _for_each:
            d = e.deep1(st, args[0])
            if d[0] == "o":
                return fuse(e, st, f, d, args, site)

        # a closure yielding options is a filter_map
        isopt = fn is _flat_map and len(f.args) == 3 and f.args[1].startswith(("std::option::Option", "core::option::Option"))

        def g():
            for s, xs in as_seq(e, st, args[0]):
                yield from (_filter_map if isopt else fn)(e, s, xs, args, fr, site)

        return g()

    return m


_ADP = {"core::iter::traits::iterator::Iterator::" + n: n for n in ("map", "filter", "filter_map")}


def fuse(e, st, f, d, args, site):
    """xs.map(f).filter(g) .. over an opaque sequence is one adapter with the composed closure"""
    k2 = _ADP.get(f.canon)
    if not e.exact or k2 is None or len(args) != 2:
        return None
    h = e.deep(st, args[1])
    if h[0] not in ("clo", "fn"):
        return None
    reg = e.memo.setdefault("stages", {})
    base, stages = reg.get(d, (d, ()))
    stages += ((k2, h),)
    ks = {k for k, _ in stages}
    op = ks.pop() if len(ks) == 1 else "filter_map"
    g = type(f).__new__(type(f))
    n = "core::iter::traits::iterator::Iterator::" + op
    for a in f.__slots__:
        v = getattr(f, a)
        setattr(g, a, n if a in ("canon", "rcanon") and v else v)
    r = e.opaque(st, g, [base, ("comp", stages) if len(stages) > 1 else args[1]], [False, False], site)
    reg[r] = base, stages
    return [(st, r)]


def _map(e, st, xs, args, fr, site):
    states = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in states:
            for s2, v in call(e, s, args[1], [x], fr, site):
                nxt.append((s2, acc + [v]))
        states = nxt
    for s, acc in states:
        yield s, seq(acc)


def _for_each(e, st, xs, args, fr, site):
    for s, _ in _map(e, st, xs, args, fr, site):
        yield s, UNIT


def _filter(e, st, xs, args, fr, site):
    states = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in states:
            for s2, b in call(e, s, args[1], [x], fr, site):
                for s3, t in e.split_bool(s2, b):
                    nxt.append((s3, acc + [x] if t else list(acc)))
        states = nxt
    for s, acc in states:
        yield s, seq(acc)


def _filter_map(e, st, xs, args, fr, site):
    states = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in states:
            for s2, v in call(e, s, args[1], [x], fr, site):
                for s3, p in opt(e, s2, v):
                    nxt.append((s3, acc + [p[0]] if p is not None else list(acc)))
        states = nxt
    for s, acc in states:
        yield s, seq(acc)


def _flat_map(e, st, xs, args, fr, site):
    states = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in states:
            vs = call(e, s, args[1], [x], fr, site) if len(args) > 1 else [(s, x)]
            for s2, v in vs:
                d = e.deep1(s2, v)
                for s3, ys in as_seq(e, s2, v):
                    nxt.append((s3, acc + ys))
        states = nxt
    for s, acc in states:
        yield s, seq(acc)


def _any(e, st, xs, args, fr, site):
    live = [st]
    for x in xs:
        nxt = []
        for s in live:
            for s2, b in call(e, s, args[1], [x], fr, site):
                for s3, t in e.split_bool(s2, b):
                    if t:
                        yield s3, TRUE
                    else:
                        nxt.append(s3)
        live = nxt
    for s in live:
        yield s, FALSE


def _all(e, st, xs, args, fr, site):
    live = [st]
    for x in xs:
        nxt = []
        for s in live:
            for s2, b in call(e, s, args[1], [x], fr, site):
                for s3, t in e.split_bool(s2, b):
                    if not t:
                        yield s3, FALSE
                    else:
                        nxt.append(s3)
        live = nxt
    for s in live:
        yield s, TRUE


def _find(e, st, xs, args, fr, site):
    live = [st]
    for x in xs:
        nxt = []
        for s in live:
            for s2, b in call(e, s, args[1], [x], fr, site):
                for s3, t in e.split_bool(s2, b):
                    if t:
                        yield s3, some(x)
                    else:
                        nxt.append(s3)
        live = nxt
    for s in live:
        yield s, NONE


def _find_map(e, st, xs, args, fr, site):
    live = [st]
    for x in xs:
        nxt = []
        for s in live:
            for s2, v in call(e, s, args[1], [x], fr, site):
                for s3, p in opt(e, s2, v):
                    if p is not None:
                        yield s3, some(p[0])
                    else:
                        nxt.append(s3)
        live = nxt
    for s in live:
        yield s, NONE


def _take_while(e, st, xs, args, fr, site):
    if not e.exact:
        yield from _filter(e, st, xs, args, fr, site)
        return
    live = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in live:
            for s2, b in call(e, s, args[1], [x], fr, site):
                for s3, t in e.split_bool(s2, b):
                    if t:
                        nxt.append((s3, acc + [x]))
                    else:
                        yield s3, seq(acc)
        live = nxt
    for s, acc in live:
        yield s, seq(acc)


def _map_while(e, st, xs, args, fr, site):
    if not e.exact:
        yield from _filter_map(e, st, xs, args, fr, site)
        return
    live = [(st, [])]
    for x in xs:
        nxt = []
        for s, acc in live:
            for s2, v in call(e, s, args[1], [x], fr, site):
                for s3, p in opt(e, s2, v):
                    if p is not None:
                        nxt.append((s3, acc + [p[0]]))
                    else:
                        yield s3, seq(acc)
        live = nxt
    for s, acc in live:
        yield s, seq(acc)


def _skip_while(e, st, xs, args, fr, site):
    if not e.exact:
        yield from _filter(e, st, xs, args, fr, site)
        return
    live = [st]
    for i, x in enumerate(xs):
        nxt = []
        for s in live:
            for s2, b in call(e, s, args[1], [x], fr, site):
                for s3, t in e.split_bool(s2, b):
                    if t:
                        nxt.append(s3)
                    else:
                        yield s3, seq(xs[i:])
        live = nxt
    for s in live:
        yield s, seq([])


def _position(e, st, xs, args, fr, site):
    live = [st]
    for i, x in enumerate(xs):
        nxt = []
        for s in live:
            for s2, b in call(e, s, args[1], [x], fr, site):
                for s3, t in e.split_bool(s2, b):
                    if t:
                        yield s3, some(("i", i) if e.exact else O("pos", e.deep(s3, x)))
                    else:
                        nxt.append(s3)
        live = nxt
    for s in live:
        yield s, NONE


def _inspect(e, st, xs, args, fr, site):
    for s, _ in _map(e, st, xs, args, fr, site):
        yield s, seq(xs)


def _fold(e, st, xs, args, fr, site):
    states = [(st, args[1])]
    for x in xs:
        nxt = []
        for s, acc in states:
            nxt.extend(call(e, s, args[2], [acc, x], fr, site))
        states = nxt
    yield from states


IT = "core::iter::traits::iterator::Iterator::"
for _n, _f in (("map", _map), ("for_each", _for_each), ("filter", _filter), ("filter_map", _filter_map),
               ("flat_map", _flat_map), ("flatten", _flat_map), ("any", _any), ("all", _all), ("find", _find),
               ("find_map", _find_map), ("fold", _fold), ("map_while", _map_while), ("take_while", _take_while),
               ("skip_while", _skip_while), ("position", _position), ("inspect", _inspect)):
    MODELS[IT + _n] = _adapt(_f)


@model(IT + "next")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    while a[0] == "ref":
        v = e.read(st, a[1], a[2])
        if v[0] == "ref":
            a = v
        else:
            break
    v = e.deep1(st, a)
    if v[0] == "seq" and has_sp(v):
        v = e.deep(st, v)
        def g0():
            for s, xs in as_seq(e, st, v):
                if a[0] == "ref":
                    e.write(s, a[1], a[2], ("seq", "iter", tuple(xs[1:]), None))
                yield s, some(xs[0]) if xs else NONE
        return g0()
    if v[0] == "seq" and v[3] is None:
        if a[0] == "ref":
            e.write(st, a[1], a[2], ("seq", v[1], v[2][1:], None))
        if not v[2]:
            st.event(("exhausted", site))
        else:
            st.event(("next", site, v[2][0] if v[2][0][0] == "o" else None))
        return [(st, some(v[2][0]) if v[2] else NONE)]
    if (v[0] == "a" and v[1].endswith("ops::range::Range") or v[0] == "o" and e.exact) and a[0] == "ref":
        def g():
            for s, xs in as_seq(e, st, v):
                e.write(s, a[1], a[2], ("seq", "iter", tuple(xs[1:]), None))
                yield s, some(xs[0]) if xs else NONE
        return g()
    return None


@model("crossbeam_channel::channel::Receiver::recv")
def _(e, st, f, args, muts, fr, site):
    r = e.deep(st, args[0])
    if st.cons.get(("nonempty", r)) is not None:  # one representative message per channel
        st.event(("exhausted", site))
        return [(st, ("a", RES, "Err", (O("disconnected", r),)))]

    def g():
        for s, xs in nonempty(e, st, r):
            if xs:
                s.event(("next", site, xs[0]))
                yield s, ("a", RES, "Ok", (xs[0],))
            else:
                s.event(("exhausted", site))
                yield s, ("a", RES, "Err", (O("disconnected", r),))

    return g()


@model("crossbeam_channel::channel::Receiver::iter")
def _(e, st, f, args, muts, fr, site):
    return [(st, args[0])]


@model(IT + "chain")
def _(e, st, f, args, muts, fr, site):
    for s, xs in as_seq(e, st, args[0]):
        for s2, ys in as_seq(e, s, args[1]):
            yield s2, seq(xs + ys)


@model(IT + "zip")
def _(e, st, f, args, muts, fr, site):
    for s, xs in as_seq(e, st, args[0]):
        for s2, ys in as_seq(e, s, args[1]):
            yield s2, seq([("t", (x, y)) for x, y in zip(xs, ys)])


@model(IT + "enumerate")
def _(e, st, f, args, muts, fr, site):
    for s, xs in as_seq(e, st, args[0]):
        yield s, seq([("t", (("i", i) if e.exact else O("pos", e.deep(s, x)), x)) for i, x in enumerate(xs)])


@model(IT + "rev")
def _(e, st, f, args, muts, fr, site):
    for s, xs in as_seq(e, st, args[0]):
        yield s, seq(reversed(xs))


@model(IT + "take", IT + "skip", IT + "step_by")
def _(e, st, f, args, muts, fr, site):
    for s, xs in as_seq(e, st, args[0]):
        n = args[1]
        if n[0] == "i" and f.canon.endswith("take"):
            yield s, seq(xs[:n[1]])
        elif n[0] == "i" and f.canon.endswith("skip"):
            yield s, seq(xs[n[1]:]) if len(xs) > 1 or e.exact else seq(xs)
        elif e.exact:
            yield s, O("call", f.canon, (seq([e.deep(s, x) for x in xs]), e.deep(s, n)), ())
        else:
            yield s, seq(xs)


@model(IT + "last", IT + "max", IT + "min")
def _(e, st, f, args, muts, fr, site):
    for s, xs in as_seq(e, st, args[0]):
        if e.exact and len(xs) > 1 and not f.canon.endswith("last"):
            yield s, some(O("pick", f.canon, tuple(e.deep(s, x) for x in xs)))
            continue
        yield s, some(xs[-1]) if xs else NONE


@model(IT + "max_by_key", IT + "min_by_key")
def _(e, st, f, args, muts, fr, site):
    for s, xs in as_seq(e, st, args[0]):
        if len(xs) <= 1:
            yield s, some(xs[-1]) if xs else NONE
        else:
            yield s, some(O("pick", f.canon, tuple(e.deep(s, x) for x in xs)))


@model(IT + "count", "core::slice::len", "alloc::vec::Vec::len", "core::str::len", "alloc::string::String::len")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    if v[0] == "seq" and has_sp(v):
        return ((s, ("i", len(xs))) for s, xs in as_seq(e, st, v))
    if v[0] == "seq" and v[3] is None and (v[1] in ("arr", "vec") or e.exact):
        return [(st, ("i", len(v[2])))]
    if v[0] == "s":
        return [(st, ("i", len(v[1].encode())))]
    return [(st, O("slen" if f.canon.endswith(("str::len", "String::len")) and not f.canon.startswith(IT) else "len", e.deep(st, v)))]


@model("core::ops::index::Index::index")
def _(e, st, f, args, muts, fr, site):
    """slices of collections by constant ranges"""
    if not e.exact or not f.args or "str" in f.args[0].lower():
        return None
    r = e.deep(st, args[1])
    if r[0] != "a" or not all(x[0] == "i" for x in r[3]):
        return None
    k = r[1].rsplit("::", 1)[-1]
    b = [x[1] for x in r[3]]
    if k not in ("RangeFrom", "RangeTo", "Range", "RangeFull"):
        return None

    def g():
        for s, xs in as_seq(e, st, args[0]):
            lo = b[0] if k in ("RangeFrom", "Range") else 0
            hi = b[-1] if k in ("RangeTo", "Range") else len(xs)
            if lo <= hi <= len(xs):
                yield s, seq(xs[lo:hi], "arr")

    return g()


@model("core::slice::is_empty", "alloc::vec::Vec::is_empty", "core::str::is_empty", "alloc::string::String::is_empty",
       "std::collections::hash::map::HashMap::is_empty", "std::collections::hash::set::HashSet::is_empty")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    if v[0] == "s":
        return [(st, TRUE if not v[1] else FALSE)]
    if v[0] == "o" and v[1] == "fmt" and any(x[0] == "s" and x[1] for x in v[2]):
        return [(st, FALSE)]
    if v[0] == "seq" and has_sp(v):
        if any(x[0] != "sp" for x in v[2]):
            return [(st, FALSE)]
        return ((s, FALSE if xs else TRUE) for s, xs in as_seq(e, st, v))
    if v[0] == "seq":
        if v[2]:
            return [(st, FALSE)]
        if v[3] is None:
            return [(st, TRUE)]
        v = v[3]

    def g():
        for s, xs in nonempty(e, st, e.deep(st, v)):
            yield s, FALSE if xs else TRUE

    return g()


@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(e, st, f, args, muts, fr, site):
    tgt = f.args[1] if len(f.args) > 1 else (f.args[0] if f.args else "")
    if getattr(e, "lazy", False) and e.deep1(st, args[0])[0] == "o":
        yield st, O("collect", e.deep(st, args[0]), tgt.split("<")[0])
        return
    if e.exact and tgt.startswith("std::vec::Vec") and REORDERED(e.deep1(st, args[0])):
        yield st, e.deep(st, args[0])
        return
    for s, xs in as_seq(e, st, args[0]):
        if "string::String" in tgt.split("<")[0]:
            yield s, join([e.deep(s, x) for x in xs])
        elif tgt.startswith(("std::collections::HashSet", "std::collections::HashMap")):
            yield from distinct(e, s, seq([e.deep(s, x) for x in xs], "vec"), "HashMap" in tgt[:26])
        else:
            yield s, seq(xs, "vec")


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "std::collections::hash::map::HashMap::new",
       "std::collections::hash::set::HashSet::new", "alloc::collections::btree::map::BTreeMap::new",
       "alloc::collections::btree::set::BTreeSet::new", "core::iter::sources::empty::empty")
def _(e, st, f, args, muts, fr, site):
    return [(st, seq([], "vec"))]


@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def _(e, st, f, args, muts, fr, site):
    return [(st, ("s", ""))]


@model("core::default::Default::default")
def _(e, st, f, args, muts, fr, site):
    return [(st, default_of(f.args[0] if f.args else ""))]


@model("core::iter::sources::once::once")
def _(e, st, f, args, muts, fr, site):
    return [(st, seq([args[0]]))]


@model("core::iter::sources::successors::successors", "core::iter::sources::from_fn::from_fn")
def _(e, st, f, args, muts, fr, site):
    return [(st, O("iter", f.canon, tuple(e.deep(st, a) for a in args)))]


@model("alloc::vec::Vec::push", "std::collections::hash::set::HashSet::insert",
       "alloc::collections::btree::set::BTreeSet::insert", "alloc::vec::Vec::insert",
       "alloc::collections::vec_deque::VecDeque::push_back", "alloc::collections::vec_deque::VecDeque::push_front")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    v = e.deep1(st, a)
    new = args[-1]
    st.event(("push", e.deep(st, v), e.deep(st, new), site, f.canon))
    if e.exact and f.canon.endswith("Set::insert"):
        return set_insert(e, st, f, args)
    ret = UNIT if "Vec" in f.canon else O("call", f.canon, (e.deep(st, v), e.deep(st, new)), ())
    while a[0] == "ref":
        x = e.read(st, a[1], a[2])
        if x[0] == "ref":
            a = x
        else:
            break
    if a[0] == "ref":
        if v[0] == "seq":
            nv = ("seq", v[1], v[2] + (new,), v[3])
        elif e.exact:
            nv = ("seq", "vec", (("sp", e.deep(st, v)), new), None)
        else:
            nv = ("seq", "vec", (new,), e.deep(st, v))
        if e.exact and f.canon.endswith(("::insert", "push_front")):
            nv = O("mut", f.canon, e.deep(st, v), tuple(e.deep(st, x) for x in args[1:]))
        e.write(st, a[1], a[2], nv)
    elif a[0] == "o":
        st.heap[a] = ("seq", "vec", (("sp", a), new), None) if e.exact else ("seq", "vec", (new,), a)
    return [(st, ret)]


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::append",
       "alloc::vec::Vec::extend_from_slice")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    while a[0] == "ref":
        x = e.read(st, a[1], a[2])
        if x[0] == "ref":
            a = x
        else:
            break
    base = e.deep1(st, a)
    src = e.deep1(st, args[1])
    if e.exact and src[0] == "o" and a[0] == "ref" and not any(x.startswith("std::option::Option") for x in f.args):
        v = e.read(st, a[1], a[2])
        if v[0] != "seq":
            v = ("seq", "vec", (("sp", e.deep(st, v)),), None)
        e.write(st, a[1], a[2], ("seq", v[1], v[2] + (("sp", e.deep(st, src)),), v[3]))
        if f.canon.endswith("append") and args[1][0] == "ref":
            e.write(st, args[1][1], args[1][2], seq([], "vec"))
        return [(st, UNIT)]

    def src_items():
        if src[0] == "o" and any(x.startswith("std::option::Option") for x in f.args):
            return ((s, [p[0]] if p is not None else []) for s, p in opt(e, st, args[1]))
        return as_seq(e, st, args[1])

    def g():
        for s, xs in src_items():
            for x in xs:
                s.event(("push", e.deep(s, base), e.deep(s, x), site, f.canon))
            if a[0] == "ref":
                v = e.read(s, a[1], a[2])
                if v[0] == "seq":
                    nv = ("seq", v[1], v[2] + tuple(xs), v[3])
                elif e.exact:
                    nv = ("seq", "vec", (("sp", e.deep(s, v)),) + tuple(xs), None)
                else:
                    nv = ("seq", "vec", tuple(xs), e.deep(s, v))
                if f.args and "HashSet<" in f.args[0][:40]:
                    for s2, nv2 in distinct(e, s, nv, False):
                        e.write(s2, a[1], a[2], nv2)
                        yield s2, UNIT
                    continue
                e.write(s, a[1], a[2], nv)
                if f.canon.endswith("append") and args[1][0] == "ref":
                    e.write(s, args[1][1], args[1][2], seq([], "vec"))
            yield s, UNIT

    return g()


@model("alloc::vec::Vec::retain", "alloc::vec::Vec::retain_mut")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    while a[0] == "ref":
        x = e.read(st, a[1], a[2])
        if x[0] == "ref":
            a = x
        else:
            break

    def g():
        for s, xs in as_seq(e, st, a):
            for s2, v in _filter(e, s, xs, args, fr, site):
                if a[0] == "ref":
                    e.write(s2, a[1], a[2], ("seq", "vec", v[2], None))
                yield s2, UNIT

    return g()


@model("core::slice::first", "core::slice::last", "alloc::vec::Vec::pop")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    first = f.canon.endswith("first")
    if e.exact and not getattr(e, "lazy", False) and v[0] in ("o", "seq"):
        def g():
            for s, xs in as_seq(e, st, v):
                if f.canon.endswith("pop") and xs:
                    set_place(e, s, args[0], seq(xs[:-1], "vec"))
                yield s, some(xs[0 if first else -1]) if xs else NONE

        return g()
    if v[0] == "seq" and has_sp(v):
        k = 0 if first else -1
        return ((s, some(xs[k]) if xs else NONE) for s, xs in as_seq(e, st, v))
    if v[0] == "seq" and v[3] is None and (v[1] in ("arr", "vec") or len(v[2]) <= 1):
        if not v[2]:
            return [(st, NONE)]
        return [(st, some(v[2][0 if first else -1]))]
    return None


def set_place(e, st, a, nv):
    while a[0] == "ref":
        x = e.read(st, a[1], a[2])
        if x[0] == "ref":
            a = x
        else:
            break
    if a[0] == "ref":
        e.write(st, a[1], a[2], nv)
    elif a[0] == "o":
        st.heap[a] = nv


SET_HAS = "std::collections::hash::set::HashSet::contains"


def set_has(e, st, v, x):
    """membership in a set built by known insertions; yields (state, bool)"""
    if v[0] == "seq" and v[3] is None and not has_sp(v):
        cur = [st]
        for y in v[2]:
            nxt = []
            for s0 in cur:
                for s, t in eq_split(e, s0, y, x):
                    if t:
                        yield s, True
                    else:
                        nxt.append(s)
            cur = nxt
        for s in cur:
            yield s, False
    elif v[0] == "o" and v[1] == "mut" and v[2].endswith("Set::insert"):
        for s, t in eq_split(e, st, v[4][0], x):
            if t:
                yield s, True
            else:
                yield from set_has(e, s, v[3], x)
    else:
        yield from e.split_bool(st, O("call", SET_HAS, (v, x), ()))


def set_insert(e, st, f, args):
    a = args[0]
    v, new = e.deep(st, a), e.deep(st, args[1])
    while a[0] == "ref":
        x = e.read(st, a[1], a[2])
        if x[0] == "ref":
            a = x
        else:
            break
    for s, t in set_has(e, st, v, new):
        if not t:
            if v[0] == "seq" and v[3] is None and not has_sp(v) and (not v[2] or "hash" in f.canon):
                nv = ("seq", v[1], v[2] + (new,), None)
            else:
                nv = O("mut", f.canon, v, (new,))
            s = s.fork()
            if a[0] == "ref":
                e.write(s, a[1], a[2], nv)
            elif a[0] == "o":
                s.heap[a] = nv
        yield s, FALSE if t else TRUE


@model(SET_HAS, "alloc::collections::btree::set::BTreeSet::contains")
def _(e, st, f, args, muts, fr, site):
    if not e.exact:
        return None
    return ((s, TRUE if t else FALSE) for s, t in set_has(e, st, e.deep(st, args[0]), e.deep(st, args[1])))


@model("core::slice::contains")
def _(e, st, f, args, muts, fr, site):
    v = e.deep(st, args[0])
    if v[0] == "seq" and v[3] is None and not has_sp(v):
        def g():
            cur = [st]
            for x in v[2]:
                nxt = []
                for s in cur:
                    for s2, t in eq_split(e, s, x, args[1]):
                        if t:
                            yield s2, TRUE
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                yield s, FALSE

        return g()
    if getattr(e, "exact", False) and not getattr(e, "lazy", False):
        def g2():
            for s0, xs in as_seq(e, st, args[0]):
                cur = [s0]
                for x in xs:
                    nxt = []
                    for s in cur:
                        for s2, t in eq_split(e, s, x, args[1]):
                            if t:
                                yield s2, TRUE
                            else:
                                nxt.append(s2)
                    cur = nxt
                for s in cur:
                    yield s, FALSE

        return g2()
    return None


def distinct(e, st, v, pairs):
    """a hash set (map) built from the elements of a sequence: equal elements (keys) are stored once"""
    if not e.exact or v[0] != "seq" or v[3] is not None or has_sp(v) or len(v[2]) < 2 or pairs and not all(
            x[0] == "t" and len(x[1]) == 2 for x in v[2]):
        yield st, v
        return
    live = [(st, ())]
    for x in v[2]:
        nxt = []
        for s, acc in live:
            cur = [s]
            for i, y in enumerate(acc):
                more = []
                for s1 in cur:
                    for s2, t in eq_split(e, s1, y[1][0] if pairs else y, x[1][0] if pairs else x):
                        if t:
                            nxt.append((s2, acc[:i] + (("t", (y[1][0], x[1][1])),) + acc[i + 1:] if pairs else acc))
                        else:
                            more.append(s2)
                cur = more
            nxt.extend((s1, acc + (x,)) for s1 in cur)
        live = nxt
    for s, acc in live:
        yield s, ("seq", v[1], acc, None)


@model("<std::collections::hash::map::HashMap as core::convert::From<[(K, V); N]>>::from",
       "<std::collections::hash::set::HashSet as core::convert::From<[T; N]>>::from")
def _(e, st, f, args, muts, fr, site):
    return distinct(e, st, e.deep(st, args[0]), "HashMap" in f.rcanon)


@model("ink_analyzer_ir::traits::entity::InkEntity::can_cast")
def _(e, st, f, args, muts, fr, site):
    """likewise T::can_cast(node) and T::cast(node) of the entities (the implementations are decided on their own)"""
    if not e.exact:
        return None
    g = type(f).__new__(type(f))
    for a in f.__slots__:
        v = getattr(f, a)
        setattr(g, a, v[:-len("can_cast")] + "cast" if isinstance(v, str) and v.endswith("::can_cast") else v)
    r = e.opaque(st.fork(), g, [e.deep(st, args[0])], [False], site)
    return [(st, O("isvar", r, OPT, "Some"))]


@model("ra_ap_syntax::ast::AstNode::can_cast")
def _(e, st, f, args, muts, fr, site):
    """T::can_cast(node.kind()) holds exactly when T::cast(node) is Some (the AstNode contract)"""
    if not e.exact or e.resolve_fn(f) is not None:
        return None
    k = e.deep(st, args[0])
    if not (k[0] == "o" and k[1] == "call" and k[2].endswith("SyntaxNode::kind") and len(k[3]) == 1):
        return None
    g = type(f).__new__(type(f))
    for a in f.__slots__:
        v = getattr(f, a)
        setattr(g, a, v[:-len("can_cast")] + "cast" if isinstance(v, str) and v.endswith("::can_cast") else v)
    r = e.opaque(st.fork(), g, [k[3][0]], [False], site)
    return [(st, O("isvar", r, OPT, "Some"))]


@model("once_cell::sync::Lazy::new", "once_cell::unsync::Lazy::new")
def _(e, st, f, args, muts, fr, site):
    return [(st, O("lazy", e.deep(st, args[0])))]


@model("alloc::boxed::Box::new_uninit")
def _(e, st, f, args, muts, fr, site):
    return [(st, ("bx", e.alloc(st, O("uninit"))))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def _(e, st, f, args, muts, fr, site):
    v = e.deep1(st, args[0])
    return [(st, ("seq", "vec", v[2], v[3]) if v[0] == "seq" else v)]


@model("alloc::string::String::push_str", "alloc::string::String::push")
def _(e, st, f, args, muts, fr, site):
    a = args[0]
    while a[0] == "ref":
        x = e.read(st, a[1], a[2])
        if x[0] == "ref":
            a = x
        else:
            break
    if a[0] != "ref":
        return None
    n = e.deep(st, args[1])
    if n[0] == "i":
        n = ("s", chr(n[1]))
    e.write(st, a[1], a[2], join([e.deep(st, e.read(st, a[1], a[2])), n]))
    return [(st, UNIT)]


def _strfold(fn):
    def m(e, st, f, args, muts, fr, site):
        v = [e.deep(st, a) for a in args]
        if len(v) == 2 and v[1][0] in ("seq", "t") and e.exact:
            # one of several characters
            xs = v[1][2] if v[1][0] == "seq" else v[1][1]
            if v[1][0] == "seq" and v[1][3] is not None or not xs or not all(x[0] == "i" for x in xs):
                return None

            def g(s, i):
                r = m(e, s, f, [args[0], xs[i]], muts, fr, site)
                if r is None:
                    r = MODELS[f.canon](e, s, f, [args[0], xs[i]], muts, fr, site) if f.canon in MODELS else None
                if r is None:
                    r = [(s, O("call", e.fname(f), (v[0], xs[i]), ("char",)))]
                for s1, b in r:
                    for s2, t in e.split_bool(s1, b):
                        if t or i + 1 == len(xs):
                            yield s2, ("i", int(t))
                        else:
                            yield from g(s2, i + 1)

            return g(st, 0)
        if all(x[0] == "s" and isinstance(x[1], str) for x in v):
            r = fn(*[x[1] for x in v])
            return [(st, ("i", int(r)) if isinstance(r, bool) else ("s", r))]
        return None

    return m


for _n, _f in (("contains", lambda a, b: b in a), ("starts_with", lambda a, b: a.startswith(b)),
               ("ends_with", lambda a, b: a.endswith(b)), ("trim", lambda a: a.strip()),
               ("trim_start", lambda a: a.lstrip()), ("trim_end", lambda a: a.rstrip()),
               ("to_lowercase", lambda a: a.lower()), ("to_uppercase", lambda a: a.upper())):
    MODELS["core::str::" + _n] = _strfold(_f)

for _n in list(MODELS):
    if _n.startswith("alloc::slice::"):
        MODELS.setdefault("[T]::" + _n[len("alloc::slice::"):], MODELS[_n])
    if _n.startswith("core::slice::"):
        MODELS["[T]::" + _n[len("core::slice::"):]] = MODELS[_n]
    if _n.startswith("core::str::") and "traits" not in _n:
        MODELS["str::" + _n[len("core::str::"):]] = MODELS[_n]


# ---- joining, plain constructors of foreign types -------------------------------------------------------------------
def _join(e, st, f, args, muts, fr, site):
    sep = e.deep(st, args[1])
    if getattr(e, "lazy", False) or not e.exact:
        return None

    def g():
        for s, xs in as_seq(e, st, args[0]):
            parts = []
            for i, x in enumerate(xs):
                if i:
                    parts.append(sep)
                parts.append(e.deep(s, x))
            yield s, join(parts)

    return g()


def _concat(e, st, f, args, muts, fr, site):
    if f.args and ("str" in f.args[0] or f.args[0].endswith("String")):
        return _join(e, st, f, [args[0], ("s", "")], muts, fr, site)
    return None


for _n in ("alloc::slice::concat", "[T]::concat", "core::slice::concat"):
    MODELS[_n] = _concat

for _n in ("itertools::Itertools::join", "alloc::slice::join", "[T]::join", "core::slice::join"):
    MODELS[_n] = _join


def _ctor(adt):
    def m(e, st, f, args, muts, fr, site):
        return [(st, ("a", adt, adt.rsplit("::", 1)[-1], tuple(args)))]

    return m


for _a in ("lsp_types::Position", "lsp_types::Range", "lsp_types::Location", "lsp_types::TextEdit",
           "lsp_types::PublishDiagnosticsParams", "lsp_types::TextDocumentIdentifier",
           "lsp_types::VersionedTextDocumentIdentifier", "lsp_types::TextDocumentItem"):
    MODELS[_a + "::new"] = _ctor(_a)


@model("lsp_types::Diagnostic::new")
def _(e, st, f, args, muts, fr, site):
    r, sev, code, src, msg, rel, tags = args
    none = ("a", OPT, "None", ())
    return [(st, ("a", "lsp_types::Diagnostic", "Diagnostic", (r, sev, code, none, src, msg, rel, tags, none)))]


@model("[T; N]::map", "core::array::map")
def _(e, st, f, args, muts, fr, site):
    """array map: the closure applied to each element, in order"""
    if not e.exact or getattr(e, "lazy", False):
        return None

    def g():
        for s0, xs in as_seq(e, st, args[0]):
            live = [(s0, ())]
            for x in xs:
                live = [(s2, acc + (e.deep(s2, y),)) for s, acc in live
                        for s2, y in e.call_value(s, args[1], [x], [False], fr, site)]
            for s, acc in live:
                yield s, ("seq", "vec", acc, None)

    return g()


@model("serde_json::map::Map::with_capacity", "serde_json::map::Map::new")
def _(e, st, f, args, muts, fr, site):
    return [(st, O("call", "serde_json::map::Map::new", (), ()))]


def _arith(op, assign):
    def g(e, st, f, args, muts, fr, site):
        if not e.exact or not f.args or "TextSize" not in f.args[0] and "TextRange" not in f.args[0]:
            return None
        r = O("arith", op, e.deep(st, args[0]), e.deep(st, args[1]))
        if not assign:
            return [(st, r)]
        a = args[0]
        while a[0] == "ref":
            x = e.read(st, a[1], a[2])
            if x[0] == "ref":
                a = x
            else:
                break
        if a[0] == "ref":
            e.write(st, a[1], a[2], r)
        elif a[0] == "o":
            st.heap[a] = r
        else:
            return None
        return [(st, UNIT)]

    return g


for _o in ("Add", "Sub"):
    model("core::ops::arith::%s::%s" % (_o, _o.lower()))(_arith(_o, False))
    model("core::ops::arith::%sAssign::%s_assign" % (_o, _o.lower()))(_arith(_o, True))


# ---- maps built locally by known insertions: association lists --------------------------------------------------
HM, BM = "std::collections::hash::map::HashMap::", "alloc::collections::btree::map::BTreeMap::"


def map_of(e, st, a):
    """(reference to the map, value) for a map whose entries are all known"""
    while a[0] == "ref":
        v = e.read(st, a[1], a[2])
        if v[0] != "ref":
            break
        a = v
    if a[0] != "ref":
        return None
    if v[0] == "seq" and v[3] is None and all(x[0] == "t" and len(x[1]) == 2 for x in v[2]):
        return a, v
    return None


def map_find(e, st, v, k):
    """(state, index or None)"""
    cur = [st]
    for i, x in enumerate(v[2]):
        nxt = []
        for s in cur:
            for s2, t in eq_split(e, s, x[1][0], k):
                if t:
                    yield s2, i
                else:
                    nxt.append(s2)
        cur = nxt
    for s in cur:
        yield s, None


def map_add(e, st, a, k, x):
    v = e.read(st, a[1], a[2])
    e.write(st, a[1], a[2], ("seq", v[1], v[2] + (("t", (k, x)),), None))
    return ("ref", a[1], a[2] + (("ix", ("i", len(v[2]))), ("f", 1, None)))


def map_slot(a, i):
    return ("ref", a[1], a[2] + (("ix", ("i", i)), ("f", 1, None)))


def map_model(*names):
    def d(g):
        def m(e, st, f, args, muts, fr, site):
            if not e.exact:
                return None
            r = map_of(e, st, args[0])
            if r is None:
                return None
            return g(e, st, f, args, r[0], r[1])

        for n in names:
            old = MODELS.get(n)
            if old is None:
                MODELS[n] = m
            else:
                MODELS[n] = lambda e, st, f, args, muts, fr, site, m=m, old=old: (
                    m(e, st, f, args, muts, fr, site) or old(e, st, f, args, muts, fr, site))
        return g

    return d


@map_model(HM + "get", BM + "get", HM + "get_mut", BM + "get_mut")
def _(e, st, f, args, a, v):
    for s, i in map_find(e, st, v, e.deep(st, args[1])):
        yield s, NONE if i is None else some(map_slot(a, i))


@map_model(HM + "contains_key", BM + "contains_key")
def _(e, st, f, args, a, v):
    for s, i in map_find(e, st, v, e.deep(st, args[1])):
        yield s, FALSE if i is None else TRUE


@map_model(HM + "insert", BM + "insert")
def _(e, st, f, args, a, v):
    for s, i in map_find(e, st, v, e.deep(st, args[1])):
        s = s.fork()
        if i is None:
            map_add(e, s, a, e.deep(st, args[1]), args[2])
            yield s, NONE
        else:
            r = map_slot(a, i)
            old = e.read(s, r[1], r[2])
            e.write(s, r[1], r[2], args[2])
            yield s, some(old)


@map_model(HM + "remove", BM + "remove")
def _(e, st, f, args, a, v):
    for s, i in map_find(e, st, v, e.deep(st, args[1])):
        s = s.fork()
        if i is None:
            yield s, NONE
        else:
            e.write(s, a[1], a[2], ("seq", v[1], v[2][:i] + v[2][i + 1:], None))
            yield s, some(v[2][i][1][1])


ENTRY = {HM: "std::collections::hash::map::Entry", BM: "alloc::collections::btree::map::entry::Entry"}


@map_model(HM + "entry", BM + "entry")
def _(e, st, f, args, a, v):
    adt = ENTRY[HM if f.canon.startswith(HM) else BM]
    k = e.deep(st, args[1])
    for s, i in map_find(e, st, v, k):
        if i is None:
            yield s, ("a", adt, "Vacant", (("a", "VacantEntry", "VacantEntry", (a, k)),))
        else:
            yield s, ("a", adt, "Occupied", (("a", "OccupiedEntry", "OccupiedEntry", (map_slot(a, i), k)),))


def entry_model(name):
    def d(g):
        def m(e, st, f, args, muts, fr, site):
            x = e.deep1(st, args[0]) if args[0][0] == "ref" else args[0]
            if x[0] == "a" and x[1].endswith("::Entry") and len(x[3]) == 1 and x[3][0][0] == "a":
                return g(e, st, f, args, x, x[3][0][3], fr, site)
            return None

        for n in ENTRY.values():
            MODELS[n + "::" + name] = m
        return g

    return d


@entry_model("or_insert_with")
def _(e, st, f, args, x, p, fr, site):
    if x[2] == "Occupied":
        yield st, p[0]
        return
    for s, v in call(e, st, args[1], [], fr, site):
        s = s.fork()
        yield s, map_add(e, s, p[0], p[1], v)


@entry_model("or_insert")
def _(e, st, f, args, x, p, fr, site):
    if x[2] == "Occupied":
        yield st, p[0]
        return
    s = st.fork()
    yield s, map_add(e, s, p[0], p[1], args[1])


@entry_model("or_default")
def _(e, st, f, args, x, p, fr, site):
    if x[2] == "Occupied":
        yield st, p[0]
        return
    s = st.fork()
    yield s, map_add(e, s, p[0], p[1], default_of(f.args[-1] if f.args else ""))


@entry_model("and_modify")
def _(e, st, f, args, x, p, fr, site):
    if x[2] == "Occupied":
        for s, _ in call(e, st, args[1], [p[0]], fr, site):
            yield s, x
    else:
        yield st, x



# ---- prefixes and suffixes: `strip_prefix` succeeds exactly when `starts_with` holds ------------------------------
def _strip(test):
    name = "core::str::strip_" + ("prefix" if test == "starts_with" else "suffix")

    def m(e, st, f, args, muts, fr, site):
        v, x = e.deep(st, args[0]), e.deep(st, args[1])
        if v[0] == "s" and x[0] == "s" and isinstance(v[1], str):
            if not getattr(v[1], test.replace("_", ""))(x[1]):
                return [(st, NONE)]
            return [(st, some(("s", v[1][len(x[1]):] if test == "starts_with" else v[1][:len(v[1]) - len(x[1])])))]
        if not e.exact:
            return None
        if has_fnval(v) or has_fnval(x):
            return None

        def g():
            for s, t in e.split_bool(st, O("call", "core::str::" + test, (v, x), ())):
                yield s, some(O("call", name, (v, x), ())) if t else NONE

        return g()

    return m


def has_fnval(t):
    return t[0] in ("clo", "fn") or any(isinstance(x, tuple) and x and has_fnval(x) for x in t)


for _t in ("starts_with", "ends_with"):
    for _p in ("core::str::", "str::"):
        MODELS[_p + ("strip_prefix" if _t == "starts_with" else "strip_suffix")] = _strip(_t)
        _old = MODELS.get(_p + _t)

        def _sw(e, st, f, args, muts, fr, site, t=_t, old=_old):
            r = old(e, st, f, args, muts, fr, site) if old else None
            if r is None and e.exact:
                v, x = e.deep(st, args[0]), e.deep(st, args[1])
                if not has_fnval(v) and not has_fnval(x):
                    return [(st, O("call", "core::str::" + t, (v, x), ()))]
            return r

        MODELS[_p + _t] = _sw


@model("itertools::Itertools::unique_by", "itertools::Itertools::unique", "itertools::Itertools::dedup",
       "itertools::Itertools::dedup_by", "itertools::Itertools::sorted_by", "itertools::Itertools::sorted_by_key",
       "core::iter::traits::iterator::Iterator::rev")
def _(e, st, f, args, muts, fr, site):
    """a sequence of at most one element is already distinct, sorted and reversed"""
    v = e.deep1(st, args[0])
    if e.exact and v[0] == "seq" and len(v[2]) <= 1 and not has_sp(v):
        return [(st, seq(v[2]))]
    return None


@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def _(e, st, f, args, muts, fr, site):
    """x.try_into() is U::try_from(x)"""
    if not e.exact or len(f.args) < 2:
        return None
    g = type(f).__new__(type(f))
    for a in f.__slots__:
        setattr(g, a, getattr(f, a))
    g.canon, g.rcanon, g.rid = "core::convert::TryFrom::try_from", None, None
    if f.canon.endswith("try_into"):
        g.args = type(f.args)([f.args[1], f.args[0]]) if isinstance(f.args, (list, tuple)) else f.args
    return [(st, e.opaque(st, g, args, muts, site))]


def _sort(to):
    def m(e, st, f, args, muts, fr, site):
        """sorting a vector in place is replacing it by its (stably) sorted iteration"""
        if not e.exact or args[0][0] != "ref":
            return None
        g = type(f).__new__(type(f))
        for a in f.__slots__:
            setattr(g, a, getattr(f, a))
        g.canon, g.rcanon, g.rid, g.rkind = "itertools::Itertools::" + to, None, None, None

        def gen():
            for s, v in e.call_fn(st, g, [e.deep1(st, args[0])] + list(args[1:]), [False] * len(args), fr, site):
                e.write(s, args[0][1], args[0][2], v)
                yield s, UNIT

        return gen()

    return m


for _a, _b in (("sort", "sorted"), ("sort_by", "sorted_by"), ("sort_by_key", "sorted_by_key")):
    for _p in ("alloc::slice::", "[T]::", "core::slice::", "alloc::vec::Vec::"):
        MODELS[_p + _a] = _sort(_b)


@model("core::fmt::Formatter::write_fmt", "core::fmt::Formatter::write_str")
def _(e, st, f, args, muts, fr, site):
    """writing nothing"""
    if e.exact and e.deep1(st, args[1]) == ("s", ""):
        return [(st, ("a", RES, "Ok", (UNIT,)))]
    return None
